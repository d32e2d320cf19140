#!/bin/bash
# runs the executor over a tour of the standard library and of IR features (harness/src/selftest.rs);
# every path is replayed natively and must observe the same values
cd "$(dirname "$0")/.." && ./build_harness.sh || exit 1
LL=$(python3 -c 'import check; print(" ".join(check.ll_args()))')
rc=0; mkdir -p work/selftest
for p in 0 1 2 3 4 6 7 8 9,0 9,1 9,2 9,3 9,4 9,5 9,6 9,7 9,8; do
	./build/symex/release/symex $LL --entry h_std --params 0,$p --native build/native/debug/native --work work/selftest --out work/selftest/out.json --time 100 || { echo "h_std $p: $?"; rc=1; }
done
exit $rc
