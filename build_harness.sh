#!/bin/bash
# (re)build: symbolic executor, IR of harness + /repo + std, native replay runner
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTC CARGO_INCREMENTAL CARGO_TARGET_DIR RUSTFLAGS CARGO_PROFILE_DEV_DEBUG
B=$PWD/build
mkdir -p "$B"
( cd symex && RUSTUP_TOOLCHAIN=stable cargo build --release --offline -q --target-dir "$B/symex" ) & p1=$!
( cd harness && RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="--emit=llvm-ir,link -Zshare-generics=n -Cno-vectorize-loops -Cno-vectorize-slp -Awarnings" \
	cargo build --offline -q --lib --profile ir -Zbuild-std=std,panic_abort --target x86_64-unknown-linux-gnu --target-dir "$B/ir" ) & p2=$!
( cd harness && RUSTUP_TOOLCHAIN=stable RUSTFLAGS="-Awarnings" cargo build --offline -q --bin native --target-dir "$B/native" ) & p3=$!
rc=0
wait $p1 || rc=1; wait $p2 || rc=1; wait $p3 || rc=1
exit $rc
