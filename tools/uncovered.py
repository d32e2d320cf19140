#!/usr/bin/env python3
"""lists the code lines of /repo (tests excepted) that no run in work/ has encoded; run checks first"""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cov = {}
for f in glob.glob(V + '/work/C*/*.json'):
    for k, v in json.load(open(f))['lines'].items():
        cov.setdefault(k, set()).update(v)
for k in sorted(cov):
    p = k if k.startswith('/') else '/repo/' + k
    src = open(p).read().split('\n')
    end = next((i for i, l in enumerate(src) if re.match(r'\s*#\[cfg\(test\)\]|\s*mod tests?\b', l)), len(src))
    miss = [i + 1 for i, l in enumerate(src[:end]) if i + 1 not in cov[k] and re.search(r'[;({]|=>|\w\(', l) and not re.match(r'\s*(//|use |pub use|#|\*|impl|pub struct|struct|pub trait|trait|type |where|[})\]]*;?$)', l)]
    print('== %s: %d encoded, %d other' % (k, len(cov[k]), len(miss)))
    for i in miss:
        print('%5d %s' % (i, src[i - 1]))
