#!/usr/bin/env python3
"""measure.py PID.. : cost of each job of the last run, from the evidence files"""
import json, sys
for p in sys.argv[1:]:
    d = json.load(open('/verif/evidence/%s.json' % p))
    c = d['coverage']
    print(p, d['tier'], 'wall', d['wall_s'], 'build', c['build_seconds'], 'paths', c['states'])
    for r in c['runs']:
        print('   %-14s %-28s paths %7d  instr %10d  q %7d  %6.1f s' % (r['harness'], r['params'], r['paths'], r['instrs'], r['queries'], r['seconds']))
