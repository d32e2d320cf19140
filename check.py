#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] -- decide one property by symbolic execution of /repo's current code.

exit 0: held on everything explored; 1: VIOLATION line printed (replayed natively); 3: no verdict."""
import concurrent.futures as cf, fcntl, glob, json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from checks import CHECKS, COMMON_ASSUMPTIONS  # noqa: E402

REPO = '/repo'


def die(msg):
    print('NO-VERDICT: ' + msg)
    sys.stdout.flush()
    sys.exit(3)


def build():
    os.makedirs(V + '/build', exist_ok=True)
    with open(V + '/build/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run([V + '/build_harness.sh'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-4000:])
        die('build failed')


def newest(crate):
    """the IR of each version of a crate"""
    fs = {}
    for f in glob.glob('%s/build/ir/x86_64-unknown-linux-gnu/ir/build/%s/*/out/%s-*.ll' % (V, crate, crate)):
        fs[os.path.basename(os.path.dirname(os.path.dirname(f)))] = f
    fs = sorted(fs.values(), key=os.path.getmtime, reverse=True)
    return fs if crate == 'rand' else fs[:1]


def ll_args():
    out = []
    for c in ['vh', 'evalx', 'time', 'iodyn', 'adapton', 'rand', 'core', 'alloc', 'std', 'hashbrown', 'compiler_builtins', 'libc']:
        for f in newest(c):
            out += ['--ll', f]
    return out


def cross_check(files):
    """second opinion on recorded queries from other solvers"""
    n = 0
    for f in files:
        want = 'unsat' if '.unsat.' in f else 'sat'
        for cmd in (['cvc5', '--tlimit=20000', f], ['z3-new', '-T:20', f]):
            if not shutil.which(cmd[0]):
                continue
            o = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout
            first = (o.split('\n') or [''])[0].strip()
            if first not in ('sat', 'unsat'):
                continue  # inconclusive
            if first != want:
                die('solver disagreement on %s: z3 %s, %s %s' % (f, want, cmd[0], first))
            n += 1
    return n


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = CHECKS[pid]
    build()
    tb = time.time() - t0
    work = '%s/work/%s' % (V, pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(V + '/evidence', exist_ok=True)
    known = [l for l in open(V + '/known_findings.txt').read().split('\n') if l.startswith('known: property=%s ' % pid)] if os.path.exists(V + '/known_findings.txt') else []
    seen = set()

    def is_known(h, v):
        for k in known:
            if ('key=%s:%s ' % (h, v['kind'])) in k + ' ':
                seen.add(k)
                return True
        return False
    lls = ll_args()
    jobs = list(c['quick']) if tier == 'quick' else list(c.get('thorough') or c['quick'])
    total = 780 if tier == 'quick' else 6 * 3600
    procs = []
    for ji, j in enumerate(jobs):
        n = j.get('shards', 1)
        for s in range(n):
            procs.append((ji, j, s, n))
    # the large jobs first
    procs.sort(key=lambda x: -x[1].get('cost', 1))

    halt = threading.Event()

    def run(a):
        ji, j, s, n = a
        lab = '%s-%d-%d' % (j['h'], ji, s)
        out = '%s/%s.json' % (work, lab)
        left = max(10, int(total - (time.time() - t0)))
        cmd = [V + '/build/symex/release/symex'] + lls + [
            '--entry', j['h'], '--params', ','.join(map(str, j['p'])), '--shard', '%d/%d' % (s, n),
            '--native', V + '/build/native/debug/native', '--work', work, '--label', lab, '--out', out,
            '--seed', str(seed), '--samples', str(j.get('samples', 6 if n == 1 else 2)), '--time', str(left),
            '--max-steps', str(j.get('steps', 20000000)), '--dump', '1' if s == 0 else '0', '--repo', REPO + '/']
        if halt.is_set():
            return ji, s, 0, '', None
        with open(out + '.log', 'w+') as lf:
            p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT)
            # a violation elsewhere decides the check: the rest is not needed
            while True:
                try:
                    p.wait(0.2)
                    break
                except subprocess.TimeoutExpired:
                    if halt.is_set():
                        p.kill()
                        p.wait()
                        return ji, s, 0, '', None
            lf.seek(0)
            txt = lf.read()
        os.remove(out + '.log')
        d = None
        if os.path.exists(out):
            try:
                d = json.load(open(out))
            except ValueError:
                d = None
        return ji, s, p.returncode, txt, d

    res = []
    stop = False
    errors = []
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        futs = {ex.submit(run, a): a for a in procs}
        for f in cf.as_completed(futs):
            if f.cancelled():
                continue
            r = f.result()
            res.append(r)
            ji, s, rc, txt, d = r
            if rc not in (0, 1):
                errors.append('%s %s shard %d: exit %d: %s' % (jobs[ji]['h'], jobs[ji]['p'], s, rc, txt[-1500:]))
            # a listed finding does not decide the check: the rest still runs
            if rc == 1 and not stop and not (d and all(is_known(jobs[ji]['h'], v) for v in d['violations'])):
                stop = True
                halt.set()
                for g in futs:
                    g.cancel()
    agg = {k: 0 for k in ['paths', 'panicked_paths', 'pruned', 'instrs', 'forks', 'queries', 'sat', 'unsat', 'checks', 'checks_solver', 'validated']}
    solver = 0.0
    mx = {'max_path_constraints': 0, 'max_path_instrs': 0, 'max_inputs': 0, 'solver_max_s': 0.0}
    funs, lines, samples, viol, per = set(), {}, [], [], {}
    reach = {}
    z3v = ''
    for ji, s, rc, txt, d in res:
        if not d:
            continue
        for k in agg:
            agg[k] += d[k]
        solver += d['solver_s']
        for k in mx:
            mx[k] = max(mx[k], d[k])
        z3v = d['z3']
        funs.update(d['functions'])
        for f, ls in d['lines'].items():
            lines.setdefault(f, set()).update(ls)
        if len(samples) < 6 and d['samples']:
            samples.append(d['samples'][0])
        for k, v in d['reach'].items():
            reach.setdefault(ji, {})[int(k)] = reach.get(ji, {}).get(int(k), 0) + v
        e = per.setdefault(ji, {'harness': jobs[ji]['h'], 'params': jobs[ji]['p'], 'what': jobs[ji].get('what', ''), 'paths': 0, 'instrs': 0, 'queries': 0, 'seconds': 0.0})
        e['paths'] += d['paths']; e['instrs'] += d['instrs']; e['queries'] += d['queries']; e['seconds'] = round(e['seconds'] + d['wall_s'], 1)
        for v in d['violations']:
            v['harness'] = jobs[ji]['h']; v['params'] = jobs[ji]['p']
            viol.append(v)
    confirmed = [v for v in viol if v['confirmed']]
    new = [v for v in confirmed if not is_known(v['harness'], v)]
    if not new and not errors:
        for ji, j in enumerate(jobs):
            if any(v['harness'] == j['h'] and v['params'] == j['p'] for v in confirmed):
                continue
            for k in j.get('reach', [0]):
                if not reach.get(ji, {}).get(k):
                    errors.append('%s %s: witness %d never reached (vacuous)' % (j['h'], j['p'], k))
    dumps = sorted(glob.glob(work + '/*.smt2'))
    crossed = cross_check(dumps[:: max(1, len(dumps) // 4)][:4]) if dumps and not confirmed else 0
    for f in dumps:
        os.remove(f)
    # functions to report only for the property's own code
    cov = {
        'states': agg['paths'], 'transitions': agg['instrs'], 'traces_validated_against_impl': agg['validated'],
        'samples': samples or ['none'],
        'explanation': 'states: execution paths, each covering every value that satisfies its path condition; transitions: LLVM IR instructions interpreted symbolically',
        'forks': agg['forks'], 'solver_queries': agg['queries'], 'queries_sat': agg['sat'], 'queries_unsat': agg['unsat'],
        'solver_seconds': round(solver, 2), 'slowest_query_seconds': round(mx['solver_max_s'], 3), 'solver': z3v,
        'cross_checked_by_other_solvers': crossed,
        'assertions_evaluated': agg['checks'], 'assertions_decided_by_solver': agg['checks_solver'],
        'assumption_pruned_paths': agg['pruned'], 'paths_ending_in_expected_panic': agg['panicked_paths'],
        'max_path_constraints': mx['max_path_constraints'], 'max_path_instructions': mx['max_path_instrs'], 'max_symbolic_inputs': mx['max_inputs'],
        'functions_encoded': sorted(funs), 'repo_lines_encoded': {f: len(l) for f, l in sorted(lines.items())},
        'bounds': c['bounds'], 'outside': c['outside'], 'runs': [per[k] for k in sorted(per)],
        'exhaustive': False, 'build_seconds': round(tb, 1),
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': COMMON_ASSUMPTIONS + c.get('assumptions', []),
          'wall_s': round(time.time() - t0, 1), 'violations': len(new)}
    with open('%s/evidence/%s.json' % (V, pid), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for k in sorted(seen):
        print('KNOWN-FINDING: ' + k[len('known: '):])
    if new:
        v = new[0]
        print('%s %s: %s %s; inputs %s' % (v['harness'], v['params'], v['kind'], v['msg'], v['inputs']))
        for l in v['trace'][:6]:
            print('   at ' + l)
        print('   natively: ' + v['native'].strip()[:300])
        print('VIOLATION property=%s replay=%s' % (pid, v['replay']))
        sys.exit(1)
    if errors:
        for e in errors[:5]:
            print(e)
        die('%d error(s)' % len(errors))
    print('%s %s: held; %d paths, %d instructions, %d queries (%.1f s solver), %d path models replayed natively, %.1f s' % (
        pid, tier, agg['paths'], agg['instrs'], agg['queries'], solver, agg['validated'], time.time() - t0))
    sys.exit(0)


if __name__ == "__main__":
    main()
