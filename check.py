#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough

Regenerates every proof obligation of the property from /repo's current source
(clang's typed AST), discharges them, and - for failed obligations - searches a
concrete failing input by running the real code against the same contract.

exit 0: every obligation discharged (or, for functions outside the verifier's
        reach, the bounded stand-in found nothing; labelled bounded)
exit 1: VIOLATION line"""
import sys, os, json, time, subprocess, tempfile, shutil, re, threading, queue
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'vc'))
REPO = os.environ.get('LIBRA_REPO', '/repo')
import props

PY = shutil.which('python3-vt') or 'python3'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NPROC = 8


def sh(cmd, timeout, **kw):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
        return r.returncode, r.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as x:
        return 'timeout', (x.stdout or b'').decode('utf-8', 'replace')


def run_job(name, tmp, deadline):
    mod, fn, arg, limit = props.J[name]
    out = os.path.join(tmp, name + '.json')
    lim = max(5, min(limit, deadline - time.time()))
    env = dict(os.environ, PYTHONHASHSEED='0', LIBRA_REPO=REPO)
    rc, txt = sh([PY, os.path.join(V, 'vc', 'run.py'), mod, fn, arg, out], lim, env=env)
    if os.path.exists(out):
        try:
            return json.load(open(out))
        except ValueError:
            pass
    return {'function': fn, 'source': '', 'obligations': 0, 'discharged': 0, 'failed': [], 'wall_s': lim,
            'undecided': ['time limit of %ds' % lim if rc == 'timeout' else 'verifier process ended: %s %s' % (rc, txt[-300:])]}


def dictionary(tmp, files):
    """integer literals of the sources under test, fed to the input generators"""
    lits = set()
    for f in files:
        p = os.path.join(REPO, f)
        if not os.path.exists(p):
            continue
        for m in re.findall(r'(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)(?:[uUlL]*)(?![\w.])', open(p, encoding='latin1').read()):
            try:
                v = int(m, 0)
            except ValueError:
                v = int(m)
            for w in (v - 1, v, v + 1, -v):
                if abs(w) < 2 ** 62:
                    lits.add(w)
    path = os.path.join(tmp, 'dict')
    open(path, 'w').write('\n'.join(str(x) for x in sorted(lits)))
    return path


def build_harness(h, tmp):
    d = os.path.join(tmp, 'h_' + h)
    os.makedirs(d, exist_ok=True)
    srcs = props.HARNESS[h]
    base = ['clang++', '-w', '-O1', '-g', '-march=native', '-std=c++14', '-fsanitize=address', '-fno-omit-frame-pointer', '-I' + REPO + '/include', '-I' + os.path.join(V, 'harness'), '-I' + REPO + '/src', '-DREPO="%s"' % REPO]
    ps, objs = [], []
    for i, (s, fl) in enumerate(srcs):
        p = os.path.join(V, 'harness', s[1:]) if s[0] == '@' else os.path.join(REPO, s)
        o = os.path.join(d, '%d.o' % i)
        objs.append(o)
        ps.append(subprocess.Popen(base + fl + ['-c', p, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
    err = ''
    for p in ps:
        o, _ = p.communicate()
        if p.returncode:
            err += o.decode('utf-8', 'replace')[-600:]
    if err:
        return None, err
    exe = os.path.join(d, h)
    rc, txt = sh(['clang++', '-fsanitize=address'] + objs + ['-lgmpxx', '-lgmp', '-lpthread', '-o', exe], 120)
    return (exe, '') if rc == 0 else (None, txt[-600:])


def run_harness(h, exe, tests, secs, seed, dic, tmp, pool=None):
    cwd = os.path.join(tmp, 'w_%s_%s_%d' % (h, tests, seed))
    os.makedirs(cwd, exist_ok=True)
    cmd = [exe, tests, str(secs), str(seed), dic] + ([pool] if pool else [])
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:alloc_dealloc_mismatch=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:log_path=' + os.path.join(cwd, 'asan'))
    rc, txt = sh(cmd, secs + 120, cwd=cwd, env=env)
    for x in sorted(os.listdir(cwd)):
        if x.startswith('asan.'):
            txt += open(os.path.join(cwd, x), errors='replace').read()[:4000]
    shutil.rmtree(cwd, ignore_errors=True)
    if rc == 0:
        m = re.findall(r'OK iterations=(\d+) comparisons=(\d+)', txt)
        return 'ok', (int(m[-1][0]), int(m[-1][1])) if m else (0, 0), txt[-500:]
    if 'COUNTEREXAMPLE' in txt:
        return 'counterexample', None, txt[txt.index('COUNTEREXAMPLE'):][:20000]
    if rc == 'timeout':
        return 'timeout', None, txt[-2000:]
    return 'crash', None, ('exit status %s\n' % rc) + txt[-6000:]


def model_pool(results, tmp):
    """operand values of the solver's countermodels, replayed on the real code first"""
    vals = set()
    for r in results.values():
        for part in r.get('parts', []):
            for m in part.get('models', []):
                for x in ('a', 'b', 'x'):
                    g = lambda k: int(m.get(x + '.' + k, 0))
                    vals.add(g('lo') + (g('mid') << 64) + (g('hi') << 128))
                    vals.add(g('lo') + (g('mid') << 128) + (g('hi.lo') << 256) + (g('hi.mid') << 320) + (g('hi.hi') << 384))
                    if x in m:
                        vals.add(abs(int(m[x])))
    if not vals:
        return None
    path = os.path.join(tmp, 'pool')
    open(path, 'w').write('\n'.join(str(v) for v in sorted(vals)[:200]))
    return path


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    t0 = time.time()
    spec = props.PROPS[prop]
    thorough = tier == 'thorough'
    deadline = t0 + (3000 if thorough else 640)
    tmp = tempfile.mkdtemp(prefix='libra_%s_' % prop)
    try:
        rc = decide(prop, tier, spec, thorough, deadline, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def decide(prop, tier, spec, thorough, deadline, tmp, t0):
    jobs = list(dict.fromkeys(spec['jobs']))
    # ---- obligations, in parallel
    heavy = {'fastv.verify': 9, 'fast.phase2_init': 8, 'fast.phase1_init': 7, 'trad.phase1_update': 6, 'trad.phase2_update': 6, 'blk.phase1_update': 6, 'blk.phase2_update': 6}
    jobs.sort(key=lambda j: -heavy.get(j, props.J[j][3] / 1000.0))
    q = queue.Queue()
    for j in jobs:
        q.put(j)
    results = {}

    def worker():
        while True:
            try:
                j = q.get_nowait()
            except queue.Empty:
                return
            results[j] = run_job(j, tmp, deadline)
    ths = [threading.Thread(target=worker) for _ in range(min(NPROC, max(1, len(jobs))))]
    for t in ths:
        t.start()
    # ---- replay harness: the contract evaluated on the running code
    srcs = sorted({s for h, _ in spec['harness'] for s, _ in props.HARNESS[h] if s[0] != '@'} | {'src/linear_gkr/prime_field.cpp'} | set(spec.get('dict', [])))
    dic = dictionary(tmp, srcs)
    hres, exes, notes = [], {}, []
    for h, tests in spec['harness']:
        if h not in exes:
            exes[h] = build_harness(h, tmp)
        if exes[h][0] is None:
            notes.append('replay harness %s does not build against the current tree: %s' % (h, exes[h][1][:400]))

    def sweep(secs, seeds, pool=None):
        rs = []
        ts = []
        for h, tests in spec['harness']:
            if exes[h][0] is None:
                continue
            for s in seeds:
                def one(h=h, tests=tests, s=s):
                    rs.append((h, tests, s) + run_harness(h, exes[h][0], tests, secs, s, dic, tmp, pool if h == 'field' else None))
                t = threading.Thread(target=one)
                t.start()
                ts.append(t)
        for t in ts:
            t.join()
        return rs
    hres += sweep(120 if thorough else 12, [SEED, SEED + 1000] if not thorough else range(SEED, SEED + 4))

    def bad():
        return [r for r in hres if r[3] in ('counterexample', 'crash')]
    if not bad():
        for t in ths:
            t.join()
    failed = [(j, f) for j in results for f in results[j]['failed']]
    undecided = [(j, u) for j in results for u in results[j]['undecided']]
    if (failed or undecided) and not bad():
        hres += sweep(200 if thorough else 60, range(SEED + 1, SEED + 7), model_pool(results, tmp))
    if bad():
        for j in list(q.queue):
            try:
                q.get_nowait()
            except queue.Empty:
                break
        # do not wait for long proofs once a failing input is in hand
        end = time.time() + 150
        for t in ths:
            t.join(max(0.1, min(end, deadline) - time.time()))
        failed = [(j, f) for j in results for f in results[j]['failed']]
        undecided = [(j, u) for j in results for u in results[j]['undecided']]
    definite = [(j, f) for j, f in failed if f['definite']]
    obl = sum(r['obligations'] for r in results.values())
    dis = sum(r['discharged'] for r in results.values())
    cases = sum(r[4][1] for r in hres if r[3] == 'ok' and r[4])
    its = sum(r[4][0] for r in hres if r[3] == 'ok' and r[4])
    rep = None
    if bad() or definite:
        os.makedirs(os.path.join(V, 'evidence', 'replay'), exist_ok=True)
        rep = os.path.join(V, 'evidence', 'replay', '%s.txt' % prop)
        with open(rep, 'w') as f:
            f.write('property %s\n' % prop)
            if bad():
                h, tests, s, kind, _, txt = bad()[0]
                f.write('failing input, found by running the code under /repo against its contract:\n'
                        '  harness %s, tests %s, seed %d (%s)\n%s\n\n' % (h, tests, s, kind, txt))
            for j, x in failed[:60]:
                f.write('FAILED OBLIGATION %s [%s] %s%s\n   %s\n' % (j, x['fn'], x['name'], '' if x['definite'] else ' (not decided)', x['detail']))
            for j, u in undecided:
                f.write('UNDECIDED %s: %s\n' % (j, u))
    proved = not failed and not undecided and obl > 0 and obl == dis and len(results) == len(jobs)
    from assumptions import assumptions
    ev = {'property': prop, 'tier': tier, 'seed': SEED, 'level': 'proof', 'wall_s': round(time.time() - t0, 2),
          'violations': 1 if rep else 0,
          'coverage': {
              'obligations': obl, 'discharged': dis,
              'checker_cmd': '%s check.py %s %s' % (PY, prop, tier),
              'trusted_base': ['clang 18 front end (typed AST)', 'vc/engine.py, vc/loops.py, vc/terms.py (VC generator, polynomial normaliser)', 'z3 %s (integer side conditions)' % zver(), 'the specifications in vc/spec_*.py'],
              'status': 'proved' if proved else ('violated' if rep else 'partly bounded: some functions were outside the verifier\'s reach on this tree'),
              'functions': [{'job': j, 'source': r.get('source', ''), 'obligations': r['obligations'], 'discharged': r['discharged'], 'wall_s': r.get('wall_s'),
                             'solver': r.get('stats'), 'undecided': r['undecided'], 'not_decided_obligations': [f['name'] for f in r['failed'] if not f['definite']][:10],
                             'dropped': sorted({d for p in r.get('parts', []) for d in p.get('dropped', [])})} for j, r in sorted(results.items())],
              'replay_runs': {'note': 'bounded: the same contracts evaluated on the running code; never counted as proof', 'iterations': its, 'comparisons': cases,
                              'runs': [{'harness': r[0], 'tests': r[1], 'seed': r[2], 'outcome': r[3]} for r in hres]},
              'notes': notes},
          'assumptions': assumptions(prop, spec)}
    if not proved:
        ev['level'] = 'other'
        ev['coverage']['explanation'] = ev['coverage']['status']
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    for line in open(os.path.join(V, 'known-findings.txt')):
        m = re.match(r'known: property=(\S+) (.*)', line)
        if m and m.group(1) == prop:
            print('KNOWN-FINDING: property=%s %s' % (prop, m.group(2)))
    print('%s %s: %d obligations, %d discharged, %d functions under contract, %d runtime comparisons, %.0fs' % (prop, tier, obl, dis, len(results), cases, time.time() - t0))
    for j, u in undecided:
        print('  undecided (bounded stand-in used) %s: %s' % (j, u[:300]))
    for j, f in failed[:10]:
        print('  failed %s: %s%s' % (j, f['name'][:200], '' if f['definite'] else ' (not decided)'))
    for n in notes:
        print('  ' + n[:300])
    if bad():
        print('  ' + bad()[0][5][:600].replace('\n', '\n  '))
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        return 1
    if definite:
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rep))
        return 1
    return 0


def zver():
    return '4.8.12/py'


if __name__ == '__main__':
    main()
