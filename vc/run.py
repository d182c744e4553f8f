"""One verification job in its own process:  run.py MODULE FUNCTION [ARG] OUT.json"""
import sys, json, time, os, resource, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    mod, fn, arg, out = sys.argv[1:5]
    t0 = time.time()
    res = {'function': fn + (':' + arg if arg else ''), 'source': '', 'obligations': 0, 'discharged': 0, 'undecided': [], 'failed': [], 'names': []}
    try:
        m = __import__(mod)
        Fs = getattr(m, fn)(arg) if arg else getattr(m, fn)()
        Fs = Fs if isinstance(Fs, list) else [Fs]
        reps = []
        for F in Fs:
            r = F.report()
            r['failed'] = [{'name': o.name, 'definite': bool(o.definite), 'detail': o.detail[:3000], 'fn': o.fn} for o in F.e.obls if not o.ok]
            r['names'] = sorted({o.name for o in F.e.obls})[:400]
            r['dropped'] = sorted({str(x)[:200] for x in F.e.dropped})[:40]
            r['havocs'] = [str(x)[:300] for x in F.e.havocs][:20]
            r['contracts_used'] = sorted({str(x) for x in getattr(F.e, 'used', ())})
            reps.append(r)
        import terms
        res['stats'] = {k: (round(v, 2) if isinstance(v, float) else v) for k, v in terms.STATS.items()}
        res['parts'] = reps
        for k in ('obligations', 'discharged'):
            res[k] = sum(r[k] for r in reps)
        for k in ('undecided', 'failed'):
            res[k] = [x for r in reps for x in r[k]]
        res['source'] = ','.join(sorted({r['source'] for r in reps}))
    except BaseException as x:
        res['undecided'].append('%s: %s' % (type(x).__name__, str(x)[:400]))
        res['trace'] = traceback.format_exc()[-1500:]
    res['wall_s'] = round(time.time() - t0, 2)
    json.dump(res, open(out, 'w'))


main()
