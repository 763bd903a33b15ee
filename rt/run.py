"""Parallel execution of the executable contracts of one property (deterministic case list, seeded)."""
import os, sys, time, json, importlib, traceback, multiprocessing as mp
def check_case(mod, p, limit=None):
    """list of failure strings (empty: contract holds)"""
    try:
        return list(mod.check(p))
    except Exception as ex:
        tb = traceback.extract_tb(sys.exc_info()[2])
        at = [f for f in tb if '/repo/pygsp/' in f.filename]
        where = f'{at[-1].filename.split("/repo/")[-1]}:{at[-1].lineno}' if at else f'{tb[-1].filename}:{tb[-1].lineno}'
        return [f'unexpected {type(ex).__name__} at {where}: {str(ex)[:300]}']
def params(mod, seed, i, tier):
    from . import base
    if hasattr(mod, 'fixed') and i < len(mod.fixed()): return mod.fixed()[i]
    return json.loads(json.dumps(mod.case(base.Gen(seed, i, tier))))
def worker(a):
    name, seed, tier, lo, step, count, deadline = a
    from . import base
    mod = importlib.import_module('rt.' + name)
    done = 0; bad = []; kinds = set()
    i = lo
    fx = mod.fixed() if hasattr(mod, 'fixed') else []
    while i < count:
        if time.time() > deadline: break
        p = fx[i] if i < len(fx) else json.loads(json.dumps(mod.case(base.Gen(seed, i, tier))))
        kinds.add(hash(json.dumps(p, sort_keys=True)))
        r = check_case(mod, p)
        done += 1
        if r:
            bad.append((i, p, r))
            if len(bad) >= 5: break
        i += step
    return done, bad, len(kinds)
def run(name, seed, tier, count, seconds, procs=8):
    t0 = time.time()
    jobs = [(name, seed, tier, k, procs, count, t0 + seconds) for k in range(procs)]
    with mp.get_context('spawn').Pool(procs) as pool: res = pool.map(worker, jobs)
    bad = sorted((b for _, bs, _ in res for b in bs), key=lambda b: (len(json.dumps(b[1])), b[0]))
    mod = importlib.import_module('rt.' + name)
    return dict(samples=[params(mod, seed, i, tier) for i in (0, 1)], evaluations=sum(r[0] for r in res), distinct=sum(r[2] for r in res), bad=bad, wall=time.time() - t0)
if __name__ == '__main__':
    sys.path.insert(0, '/verif')
    from rt.run import run as _run
    n = sys.argv[1]; c = int(sys.argv[2]) if len(sys.argv) > 2 else 400; seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    r = _run(n, seed, 'quick', c, 300)
    print(n, r['evaluations'], r['distinct'], f"{r['wall']:.1f}s", 'FAILURES' if r['bad'] else 'ok', len(r['bad']))
    for i, p, f in r['bad'][:int(sys.argv[4]) if len(sys.argv) > 4 else 3]: print('  ', json.dumps(p)[:600]); print('     ', '\n      '.join(x[:300] for x in f[:3]))
