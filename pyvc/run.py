import sys, time
def setup():
    p = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
    if p not in sys.path: sys.path.append(p)
setup()
from . import shims, loader, engine, h as HH, terms as T
_LD = None
def get_loader(root='/repo', fresh=False):
    global _LD
    if _LD is None or fresh: _LD = loader.Loader(root, shims.SHIMS)
    return _LD
def prove(name, fn, ld=None, budget=120, max_paths=200):
    ld = ld or get_loader()
    en = engine.Engine(name, lambda e: fn(HH.H(e)), ld, budget=budget, max_paths=max_paths)
    t0 = time.time(); en.run(); en.wall = time.time() - t0
    return en
def report(en, verbose=True):
    bad = [o for o in en.obligations if not o.ok]
    print(f'{"OK  " if not bad and not en.unsupported and en.obligations else "FAIL"} {en.name}: {len(en.obligations)} obligations, {len(bad)} undischarged, {en.paths} paths, {en.wall:.1f}s')
    for u in sorted(set(en.unsupported)): print('     UNSUPPORTED', u)
    for o in bad[:6]: print('     X', o.name, '--', o.how[:400], o.path)
if __name__ == '__main__':
    sys.path.insert(0, '/verif')
    import importlib
    m = importlib.import_module('contracts.' + sys.argv[1])
    pat = sys.argv[2] if len(sys.argv) > 2 else ''
    t0 = time.time()
    for n, f in m.harnesses():
        if pat in n: report(prove(n, f))
    print(f'{time.time()-t0:.1f}s')
