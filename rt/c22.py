from .base import *
from .c08 import gcfg
def case(g):
    d = gcfg(g, 2, 8); d['connected'] = True; d['isolated'] = False
    t = g.choice(['heat', 'wave', 'rect', 'exp', 'mex'])
    if t == 'heat': a = dict(scale=[round(g.uni(.1, 20), 2) for _ in range(g.k(1, 5))], scalar=g.chance(.25), normalize=g.chance(.5))
    elif t == 'wave':
        n = g.k(1, 4); a = dict(time=[round(g.uni(0, 10), 2) for _ in range(n)], speed=[round(g.uni(.1, 1.99), 2) for _ in range(g.choice([1, n]))], scalar=g.choice([None, 'time', 'speed']), arr=g.chance(.2))
    elif t in ('rect', 'exp'):
        lo, hi = sorted([round(g.uni(0, 1), 3), round(g.uni(0, 1), 3)]); m = g.choice(['low', 'high', 'band', 'none', 'default'])
        a = dict(band_min=lo if m in ('high', 'band') else None, band_max=hi if m in ('low', 'band') else None) if m != 'default' else {}
        if t == 'exp' and g.chance(.5): a['slope'] = g.choice([.5, 1, 2, 3])
    else: a = dict(Nf=g.k(2, 7), lpfactor=g.choice([20, 10, 5]), normalize=g.chance(.5), own=g.chance(.4))
    if t == 'rect' and g.chance(.5):      # exact at the edges: lmax = 4, edges and points are dyadic
        a = {k: v if v is None else round(v * 16) / 16 for k, v in a.items()}; d = None
    return dict(g=d, t=t, a=a, s=g.seed(), shape=g.choice([[12], [3, 4], [1]]))
def check(p):
    from pygsp import filters
    F = Fails(); from pygsp import graphs
    if p['g'] is None: G = graphs.Ring(6); W = G.W.toarray()
    else: G, W = mk(p['g'])
    if not np.triu(W, 1).any(): return F
    G.compute_fourier_basis() if p['g'] else G.estimate_lmax('bounds'); lm = float(G.lmax); e = np.asarray(G.e) if p['g'] else None; a = dict(p['a']); t = p['t']
    x = np.random.RandomState(p['s']).uniform(0, lm, p['shape']); z = x / lm
    if len(p['shape']) == 1 and len(x) > 3: x[0] = 0; x[1] = lm; z = x / lm
    if p['g'] is None: x = np.round(np.random.RandomState(p['s']).uniform(0, 64, p['shape'])) / 16; z = x / lm
    if t == 'heat':
        sc = a['scale']; f = filters.Heat(G, sc[0] if a['scalar'] and len(sc) == 1 else sc, normalize=a['normalize'])
        O = [np.exp(-s * z) / (np.linalg.norm(np.exp(-s * e / lm)) if a['normalize'] else 1) for s in sc]
    elif t == 'wave':
        T, S = a['time'], a['speed']; at, as_ = T, S
        if a['scalar'] == 'time' and len(T) == 1: at = T[0]
        if a['scalar'] == 'speed' and len(S) == 1: as_ = S[0]
        if a['arr'] and isinstance(as_, list): as_ = np.array(as_)
        f = filters.Wave(G, time=at, speed=as_); n = max(len(T), len(S)); T = T * n if len(T) == 1 else T; S = S * n if len(S) == 1 else S
        O = [np.cos(tt * np.arccos(1 - ss ** 2 * z / 2)) for tt, ss in zip(T, S)]
        F.raises('speed out of range', ValueError, lambda: filters.Wave(G, time=1, speed=2.))
    elif t == 'rect':
        f = filters.Rectangular(G, **a); lo, hi = a.get('band_min'), a.get('band_max', .2)
        O = [np.ones_like(x) * (1 if lo is None else x / lm >= lo) * (1 if hi is None else x / lm <= hi)]
    elif t == 'exp':
        f = filters.Expwin(G, **a); lo, hi = a.get('band_min'), a.get('band_max', .2); V = f.evaluate(x)
        F.true(f'values outside [0, 1]: {V.min()}, {V.max()}', V.min() >= 0 and V.max() <= 1)
        sl = a.get('slope', 1); ex = lambda u: np.where(u <= 0, 0, np.exp(-sl / np.where(u <= 0, -1, u)))
        h = lambda u: ex(u) / (ex(u) + ex(1 - u)); O = [np.ones_like(x) * (1 if hi is None else h(.5 - z + hi)) * (1 if lo is None else h(.5 + z - lo))]
        if hi is not None and lo is None: F.eq('one half at the upper edge', f.evaluate(np.array([hi * lm])), [[.5]], 1e-7)
        if lo is not None and hi is None: F.eq('one half at the lower edge', f.evaluate(np.array([lo * lm])), [[.5]], 1e-7)
    else:
        own = [round(.3 + k, 2) for k in range(a['Nf'] - 1)] if a['own'] else None
        f = filters.MexicanHat(G, Nf=a['Nf'], lpfactor=a['lpfactor'], normalize=a['normalize'], scales=own); lmin = lm / a['lpfactor']
        sc = own if own else np.exp(np.linspace(np.log(2. / lmin), np.log(1. / lm), a['Nf'] - 1)) if a['Nf'] > 1 else []
        if not own: F.eq('scales', f.scales, sc, 1e-9)
        O = [1.2 * np.exp(-1) * np.exp(-(x / .4 / lmin) ** 4)] + [(np.sqrt(s) if a['normalize'] else 1) * s * x * np.exp(-s * x) for s in sc]
        F.raises('wrong number of scales', ValueError, lambda: filters.MexicanHat(G, Nf=a['Nf'], scales=[1.] * (a['Nf'] + 1)))
    F.true(f'{f.Nf} filters instead of {len(O)}', f.Nf == len(O))
    F.eq(f'{t} {p["a"]}', f.evaluate(x), np.stack(O), 1e-8, 1)
    return F
