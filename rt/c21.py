from .base import *
from .c08 import gcfg, response
def case(g):
    d = gcfg(g, 2, 8); d['n'] = max(3, d['n']) if g.chance(.9) else d['n']
    return dict(hist=g.hist(.4), g=d, ks=kspecs(g, g.k(1, 4)), s=g.seed(), method=g.choice(['exact', 'exact', 'chebyshev']), order=g.choice([3, 10, 30]), lap=g.choice(['combinatorial', 'normalized']), via=g.choice(['compute_frame', 'toarray']))
def check(p):
    from pygsp import filters
    F = Fails(); G, W = mk(p['g'], p['lap']); N = len(W)
    if p['method'] == 'chebyshev':
        if not np.triu(W, 1).any(): return F
        G.estimate_lmax('bounds')
    ks = kernels(p['ks']); f = filters.Filter(G, ks)
    if p['hist']: warm(G, p['hist'], p['lap'], f)
    if p['hist'] and p['method'] == 'chebyshev': G.estimate_lmax('bounds')
    kw = dict(method=p['method']); nf = len(ks)
    if p['method'] == 'chebyshev': kw['order'] = p['order']
    T = np.asarray(f.compute_frame(**kw)); H = response(lap_oracle(W, p['lap']), ks); sc = 1 + max(np.abs(h).sum() for h in H) * 4
    F.true(f'frame shape {T.shape}', T.shape == (N * nf, N))
    if F: return F
    if p['method'] == 'exact':
        F.eq('frame matrix', T, np.concatenate(H), 1e-8, sc)
        if p['via'] == 'toarray': pass
    x = signal([N], p['s']); a = np.asarray(f.analyze(x, **kw)).reshape(N, nf)
    F.eq('frame times signal is analysis', (T @ x).reshape(nf, N).T, a, 1e-8, sc)
    i = p['s'] % N; d = np.zeros(N); d[i] = 1
    loc = np.asarray(f.localize(i, **kw)).reshape(N, nf)
    F.eq('localisation', loc, np.sqrt(N) * np.asarray(f.filter(d, **kw)).reshape(N, nf), 1e-9, sc)
    if p['method'] == 'exact':
        F.eq('localisation from the spectrum', loc, np.sqrt(N) * np.stack([h[:, i] for h in H], 1), 1e-8, sc * N)
        A, B = f.estimate_frame_bounds(G.e); en = (a ** 2).sum(); nx = (x ** 2).sum()
        F.true(f'energy {en} outside [{A * nx}, {B * nx}]', A * nx - 1e-8 * sc ** 2 <= en <= B * nx + 1e-8 * sc ** 2)
    return F
