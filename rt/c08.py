from .base import *
def gcfg(g, lo=1, hi=9): 
    d = g.graph(lo=lo, hi=hi, cap=40, directed=False, neg=False)
    if not 1e-2 <= d['scale'] <= 10: d['scale'] = 1
    return d
def case(g):
    nf = g.k(1, 5); S = g.k(1, 5)
    return dict(hist=g.hist(), sk=g.choice(['float', 'float', 'int']), g=gcfg(g), lap=g.choice(['combinatorial', 'normalized']), ks=kspecs(g, nf), single=g.chance(.1), S=S, shape=g.choice(['N', 'N1', 'NS', 'NS1', 'NSF', 'NF']), s=g.seed(), via=g.choice(['filter', 'filter', 'analyze', 'synthesize', 'matmul']))
def response(G_L, ks):
    e, U = np.linalg.eigh(G_L)
    e = np.maximum(e, 0); e[0] = 0
    return [(U * k(e)) @ U.T for k in ks]
def sshape(code, N, S, Fn):
    return {'N': [N], 'N1': [N, 1], 'NS': [N, S], 'NS1': [N, S, 1], 'NSF': [N, S, Fn], 'NF': [N, Fn]}[code]
def expected(H, x):
    """documented semantics: last axis of size 1 or Nf (when at least 2-D) holds the features"""
    N, Fn = x.shape[0], len(H)
    if x.ndim == 1 or x.shape[-1] not in (1, Fn): x = x[..., None]
    if x.ndim < 3: x = x[:, None, :]
    if x.shape[2] == 1: out = np.stack([np.stack([h @ x[:, s, 0] for h in H], -1) for s in range(x.shape[1])], 1)
    else: out = np.stack([sum(H[f] @ x[:, s, f] for f in range(Fn)) for s in range(x.shape[1])], 1)[..., None]
    return out.squeeze()
def check(p):
    from pygsp import filters
    F = Fails(); G, W = mk(p['g'], p['lap']); N = len(W)
    ks = kernels(p['ks']); f = filters.Filter(G, ks[0] if p['single'] and len(ks) == 1 else ks)
    if p['hist']: warm(G, p['hist'], p['lap'], f)
    L = lap_oracle(W, p['lap']); H = response(L, ks); sc = 1 + max(np.abs(h).sum() for h in H) * 3
    sh = sshape(p['shape'], N, p['S'], len(ks))
    x = signal(sh, p['s'], p['sk']); x0 = x.copy()
    want = expected(H, x); tol = 1e-7
    F.eq(f'exact filtering of shape {sh} with {len(ks)} kernels', f.filter(x, method='exact'), want, tol, sc)
    F.same('signal unchanged', x, x0)
    if x.ndim < 3 or x.shape[-1] == 1: F.eq('analyze', f.analyze(x, method='exact'), want, tol, sc)
    if x.ndim == 3 and x.shape[-1] == len(ks) and len(ks) > 1: F.eq('synthesize', f.synthesize(x, method='exact'), want, tol, sc)
    # adjointness
    a = signal([N, p['S'], 1], p['s'] + 2); b = signal([N, p['S'], len(ks)], p['s'] + 3)
    Aa = np.asarray(f.analyze(a, method='exact')).reshape(N, p['S'], len(ks)); Sb = np.asarray(f.synthesize(b, method='exact') if len(ks) > 1 or True else 0).reshape(N, p['S'])
    F.eq('analysis and synthesis are adjoint', (Aa * b).sum(), (a[..., 0] * Sb).sum(), tol, sc * N * p['S'] * 10)
    F.raises('unknown method', ValueError, lambda: f.filter(x, method='nope'))
    F.raises('wrong number of vertices', ValueError, lambda: f.filter(signal([N + 1], 0), method='exact'))
    return F
