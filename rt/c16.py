from .base import *
def case(g):
    d = g.graph(lo=2, hi=12, cap=30, directed=False, neg=False, connected=True, kinds=('float', 'ones', 'int')); 
    if not .1 <= d['scale'] <= 10: d['scale'] = 1
    return dict(g=d, s=g.seed(), ncls=g.k(2, 6), obs=g.choice([.1, .3, .6]), tau=g.choice([.01, .1, 1, 10]), it=g.choice([1, 2, 3, 7, 20]), ties=g.chance(.5))
def proj_oracle(Y):
    out = []
    for v in Y:
        u = np.sort(v)[::-1]; c = np.cumsum(u) - 1; k = np.nonzero(u - c / np.arange(1, len(v) + 1) > 0)[0][-1]
        out.append(np.maximum(v - c[k] / (k + 1), 0))
    return np.array(out)
def check(p):
    from pygsp import learning
    import pyunlocbox
    F = Fails(); G, W = mk(p['g']); n = len(W); rng = np.random.RandomState(p['s'])
    M = rng.rand(n) < p['obs']; M[rng.randint(n)] = True; y = rng.randint(0, p['ncls'], n); y[np.nonzero(M)[0][0]] = p['ncls'] - 1
    y0, M0 = y.copy(), M.copy()
    cap = {}
    from pyunlocbox import solvers as ss
    real = ss.solve
    def spy(functions, x0, solver=None, **k):
        cap['f'] = functions; cap['x0'] = np.array(x0); cap['step'] = getattr(solver, 'step', None)
        return real(functions, x0, solver, **k)
    ss.solve = spy
    try: X = learning.classification_tikhonov_simplex(G, y, M, tau=p['tau'], verbosity='NONE', maxit=p['it'])
    finally: ss.solve = real
    X = np.asarray(X)
    F.true(f'shape {X.shape}', X.shape == (n, y[M].max() + 1))
    F.true(f'negative entries {X.min()}', X.min() >= 0); F.eq('rows sum to one', X.sum(1), np.ones(n), 1e-9)
    F.same('labels unchanged', y, y0); F.same('mask unchanged', M, M0)
    if 'f' in cap:
        for d in (1, 2, 3, p['ncls'], 9):
            Z = rng.randn(12, d) * rng.choice([.1, 1, 5])
            if p['ties']: Z = np.round(Z)
            Z0 = Z.copy(); P = cap['f'][1]._prox(Z, 1.); O = proj_oracle(Z)
            F.eq(f'projection onto the {d}-simplex', P, O, 1e-9, 1 + np.abs(Z).max()); F.same('projection argument unchanged', Z, Z0)
        Yl = np.zeros(X.shape); Yl[M, y[M]] = 1; L = lap_oracle(W, 'combinatorial'); Z = rng.randn(*X.shape)
        F.eq('objective', cap['f'][0]._eval(Z), p['tau'] * np.sum(Z * (L @ Z)) + np.sum((M[:, None] * (Z - Yl)) ** 2), 1e-9)
        F.eq('gradient', cap['f'][0]._grad(Z), 2 * (M[:, None] * (Z - Yl) + p['tau'] * L @ Z), 1e-9)
    for t in (0, -1.): F.raises(f'tau={t}', ValueError, lambda: learning.classification_tikhonov_simplex(G, y, M, tau=t, verbosity='NONE'))
    return F
