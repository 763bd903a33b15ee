from .base import *
def case(g):
    d = g.graph(lo=2, hi=12, cap=40, directed=g.chance(.2), neg=False, connected=True, kinds=('float', 'ones', 'int')); 
    if not .1 <= d['scale'] <= 10: d['scale'] = 1
    return dict(g=d, s=g.seed(), cols=g.choice([None, None, 1, 2, 3]), tau=g.choice([0, 0, .01, .1, 1, 5]), what=g.choice(['reg', 'reg', 'cls']), ncls=g.k(2, 5), obs=g.choice([.1, .3, .5, .9]), dense=g.chance(.15), nan=g.chance(.4), lap=g.choice(['combinatorial', 'combinatorial', 'normalized']), yk=g.choice(['float', 'float', 'int']))
def check(p):
    from pygsp import learning
    F = Fails(); G, W = mk(p['g'], p['lap']); n = len(W); rng = np.random.RandomState(p['s'])
    M = rng.rand(n) < p['obs']; M[rng.randint(n)] = True
    tau = p['tau']; L = lap_oracle(W, p['lap'])
    if tau == 0:
        if M.all(): M[rng.randint(n)] = n == 1
        if not M.any(): M[0] = True
    Mf = M.astype(float); u = ~M
    if p['dense'] and tau > 0: G.L = np.asarray(L)
    if p['what'] == 'reg':
        y = rng.randn(n) if p['cols'] is None else rng.randn(n, p['cols'])
        if p.get('yk') == 'int': y = np.rint(5 * y).astype(int)
        if p['nan'] : y[u] = 7000
        if p['dense'] and tau > 0 and y.ndim > 1: y = y[:, 0]
        y0, M0 = y.copy(), M.copy(); X = np.asarray(learning.regression_tikhonov(G, y, M, tau)); Y = np.where(M if y.ndim == 1 else M[:, None], y, 0)
    else:
        y = rng.randint(0, p['ncls'], n); y[rng.choice(np.nonzero(M)[0])] = p['ncls'] - 1
        if p['nan']: y[u] = rng.choice([-5, 40, 0])
        y0, M0 = y.copy(), M.copy(); X = np.asarray(learning.classification_tikhonov(G, y, M, tau))
        Y = np.zeros((n, y[M].max() + 1)); Y[M, y[M]] = 1
    F.same('caller signal unchanged', y, y0); F.same('caller mask unchanged', M, M0)
    F.true(f'shape {X.shape} instead of {Y.shape}', X.shape == Y.shape)
    if F: return F
    if tau > 0:
        A = np.diag(Mf) + tau * L; O = np.linalg.solve(A, Y)
        res = A @ X - Y; F.true(f'residual {np.abs(res).max()}', np.all(np.linalg.norm(res.reshape(n, -1), axis=0) <= 1.01e-5 * np.maximum(np.linalg.norm(Y.reshape(n, -1), axis=0), 1e-30) + 1e-12))
        F.eq('solution', X, O, 1e-3, scale=(1 + np.abs(O).max()) * np.linalg.cond(A))
    else:
        F.same('observed values kept', X[M], Y[M])
        if u.any(): F.eq('zero Laplacian at unobserved vertices', (L @ X)[u], np.zeros_like((L @ X)[u]), 1e-8, scale=np.abs(L).max() * (1 + np.abs(X).max()) * n)
    return F
