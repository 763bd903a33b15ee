from .base import *
def case(g):
    return dict(g=g.graph(directed=False, cap=45, kinds=('float', 'float', 'int', 'bool', 'ones')), lap=g.choice(['combinatorial', 'normalized']), hist=[g.choice(['partial', 'full', 'lanczos', 'bounds', 'switch', 'coherence', 'U']) for _ in range(g.r.randint(0, 3))],
                first=g.choice(['compute', 'compute', 'coherence', 'U', 'e', 'gft']), pre=g.hist(.4), tail=g.choice([[], [], [1], [3], [2, 3], [1, 2], [2, 1, 3]]), s=g.seed(), neg0=g.chance(.15), k=g.r.randint(1, 4))
def check(p):
    F = Fails(); gd = dict(p['g'], neg=False); gd['scale'] = gd['scale'] if gd['scale'] <= 10 else 1
    G, W = mk(gd, p['lap']); n = len(W); lap = p['lap']
    for op in p['hist']:
        if op == 'full': G.compute_fourier_basis()
        elif op == 'coherence': G.coherence
        elif op == 'U': G.U
        elif op == 'switch': lap = 'normalized' if lap == 'combinatorial' else 'combinatorial'; G.compute_laplacian(lap)
        elif op == 'partial':
            if n > 5:
                k = min(p['k'], n - 2)
                try: G.compute_fourier_basis(n_eigenvectors=k)
                except Exception: G.compute_fourier_basis()
        elif np.triu(W, 1).any() and n > 2: G.estimate_lmax(op)
    if p['pre']: warm(G, p['pre'], lap)
    first = p['first'] if pv(G, '_e') is None else 'compute'; coh = None
    if first == 'compute': G.compute_fourier_basis()
    elif first == 'coherence': coh = G.coherence
    elif first == 'U': G.U
    elif first == 'e': G.e
    else: G.gft(np.ones(n))
    if coh is not None: F.eq('coherence, first answer', coh, np.abs(G._U).max())
    L = lap_oracle(W, lap); e, U = np.asarray(G.e), np.asarray(G.U)
    F.true(f'full basis has {len(e)} eigenvalues and U {U.shape} for {n} vertices', e.shape == (n,) and U.shape == (n, n))
    if F: return F
    sc = max(1., np.abs(L).max() * n)
    F.eq('orthonormal', U.T @ U, np.eye(n), 1e-8); F.eq('orthonormal rows', U @ U.T, np.eye(n), 1e-8)
    F.eq('eigenvectors', L @ U, U * e, scale=sc, rtol=1e-8)
    F.true('eigenvalues non-decreasing', bool(np.all(np.diff(e) >= -1e-9 * sc)))
    F.true('first eigenvalue is zero', e[0] == 0)
    if not p['hist'] and not p['pre']: F.eq('largest eigenvalue recorded', G.lmax, e[-1])
    F.eq('coherence', G.coherence, np.abs(U).max())
    x = signal([n] + p['tail'], p['s']); y = signal([n] + p['tail'], p['s'] + 1)
    xh, yh = G.gft(x), G.gft(y)
    F.eq('forward transform', xh, np.tensordot(U, x, ([0], [0])), 1e-9, scale=10 * n)
    F.eq('inverse transform', G.igft(y), np.tensordot(U, y, ([1], [0])), 1e-9, scale=10 * n)
    F.eq('igft(gft)', G.igft(xh), x, 1e-8, scale=10); F.eq('gft(igft)', G.gft(G.igft(y)), y, 1e-8, scale=10)
    F.eq('inner products', (xh * yh).sum(), (x * y).sum(), 1e-8, scale=10 * x.size)
    return F
