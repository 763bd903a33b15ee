from .base import *
def case(g):
    d = g.graph(lo=2, hi=10, cap=40, directed=False, neg=False, loops=False, connected=True, kinds=('float', 'float', 'int', 'ones')); 
    if not 1e-3 <= d['scale'] <= 1e3: d['scale'] = 1
    n = d['n']; k = g.r.randint(1, n - 1); ind = g.r.sample(range(n), k)
    return dict(g=d, ind=ind if g.chance(.7) else sorted(ind), coords=g.choice([None, 2, 3]), what=g.choice(['graph', 'graph', 'L', 'Lreg']), arr=g.chance(.5))
def schur(L, ind):
    n = len(L); c = [v for v in range(n) if v not in set(ind)]
    return L[np.ix_(ind, ind)] - L[np.ix_(ind, c)] @ np.linalg.solve(L[np.ix_(c, c)], L[np.ix_(c, ind)])
def check(p):
    from pygsp import reduction, graphs
    F = Fails(); n = p['g']['n']; C = signal([n, p['coords']], 3) if p['coords'] else None
    G, W = mk(p['g'], coords=C); ind = np.array(p['ind']) if p['arr'] else p['ind']
    L = lap_oracle(W, 'combinatorial')
    if p['what'] == 'graph':
        S = schur(L, p['ind']); R = reduction.kron_reduction(G, ind); k = len(p['ind']); sc = np.abs(L).max() * n
        F.true(f'number of vertices {R.N}', R.N == k)
        if R.N != k: return F
        RW = D(R.W)
        F.same('symmetric weights', RW, RW.T); F.true('not directed', not R.is_directed())
        F.true('no self-loops', not np.any(np.diag(RW)) and not R.has_loops())
        F.eq('Laplacian is the Schur complement', R.L, S, 1e-9, sc)
        F.eq('weights', RW, np.diag(np.diag(S)) - S, 1e-9, sc)
        if C is not None: F.same('coordinates', R.coords, C[p['ind']])
        F.true('Laplacian type', R.lap_type == 'combinatorial')
        G2, _ = mk(p['g'], 'normalized'); F.raises('normalized Laplacian', NotImplementedError, lambda: reduction.kron_reduction(G2, ind))
        Wd = W.astype(float).copy(); Wd[0, 1] = W[0, 1] + 1
        F.raises('directed graph', NotImplementedError, lambda: reduction.kron_reduction(graphs.Graph(Wd), ind))
        F.same('graph unchanged', G.W, W)
    else:
        M = L + (.05 * np.eye(n) if p['what'] == 'Lreg' else 0); Sp = sparse.csr_matrix(M); keep = Sp.copy()
        S = schur(M, p['ind']); R = reduction.kron_reduction(Sp, ind)
        F.eq('Schur complement', D(R).reshape(S.shape), S, 1e-9, np.abs(M).max() * n); F.same('matrix unchanged', Sp, keep)
    return F
