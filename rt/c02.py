from .base import *
def case(g): return dict(hist=g.hist(), g=g.graph(neg=False), lap=g.choice(['combinatorial', 'normalized']), pre=g.choice([None, None, 'combinatorial', 'normalized']), tail=g.choice([[], [], [1], [2], [3, 2]]), s=g.seed())
def check(p):
    F = Fails(); G, W = mk(p['g'], p['pre'] or p['lap'])
    if p['pre']: G.D; G.compute_laplacian(p['lap'])
    elif p['s'] % 3 == 0: G.compute_differential_operator()
    if p['hist']: warm(G, p['hist'], p['lap'])
    L = lap_oracle(W, p['lap']); sc = max(1e-300, np.abs(L).max(), float(p['lap'] == 'normalized'))
    B = D(G.D)
    E = int(np.count_nonzero(W if (W != W.T).any() else np.triu(W)))
    F.true(f'one column per edge: {B.shape} for {E} edges', B.shape == (len(W), E))
    F.eq('D D^T is the Laplacian', B @ B.T, L, scale=sc); F.eq('D D^T is G.L', B @ B.T, D(G.L), scale=sc)
    x = signal([len(W)] + p['tail'], p['s']); y = signal([E] + p['tail'], p['s'] + 1)
    if len(p['tail']) <= 1:
        gx = D(G.grad(x)); dy = D(G.div(y)); s = max(1e-300, sc ** .5 * 10)
        F.eq('gradient', gx, np.tensordot(B.T, x, 1), scale=s); F.eq('divergence', dy, np.tensordot(B, y, 1), scale=s)
        if not p['tail']:
            F.eq('adjoint', gx @ y, x @ dy, scale=s * len(W) * max(1, E)); en = G.dirichlet_energy(x); es = sc * len(W) ** 2 * 10
            F.eq('energy is the quadratic form', en, x @ L @ x, scale=es); F.eq('energy is the squared gradient', en, gx @ gx, scale=es); F.true('energy non-negative', en >= -1e-9 * es)
        else:
            en = D(G.dirichlet_energy(x))
            F.eq('energy matrix', en, x.T @ L @ x, scale=sc * len(W) ** 2 * 10)
    return F
