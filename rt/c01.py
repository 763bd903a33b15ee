from .base import *
def case(g): return dict(g=g.graph(), pre=g.hist(.3), hist=[g.choice(['combinatorial', 'normalized']) for _ in range(g.r.randint(1, 4))])
def check(p):
    F = Fails(); gd = p['g']
    W = dense_W(gd)
    hist = p['hist']
    if gd['neg']: hist = ['combinatorial' for _ in hist]
    G, W = mk(gd, hist[0])
    if p['pre']: warm(G, p['pre'], hist[0])
    for t, lap in enumerate(hist):
        if t: G.compute_laplacian(lap)
        L = D(G.L); O = lap_oracle(W, lap)
        F.eq(f'{lap} Laplacian (step {t})', L, O, scale=max(1e-300, np.abs(O).max()))
        F.eq('symmetric', L, L.T)
        F.true('lap_type records the Laplacian', G.lap_type == lap)
        if lap == 'combinatorial': F.eq('rows sum to zero', L.sum(1), np.zeros(len(L)), scale=max(1e-300, np.abs(O).max()))
        else:
            z = avgw(W).sum(1) == 0
            F.true('zero row and column at vertices without degree', not L[z].any() and not L[:, z].any())
    F.same('weights unchanged', G.W, W)
    return F
