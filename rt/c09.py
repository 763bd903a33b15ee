from .base import *
from .c08 import response, expected, sshape, gcfg
def case(g):
    m = g.choice([1, 2, 3, g.k(1, 12, 60), 30, 20, 40]); nf = g.k(1, 4)
    return dict(hist=g.hist(.4), sk=g.choice(['float', 'float', 'int']), g=g_(g), lap=g.choice(['combinatorial', 'normalized']), m=m, nf=nf, ks=kspecs(g, nf), pk=[[round(g.uni(-1, 1), 3) for _ in range(1 + g.r.randint(0, min(m, 8)))] for _ in range(nf)], S=g.k(1, 4), shape=g.choice(['N', 'N1', 'NS', 'NS1', 'NSF', 'NF']), s=g.seed(), lm=g.choice(['fourier', 'bounds', 'lanczos']), twod=g.chance(.7), bigN=g.chance(.2))
def g_(g):
    d = gcfg(g, 2, 9); d['n'] = max(d['n'], 3); return d
def check(p):
    from pygsp import filters
    from pygsp.filters.approximations import compute_cheby_coeff, cheby_op
    F = Fails(); G, W = mk(p['g'], p['lap']); N = len(W)
    if not np.triu(W, 1).any(): return F
    pk = [None]; fh = filters.Filter(G, kernels(p['ks']))
    if p['hist']: warm(G, p['hist'], p['lap'], fh)
    if p['lm'] == 'fourier': G.compute_fourier_basis()
    else: G.estimate_lmax(p['lm'])
    lm = float(G.lmax); L = lap_oracle(W, p['lap']); m = p['m']
    # coefficients: interpolation at the m+1 Chebyshev nodes
    ks = kernels(p['ks']); f = fh
    c = np.atleast_2d(np.asarray(compute_cheby_coeff(f, m=m)))
    th = np.pi * (np.arange(m + 1) + .5) / (m + 1); nodes = lm / 2 * np.cos(th) + lm / 2
    O = np.array([[2. / (m + 1) * np.sum(k(nodes) * np.cos(o * th)) for o in range(m + 1)] for k in ks])
    F.eq(f'Chebyshev coefficients of order {m}', c, O, 1e-9, scale=1 + np.abs(O).max())
    # operator
    x = signal([N, p['S']] if p['twod'] else [N], p['s'])
    cc = signal([p['nf'], m + 1], p['s'] + 1)
    X = L * (2 / lm) - np.eye(N)
    T = [np.eye(N), X]
    for k in range(2, m + 1): T.append(2 * X @ T[-1] - T[-2])
    sc = (1 + np.abs(cc).sum()) * 10 * N * (1 + max(np.abs(t).max() for t in T))
    R = np.concatenate([(.5 * cc[i, 0] * np.eye(N) + sum(cc[i, k] * T[k] for k in range(1, m + 1))) @ x for i in range(p['nf'])])
    F.eq(f'Chebyshev operator of order {m}', cheby_op(G, cc, x), R, 1e-8, sc)
    if p['nf'] == 1: F.eq('1-D coefficients', cheby_op(G, cc[0], x), R, 1e-8, sc); F.eq('coefficient list', cheby_op(G, list(cc[0]), x), R, 1e-8, sc)
    # polynomials of degree at most m: equals exact filtering
    pk = kernels([['poly'] + [v / max(1., lm) ** k for k, v in enumerate(c_)] for c_ in p['pk']]); fp = filters.Filter(G, pk)
    H = response(L, pk); sh = sshape(p['shape'], N, p['S'], len(pk)); y = signal(sh, p['s'] + 2, p['sk'])
    want = expected(H, y); s2 = 10 * (1 + max(np.abs(h).sum() for h in H))
    F.eq(f'Chebyshev filtering, order {m}, shape {sh}, {len(pk)} kernels', fp.filter(y, method='chebyshev', order=m), want, 1e-7, s2)
    if p['shape'] == 'NSF' and len(pk) > 1: F.eq('synthesize', fp.synthesize(y, method='chebyshev', order=m), want, 1e-7, s2)
    if m == 30: F.eq('default method and order', fp.filter(y), want, 1e-7, s2)
    return F
