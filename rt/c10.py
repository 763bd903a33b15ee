from .base import *
from .c08 import gcfg
def case(g):
    nf = g.k(1, 5)
    return dict(xk=g.choice(['float', 'float', 'int', 'list', 'f32']), hist=g.hist(.4), g=g_(g), ks=kspecs(g, nf), ks2=kspecs(g, g.k(1, 3)), shape=g.choice([[7], [1], [2, 3], [3, 1, 2], [4, 4]]), s=g.seed(), key=g.choice([[0], [nf - 1], [-1], [0, None], [1, None], [0, nf], [0, nf, 2], [None, None, -1]]), extra=g.choice([0, .1, 2]), cls=g.choice(['list', 'list', 'tuple']), S=g.k(1, 3))
def g_(g):
    d = gcfg(g, 3, 9); d['connected'] = True; d['isolated'] = False; return d
def check(p):
    from pygsp import filters
    F = Fails(); G, W = mk(p['g']); N = len(W)
    G.estimate_lmax('bounds'); lm = float(G.lmax)
    ks = kernels(p['ks']); f = filters.Filter(G, ks); x = np.abs(signal(p['shape'], p['s'])); x = x / x.max() * lm
    if p['hist']: warm(G, p['hist'], 'combinatorial', f); G.estimate_lmax('bounds')
    if p['xk'] == 'int': x = np.round(x).astype(int)
    elif p['xk'] == 'f32': x = x.astype(np.float32)
    elif p['xk'] == 'list': x = np.round(x).astype(int)
    xin = x.tolist() if p['xk'] == 'list' else x
    x = x if x.dtype != np.float32 else x
    V = np.stack([k(x) for k in ks])
    F.eq('evaluate', f.evaluate(xin), V); F.eq('call', f(x), V); F.true('number of filters', f.Nf == f.n_filters == len(f) == len(ks))
    k = p['key']
    sel = [ks[k[0]]] if len(k) == 1 else ks[slice(*k)]
    sub = f[k[0]] if len(k) == 1 else f[slice(*k)]
    F.true('indexing keeps the graph', sub.G is G); F.true('indexed length', len(sub) == len(sel))
    if sel: F.eq('indexing', sub.evaluate(x), np.stack([q(x) for q in sel]))
    G2, _ = mk(dict(p['g'], seed=p['g']['seed'] + 1)); ks2 = kernels(p['ks2'])
    u = f + filters.Filter(G2, ks2)
    F.true('union keeps the first graph', u.G is G); F.eq('union', u.evaluate(x), np.stack([q(x) for q in ks + ks2]))
    # complement
    sq = (V ** 2).sum(0); B = float(sq.max())
    for bound in (None, B * (1 + max(p['extra'], 1e-11)) + 1e-300):
        c = f.complement(frame_bound=bound); tot = (f + c).evaluate(x)
        F.eq(f'complement with bound {bound}', (tot ** 2).sum(0), np.full(x.shape, B if bound is None else bound), 1e-9)
        F.true('one complementary kernel', len(c) == 1)
    if B > 0: F.raises('bound too small', ValueError, lambda: f.complement(frame_bound=B * .9).evaluate(x))
    a, b = f.estimate_frame_bounds(x); F.eq('frame bounds on given points', [a, b], [sq.min(), sq.max()])
    xs = np.linspace(0, lm, 1000); s1 = sum(q(xs) ** 2 for q in ks)
    F.eq('frame bounds', f.estimate_frame_bounds(), [s1.min(), s1.max()])
    # inverse
    e = np.maximum(np.linalg.eigvalsh(lap_oracle(W, 'combinatorial')), 0); se = sum(q(e) ** 2 for q in ks)
    if se.min() > 1e-4 * max(1, se.max()) and s1.min() > 1e-8:
        y = signal([N] if p['S'] == 1 else [N, p['S'], 1], p['s'] + 1); co = np.asarray(f.analyze(y, method='exact'))
        co = co.reshape(N, p['S'], len(ks)) if N > 1 else co
        r = f.inverse().synthesize(co, method='exact') if len(ks) > 1 else f.inverse().filter(co.reshape(N, p['S'], 1), method='exact')
        F.eq('inverse undoes analysis', np.asarray(r).reshape(y.squeeze().shape), y.squeeze(), 1e-6, 10 * se.max() / se.min())
        iv = f.inverse().evaluate(e); F.eq('inverse is the pseudo-inverse', iv, np.stack([q(e) for q in ks]) / se, 1e-7)
    return F
