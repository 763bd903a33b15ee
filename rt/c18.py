import tempfile, shutil
from .base import *
def case(g):
    d = g.graph(lo=1, hi=9, cap=25, kinds=('float', 'float', 'int', 'ones', 'float32'))
    sigs = [[nm, g.choice([None, None, 1, 2, 3, 10, 11, 12, g.k(2, 14)]), g.choice(['float', 'float', 'int', 'float32'])] for nm in g.r.sample(['x', 'y', 'sig', 'temp_air', 'temp_sea', 'a_b_c', 'z1'], g.r.randint(0, 3))]
    return dict(g=d, sigs=sigs, s=g.seed(), io=g.choice(['nx', 'nx', 'nx', 'graphml', 'gml', 'gexf']), backend=g.choice([None, 'networkx']))
def check(p):
    from pygsp import graphs
    F = Fails(); G, W = mk(p['g']); n = len(W); S = {}
    for nm, c, k in p['sigs']: S[nm] = signal([n] + ([c] if c else []), p['s'] + (c or 0), k); G.set_signal(S[nm].copy(), nm)
    if p['io'] == 'nx':
        g = G.to_networkx()
        F.true('exported vertices', list(g.nodes()) == list(range(n)))
        R = graphs.Graph.from_networkx(g)
    else:
        d = tempfile.mkdtemp(prefix='vf18')
        try:
            pa = os.path.join(d, 'g.' + p['io']); G.save(pa, backend=p['backend']); R = graphs.Graph.load(pa, backend=p['backend'])
        finally: shutil.rmtree(d)
    tol = 1e-12
    F.true(f'{R.N} vertices instead of {n}', R.N == n)
    if F: return F
    F.eq(f'{p["io"]}: weights', R.W, W, tol); F.true('direction', R.is_directed() == bool((W != W.T).any()))
    for who, sg in (('round trip', R.signals), ('exported graph keeps its signals', G.signals)):
        F.true(f'{who}: signals {sorted(sg)} instead of {sorted(S)}', sorted(sg) == sorted(S))
        for nm in S:
            if nm in sg:
                a = np.asarray(sg[nm]); b = S[nm]
                if who == 'round trip' and b.ndim == 2 and b.shape[1] == 1 and a.ndim == 1: a = a[:, None]
                F.eq(f'{who}: signal {nm}', a, b, tol)
    F.raises('unsupported format', ValueError, lambda: G.save('/nonexistent/x.unknown')); F.raises('unsupported format on load', ValueError, lambda: graphs.Graph.load('/nonexistent/x.unknown'))
    F.raises('unknown backend', ValueError, lambda: G.save('/nonexistent/x.gml', backend='unknown')); F.raises('unknown backend on load', ValueError, lambda: graphs.Graph.load('/nonexistent/x.gml', backend='unknown'))
    return F
