from .base import *
Q = ['is_directed', 'is_weighted', 'has_loops', 'is_connected']
def case(g):
    return dict(g=g.graph(), hist=[g.choice(Q + Q + ['A', 'd', 'dw', 'get_edge_list', 'norm']) for _ in range(g.r.randint(4, 8))])
def check(p):
    F = Fails(); G, W = mk(p['g'])
    R = reach(W)
    want = dict(is_directed=bool((W != W.T).any()), is_weighted=bool((W[W != 0] != 1).any()), has_loops=bool(np.diag(W).any()), is_connected=bool(R.all()))
    for q in p['hist'] + Q:
        if q in Q:
            r = getattr(G, q)()
            F.true(f'{q}() is {r}, expected {want[q]}', bool(r) == want[q])
        elif q == 'norm':
            if not p['g']['neg']: G.compute_laplacian('normalized')
        elif q == 'get_edge_list': G.get_edge_list()
        else: getattr(G, q)
    return F
