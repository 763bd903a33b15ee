from contracts.common import *
from contracts.c01 import check_lap

def harness(fmt, kind, lap, then=None):
    def run(h):
        G, N, w, W = make_graph(h, fmt, kind, True, lap)
        edge_contract(h, G, N, w, W.fn.sym)
        if then:
            G.compute_differential_operator(); G.D
            G.compute_laplacian(then)
        cur = then or lap
        h.en.note(('undirected' if W.fn.sym else 'directed') + ' ' + cur)
        if not then: G.compute_differential_operator()     # otherwise G.D must notice the change by itself
        D = G.D
        E = D._shape[1]
        h.eq('rows of D', D._shape[0], N); h.eq('one column per edge', E, V.elem(G.n_edges))
        spec = (lap_comb if cur == 'combinatorial' else lap_norm)(w, N)
        i, j = h.idx(N), h.idx(N)
        DDt = D.dot(D.T)
        h.eq('D D^T equals the Laplacian definition', h.at(DDt, i, j), spec(i, j))
        h.eq('G.L equals the Laplacian definition', h.at(G.L, i, j), spec(i, j))
    return run

def use(lap, trailing):
    """gradient, divergence, energy: D and L are whatever compute_* left, here the real ones"""
    def run(h):
        G, N, w, W = make_graph(h, 'csr', 'f', True, lap)
        edge_contract(h, G, N, w, W.fn.sym)
        h.en.note(('undirected' if W.fn.sym else 'directed') + ' ' + lap)
        x = h.vec('x', [N] + trailing(h)); y = h.vec('y', [V.elem(G.n_edges)] + list(x._shape[1:]))
        D = G.D
        E = D._shape[1]
        gx = G.grad(x); dy = G.div(y)
        t = [h.idx(d) for d in x._shape[1:]]
        k = h.idx(E); i = h.idx(N)
        h.shape('gradient', gx, [E] + list(x._shape[1:])); h.shape('divergence', dy, [N] + list(x._shape[1:]))
        h.eq('gradient is D^T x', h.at(gx, k, *t), sum1(N, lambda a: T.mul(h.at(D, a, k), h.at(x, a, *t))))
        h.eq('divergence is D y', h.at(dy, i, *t), sum1(E, lambda b: T.mul(h.at(D, i, b), h.at(y, b, *t))))
        # <grad x, y> = <x, div y>
        h.eq('gradient and divergence are adjoint', sum1(E, lambda b: T.mul(h.at(gx, b, *t), h.at(y, b, *t))), sum1(N, lambda a: T.mul(h.at(x, a, *t), h.at(dy, a, *t))))
        if not t:
            en = G.dirichlet_energy(x)
            spec = (lap_comb if lap == 'combinatorial' else lap_norm)(w, N)
            q = sum2(N, N, lambda a, b: T.mul(T.mul(h.at(x, a), spec(a, b)), h.at(x, b)))
            h.eq('energy is the Laplacian quadratic form', en, q)
            sq = sum1(E, lambda b: T.mul(h.at(gx, b), h.at(gx, b)))
            h.eq('energy is the squared norm of the gradient', en, sq)
        h.eq('signal unchanged', h.at(x, i, *t), T.app(x.fn, i, *t))
    return run

def harnesses():
    for lap in ('combinatorial', 'normalized'):
        for fmt, kind in (('csr', 'f'), ('dense', 'f'), ('csc', 'f'), ('coo', 'f'), ('lil', 'f'), ('csr', 'i'), ('csr', 'b')):
            yield f'D D^T [{fmt},{kind},{lap}]', harness(fmt, kind, lap)
        yield f'D D^T after switching from {lap}', harness('csr', 'f', lap, 'normalized' if lap == 'combinatorial' else 'combinatorial')
        yield f'grad/div/energy 1-D [{lap}]', use(lap, lambda h: [])
        yield f'grad/div 2-D [{lap}]', use(lap, lambda h: [h.size('F', 0)])
