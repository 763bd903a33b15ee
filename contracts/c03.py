from contracts.common import *

def harness(fmt, kind, mangle):
    def run(h):
        G, N, w, W = make_graph(h, fmt, kind)
        directed = G._directed
        src, dst, wt = G.get_edge_list()
        i, j = h.idx(N), h.idx(N)
        E = G.n_edges
        dirp = not (W.fn.sym)
        h.en.note('directed' if dirp else 'undirected')
        for x in (src, dst, wt): h.shape('length', x, [V.elem(E)])
        k = h.idx(src._shape[0], 'k')
        # every listed entry is an edge
        s, t = h.at(src, k), h.at(dst, k)
        h.true('source in range', T.mul(T.le(0, s), T.lt(s, N)))
        h.true('target in range', T.mul(T.le(0, t), T.lt(t, N)))
        h.eq('weight of listed edge', h.at(wt, k), w(s, t))
        h.true('listed entries are non-zero', T.ne(w(s, t), 0))
        if not dirp: h.true('each unordered pair once: source <= target', T.le(s, t))
        # each edge is listed exactly once: number of k with (src,dst) = (i,j)
        cnt = sum1(src._shape[0], lambda q: T.mul(T.eq(h.at(src, q), i), T.eq(h.at(dst, q), j)))
        want = T.ne(w(i, j), 0) if dirp else T.mul(T.ne(w(i, j), 0), T.le(i, j))
        h.eq('each edge listed exactly once', cnt, want)
        # number of edges
        tot = sum2(N, N, lambda a, b: T.ne(w(a, b), 0) if dirp else T.mul(T.ne(w(a, b), 0), T.le(a, b)))
        h.eq('n_edges', V.elem(E), tot)
        h.eq('Ne', V.elem(G.Ne), tot)
    return run

def harnesses():
    for fmt, kind in (('dense', 'f'), ('csr', 'f'), ('csc', 'f'), ('coo', 'f'), ('lil', 'f'), ('dense', 'i'), ('csr', 'i'), ('dense', 'b'), ('csr', 'b')):
        yield f'Graph[{fmt},{kind}].get_edge_list', harness(fmt, kind, None)
