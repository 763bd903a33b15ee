from .common import *

class graph_init:
    """Graph.__init__ replaced by its contract (proved below, harness `graph`): the weights are stored as they are"""
    def __init__(self, h): self.h = h; self.G = h.get('pygsp.graphs.graph:Graph')
    def __enter__(self):
        self.old = self.G.__init__
        def init(g, W, lap_type='combinatorial', coords=None, plotting={}):
            n, m = W.shape
            if not bool(n == m): raise ValueError('not square')
            g._adjacency, g.coords, g.plotting = W, coords, plotting
            g.N = g.n_vertices = n
        self.G.__init__ = init
        self.h.en.contracts_used.add('Graph.__init__ stores the weights it is given (proved: harness graph)')
    def __exit__(self, *a): self.G.__init__ = self.old
def post(h, G, N, spec, directed=False, vertex=None):
    """the adjacency is the textbook one, without self-loops, symmetric"""
    W = G.W
    h.shape('one row and column per vertex', W, [N, N])
    i, j = (h.idx(N), h.idx(N)) if vertex is None else (vertex(), vertex())
    if vertex is not None: h.true('a vertex', T.in_range(i, N))
    h.eq('adjacency', h.at(W, i, j), spec(i, j))
    h.zero('no self-loop', h.at(W, i, i))
    if not directed: h.eq('symmetric', spec(i, j), spec(j, i))   # of the textbook adjacency, which the stored one equals
    h.eq('number of vertices', V.elem(G.N), lift(N))
def path(directed):
    def run(h):
        N = h.size('N', 1)
        with graph_init(h): G = h.get('pygsp.graphs.path:Path')(V.mk(N, 'i'), directed)
        post(h, G, N, lambda i, j: T.eq(j, i + 1) if directed else T.eq(j, i + 1) + T.eq(i, j + 1), directed)
    return run
def comet(star):
    def run(h):
        if star:
            N = h.size('N', 2); k = N - 1
            with graph_init(h): G = h.get('pygsp.graphs.star:Star')(V.mk(N, 'i'))
        else:
            N, k = h.size('N', 2), h.size('k', 1)
            C = h.get('pygsp.graphs.comet:Comet')
            h.assume(T.lt(k, N))
            with graph_init(h): G = C(V.mk(N, 'i'), V.mk(k, 'i'))
        def edge(i, j): return T.lor(T.mul(T.eq(i, 0), T.mul(T.le(1, j), T.le(j, k))), T.mul(T.eq(j, i + 1), T.le(k, i)))
        post(h, G, N, lambda i, j: T.lor(edge(i, j), edge(j, i)))
    return run
def comet_bad(h):
    N, k = h.size('N', 1), h.size('k', 1)
    h.assume(T.le(N, k))
    h.raises('a centre with more neighbours than vertices is rejected', ValueError, h.get('pygsp.graphs.comet:Comet'), V.mk(N, 'i'), V.mk(k, 'i'))
def full(h):
    N = h.size('N', 1)
    with graph_init(h): G = h.get('pygsp.graphs.fullconnected:FullConnected')(V.mk(N, 'i'))
    post(h, G, N, lambda i, j: T.ne(i, j))
def harnesses():
    for d in (False, True): yield f'path[directed={d}]', path(d)
    yield 'comet', comet(False)
    yield 'star', comet(True)
    yield 'comet out of range', comet_bad
    yield 'fullconnected', full
def ring(antipodal):
    """any number of vertices and neighbours; with 2k = N the two farthest neighbours coincide"""
    def run(h):
        N, k = h.size('N', 3), h.size('k', 1)
        h.assume(T.eq(2 * k, N) if antipodal else T.lt(2 * k, N))
        with graph_init(h): G = h.get('pygsp.graphs.ring:Ring')(V.mk(N, 'i'), V.mk(k, 'i'))
        def near(i, j): return T.mul(T.lt(i, j), T.lor(T.le(j - i, k), T.le(N - (j - i), k)))
        post(h, G, N, lambda i, j: near(i, j) + near(j, i))
    return run
def ring_bad(h):
    N, k = h.size('N', 0), h.size('k', 1)
    h.assume(T.lor(T.lt(N, 3), T.lt(N, 2 * k)))
    h.raises('too few vertices or too many neighbours are rejected', ValueError, h.get('pygsp.graphs.ring:Ring'), V.mk(N, 'i'), V.mk(k, 'i'))
def grid(diagonal, square, ones=(False, False)):
    """vertex (a, b) = a*N2 + b; the weight of the diagonal edges is any positive number"""
    def run(h):
        N1 = h.size('N1', 2) if not ones[0] else T.num(1)
        N2 = N1 if square else (h.size('N2', 2) if not ones[1] else T.num(1))
        dg = T.num(0)
        if diagonal: dg = h.real('diagonal'); h.assume(T.lt(0, dg))
        C = h.get('pygsp.graphs.grid2d:Grid2d')
        with graph_init(h): G = C(V.mk(N1, 'i'), None if square else V.mk(N2, 'i'), *([V.mk(dg, 'f')] if diagonal else []))
        co = []
        def vertex():
            co.append((h.idx(N1) if not ones[0] else T.num(0), h.idx(N2) if not ones[1] else T.num(0))); return co[-1][0] * N2 + co[-1][1]
        def near(x, y): return T.eq(y, x + 1) + T.eq(x, y + 1)
        def spec(i, j):
            (a, b), (c, d) = (co[0], co[1]) if i == co[0][0] * N2 + co[0][1] else (co[1], co[0])
            return T.mul(T.eq(a, c), near(b, d)) + T.mul(T.eq(b, d), near(a, c)) + T.mul(dg, T.mul(near(a, c), near(b, d)))
        post(h, G, N1 * N2, spec, vertex=vertex)
    return run
def torus(square):
    """vertex (a, b) = a*Nv + b is joined to its neighbours on the two rings"""
    def run(h):
        N1 = h.size('N1', 3); N2 = N1 if square else h.size('N2', 3)
        with graph_init(h): G = h.get('pygsp.graphs.torus:Torus')(V.mk(N1, 'i'), None if square else V.mk(N2, 'i'))
        co = []
        def vertex():
            co.append((h.idx(N2), h.idx(N1))); return co[-1][0] * N1 + co[-1][1]
        def ring(x, y, n): return T.eq(y, x + 1) + T.eq(x, y + 1) + T.eq(y - x, n - 1) + T.eq(x - y, n - 1)
        def spec(i, j):
            (a, b), (c, d) = (co[0], co[1]) if i == co[0][0] * N1 + co[0][1] else (co[1], co[0])
            return T.mul(T.eq(a, c), ring(b, d, N1)) + T.mul(T.eq(b, d), ring(a, c, N2))
        post(h, G, N1 * N2, spec, vertex=vertex)
    return run
def graph(fmt, kind):
    """the contract of Graph.__init__ used above, proved of its body: the weights are stored as they are"""
    def run(h):
        G, N, w, W = make_graph(h, fmt, kind)
        i, j = h.idx(N), h.idx(N)
        h.shape('the adjacency has one row and column per vertex', G.W, [N, N])
        h.eq('the adjacency is the one given', h.at(G.W, i, j), w(i, j))
        h.eq('number of vertices', V.elem(G.N), N)
        h.eq('number of vertices', V.elem(G.n_vertices), N)
    return run
def graph_bad(h):
    N, M = h.size('N', 1), h.size('M', 1)
    h.assume(T.ne(N, M))
    h.raises('an adjacency that is not square is rejected', ValueError, h.get('pygsp.graphs.graph:Graph'), h.sparse('W', N, M))
_h1 = harnesses
def harnesses():
    yield from _h1()
    for f in ('dense', 'csr', 'csc'): yield f'graph[{f}]', graph(f, 'f')
    yield 'graph not square', graph_bad
    yield 'ring[2k<N]', ring(False)
    yield 'ring[2k=N]', ring(True)
    yield 'ring out of range', ring_bad
    for d in (False, True):
        for s in (False, True): yield f'grid[{"square" if s else "any"},{"diagonal" if d else "straight"}]', grid(d, s)
        yield f'grid[one row,{"diagonal" if d else "straight"}]', grid(d, False, (True, False))
        yield f'grid[one column,{"diagonal" if d else "straight"}]', grid(d, False, (False, True))
    yield 'torus', torus(False)
