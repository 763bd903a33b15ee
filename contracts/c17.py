"""Subgraphs and components."""
from pyvc.values import SymSeq, mk
from .common import *

def selection(h, N, kind):
    """an arbitrary list / array / mask of vertices; returns (what is passed, length, k -> k-th vertex)"""
    if kind == 'mask':
        m = h.vec('mask', [N], 'b')
        v = T.CTX_temp(N); en = V.enum_of([N], [v], m.get([from_atom(v)]))
        T.CTX.assume(T.le(1, en.K), 'some vertex is selected')
        return m, en.K, (lambda k: en.fns[0](k))
    M = h.size('M', 1)
    s = h.vec('sel', [M], 'i'); s.fn.facts.append(lambda k: [T.one_minus(T.mul(T.in_range(k, M), T.one_minus(T.in_range(T.app(s.fn, k), N))))])
    at = lambda k: T.app(s.fn, k)
    if kind == 'list': return SymSeq(M, lambda k: mk(at(k), 'i')), M, at
    return s, M, at
def subgraph(fmt, kind, how, coords, lap='combinatorial'):
    def run(h):
        N = h.size('N', 1)
        C = None if coords is None else h.vec('xy', [N] if coords == 1 else [N, h.size('d', 2, 3) if coords == 'd' else coords])
        cf = None if C is None else C.fn
        G, N, w, W = make_graph(h, fmt, kind, nonneg=lap == 'normalized', lap=lap, N=N, coords=C)
        D = h.size('D', 1)
        G.set_signal(h.vec('x', [N]), 'one'); G.set_signal(h.vec('y', [N, D]), 'two')
        x, y = G.signals['one'].fn, G.signals['two'].fn; watch(h, G)
        w0 = G.W; e0, st0 = w0.e, w0.st
        sel, M, at = selection(h, N, how)
        S = G.subgraph(sel)
        a, b = h.idx(M), h.idx(M)
        h.shape('weights', S.W, [M, M])
        h.eq('number of vertices', S.N, M); h.eq('n_vertices', S.n_vertices, M)
        h.eq('weights between the selected vertices', h.at(S.W, a, b), w(at(a), at(b)))
        h.check('Laplacian type', S.lap_type == lap, S.lap_type)
        h.check('signal names', sorted(S.signals) == ['one', 'two'], sorted(S.signals))
        h.shape('signal', S.signals['one'], [M]); h.shape('two-dimensional signal', S.signals['two'], [M, D])
        h.eq('signal values', h.at(S.signals['one'], a), T.app(x, at(a)))
        d = h.idx(D)
        h.eq('two-dimensional signal values', h.at(S.signals['two'], a, d), T.app(y, at(a), d))
        if coords is None: h.check('no coordinates', not hasattr(S, 'coords'))
        elif coords == 1:
            h.shape('coordinates', S.coords, [M]); h.eq('coordinate values', h.at(S.coords, a), T.app(cf, at(a)))
        else:
            dd = C._shape[1]; h.shape('coordinates', S.coords, [M, dd])
            c = h.idx(dd); h.eq('coordinate values', h.at(S.coords, a, c), T.app(cf, at(a), c))
        if lap == 'combinatorial':
            ws = lambda i, j: w(at(i), at(j))
            h.shape('Laplacian', S.L, [M, M])
            h.eq('Laplacian', h.at(S.L, a, b), lap_comb(ws, M)(a, b))
        h.check('the graph keeps its weights object', G.W is w0)
        h.eq('the graph keeps its weights', w0.e, e0)
        if st0 is not None: h.eq('the graph keeps its pattern', w0.st, st0)
        i = h.idx(N); h.eq('the graph keeps its signals', h.at(G.signals['one'], i), T.app(x, i))
        h.eq('the graph keeps its size', G.N, N)
    return run
def enumeration(x, name, h):
    """(length, k -> value) of a list or array of integers"""
    if isinstance(x, SArr): return x._shape[0], lambda k: x.get([k])
    if isinstance(x, SymSeq): return lift(x.n), lambda k: V.elem(x.at(k))
    raise T.Unsupported(f'{name}: {type(x).__name__}')
def components(fmt, kind, coords, symmetric=True):
    """Every iteration appends one graph, whose recorded indices list without repetition exactly the vertices it marks;
    these are at least one, were not marked before, are closed under the edges and are exactly those reachable from one
    of them; the graph is the subgraph on them.  The loop ends with every vertex marked, having started with none.
    That the recorded indices then partition the vertices, with no edge between different graphs, and that each graph
    is connected are lemmas `components_partition` and `component_connected` (Lean)."""
    def run(h):
        from pyvc.whiles import Worklist, Sweep
        N = h.size('N', 1)
        C = None if coords is None else h.vec('xy', [N, coords])
        G, N, w, W = make_graph(h, fmt, kind, N=N, coords=C, symmetric=symmetric)
        D = h.size('D', 1)
        G.set_signal(h.vec('x', [N]), 'one'); G.set_signal(h.vec('y', [N, D]), 'two')
        x, y = G.signals['one'].fn, G.signals['two'].fn; watch(h, G)
        h.en.searches = []
        def item(st, g):
            v0, v1, A = (lambda i: st['v0'].get([i])), (lambda i: st['V'].get([i])), st['A']
            new = lambda i: T.mul(v1(i), T.one_minus(v0(i)))
            i, j = h.idx(N), h.idx(N)
            f = T.CTX.prove_ind(iff(A(i, j), T.ne(w(i, j), 0)))[0]
            h.check('the edges are those of the graph', f)
            h.true('marks are kept', T.one_minus(T.mul(v0(i), T.one_minus(v1(i)))))
            K, at = enumeration(g.info['orig_idx'], 'orig_idx', h)
            a, b = h.idx(K), h.idx(K)
            h.true('recorded indices are vertices', T.in_range(at(a), N))
            h.true('recorded indices were not marked before and are now', new(at(a)))
            h.true('recorded indices do not repeat', T.lor(T.eq(a, b), T.ne(at(a), at(b))))
            h.zero('every newly marked vertex is recorded', T.mul(T.in_range(i, N), new(i)) - sum1(K, lambda k: T.eq(at(k), i)))
            h.true('newly marked vertices are closed under the edges', T.one_minus(T.mul(T.mul(new(i), T.one_minus(new(j))), A(i, j))))
            ss = h.en.searches
            h.check('one search per graph', len(ss) == 1, str(len(ss)))
            s = ss[0]
            h.true('the search starts from one vertex', T.one_minus(T.mul(T.mul(s['s0'](i), s['s0'](j)), T.ne(i, j))))
            h.true('there is a vertex the search starts from', T.le(1, sum1(N, s['s0'])))
            h.true('it is newly marked', T.one_minus(T.mul(s['s0'](i), T.one_minus(new(i)))))
            h.true('every newly marked vertex is reachable from it', T.one_minus(T.mul(new(i), T.one_minus(s['R'](i)))))
            h.shape('component weights', g.W, [K, K]); h.eq('component size', g.N, K)
            h.eq('component weights', h.at(g.W, a, b), w(at(a), at(b)))
            h.check('Laplacian type', g.lap_type == G.lap_type)
            h.check('signal names', sorted(g.signals) == ['one', 'two'])
            h.shape('signal', g.signals['one'], [K]); h.shape('two-dimensional signal', g.signals['two'], [K, D])
            d = h.idx(D)
            h.eq('signal values', h.at(g.signals['one'], a), T.app(x, at(a)))
            h.eq('two-dimensional signal values', h.at(g.signals['two'], a, d), T.app(y, at(a), d))
            if C is None: h.check('no coordinates', not hasattr(g, 'coords'))
            else:
                c = h.idx(coords); h.shape('coordinates', g.coords, [K, coords]); h.eq('coordinate values', h.at(g.coords, a, c), T.app(C.fn, at(a), c))
        sweep = Sweep(item)
        h.en.while_specs = [sweep, Worklist()]
        try: r = G.extract_components()
        except NotImplementedError:
            h.check('only directed graphs are rejected', bool(G._directed)); return
        if symmetric is None: h.check('directed graphs are rejected', not G._directed)
        st = getattr(sweep, 'finished', None)
        if st is None: raise T.Unsupported('components are not found by repeated searches')
        n = h.idx(N)
        h.true('at the end every vertex is marked', st['V'].get([n]))
        h.check('the graphs collected are returned', r is st['ghost'], type(r).__name__)
    return run
from .c05 import iff
def harnesses():
    for how in ('list', 'array', 'mask'):
        yield f'subgraph[{how},csr,f,2 coordinates]', subgraph('csr', 'f', how, 2)
        yield f'subgraph[{how},dense,f,no coordinates]', subgraph('dense', 'f', how, None)
    yield 'subgraph[list,csr,i,2 or 3 coordinates]', subgraph('csr', 'i', 'list', 'd')
    yield 'subgraph[list,csr,b,3 coordinates]', subgraph('csr', 'b', 'list', 3)
    yield 'subgraph[array,lil,f,normalized]', subgraph('lil', 'f', 'array', 2, 'normalized')
    yield 'subgraph[array,csc,f,one coordinate]', subgraph('csc', 'f', 'array', 1)
    yield 'components[csr,f]', components('csr', 'f', None)
    yield 'components[dense,f,coordinates]', components('dense', 'f', 2)
    yield 'components[csr,i,coordinates]', components('csr', 'i', 3)
    yield 'components[csr,b]', components('csr', 'b', None)
    yield 'components[csr,f,possibly directed]', components('csr', 'f', 2, None)
