"""Import and export.  NetworkX enters through its contract (Nx below): a graph object keeps the vertices in the order in
which they were added with their attributes, and the edges with their weights; to_scipy_sparse_array returns the matrix of
the edge weights in that vertex order; a file written and read again with the same format gives the same graph.  The
generators that feed it and the loop that reads the vertices back are verified for any number of vertices and edges; signals
for any values and the numbers of columns listed."""
import types
from pyvc.values import mk, elem, SArr, SSp, SymSeq
from pyvc import loops as LP
from .common import *

def drain(h, it):
    """(number of elements, element as a function of its position) of what is consumed"""
    if isinstance(it, types.GeneratorType):
        last = None; loop = None
        for x in it:
            if not h.en.loop_frames: raise T.Unsupported('generator without a loop of symbolic length')
            last, loop = x, h.en.loop_frames[-1]
        if loop is None: raise T.Unsupported('nothing generated')
        return loop.n, lambda k: deep(last, {loop.kappa: lift(k)})
    if isinstance(it, SymSeq): return it.n, it.at
    raise T.Unsupported('what is added to the graph')
def deep(v, s):
    if isinstance(v, tuple): return tuple(deep(x, s) for x in v)
    if isinstance(v, dict): return {k: deep(x, s) for k, x in v.items()}
    return LP.subst_value(v, s)

class Attrs(dict):
    """attributes of one vertex"""
class Nodes:
    _pyvc_stub = True
    def __init__(self, g): self.g = g
    def __call__(self, data=False):
        if data: raise T.Unsupported('nodes with data')
        return SymSeq(self.g.n, lambda k: mk(lift(k), 'i'))
    def __iter__(self): raise T.Unsupported('iteration over the vertices')
    def __getitem__(self, v): return Attrs(self.g.attrs(elem(v)))
    def __len__(self): raise T.Unsupported('number of vertices')
class Nx:
    """a NetworkX graph"""
    _pyvc_stub = True
    directed = False
    def __init__(self, *a, **k):
        if a or k: raise T.Unsupported('arguments of a NetworkX graph')
        self.h = Nx.world.h; self.n = None; self.edges_ = None; self.added = {}
        Nx.world.made.append(self)
    def is_directed(self): return self.directed
    def add_nodes_from(self, it, **k):
        if k or self.n is not None: raise T.Unsupported('vertices added twice')
        n, at = drain(self.h, it); h = self.h
        i = h.idx(n); x = at(i)
        if not isinstance(x, tuple): raise T.Unsupported('vertices without attributes')
        h.eq('vertices are numbered in order', elem(x[0]), i)
        self.n = n; self.at = at
    def add_edges_from(self, it, **k):
        if k or self.edges_ is not None or self.n is None: raise T.Unsupported('edges added twice')
        m, at = drain(self.h, it); h = self.h
        self.edges_ = (m, at)
    def attrs(self, v): return self.at(v)[1]
    @property
    def nodes(self): return Nodes(self)
    @property
    def edges(self): raise T.Unsupported('edges of a NetworkX graph')
class DiNx(Nx): directed = True

def to_scipy_sparse_array(g, nodelist=None, dtype=None, weight='weight', format='csr'):
    """entry (i, j): the weight of the edge from i to j (either way if undirected), added up over the edges"""
    if nodelist is not None or dtype is not None: raise T.Unsupported('arguments of to_scipy_sparse_array')
    h = g.h; m, at = g.edges_
    probe = at(h.idx(m))
    w = (lambda k: elem(at(k)[2].get(weight, 1))) if weight is not None else (lambda k: num(1))
    s, t = (lambda k: elem(at(k)[0])), (lambda k: elem(at(k)[1]))
    kind = V.skind(probe[2].get(weight, 1)) if weight is not None else 'i'
    def one(i, j): return sum1(m, lambda k: T.mul(T.mul(T.eq(s(k), i), T.eq(t(k), j)), w(k)))
    f = one if g.directed else (lambda i, j: one(i, j) + T.mul(T.ne(i, j), one(j, i)))
    h.en.contracts_used.add('networkx.to_scipy_sparse_array, Graph, DiGraph (vertices in the order added, edges with their weights)')
    return SSp.make([g.n, g.n], f, kind, 'nz', format)

class World:
    def __init__(s, h):
        s.h = h; s.made = []; Nx.world = s; s.files = {}; s.calls = []
        h.en.unset_values = True
        s.nx = types.ModuleType('networkx')
        s.nx.Graph, s.nx.DiGraph, s.nx.to_scipy_sparse_array = Nx, DiNx, to_scipy_sparse_array
        for f in ('graphml', 'gml', 'gexf'):
            setattr(s.nx, 'write_' + f, lambda g, path, f=f: s.write(f, g, path)); setattr(s.nx, 'read_' + f, lambda path, f=f: s.read(f, path))
        h.en.for_specs = [Reading(s)]
    def write(s, f, g, path): s.files[path] = (f, g)
    def read(s, f, path):
        if path not in s.files or s.files[path][0] != f: raise OSError('another format')
        s.h.en.contracts_used.add('networkx.write_* followed by read_* of the same format: the same graph')
        return s.files[path][1]
    def __enter__(s):
        s.old = s.h.ld.shims.get('networkx'); s.h.ld.shims['networkx'] = s.nx; return s
    def __exit__(s, *a):
        if s.old is None: s.h.ld.shims.pop('networkx', None)
        else: s.h.ld.shims['networkx'] = s.old
        return False

class Reading:
    """loop over the vertices: before vertex k, every signal holds the attributes of the vertices before k (no signal before
    the first vertex), in the order of the attributes"""
    def __init__(self, s): self.s = s
    def match(self, loop, loc):
        g = next((v for v in loc.values() if isinstance(v, Nx)), None); G = next((v for v in loc.values() if type(v).__name__ == 'Graph' and hasattr(v, 'set_signal')), None)
        if g is None or G is None or G.signals or not V.same_dim(loop.n if hasattr(loop, 'n') and not loop.segs else loop.segs[0][0], g.n): return None
        return dict(g=g, G=G)
    def names(self, st): return []
    def entry(self, loop, st, loc): pass
    def havoc(self, loop, st, loc, k):
        h = self.s.h; g, G = st['g'], st['G']
        st['names'] = list(g.attrs(k))
        if h.en.choose('first vertex'):
            h.assume(T.eq(k, 0), 'first vertex'); G.signals = {}
        else:
            h.assume(T.lt(0, k)); G.signals = {}
            for n in st['names']:
                f = T.Fn('unset', 1, 'real')
                G.signals[n] = SArr.make([g.n], lambda a, n=n: T.mul(T.lt(a, k), elem(g.attrs(a)[n])) + T.mul(T.le(k, a), T.app(f, a)), 'f')
        st['dict'] = G.signals
        return {}
    def step(self, loop, st, loc, k):
        h = self.s.h; g, G = st['g'], st['G']
        if G.signals is not st['dict'] or list(G.signals) != st['names']: raise T.Unsupported('signals of the graph that is read')
        for n in st['names']:
            x = G.signals[n]
            if not (isinstance(x, SArr) and x.ndim == 1 and x.kind == 'f' and V.same_dim(x._shape[0], g.n)): raise T.Unsupported('a signal of the graph that is read')
            a = h.idx(g.n)
            ok, how = T.CTX.prove_zero(T.mul(T.le(a, k), x.get([a]) - elem(g.attrs(a)[n])))
            h.en.oblige(f'{loop.lid}: signal {n!r} holds the attributes of the vertices read so far', ok, how)
    def exit(self, loop, st, loc):
        g, G = st['g'], st['G']
        G.signals = {n: SArr.make([g.n], lambda a, n=n: elem(g.attrs(a)[n]), 'f') for n in st['names']}
        return {}

def signals(h, N, which):
    out = {}
    for name, cols, kind in which:
        out[name] = h.vec(name, [N] + ([num(cols)] if cols is not None else []), kind)
    return out
def same_signals(h, what, R, want, squeeze=True):
    h.check(f'{what}: names', sorted(R) == sorted(want), f'{sorted(R)} / {sorted(want)}')
    for n, x in want.items():
        if n not in R: continue
        y = R[n]
        sh = list(x._shape)
        one = squeeze and len(sh) == 2 and sh[1].const() == 1
        if not h.shape(f'{what}: {n}', y, sh[:1] if one else sh): continue
        i = h.idx(sh[0])
        for c in range(int(sh[1].const()) if len(sh) == 2 else 1):
            ix = [i] + ([num(c)] if len(sh) == 2 else [])
            h.eq(f'{what}: {n} [{c}]', h.at(y, *(ix[:1] if one else ix)), x.get(ix))
SETS = {'none': [], 'one-dimensional': [('x', None, 'f'), ('flow_rate', None, 'f')], 'one column': [('x', 1, 'f')], 'two columns': [('x', 2, 'f'), ('x2', None, 'f')], 'three and one': [('a_b', 3, 'f'), ('temp_air', None, 'f'), ('temp', 2, 'f')],
        'eleven columns': [('x', 11, 'f')], 'integers': [('n', None, 'i'), ('m', 2, 'i')], 'booleans': [('mask', None, 'b')]}
def prepare(h, symmetric, kind, which):
    G, N, w, W = make_graph(h, 'csr', kind, False, 'combinatorial', symmetric=symmetric)
    sig = signals(h, N, which)
    for n, x in sig.items(): G.set_signal(x, n)
    watch(h, G)
    return G, N, w, sig
def roundtrip(symmetric, kind, which, via='networkx'):
    def run(h):
        with World(h) as s:
            G, N, w, sig = prepare(h, symmetric, kind, which)
            sym = is_sym_path(G)
            if symmetric and not sym: return h.check('symmetric weights: undirected', False)
            edge_contract(h, G, N, w, sym)
            keep = G.signals; names = list(keep); before = {n: x.e for n, x in sig.items()}
            cls = h.get('pygsp.graphs.graph:Graph')
            if via == 'networkx': R = cls.from_networkx(G.to_networkx())
            else:
                fmt, given, backend = via
                path = '/nowhere/graph.' + (fmt if not given else 'dat')
                G.save(path, *([fmt] if given else []), **(dict(backend=backend) if backend else {}))
                R = cls.load(path, *([fmt] if given else []), **(dict(backend=backend) if backend else {}))
            h.eq('number of vertices', elem(R.n_vertices), N)
            i, j = h.idx(N), h.idx(N)
            h.eq('weights', R.W.get(i, j), G.W.get(i, j)); h.eq('weights are those of the graph given', R.W.get(i, j), w(i, j))
            h.check('direction', bool(R.is_directed()) == (not sym))
            same_signals(h, 'signals', R.signals, sig)
            if h.check('the exported graph keeps its signals', sorted(G.signals) == sorted(names)): 
                for n in names:
                    if h.shape(f'the exported graph keeps {n}', G.signals[n], sig[n]._shape): h.eq(f'the exported graph keeps {n}', T.subst(G.signals[n].e, dict(zip(G.signals[n].vs, map(T.from_atom, sig[n].vs)))), before[n])
    return run
def breaking(which):
    """_break_signals and _join_signals are inverse to each other"""
    def run(h):
        cls = h.get('pygsp.graphs.graph:Graph'); G = object.__new__(cls); G._pyvc_stub = True
        N = h.size('N', 1); G.n_vertices = G.N = mk(N, 'i')
        sig = signals(h, N, which); G.signals = dict(sig)
        G._break_signals()
        h.check('only one-dimensional signals are left', all(x.ndim == 1 for x in G.signals.values()))
        for n, x in sig.items():
            i = h.idx(N)
            if x.ndim == 2 and x._shape[1].const() > 1:
                for c in range(int(x._shape[1].const())):
                    if h.check(f'column {c} of {n} exported', f'{n}_{c}' in G.signals): h.eq(f'column {c} of {n}', G.signals[f'{n}_{c}'].get([i]), x.get([i, num(c)]))
            elif h.check(f'{n} exported', n in G.signals): h.eq(f'{n}', G.signals[n].get([i]), x.get([i] + [num(0)] * (x.ndim - 1)))
        # in any order: as a file may list the attributes
        G.signals = dict(sorted(G.signals.items(), reverse=True)); G._join_signals()
        same_signals(h, 'joined', G.signals, sig)
        G._break_signals(); G._join_signals()
        same_signals(h, 'joined again', G.signals, sig)
    return run
def foreign(directed):
    """import of a graph with any edges and attributes, not only of one that was exported"""
    def run(h):
        with World(h) as s:
            N = h.size('N', 1); M = h.size('M', 1); src, dst, wt = h.fn('src', 1, 'i'), h.fn('dst', 1, 'i'), h.fn('wt', 1)
            a, b = h.fn('a', 1), h.fn('b', 1)
            g = (DiNx if directed else Nx)()
            g.n = N; g.at = lambda k: (mk(k, 'i'), {'temp': mk(T.app(a, k), 'f'), 'label_x': mk(T.app(b, k), 'f')})
            g.edges_ = (M, lambda k: (mk(T.app(src, k), 'i'), mk(T.app(dst, k), 'i'), {'weight': mk(T.app(wt, k), 'f')}))
            R = h.get('pygsp.graphs.graph:Graph').from_networkx(g)
            i, j = h.idx(N), h.idx(N)
            one = lambda i, j: sum1(M, lambda k: T.mul(T.mul(T.eq(T.app(src, k), i), T.eq(T.app(dst, k), j)), T.app(wt, k)))
            h.eq('weights', R.W.get(i, j), one(i, j) if directed else one(i, j) + T.mul(T.ne(i, j), one(j, i)))
            h.check('signals', sorted(R.signals) == ['label_x', 'temp'])
            h.eq('temp', R.signals['temp'].get([i]), T.app(a, i)); h.eq('label_x', R.signals['label_x'].get([i]), T.app(b, i))
    return run
def rejected(h):
    with World(h) as s:
        G, N, w, sig = prepare(h, True, 'f', SETS['two columns'])
        edge_contract(h, G, N, w, True)
        cls = h.get('pygsp.graphs.graph:Graph'); keep = G.signals
        for f in ('gpickle', '', 'GML ', 'xml', 'graphml2'):
            h.raises(f'saving in format {f!r}', ValueError, G.save, '/nowhere/x', f); h.raises(f'loading from format {f!r}', ValueError, cls.load, '/nowhere/x', f)
        h.raises('saving to an unknown extension', ValueError, G.save, '/nowhere/x.dat'); h.raises('loading from an unknown extension', ValueError, cls.load, '/nowhere/x.dat')
        for b in ('nx', 'graph_tool', 'igraph', 'Networkx', 'default'):
            h.raises(f'saving with backend {b!r}', ValueError, G.save, '/nowhere/x.gml', backend=b); h.raises(f'loading with backend {b!r}', ValueError, cls.load, '/nowhere/x.gml', backend=b)
        h.check('nothing is written', not s.files); h.check('signals untouched', G.signals is keep and list(keep) == list(sig) and all(keep[n] is sig[n] for n in sig))
def harnesses():
    for k in SETS:
        if k != 'none': yield f'break and join [{k}]', breaking(SETS[k])
    for sym in (True, False):
        for k in SETS: yield f'networkx [{"undirected" if sym else "any"}, f, {k}]', roundtrip(sym, 'f', SETS[k])
        for kind in ('i', 'b'): yield f'networkx [{"undirected" if sym else "any"}, {kind}]', roundtrip(sym, kind, SETS['two columns'])
        yield f'import [{"undirected" if sym else "directed"}]', foreign(not sym)
    for fmt in ('graphml', 'gml'):
        for given in (False, True):
            for backend in (None, 'networkx'): yield f'{fmt} [{"format given" if given else "extension"}, {backend}]', roundtrip(True, 'f', SETS['two columns'], (fmt, given, backend))
    yield 'rejected', rejected
