"""Analysis never alters the graph or the caller's arrays.

1. Frame conditions: every harness of the other properties is run again with the postcondition `modifies nothing`
   (pyvc/frame.py): every array the verified code did not create itself -- arguments, signals, coordinates, weights, state
   promised by contracts -- keeps its value on every path, and graphs keep weights, coordinates and signals.
2. Repeated queries: for queries X and Y on the same symbolic graph, X answers the same on a new graph, after Y, and
   again; whatever Y leaves in the object is what a new graph would answer (so the argument extends to any sequence)."""
import importlib
from contracts.common import *
from contracts import common
from pyvc.frame import framed
elem, mk = V.elem, V.mk

def snap(h, r):
    if isinstance(r, (SArr, SSp)): return r.copy()
    if isinstance(r, (tuple, list)): return [snap(h, x) for x in r]
    return r
def same(h, what, a, b):
    if isinstance(a, (tuple, list)):
        if not isinstance(b, (tuple, list)) or len(a) != len(b): return h.check(what, False, 'length')
        for k, (x, y) in enumerate(zip(a, b)): same(h, f'{what} [{k}]', x, y)
    elif isinstance(a, (SArr, SSp)):
        if type(a) is not type(b): return h.check(what, False, f'{type(b).__name__} instead of {type(a).__name__}')
        if h.shape(what, b, list(a._shape)):
            ix = [h.idx(d) for d in a._shape]
            h.eq(what, h.at(b, *ix), h.at(a, *ix))
            if isinstance(a, SSp): h.check(what + ' (format)', a.fmt == b.fmt)
            h.check(what + ' (type)', a.kind == b.kind, f'{a.kind} {b.kind}')
    elif isinstance(a, V.SBool) and isinstance(b, V.SBool): h.zero(what, a.as_ind() - b.as_ind())
    elif V.is_scalar(a) and V.is_scalar(b): h.eq(what, b, a)
    else: h.check(what, a is b or a == b, f'{a} {b}')

def real_edges(G):
    n = G.n_edges; G.n_edges = G.__dict__['real_edges']
    try: return list(type(G).get_edge_list(G))
    finally: G.n_edges = n
class World:
    """graphs on the same weights; callees under contract answer functions of the weights alone"""
    def __init__(self, h, lap, symmetric):
        self.h = h; self.lap = lap
        self.G0, self.N, self.w, self.W = make_graph(h, 'csr', 'f', True, lap, symmetric=symmetric, coords=None)
        self.sym = is_sym_path(self.G0)
        self.E = edge_contract(h, self.G0, self.N, self.w, self.sym)
        self.edges = self.G0.get_edge_list; self.n_edges = self.G0.n_edges
        self.x = h.vec('x', [self.N]); self.y = h.vec('y', [self.E]); self.c = h.vec('coords', [self.N, num(2)]); self.sig = h.vec('sig', [self.N, h.size('T', 0)])
        self.ub = h.real('ub'); self.lz = h.real('ritz')
        U, e = h.fn('U', 2), h.fn('lam', 1, nonneg=True); N = self.N
        i, j = T.CTX_temp(N), T.CTX_temp(N)
        h.assume_forall([(i, N), (j, N)], T.one_minus(T.mul(T.le(from_atom(i), from_atom(j)), T.lt(T.app(e, from_atom(j)), T.app(e, from_atom(i))))))
        h.assume(T.eq(T.app(e, num(0)), 0)); h.assume(T.le(T.app(e, N - 1), self.ub)); h.assume(T.le(self.lz, self.ub)); h.assume(T.le(0, self.lz))
        self.U, self.e = U, e
        self.first = None
        def eigh(a, *args, **kw):
            a = V.to_sarr(a)
            if self.first is None: self.first = a.copy()
            else:
                p, q = h.idx(N), h.idx(N)
                h.eq('the same matrix is decomposed every time', a.get([p, q]), self.first.get([p, q]))
            if kw.get('overwrite_a'): a.write(lambda ix: num(1), lambda ix: T.app(h.fn('overwritten', 2), *ix))
            return SArr.make([N], lambda l: T.app(e, l), 'f'), SArr.make([N, N], lambda i, l: T.app(U, i, l), 'f')
        h.en.hooks['eigh'] = eigh
        h.en.hooks['eigsh'] = lambda L, k=None, return_eigenvectors=True, **kw: SArr.make([num(1)], lambda i: self.lz, 'f') if not return_eigenvectors else h.en.unsup('eigsh')
        h.en.contracts_used.add('eigh, eigsh, _get_upper_bound (deterministic; C06, C07)')
    def graph(self):
        G = self.h.get('pygsp.graphs.graph:Graph')(self.W, self.lap, self.c)
        G.set_signal(self.sig, 's')
        G.real_edges = G.n_edges; G.get_edge_list = self.edges; G.n_edges = G.Ne = self.n_edges
        G._get_upper_bound = lambda: mk(self.ub, 'f')
        return G
    def intact(self, G, after):
        h = self.h; i, j, k, t = h.idx(self.N), h.idx(self.N), h.idx(num(2)), h.idx(self.sig._shape[1])
        h.eq(f'{after}: weights', G.W.get(i, j), self.w(i, j)); h.check(f'{after}: weights stored alike', G.W.fmt == 'csr' and G.W.kind == 'f')
        same(h, f'{after}: coordinates', self.c0, G.coords); h.check(f'{after}: signals', list(G.signals) == ['s'])
        same(h, f'{after}: signal', self.sig0, G.signals['s']); same(h, f'{after}: signal argument', self.x0, self.x); same(h, f'{after}: edge signal', self.y0, self.y)
        h.eq(f'{after}: the adjacency passed to the constructor', self.W.get(i, j), self.w(i, j)); h.check(f'{after}: Laplacian type', G.lap_type == self.lap)
    def keep(self):
        self.c0, self.sig0, self.x0, self.y0 = (a.copy() for a in (self.c, self.sig, self.x, self.y))

OPS = {
    'L': lambda s, G: G.L, 'd': lambda s, G: G.d, 'dw': lambda s, G: G.dw, 'A': lambda s, G: G.A,
    'has_loops': lambda s, G: G.has_loops(), 'is_directed': lambda s, G: G.is_directed(), 'is_weighted': lambda s, G: G.is_weighted(),
    'D': lambda s, G: G.D, 'compute_differential_operator': lambda s, G: (G.compute_differential_operator(), G.D)[1],
    'grad': lambda s, G: G.grad(s.x), 'div': lambda s, G: G.div(s.y), 'dirichlet_energy': lambda s, G: G.dirichlet_energy(s.x),
    'compute_laplacian': lambda s, G: (G.compute_laplacian(s.lap), G.L)[1],
    'U': lambda s, G: G.U, 'e': lambda s, G: G.e, 'gft': lambda s, G: G.gft(s.x), 'igft': lambda s, G: G.igft(s.x), 'coherence': lambda s, G: G.coherence,
    'get_edge_list': lambda s, G: real_edges(G),
}
SYM_ONLY = {'U', 'e', 'gft', 'igft', 'coherence'}
CACHES = ('_A', '_d', '_dw', '_D', '_U', '_e', '_coherence', '_directed', 'L')
STATE = ['compute_laplacian', 'd', 'dw', 'A', 'compute_differential_operator', 'is_directed']; SYM_STATE = STATE + ['coherence']
def repeat(x, lap, symmetric):
    def run(h):
        s = World(h, lap, symmetric); s.keep()
        if s.sym != symmetric: return h.check('other case', True)
        ops = {k: f for k, f in OPS.items() if (k not in SYM_ONLY or symmetric)}
        f = ops[x]
        G = s.graph(); r0 = snap(h, f(s, G)); s.intact(G, x)
        same(h, f'{x} repeated', r0, f(s, G)); s.intact(G, f'{x} twice')
        filled = {c: snap(h, getattr(G, c)) for c in CACHES if getattr(G, c, None) is not None}
        if x in ('gft', 'grad', 'L'):      # what the other queries leave behind
            G = s.graph()
            for y, g in ops.items():
                if y not in ('is_weighted', 'get_edge_list'): g(s, G)
        else:
            for y in (SYM_STATE if symmetric else STATE): ops[y](s, G)
        same(h, f'{x} after every other query', r0, f(s, G)); s.intact(G, 'every query')
        for c, v in filled.items(): same(h, f'what {x} leaves in {c}', v, getattr(G, c))
        G = s.graph()
        for y in (SYM_STATE if symmetric else STATE)[::-1]: ops[y](s, G)
        same(h, f'{x} with every cache filled first', r0, f(s, G)); s.intact(G, f'caches, {x}')
        for c, v in filled.items(): same(h, f'{c}, filled by another query', v, getattr(G, c))
    return run
def setter(symmetric):
    def run(h):
        s = World(h, 'combinatorial', symmetric); s.keep(); G = s.graph()
        other = h.sparse('other', s.N)
        def assign(): G.W = other
        h.raises('weights cannot be reassigned', AttributeError, assign)
        s.intact(G, 'a rejected assignment')
        def add(): G.W += other
        h.raises('nor in place (+=)', AttributeError, add)
        s.intact(G, 'a rejected in-place sum')
    return run

def chosen(m, name):
    # one state per operation of C06's state machine; two of the graph searches
    if m == 'c06' and name.startswith('invariant'): return name.startswith(('invariant[combinatorial, full basis, lmax lanczos', 'invariant[normalized, full basis, lmax bounds'))
    if name.startswith('is_connected'): return name in ('is_connected[csr,f]', 'is_connected[dense,f]')
    return not name.startswith('break and join')
MODS = ['c01', 'c02', 'c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c09', 'c10', 'c11', 'c12', 'c13', 'c14', 'c15', 'c16', 'c17', 'c18', 'c21', 'c22']
def harnesses():
    for lap in ('combinatorial', 'normalized'):
        for sym in (True, False):
            for x in OPS:
                if sym or x not in SYM_ONLY | {'is_weighted'}: yield f'repeat {x} [{lap}, {"undirected" if sym else "directed"}]', repeat(x, lap, sym)
    yield 'W setter', setter(True)
    for m in MODS:
        for name, fn in importlib.import_module('contracts.' + m).harnesses():
            if chosen(m, name): yield f'frame {m.upper()} {name}', framed(fn)
