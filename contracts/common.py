from pyvc import terms as T, values as V
from pyvc.terms import num, from_atom, lift, sum_over
from pyvc.values import SArr, SSp, Sc

def wfun(W):
    fn = W.fn
    if W.kind == 'b': return lambda i, j: T.ind_p(fn, i, j)
    return lambda i, j: T.app(fn, i, j)
def sum1(N, f):
    k = T.CTX_temp(lift(N)); return sum_over([(k, lift(N))], f(from_atom(k)))
def sum2(N, M, f):
    a, b = T.CTX_temp(lift(N)), T.CTX_temp(lift(M))
    return sum_over([(a, lift(N)), (b, lift(M))], f(from_atom(a), from_atom(b)))
def avg(w): return lambda i, j: (w(i, j) + w(j, i)) / 2
def degree_w(w, N): return lambda i: sum1(N, lambda k: avg(w)(i, k))
def degree_n(w, N): return lambda i: sum1(N, lambda k: (T.ne(w(i, k), 0) + T.ne(w(k, i), 0)) / 2)
def lap_comb(w, N):
    d = degree_w(w, N); a = avg(w)
    return lambda i, j: T.mul(T.eq(i, j), d(i)) - a(i, j)
def isqrt(x): return T.power(x, T.Q(-1, 2))
def lap_norm(w, N):
    d = degree_w(w, N); a = avg(w)
    def f(i, j):
        di, dj = d(i), d(j)
        on = T.mul(T.ne(di, 0), T.ne(dj, 0))
        return T.mul(on, T.eq(i, j) - T.mul(a(i, j), T.mul(isqrt(di), isqrt(dj))))
    return f

def make_graph(h, fmt='csr', kind='f', nonneg=False, lap='combinatorial', stored='any', symmetric=None, N=None, lo=1, coords=None):
    """run the real constructor on a symbolic adjacency; returns (G, N, w) """
    N = h.size('N', lo) if N is None else N
    if fmt == 'dense':
        W = h.vec('W', [N, N], kind, nonneg)
        if symmetric: W.fn.sym = True
    else:
        W = h.sparse('W', N, kind=kind, nonneg=nonneg, stored=stored, fmt=fmt, symmetric=bool(symmetric))
    Graph = h.get('pygsp.graphs.graph:Graph')
    h.en.functions.add('pygsp.graphs.graph:Graph.__init__')
    G = Graph(W, lap, *( [coords] if coords is not None else []))
    if h.en.frame is not None: h.en.frame.graph(G)
    return G, N, wfun(W), W

def is_sym_path(G): return not G._directed

def edge_contract(h, G, N, w, sym, name='E'):
    """replace the callee get_edge_list by its contract (proved in C03): an enumeration, without repetition, of the
    non-zero entries (the upper triangle with the diagonal when undirected) with their weights, n_edges of them."""
    E = h.size(name, 0)
    i, j = T.CTX_temp(lift(N)), T.CTX_temp(lift(N))
    ind = T.ne(w(from_atom(i), from_atom(j)), 0)
    if sym: ind = T.mul(ind, T.le(from_atom(i), from_atom(j)))
    en = V.opaque_enum([lift(N), lift(N)], [i, j], ind, E)
    src, dst = en.arr(0), en.arr(1)
    wt = SArr.make([E], lambda k: w(en.fns[0](k), en.fns[1](k)), G.W.kind)
    if h.en.frame is not None: h.en.frame.fresh(*([src, dst, wt] if sym else [src]))      # directed: the values and columns are W's own
    G.get_edge_list = lambda: (src, dst, wt)
    G.n_edges = G.Ne = V.mk(E, 'i')
    h.en.contracts_used.add('get_edge_list (contract proved under C03), n_edges (C03)')
    return E

# ---------------------------------------------------------------- filter banks
class Kern:
    """an arbitrary kernel applied entry by entry"""
    def __init__(self, f, k): self.f, self.k = f, k
    def __call__(self, x, *a, **kw):
        if V.is_scalar(x): return V.mk(T.app(self.f, self.k, V.elem(x)), 'f')
        x = V.to_sarr(x)
        return SArr.make(x._shape, lambda *ix: T.app(self.f, self.k, x.get(list(ix))), 'f')
def bank_kernels(h, name='g', n=None, lo=1):
    """a list of an arbitrary number of arbitrary kernels; returns (number, values g(k, x), list)"""
    Nf = h.size(name + '_Nf', lo) if n is None else lift(n)
    f = h.fn(name, 2)
    seq = V.SymSeq(Nf, lambda k: Kern(f, k)) if Nf.const() is None else [Kern(f, num(k)) for k in range(int(Nf.const()))]
    return Nf, (lambda k, x: T.app(f, lift(k), x)), seq
class GraphStub:
    """the graph as its contract: only what the postconditions of the callee promise"""
    _pyvc_stub = True
    def __init__(self): self._pyvc_stub = True

# ---------------------------------------------------------------- a graph with a Fourier basis (contract of C07)
def spectral_graph(h, N=None, orthonormal=False):
    """a graph of which only the Fourier basis (U, e), as computed, is known; the methods are the real ones"""
    N = h.size('N', 1) if N is None else lift(N)
    cls = h.get('pygsp.graphs.graph:Graph')
    G = object.__new__(cls)
    G._pyvc_stub = True
    G.n_vertices = G.N = V.mk(N, 'i')
    U = h.fn('U', 2); e = h.fn('lam', 1)
    G._U = SArr.make([N, N], lambda i, l: T.app(U, i, l), 'f')
    G._e = SArr.make([N], lambda l: T.app(e, l), 'f')
    h.en.contracts_used.add('compute_fourier_basis (contract of C07)')
    if orthonormal: globals()['orthonormal'](h, U, N)
    return G, N, (lambda i, l: T.app(U, i, l)), (lambda l: T.app(e, l))
def squeezed(h, dims, idx):
    """(shape, indices) after dropping the dimensions that are one on this path"""
    sh, ix = [], []
    for d, i in zip(dims, idx):
        d = lift(d)
        if T.CTX.decide('eq', d - 1) is True: continue
        sh.append(d); ix.append(i)
    return sh, ix
def orthonormal(h, Ufn, N):
    """contract of C07: the rows and the columns of U are orthonormal (a rewrite rule for sums)"""
    N = lift(N)
    def rule(binders, m):
        for i, (v, d) in enumerate(binders):
            if d != N or any(v in l.fv for l in m[1]): continue
            occ = []
            for a, x in m[0]:
                if v not in a.fv: continue
                if a.kind != 'app' or a.fn is not Ufn or x not in (1, 2): occ = None; break
                occ += [a] * int(x)
            if occ is None or len(occ) != 2: continue
            vv = from_atom(v)
            for p in (0, 1):
                o = 1 - p
                if all(a.args[p] == vv and v not in a.args[o].fv for a in occ):
                    rest = T.from_mono((tuple((a, x) for a, x in m[0] if v not in a.fv), m[1]))
                    return sum_over(binders[:i] + binders[i + 1:], T.mul(rest, T.eq(occ[0].args[o], occ[1].args[o])))
        return None
    T.CTX.sum_rules.append(rule); T.CTX.bump()
    h.en.contracts_used.add('U orthonormal (contract of C07)')

def eigh_contract(h, name='U'):
    """contract of scipy.linalg.eigh / numpy.linalg.eigh on a symmetric matrix: orthonormal eigenvectors, eigenvalues
    in non-decreasing order; for the Laplacian of a graph with non-negative weights the smallest one is zero (L = D D^T
    is positive semi-definite, C02, and has a null vector, proved with the harness)"""
    U, e = h.fn(name, 2), h.fn('lam', 1, nonneg=True)     # sorted, and the smallest is zero
    calls = []
    def eigh(a, *args, **kw):
        if args or set(kw) - {'overwrite_a', 'check_finite', 'lower', 'driver', 'overwrite_b', 'turbo'} : raise T.Unsupported('eigh arguments')
        if isinstance(a, SSp): raise T.Unsupported('eigh of a sparse matrix')
        a = V.to_sarr(a)
        n = a._shape[0]
        calls.append(a.copy())
        orthonormal(h, U, n)
        i, j = T.CTX_temp(n), T.CTX_temp(n)
        h.assume_forall([(i, n), (j, n)], T.one_minus(T.mul(T.le(from_atom(i), from_atom(j)), T.lt(T.app(e, from_atom(j)), T.app(e, from_atom(i))))))
        h.assume(T.eq(T.app(e, num(0)), 0), 'smallest eigenvalue zero')
        mono = lambda k: [T.one_minus(T.mul(T.le(0, k), T.lt(T.app(e, k), 0)))]
        h.en.ctx.assumptions.append('eigh: orthonormal eigenvectors, sorted eigenvalues; the smallest is 0 for a Laplacian (positive semi-definite with a null vector)')
        Ua = SArr.make([n, n], lambda i, l: T.app(U, i, l), 'f'); ea = SArr.make([n], lambda l: T.app(e, l), 'f')
        Ua.fn = U; ea.fn = e
        return ea, Ua
    h.en.hooks['eigh'] = eigh
    def eigvalsh(a, *x, **k): return eigh(a, *x, **k)[0]
    h.en.hooks['eigvalsh'] = eigvalsh
    return U, e, calls
def eigen_rule(h, Lfn, U, e, N):
    """sum_j L(i,j) U(j,l) = U(i,l) e(l) and its transpose"""
    N = lift(N)
    def rule(binders, m):
        for i, (v, d) in enumerate(binders):
            if d != N or any(v in l.fv for l in m[1]): continue
            hits = [(a, x) for a, x in m[0] if v in a.fv]
            if len(hits) != 2 or any(x != 1 for _, x in hits): continue
            L = [a for a, _ in hits if a.kind == 'app' and a.fn is Lfn]; Uu = [a for a, _ in hits if a.kind == 'app' and a.fn is U]
            if len(L) != 1 or len(Uu) != 1: continue
            L, Uu = L[0], Uu[0]; vv = from_atom(v)
            if Uu.args[0] != vv or v in Uu.args[1].fv: continue
            if L.args[0] == vv and v not in L.args[1].fv: o = L.args[1]
            elif L.args[1] == vv and v not in L.args[0].fv: o = L.args[0]
            else: continue
            rest = T.from_mono((tuple((a, x) for a, x in m[0] if v not in a.fv), m[1]))
            return sum_over(binders[:i] + binders[i + 1:], T.mul(rest, T.mul(T.app(U, o, Uu.args[1]), T.app(e, Uu.args[1]))))
        return None
    T.CTX.sum_rules.append(rule); T.CTX.bump()
def laplacian_stub(h, N=None, lap='combinatorial', name='L'):
    """a graph of which only the (symmetric) Laplacian is known"""
    N = h.size('N', 1) if N is None else lift(N)
    G = object.__new__(h.get('pygsp.graphs.graph:Graph'))
    G._pyvc_stub = True
    G.n_vertices = G.N = V.mk(N, 'i')
    G.L = h.sparse(name, N, symmetric=True, stored='any'); G.lap_type = lap
    G.logger = h.get('pygsp.utils:build_logger')('x')
    G._lmax = G._lmax_method = G._U = G._e = G._coherence = G._D = None
    return G, N, G.L.fn

def watch(h, G):
    """what the harness has given the graph so far is what frame conditions protect"""
    if h.en.frame is not None: h.en.frame.graph(G)
