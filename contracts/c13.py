"""Kron reduction.  L: an arbitrary symmetric matrix (a Laplacian: zero row sums); kept vertices: an arbitrary
enumeration of a set; eliminated ones: the increasing enumeration of its complement.  spsolve enters through its contract
(the system it is given is solved); two consequences of the contract are lemmas in lemmas/Schur.lean:
schur_symmetric and schur_row_sum."""
from pyvc.values import SymSeq, mk
from .common import *
from .c17 import selection

class Reduction:
    """symbolic setting of one reduction"""
    def __init__(s, h, zero_rows):
        s.h = h
        s.N = N = h.size('N', 2)
        s.L = h.sparse('L', N, symmetric=True, stored='any'); s.lf = s.L.fn; s.L0, s.st0 = s.L.e, s.L.st
        s.l = lambda i, j: T.app(s.lf, i, j)
        out = h.fn('out', 1, 'b'); s.out = lambda i: T.ind_p(out, i)
        s.M = h.size('M', 1)
        v = T.CTX_temp(N)
        s.kept = V.opaque_enum([N], [v], T.one_minus(s.out(from_atom(v))), s.M)
        s.elim = V.enum_of([N], [v], s.out(from_atom(v)))
        h.assume(T.le(1, s.elim.K), 'some vertex is eliminated')
        s.a = lambda k: s.kept.fns[0](k)
        s.oc = lambda k: s.elim.fns[0](k)
        s.calls = 0
        h.en.hooks['spsolve'] = s.spsolve
        if zero_rows: s.rows()
    def rows(s):
        """sum_j L(i, j) = 0"""
        def rule(binders, m):
            for i, (v, d) in enumerate(binders):
                if d != s.N or any(v in l.fv for l in m[1]): continue
                hit = [(a, x) for a, x in m[0] if v in a.fv]
                if len(hit) != 1 or hit[0][1] != 1: continue
                a = hit[0][0]
                if a.kind == 'app' and a.fn is s.lf and from_atom(v) in a.args and sum(v in x.fv for x in a.args) == 1: return num(0)
            return None
        T.CTX.sum_rules.append(rule); T.CTX.bump(); s.zero_rows = True
        s.h.en.contracts_used.add('the rows of a combinatorial Laplacian sum to zero (C01)')
    zero_rows = False
    def spsolve(s, A, B, permc_spec=None, use_umfpack=True):
        """contract: the solution X of A X = B, for a non-singular A; one-dimensional if B is one column"""
        h = s.h; K = s.elim.K
        s.calls += 1
        if s.calls > 1: raise T.Unsupported('more than one system solved')
        i, j, b = h.idx(K), h.idx(K), h.idx(s.M)
        if not isinstance(A, SSp) or len(B._shape) != 2: raise T.Unsupported('spsolve arguments')
        ok = all(V.same_dim(x, y) for x, y in zip([*A._shape, *B._shape], [K, K, K, s.M]))
        ok = ok and T.CTX.prove_zero(A.get(i, j) - s.l(s.oc(i), s.oc(j)))[0]
        Bg = B.get(i, b) if isinstance(B, SSp) else B.get([i, b])
        ok = ok and T.CTX.prove_zero(Bg - s.l(s.oc(i), s.a(b)))[0]
        if not ok: raise T.Unsupported('the system solved is not that of the eliminated block')
        h.en.contracts_used.add('scipy.sparse.linalg.spsolve: the solution of the system it is given (eliminated block non-singular)')
        X = h.fn('X', 2); S = h.fn('Schur', 2, sym=True)
        s.X = lambda k, b: T.app(X, k, b); s.S = lambda a, b: T.app(S, a, b)
        one = V.dims_match(s.M, num(1))
        if s.zero_rows and one: s.S = lambda a, b: s.l(s.a(num(0)), s.a(num(0)))   # schur_row_sum with one column
        def rule(binders, m):
            for q, (v, d) in enumerate(binders):
                if any(v in l.fv for l in m[1]): continue
                hit = [(a, x) for a, x in m[0] if v in a.fv]
                rest = lambda: T.from_mono((tuple((a, x) for a, x in m[0] if v not in a.fv), m[1]))
                nb = binders[:q] + binders[q + 1:]
                vv = from_atom(v)
                if any(x != 1 or a.kind != 'app' for a, x in hit): continue
                if d == K and len(hit) == 2:
                    xs = [a for a, _ in hit if a.fn is X]; ls = [a for a, _ in hit if a.fn is s.lf]
                    if len(xs) == 1 and len(ls) == 1 and xs[0].args[0] == vv and v not in xs[0].args[1].fv:
                        for p in (0, 1):
                            o = ls[0].args[1 - p]; t = T.the_atom(o)
                            # sum_k L(kept a, eliminated k) X(k, b): symmetric in a, b (schur_symmetric)
                            if ls[0].args[p] == s.oc(vv) and t is not None and t.kind == 'app' and t.fn is s.kept.fns[0] and v not in o.fv:
                                return T.sum_over(nb, T.mul(rest(), s.S(t.args[0], xs[0].args[1])))
                if s.zero_rows and d == s.M and len(hit) == 1:
                    a = hit[0][0]
                    # sum_b X(k, b) = -1 (schur_row_sum), hence the sums of the rows of S
                    if a.fn is X and a.args[1] == vv and v not in a.args[0].fv: return T.sum_over(nb, -rest())
                    if a.fn is S and sum(v in x.fv for x in a.args) == 1 and vv in a.args:
                        o = a.args[1] if a.args[0] == vv else a.args[0]
                        return T.sum_over(nb, T.mul(rest(), -sum1(s.N, lambda j: T.mul(s.out(j), s.l(s.a(o), j)))))
            return None
        T.CTX.sum_rules.append(rule); T.CTX.bump()
        h.en.ctx.assumptions.append('the block of the eliminated vertices is non-singular (for a connected graph: eliminated_block_injective, Lean)')
        val = lambda k, b: s.X(k, b)
        if one: return SArr.make([K], lambda k: s.X(k, num(0)), 'f')
        return SSp.make([K, s.M], val, 'f', None, 'csc') if isinstance(B, SSp) else SArr.make([K, s.M], val, 'f')
    def schur(s, a, b): return s.l(s.a(a), s.a(b)) - s.S(a, b)
    def given(s, how):
        at = lambda k: mk(s.a(k), 'i')
        return SymSeq(s.M, at) if how == 'list' else s.kept.arr(0)
    def unchanged(s):
        s.h.eq('the matrix given is unmodified', s.L.e, s.L0); s.h.eq('its pattern is unmodified', s.L.st, s.st0)
def matrix(how, zero_rows, fmt='csr'):
    def run(h):
        s = Reduction(h, zero_rows); s.L.fmt = fmt
        R = h.get('pygsp.reduction:kron_reduction')(s.L, s.given(how))
        a, b = h.idx(s.M), h.idx(s.M)
        h.shape('shape', R, [s.M, s.M])
        h.eq('Schur complement', h.at(R, a, b), s.schur(a, b))
        s.unchanged()
    return run
def graph(how, coords):
    def run(h):
        s = Reduction(h, True); N = s.N
        G = object.__new__(h.get('pygsp.graphs.graph:Graph')); G._pyvc_stub = True
        G.n_vertices = G.N = V.mk(N, 'i'); G.L = s.L; G.lap_type = 'combinatorial'; G.plotting = {}; G._directed = False; G.signals = {}
        G.is_directed = lambda *a: False
        C = None if coords is None else h.vec('xy', [N, coords])
        if C is not None: G.coords = C
        R = h.get('pygsp.reduction:kron_reduction')(G, s.given(how))
        a, b = h.idx(s.M), h.idx(s.M)
        h.eq('number of vertices', R.N, s.M)
        h.shape('weights', R.W, [s.M, s.M])
        h.eq('weights: minus the Schur complement off the diagonal, zero on it', h.at(R.W, a, b), T.mul(T.ne(a, b), -s.schur(a, b)))
        h.eq('symmetric weights', h.at(R.W, a, b), h.at(R.W, b, a))
        h.zero('no self-loop', h.at(R.W, a, a))
        h.check('undirected', not R._directed if hasattr(R, '_directed') and R._directed is not None else not R.is_directed())
        h.check('Laplacian type', R.lap_type == 'combinatorial')
        h.shape('Laplacian', R.L, [s.M, s.M])
        h.eq('the Laplacian is the Schur complement', h.at(R.L, a, b), s.schur(a, b))
        if C is None: h.check('no coordinates', not hasattr(R, 'coords'))
        else:
            c = h.idx(coords); h.shape('coordinates', R.coords, [s.M, coords]); h.eq('coordinates', h.at(R.coords, a, c), T.app(C.fn, s.a(a), c))
        s.unchanged()
    return run
def rejected(lap):
    def run(h):
        G, N, w, W = make_graph(h, 'csr', 'f', nonneg=lap == 'normalized', lap=lap, lo=2)
        f = h.get('pygsp.reduction:kron_reduction')
        if lap == 'normalized': h.raises('a normalized Laplacian is rejected', NotImplementedError, f, G, [0]); return
        if G.is_directed(): h.raises('a directed graph is rejected', NotImplementedError, f, G, [0])
    return run
def harnesses():
    for how in ('list', 'array'):
        yield f'matrix[{how}]', matrix(how, False)
        yield f'matrix[{how}, zero row sums]', matrix(how, True)
        for c in (None, 2, 3): yield f'graph[{how}, {c} coordinates]', graph(how, c)
    yield 'matrix[array,csc]', matrix('array', False, 'csc')
    yield 'matrix[array,lil]', matrix('array', False, 'lil')
    yield 'normalized graph', rejected('normalized')
    yield 'directed graph', rejected('combinatorial')
