"""Simplex-constrained classification.  The iterative solver enters through its contract: the solution it returns is the value
of the proximal map given to it at some point of the shape of the starting point (the last step of forward-backward
splitting), whatever the number of iterations; the starting point is overwritten.  The projection is verified for matrices
with any numbers of rows and columns: its loop over the rows is cut by the invariant that every row treated so far is the
projection of the row given, and the bisection by the invariant that the breakpoint is bracketed."""
import types
from pyvc.values import mk, elem, SArr
from pyvc import loops as LP, whiles as WH, engine as EN
from .common import *

class Setting:
    def __init__(s, h):
        s.h = h; s.rows = 0; s.x0 = None
        f, so = types.ModuleType('functions'), types.ModuleType('solvers')
        class func:
            def __init__(self, y=0, A=None, At=None, tight=True, nu=1, tol=1e-3, maxit=200, **k):
                if k: raise T.Unsupported('parameters of a function object')
        f.func = func
        so.forward_backward = lambda *a, **k: types.SimpleNamespace(kind='forward_backward', **k)
        so.solve = s.solve
        s.box = types.ModuleType('pyunlocbox'); s.box.functions, s.box.solvers = f, so
    def __enter__(s):
        s.old = s.h.ld.shims.get('pyunlocbox'); s.h.ld.shims['pyunlocbox'] = s.box; return s
    def __exit__(s, *a):
        if s.old is None: s.h.ld.shims.pop('pyunlocbox', None)
        else: s.h.ld.shims['pyunlocbox'] = s.old
        return False
    def solve(s, functions, x0, solver=None, **k):
        h = s.h
        if getattr(solver, 'kind', None) != 'forward_backward': raise T.Unsupported('another solver')
        prox = [f for f in functions if hasattr(f, '_prox')]; grad = [f for f in functions if hasattr(f, '_grad')]
        if len(functions) != 2 or len(prox) != 1 or len(grad) != 1 or prox[0] is grad[0]: raise T.Unsupported('other functions')
        h.en.contracts_used.add('pyunlocbox.solvers.solve with forward_backward: the result is the value of the proximal map at some point (at least one iteration); the starting point is overwritten by it')
        h.check('the starting point is an array of real numbers', isinstance(x0, SArr) and x0.kind == 'f')
        s.functions = functions; s.prox, s.grad = prox[0], grad[0]; s.step = solver.__dict__.get('step'); s.start = x0.copy()
        s.Z = Z = h.vec('Z', list(x0._shape)); s.z = lambda i, c: T.app(Z.fn, i, c)
        z0 = Z.e
        h.en.for_specs = [Rows(s)]; h.en.while_specs = [Bisection(s)]
        R = s.prox._prox(Z, s.step)
        h.eq('the point given to the projection is unmodified', Z.e, z0)
        s.R = R
        x0[:] = R
        return {'sol': x0, 'crit': 'MAXIT', 'niter': 1}
    # ------------------------------------------------------------------ one row
    def sorting(s):
        db = getattr(T.CTX, '_sorts', {})
        if len(db) != 1: raise T.Unsupported('the values of the row are not sorted exactly once')
        p, q = list(db.values())[0]
        return p
    def sorted_value(s, i):
        p = s.sorting()
        return lambda r: s.z(i, T.app(p, i, lift(r)) if p.arity == 2 else T.app(p, lift(r)))
    def prefix(s, i, d):
        """P(k) = sum of the k smallest values; sums over consecutive sorted values are written with it"""
        h = s.h; p = s.sorting(); P = h.fn('P', 1); s.P = lambda k: T.app(P, lift(k))
        srt = s.sorted_value(i)
        def rule(binders, m):
            if len(binders) != 1: return None
            (v, D), = binders
            if any(v in l.fv for l in m[1]): return None
            hit = [(a, e) for a, e in m[0] if v in a.fv]
            if len(hit) != 1 or hit[0][1] != 1: return None
            a = hit[0][0]
            if a.kind != 'app' or a.fn is not s.Z.fn: return None
            t = T.the_atom(a.args[1])
            if t is None or t.kind != 'app' or t.fn is not p: return None
            o = t.args[-1] - from_atom(v)
            if v in o.fv or from_atom(a) != srt(o + from_atom(v)): return None
            if not T.CTX.prove_le(0, D): return None
            return T.mul(T.from_mono((tuple((b, e) for b, e in m[0] if v not in b.fv), m[1])), s.P(o + D) - s.P(o))
        T.CTX.sum_rules.append(rule); T.CTX.bump()
        h.assume(T.eq(s.P(0), 0), 'P(0) = 0')
        s.unfold = lambda k: h.assume(T.eq(s.P(lift(k) + 1) - s.P(k), srt(k)))
        s.g = lambda k: s.P(d) - s.P(k) - T.mul(d - lift(k), srt(k)) - 1
        return srt
class Bisection:
    """g(k) = sum over r >= k of (s(r) - s(k)) - 1: with a the lower and b the upper bound of the search,
    0 <= a < b <= d-1, g(a) >= 0, g(b) <= 0"""
    def __init__(self, s): self.s = s
    def match(self, loop, loc):
        ns = [n for n in loop.info['cond'] if n in loop.info['stored'] and n in loc]
        if len(ns) != 2 or not hasattr(self.s, 'g'): return None
        v = [elem(loc[n]) if V.is_scalar(loc[n]) else None for n in ns]
        if None in v: return None
        lo = [n for n, x in zip(ns, v) if x.const() == 0]; hi = [n for n, x in zip(ns, v) if x == self.s.d - 1]
        if len(lo) != 1 or len(hi) != 1: return None
        return dict(lo=lo[0], hi=hi[0], names=set(ns), arrays=[])
    def invariants(self, st, loc):
        a, b = elem(loc[st['lo']]), elem(loc[st['hi']]); g = self.s.g
        self.s.unfold(self.s.d - 1)
        return [('the lower bound is not negative', ([], T.le(0, a))), ('the lower bound is below the upper one', ([], T.lt(a, b))), ('the upper bound is an index', ([], T.lt(b, self.s.d))),
                ('the excess at the lower bound is not negative', ([], T.le(0, g(a)))), ('the excess at the upper bound is not positive', ([], T.le(g(b), 0)))]
    def assume(self, ind): T.CTX.assume(ind[1])
    def havoc(self, st, loc):
        h = self.s.h; a, b = T.var('idx_low', 'int'), T.var('idx_high', 'int')
        return {st['lo']: mk(a, 'i'), st['hi']: mk(b, 'i')}
    def step(self, loop, st, loc): pass
    def exit(self, loop, st, loc): self.s.bracket = elem(loc[st['lo']]), elem(loc[st['hi']])
class Rows:
    """a loop that fills one row of a matrix per iteration"""
    def __init__(self, s): self.s = s
    def match(self, loop, loc):
        Z = self.s.Z
        if not V.same_dim(loop.segs[0][0], Z._shape[0]): return None
        return dict(arrs=[v for v in loc.values() if isinstance(v, SArr) and v.ndim == 2 and v.kind == 'f' and v is not Z and all(V.same_dim(x, y) for x, y in zip(v._shape, Z._shape))])
    def names(self, st): return []
    def entry(self, loop, st, loc): pass
    def havoc(self, loop, st, loc, k):
        s = self.s; s.i = k; s.d = s.Z._shape[1]; s.bracket = None
        s.srt = s.prefix(k, s.d)
        return {}
    def writes(self, loop, st, arrs):
        if len(arrs) != 1 or not any(arrs[0] is a for a in st['arrs']): raise T.Unsupported('the loop writes another array')
        st['x'] = arrs[0]; st['before'] = loop.root_entry[arrs[0].uid]
        return True
    def step(self, loop, st, loc, k):
        s = self.s; h = s.h; x = st['x']; d = s.d
        i, j = T.CTX_temp(x._shape[0]), T.CTX_temp(d); ie, je = from_atom(i), from_atom(j)
        old = T.subst(st['before'], dict(zip(x.vs, (ie, je))))
        h.zero('an iteration changes its own row only', T.mul(T.ne(ie, k), x.get([ie, je]) - old))
        row = lambda j: x.get([k, j])
        self.projection(row, lambda j: s.z(k, j), d)
        s.rows += 1
    def projection(self, row, y, d):
        s = self.s; h = s.h; j = h.idx(d); srt = s.srt
        if s.bracket is None: b = num(0); hyp = None
        else:
            a, b = s.bracket
            s.unfold(a); h.eq('the bounds of the search are consecutive', b, a + 1); b = a + 1
        n = d - b
        lam = T.mul(s.P(d) - s.P(b) - 1, T.power(n, -1))
        h.eq('each entry is the one given less the threshold, or zero', row(j), T.maximum(num(0), y(j) - lam))
        h.true('some entry is kept', T.lt(b, d))
        h.eq('the threshold times the number of entries kept is their excess', T.mul(n, lam), s.P(d) - s.P(b) - 1)
        t = h.real('threshold'); h.assume(T.eq(t, lam), 'threshold'); h.assume(T.eq(T.mul(n, t), s.P(d) - s.P(b) - 1))
        h.true('the threshold is at most the smallest value kept', T.le(t, srt(b))); h.assume(T.le(t, srt(b)))
        if s.bracket is not None: h.true('the threshold is at least the largest value dropped', T.le(srt(b - 1), t)); h.assume(T.le(srt(b - 1), t))
        r = h.idx(d); w = srt(r)
        h.eq('entries kept and dropped', T.maximum(num(0), w - t), T.mul(T.le(b, r), w - t))
        # sum over the entries = sum over the sorted entries (the sort is a permutation)
        h.eq('the row sums to one', s.P(d) - s.P(b) - T.mul(n, lam), 1)
        h.true('entries are not negative', T.le(0, row(j)))
    def exit(self, loop, st, loc):
        s = self.s; x = st['x']; X = s.h.fn('X', 2, nonneg=True)
        n, d = x._shape
        old = x._e; x._e = T.app(X, *[from_atom(v) for v in x.vs]); x.writes += 1
        en = EN.eng()
        if en.written is not None: en.written.note(x, old)
        def rule(binders, m):
            for q, (v, D) in enumerate(binders):
                if D != d or any(v in l.fv for l in m[1]): continue
                hit = [(a, e) for a, e in m[0] if v in a.fv]
                if len(hit) != 1 or hit[0][1] != 1 or hit[0][0].kind != 'app' or hit[0][0].fn is not X: continue
                a = hit[0][0]
                if a.args[1] != from_atom(v) or v in a.args[0].fv: continue
                return T.sum_over(binders[:q] + binders[q + 1:], T.from_mono((tuple((b, e) for b, e in m[0] if v not in b.fv), m[1])))
            return None
        T.CTX.sum_rules.append(rule); T.CTX.bump()
        s.X = X
        lam = s.h.fn('lam', 1)
        i, j = T.CTX_temp(n), T.CTX_temp(d); ie, je = from_atom(i), from_atom(j)
        X.facts.append(lambda a, b: [T.one_minus(T.mul(T.in_range(a, n), T.mul(T.in_range(b, d), T.ne(T.app(X, a, b), T.maximum(num(0), s.z(a, b) - T.app(lam, a))))))])
        return {}
def simplex(kind, nonpos=False):
    def run(h):
        with Setting(h) as s:
            G, N, lf = laplacian_stub(h); L0, st0 = G.L.e, G.L.st
            lm = h.real('lmax'); h.assume(T.lt(0, lm)); G._lmax = mk(lm, 'f'); G._lmax_method = 'fourier'
            un = h.fn('unobserved', 1, 'b'); m = lambda i: T.one_minus(T.ind_p(un, i))
            M = SArr.make([N], m, 'b'); M0 = M.e
            lab = h.vec('label', [N], kind); la = lambda i: T.app(lab.fn, i); lab0 = lab.e
            v = T.CTX_temp(N); ve = from_atom(v)
            h.assume_forall([(v, N)], T.one_minus(T.mul(m(ve), T.lt(la(ve), 0))))     # observed labels are not negative
            f = h.get('pygsp.learning:classification_tikhonov_simplex')
            t = h.real('tau')
            if nonpos:
                h.assume(T.le(t, 0)); h.raises('a regularisation that is not positive is rejected', ValueError, f, G, lab, M, tau=mk(t, 'f'))
                return
            h.assume(T.lt(0, t))
            R = f(G, lab, M, tau=mk(t, 'f'))
            C = V.dim_e(R.shape[1]); i, j, l = h.idx(N), h.idx(C), h.idx(C)
            h.red_facts([i])
            h.check('every row is treated', s.rows > 0)
            h.shape('shape', R, [N, C])
            x = lambda c: h.at(R, i, c); z = lambda c: s.z(i, c)
            h.true('entries are not negative', T.le(0, x(j))); h.eq('rows sum to one', sum1(C, x), 1)
            # closest point of the simplex (simplex_closest, Lean): y - x is constant on the support and nowhere larger
            h.true('equal shifts on the support', T.one_minus(T.mul(T.mul(T.lt(0, x(j)), T.lt(0, x(l))), T.ne(z(j) - x(j), z(l) - x(l)))))
            h.true('entries at zero are shifted less', T.one_minus(T.mul(T.mul(T.lt(0, x(j)), T.eq(x(l), 0)), T.lt(z(j) - x(j), z(l)))))
            h.true('every observed label has a column', T.one_minus(T.mul(m(i), T.le(C, la(i)))))
            # objective and gradient
            Y = lambda i, c: T.mul(m(i), T.eq(la(i), c))
            A = h.vec('A', [N, C]); a = lambda i, c: T.app(A.fn, i, c)
            h.eq('gradient', h.at(s.grad._grad(A), i, j), 2 * (T.mul(m(i), a(i, j) - Y(i, j)) + T.mul(t, sum1(N, lambda k: T.mul(T.app(lf, i, k), a(k, j))))))
            h.eq('labels unmodified', lab.e, lab0); h.eq('mask unmodified', M.e, M0); h.eq('Laplacian unmodified', G.L.e, L0); h.eq('pattern unmodified', G.L.st, st0)
    return run
def harnesses():
    yield 'simplex', simplex('i')
    yield 'tau <= 0', simplex('i', True)
