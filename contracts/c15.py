"""Tikhonov learning, relative to the contracts of the linear solvers (the result solves the system given).  L: the
symmetric matrix of an arbitrary graph; the observed vertices: an arbitrary set."""
from pyvc.values import mk
from .common import *

class Operator:
    """scipy.sparse.linalg.LinearOperator: a shape and a function on vectors"""
    def __init__(self, shape, matvec, rmatvec=None, matmat=None, dtype=None, rmatmat=None):
        if any(V.is_scalar(d) is False for d in shape): raise TypeError('shape')
        self.shape, self.f = tuple(shape), matvec
    def apply(self, z): return V.to_sarr(self.f(z))
class Setting:
    def __init__(s, h, dims, kind, tau, cls=False):
        s.h = h
        s.G, s.N, s.lf = laplacian_stub(h)
        N = s.N
        s.L0, s.st0 = s.G.L.e, s.G.L.st
        s.l = lambda i, j: T.app(s.lf, i, j)
        un = h.fn('unobserved', 1, 'b'); s.un = lambda i: T.ind_p(un, i)
        s.M = SArr.make([N], lambda i: T.one_minus(s.un(i)), 'b'); s.m = lambda i: T.one_minus(s.un(i))
        s.M0 = s.M.e
        s.C = h.size('C', 1) if dims == 2 else None
        s.dims = dims
        if not cls:
            s.y = h.vec('y', [N] + ([s.C] if dims == 2 else []), kind)
            s.Y = (lambda i, c: T.app(s.y.fn, i)) if dims == 1 else (lambda i, c: T.app(s.y.fn, i, c))
            s.y0 = s.y.e
        s.tau = tau
        s.used = False
        h.en.hooks.update(LinearOperator=Operator, cg=s.cg, spsolve=s.spsolve, solve=s.spsolve)
    # -------------------------------------------------------------- positive regularisation
    def system(s, apply, b):
        """the solution of the system apply(x) = b if it is the one stated, for the columns of b"""
        h, N = s.h, s.N
        z = h.vec('z', [N]); i = h.idx(N); t = s.tau
        if len(b._shape) not in (1, 2) or not V.same_dim(b._shape[0], N): raise T.Unsupported('right-hand side of another size')
        a = apply(z)
        if len(a._shape) != 1: raise T.Unsupported('operator')
        want = T.mul(s.m(i), z.get([i])) + T.mul(t, sum1(N, lambda j: T.mul(s.l(i, j), z.get([j]))))
        sc = [x for x in (num(1), T.power(t, -1)) if T.CTX.prove_zero(a.get([i]) - T.mul(x, want))[0]]
        xs = h.fn('solution', 2)
        if sc:
            two = len(b._shape) == 2
            c = h.idx(b._shape[1]) if two else None
            bb = b.get([i, c]) if two else b.get([i])
            for cand in [c] if two else [num(0)] + [from_atom(v) for v in sorted(bb.fv, key=lambda v: v.name) if v in T.CTX.ranges or v.sort == 'int']:
                if two and s.C is None: continue
                if T.CTX.prove_zero(bb - T.mul(sc[0], T.mul(s.m(i), s.Y(i, cand))))[0]:
                    s.used = True
                    s.h.en.contracts_used.add('scipy.sparse.linalg.cg / direct solvers: the solution of the system given (to the tolerance of the solver)')
                    X = s.solution()
                    return SArr.make(list(b._shape), lambda *ix: X(ix[0], ix[1] if two else cand), 'f')
        # some other system: nothing is known about its solution
        return SArr.make(list(b._shape), (lambda *ix: T.app(xs, ix[0], ix[1] if len(ix) > 1 else num(0))), 'f')
    def solution(s):
        f = s.h.en.__dict__.setdefault('_sol', T.Fn('X', 2, 'real'))
        return lambda i, c: T.app(f, i, c)
    def cg(s, A, b, x0=None, **k):
        if set(k) - {'rtol', 'atol', 'tol', 'callback', 'M'}: raise T.Unsupported('cg arguments')
        ap = A.apply if isinstance(A, Operator) else (lambda z: V.to_sarr(A.dot(z)))
        return s.system(ap, V.to_sarr(b)), 0
    # -------------------------------------------------------------- no regularisation
    def spsolve(s, A, b, permc_spec=None, use_umfpack=True):
        if s.tau is not None:
            sol = s.system(lambda z: V.to_sarr(A.dot(z)), V.to_sarr(b))
            return sol
        h, N = s.h, s.N
        v = T.CTX_temp(N); s.en = en = V.enum_of([N], [v], s.un(from_atom(v))); K = en.K; u = en.fns[0]
        b = V.to_sarr(b)
        i, k = h.idx(K), h.idx(K); two = len(b._shape) == 2
        c = h.idx(b._shape[1]) if two else num(0)
        ok = all(V.same_dim(d, K) for d in [*A._shape, b._shape[0]])
        if not ok: raise T.Unsupported('a system of another size')
        Ae = A.get(u(i), k) if False else (A.get(i, k) if isinstance(A, SSp) else A.get([i, k]))
        Be = b.get([i, c] if two else [i])
        want = -sum1(N, lambda j: T.mul(T.mul(s.m(j), s.l(u(i), j)), s.Y(j, c)))
        good = any(T.CTX.prove_zero(Ae - sg * s.l(u(i), u(k)))[0] and T.CTX.prove_zero(Be - sg * want)[0] for sg in (1, -1))
        X = h.fn('Xu' if good else 'other', 2); x = lambda k, c: T.app(X, k, c)
        if good:
            s.used = True
            h.en.contracts_used.add('scipy.sparse.linalg.spsolve: the solution of the system it is given')
            def rule(binders, m):
                # sum over unobserved j of L(u, j) X(rank j, c), for an unobserved vertex u
                for q, (v, d) in enumerate(binders):
                    hit = [(a, e) for a, e in m[0] if v in a.fv]; lits = [l for l in m[1] if v in l.fv]
                    if len(hit) != 2 or any(e != 1 or a.kind != 'app' for a, e in hit): continue
                    xa = [a for a, _ in hit if a.fn is X]; la = [a for a, _ in hit if a.fn is s.lf]
                    if len(xa) != 1 or len(la) != 1 or v in xa[0].args[1].fv: continue
                    vv = from_atom(v); rest = lambda: T.from_mono((tuple((a, e) for a, e in m[0] if v not in a.fv), m[1] - set(lits)))
                    for p in (0, 1):
                        o = la[0].args[1 - p]
                        if v in o.fv: continue
                        if d == N and la[0].args[p] == vv and xa[0].args[0] == en.rank(vv) and len(lits) == 1 and lits[0].kind == 'p' and T.ind_p(un_fn, vv) == T.from_mono((((),)[0], frozenset(lits))): pass
                        elif d == K and la[0].args[p] == u(vv) and xa[0].args[0] == vv and not lits: pass
                        else: continue
                        t = T.the_atom(o)
                        if not (t is not None and t.kind == 'app' and t.fn is u): continue
                        return T.sum_over(binders[:q] + binders[q + 1:], T.mul(rest(), -sum1(N, lambda j: T.mul(T.mul(s.m(j), s.l(o, j)), s.Y(j, xa[0].args[1])))))
                return None
            un_fn = T.the_lit(s.un(num(0))).atom.fn if hasattr(T, 'the_lit') else list(list(s.un(from_atom(v)).t)[0][1])[0].atom.fn
            T.CTX.sum_rules.append(rule); T.CTX.bump()
        if two and V.dims_match(b._shape[1], num(1)): return SArr.make([K], lambda k: x(k, num(0)), 'f')
        return SArr.make(list(b._shape), lambda *ix: x(ix[0], ix[1] if two else num(0)), 'f')
    def post(s, R, dims=None):
        h, N = s.h, s.N; dims = dims or s.dims
        i = h.idx(N); c = h.idx(s.C) if dims == 2 else num(0)
        h.shape('shape', R, [N] + ([s.C] if dims == 2 else []))
        at = lambda i, c: h.at(R, i, c) if dims == 2 else h.at(R, i)
        if s.tau is not None:
            X = s.solution()
            h.eq('the solution of (mask + tau L) x = mask y', at(i, c), X(i, c))
            h.check('the system solved is the one stated', s.used)
        else:
            h.eq('observed values are returned', T.mul(s.m(i), at(i, c)), T.mul(s.m(i), s.Y(i, c)))
            v = T.CTX_temp(N); en = V.enum_of([N], [v], s.un(from_atom(v)))
            k = h.idx(en.K); u = en.fns[0](k)
            h.zero('zero Laplacian at every unobserved vertex', sum1(N, lambda j: T.mul(s.l(u, j), at(j, c))))
        h.eq('mask unmodified', s.M.e, s.M0); h.eq('Laplacian unmodified', s.G.L.e, s.L0); h.eq('pattern unmodified', s.G.L.st, s.st0)
def positive(h):
    t = h.real('tau'); h.assume(T.lt(0, t)); return t
def regression(dims, kind, pos):
    def run(h):
        s = Setting(h, dims, kind, positive(h) if pos else None)
        R = h.get('pygsp.learning:regression_tikhonov')(s.G, s.y, s.M, mk(s.tau, 'f') if pos else 0)
        s.post(R)
        h.eq('signal unmodified', s.y.e, s.y0)
    return run
def classification(pos):
    def run(h):
        s = Setting(h, 2, None, positive(h) if pos else None, cls=True); N = s.N
        lab = h.vec('label', [N], 'i')
        v = T.CTX_temp(N); ve = from_atom(v)
        h.assume_forall([(v, N)], T.one_minus(T.mul(s.m(ve), T.lt(T.app(lab.fn, ve), 0))))     # observed labels are not negative
        lab0 = lab.e
        la = lambda i: T.app(lab.fn, i)
        s.Y = lambda i, c: T.mul(s.m(i), T.eq(la(i), c))
        f = h.get('pygsp.learning:classification_tikhonov')
        real = h.get('pygsp.learning:regression_tikhonov'); seen = []
        R = f(s.G, lab, s.M, mk(s.tau, 'f') if pos else 0)
        s.C = V.dim_e(R.shape[1])
        i = h.idx(N)
        h.red_facts([i])
        h.true('every observed label has a column', T.one_minus(T.mul(s.m(i), T.le(s.C, la(i)))))
        h.true('there is a column', T.le(1, s.C))
        s.post(R, 2)
        h.eq('labels unmodified', lab.e, lab0)
    return run
def harnesses():
    for pos in (True, False):
        for dims in (1, 2):
            for kind in 'fi': yield f'regression[{"tau > 0" if pos else "tau = 0"},{dims}-D,{kind}]', regression(dims, kind, pos)
        yield f'classification[{"tau > 0" if pos else "tau = 0"}]', classification(pos)
