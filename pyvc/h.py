"""Harness vocabulary: symbolic inputs satisfying a precondition, and postconditions."""
from fractions import Fraction as Q
from . import terms as T, values as V, engine as EN
from .terms import E, num, lift, from_atom, Fn, Unsupported, sum_over
from .values import SArr, SSp, Sc, SBool, mk, elem, to_sarr

class H:
    """wraps the engine of one path"""
    def __init__(self, en):
        self.en = en; self.ld = en.loader
    def get(self, dotted):
        o = self.ld.get(dotted)
        self.en.functions.add(dotted)
        return o
    # ------------------------------------------------------------------ inputs
    def size(self, name='N', lo=1, hi=None):
        v = T.var(name, 'int')
        T.CTX.assume(T.le(lo, v), f'{name} >= {lo}')
        if hi is not None: T.CTX.assume(T.le(v, hi), f'{name} <= {hi}')
        return v
    def real(self, name, **k): return T.var(name, 'real')
    def fn(self, name, arity, kind='f', **k):
        return Fn(name, arity, {'f': 'real', 'i': 'int', 'b': 'bool'}[kind], **k)
    def vec(self, name, shape, kind='f', nonneg=False, facts=None):
        f = self.fn(name, len(shape), kind, nonneg=nonneg, facts=facts)
        a = SArr.make(list(shape), (lambda *ix: T.ind_p(f, *ix)) if kind == 'b' else (lambda *ix: T.app(f, *ix)), kind, label=name)
        a.fn = f
        return a
    def sparse(self, name, n, m=None, kind='f', symmetric=False, nonneg=False, stored='nz', fmt='csr'):
        """stored='nz': canonical; stored='any': any superset of the non-zeros (explicit zeros allowed)"""
        m = n if m is None else m
        f = self.fn(name, 2, kind, nonneg=nonneg, sym=symmetric)
        val = (lambda i, j: T.ind_p(f, i, j)) if kind == 'b' else (lambda i, j: T.app(f, i, j))
        a = SSp.make([n, m], val, kind, None, fmt, label=name)
        if stored == 'nz': a.st = a.nz()
        elif stored == 'any':
            g = self.fn(name + '_explicit', 2, 'b', sym=False)
            ix = [from_atom(v) for v in a.vs]
            a.st = T.lor(a.nz(), T.ind_p(g, *ix))
        a.fn = f
        return a
    # ------------------------------------------------------------------ hypotheses
    def assume(self, e, text=None): T.CTX.assume(e, text)
    def know(self, e):
        """assumed, and used by the normaliser to decide comparisons between the same variables"""
        T.CTX.assume(e); T.CTX._hv = T.CTX._hv | e.fv
    def assume_forall(self, binders, ind): V.assume_forall(binders, ind)
    def red_facts(self, *ixs):
        """every maximum taken so far bounds its body at these indices (an instance of its contract)"""
        for at, bs, body, wb, ws in list(getattr(T.CTX, 'reds', [])):
            for ix in ixs:
                if len(ix) != len(bs): continue
                s = {v: lift(i) for (v, _), i in zip(bs, ix)}
                r = num(1)
                for (v, d), i in zip(bs, ix): r = T.mul(r, T.mul(T.le(0, lift(i)), T.lt(lift(i), d)))
                T.CTX.assume(T.one_minus(r) + T.mul(r, T.le(T.subst(body, s), from_atom(at))))
    def points(self):
        """index tuples the path talks about: witnesses of maxima and of existential path conditions"""
        c = T.CTX
        return [[from_atom(w) for w in r[4]] for r in getattr(c, 'reds', [])] + list(getattr(c, 'skolems', []))
    def unreachable(self, name):
        """the hypotheses of this path are contradictory"""
        import z3
        r = T.CTX.check([], timeout=8000)
        self.en.oblige(name, r == z3.unsat, 'z3' if r == z3.unsat else 'the path is not contradictory')
    def attained(self, name, v, f):
        """v = f(ix) for some index: one of the points where a maximum is attained"""
        v = elem(v)
        for at, bs, body, wb, ws in list(getattr(T.CTX, 'reds', [])):
            d = v - f([from_atom(w) for w in ws])
            ok, how = T.CTX.prove_zero(d)
            if ok: self.en.oblige(name, True, how); return True
        self.en.oblige(name, False, 'no index at which it is attained was found')
    def idx(self, dim, name='a'):
        """an arbitrary index in range"""
        if lift(dim).const() == 1 or lift(dim).dig in T.CTX.unit: return num(0)
        return from_atom(T.CTX_temp(lift(dim), name))
    # ------------------------------------------------------------------ postconditions
    def zero(self, name, e): return self.en.ensure_zero(name, e)
    def eq(self, name, a, b): return self.en.ensure_eq(name, elem(a), elem(b))
    def true(self, name, ind): return self.en.ensure_true(name, ind if isinstance(ind, E) else elem(ind))
    def check(self, name, cond, how='structural'): self.en.oblige(name, bool(cond), str(how) if cond else f'failed: {how}'); return cond
    def shape(self, name, a, shape):
        sh = [V.dim_e(d) for d in (a._shape if isinstance(a, (SArr, SSp)) else a.shape)]
        ok = len(sh) == len(shape)
        self.en.oblige(name + ': rank', ok, f'{len(sh)}' if ok else f'rank {len(sh)} instead of {len(shape)}')
        if ok:
            for k, (x, y) in enumerate(zip(sh, shape)): self.en.ensure_eq(f'{name}: dimension {k}', x, lift(y))
        return ok
    def at(self, a, *ix):
        """value of an array-like result at symbolic indices"""
        if isinstance(a, SSp): return a.get(*ix)
        return to_sarr(a).get(list(ix))
    def raises(self, name, exc, f, *a, **k):
        try: f(*a, **k)
        except exc as ex:
            self.en.oblige(name, True, f'raises {type(ex).__name__}'); return True
        self.en.oblige(name, False, f'does not raise {exc.__name__}')
        return False
