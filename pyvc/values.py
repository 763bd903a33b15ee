"""Symbolic Python values: scalars, booleans with quantifiers, arrays and sparse matrices."""
import numpy as _np
import scipy.sparse as _sp
from fractions import Fraction as Q
import z3
from . import terms as T
from .terms import E, num, from_atom, lift, Unsupported
from . import engine as EN
from .prover import NotInt

def ctx(): return T.CTX

# ================================================================================================ booleans
REAL = {'Sc': (_np.float64, _np.int64), 'SArr': (_np.ndarray,), 'SSp': (_sp.csr_matrix, _sp.coo_matrix, _sp.csc_matrix, _sp.lil_matrix)}
class SBool:
    """tree: ('ind',E) ('ex',binders,E) ('not',x) ('and',x,y) ('or',x,y)"""
    __array_ufunc__ = None
    __slots__ = ('t',)
    dtype = _np.dtype(bool); ndim = 0; shape = (); size = 1
    def __init__(self, t): self.t = t
    @staticmethod
    def ind(e): return SBool(('ind', e))
    @staticmethod
    def exists(binders, e):
        if not e.t: return SBool(('ind', num(0)))
        if not binders: return SBool(('ind', e))
        r = ex_enum(binders, e)
        if r is not None: return SBool.exists(*r)
        return SBool(('ex', binders, e))
    @staticmethod
    def forall(binders, e): return ~SBool.exists(binders, T.one_minus(e))
    def __invert__(self):
        if self.t[0] == 'ind': return SBool(('ind', T.one_minus(self.t[1])))
        if self.t[0] == 'not': return self.t[1]
        return SBool(('not', self))
    def __and__(self, o):
        if isinstance(o, SArr): return NotImplemented
        o = as_bool(o)
        if self.t[0] == 'ind' and o.t[0] == 'ind': return SBool(('ind', T.mul(self.t[1], o.t[1])))
        return SBool(('and', self, o))
    __rand__ = __and__
    def __or__(self, o):
        if isinstance(o, SArr): return NotImplemented
        o = as_bool(o)
        if self.t[0] == 'ind' and o.t[0] == 'ind': return SBool(('ind', T.lor(self.t[1], o.t[1])))
        return SBool(('or', self, o))
    __ror__ = __or__
    def as_ind(self):
        k = self.t[0]
        if k == 'ind': return self.t[1]
        if k == 'not': return T.one_minus(self.t[1].as_ind())
        if k == 'and': return T.mul(self.t[1].as_ind(), self.t[2].as_ind())
        if k == 'or': return T.lor(self.t[1].as_ind(), self.t[2].as_ind())
        if k == 'ex':
            return T.one_minus(T.eq(T.sum_over(self.t[1], self.t[2]), 0))
    def z(self):
        c = ctx(); k = self.t[0]
        if k == 'ind': return c.z_ind(self.t[1])
        if k == 'not': return z3.Not(self.t[1].z())
        if k == 'and': return z3.And(self.t[1].z(), self.t[2].z())
        if k == 'or': return z3.Or(self.t[1].z(), self.t[2].z())
        if k == 'ex':
            vs = [c.z_atom(v) for v, _ in self.t[1]]
            rng = []
            for v, d in self.t[1]: rng += [c.z_atom(v) >= 0, c.z_atom(v) < c.z_num(d)]
            fs = [f for f in c.vocab_facts([self.t[2]])]
            return z3.Exists(vs, z3.And(rng + [c.z_ind(self.t[2])]))
    def vocab(self):
        k = self.t[0]
        if k == 'ind': return [self.t[1]]
        if k == 'ex': return [d for _, d in self.t[1]]
        out = []
        for x in self.t[1:]: out += x.vocab()
        return out
    def decide(self):
        k = self.t[0]
        if k == 'ind':
            c = self.t[1].const()
            if c is not None: return c == 1
            return None
        if k == 'not':
            d = self.t[1].decide(); return None if d is None else not d
        if k in ('and', 'or'):
            a, b = self.t[1].decide(), self.t[2].decide()
            if k == 'and':
                if a is False or b is False: return False
                if a and b: return True
            else:
                if a or b: return True
                if a is False and b is False: return False
            return None
        if k == 'ex':
            s = T.sum_over(self.t[1], self.t[2])
            c = s.const()
            if c is not None: return c != 0
            return None
    def feasible(self, v):
        c = ctx()
        try:
            f = self.z()
        except NotInt:
            return True
        r = c.check([f if v else z3.Not(f)], timeout=1000, vocab=self.vocab())
        return r != z3.unsat
    def assume(self, v):
        c = ctx(); k = self.t[0]
        if k == 'ind':
            e = self.t[1] if v else T.one_minus(self.t[1])
            c.assume(e); c._hv = c._hv | e.fv
        elif k == 'not': self.t[1].assume(not v)
        elif k == 'and' and v: self.t[1].assume(True); self.t[2].assume(True)
        elif k == 'or' and not v: self.t[1].assume(False); self.t[2].assume(False)
        elif k == 'ex':
            if v:
                s = {}
                for x, d in self.t[1]:
                    w = T.CTX_temp(d, 'w'); s[x] = from_atom(w)
                e = T.subst(self.t[2], s)
                c.__dict__.setdefault('skolems', []).append([s[x] for x, _ in self.t[1]])
                c.assume(e); c._hv = c._hv | e.fv
            else:
                assume_forall(self.t[1], T.one_minus(self.t[2]))
        else:
            f = self.z()
            c.hyps.append(f if v else z3.Not(f)); c.bump()
    def __bool__(self): return EN.eng().branch(self)
    # arithmetic as 0/1
    def sc(self): return Sc(self.as_ind(), 'i')
    def __add__(self, o): return self.sc() + o
    __radd__ = __add__
    def __mul__(self, o): return self.sc() * o
    __rmul__ = __mul__
    def __sub__(self, o): return self.sc() - o
    def __rsub__(self, o): return o - self.sc()
    def __truediv__(self, o): return self.sc() / o
    def __eq__(self, o):
        return SBool.ind(T.eq(self.as_ind(), elem(o)))
    def __ne__(self, o): return ~(self == o)
    def __lt__(self, o): return self.sc() < o
    def __gt__(self, o): return self.sc() > o
    __hash__ = None
    def __format__(self, s): return '<symbolic bool>'
    def any(self): return self
    def all(self): return self

def assume_forall(binders, e):
    """assume: for all binders in range, indicator e holds; recognises symmetry of a function symbol"""
    c = ctx()
    vs = [c.z_atom(v) for v, _ in binders]
    rng = []
    for v, d in binders: rng += [c.z_atom(v) >= 0, c.z_atom(v) < c.z_num(d)]
    body = c.z_ind(e)
    c.hyps.append(z3.ForAll(vs, z3.Implies(z3.And(rng), body)))
    c.hyp_src.append(f'forall {[v for v, _ in binders]}: {e!r}')
    # a symmetric symbol is written with its arguments in one order: state the instance with the other order as well
    bv = {v for v, _ in binders}
    sw = {a.dig: a for m in e.t for l in m[1] for a in _apps(l) if a.fn is not None and a.fn.sym and len(a.args) == 2 and a.fv & bv}
    if sw:
        sub = []
        for a in sw.values():
            z = c.z_atom(a)
            if z.num_args() == 2: sub.append((z, z.decl()(z.arg(1), z.arg(0))))
        if sub:
            c.hyps.append(z3.ForAll(vs, z3.Implies(z3.And(rng), z3.substitute(body, *sub))))
            c.hyp_src.append('the same with symmetric arguments exchanged')
    # symmetry:  [F(i,j) - F(j,i) = 0]
    if len(e.t) == 1 and len(binders) == 2:
        (m, k), = e.t.items()
        if k == 1 and not m[0] and len(m[1]) == 1:
            l = list(m[1])[0]
            if l.kind == 'eq' and len(l.e.t) == 2:
                ats = [(mm[0][0][0], q) for mm, q in l.e.t.items() if len(mm[0]) == 1 and mm[0][0][1] == 1 and not mm[1]]
                if len(ats) == 2 and {q for _, q in ats} == {Q(1), Q(-1)}:
                    a, b = ats[0][0], ats[1][0]
                    i, j = from_atom(binders[0][0]), from_atom(binders[1][0])
                    if a.kind == b.kind == 'app' and a.fn is b.fn and len(a.args) == 2 and set(a.args) == {i, j} and tuple(reversed(a.args)) == b.args:
                        a.fn.sym = True
    # symmetry of a predicate:  1 - p(i,j) - p(j,i) + 2 p(i,j) p(j,i)
    if len(binders) == 2 and len(e.t) == 4:
        ps = {l.atom for m in e.t for l in m[1] if l.kind == 'p'}
        i, j = from_atom(binders[0][0]), from_atom(binders[1][0])
        for a in ps:
            if a.fn is not None and not a.fn.sym and a.args in ((i, j), (j, i)):
                A, B = T.ind_p(a.fn, i, j), T.ind_p(a.fn, j, i)
                if e == num(1) - A - B + 2 * T.mul(A, B): a.fn.sym = True; break
    # forall facts on a unary/binary function applied to plain binders: register as instantiated fact
    fns = [a for m in e.t for l in m[1] for a in _apps(l)]
    for a in fns:
        if set(a.args) == {from_atom(v) for v, _ in binders} and len(a.args) == len(binders) and len(set(a.args)) == len(a.args):
            order = [T.the_atom(x) for x in a.args]
            dims = {v: d for v, d in binders}
            def fact(*args, order=order, e=e, dims=dims):
                r = T.subst(e, dict(zip(order, args)))
                g = []
                for v, x in zip(order, args): g += [T.le(0, x), T.lt(x, dims[v])]
                return [(tuple(g), (r,))]
            if len(a.fn.facts) < 6: a.fn.facts.append(fact)
            break
    c.bump()

def _apps(l):
    out = []
    def va(a):
        if a.kind == 'app': out.append(a)
        for x in a.args: ve(x)
    def ve(e):
        for m in e.t:
            for a, _ in m[0]: va(a)
            for l2 in m[1]: vl(l2)
    def vl(l):
        if l.kind == 'p': va(l.atom)
        else: ve(l.e)
    vl(l)
    return out

def as_bool(x):
    if isinstance(x, SBool): return x
    if isinstance(x, (bool, _np.bool_)): return SBool.ind(num(int(x)))
    if isinstance(x, Sc): return SBool.ind(T.ne(x.e, 0))
    if isinstance(x, int): return SBool.ind(num(int(x != 0)))
    raise Unsupported(f'boolean of {type(x)}')

# ================================================================================================ scalars
def elem(x):
    """E of a scalar-like"""
    if isinstance(x, Sc): return x.e
    if isinstance(x, SBool): return x.as_ind()
    if isinstance(x, E): return x
    if isinstance(x, SArr) and x.ndim == 0: return x.e
    if isinstance(x, _np.ndarray) and x.ndim == 0: return lift(x.item())
    if isinstance(x, complex): raise Unsupported('complex')
    return lift(x)
def skind(x):
    if isinstance(x, Sc): return x.kind
    if isinstance(x, (SBool, bool, _np.bool_)): return 'b'
    if isinstance(x, (int, _np.integer)): return 'i'
    if isinstance(x, SArr): return x.kind
    if isinstance(x, _np.ndarray): return {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f'}.get(x.dtype.kind, 'f')
    if isinstance(x, E): return 'i' if x.is_int() else 'f'
    return 'f'
def promote(a, b):
    for k in 'fib':
        if a == k or b == k: return k
DT = {'b': _np.dtype(bool), 'i': _np.dtype('int64'), 'f': _np.dtype('float64')}

PI = T._mk('var', 'pi', (), 'real')

def is_scalar(x):
    return isinstance(x, (Sc, SBool, int, float, _np.generic, E)) or (isinstance(x, _np.ndarray) and x.ndim == 0)

class Sc:
    """symbolic number (numpy-scalar-like)"""
    __array_ufunc__ = None
    __slots__ = ('e', 'kind', 'cnt')
    ndim = 0; shape = (); size = 1
    def __init__(self, e, kind=None, cnt=None):
        self.e = e; self.kind = kind or ('i' if e.is_int() else 'f'); self.cnt = cnt
    @property
    def dtype(self): return DT[self.kind]
    @property
    def T(self): return self
    def _bin(self, o, f, kind=None):
        if isinstance(o, _np.ndarray) and o.ndim: return binop(self, o, f, kind)
        if not is_scalar(o): return NotImplemented
        k = kind or promote(self.kind, skind(o))
        if k == 'b': k = 'i'
        return mk(f(self.e, elem(o)), k)
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o):
        if isinstance(o, _np.ndarray) and o.ndim: return binop(o, self, lambda a, b: a - b)
        return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o):
        if isinstance(o, (list, tuple)): return seq_repeat(o, self)
        return self._bin(o, T.mul)
    def __rmul__(self, o):
        if isinstance(o, (list, tuple)): return seq_repeat(o, self)
        return self._bin(o, T.mul)
    def __truediv__(self, o):
        if isinstance(o, _np.ndarray) and o.ndim: return binop(self, o, div, 'f')
        if not is_scalar(o): return NotImplemented
        return mk(div(self.e, elem(o)), 'f')
    def __rtruediv__(self, o):
        if isinstance(o, _np.ndarray) and o.ndim: return binop(o, self, div, 'f')
        if not is_scalar(o): return NotImplemented
        return mk(div(elem(o), self.e), 'f')
    def __floordiv__(self, o):
        if not is_scalar(o): return NotImplemented
        return mk(int_div(self.e, elem(o)), 'i')
    def __rfloordiv__(self, o):
        if not is_scalar(o): return NotImplemented
        return mk(int_div(elem(o), self.e), 'i')
    def __mod__(self, o):
        if not is_scalar(o): return NotImplemented
        return mk(T.imod(self.e, elem(o)), 'i')
    def __rmod__(self, o):
        if not is_scalar(o): return NotImplemented
        return mk(T.imod(elem(o), self.e), 'i')
    def __pow__(self, o):
        if not is_scalar(o): return NotImplemented
        return mk(pw(self.e, elem(o)), promote(self.kind, skind(o)))
    def __rpow__(self, o): return mk(pw(elem(o), self.e), promote(self.kind, skind(o)))
    def __neg__(self): return mk(-self.e, self.kind)
    def __getattr__(self, n):
        if not n.startswith('_') and any(hasattr(c, n) for c in REAL['Sc']): raise Unsupported(f'attribute {n} of an array')
        raise AttributeError(f"{type(self).__name__!r} object has no attribute {n!r}", name=n, obj=self)
    def __pos__(self): return self
    def __abs__(self): return mk(T.app(T.ABS, self.e), self.kind)
    def __lt__(self, o): return self._cmp(o, T.lt) if not self._few(o, 1) else ~SBool.exists(*self.cnt)
    def __gt__(self, o): return self._cmp(o, lambda a, b: T.lt(b, a)) if not self._few(o, 0) else SBool.exists(*self.cnt)
    def __le__(self, o): return self._cmp(o, T.le) if not self._few(o, 0) else ~SBool.exists(*self.cnt)
    def __ge__(self, o): return self._cmp(o, lambda a, b: T.le(b, a)) if not self._few(o, 1) else SBool.exists(*self.cnt)
    def _few(self, o, n):
        """a count compared with n: whether something is counted"""
        return self.cnt is not None and is_scalar(o) and not isinstance(o, float) and elem(o).const() == n
    def _cmp(self, o, f):
        if o is None or isinstance(o, str): raise TypeError('comparison of a number with ' + repr(o))
        if not is_scalar(o):
            if isinstance(o, float): pass
            return NotImplemented
        if isinstance(o, (float, _np.floating)) and o in (float('inf'), float('-inf')):
            raise Unsupported('comparison with infinity')
        return SBool.ind(f(self.e, elem(o)))
    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)): return False
        if not is_scalar(o): return NotImplemented
        if self.cnt is not None and elem(o).const() == 0: return ~SBool.exists(*self.cnt)
        oe = elem(o)
        if self.kind == 'i' and self.e.is_int() and oe.is_int() and has_sum(self.e - oe) and same_dim(self.e, oe): return SBool.ind(num(1))
        return SBool.ind(T.eq(self.e, oe))
    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented: return r
        return (not r) if isinstance(r, bool) else ~r
    __hash__ = None
    def __bool__(self):
        if self.cnt is not None: return bool(SBool.exists(*self.cnt))
        return bool(SBool.ind(T.ne(self.e, 0)))
    def __index__(self):
        c = self.e.const()
        if c is not None and c.denominator == 1: return int(c)
        raise Unsupported('symbolic value used as a concrete index')
    def __int__(self): return self.__index__()
    def __float__(self):
        c = self.e.const()
        if c is not None: return float(c)
        raise Unsupported('symbolic value converted to float')
    def __format__(self, s): return '<sym>'
    def __repr__(self): return f'<{T.show(self.e)}>'
    def astype(self, dt, **k): return mk(self.e, kind_of_dtype(dt))
    def item(self): return self
    def copy(self): return self
    def squeeze(self, axis=None): return self
    def conj(self): return self
    conjugate = conj
    def sum(self, axis=None): return self
    def max(self, axis=None): return self
    def min(self, axis=None): return self
    def any(self): return as_bool(self)
    def all(self): return as_bool(self)
    def is_integer(self): return SBool.ind(num(1)) if self.e.is_int() else unsup('is_integer')
    @property
    def real(self): return self

def unsup(s): raise Unsupported(s)
def mk(e, kind=None):
    """scalar result: concrete Python number when constant and integer"""
    c = e.const()
    kind = kind or ('i' if e.is_int() else 'f')
    if c is not None:
        if kind == 'i' and c.denominator == 1: return int(c)
        if kind == 'b': return bool(c)
        # stay exact: keep symbolic constants
    return Sc(e, kind)
def kind_of_dtype(dt):
    if dt is None: return 'f'
    if isinstance(dt, str) and dt == 'float': return 'f'
    if dt is shim_int or dt is int: return 'i'
    if dt is shim_float or dt is float: return 'f'
    if dt is shim_bool or dt is bool: return 'b'
    k = _np.dtype(dt).kind
    if k in 'iu': return 'i'
    if k == 'f': return 'f'
    if k == 'b': return 'b'
    raise Unsupported(f'dtype {dt}')
shim_int = shim_float = shim_bool = None

def div(a, b):
    """a / b with a definedness obligation left to the caller's contract (0**-1 = 0 convention)"""
    return T.mul(a, T.power(b, -1))
def int_div(a, b):
    cb = b.const()
    if cb is not None and cb > 1 and a.is_int():
        from .prover import split_order, renorm
        q = {m: c / cb for m, c in a.t.items()}
        if all(x.denominator == 1 for x in q.values()): return E(q)
        a2 = split_order(a)
        qd = {m: c / cb for m, c in a2.t.items() if (c / cb).denominator == 1}
        rest = E({m: c for m, c in a2.t.items() if m not in qd})
        return E(qd) + T.idiv(rest, b)
    return T.idiv(a, b)
def pw(a, p):
    c = p.const()
    if c is not None: return T.power(a, c)
    ca = a.const()
    if ca is not None and ca > 0:
        return T.app(POWN, a, p)
    return T.app(T.POW, a, p)
POWN = T.Fn('powc', 2, nonneg=True)      # constant base > 0
def _pown(a, p):
    ca, cp = a.const(), p.const()
    if ca == 1: return num(1)
    if cp is not None: return T.power(a, cp)
    # a**(k + c) = a**k * a**c ; split off the constant part and scale
    k = p.t.get(T._EMPTY, Q(0))
    if k:
        return T.mul(T.power(a, k), T.app(POWN, a, p - num(k)))
    return None
POWN.rewrite = _pown; T.POWN = POWN

# ------------------------------------------------------------------------------------------------ special functions
def _split_pi(x):
    """x = q*pi + rest"""
    q = Q(0); rest = {}
    for m, c in x.t.items():
        if m == (((PI, Q(1)),), frozenset()): q = c
        else: rest[m] = c
    return q, E(rest)
def _cond_split(fn, x):
    return T._shannon(x, lambda y: T.app(fn, y))
COS = T.Fn('cos', 1); SIN = T.Fn('sin', 1); EXP = T.Fn('exp', 1, nonneg=True); LOG = T.Fn('log', 1); ARCCOS = T.Fn('arccos', 1, nonneg=True)
def _cs_shift(x):
    q, r = _split_pi(x)
    import math
    k = math.floor(2 * q)
    return k % 4, r + num(q - Q(k, 2)) * from_atom(PI), q - Q(k, 2)
def _lead_neg(x):
    if not x.t: return False
    return x.t[min(x.t, key=T.mono_dig)] < 0
def _cos(x):
    y = trig_reduce(x)
    if y is not x: return T.app(COS, y)
    s = _cond_split(COS, x)
    if s is not None: return s
    k, y, fr = _cs_shift(x)
    if not k and fr != _split_pi(x)[0]: return T.app(COS, y)
    if k: return [None, lambda: -T.app(SIN, y), lambda: -T.app(COS, y), lambda: T.app(SIN, y)][k]()
    return _cs_base(y, fr, True)
def _sin(x):
    y = trig_reduce(x)
    if y is not x: return T.app(SIN, y)
    s = _cond_split(SIN, x)
    if s is not None: return s
    k, y, fr = _cs_shift(x)
    if not k and fr != _split_pi(x)[0]: return T.app(SIN, y)
    if k: return [None, lambda: T.app(COS, y), lambda: -T.app(SIN, y), lambda: -T.app(COS, y)][k]()
    return _cs_base(y, fr, False)
def _cs_base(y, fr, iscos):
    if not y.t: return num(1) if iscos else num(0)
    r = y - num(fr) * from_atom(PI)
    if not r.t:   # pure rational multiple of pi in [0, 1/2)
        tab = {Q(1, 4): (T.power(num(Q(1, 2)), Q(1, 2)),) * 2, Q(1, 3): (num(Q(1, 2)), T.power(num(Q(3, 4)), Q(1, 2))), Q(1, 6): (T.power(num(Q(3, 4)), Q(1, 2)), num(Q(1, 2)))}
        if fr in tab: return tab[fr][0 if iscos else 1]
        return None
    if fr in (Q(1, 4), Q(1, 3), Q(1, 6)):     # angle addition
        p = num(fr) * from_atom(PI); cp, sp, cr, sr = T.app(COS, p), T.app(SIN, p), T.app(COS, r), T.app(SIN, r)
        return T.mul(cr, cp) - T.mul(sr, sp) if iscos else T.mul(sr, cp) + T.mul(cr, sp)
    # canonical sign of the non-pi part
    if _lead_neg(r):
        if iscos: return T.app(COS, -y)
        return -T.app(SIN, -y)
    # arccos inverse
    if iscos:
        a = T.the_atom(y)
        if a is not None and a.kind == 'app' and a.fn is ARCCOS: return a.args[0]
    if fr > Q(1, 4) or fr < 0: pass
    return None
COS.rewrite = _cos; SIN.rewrite = _sin
COS.bounds = SIN.bounds = (-1, 1)
def _exp(x):
    s = _cond_split(EXP, x)
    if s is not None: return s
    if not x.t: return num(1)
    a = T.the_atom(x)
    if a is not None and a.kind == 'app' and a.fn is LOG: return a.args[0]
    return None
EXP.rewrite = _exp
EXP.pos = True; EXP.mono = lambda t: num(0) if t == 1 else None
def _log(x):
    s = _cond_split(LOG, x)
    if s is not None: return s
    if x.const() == 1: return num(0)
    a = T.the_atom(x)
    if a is not None and a.kind == 'app' and a.fn is EXP: return a.args[0]
    return None
LOG.rewrite = _log
def _acos(x):
    s = _cond_split(ARCCOS, x)
    if s is not None: return s
    c = x.const()
    if c == 1: return num(0)
    if c == -1: return from_atom(PI)
    if c == 0: return num(Q(1, 2)) * from_atom(PI)
    return None
ARCCOS.rewrite = _acos
def trig_reduce(e, SIN=SIN, COS=COS):
    """sin^2 -> 1 - cos^2, to a fixpoint (or the other way round)"""
    if SIN.name not in e.fns or not any(a.kind == 'app' and a.fn is SIN and x.denominator == 1 and x >= 2 for m in e.t for a, x in m[0]): return e
    for _ in range(8):
        out = []; ch = False
        for m, c in e.t.items():
            hit = None
            for a, x in m[0]:
                if a.kind == 'app' and a.fn is SIN and x.denominator == 1 and x >= 2: hit = (a, x); break
            if hit is None: out.append(T.from_mono(m, c)); continue
            ch = True
            a, x = hit
            f = {b: y for b, y in m[0]}
            if x == 2: del f[a]
            else: f[a] = x - 2
            rest = T.scale(T.from_mono((tuple(sorted(f.items(), key=lambda y: y[0].dig)), m[1])), c)
            out.append(rest - T.mul(rest, T.power(T.app(COS, a.args[0]), 2)))
        e = T.addall(out)
        if not ch: break
    return e

def trig_short(e):
    """the shorter of the two ways of eliminating squares"""
    if not (e.fns & {SIN.name, COS.name}): return e
    a, b = trig_reduce(e), trig_reduce(e, COS, SIN)
    return min((e, a, b), key=lambda x: len(x.t))
T.SHORTEN.append(trig_short)
def sqrt_e(x):
    s = T._shannon(x, sqrt_e)
    if s is not None and len(x.t) > 1: return s
    x = trig_short(x)
    return T.power(x, Q(1, 2))

# ================================================================================================ arrays
def dim_e(d):
    return elem(d)
def dim_out(e):
    c = e.const()
    return int(c) if c is not None else Sc(e, 'i')

def has_sum(e): return any(a.kind == 'sum' for m in e.t for a, _ in m[0])
def same_dim(a, b):
    if a == b: return True
    u = T.CTX.unit
    if a.dig in u or b.dig in u:
        a, b = (num(1) if x.dig in u else x for x in (a, b))
        if a == b: return True
    d = a - b
    c = d.const()
    if c is not None: return c == 0
    key = d.dig
    cache = ctx().__dict__.setdefault('_dimeq', {})
    if key in cache: return cache[key]
    ok, _ = ctx().prove_zero(d, timeout=1000)
    cache[key] = ok
    if ok: return True
    return None
def dims_match(a, b):
    """True / False, forking when undetermined"""
    r = same_dim(a, b)
    if r is not None: return r
    return bool(SBool.ind(T.eq(a, b)))

class SArr:
    """dense array with symbolic shape: element template e over index variables vs"""
    __array_ufunc__ = None
    __array_priority__ = 1000
    def __init__(self, shape, vs, e, kind, label=None):
        self._shape = tuple(shape); self.vs = tuple(vs); self._e = e; self.kind = kind
        self.label = label; self.base = None; self.fwd = None; self.inv = None
        self.writes = 0; self.owner = None
        en = EN.eng()
        self.uid = en.array_counter if en else 0
        if en:
            en.array_counter += 1
            if en.frame is not None: en.frame.created(self)
    # -- construction
    @staticmethod
    def make(shape, fn, kind, label=None):
        shape = [dim_e(d) for d in shape]
        vs = [T.CTX_temp(d, 'i') for d in shape]
        return SArr(shape, vs, fn(*[from_atom(v) for v in vs]), kind, label)
    @property
    def e(self):
        if self.base is not None:
            return self.base.get(self.fwd([from_atom(v) for v in self.vs]))
        return self._e
    def get(self, idx):
        return T.subst(self.e, {v: i for v, i in zip(self.vs, idx)})
    @property
    def shape(self): return tuple(dim_out(d) for d in self._shape)
    @property
    def ndim(self): return len(self._shape)
    @property
    def size(self):
        r = num(1)
        for d in self._shape: r = T.mul(r, d)
        return dim_out(r)
    @property
    def dtype(self): return DT[self.kind]
    @property
    def T(self): return self.transpose()
    @property
    def real(self): return self
    def __len__(self):
        d = self._shape[0].const()
        if d is None: raise Unsupported('len of symbolic array')
        return int(d)
    def sym_len(self): return dim_out(self._shape[0])
    def __repr__(self): return f'SArr{tuple(map(T.show, self._shape))}[{",".join(v.name for v in self.vs)} -> {T.show(self.e)[:200]}]'
    def __format__(self, s): return '<array>'
    __hash__ = object.__hash__
    def copy(self, order=None): return SArr(self._shape, *self._fresh(), self.kind)
    def _fresh(self):
        return self.vs, self.e
    def astype(self, dt, copy=True, **k):
        kd = kind_of_dtype(dt)
        if not copy and kd == self.kind: return self
        e = self.e
        if kd == 'i' and self.kind == 'f' and not e.is_int(): raise Unsupported('float to int conversion')
        if kd == 'b' and self.kind != 'b': e = T.ne(e, 0)
        return SArr(self._shape, self.vs, e, kd)
    # -- views
    def view(self, shape, fwd, inv):
        vs = [T.CTX_temp(d, 'i') for d in shape]
        r = SArr(shape, vs, None, self.kind)
        r.base, r.fwd, r.inv = self, fwd, inv
        return r
    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)): axes = tuple(axes[0])
        n = self.ndim
        if n < 2 and not axes: return self
        p = list(axes) if axes else list(range(n))[::-1]
        p = [a % n for a in p]
        q = [p.index(i) for i in range(n)]
        return self.view([self._shape[a] for a in p], lambda ix: [ix[q[i]] for i in range(n)], lambda ix: (num(1), [ix[p[i]] for i in range(n)]))
    def swapaxes(self, a, b):
        n = self.ndim; p = list(range(n)); p[a], p[b] = p[b], p[a]
        return self.transpose(*p)
    def expand(self, axis):
        n = self.ndim + 1
        axis = axis % n
        sh = list(self._shape); sh.insert(axis, num(1))
        return self.view(sh, lambda ix: [x for i, x in enumerate(ix) if i != axis], lambda ix: (num(1), ix[:axis] + [num(0)] + ix[axis:]))
    def squeeze(self, axis=None):
        if axis is None:
            ax = []
            for i, d in enumerate(self._shape):
                c = d.const()
                if c == 1: ax.append(i)
                elif c is None:
                    if dims_match(d, num(1)): ax.append(i)
        else:
            ax = [a % self.ndim for a in (axis if isinstance(axis, (tuple, list)) else [axis])]
            for a in ax:
                if not dims_match(self._shape[a], num(1)): raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
        if not ax: return self
        keep = [i for i in range(self.ndim) if i not in ax]
        def fwd(ix):
            it = iter(ix); return [num(0) if i in ax else next(it) for i in range(self.ndim)]
        return self.view([self._shape[i] for i in keep], fwd, lambda ix: (num(1), [ix[i] for i in keep]))
    def reshape(self, *shape, order='C'):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)): shape = tuple(shape[0])
        return reshape(self, shape, order)
    def ravel(self, order='C'): return self.reshape(-1, order=order)
    def flatten(self, order='C'): return self.reshape(-1, order=order).copy()
    @property
    def flat(self): return Flat(self)
    # -- arithmetic
    def __add__(self, o): return binop(self, o, lambda a, b: a + b)
    def __radd__(self, o): return binop(o, self, lambda a, b: a + b)
    def __sub__(self, o): return binop(self, o, lambda a, b: a - b, nobool=True)
    def __rsub__(self, o): return binop(o, self, lambda a, b: a - b, nobool=True)
    def __mul__(self, o):
        if isinstance(o, SSp): return NotImplemented
        return binop(self, o, T.mul)
    def __rmul__(self, o): return binop(o, self, T.mul)
    def __truediv__(self, o): return binop(self, o, div, kind='f')
    def __rtruediv__(self, o): return binop(o, self, div, kind='f')
    def __floordiv__(self, o): return binop(self, o, int_div, kind='i')
    def __mod__(self, o): return binop(self, o, T.imod, kind='i')
    def __pow__(self, o): return binop(self, o, pw)
    def __rpow__(self, o): return binop(o, self, pw)
    def __neg__(self): return self.map(lambda a: -a)
    def __getattr__(self, n):
        if not n.startswith('_') and any(hasattr(c, n) for c in REAL['SArr']): raise Unsupported(f'attribute {n} of an array')
        raise AttributeError(f"{type(self).__name__!r} object has no attribute {n!r}", name=n, obj=self)
    def __pos__(self): return self.copy()
    def __abs__(self): return self.map(lambda a: T.app(T.ABS, a))
    def __eq__(self, o):
        if o is None: return False
        return binop(self, o, T.eq, kind='b')
    def __ne__(self, o):
        if o is None: return True
        return binop(self, o, T.ne, kind='b')
    def __lt__(self, o): return binop(self, o, T.lt, kind='b')
    def __gt__(self, o): return binop(self, o, lambda a, b: T.lt(b, a), kind='b')
    def __le__(self, o): return binop(self, o, T.le, kind='b')
    def __ge__(self, o): return binop(self, o, lambda a, b: T.le(b, a), kind='b')
    def __invert__(self):
        if self.kind != 'b': raise Unsupported('~ on non-boolean')
        return self.map(T.one_minus)
    def __and__(self, o): return binop(self, o, T.mul, kind='b')
    def __or__(self, o): return binop(self, o, T.lor, kind='b')
    def __xor__(self, o): return binop(self, o, lambda a, b: a + b - 2 * T.mul(a, b), kind='b')
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)
    def dot(self, o): return dot(self, o)
    def map(self, f, kind=None):
        return SArr(self._shape, self.vs, f(self.e), kind or self.kind)
    # in-place
    def _inplace(self, o, f):
        r = binop(self, o, f)
        if r.kind != self.kind and not (self.kind == 'f'):
            if r.kind == 'f': raise TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64') with casting rule 'same_kind'")
        self.assign_all(r)
        return self
    def __iadd__(self, o): return self._inplace(o, lambda a, b: a + b)
    def __isub__(self, o): return self._inplace(o, lambda a, b: a - b)
    def __imul__(self, o): return self._inplace(o, T.mul)
    def __itruediv__(self, o): return self._inplace(o, div)
    def __ipow__(self, o): self.assign_all(self._kept(self ** o)); return self
    def __ifloordiv__(self, o): self.assign_all(self._kept(self // o)); return self
    def __imod__(self, o): self.assign_all(self._kept(self % o)); return self
    def __iand__(self, o): self.assign_all(self._kept(self & o)); return self
    def __ior__(self, o): self.assign_all(self._kept(self | o)); return self
    def __ixor__(self, o): raise Unsupported('in-place xor')
    def __imatmul__(self, o): raise Unsupported('in-place matrix product')
    def _kept(self, r):
        if r.kind != self.kind and self.kind != 'f': raise Unsupported('in-place operation changing the type')
        return r
    def assign_all(self, r):
        self.write(lambda ix: num(1), lambda ix: r.get_b(ix, self) if isinstance(r, SArr) else elem(r))
    def get_b(self, ix, target):
        """element broadcast to the index space of target (trailing alignment)"""
        off = len(ix) - self.ndim
        if off < 0: raise Unsupported('assignment from higher-dimensional array')
        jx = []
        for k, d in enumerate(self._shape):
            jx.append(num(0) if d.const() == 1 else ix[off + k])
        return self.get(jx)
    def write(self, cond, val):
        """new element at ix: cond(ix) ? val(ix) : old"""
        en = EN.eng()
        if self.base is not None:
            if self.inv is None: raise Unsupported('write through a reshaped array')
            inv = self.inv
            def c2(ix):
                g, jx = inv(ix)
                return T.mul(g, cond(jx))
            def v2(ix):
                g, jx = inv(ix)
                return val(jx)
            self.writes += 1
            return self.base.write(c2, v2)
        ix = [from_atom(v) for v in self.vs]
        c = cond(ix)
        old = self._e
        if en is not None and en.written is not None: en.written.note(self, old)
        v = val(ix)
        if self.kind == 'i': v = T.app(T.TRUNC, v)
        self._e = T.mul(c, v) + T.mul(T.one_minus(c), old) if c.const() != 1 else v
        self.writes += 1
        if self.owner is not None: self.owner(self)
    # -- reductions
    def sum(self, axis=None, dtype=None, keepdims=False): return reduce_arr(self, 'sum', axis, keepdims)
    def mean(self, axis=None):
        if axis is None: return self.sum() / self.size
        return self.sum(axis=axis) / dim_out(self._shape[axis])
    def max(self, axis=None): return reduce_arr(self, 'max', axis)
    def min(self, axis=None): return reduce_arr(self, 'min', axis)
    def any(self, axis=None):
        if axis is not None: raise Unsupported('any(axis)')
        e = self.e if self.kind == 'b' else T.ne(self.e, 0)
        bs, ee = self._binders(e)
        return SBool.exists(bs, ee)
    def all(self, axis=None):
        if axis is not None: raise Unsupported('all(axis)')
        e = self.e if self.kind == 'b' else T.ne(self.e, 0)
        bs, ee = self._binders(e)
        return SBool.forall(bs, ee)
    def _binders(self, e):
        vs = [T.CTX_temp(d) for d in self._shape]
        return list(zip(vs, self._shape)), T.subst(e, {v: from_atom(w) for v, w in zip(self.vs, vs)})
    def diagonal(self):
        d = self._shape[0]
        if not dims_match(*self._shape): raise Unsupported('diagonal of non-square')
        return SArr.make([d], lambda i: self.get([i, i]), self.kind)
    def nonzero(self): return nonzero(self)
    def tolist(self): raise Unsupported('tolist')
    def conj(self): return self
    conjugate = conj
    def item(self):
        if self.ndim == 0: return mk(self.e, self.kind)
        raise Unsupported('item')
    def sort(self, *a, **k): raise Unsupported('in-place sort')
    def fill(self, v): self.write(lambda ix: num(1), lambda ix: elem(v))
    # -- indexing
    def __getitem__(self, key): return getitem(self, key)
    def __setitem__(self, key, value): setitem(self, key, value)
    def __iter__(self):
        d = self._shape[0].const()
        if d is None: return SymIter(self)
        return iter([self[i] for i in range(int(d))])
    def __bool__(self):
        if self.size == 1: return bool(as_bool(mk(self.get([num(0)] * self.ndim), self.kind)))
        raise ValueError('The truth value of an array with more than one element is ambiguous.')
    def toarray(self): raise AttributeError('toarray')

class SymIter:
    def __init__(self, x): self.x = x
    def __iter__(self): return self
    def __next__(self): raise Unsupported('iteration over a symbolic range outside a for statement')

class Flat:
    def __init__(self, a): self.a = a
    def __setitem__(self, key, value):
        # a.flat[::k+1] = p on a k x k array: the diagonal
        a = self.a
        if isinstance(key, slice) and key.start is None and key.stop is None and a.ndim == 2:
            st = elem(key.step)
            if same_dim(st, a._shape[1] + 1) and same_dim(a._shape[0], a._shape[1]):
                v = value
                def val(ix): return v.get_b([ix[0]], None) if isinstance(v, SArr) else elem(v)
                a.write(lambda ix: T.eq(ix[0], ix[1]), val)
                return
        raise Unsupported('flat assignment')

def to_sarr(x, kind=None):
    if isinstance(x, SArr): return x
    if isinstance(x, (Sc, SBool)): return SArr([], [], elem(x), skind(x))
    if isinstance(x, SSp): raise Unsupported('implicit densification')
    if isinstance(x, SymRange): return x.to_arr()
    if isinstance(x, SymSeq): return x.to_arr()
    if isinstance(x, (list, tuple)):
        items = list(x)
        if not items: return SArr.make([0], lambda i: num(0), 'f')
        if any(isinstance(i, (SArr, list, tuple, _np.ndarray)) for i in items):
            rows = [to_sarr(i) for i in items]
            k = rows[0].kind
            for r in rows[1:]: k = promote(k, r.kind)
            sh = [num(len(rows))] + list(rows[0]._shape)
            def f(i, *r):
                acc = num(0)
                for q, row in enumerate(rows): acc = acc + T.mul(T.eq(i, q), row.get(list(r)))
                return acc
            return SArr.make(sh, f, k)
        k = skind(items[0])
        for i in items[1:]: k = promote(k, skind(i))
        es = [elem(i) for i in items]
        def f(i):
            acc = num(0)
            for q, v in enumerate(es): acc = acc + T.mul(T.eq(i, q), v)
            return acc
        return SArr.make([len(items)], f, k)
    if isinstance(x, range):
        return to_sarr(_np.array(x))
    if isinstance(x, _np.ndarray):
        if x.ndim == 0: return SArr([], [], lift(x.item()), skind(x))
        if x.size > 64: raise Unsupported('large concrete array in symbolic context')
        k = skind(x)
        def f(*ix):
            acc = num(0)
            for pos in _np.ndindex(*x.shape):
                v = x[pos]
                if v == 0: continue
                t = lift(v.item())
                for i, p in zip(ix, pos): t = T.mul(t, T.eq(i, p))
                acc = acc + t
            return acc
        if x.size and (x == x.flat[0]).all():
            return SArr.make(list(x.shape), lambda *ix: lift(x.flat[0].item()), k)
        return SArr.make(list(x.shape), f, k)
    if is_scalar(x): return SArr([], [], elem(x), skind(x))
    raise Unsupported(f'array from {type(x).__name__}')

def out(a):
    """0-d arrays leave as scalars"""
    if isinstance(a, SArr) and a.ndim == 0: return mk(a.e, a.kind) if a.kind != 'b' else SBool.ind(a.e)
    return a

def bshape(shapes):
    n = max(len(s) for s in shapes)
    res = []
    for k in range(n):
        d = None
        for s in shapes:
            j = k - (n - len(s))
            if j < 0: continue
            x = s[j]
            if d is None or d.const() == 1: d = x
            elif x.const() == 1 or x == d: pass
            else:
                r = same_dim(d, x)
                if r: continue
                if r is None:
                    if bool(SBool.ind(T.eq(d, x))): continue
                    if bool(SBool.ind(T.eq(x, 1))): continue
                    if bool(SBool.ind(T.eq(d, 1))): d = x; continue
                raise ValueError('operands could not be broadcast together')
        res.append(d)
    return res
def bget(a, ix, shape):
    off = len(shape) - a.ndim
    jx = []
    for k, d in enumerate(a._shape):
        tgt = shape[off + k]
        if d.const() == 1 and tgt.const() != 1: jx.append(num(0))
        elif d.const() is None and tgt != d and same_dim(d, num(1)): jx.append(num(0))
        else: jx.append(ix[off + k])
    return a.get(jx)

def binop(a, b, f, kind=None, nobool=False):
    if isinstance(a, SSp) or isinstance(b, SSp): return NotImplemented
    if isinstance(a, str) or isinstance(b, str): raise Unsupported('string operand')
    a, b = to_sarr(a), to_sarr(b)
    k = kind or promote(a.kind, b.kind)
    sh = bshape([a._shape, b._shape])
    if not sh:
        r = f(a.e, b.e)
        return out(SArr([], [], r, k))
    vs = [T.CTX_temp(d, 'i') for d in sh]
    ix = [from_atom(v) for v in vs]
    if k == 'b' and kind is None:
        # bool (+|*) bool: logical or/and
        x, y = bget(a, ix, sh), bget(b, ix, sh)
        r = f(x, y)
        if f is T.mul: pass
        elif nobool: raise TypeError('numpy boolean subtract')
        else: r = T.lor(x, y)
        return SArr(sh, vs, r, 'b')
    return SArr(sh, vs, f(bget(a, ix, sh), bget(b, ix, sh)), k)

def map1(x, f, kind='f'):
    if is_scalar(x): return mk(f(elem(x)), kind) if kind != 'b' else SBool.ind(f(elem(x)))
    return to_sarr(x).map(f, kind)

def reduce_arr(a, op, axis=None, keepdims=False):
    n = a.ndim
    if axis is None: axes = list(range(n))
    else: axes = [x % n for x in (axis if isinstance(axis, (tuple, list)) else [axis])]
    keep = [i for i in range(n) if i not in axes]
    vs = [T.CTX_temp(a._shape[i], 'i') for i in keep]
    bs = [(T.CTX_temp(a._shape[i]), a._shape[i]) for i in axes]
    ix = [None] * n
    for i, v in zip(keep, vs): ix[i] = from_atom(v)
    for i, (v, _) in zip(axes, bs): ix[i] = from_atom(v)
    body = a.get(ix)
    k = a.kind
    if op == 'sum':
        r = T.sum_over(bs, body)
        if k == 'b': k = 'i'
        cnt = (bs, body) if a.kind == 'b' and not keep else None
        if not keep and not keepdims:
            c = r.const()
            if c is not None and k == 'i': return int(c)
            return Sc(r, k, cnt)
    else:
        r = make_red(op, bs, body)
    if keepdims:
        sh = [a._shape[i] if i in keep else num(1) for i in range(n)]
        vs2 = []
        it = iter(vs)
        for i in range(n): vs2.append(next(it) if i in keep else T.CTX_temp(num(1)))
        return SArr(sh, vs2, r, k)
    return out(SArr([a._shape[i] for i in keep], vs, r, k))

def make_red(op, bs, body):
    """max/min over a range (definedness: non-empty).  Facts are attached through the atom for z3."""
    if op == 'min': return -make_red('max', bs, -body)
    # drop independent binders
    bs2 = [(v, d) for v, d in bs if v in body.fv]
    if not bs2: return body
    if all(d.const() is not None for _, d in bs2):
        total = 1
        for _, d in bs2: total *= int(d.const())
        if total <= 16:
            vals = []
            def rec(i, s):
                if i == len(bs2): vals.append(T.subst(body, s)); return
                for q in range(int(bs2[i][1].const())): rec(i + 1, {**s, bs2[i][0]: num(q)})
            rec(0, {})
            r = vals[0]
            for v in vals[1:]: r = T.maximum(r, v)
            return r
    # factor positive constants out
    r = T.reduce_over('max', bs2, body)
    at = T.the_atom(r)
    c = ctx()
    if at.dig not in c.__dict__.setdefault('_red_done', set()):
        c._red_done.add(at.dig)
        # upper bound for every index; attained at a witness
        zs = [c.z_atom(v) for v, _ in bs2]
        rng = []
        for (v, d), z in zip(bs2, zs): rng += [z >= 0, z < c.z_num(d)]
        zb = c.z_real(body)
        zr = c.z_atom(at)
        if zr.sort() == z3.IntSort(): zr = z3.ToReal(zr)
        c.hyps.append(z3.ForAll(zs, z3.Implies(z3.And(rng), zb <= zr)))
        s = {}
        ws = []
        for v, d in bs2:
            w = T.CTX_temp(d, 'wit'); s[v] = from_atom(w); ws.append(w)
        wb = T.subst(body, s)
        c.hyps.append(c.z_real(wb) == zr)
        for fact in c.vocab_facts([wb]): c.hyps.append(fact)
        for w, (v, d) in zip(ws, bs2): c.hyps += [c.z_atom(w) >= 0, c.z_atom(w) < c.z_num(d)]
        c.__dict__.setdefault('reds', []).append((at, bs2, body, wb, ws))
    return r

def dot(a, b):
    if isinstance(b, SSp): return b.rdot(a)
    if is_scalar(a) or is_scalar(b): return a * b
    a, b = to_sarr(a), to_sarr(b)
    if a.ndim == 0 or b.ndim == 0: return a * b
    kd = promote(a.kind, b.kind)
    da = a._shape[-1]; db = b._shape[-2] if b.ndim >= 2 else b._shape[0]
    if not dims_match(da, db): raise ValueError('shapes not aligned')
    sh = list(a._shape[:-1]) + (list(b._shape[:-2]) + [b._shape[-1]] if b.ndim >= 2 else [])
    na = a.ndim - 1
    if kd == 'b': raise Unsupported('boolean dot')
    def f(*ix):
        k = T.CTX_temp(da)
        ke = from_atom(k)
        ia = list(ix[:na]) + [ke]
        rb = list(ix[na:])
        ib = rb[:-1] + [ke] + rb[-1:] if b.ndim >= 2 else [ke]
        return T.sum_over([(k, da)], T.mul(a.get(ia), b.get(ib)))
    return out(SArr.make(sh, f, kd))

def matmul(a, b):
    if isinstance(b, SSp): return b.rdot(a)
    a, b = to_sarr(a), to_sarr(b)
    if a.ndim <= 2 and b.ndim <= 2: return dot(a, b)
    if a.ndim == 1 or b.ndim == 1: raise Unsupported('matmul of 1-D with stack')
    kd = promote(a.kind, b.kind)
    if not dims_match(a._shape[-1], b._shape[-2]): raise ValueError('matmul: Input operand 1 has a mismatch in its core dimension')
    stack = bshape([a._shape[:-2], b._shape[:-2]])
    sh = stack + [a._shape[-2], b._shape[-1]]
    def f(*ix):
        st, i, j = list(ix[:-2]), ix[-2], ix[-1]
        k = T.CTX_temp(a._shape[-1]); ke = from_atom(k)
        def bi(x):
            off = len(stack) - (x.ndim - 2)
            return [num(0) if (x._shape[q].const() == 1) else st[off + q] for q in range(x.ndim - 2)]
        return T.sum_over([(k, a._shape[-1])], T.mul(a.get(bi(a) + [i, ke]), b.get(bi(b) + [ke, j])))
    return SArr.make(sh, f, kd)

def tensordot(a, b, axes):
    a, b = to_sarr(a), to_sarr(b)
    if isinstance(axes, int):
        aa = list(range(a.ndim - axes, a.ndim)); bb = list(range(axes))
    else:
        aa, bb = axes
        aa = [aa] if isinstance(aa, int) else list(aa); bb = [bb] if isinstance(bb, int) else list(bb)
    aa = [x % a.ndim for x in aa]; bb = [x % b.ndim for x in bb]
    for x, y in zip(aa, bb):
        if not dims_match(a._shape[x], b._shape[y]): raise ValueError('shape-mismatch for sum')
    fa = [i for i in range(a.ndim) if i not in aa]; fb = [i for i in range(b.ndim) if i not in bb]
    sh = [a._shape[i] for i in fa] + [b._shape[i] for i in fb]
    def f(*ix):
        ks = [T.CTX_temp(a._shape[x]) for x in aa]
        ia = [None] * a.ndim; ib = [None] * b.ndim
        for q, i in enumerate(fa): ia[i] = ix[q]
        for q, i in enumerate(fb): ib[i] = ix[len(fa) + q]
        for k, x, y in zip(ks, aa, bb): ia[x] = from_atom(k); ib[y] = from_atom(k)
        return T.sum_over([(k, a._shape[x]) for k, x in zip(ks, aa)], T.mul(a.get(ia), b.get(ib)))
    return out(SArr.make(sh, f, promote(a.kind, b.kind)))

# ---- reshape
def reshape(a, shape, order='C'):
    shape = list(shape)
    neg = [i for i, d in enumerate(shape) if isinstance(d, (int, _np.integer)) and d == -1]
    one = lambda d: num(1) if d.dig in T.CTX.unit else d
    es = [None if i in neg else one(elem(d)) for i, d in enumerate(shape)]
    total = num(1)
    for d in a._shape: total = T.mul(total, one(d))
    if neg:
        known = num(1)
        for d in es:
            if d is not None: known = T.mul(known, d)
        q = exact_quot(total, known)
        if q is None: raise Unsupported('reshape with -1: no exact quotient')
        es[neg[0]] = q
    new = num(1)
    for d in es: new = T.mul(new, d)
    if not dims_match(new, total): raise ValueError('cannot reshape array')
    if order == 'A': order = 'C'
    if order not in ('C', 'F'): raise Unsupported('reshape order')
    # drop unit axes, then match groups of axes whose products agree
    old = [(i, d) for i, d in enumerate(a._shape) if one(d).const() != 1]
    nw = [(i, d) for i, d in enumerate(es) if d.const() != 1]
    groups = []
    oi = ni = 0
    while oi < len(old) or ni < len(nw):
        go, gn = [], []
        po = pn = num(1)
        first = True
        while first or po != pn:
            first = False
            # extend the smaller side: try exact match by alternating
            if po == pn or exact_quot(pn, po) is not None and ni > 0 and gn and po != pn:
                if oi < len(old): go.append(old[oi]); po = T.mul(po, old[oi][1]); oi += 1
                elif ni < len(nw): gn.append(nw[ni]); pn = T.mul(pn, nw[ni][1]); ni += 1
                else: raise Unsupported('reshape grouping')
            else:
                if ni < len(nw): gn.append(nw[ni]); pn = T.mul(pn, nw[ni][1]); ni += 1
                elif oi < len(old): go.append(old[oi]); po = T.mul(po, old[oi][1]); oi += 1
                else: raise Unsupported('reshape grouping')
            if po == pn: break
            if oi >= len(old) and ni >= len(nw) and po != pn:
                if same_dim(po, pn): break
                raise Unsupported('reshape grouping')
        groups.append((go, gn))
    def remap(ix_from, src, dst):
        """indices on dst axes group from indices on src axes group"""
        if not dst: return {}
        if len(src) == len(dst) == 1: return {dst[0][0]: ix_from[src[0][0]]}
        # linearise
        lin = num(0)
        seq = src if order == 'C' else src[::-1]
        for i, d in seq: lin = T.mul(lin, d) + ix_from[i]
        # delinearise
        res = {}
        seq = (dst if order == 'C' else dst[::-1])
        rest = lin
        for pos, (i, d) in enumerate(reversed(seq)):
            if pos == len(seq) - 1: res[i] = rest
            else:
                res[i] = T.imod(rest, d); rest = T.idiv(rest, d)
        return res
    def fwd(ix):
        r = [num(0)] * a.ndim
        for go, gn in groups:
            for i, x in remap(ix, gn, go).items(): r[i] = x
        return r
    def inv(ix):
        r = [num(0)] * len(es)
        for go, gn in groups:
            for i, x in remap(ix, go, gn).items(): r[i] = x
        return num(1), r
    return a.view(es, fwd, inv)

def exact_quot(a, b):
    """a / b when it is a polynomial (b a monomial)"""
    if b.const() == 1: return a
    if a == b: return num(1)
    if len(b.t) != 1: 
        return None
    (bm, bc), = b.t.items()
    bf = dict(bm[0])
    outt = {}
    for m, c in a.t.items():
        f = dict(m[0])
        for x, y in bf.items():
            if f.get(x, 0) < y: return None
            f[x] -= y
            if f[x] == 0: del f[x]
        q = c / bc
        if q.denominator != 1: return None
        outt[(tuple(sorted(f.items(), key=lambda x: x[0].dig)), m[1])] = q
    return E(outt)

# ---- enumerations
class Enum:
    """row-major enumeration of {idx in dims : pattern}: functions e_i(k), rank(idx), count K"""
    def __init__(self, key, dims, vs, ind, ordered=True, K=None):
        n = len(ctx().enums)
        self.dims = dims; self.vs = vs; self.ind = ind; self.key = key
        bs = [(T.CTX_temp(d), d) for d in dims]
        self.K = K if K is not None else T.sum_over(bs, T.subst(ind, {v: from_atom(w) for v, (w, _) in zip(vs, bs)}))
        self.fns = [T.Fn(f'en{n}_{i}', 1, sort='int') for i in range(len(dims))]
        self.rank = T.Fn(f'en{n}_rank', len(dims), sort='int')
        K, fns, rank = self.K, self.fns, self.rank
        inv = T.Fn(f'en{n}_inv', len(dims), sort='int')
        for i, f in enumerate(fns):
            def rw(k, i=i):
                a = T.the_atom(k)
                if a is not None and a.kind == 'app' and a.fn is rank: return a.args[i]
                return None
            f.rewrite = rw
        def rrw(*args):
            ats = [T.the_atom(x) for x in args]
            if all(a is not None and a.kind == 'app' and a.fn is fns[i] for i, a in enumerate(ats)):
                if len({a.args[0].dig for a in ats}) == 1: return ats[0].args[0]
            return None
        rank.rewrite = rrw
        def fact(k):
            # 0<=k<K implies range and pattern
            es = [f(k) for f in fns]
            fs = []
            for x, d in zip(es, dims): fs += [T.le(0, x), T.lt(x, d)]
            fs.append(T.subst(ind, dict(zip(vs, es))))
            fs.append(T.eq(T.app(inv, *es), k))          # different positions hold different indices
            return [((T.le(0, k), T.lt(k, K)), tuple(fs))]
        self.fact = fact
        for f in self.fns: f.facts.append(fact)
        # the count is positive if one of the points the path talks about is enumerated
        for p in getattr(ctx(), 'skolems', ()):
            if len(p) == len(dims) and K.const() is None:
                g = T.subst(ind, dict(zip(vs, p)))
                for x, d in zip(p, dims): g = T.mul(g, T.in_range(x, d))
                if g.const() != 0: ctx().assume(T.one_minus(T.mul(g, T.lt(K, 1))))
    def arr(self, i): return SArr.make([self.K], lambda k: self.fns[i](k), 'i')
    def rule(self, binders, m):
        for bi, (v, d) in enumerate(binders):
            if not (d == self.K or (same_dim_quick(d, self.K))): continue
            if not any(f.name in (T.mono_fns(m)) for f in self.fns): continue
            # replace f_i(v) by new binders
            vs = [T.CTX_temp(dd) for dd in self.dims]
            ve = from_atom(v)
            ats = {T.the_atom(f(ve)): from_atom(w) for f, w in zip(self.fns, vs)}
            try:
                m2 = replace_atoms(T.from_mono(m), ats)
            except KeyError: continue
            if v in m2.fv: continue
            nb = binders[:bi] + binders[bi + 1:] + list(zip(vs, self.dims))
            g = T.subst(self.ind, {x: from_atom(w) for x, w in zip(self.vs, vs)})
            return T.sum_over(nb, T.mul(m2, g))
        # 1-D: [f(v) = a] with v also elsewhere
        if len(self.fns) == 1:
            for l in m[1]:
                if l.kind != 'eq': continue
                for bi, (v, d) in enumerate(binders):
                    if v not in l.e.fv: continue
                    at = T.the_atom(self.fns[0](from_atom(v)))
                    mm = (((at, Q(1)),), frozenset())
                    co = l.e.t.get(mm)
                    if co not in (1, -1): continue
                    rest = T.scale(E({k: c for k, c in l.e.t.items() if k != mm}), -co)
                    if v in rest.fv or not (d == self.K or same_dim_quick(d, self.K)): continue
                    body = T.subst(T.from_mono((m[0], m[1] - {l})), {v: self.rank(rest)})
                    g = T.subst(self.ind, {self.vs[0]: rest})
                    g = T.mul(g, T.in_range(rest, self.dims[0]))
                    nb = binders[:bi] + binders[bi + 1:]
                    return T.sum_over(nb, T.mul(body, g))
        return None

def same_dim_quick(a, b):
    d = a - b
    if d.const() is not None: return d.const() == 0
    return bool(ctx().__dict__.setdefault('_dimeq', {}).get(d.dig)) or bool(ctx()._dimeq.get((b - a).dig))

def ex_enum(binders, e):
    """exists k: P(enumeration[k])  =  exists index: pattern(index) and P(index)"""
    for bi, (v, d) in enumerate(binders):
        if v not in e.fv: continue
        for en in list(ctx().enums.values()):
            if not ({f.name for f in en.fns} & set(e.fns)) or not (d == en.K or same_dim_quick(d, en.K)): continue
            ws = [T.CTX_temp(dd) for dd in en.dims]
            ats = {T.the_atom(f(from_atom(v))): from_atom(w) for f, w in zip(en.fns, ws)}
            if not all(ats): continue
            e2 = replace_atoms(e, ats)
            if v in e2.fv: continue
            g = T.subst(en.ind, {x: from_atom(w) for x, w in zip(en.vs, ws)})
            return binders[:bi] + binders[bi + 1:] + list(zip(ws, en.dims)), T.mul(e2, g)
    return None

def replace_atoms(e, mp):
    """replace whole atoms by expressions everywhere"""
    memo = {}
    keys = set(mp)
    kfv = set()
    for a in keys: kfv |= a.fv
    def re(e):
        if not (e.fv & kfv): return e
        r = memo.get(e.dig)
        if r is None:
            acc = []
            for m, c in e.t.items():
                x = num(c)
                for a, p in m[0]: x = T.mul(x, T.power(ra(a), p))
                for l in m[1]: x = T.mul(x, rl(l))
                acc.append(x)
            r = T.addall(acc); memo[e.dig] = r
        return r
    def rl(l):
        if not (l.fv & kfv): return T.from_mono(((), frozenset([l])))
        if l.kind == 'p': return T.ind_p(l.atom.fn, *[re(x) for x in l.atom.args])
        x = re(l.e)
        return T.ind_eq0(x) if l.kind == 'eq' else T.ind_lt0(x)
    def ra(a):
        if a in mp: return mp[a]
        if not (a.fv & kfv): return from_atom(a)
        if a.kind == 'var': return from_atom(a)
        if a.kind == 'app': return T.app(a.fn, *[re(x) for x in a.args])
        if a.kind == 'pw': return re(a.args[0])
        if a.kind == 'sum':
            dims, vs, body = T.open_sum(a)
            return T.sum_over([(v, re(d)) for v, d in zip(vs, dims)], re(T.from_mono(body)))
        if a.kind == 'red':
            dims, vs, body = T.open_red(a)
            return T.reduce_over(a.name, [(v, re(d)) for v, d in zip(vs, dims)], re(body))
        raise Unsupported(a.kind)
    return re(e)

def opaque_enum(dims, vs, ind, K):
    """an enumeration of {idx : pattern} in an unknown order whose count K is an opaque non-negative integer (callee contract)"""
    en = Enum(('opaque', len(ctx().enums)), list(dims), list(vs), ind, K=K)
    ctx().enums[en.key] = en
    ctx().sum_rules.append(en.rule)
    return en

def enum_of(dims, vs, ind):
    h = max([ind.lvl] + [d.lvl for d in dims]) + 1
    key = ('|'.join(d.dig for d in dims), T._rename(ind, {v: T.bvar(h, i) for i, v in enumerate(vs)}).dig)
    c = ctx()
    en = c.enums.get(key)
    if en is None:
        en = Enum(key, list(dims), list(vs), ind)
        c.enums[key] = en
        c.sum_rules.append(en.rule)
    return en

def nonzero(a):
    ind = a.e if a.kind == 'b' else T.ne(a.e, 0)
    en = enum_of(a._shape, a.vs, ind)
    return tuple(en.arr(i) for i in range(a.ndim))

# ---- indexing
class SymRange:
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step
    def length(self):
        c = elem(self.step).const()
        if c is None: raise Unsupported('symbolic range step')
        d = elem(self.stop) - elem(self.start)
        if c == 1: n = d
        elif c > 0: n = T.idiv(d + (c - 1), num(c))
        elif c == -1: n = -d
        else: raise Unsupported('range step')
        if ctx().prove_le(0, n): return n
        return T.maximum(n, 0)
    def at(self, k): return elem(self.start) + T.mul(lift(k), elem(self.step))
    def to_arr(self): return SArr.make([self.length()], lambda k: self.at(k), 'i')
    def __iter__(self): return SymIter(self)
    def sym_len(self): return dim_out(self.length())
    def __getitem__(self, k): return mk(self.at(elem(k)), 'i')

class SymSeq:
    """Python list of symbolic length: at(k) -> value"""
    members = None      # membership indicator, where it is known directly
    def __init__(self, n, at): self.n, self.at = n, at; self.segs = [(n, at)]     # consecutive stretches given by one formula each
    def sym_len(self): return dim_out(self.n)
    def __iter__(self): return SymIter(self)
    def __getitem__(self, k):
        if isinstance(k, slice): raise Unsupported('slice of symbolic list')
        if isinstance(k, (SArr, list, tuple)): raise TypeError('list indices must be integers or slices')
        return self.at(norm_int(k, self.n))
    def append(self, x):
        n0, at0 = self.n, self.at; self.members = None
        self.at = lambda k: guarded_value(T.lt(k, n0), lambda: at0(k), lambda: x)
        self.n = n0 + 1; self.segs = self.segs + [(num(1), lambda k: x)]
    def __add__(self, o):
        return seq_concat(self, o)
    def __radd__(self, o): return seq_concat(o, self)
    def __mul__(self, n):
        if self.n.const() == 1 or (self.n.dig in T.CTX.unit) or ctx().prove_zero(self.n - 1)[0]:
            x = self.at(num(0)); return SymSeq(elem(n), lambda k: x)
        raise Unsupported('repetition of a symbolic list')
    __rmul__ = __mul__
    def to_arr(self):
        k = T.CTX_temp(self.n)
        v = self.at(from_atom(k))
        if is_scalar(v): return SArr([self.n], [k], elem(v), skind(v))
        v = to_sarr(v)
        return SArr.make([self.n] + list(v._shape), lambda i, *r: T.subst(v.get(list(r)), {k: i}), v.kind)
def guarded_value(c, a, b):
    k = c.const()
    if k is not None: return a() if k == 1 else b()
    return a() if bool(SBool.ind(c)) else b()
def seq_concat(a, b):
    na = a.n if isinstance(a, SymSeq) else num(len(a)); nb = b.n if isinstance(b, SymSeq) else num(len(b))
    ga = a.at if isinstance(a, SymSeq) else (lambda k: pick(a, k))
    gb = b.at if isinstance(b, SymSeq) else (lambda k: pick(b, k))
    r = SymSeq(na + nb, lambda k: guarded_value(T.lt(k, na), lambda: ga(k), lambda: gb(k - na)))
    r.segs = (a.segs if isinstance(a, SymSeq) else [(num(1), lambda k, y=y: y) for y in a]) + (b.segs if isinstance(b, SymSeq) else [(num(1), lambda k, y=y: y) for y in b])
    return r
def pick(lst, k):
    c = k.const()
    if c is not None: return lst[int(c)]
    for i in range(len(lst) - 1):
        if bool(SBool.ind(T.eq(k, i))): return lst[i]
    return lst[-1]
def seq_repeat(lst, n):
    if len(lst) == 1: return SymSeq(elem(n), lambda k: lst[0])
    raise Unsupported('list repetition by a symbolic count')

def norm_slice(s, d):
    """slice on dimension d: (start, length, step) as E"""
    st = 1 if s.step is None else s.step
    stc = elem(st).const()
    def clip(x, lo, hi):
        """Python slice clamping, resolved by the context"""
        x = elem(x)
        c = x.const()
        if c is not None and c < 0:
            x = d + x
            if not ctx().prove_le(0, x):
                return T.maximum(x, num(0))
            return x
        if c is None and not ctx().prove_le(0, x):
            if ctx().prove_le(x + 1, 0): return clip_nonneg(d + x)
            x = T.ite(T.lt(x, 0), T.maximum(d + x, num(0)), x)
        return clip_nonneg(x)
    def clip_nonneg(x):
        if ctx().prove_le(x, d): return x
        if ctx().prove_le(d, x): return d
        return T.minimum(x, d)
    if stc is None:
        # symbolic positive step
        start = num(0) if s.start is None else clip(s.start, 0, d)
        stop = d if s.stop is None else clip(s.stop, 0, d)
        ste = elem(st)
        if not ctx().prove_le(1, ste): raise Unsupported('slice step of unknown sign')
        diff = stop - start
        n = T.idiv(diff + ste - 1, ste)
        n = n if ctx().prove_le(0, diff) else T.maximum(n, num(0))
        return start, n, ste
    if stc > 0:
        start = num(0) if s.start is None else clip(s.start, 0, d)
        stop = d if s.stop is None else clip(s.stop, 0, d)
        diff = stop - start
        if not ctx().prove_le(0, diff): diff = T.maximum(diff, num(0))
        n = diff if stc == 1 else T.idiv(diff + num(stc - 1), num(stc))
        return start, n, num(stc)
    if stc == -1 and s.start is None and s.stop is None:
        return d - 1, d, num(-1)
    raise Unsupported('negative slice step')

def norm_int(i, d):
    e = elem(i)
    c = e.const()
    if c is not None and c < 0: e = d + e
    elif c is None and not ctx().prove_le(0, e):
        if ctx().prove_le(e + 1, 0): e = d + e
        else:
            if bool(SBool.ind(T.lt(e, 0))): e = d + e
    # bounds obligation: out of bounds raises IndexError in the real code
    ok = T.mul(T.le(0, e), T.lt(e, d))
    if ok.const() != 1:
        if not bool(SBool.ind(ok)): raise IndexError('index out of bounds')
    return e

def is_int_like(k): return isinstance(k, (int, _np.integer)) and not isinstance(k, bool) or (isinstance(k, Sc))

def plan_index(a_shape, key):
    """returns (out_shape, fwd(ix)->base idx, inv(base ix)->(cond, ix) or None, is_view)"""
    if not isinstance(key, tuple): key = (key,)
    n = len(a_shape)
    used = sum(1 for k in key if k is not None and k is not Ellipsis and not (isinstance(k, SArr) and k.kind == 'b' and k.ndim > 1)) + sum(k.ndim for k in key if isinstance(k, SArr) and k.kind == 'b' and k.ndim > 1)
    if any(k is Ellipsis for k in key):
        i = [j for j, k in enumerate(key) if k is Ellipsis][0]
        key = key[:i] + (slice(None),) * (n - used) + key[i + 1:]
    else: key = key + (slice(None),) * (n - used)
    return key

def getitem(a, key):
    key = plan_index(a._shape, key)
    adv = [k for k in key if is_adv(k)]
    if not adv:
        sh, maps = [], []    # maps per base axis
        ax = 0; o = 0
        for k in key:
            if k is None: sh.append(num(1)); o += 1; continue
            d = a._shape[ax]
            if isinstance(k, slice):
                st, ln, stp = norm_slice(k, d)
                sh.append(ln); maps.append(('s', o, st, stp, ln)); o += 1
            elif is_int_like(k): maps.append(('i', norm_int(k, d)))
            else: raise Unsupported(f'index {type(k).__name__}')
            ax += 1
        newax = [j for j, k in enumerate([k for k in key if not is_int_like(k)]) if k is None]
        def fwd(ix):
            r = []
            for m in maps:
                r.append(m[1] if m[0] == 'i' else m[2] + T.mul(ix[m[1]], m[3]))
            return r
        def inv(ix):
            c = num(1); r = [num(0)] * len(sh)
            for x, m in zip(ix, maps):
                if m[0] == 'i': c = T.mul(c, T.eq(x, m[1]))
                else:
                    y = x - m[2]
                    sc = m[3].const()
                    if sc == 1: pos = y
                    elif sc == -1: pos = -y
                    else:
                        c = T.mul(c, T.eq(T.imod(y, m[3]), 0)); pos = T.idiv(y, m[3])
                    c = T.mul(c, T.in_range(pos, m[4]))
                    r[m[1]] = pos
            return c, r
        if all(m[0] == 'i' for m in maps) and not sh:
            e = a.get([m[1] for m in maps])
            return mk(e, a.kind) if a.kind != 'b' else SBool.ind(e)
        return a.view(sh, fwd, inv)
    # advanced indexing: result is a copy
    sh, fwd, _ = adv_plan(a._shape, key)
    return out(SArr.make(sh, lambda *ix: a.get(fwd(list(ix))), a.kind))

def is_adv(k): return isinstance(k, (SArr, list, _np.ndarray, SymRange, range, SymSeq, SBool))

def adv_plan(shape, key):
    """mixed basic/advanced indexing with all advanced indices adjacent"""
    ax = 0
    items = []        # ('s',axis,start,step,len) | ('i',axis,e) | ('a',[axes], index arrays)
    for k in key:
        if k is None: items.append(('n',)); continue
        if isinstance(k, slice):
            st, ln, stp = norm_slice(k, shape[ax]); items.append(('s', ax, st, stp, ln)); ax += 1
        elif is_int_like(k): items.append(('a', [ax], [SArr([], [], norm_int(k, shape[ax]), 'i')])); ax += 1
        else:
            k = to_sarr(k)
            if k.kind == 'b':
                for q in range(k.ndim):
                    if not dims_match(k._shape[q], shape[ax + q]): raise IndexError('boolean index did not match')
                en = enum_of(k._shape, k.vs, k.e)
                items.append(('a', list(range(ax, ax + k.ndim)), [en.arr(q) for q in range(k.ndim)])); ax += k.ndim
            else:
                if k.kind != 'i': raise IndexError('arrays used as indices must be of integer (or boolean) type')
                d = shape[ax]
                # negative indices wrap; bounds: every index within [-d, d)
                lo = T.le(0, k.e); hi = T.lt(k.e, d)
                e = k.e
                if lo.const() != 1:
                    ok, _ = ctx().prove_ind(lo, timeout=1500)
                    if not ok:
                        neg = T.mul(T.lt(k.e, 0), num(1))
                        if neg.const() == 1: e = k.e + d
                        else: e = k.e + T.mul(neg, d)
                g = T.mul(T.le(0, e), T.lt(e, d))
                if g.const() != 1:
                    bs, ge = SArr(k._shape, k.vs, g, 'b')._binders(g)
                    if not bool(SBool.forall(bs, ge)): raise IndexError('index out of bounds')
                items.append(('a', [ax], [SArr(k._shape, k.vs, e, 'i')])); ax += 1
    advs = [it for it in items if it[0] == 'a']
    pos = [i for i, it in enumerate(items) if it[0] == 'a']
    contiguous = pos == list(range(pos[0], pos[-1] + 1))
    arrs = [x for it in advs for x in it[2]]
    ash = bshape([x._shape for x in arrs])
    sh = []; layout = []
    if contiguous:
        placed = False
        for it in items:
            if it[0] == 'a':
                if not placed:
                    layout.append(('A', len(sh))); sh += ash; placed = True
            elif it[0] == 'n': sh.append(num(1))
            else: layout.append(('S', len(sh), it)); sh.append(it[4])
    else:
        layout.append(('A', 0)); sh += ash
        for it in items:
            if it[0] == 'n': sh.append(num(1))
            elif it[0] == 's': layout.append(('S', len(sh), it)); sh.append(it[4])
    aoff = [l[1] for l in layout if l[0] == 'A'][0]
    def fwd(ix):
        r = [None] * len(shape)
        aix = ix[aoff:aoff + len(ash)]
        for it in advs:
            for axx, arr in zip(it[1], it[2]): r[axx] = bget(arr, aix, ash)
        for l in layout:
            if l[0] == 'S':
                it = l[2]; r[it[1]] = it[2] + T.mul(ix[l[1]], it[3])
        return r
    return sh, fwd, (aoff, ash, advs, layout)

def setitem(a, key, value):
    key = plan_index(a._shape, key)
    if not any(is_adv(k) for k in key):
        sub = getitem_view(a, key)
        v = value if isinstance(value, SArr) else to_sarr(value)
        # broadcasting of value to the slice
        vs = v._shape; ts = sub._shape
        v0 = v
        while v0.ndim > sub.ndim and v0._shape[0].const() == 1: v0 = v0[0]
        bs = bshape([ts, v0._shape])
        for d, t in zip(bs, ts):
            if not dims_match(d, t): raise ValueError('could not broadcast input array')
        if v0.base is not None or True: v0 = SArr(v0._shape, v0.vs, v0.e, v0.kind)   # snapshot: value evaluated before the write
        sub.write(lambda ix: num(1), lambda ix: bget(v0, ix, ts))
        return
    sh, fwd, (aoff, ash, advs, layout) = adv_plan(a._shape, key)
    v = to_sarr(value)
    bsh = bshape([sh, v._shape])
    v = SArr(v._shape, v.vs, v.e, v.kind)
    # solve  fwd(ix) = base  for ix
    def solver(base):
        """(cond, ix) such that base = fwd(ix)"""
        cond = num(1)
        ix = [num(0)] * len(sh)
        for l in layout:
            if l[0] == 'S':
                it = l[2]
                y = base[it[1]] - it[2]
                sc = it[3].const()
                if sc == 1: p = y
                else:
                    cond = T.mul(cond, T.eq(T.imod(y, it[3]), 0)); p = T.idiv(y, it[3])
                cond = T.mul(cond, T.in_range(p, it[4]))
                ix[l[1]] = p
        # advanced part: unknowns u (len(ash)); equations arr_q(u) = base[axis_q]
        us = [T.CTX_temp(d) for d in ash]
        eqs = []
        for it in advs:
            for axx, arr in zip(it[1], it[2]): eqs.append((bget(arr, [from_atom(u) for u in us], ash), base[axx]))
        sol = {}
        pend = list(eqs)
        todo = set(us)
        progress = True
        while todo and progress:
            progress = False
            # joint enumeration (several axes)
            for en in ctx().enums.values():
                for u in list(todo):
                    want = [f(from_atom(u)) for f in en.fns]
                    got = []
                    for w in want:
                        for (l, r) in pend:
                            if l == w: got.append((l, r)); break
                    if len(got) == len(want) and len(want) >= 1:
                        rs = [r for _, r in got]
                        sol[u] = en.rank(*rs)
                        g = T.subst(en.ind, dict(zip(en.vs, rs)))
                        for x, d in zip(rs, en.dims): g = T.mul(g, T.in_range(x, d))
                        nonlocal_cond.append(g)
                        pend = [p for p in pend if p not in got]
                        todo.discard(u); progress = True
            for (l, r) in list(pend):
                for u in list(todo):
                    if u not in l.fv: continue
                    lin = l.t.get((((u, Q(1)),), frozenset()))
                    rest = E({k: c for k, c in l.t.items() if k != (((u, Q(1)),), frozenset())})
                    if lin in (1, -1) and u not in rest.fv and not (rest.fv & todo):
                        s = T.scale(r - rest, lin)
                        sol[u] = s
                        d = ash[us.index(u)]
                        nonlocal_cond.append(T.in_range(s, d))
                        pend.remove((l, r)); todo.discard(u); progress = True
                        break
                    inj = injection_of(l, u)
                    if inj is not None:
                        fnobj = inj
                        sol[u] = fnobj.meta['inverse'](r)
                        nonlocal_cond.append(T.mul(T.in_range(r, fnobj.meta['codom']), fnobj.meta['hit'](r)))
                        pend.remove((l, r)); todo.discard(u); progress = True
                        break
                    # substitution of already solved unknowns
            if sol:
                pend = [(T.subst(l, sol), r) for l, r in pend]
        if todo: raise Unsupported('scatter with a non-invertible index array')
        for l, r in pend: nonlocal_cond.append(T.eq(T.subst(l, sol), r))
        for q, u in enumerate(us): ix[aoff + q] = T.subst(sol[u], {k: s for k, s in sol.items()})
        for g in nonlocal_cond: cond = T.mul(cond, g)
        nonlocal_cond.clear()
        return cond, ix
    nonlocal_cond = []
    cache = {}
    def cv(base):
        k = tuple(b.dig for b in base)
        if k not in cache: cache[k] = solver(base)
        return cache[k]
    a.write(lambda b: cv(b)[0], lambda b: bget(v, cv(b)[1], sh))

def injection_of(l, u):
    a = T.the_atom(l)
    if a is not None and a.kind == 'app' and a.fn is not None and 'inverse' in a.fn.meta and len(a.args) == 1 and a.args[0] == from_atom(u): return a.fn
    return None

def getitem_view(a, key):
    r = getitem(a, key)
    if isinstance(r, SArr): return r
    # scalar position
    idx = []
    ax = 0
    for k in key:
        idx.append(norm_int(k, a._shape[ax])); ax += 1
    v = SArr([], [], None, a.kind)
    v.base = a; v.fwd = lambda ix: idx
    def inv(ix):
        c = num(1)
        for x, y in zip(ix, idx): c = T.mul(c, T.eq(x, y))
        return c, []
    v.inv = inv
    return v

def concatenate(parts, axis=0):
    parts = [to_sarr(p) for p in parts]
    n = parts[0].ndim
    axis %= n
    kd = parts[0].kind
    for p in parts[1:]: kd = promote(kd, p.kind)
    for p in parts[1:]:
        for q in range(n):
            if q != axis and not dims_match(p._shape[q], parts[0]._shape[q]): raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    offs = [num(0)]
    for p in parts: offs.append(offs[-1] + p._shape[axis])
    sh = list(parts[0]._shape); sh[axis] = offs[-1]
    def f(*ix):
        i = ix[axis]
        acc = num(0)
        for q, p in enumerate(parts):
            jx = list(ix); jx[axis] = i - offs[q]
            g = num(1)
            if q > 0: g = T.mul(g, T.le(offs[q], i))
            if q < len(parts) - 1: g = T.mul(g, T.lt(i, offs[q + 1]))
            if not g.t: continue
            acc = acc + T.mul(g, p.get(jx))
        return acc
    return SArr.make(sh, f, kd)

# ================================================================================================ sparse
class SSp:
    """sparse matrix: values template e over (i, j); stored: None = superset of the non-zeros, not known exactly;
    otherwise an indicator of the stored positions"""
    __array_ufunc__ = None
    __array_priority__ = 2000
    ndim = 2
    def __init__(self, shape, vs, e, kind, stored, fmt='csr', label=None):
        self._shape = tuple(shape); self.vs = tuple(vs); self._e = e; self.kind = kind; self.st = stored; self.fmt = fmt
        self.label = label; self.writes = 0; self._data = None; self.shared = None
        en = EN.eng()
        self.uid = en.array_counter if en else 0
        if en:
            en.array_counter += 1
            if en.frame is not None: en.frame.created(self)
    # ---- storage: matrices that share their stored values (transposes, conversions without copy)
    def share(self, o, flip=False):
        if o is self: return o
        if self.shared is None: self.shared = [self]; self.parity = False
        self.shared.append(o); o.shared = self.shared; o.parity = self.parity ^ flip
        return o
    def unshare(self):
        if self.shared: self.shared[:] = [x for x in self.shared if x is not self]
        self.shared = None
    def about_to_write(self, whole=True):
        """a write into the stored values; whole: every stored value is scaled alike or the pattern is unknown"""
        en = EN.eng()
        if en is not None and en.written is not None: en.written.note_sparse(self, self._e)
        if self.shared and len(self.shared) > 1 and not whole: raise Unsupported('write into a sparse matrix that may share its values with another one')
        self.writes += 1
    def _scale(self, f):
        for x in (self.shared or [self]):
            x.about_to_write(); x._e = f(x._e); x._data = None
        return self
    def __imul__(self, o):
        if not is_scalar(o) or self.fmt in ('lil', 'dok'): raise Unsupported('in-place product of a sparse matrix')
        if skind(o) == 'f' and self.kind != 'f': raise Unsupported('in-place product changing the type')
        return self._scale(lambda e: T.mul(e, elem(o)))
    def __itruediv__(self, o):
        if not is_scalar(o) or self.fmt in ('lil', 'dok') or self.kind != 'f': raise Unsupported('in-place quotient of a sparse matrix')
        return self._scale(lambda e: div(e, elem(o)))
    @staticmethod
    def make(shape, fn, kind, stored='nz', fmt='csr', label=None):
        shape = [dim_e(d) for d in shape]
        vs = [T.CTX_temp(d, 'i') for d in shape]
        e = fn(*[from_atom(v) for v in vs])
        r = SSp(shape, vs, e, kind, None, fmt, label)
        if stored == 'nz': r.st = r.nz()
        elif callable(stored): r.st = stored(*[from_atom(v) for v in vs])
        return r
    @property
    def e(self): return self._e
    def nz(self): return self._e if self.kind == 'b' else T.ne(self._e, 0)
    @property
    def shape(self): return tuple(dim_out(d) for d in self._shape)
    @property
    def dtype(self): return DT[self.kind]
    @property
    def T(self): return self.transpose()
    def get(self, i, j): return T.subst(self._e, {self.vs[0]: i, self.vs[1]: j})
    def get_st(self, i, j):
        if self.st is None: raise Unsupported('stored pattern not determined')
        return T.subst(self.st, {self.vs[0]: i, self.vs[1]: j})
    def __format__(self, s): return '<sparse>'
    __hash__ = object.__hash__
    def __len__(self): raise TypeError('sparse array length is ambiguous; use getnnz()')
    def _like(self, e, kind=None, st='nz', fmt=None):
        r = SSp(self._shape, self.vs, e, kind or self.kind, None, fmt or self.fmt)
        if st == 'nz': r.st = r.nz()
        elif st is not None: r.st = st
        return r
    def transpose(self, *a, **k):
        i, j = self.vs
        f = {'csr': 'csc', 'csc': 'csr'}.get(self.fmt, self.fmt)
        r = SSp((self._shape[1], self._shape[0]), (j, i), self._e, self.kind, self.st, f)
        return self.share(r, True) if self.fmt in ('csr', 'csc', 'coo', 'bsr') and not (k.get('copy') or len(a) > 1 and a[1]) else r
    def conj(self): return self
    conjugate = conj
    def copy(self): return SSp(self._shape, self.vs, self._e, self.kind, self.st, self.fmt)
    def tocsr(self, copy=False): return self._conv('csr', copy)
    def tocsc(self, copy=False): return self._conv('csc', copy)
    def tocoo(self, copy=False): return self._conv('coo', copy)
    def tolil(self, copy=False):
        return self._like(self._e, st='nz', fmt='lil')
    def todia(self): return self._conv('dia')
    def asformat(self, f, copy=False): return self if f is None else self._conv(f, copy)
    def _conv(self, f, copy=False):
        if f == self.fmt and not copy: return self
        r = SSp(self._shape, self.vs, self._e, self.kind, self.st, f)
        return self.share(r) if f == 'coo' and self.fmt in ('csr', 'csc') and not copy else r
    def __getattr__(self, n):
        if not n.startswith('_') and any(hasattr(c, n) for c in REAL['SSp']): raise Unsupported(f'attribute {n} of an array')
        raise AttributeError(f"{type(self).__name__!r} object has no attribute {n!r}", name=n, obj=self)
    def toarray(self, order=None, out=None):
        return SArr(self._shape, self.vs, self._e, self.kind)
    todense = toarray
    @property
    def A(self): return self.toarray()
    def asfptype(self): return self if self.kind == 'f' else self._like(self._e, 'f', self.st)
    def astype(self, dt, **k):
        kd = kind_of_dtype(dt)
        if not k.get('copy', True) and kd == self.kind: return self
        if kd == 'i' and self.kind == 'f' and not self._e.is_int(): raise Unsupported('float to int conversion')
        if kd == 'b' and self.kind != 'b': return self._like(T.ne(self._e, 0), 'b', self.st)
        return self._like(self._e, kd, self.st)
    def eliminate_zeros(self):
        if self.st is None or (self.st - self.nz()).t:
            if self.label: self.writes += 1
            for x in (self.shared or []):      # the stored entries are moved in the arrays the other matrix keeps using
                if x is not self:
                    x.about_to_write(); f = T.Fn('corrupted', 2, 'real'); x._e = T.app(f, *[from_atom(v) for v in x.vs]); x._data = None
            self.unshare()
        self.st = self.nz()
    def sum_duplicates(self): pass
    def sort_indices(self): pass
    def setdiag(self, values, k=0):
        if elem(k).const() != 0: raise Unsupported('setdiag offset')
        v = to_sarr(values)
        i, j = (from_atom(x) for x in self.vs)
        d = T.eq(i, j)
        val = v.e if v.ndim == 0 else v.get([i])
        self.about_to_write(False); self._data = None
        self._e = T.mul(d, val) + T.mul(T.one_minus(d), self._e); self.st = None if self.st is None else T.lor(self.st, d)
    @property
    def nnz(self):
        if self.st is None: raise Unsupported('nnz with undetermined stored pattern')
        vs = [T.CTX_temp(d) for d in self._shape]
        bs = list(zip(vs, self._shape))
        body = self.get_st(*[from_atom(v) for v in vs])
        s = T.sum_over(bs, body)
        c = s.const()
        return int(c) if c is not None else Sc(s, 'i', (bs, body))
    def getnnz(self, axis=None):
        if axis is None: return self.nnz
        if self.st is None: raise Unsupported('getnnz with undetermined stored pattern')
        ax = axis % 2
        def f(i):
            k = T.CTX_temp(self._shape[ax]); ke = from_atom(k)
            return T.sum_over([(k, self._shape[ax])], self.get_st(ke, i) if ax == 0 else self.get_st(i, ke))
        return SArr.make([self._shape[1 - ax]], f, 'i')
    def count_nonzero(self):
        return reduce_arr(SArr(self._shape, self.vs, self.nz(), 'b'), 'sum')
    def _enum(self):
        if self.st is None: raise Unsupported('entries with undetermined stored pattern')
        if self.fmt in ('csr', 'coo', 'lil'):
            return enum_of(self._shape, self.vs, self.st), False
        en = enum_of(self._shape[::-1], self.vs[::-1], self.st)
        return en, True
    @property
    def data(self):
        en, tr = self._enum()
        def f(k):
            es = [fn(k) for fn in en.fns]
            if tr: es = es[::-1]
            return self.get(*es)
        if getattr(self, '_data', None) is not None: return self._data
        self._data = SArr.make([en.K], f, self.kind)
        def wrote(v):
            if v is self._data: self._from_data(v)
        self._data.owner = wrote
        return self._data
    def _from_data(self, v):
        en, tr = self._enum()
        for x in (self.shared or [self]): x.about_to_write()
        i, j = (from_atom(x) for x in self.vs)
        r = en.rank(j, i) if tr else en.rank(i, j)
        self._e = T.mul(self.st, v.get([r]))
        for x in (self.shared or []):
            if x is not self: x._e = T.subst(self._e, dict(zip(self.vs, (from_atom(w) for w in (x.vs[::-1] if x.parity != self.parity else x.vs))))); x._data = None
    @data.setter
    def data(self, v):
        if v is self._data and v is not None: return        # A.data op= x: written in place already
        v = to_sarr(v)
        self.unshare()     # values of its own from now on
        self._from_data(v); self._data = None
    @property
    def row(self):
        en, tr = self._enum(); return self._ro(en.arr(1 if tr else 0))
    @property
    def col(self):
        en, tr = self._enum(); return self._ro(en.arr(0 if tr else 1))
    def _ro(self, a):
        def wrote(v): raise Unsupported('write to the indices of a sparse matrix')
        a = a.copy(); a.owner = wrote
        return a
    def nonzero(self):
        a = enum_of(self._shape, self.vs, T.mul(self.st, self.nz()) if self.st is not None else self.nz())
        return a.arr(0), a.arr(1)
    def diagonal(self, k=0):
        if elem(k).const() != 0: raise Unsupported('diagonal offset')
        if not dims_match(*self._shape): raise Unsupported('diagonal of non-square')
        return SArr.make([self._shape[0]], lambda i: self.get(i, i), self.kind)
    def sum(self, axis=None, **k):
        a = SArr(self._shape, self.vs, self._e, self.kind)
        if axis is None: return a.sum()
        return a.sum(axis=axis, keepdims=True)     # np.matrix: 2-D
    def max(self, axis=None):
        if axis is not None: raise Unsupported('sparse max axis')
        return SArr(self._shape, self.vs, self._e, self.kind).max()
    def min(self, axis=None):
        if axis is not None: raise Unsupported('sparse min axis')
        return SArr(self._shape, self.vs, self._e, self.kind).min()
    def mean(self, axis=None): return SArr(self._shape, self.vs, self._e, self.kind).mean(axis)
    # arithmetic
    def _chk(self, o):
        for a, b in zip(self._shape, o._shape):
            if not dims_match(a, b): raise ValueError('inconsistent shapes')
    def _al(self, o):
        return o.get(from_atom(self.vs[0]), from_atom(self.vs[1]))
    def __add__(self, o): return self._addsub(o, 1)
    __radd__ = __add__
    def __sub__(self, o): return self._addsub(o, -1)
    def __rsub__(self, o): return (-self)._addsub(o, 1)
    def _addsub(self, o, s):
        if isinstance(o, SSp):
            self._chk(o)
            kd = promote(self.kind, o.kind)
            if kd == 'b':
                # scipy's bool wrapper: True - True = False, anything else is logical or (so '-' is exclusive or)
                if s == -1: return self._like(T.ne(self._e, self._al(o)), 'b')
                return self._like(T.lor(self._e, self._al(o)), 'b')
            return self._like(self._e + s * self._al(o), kd)
        if is_scalar(o):
            if elem(o).const() == 0: return self.copy()
            raise NotImplementedError('adding a nonzero scalar to a sparse array is not supported')
        d = self.toarray()
        return d + o if s == 1 else d - o
    def __neg__(self): return self._like(-self._e, st=self.st)
    def __abs__(self): return self._like(T.app(T.ABS, self._e), st=self.st)
    def __mul__(self, o):
        if is_scalar(o): return self._like(T.mul(self._e, elem(o)), promote(self.kind, skind(o)), st=self.st)
        return self.dot(o)
    def __rmul__(self, o):
        if is_scalar(o): return self * o
        return self.rdot(o)
    def __matmul__(self, o): return self.dot(o)
    def __rmatmul__(self, o): return self.rdot(o)
    def __truediv__(self, o):
        if is_scalar(o): return self._like(div(self._e, elem(o)), 'f', st=self.st)
        raise Unsupported('sparse / array')
    def __pow__(self, p):
        if elem(p).const() is None: raise Unsupported('sparse power')
        r = self
        for _ in range(int(elem(p).const()) - 1): r = r.dot(self)
        return r
    def dot(self, o):
        if is_scalar(o): return self * o
        if isinstance(o, SSp):
            if not dims_match(self._shape[1], o._shape[0]): raise ValueError('dimension mismatch')
            kd = promote(self.kind, o.kind)
            if kd == 'b':
                def f(i, j):
                    k = T.CTX_temp(self._shape[1]); ke = from_atom(k)
                    return T.ne(T.sum_over([(k, self._shape[1])], T.mul(self.get(i, ke), o.get(ke, j))), 0)
                return SSp.make([self._shape[0], o._shape[1]], f, 'b', None)
            def f(i, j):
                k = T.CTX_temp(self._shape[1]); ke = from_atom(k)
                return T.sum_over([(k, self._shape[1])], T.mul(self.get(i, ke), o.get(ke, j)))
            st = None
            dd = diag_of(self), diag_of(o)
            if dd[0] is not None or dd[1] is not None: st = 'nz' if False else None
            return SSp.make([self._shape[0], o._shape[1]], f, kd, None, self.fmt if self.fmt != 'dia' else 'csr')
        o = to_sarr(o)
        return dot(self.toarray(), o)
    def rdot(self, o):
        return dot(to_sarr(o), self.toarray())
    def multiply(self, o):
        if is_scalar(o): return self * o
        if isinstance(o, SSp):
            self._chk(o)
            return self._like(T.mul(self._e, self._al(o)), promote(self.kind, o.kind))
        o = to_sarr(o)
        d = binop(self.toarray(), o, T.mul)
        return SSp(d._shape, d.vs, d.e, d.kind, T.ne(d.e, 0) if d.kind != 'b' else d.e, 'coo')
    def power(self, p): return self._like(pw(self._e, elem(p)), st=None)
    def maximum(self, o): return self._like(T.maximum(self._e, self._al(o)))
    def minimum(self, o): return self._like(T.minimum(self._e, self._al(o)))
    def _cmp(self, o, f):
        if isinstance(o, SSp):
            self._chk(o)
            return self._like(f(self._e, self._al(o)), 'b')
        if is_scalar(o): return self._like(f(self._e, elem(o)), 'b')
        o = to_sarr(o)
        return binop(self.toarray(), o, f, kind='b')
    def __eq__(self, o):
        if o is None: return False
        return self._cmp(o, T.eq)
    def __ne__(self, o):
        if o is None: return True
        return self._cmp(o, T.ne)
    def __lt__(self, o): return self._cmp(o, T.lt)
    def __gt__(self, o): return self._cmp(o, lambda a, b: T.lt(b, a))
    def __le__(self, o): return self._cmp(o, T.le)
    def __ge__(self, o): return self._cmp(o, lambda a, b: T.le(b, a))
    def __bool__(self): raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all().')
    def __getitem__(self, key):
        if not isinstance(key, tuple): key = (key, slice(None))
        if len(key) != 2: raise IndexError('sparse index')
        d = self.toarray()
        if is_int_like(key[0]) and is_int_like(key[1]):
            return d[key]
        r, c = key
        if is_adv(r) and is_adv(c):
            # np.ix_-style (n,1)x(1,m) or pointwise
            ra, ca = to_sarr(r), to_sarr(c)
            if ra.kind == 'b' and ra.ndim == 1: ra = nonzero(ra)[0]
            if ca.kind == 'b' and ca.ndim == 1: ca = nonzero(ca)[0]
            x = d[ra, ca]
            if x.ndim == 1: x = x.expand(0)
            st = self._sub_st(ra, ca, x)
            return SSp(x._shape, x.vs, x.e, self.kind, None if st is None else st, self.fmt)
        x = d[self._one(r), :] if not is_int_like(r) else d[r, :].expand(0)
        y = x[:, self._one(c)] if not is_int_like(c) else x[:, c].expand(1)
        res = SSp(y._shape, y.vs, y.e, self.kind, None, self.fmt)
        if self.st is not None:
            s = SArr(self._shape, self.vs, self.st, 'b')
            sx = s[self._one(r), :] if not is_int_like(r) else s[r, :].expand(0)
            sy = sx[:, self._one(c)] if not is_int_like(c) else sx[:, c].expand(1)
            res.st = T.subst(sy.e, {v: from_atom(w) for v, w in zip(sy.vs, y.vs)})
        return res
    def _one(self, k): return k
    def _sub_st(self, ra, ca, x):
        if self.st is None: return None
        s = SArr(self._shape, self.vs, self.st, 'b')[ra, ca]
        if s.ndim == 1: s = s.expand(0)
        return T.subst(s.e, {v: from_atom(w) for v, w in zip(s.vs, x.vs)})
    def __setitem__(self, key, value):
        d = SArr(self._shape, self.vs, self._e, self.kind)
        if isinstance(key, tuple) and len(key) == 2 and is_adv(key[0]) and is_adv(key[1]):
            ra, ca = to_sarr(key[0]), to_sarr(key[1])
            if ra.kind == 'b' and ra.ndim == 1: ra = nonzero(ra)[0]
            if ca.kind == 'b' and ca.ndim == 1: ca = nonzero(ca)[0]
            key = (ra, ca)
        self.about_to_write(False); self._data = None
        setitem(d, key, value)
        self._e = T.subst(d.e, {v: from_atom(w) for v, w in zip(d.vs, self.vs)})
        self.st = None
        if self.fmt == 'lil': self.st = self.nz()
    def reshape(self, *shape, order='C', copy=False):
        sh = list(shape[0]) if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else list(shape)
        if len(sh) == 2 and all(is_scalar(x) and elem(x).const() != -1 and same_dim_quick(elem(x), d) for x, d in zip(sh, self._shape)): return self.copy()
        raise Unsupported('sparse reshape')

def diag_of(m):
    return None

def coo_build(data, rows, cols, shape, fmt):
    """value(a,b) = sum of data_k over k with rows_k = a and cols_k = b"""
    data, rows, cols = to_sarr(data), to_sarr(rows), to_sarr(cols)
    n = rows._shape[0]
    if not (dims_match(data._shape[0], n) and dims_match(cols._shape[0], n)): raise ValueError('row, column, and data array must all be the same length')
    if rows.kind == 'f' and not rows.e.is_int(): raise Unsupported('non-integer sparse indices')
    if cols.kind == 'f' and not cols.e.is_int(): raise Unsupported('non-integer sparse indices')
    sh = [elem(d) for d in shape]
    # the stored entries, piece by piece when the indices were written block by block
    from . import blocks as B
    u = T.CTX_temp(n)
    parts = [(b, [B.wrap(x) for x in es[:2]] + [es[2]]) for b, es in B.decompose([rows.get([from_atom(u)]), cols.get([from_atom(u)]), data.get([from_atom(u)])], u, lift(n))]
    # bounds: every row/column index within the shape, or scipy raises
    for k, d in ((0, sh[0]), (1, sh[1])):
        g = num(1)
        for b, es in parts:
            gp = T.mul(T.le(0, es[k]), T.lt(es[k], d))
            if gp.const() != 1 and not forall_quick(b, gp): g = None
        if g is None:
            x = (rows, cols)[k]
            ge = T.mul(T.le(0, x.e), T.lt(x.e, d))
            bs, ge = SArr(x._shape, x.vs, ge, 'b')._binders(ge)
            if not bool(SBool.forall(bs, ge)): raise ValueError('row/column index exceeds matrix dimensions')
    def f(i, j):
        acc = []
        for b, es in parts:
            vs = [T.CTX_temp(d) for _, d in b]; s = {v: from_atom(w) for (v, _), w in zip(b, vs)}
            r, c, x = [T.subst(e, s) for e in es]
            acc.append(T.sum_over([(w, T.subst(d, s)) for w, (_, d) in zip(vs, b)], T.mul(T.mul(T.eq(r, i), T.eq(c, j)), x)))
        return T.addall(acc)
    kd = 'f' if data.kind == 'f' else data.kind
    return SSp.make(sh, f, kd, None, fmt)

def forall_quick(bs, ge):
    ok, _ = ctx().prove_ind(ge, timeout=3000)
    return ok
