"""Symbolic numeric expressions of PyVC.

An expression E is a finite sum of monomials  c * prod(atom**exponent) * prod([literal]) , with rational
coefficients and exponents.  [literal] is the 0/1 indicator of a (non-negated) literal.  Finite sums over
symbolic ranges are atoms (kind 'sum') whose body is one monomial; the constructor normalises them:
Kronecker deltas are eliminated, range conditions absorbed, independent factors pulled out, independent
sums split, and sums over an enumeration of a set (edge lists, masks) turned into sums over the set.

Conventions (each is a *definedness* obligation where the code does it): 0**p = 0 for p < 0, so x**-1*x is
the indicator [x != 0]; numbers are real numbers (machine floats are idealised), integers unbounded.
"""
from fractions import Fraction as Q
from hashlib import blake2b
from itertools import permutations

class Unsupported(Exception):
    """A construct the verifier has no model for: the function is out of reach (never a violation)."""

def _dig(s):
    return blake2b(s.encode(), digest_size=12).hexdigest()

Q0, Q1 = Q(0), Q(1)

# ------------------------------------------------------------------------------------------------ symbols
class Fn:
    """Function symbol: sort in {'int','real','bool'}; nonneg; sym: symmetric in its (two) arguments."""
    table = {}
    def __init__(self, name, arity, sort='real', nonneg=False, sym=False, facts=None, meta=None):
        self.name, self.arity, self.sort, self.nonneg, self.sym = name, arity, sort, nonneg, sym
        self.facts = facts or []
        self.bounds = None
        self.pos = False           # strictly positive
        self.mono = None           # strictly increasing: (c -> the argument at which it takes the value c, or None)
        self.meta = meta or {}
        self.rewrite = None      # callable(args)->E or None, applied at construction
    def __call__(self, *args):
        return app(self, *args)
    def __repr__(self): return self.name

# ------------------------------------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ('kind', 'name', 'args', 'sort', 'dig', 'fv', 'lvl', 'fn', 'extra', 'fns')
    def __eq__(self, o): return self is o or (isinstance(o, Atom) and self.dig == o.dig)
    def __hash__(self): return int(self.dig[:15], 16)
    def __lt__(self, o): return self.dig < o.dig
    def __repr__(self): return show_atom(self)

_atoms = {}
def _mk(kind, name, args, sort, fn=None, extra=None):
    if kind == 'sum':
        s = 'sum|' + ','.join(d.dig for d in extra[0]) + '|' + str(extra[2]) + '|' + mono_dig(extra[1])
    elif kind == 'red':
        s = 'red|' + name + '|' + ','.join(d.dig for d in extra[0]) + '|' + str(extra[2]) + '|' + extra[1].dig
    else:
        s = kind + '|' + name + '|' + sort + '|' + ','.join(a.dig for a in args)
    d = _dig(s)
    a = _atoms.get(d)
    if a is not None: return a
    a = Atom()
    a.kind, a.name, a.args, a.sort, a.dig, a.fn, a.extra = kind, name, args, sort, d, fn, extra
    fv = set(); lvl = 0; fns = set()
    if kind == 'var':
        fv.add(a)
    elif kind in ('sum', 'red'):
        dims, body, h = extra
        for x in dims: fv |= x.fv; lvl = max(lvl, x.lvl); fns |= x.fns
        if kind == 'sum':
            bf = mono_fv(body); bfn = mono_fns(body)
        else:
            bf = body.fv; bfn = body.fns
        fns |= bfn
        bound = {bvar(h, i) for i in range(len(dims))}
        fv |= (set(bf) - bound)
        lvl = h
    else:
        for x in args: fv |= x.fv; lvl = max(lvl, x.lvl); fns |= x.fns
    if fn is not None: fns.add(fn.name)
    a.fv = frozenset(fv); a.lvl = lvl; a.fns = frozenset(fns)
    _atoms[d] = a
    return a

def bvar(h, i): return _mk('var', f'#{h}.{i}', (), 'int')

_ctr = [0]
def fresh(prefix='v', sort='int'):
    _ctr[0] += 1
    return _mk('var', f'{prefix}!{_ctr[0]}', (), sort)

# ------------------------------------------------------------------------------------------------ monomials
# mono = (factors tuple((atom,exp)...) sorted by atom digest, conds frozenset of Lit)
_EMPTY = ((), frozenset())
_mdig = {}
def mono_dig(m):
    d = _mdig.get(m)
    if d is None:
        d = _dig('*'.join(f'{a.dig}^{e}' for a, e in m[0]) + '&' + ','.join(sorted(l.dig for l in m[1])))
        _mdig[m] = d
    return d
_mfv = {}
def mono_fv(m):
    r = _mfv.get(m)
    if r is None:
        s = set()
        for a, _ in m[0]: s |= a.fv
        for l in m[1]: s |= l.fv
        r = _mfv[m] = frozenset(s)
    return r
def mono_fns(m):
    s = set()
    for a, _ in m[0]: s |= a.fns
    for l in m[1]: s |= l.fns
    return s
def mono_lvl(m):
    r = 0
    for a, _ in m[0]: r = max(r, a.lvl)
    for l in m[1]: r = max(r, l.lvl)
    return r

class Lit:
    """A literal: kind 'lt' (e<0), 'eq' (e=0) or 'p' (opaque boolean application)."""
    __slots__ = ('kind', 'e', 'atom', 'dig', 'fv', 'lvl', 'fns')
    def __eq__(self, o): return self is o or (isinstance(o, Lit) and self.dig == o.dig)
    def __hash__(self): return int(self.dig[:15], 16)
    def __repr__(self):
        if self.kind == 'p': return repr(self.atom)
        return f'{self.e!r}{"<" if self.kind=="lt" else "="}0'
_lits = {}
def _lit(kind, e=None, atom=None):
    d = _dig('L' + kind + '|' + (e.dig if e is not None else atom.dig))
    l = _lits.get(d)
    if l is None:
        l = Lit(); l.kind, l.e, l.atom, l.dig = kind, e, atom, d
        src = e if e is not None else atom
        l.fv, l.lvl, l.fns = src.fv, src.lvl, src.fns
        _lits[d] = l
    return l

# ------------------------------------------------------------------------------------------------ expressions
class E:
    __slots__ = ('t', 'dig', 'fv', 'lvl', 'fns', '_int')
    def __init__(self, t):
        self.t = t
        items = sorted((mono_dig(m), c) for m, c in t.items())
        self.dig = _dig('+'.join(f'{c}:{d}' for d, c in items))
        fv = set(); lvl = 0; fns = set()
        for m in t:
            fv |= mono_fv(m); lvl = max(lvl, mono_lvl(m)); fns |= mono_fns(m)
        self.fv = frozenset(fv); self.lvl = lvl; self.fns = frozenset(fns); self._int = None
    def __eq__(self, o): return self is o or (isinstance(o, E) and self.dig == o.dig)
    def __hash__(self): return int(self.dig[:15], 16)
    def __repr__(self): return show(self)
    # arithmetic
    def __add__(self, o): return add(self, lift(o))
    __radd__ = __add__
    def __neg__(self): return scale(self, -Q1)
    def __sub__(self, o): return add(self, scale(lift(o), -Q1))
    def __rsub__(self, o): return add(lift(o), scale(self, -Q1))
    def __mul__(self, o): return mul(self, lift(o))
    __rmul__ = __mul__
    def __truediv__(self, o): return mul(self, power(lift(o), -Q1))
    def __rtruediv__(self, o): return mul(lift(o), power(self, -Q1))
    def __pow__(self, p): return power(self, p)
    def const(self):
        if not self.t: return Q0
        if len(self.t) == 1 and _EMPTY in self.t: return self.t[_EMPTY]
        return None
    def is_int(self):
        if self._int is None:
            self._int = all(c.denominator == 1 and all(a.sort == 'int' and e.denominator == 1 and e > 0 for a, e in m[0])
                            for m, c in self.t.items())
        return self._int

_consts = {}
def num(c):
    c = Q(c)
    r = _consts.get(c)
    if r is None:
        r = _consts[c] = E({_EMPTY: c} if c else {})
    return r
def lift(x):
    if isinstance(x, E): return x
    if isinstance(x, bool): return num(int(x))
    if isinstance(x, (int, Q)): return num(x)
    if isinstance(x, float):
        k = _sqrt_of.get(x)
        if k is not None: return power(num(k), Q(1, 2))
        return num(float_q(x))
    try:
        import numpy as np
        if isinstance(x, (np.integer, np.bool_)): return num(int(x))
        if isinstance(x, np.floating): return lift(float(x))
    except ImportError:
        pass
    raise Unsupported(f'cannot lift {type(x).__name__} to an expression')
import math as _m
_sqrt_of = {_m.sqrt(k): k for k in range(2, 1000) if _m.isqrt(k) ** 2 != k}    # float(sqrt(k)) denotes the real sqrt(k)
_pi_f = 3.141592653589793
def float_q(x):
    """Floats in source denote the decimal a programmer wrote (0.2 is 1/5), except small fractions computed
    in floating point such as 2/3, recovered when a denominator <= 999 reproduces the float exactly."""
    if x != x or x in (float('inf'), float('-inf')): raise Unsupported('non-finite constant')
    for d in (Q(x).limit_denominator(999), Q(repr(x))):
        if float(d) == x: return d
    return Q(x)

def from_mono(m, c=Q1): return E({m: c}) if c else num(0)
def from_atom(a): return E({(((a, Q1),), frozenset()): Q1})
def var(name, sort='int'): return from_atom(_mk('var', name, (), sort))
def the_atom(e):
    """the single atom of e if e is exactly one atom"""
    if len(e.t) == 1:
        (m, c), = e.t.items()
        if c == 1 and len(m[0]) == 1 and m[0][0][1] == 1 and not m[1]: return m[0][0][0]
    return None

def add(a, b):
    if not a.t: return b
    if not b.t: return a
    t = dict(a.t)
    for m, c in b.t.items():
        n = t.get(m, Q0) + c
        if n: t[m] = n
        else: t.pop(m, None)
    return E(t)
def scale(a, c):
    if c == 1: return a
    if not c: return num(0)
    return E({m: k * c for m, k in a.t.items()})
def addall(xs):
    t = {}
    for x in xs:
        for m, c in x.t.items():
            n = t.get(m, Q0) + c
            if n: t[m] = n
            else: t.pop(m, None)
    return E(t)

_mulcache = {}
def mul(a, b):
    if not a.t or not b.t: return num(0)
    if len(a.t) == 1 and _EMPTY in a.t: return scale(b, a.t[_EMPTY])
    if len(b.t) == 1 and _EMPTY in b.t: return scale(a, b.t[_EMPTY])
    key = (a.dig, b.dig)
    r = _mulcache.get(key)
    if r is not None: return r
    if len(a.t) * len(b.t) > 20000: raise Unsupported('expression too large')
    out = []
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            out.append(scale(mono_mul(m1, m2), c1 * c2))
    r = addall(out)
    _mulcache[key] = r
    return r

def mono_mul(m1, m2):
    if m1 == _EMPTY: return from_mono(m2)
    if m2 == _EMPTY: return from_mono(m1)
    f = {a: e for a, e in m1[0]}
    zero = []
    for a, e in m2[0]:
        n = f.get(a, Q0) + e
        if n == 0:
            del f[a]; zero.append(a)
        else: f[a] = n
    return norm_mono(f, m1[1] | m2[1], zero)

def norm_mono(f, conds, zero=()):
    """normalise a monomial given as dict of factors and set of conds; returns E."""
    coef = Q1
    # numeric atoms: integer parts of exponents fold into the coefficient
    for a in list(f):
        if a.kind == 'num':
            e = f[a]; ip = e.numerator // e.denominator
            if ip:
                coef *= Q(int(a.name)) ** ip
                e -= ip
                if e: f[a] = e
                else: del f[a]
        elif a.kind == 'pw':
            # (multi-term base)**k with k a positive integer: re-expand
            e = f[a]
            if e.denominator == 1 and e > 0:
                del f[a]
                r = power(a.args[0], e)
                return scale(mul(norm_mono(f, conds, zero), r), coef)
        elif a.kind == 'app' and a.fn is ABS and f[a].denominator == 1 and f[a] % 2 == 0:
            e = f[a]; del f[a]
            return scale(mul(norm_mono(f, conds, zero), power(a.args[0], e)), coef)
    pn = [a for a in f if a.kind == 'app' and a.fn is POWN]
    if pn and (len(pn) > 1 or f[pn[0]] != 1):
        # b**k * b**l = b**(k + l)
        for base in {a.args[0] for a in pn}:
            g = [a for a in pn if a.args[0] == base]
            if len(g) == 1 and f[g[0]] == 1: continue
            k = addall([scale(a.args[1], f[a]) for a in g]); rest = {a: x for a, x in f.items() if a not in g}
            if not k.is_int(): continue
            return scale(mul(norm_mono(rest, conds, zero), power(base, k.const()) if k.const() is not None else app(POWN, base, k)), coef)
    # contradictions / redundancies between literals
    eqs = [l for l in conds if l.kind == 'eq']
    for l in conds:
        if l.kind == 'lt' and _lit('eq', l.e) in conds: return num(0)
        if l.kind == 'p' and l.atom.kind == 'not': raise AssertionError
    if len(eqs) > 0:
        for l in eqs:
            # [x=0]*x**p = 0 for an atom x
            at = the_atom(l.e)
            if at is not None and at in f: return num(0)
            if at is not None and at.kind == 'sum' and CTX is not None and len(at.extra[0]) == 1:
                # [sum_j f(j) = 0] f(t) = 0 for a non-negative symbol f and t in range
                for a, x in f.items():
                    if a.kind == 'app' and x > 0 and a.fn is not None and a.fn.nonneg and a.fn in _sum_fns(at) and _instance_of(a, at): return num(0)
            if f:
                pw = _mk('pw', 'pw', (l.e,), 'real') if at is None else None
                if pw is not None and pw in f: return num(0)
        # use equalities as substitutions to reach one canonical monomial
        for l in sorted(eqs, key=lambda l: l.dig):
            sol = solve_eq(l.e)
            if sol is None: continue
            v, rhs = sol
            others = conds - {l}
            if any(v in a.fv for a in f) or any(v in o.fv for o in others):
                s = {v: rhs}
                r = from_mono(((), frozenset([l])))
                acc = num(coef)
                for a, e in f.items(): acc = mul(acc, power(subst_atom(a, s), e))
                for o in others: acc = mul(acc, subst_lit(o, s))
                for z in zero: acc = mul(acc, one_minus(ind_eq0(subst_atom(z, s))))
                return mul(acc, r)
    if CTX is not None and len(conds) > 1:
        c2 = CTX.reduce_conds(conds)
        if c2 is None: return num(0)
        if c2 != conds:
            return scale(norm_mono(f, c2, zero), coef)
    r = from_mono((tuple(sorted(f.items(), key=lambda x: x[0].dig)), frozenset(conds)), coef)
    for z in zero:
        if CTX is not None and CTX.known_nonzero(from_atom(z), conds): continue
        r = mul(r, one_minus(ind_eq0(from_atom(z))))
    return r

def _sum_fns(at):
    dims, vs, body = open_sum(at)
    return [x.fn for x, e in body[0] if x.kind == 'app'] if len(body[0]) == 1 and not body[1] else []
def _instance_of(a, at):
    dims, vs, body = open_sum(at)
    (x, e), = body[0]
    if e <= 0: return False
    v = vs[0]
    for args in ([x.args, x.args[::-1]] if a.fn.sym and len(x.args) == 2 else [x.args]):
        t = None; ok = True
        for p, q in zip(args, a.args):
            if p == from_atom(v):
                t = the_atom(q) if t is None else t
                ok = ok and t is not None and the_atom(q) == t
            elif v in p.fv or p != q: ok = False
        if ok and t is not None and t in CTX.ranges and CTX.ranges[t] == dims[0]: return True
    return False

def one_minus(e): return num(1) - e

def solve_eq(e):
    """e = 0 solved for a variable with unit coefficient occurring linearly and only once: (var, E) or None.
    Prefers temporaries (bound), then larger digests, so that the choice is canonical."""
    best = None
    if not e.is_int():
        return None
    for m, c in e.t.items():
        if len(m[0]) == 1 and not m[1] and m[0][0][1] == 1 and c in (1, -1):
            a = m[0][0][0]
            if a.kind == 'var':
                rest = {k: v for k, v in e.t.items() if k != m}
                if any(a in mono_fv(k) for k in rest): continue
                key = (CTX is not None and CTX.is_temp(a), a.dig)
                if best is None or key > best[0]:
                    best = (key, a, scale(E(rest), -c))
    if best is None: return None
    return best[1], best[2]

# ---- powers
def _primes(n):
    out = {}; p = 2
    while p * p <= n:
        while n % p == 0: out[p] = out.get(p, 0) + 1; n //= p
        p += 1
        if p > 10**6: break
    if n > 1: out[n] = out.get(n, 0) + 1
    return out
def num_power(c, p):
    """c**p for rational c>0 and rational p, as an E over prime atoms"""
    if p.denominator == 1: return num(c ** int(p))
    f = {}; coef = Q1
    for base, sgn in ((c.numerator, 1), (c.denominator, -1)):
        for q, k in _primes(base).items():
            e = p * k * sgn
            ip = e.numerator // e.denominator
            coef *= Q(q) ** ip
            e -= ip
            if e:
                a = _mk('num', str(q), (), 'real')
                f[a] = f.get(a, Q0) + e
    return scale(norm_mono(f, frozenset()), coef)

_powcache = {}
def power(e, p):
    if isinstance(p, E):
        c = p.const()
        if c is None:
            at = app(POW, e, p); return at
        p = c
    p = Q(p)
    if p == 0: return num(1)
    if p == 1: return e
    c = e.const()
    if c is not None:
        if c == 0: return num(0)
        if p.denominator == 1: return num(c ** int(p))
        if c > 0: return num_power(c, p)
        raise Unsupported('power of negative constant')
    key = (e.dig, p)
    r = _powcache.get(key)
    if r is not None: return r
    r = _power(e, p)
    _powcache[key] = r
    return r
def _power(e, p):
    if p.denominator == 1 and p > 0 and (p <= 4 or len(e.t) == 1):
        if len(e.t) == 1:
            (m, c), = e.t.items()
            return scale(norm_mono({a: x * p for a, x in m[0]}, m[1]), c ** int(p))
        r = e
        for _ in range(int(p) - 1): r = mul(r, e)
        return r
    if len(e.t) == 1:
        (m, c), = e.t.items()
        if p.denominator == 1:     # negative integer
            return scale(norm_mono({a: x * p for a, x in m[0]}, m[1]), Q1 / (c ** int(-p)))
        # fractional: factors known non-negative are distributed; the others stay inside together
        good, bad, badc = {}, {}, Q1
        for a, x in m[0]:
            if nonneg_atom(a) : good[a] = x * p
            else: bad[a] = x
        cc = c
        if not bad and c > 0:
            return mul(num_power(c, p), norm_mono(good, m[1]))
        if len(bad) == 1 and c > 0:
            (a, x), = bad.items()
            if x.denominator == 1 and x.numerator % 2 == 0 and x > 0:
                # (a^2k)^p = |a|^{2kp}
                ab = app(ABS, from_atom(a))
                return mul(mul(num_power(c, p), norm_mono(good, m[1])), power(ab, x * p))
        inner = norm_mono(bad, frozenset())
        sgn = 1 if c > 0 else -1
        pwa = _mk('pw', 'pw', (scale(inner, Q(sgn)),), 'real')
        if sgn == 1 and len(bad) == 1 and list(bad.values())[0] == 1:
            good[list(bad)[0]] = p     # x**p with x >= 0 a definedness obligation of the caller
            return mul(num_power(abs(c), p), norm_mono(good, m[1]))
        good[pwa] = p
        return mul(num_power(abs(c), p), norm_mono(good, m[1]))
    # several terms: separate a common indicator set
    common = None
    for m in e.t:
        common = m[1] if common is None else common & m[1]
    if common:
        e2 = E({(m[0], m[1] - common): c for m, c in e.t.items()})
        return mul(from_mono(((), frozenset(common))), power(e2, p))
    # common atoms factored out when all exponents agree in being nonneg atoms
    cf = None
    for m in e.t:
        d = dict(m[0])
        if cf is None: cf = d
        else: cf = {a: min(x, d[a]) for a, x in cf.items() if a in d and (x > 0) == (d[a] > 0)}
    cf = {a: x for a, x in (cf or {}).items() if nonneg_atom(a) or p.denominator == 1}
    if cf:
        inv = norm_mono({a: -x for a, x in cf.items()}, frozenset())
        t = {}
        for m, c in e.t.items():
            d = dict(m[0])
            for a, x in cf.items():
                d[a] = d[a] - x
                if d[a] == 0: del d[a]
            t[(tuple(sorted(d.items(), key=lambda x: x[0].dig)), m[1])] = c
        return mul(norm_mono({a: x * p for a, x in cf.items()}, frozenset()), power(E(t), p))
    # content
    from math import gcd
    cs = list(e.t.values())
    n = 0; d = 1
    for c in cs:
        n = gcd(n, abs(c.numerator)); d = d * c.denominator // gcd(d, c.denominator)
    content = Q(n, d)
    lead = e.t[min(e.t, key=mono_dig)]
    if p.denominator == 1 and lead < 0: content = -content
    base = scale(e, 1 / content)
    k = num_power(content, p) if content > 0 else num(content ** int(p))
    pwa = _mk('pw', 'pw', (base,), 'real')
    return mul(k, E({(((pwa, p),), frozenset()): Q1}))

# ---- applications
ABS = Fn('abs', 1, nonneg=True)
POWN = None
POW = Fn('pow', 2)
def app(fn, *args):
    args = tuple(lift(a) for a in args)
    if fn.rewrite is not None:
        r = fn.rewrite(*args)
        if r is not None: return r
    if fn.sym and len(args) == 2 and args[1].dig < args[0].dig: args = (args[1], args[0])
    return from_atom(_mk('app', fn.name, args, fn.sort, fn))
def _trunc_rw(x):
    c = x.const()
    if c is not None: return num(int(c))
    return x if x.is_int() else None
TRUNC = Fn('trunc', 1, 'int'); TRUNC.rewrite = _trunc_rw      # a real number stored in an integer array
def _abs_rw(x):
    c = x.const()
    if c is not None: return num(abs(c))
    if nonneg(x): return x
    if nonneg(-x): return -x
    lead = x.t[min(x.t, key=mono_dig)]
    if lead < 0: return app(ABS, -x)
    if len(x.t) == 1:
        (m, c), = x.t.items()
        if c != 1 or m[1]:
            return scale(mul(from_mono(((), m[1])), app(ABS, from_mono((m[0], frozenset())))), abs(c))
    return None
ABS.rewrite = _abs_rw

def nonneg_atom(a):
    if a.kind == 'num': return True
    if a.kind == 'app' and a.fn is not None and a.fn.nonneg: return True
    if a.kind == 'pw': return nonneg(a.args[0]) or True if False else nonneg(a.args[0])
    if a.kind == 'sum': return all(nonneg_factor(x, e) for x, e in a.extra[1][0])
    if a.kind == 'var' or a.kind in ('app', 'red'):
        return CTX is not None and CTX.nonneg_fact(a)
    return False
def nonneg_factor(a, e):
    if e.denominator == 1 and e.numerator % 2 == 0: return True
    return nonneg_atom(a)
def nonneg(e):
    """syntactic: every term has positive coefficient and non-negative factors"""
    if all(c > 0 and all(nonneg_factor(a, x) for a, x in m[0]) for m, c in e.t.items()): return True
    if CTX is None: return False
    if CTX.nonneg_fact_e(e): return True
    if len(e.t) > 1 and e.is_int():
        lo = CTX._lb(e)
        return lo is not None and lo >= 0
    return False

# ------------------------------------------------------------------------------------------------ literals -> indicators
def _canon_cmp(e):
    """(sign, primitive E) with e = content*sign*prim (non-constant part primitive with canonical lead)"""
    from math import gcd
    rest = {m: c for m, c in e.t.items() if m != _EMPTY}
    cs = list(rest.values())
    n = 0; d = 1
    for c in cs:
        n = gcd(n, abs(c.numerator)); d = d * c.denominator // gcd(d, c.denominator)
    content = Q(n, d)
    lead = rest[min(rest, key=mono_dig)]
    s = 1 if lead > 0 else -1
    return s, content

def _floor(q): return q.numerator // q.denominator
def _ceil(q): return -((-q.numerator) // q.denominator)

def in_range(e, d):
    """[0 <= e < d]; for e = d*q + r with 0 <= r < d it is [q = 0]"""
    e, d = lift(e), lift(d)
    b = _block(e, d) if CTX is not None and len(e.t) > 1 else None
    if b is not None and b[2] == 1: return ind_eq0(b[0])
    if CTX is not None and d.const() is None:
        q = _row_of(e, d)
        if q is not None: return ind_eq0(idiv(q[0], d) - q[1])
        if len(d.t) == 1:
            (m, c), = d.t.items()
            if c.denominator == 1 and 2 <= c <= 4 and len(m[0]) == 1 and m[0][0][1] == 1 and not m[1]:
                # 0 <= r - d*q < c*d iff r div d - q is one of 0 .. c - 1
                dd = E({m: Q1}); q = _row_of(e, dd)
                if q is not None: return addall([ind_eq0(idiv(q[0], dd) - q[1] - k) for k in range(int(c))])
    return mul(le(0, e), lt(e, d))
def _row_of(e, d):
    """e = r - d*q for an index r of a dimension that is a multiple of d: (r, q); then 0 <= e < d iff r div d = q"""
    at = the_atom(d)
    if at is None or at.kind != 'var' or at in CTX.ranges: return None
    q, r = {}, {}
    for m, c in e.t.items():
        if m[1]: return None
        f = dict(m[0])
        if at in f:
            if f[at] != 1: return None
            del f[at]; q[(tuple(sorted(f.items(), key=lambda y: y[0].dig)), m[1])] = -c
        else: r[m] = c
    v = the_atom(E(r)) if len(r) == 1 else None
    if v is None or v.kind != 'var' or v not in CTX.ranges: return None
    dim = CTX.ranges[v]
    if isinstance(dim, tuple): dim = dim[-1]
    dim = lift(dim)
    if dim == d or not CTX.prove_le(1, d): return None
    if not any(c.denominator == 1 and not m[1] and at in dict(m[0]) and (len(dim.t) == 1 or sum(x for _, x in m[0]) > 1) for m, c in dim.t.items()): return None
    return E(r), E(q)
def _rows_lt(e):
    """an integer that is negative iff e is, when e = r - d*q or d*q - r - 1 for an index r and a dimension d"""
    if CTX is None or e.t.get(_EMPTY, Q0) not in (0, -1): return None
    k = e.t.get(_EMPTY, Q0)
    for m, c in e.t.items():
        if m[1] or sum(x for _, x in m[0]) < 2: continue
        for a, x in m[0]:
            if a.kind != 'var' or a.sort != 'int' or a in CTX.ranges or x != 1: continue
            d = from_atom(a)
            if k == 0:
                q = _row_of(e, d)
                if q is not None: return idiv(q[0], d) - q[1]
            else:
                q = _row_of(-(e + 1), d)
                if q is not None: return q[1] - idiv(q[0], d) - 1
    return None
def _near(e):
    """e = d*q + r with -2d < r < 2d provable, for a dimension d occurring in a product: (d, q, r)"""
    if CTX is None: return None
    cand = []
    for m, c in e.t.items():
        if m[1]: return None
        if sum(x for _, x in m[0]) >= 2:
            for a, x in m[0]:
                if a.kind == 'var' and a.sort == 'int' and a not in CTX.ranges and a not in cand: cand.append(a)
    for N in cand:
        q, r = {}, {}; bad = False
        for m, c in e.t.items():
            f = dict(m[0])
            if N in f:
                if f[N] != 1 or c.denominator != 1: bad = True; break
                del f[N]; q[(tuple(sorted(f.items(), key=lambda y: y[0].dig)), m[1])] = c
            elif c.denominator != 1: bad = True; break
            else: r[m] = c
        if bad or not q: continue
        q, r = E(q), E(r); d = from_atom(N)
        if q.const() is not None or not q.is_int() or not r.is_int() or not any(v in CTX.ranges for v in r.fv): continue
        if CTX.prove_le(1, d) and CTX.prove_le(1 - 2 * d, r) and CTX.prove_le(r, 2 * d - 1): return d, q, r
    return None
def _block(e, dim=None):
    """e = N*q + r (or N*q - r) with 0 <= r < N provable, for a dimension N occurring in a product: (q, r, sign)"""
    if CTX is None: return None
    cand = []
    for m, c in e.t.items():
        if m[1]: return None
        if sum(x for _, x in m[0]) >= 2:
            for a, x in m[0]:
                if a.kind == 'var' and a.sort == 'int' and a not in CTX.ranges and a not in cand: cand.append(a)
    for N in cand:
        if dim is not None and from_atom(N) != dim: continue
        q, r = {}, {}
        bad = False
        for m, c in e.t.items():
            f = dict(m[0])
            if N in f:
                if f[N] != 1: bad = True; break
                del f[N]; q[(tuple(sorted(f.items(), key=lambda y: y[0].dig)), m[1])] = c
            else: r[m] = c
        if bad or not q: continue
        q, r = E(q), E(r); Ne = from_atom(N)
        if q.const() is not None or not q.is_int() or any(c.denominator != 1 for c in q.t.values()) or any(c.denominator != 1 for c in r.t.values()): continue
        if not r.is_int() or not CTX.prove_le(1, Ne): continue
        for sg in (1, -1):
            for k in (0, -1, 1):
                rr = scale(r, Q(sg)) - k * Ne
                if CTX.prove_le(0, rr) and CTX.prove_le(rr + 1, Ne): return q + sg * k, rr, sg
    return None

def _mono_cmp(e, f):
    """e = c*(F(u) - F(v)) or c*F(u) + k for a strictly increasing F: the same comparison on the arguments"""
    if len(e.t) > 2: return None
    at = []; k = Q0
    for m, c in e.t.items():
        if m == _EMPTY: k = c; continue
        if m[1] or len(m[0]) != 1 or m[0][0][1] != 1: return None
        a = m[0][0][0]
        if a.kind != 'app' or a.fn is None or a.fn.mono is None: return None
        at.append((a, c))
    if len(at) == 2:
        (a, c), (b, d) = at
        if a.fn is not b.fn or c != -d: return None
        u, v = (a.args[0], b.args[0]) if c > 0 else (b.args[0], a.args[0])
        return f(u - v)
    if len(at) == 1:
        a, c = at[0]; t = -k / c
        if a.fn.pos and t <= 0: return None
        w = a.fn.mono(t)
        if w is None: return None
        return f(a.args[0] - w if c > 0 else w - a.args[0])
    return None
SHORTEN = []
def _short(e):
    for f in SHORTEN: e = f(e)
    return e
def _common(e, ok):
    """e with the factors common to all terms (and accepted by ok) divided out"""
    if len(e.t) < 2 or CTX is None: return e
    cf = None
    for m in e.t:
        d = dict(m[0])
        cf = d if cf is None else {a: x for a, x in cf.items() if d.get(a) == x}
        if not cf: return e
    cf = {a: x for a, x in cf.items() if ok(a, x)}
    if not cf: return e
    return E({(tuple((a, x) for a, x in m[0] if a not in cf), m[1]): c for m, c in e.t.items()})
def _nz(a): return CTX.known_nonzero(from_atom(a) if a.kind != 'pw' else a.args[0])
def ind_eq0(e):
    """indicator [e = 0] as E"""
    c = e.const()
    if c is not None: return num(1 if c == 0 else 0)
    e = _common(_short(e), lambda a, x: _nz(a)); c = e.const()
    if c is not None: return num(1 if c == 0 else 0)
    r = _mono_cmp(e, ind_eq0)
    if r is not None: return r
    e = _split_known(e)
    c = e.const()
    if c is not None: return num(1 if c == 0 else 0)
    s, content = _canon_cmp(e)
    e = scale(e, s / content)
    if E({m: c for m, c in e.t.items() if m != _EMPTY}).is_int():
        k = e.t.get(_EMPTY, Q0)
        if k.denominator != 1: return num(0)
        b = _block(e) if len(e.t) > 1 else None
        if b is not None: return mul(ind_eq0(b[0]), ind_eq0(b[1]))
        b = _near(e) if len(e.t) > 1 else None
        if b is not None:
            # d*q + r = 0 with -2d < r < 2d: q is 1, 0 or -1
            d, q, r = b
            return addall([mul(ind_eq0(q + k), ind_eq0(r - k * d)) for k in (-1, 0, 1)])
    elif len(e.t) == 1:
        # product = 0  <=>  some factor = 0
        (m, c), = e.t.items()
        if len(m[0]) > 1 or m[1] or m[0][0][1] != 1:
            r = num(1)
            for a, x in m[0]: r = mul(r, one_minus(ind_eq0(from_atom(a) if a.kind != 'pw' else a.args[0])))
            r = mul(r, from_mono(((), m[1])))
            return one_minus(r)
        a = m[0][0][0]
        if a.kind == 'pw': return ind_eq0(a.args[0])
        if a.kind == 'num': return num(0)
        if a.kind == 'app' and a.fn is ABS: return ind_eq0(a.args[0])
        if a.kind == 'app' and a.fn is not None and a.fn.pos: return num(0)
    cnd = _shannon(e, ind_eq0)
    if cnd is not None: return cnd
    if CTX is not None:
        v = CTX.decide('eq', e)
        if v is not None: return num(1 if v else 0)
    return from_mono(((), frozenset([_lit('eq', e)])))

def ind_lt0(e):
    """indicator [e < 0] as E, over the basis {[p<0],[p=0]} of a canonical orientation p of e"""
    c = e.const()
    if c is not None: return num(1 if c < 0 else 0)
    e = _common(_short(e), lambda a, x: nonneg_factor(a, x) and _nz(a)); c = e.const()
    if c is not None: return num(1 if c < 0 else 0)
    r = _mono_cmp(e, ind_lt0)
    if r is not None: return r
    s, content = _canon_cmp(e)
    ee = scale(e, Q1 / content)
    nonc = E({m: c for m, c in ee.t.items() if m != _EMPTY})
    if nonc.is_int():
        k = ee.t.get(_EMPTY, Q0)
        # nonc + k < 0  <=> nonc < -k <=> nonc < ceil(-k)
        ee = nonc - num(_ceil(-k))
        b = _block(ee) if len(ee.t) > 1 else None
        if b is not None:
            q, r, sg = b
            if sg == 1: return ind_lt0(q)
            return ind_lt0(q) + mul(ind_eq0(q), ind_lt0(-r))
        q = _rows_lt(ee) if len(ee.t) > 1 else None
        if q is not None: return ind_lt0(q)
        b = _near(ee) if len(ee.t) > 1 else None
        if b is not None:
            d, q, r = b
            return addall([ind_lt0(q + 1)] + [mul(ind_eq0(q + k), ind_lt0(r - k * d)) for k in (-1, 0, 1)])
    elif len(e.t) == 1:
        (m, c), = e.t.items()
        if m[1] or len(m[0]) > 1 or m[0][0][1] != 1:
            # sign of a product of known-sign factors
            unk = [(a, x) for a, x in m[0] if not nonneg_factor(a, x)]
            if not unk:
                if c > 0: return num(0)
                r = from_mono(((), m[1]))
                for a, x in m[0]: r = mul(r, one_minus(ind_eq0(from_atom(a))))
                return r
    cnd = _shannon(ee, ind_lt0)
    if cnd is not None: return cnd
    if CTX is not None:
        v = CTX.decide('lt', ee)
        if v is not None: return num(1 if v else 0)
    if s < 0:
        p = scale(ee, -Q1)         # ee<0 <=> p>0
        return one_minus(from_basis('lt', p)) - from_basis('eq', p)
    return from_basis('lt', ee)
def from_basis(kind, p):
    if kind == 'eq': return ind_eq0(p)
    if CTX is not None:
        v = CTX.decide('lt', p)
        if v is not None: return num(1 if v else 0)
    return from_mono(((), frozenset([_lit('lt', p)])))

def _shannon(e, f):
    """e contains indicators: [f(e)] = sum over truth values of the first literal."""
    for m in sorted(e.t, key=mono_dig):
        if m[1]:
            l = min(m[1], key=lambda l: l.dig)
            t1, t0 = [], []
            for mm, c in e.t.items():
                if l in mm[1]:
                    t1.append(scale(from_mono((mm[0], mm[1] - {l})), c))
                else:
                    x = from_mono(mm, c); t1.append(x); t0.append(x)
            i = from_mono(((), frozenset([l])))
            a, b = addall(t1), addall(t0)
            return mul(i, f(a)) + mul(one_minus(i), f(b))
    return None
def _split_known(e): return e

def ind_p(fn, *args):
    args = tuple(lift(a) for a in args)
    if fn.rewrite is not None:
        r = fn.rewrite(*args)
        if r is not None: return r
    if fn.sym and len(args) == 2 and args[1].dig < args[0].dig: args = (args[1], args[0])
    return from_mono(((), frozenset([_lit('p', atom=_mk('app', fn.name, args, 'bool', fn))])))

# comparisons returning indicator E
def lt(a, b): return ind_lt0(lift(a) - lift(b))
def le(a, b): return one_minus(ind_lt0(lift(b) - lift(a)))
def eq(a, b): return ind_eq0(lift(a) - lift(b))
def ne(a, b): return one_minus(eq(a, b))
def land(a, b): return mul(a, b)
def lor(a, b): return a + b - mul(a, b)
def lnot(a): return one_minus(a)
def ite(c, a, b): return mul(c, a) + mul(one_minus(c), b)
def maximum(a, b):
    a, b = lift(a), lift(b)
    if a == b: return a
    if b.dig < a.dig: a, b = b, a
    c = lt(a, b)
    return ite(c, b, a)
def minimum(a, b): return -maximum(-lift(a), -lift(b))

# integer division
IDIV = Fn('idiv', 2, sort='int'); IMOD = Fn('imod', 2, sort='int')
def _idiv(a, b):
    ca, cb = a.const(), b.const()
    if cb == 1: return a if a.is_int() else None
    if ca is not None and cb is not None: return num(_floor(ca / cb))
    if CTX is not None:
        r = CTX.divmod_simplify(a, b)
        if r is not None: return r[0]
    return None
def _imod(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None: return num(ca - cb * _floor(ca / cb))
    if CTX is not None:
        r = CTX.divmod_simplify(a, b)
        if r is not None: return r[1]
    return None
IDIV.rewrite = _idiv; IMOD.rewrite = _imod
def idiv(a, b): return app(IDIV, a, b)
def imod(a, b): return app(IMOD, a, b)

# ------------------------------------------------------------------------------------------------ substitution
def subst(e, s):
    s = {k: v for k, v in s.items() if k in e.fv}
    if not s: return e
    key = (e.dig, tuple(sorted((k.dig, v.dig) for k, v in s.items())))
    cache = CTX.subst_cache if CTX is not None else {}
    r = cache.get(key)
    if r is not None: return r
    out = []
    for m, c in e.t.items():
        fv = mono_fv(m)
        if not any(k in fv for k in s):
            out.append(from_mono(m, c)); continue
        keepf = {}; acc = None
        parts = []
        keepc = set()
        for l in m[1]:
            if any(k in l.fv for k in s): parts.append(subst_lit(l, s))
            else: keepc.add(l)
        for a, x in m[0]:
            if any(k in a.fv for k in s):
                parts.append(power(subst_atom(a, s), x))
            else: keepf[a] = x
        acc = from_mono((tuple(sorted(keepf.items(), key=lambda x: x[0].dig)), frozenset(keepc)), c)
        for p in parts:
            acc = mul(acc, p)
            if not acc.t: break
        out.append(acc)
    r = addall(out)
    cache[key] = r
    return r

def subst_atom(a, s):
    if not any(k in a.fv for k in s): return from_atom(a)
    if a.kind == 'var': return s.get(a, from_atom(a))
    if a.kind == 'app': return app(a.fn, *[subst(x, s) for x in a.args])
    if a.kind == 'pw': return subst(a.args[0], s)   # the caller raises to the exponent
    if a.kind == 'sum':
        dims, vs, body = open_sum(a)
        dims2 = [subst(d, s) for d in dims]
        if any(d2 != d for d, d2 in zip(dims, dims2)):
            vs2 = [CTX_temp(d) for d in dims2]
            s2 = dict(s); s2.update({v: from_atom(w) for v, w in zip(vs, vs2)})
            return sum_over(list(zip(vs2, dims2)), subst(from_mono(body), s2))
        return sum_over(list(zip(vs, dims2)), subst(from_mono(body), s))
    if a.kind == 'red':
        dims, vs, body = open_red(a)
        dims2 = [subst(d, s) for d in dims]
        return reduce_over(a.name, list(zip(vs, dims2)), subst(body, s))
    raise Unsupported('subst ' + a.kind)

def subst_lit(l, s):
    if l.kind == 'p':
        a = l.atom
        return ind_p(a.fn, *[subst(x, s) for x in a.args])
    x = subst(l.e, s)
    return ind_eq0(x) if l.kind == 'eq' else ind_lt0(x)

# ------------------------------------------------------------------------------------------------ sums
def CTX_temp(dim, prefix='t'):
    v = fresh(prefix)
    if CTX is not None: CTX.set_range(v, dim)
    return v

def _rename(x, ren):
    """capture-free renaming of variables to variables (used for opening/closing binders): structural"""
    if isinstance(x, E):
        if not any(k in x.fv for k in ren): return x
        return E({_rename(m, ren): c for m, c in x.t.items()})
    if isinstance(x, tuple):   # mono
        f = tuple(sorted(((_rename(a, ren), e) for a, e in x[0]), key=lambda y: y[0].dig))
        return (f, frozenset(_rename(l, ren) for l in x[1]))
    if isinstance(x, Atom):
        if not any(k in x.fv for k in ren): return x
        if x.kind == 'var': return ren.get(x, x)
        if x.kind in ('sum', 'red'):
            dims, body, h = x.extra
            return _mk(x.kind, x.name, (), x.sort, None, (tuple(_rename(d, ren) for d in dims), _rename(body, ren), h))
        args = tuple(_rename(a, ren) for a in x.args)
        if x.fn is not None and x.fn.sym and len(args) == 2 and args[1].dig < args[0].dig: args = (args[1], args[0])
        return _mk(x.kind, x.name, args, x.sort, x.fn)
    if isinstance(x, Lit):
        if not any(k in x.fv for k in ren): return x
        return _lit(x.kind, _rename(x.e, ren) if x.e is not None else None, _rename(x.atom, ren) if x.atom is not None else None)
    raise TypeError(x)

def open_sum(a):
    dims, body, h = a.extra
    vs = [CTX_temp(d) for d in dims]
    ren = {bvar(h, i): v for i, v in enumerate(vs)}
    return list(dims), vs, _rename(body, ren)
def open_red(a):
    dims, body, h = a.extra
    vs = [CTX_temp(d) for d in dims]
    return list(dims), vs, _rename(body, {bvar(h, i): v for i, v in enumerate(vs)})

def close_sum(vs, dims, mono):
    """sum atom over vars vs (dims aligned) with a mono body; canonical binder order"""
    h = max([mono_lvl(mono)] + [d.lvl for d in dims]) + 1
    n = len(vs)
    best = None
    idx = sorted(range(n), key=lambda i: dims[i].dig)
    # permutations only among equal dims
    groups = []
    for i in idx:
        if groups and dims[groups[-1][0]].dig == dims[i].dig: groups[-1].append(i)
        else: groups.append([i])
    def perms(gs):
        if not gs: yield []; return
        for p in permutations(gs[0]):
            for r in perms(gs[1:]): yield list(p) + r
    if n > 7: raise Unsupported('too many nested sums')
    for p in perms(groups):
        ren = {vs[j]: bvar(h, i) for i, j in enumerate(p)}
        b = _rename(mono, ren)
        d = mono_dig(b)
        if best is None or d < best[0]:
            best = (d, b, tuple(dims[j] for j in p))
        if n > 5 : break
    return _mk('sum', 'sum', (), 'int' if all(a.sort == 'int' and e > 0 and e.denominator == 1 for a, e in mono[0]) else 'real', None, (best[2], best[1], h))

def sum_over(binders, body):
    """Sum of E body over binders [(var, dim E)], innermost irrelevant.  All vars are temporaries."""
    if not body.t: return num(0)
    out = []
    for m, c in body.t.items():
        out.append(scale(_sum_mono([(v, d) for v, d in binders], m), c))
    return addall(out)

_rules = []      # contract rewrite rules for sums: f(vs, dims, mono) -> E or None

def _sum_mono(binders, m):
    if not binders: return from_mono(m)
    if CTX is not None and CTX.unit:
        for i, (v, d) in enumerate(binders):
            if d.dig in CTX.unit: return sum_over(binders[:i] + binders[i + 1:], subst(from_mono(m), {v: num(0)}))
    # 0. open inner sums that mention a binder (prenex form)
    vset = {v for v, _ in binders}
    for a, x in m[0]:
        if a.kind == 'sum' and x.denominator == 1 and x > 0 and (a.fv & vset):
            f = {b: y for b, y in m[0]}
            if x == 1: del f[a]
            else: f[a] = x - 1
            dims, vs, body = open_sum(a)
            rest = (tuple(sorted(f.items(), key=lambda y: y[0].dig)), m[1])
            nb = binders + list(zip(vs, dims))
            return sum_over(nb, mono_mul(rest, body))
    # 1. independent binders
    fv = mono_fv(m)
    dimfv = set()
    for v, d in binders: dimfv |= d.fv
    for i, (v, d) in enumerate(binders):
        if v not in fv and v not in dimfv:
            rest = binders[:i] + binders[i + 1:]
            return mul(d, _sum_mono(rest, m)) if not (d.fv & vset) else sum_over(rest, mul(from_mono(m), d))
    # 2. delta elimination
    for l in sorted(m[1], key=lambda l: l.dig):
        if l.kind != 'eq': continue
        sol = _solve_for(l.e, binders)
        if sol is None: continue
        i, rhs = sol
        v, d = binders[i]
        rest = (m[0], m[1] - {l})
        body = subst(from_mono(rest), {v: rhs})
        if d.fv & vset: raise Unsupported('dependent binder')
        rng = in_range(rhs, d)
        nb = [(w, subst(dd, {v: rhs})) for j, (w, dd) in enumerate(binders) if j != i]
        return sum_over(nb, mul(body, rng))
    # 3. range absorption
    for l in sorted(m[1], key=lambda l: l.dig):
        if l.kind != 'lt' or not l.e.is_int(): continue
        for i, (v, d) in enumerate(binders):
            if v not in l.e.fv or (l.e.fv & vset) != {v}: continue
            co = None; rest = {}
            ok = True
            for mm, c in l.e.t.items():
                if mm == (((v, Q1),), frozenset()): co = c
                elif v in mono_fv(mm): ok = False
                else: rest[mm] = c
            if not ok or co not in (1, -1): continue
            r = E(rest)
            m2 = (m[0], m[1] - {l})
            if co == 1:      # v < -r
                up = -r
                uc = up.const()
                if uc is not None and 0 < uc <= 3 and not (d.fv & vset):
                    rest_b = binders[:i] + binders[i + 1:]
                    return addall([mul(lt(num(k), d), sum_over(rest_b, subst(from_mono(m2), {v: num(k)}))) for k in range(int(uc))])
                if CTX is not None and CTX.prove_le(up, d):
                    if CTX.prove_le(0, up):
                        CTX_w = CTX_temp(up)
                        nb = list(binders); nb[i] = (CTX_w, up)
                        return sum_over(nb, subst(from_mono(m2), {v: from_atom(CTX_w)}))
            else:            # -v + r < 0 : v > r : v >= r+1
                lo = r + 1
                if CTX is not None and CTX.prove_le(0, lo) and CTX.prove_le(lo, d):
                    w = CTX_temp(d - lo)
                    nb = list(binders); nb[i] = (w, d - lo)
                    return sum_over(nb, subst(from_mono(m2), {v: from_atom(w) + lo}))
    # 3b. triangle
    if len(binders) == 2 and not m[0] and len(m[1]) == 1 and binders[0][1] == binders[1][1]:
        l = next(iter(m[1])); d = binders[0][1]
        a, b = from_atom(binders[0][0]), from_atom(binders[1][0])
        if l.kind == 'lt' and (l.e == a - b or l.e == b - a): return idiv(mul(d, d) - d, num(2))
    # 4. singleton dims
    for i, (v, d) in enumerate(binders):
        if d.const() is not None and 0 <= d.const() <= 4 and not (d.fv & vset):
            rest = binders[:i] + binders[i + 1:]
            return addall([sum_over(rest, subst(from_mono(m), {v: num(k)})) for k in range(int(d.const()))])
    # 5. contract rules
    for r in _rules:
        x = r(binders, m)
        if x is not None: return x
    if CTX is not None:
        for r in CTX.sum_rules:
            x = r(binders, m)
            if x is not None: return x
    # 6. pull out independent factors; split components
    outf, outc = {}, set()
    comps = []   # list of (set(vars), dict factors, set conds)
    def touch(vs):
        merged = (set(vs), {}, set())
        keep = []
        for c in comps:
            if c[0] & merged[0]:
                merged[0].update(c[0]); merged[1].update(c[1]); merged[2].update(c[2])
            else: keep.append(c)
        keep.append(merged)
        comps[:] = keep
        return merged
    dims = dict(binders)
    for v, d in binders: touch({v} | (d.fv & vset))
    for a, x in m[0]:
        vs = a.fv & vset
        if vs: touch(vs)[1][a] = x
        else: outf[a] = x
    for l in m[1]:
        vs = l.fv & vset
        if vs: touch(vs)[2].add(l)
        else: outc.add(l)
    if len(comps) > 1:
        acc = from_mono((tuple(sorted(outf.items(), key=lambda x: x[0].dig)), frozenset(outc)))
        for vs, f, c in comps:
            mm = (tuple(sorted(f.items(), key=lambda x: x[0].dig)), frozenset(c))
            acc = mul(acc, _sum_mono([(v, dims[v]) for v in sorted(vs)], mm))
        return acc
    vs, f, c = comps[0]
    vs = sorted(vs)
    if any(dims[v].fv & set(vs) for v in vs): raise Unsupported('dependent binder dims')
    mm = (tuple(sorted(f.items(), key=lambda x: x[0].dig)), frozenset(c))
    a = close_sum(vs, [dims[v] for v in vs], mm)
    out = (tuple(sorted(outf.items(), key=lambda x: x[0].dig)), frozenset(outc))
    return mono_mul(out, (((a, Q1),), frozenset()))

def _solve_for(e, binders):
    """solve e=0 for one binder: returns (index, rhs)"""
    if not e.is_int(): return None
    best = None
    for i, (v, d) in enumerate(binders):
        if v not in e.fv: continue
        co = None; rest = {}
        ok = True
        for mm, c in e.t.items():
            if mm == (((v, Q1),), frozenset()): co = c
            elif v in mono_fv(mm): ok = False
            else: rest[mm] = c
        if ok and co in (1, -1):
            r = scale(E(rest), -co)
            if any(v in dd.fv for _, dd in binders): continue
            return i, r
        if ok and co is not None:
            continue
    # v occurs only inside an invertible enumeration function: handled by CTX
    if CTX is not None:
        return CTX.solve_enum(e, binders)
    return None

def reduce_over(op, binders, body):
    """max/min/... over binders of E body (opaque with contract facts)"""
    vs = [v for v, _ in binders]; dims = [d for _, d in binders]
    h = max([body.lvl] + [d.lvl for d in dims]) + 1
    b = _rename(body, {v: bvar(h, i) for i, v in enumerate(vs)})
    sort = 'int' if body.is_int() else 'real'
    return from_atom(_mk('red', op, (), sort, None, (tuple(dims), b, h)))

# ------------------------------------------------------------------------------------------------ printing
def show_atom(a):
    if a.kind == 'var': return a.name
    if a.kind == 'num': return a.name
    if a.kind == 'app': return f"{a.name}({', '.join(map(show, a.args))})"
    if a.kind == 'pw': return f'({show(a.args[0])})'
    if a.kind == 'sum':
        return 'Σ{' + ','.join(f'#{a.extra[2]}.{i}<{show(d)}' for i, d in enumerate(a.extra[0])) + '}(' + show_mono(a.extra[1]) + ')'
    if a.kind == 'red':
        return a.name + '{' + ','.join(f'#{a.extra[2]}.{i}<{show(d)}' for i, d in enumerate(a.extra[0])) + '}(' + show(a.extra[1]) + ')'
    return a.kind
def show_mono(m):
    s = [show_atom(a) + ('' if e == 1 else f'^{e}') for a, e in m[0]] + [f'[{l!r}]' for l in sorted(m[1], key=lambda l: l.dig)]
    return '·'.join(s) or '1'
def show(e):
    if not e.t: return '0'
    out = []
    for m, c in sorted(e.t.items(), key=lambda x: mono_dig(x[0])):
        s = show_mono(m)
        if s == '1': out.append(str(c))
        elif c == 1: out.append(s)
        elif c == -1: out.append('-' + s)
        else: out.append(f'{c}·{s}')
    return ' + '.join(out).replace('+ -', '- ')

def reset():
    """forget interned atoms: symbols of the same name in another path may carry other contracts"""
    _atoms.clear(); _lits.clear(); _mulcache.clear(); _powcache.clear()

CTX = None
def set_ctx(c):
    global CTX
    CTX = c
    _mulcache.clear(); _powcache.clear()
