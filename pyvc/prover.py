"""Proof context of one execution path: hypotheses, z3 translation, literal decisions, equality prover."""
import time
from fractions import Fraction as Q
import z3
from . import terms as T
from .terms import E, num, from_atom, from_mono, Unsupported

STATS = {'queries': 0, 'z3_s': 0.0, 'norm': 0, 'z3': 0}

class Ctx:
    def __init__(self):
        self.hyps = []            # z3 formulas
        self.hyp_src = []         # readable text
        self.ranges = {}          # temp var atom -> dim E
        self.lower = {}           # var atom -> rational lower bound (integers)
        self.subst_cache = {}
        self.sum_rules = []
        self.enums = {}
        self.nonneg_vars = set()
        self.upper1 = {}
        self.unit = set()         # dimensions known to be one on this path
        self.nonneg_exprs = set()
        self.nonzero_exprs = set()
        self._dec = {}
        self._z = {}
        self._zv = 0
        self.solver = None
        self.assumptions = []     # contract facts assumed about trusted code (text)
        self.obls = []            # (name, ok, how)
        self.timeout = 1500
        self._busy = False
        self.fallback_nonneg = True
        self.fn_facts = {}        # Fn name -> callable(args z3...) -> list of facts
        self.divfacts = []

    # ------------------------------------------------------------------ bookkeeping
    def set_range(self, v, dim): self.ranges[v] = dim
    def is_temp(self, a): return a in self.ranges
    def bump(self):
        self._dec.clear(); self.subst_cache.clear(); T._mulcache.clear(); T._powcache.clear()
        self.solver = None

    # ------------------------------------------------------------------ z3 translation
    def z_int(self, e):
        r = self._z.get(('i', e.dig))
        if r is not None: return r
        acc = []
        for m, c in e.t.items():
            p = None
            for l in m[1]: raise NotInt()
            for a, x in m[0]:
                z = self.z_atom(a)
                for _ in range(int(x)): p = z if p is None else p * z
            acc.append(z3.IntVal(int(c)) if p is None else (p if c == 1 else int(c) * p))
        r = z3.IntVal(0) if not acc else (acc[0] if len(acc) == 1 else z3.Sum(acc))
        self._z[('i', e.dig)] = r
        return r
    def z_num(self, e):
        """as Int if possible else Real"""
        if e.is_int() and not any(m[1] for m in e.t):
            return self.z_int(e)
        return self.z_real(e)
    def z_real(self, e):
        r = self._z.get(('r', e.dig))
        if r is not None: return r
        acc = []
        for m, c in e.t.items():
            p = z3.RealVal(str(c))
            for a, x in m[0]:
                z = self.z_pow(a, x)
                p = p * z if not (z3.is_rational_value(p) and p.as_fraction() == 1) else z
            if m[1]:
                p = z3.If(z3.And([self.z_lit(l) for l in m[1]]), p, z3.RealVal(0))
            acc.append(p)
        r = z3.RealVal(0) if not acc else (acc[0] if len(acc) == 1 else z3.Sum(acc))
        self._z[('r', e.dig)] = r
        return r
    def z_pow(self, a, x):
        z = self.z_atom(a)
        if z.sort() == z3.IntSort(): z = z3.ToReal(z)
        if x.denominator == 1 and x > 0:
            p = z
            for _ in range(int(x) - 1): p = p * z
            return p
        if x.denominator == 1:
            p = z
            for _ in range(int(-x) - 1): p = p * z
            # 0**-k = 0 by convention
            return z3.If(z == 0, z3.RealVal(0), 1 / p)
        f = z3.Function(f'pow_{x.numerator}_{x.denominator}'.replace('-', 'm'), z3.RealSort(), z3.RealSort())
        return f(z)
    def z_atom(self, a):
        r = self._z.get(('a', a.dig))
        if r is not None: return r
        if a.kind == 'var':
            r = z3.Int(a.name) if a.sort == 'int' else z3.Real(a.name)
        elif a.kind == 'num':
            r = z3.RealVal(a.name)
        elif a.kind == 'app':
            if a.fn is T.IDIV: r = self.z_int(a.args[0]) / self.z_int(a.args[1])
            elif a.fn is T.IMOD: r = self.z_int(a.args[0]) % self.z_int(a.args[1])
            elif a.fn is T.ABS:
                z = self.z_num(a.args[0])
                if a.sort == 'real' and z.sort() == z3.IntSort(): z = z3.ToReal(z)
                r = z3.If(z >= 0, z, -z)
            else:
                zs = [self.z_num(x) for x in a.args]
                so = {'int': z3.IntSort(), 'real': z3.RealSort(), 'bool': z3.BoolSort()}[a.sort]
                f = z3.Function(a.name, *[z.sort() for z in zs], so)
                r = f(*zs)
        elif a.kind == 'pw':
            r = self.z_real(a.args[0])
        elif a.kind in ('sum', 'red'):
            r = (z3.Int if a.sort == 'int' else z3.Real)(a.kind + '_' + a.dig)
        else: raise Unsupported('z3 ' + a.kind)
        self._z[('a', a.dig)] = r
        return r
    def z_lit(self, l):
        if l.kind == 'p': return self.z_atom(l.atom)
        x = self.z_num(l.e)
        return x == 0 if l.kind == 'eq' else x < 0
    def z_ind(self, e):
        """indicator expression (0/1 valued) as z3 Bool"""
        c = e.const()
        if c is not None: return z3.BoolVal(c == 1)
        if len(e.t) == 1:
            (m, c), = e.t.items()
            if c == 1 and not m[0]: return z3.And([self.z_lit(l) for l in m[1]]) if len(m[1]) > 1 else self.z_lit(list(m[1])[0])
        if len(e.t) == 2 and e.t.get(T._EMPTY) == 1:
            m2 = [m for m in e.t if m != T._EMPTY][0]
            if e.t[m2] == -1 and not m2[0]:
                return z3.Not(z3.And([self.z_lit(l) for l in m2[1]]))
        return self.z_real(e) == 1

    # facts implied by the vocabulary of a formula: ranges of temps, signs of non-negative symbols
    def vocab_facts(self, es, extra_vars=()):
        facts = []; seen = set(); trig = {}; todo = list(es); depth = [0]
        def visit_atom(a):
            if a.dig in seen: return
            seen.add(a.dig)
            if a.kind == 'var':
                d = self.ranges.get(a)
                if d is not None:
                    z = self.z_atom(a)
                    facts.append(z >= 0); facts.append(z < self.z_num(d)); visit(d)
            elif a.kind == 'app':
                for x in a.args: visit(x)
                if a.fn is not None and a.fn.bounds is not None:
                    z = self.z_atom(a); facts.append(z >= a.fn.bounds[0]); facts.append(z <= a.fn.bounds[1])
                    if a.fn.name in ('sin', 'cos'): trig.setdefault(a.args[0].dig, {})[a.fn.name] = z
                    if len(trig.get(a.args[0].dig, ())) == 2:
                        zs, zc = trig[a.args[0].dig]['sin'], trig[a.args[0].dig]['cos']
                        for p in (zs * zc, zc * zs): facts.append(2 * p <= 1); facts.append(2 * p >= -1)
                if a.fn is not None and a.fn.nonneg and a.sort != 'bool': facts.append(self.z_atom(a) > 0 if a.fn.pos else self.z_atom(a) >= 0)
                if a.fn is T.POWN and a.args[0].const() == 2 and a.args[1].is_int() and not any(m[1] for m in a.args[1].t):
                    z, k = self.z_atom(a), self.z_int(a.args[1])
                    facts.append(z > 0)
                    for v in range(-4, 6): facts.append(z3.And(z3.Implies(k >= v, z >= z3.Q(2 ** (v + 4), 16)), z3.Implies(k <= v, z <= z3.Q(2 ** (v + 4), 16))))
                if a.fn in (T.IDIV, T.IMOD):
                    x, n = a.args
                    if n.const() is None:      # nonlinear: q*n + r = x, 0<=r<n
                        q = self.z_atom(T.the_atom(E({((( T._mk('app', T.IDIV.name, (x, n), 'int', T.IDIV), Q(1)),), frozenset()): Q(1)})))
                        r = self.z_atom(T._mk('app', T.IMOD.name, (x, n), 'int', T.IMOD))
                        zn, zx = self.z_int(n), self.z_int(x)
                        facts.append(z3.Implies(zn > 0, z3.And(r >= 0, r < zn, q * zn + r == zx)))
                    elif n.const() == 2 and a.fn is T.IDIV:
                        # x^2 - x is even
                        for m in x.t:
                            if len(m[0]) == 1 and m[0][0][1] == 2 and not m[1]:
                                y = from_atom(m[0][0][0])
                                if x == T.mul(y, y) - y: facts.append(2 * self.z_atom(a) == self.z_int(x))
                if a.fn is not None:
                    for g in a.fn.facts:
                        with self.raw(): fs = list(g(*a.args))
                        for f in fs:
                            hy, co = f if isinstance(f, tuple) else ((), (f,))
                            kd = ''.join(x.dig for x in hy) + '>' + ''.join(x.dig for x in co)
                            if kd in seen: continue
                            seen.add(kd)
                            zc = z3.And([self.z_ind(x) for x in co])
                            facts.append(z3.Implies(z3.And([self.z_ind(x) for x in hy]), zc) if hy else zc)
                            if depth[0] < 2:
                                depth[0] += 1
                                for x in (*hy, *co): visit(x)
                                depth[0] -= 1
            elif a.kind == 'pw':
                visit(a.args[0])
                # nothing more
            elif a.kind == 'sum':
                if T.nonneg_atom(a): facts.append(self.z_atom(a) >= 0)
            elif a.kind == 'red': pass
        def visit(e):
            for m in e.t:
                for a, x in m[0]:
                    visit_atom(a)
                    if x.denominator != 1:
                        facts.append(self.z_pow(a, x) >= 0)
                        if x == Q(1, 2):
                            p = self.z_pow(a, x); z = self.z_atom(a)
                            facts.append(z3.Implies((z3.ToReal(z) if z.sort() == z3.IntSort() else z) >= 0, p * p == z))
                for l in m[1]:
                    if l.kind == 'p': visit_atom(l.atom)
                    else: visit(l.e)
        for e in todo: visit(e)
        for _ in range(2):
            n0 = len(facts)
            if len(facts) == n0: break
        return facts

    def check(self, formulas, timeout=None, vocab=(), hyps=True):
        """sat / unsat / unknown of hyps & formulas"""
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        if hyps:
            for h in self.hyps: s.add(h)
        for f in self.vocab_facts(vocab): s.add(f)
        for v, lo in self.lower.items():
            s.add(self.z_atom(v) >= int(lo))
        for f in formulas: s.add(f)
        r = s.check()
        STATS['queries'] += 1; STATS['z3_s'] += time.time() - t0
        self.last_model = s.model() if r == z3.sat else None
        return r

    # ------------------------------------------------------------------ assumptions
    def assume(self, ind, text=None):
        """indicator expression is true on this path"""
        self.hyps.append(self.z_ind(ind)); self.hyp_src.append(text or repr(ind))
        for f in self.vocab_facts([ind]): self.hyps.append(f)
        self.learn(ind)
        self.bump()
    def learn(self, ind):
        """syntactic consequences used by the normaliser: integer lower bounds"""
        c = ind
        lits = []
        if len(c.t) == 1:
            (m, k), = c.t.items()
            if k == 1 and not m[0]: lits = [(l, True) for l in m[1]]
        elif len(c.t) == 2 and c.t.get(T._EMPTY) == 1:
            m2 = [m for m in c.t if m != T._EMPTY][0]
            if c.t[m2] == -1 and not m2[0] and len(m2[1]) == 1: lits = [(list(m2[1])[0], False)]
        elif len(c.t) == 3 and c.t.get(T._EMPTY) == 1:
            # 1 - [p < 0] - [p = 0] : p > 0
            ls = [list(m[1])[0] if c.t[m] == -1 and not m[0] and len(m[1]) == 1 else None for m in c.t if m != T._EMPTY]
            if None not in ls and {l.kind for l in ls} == {'lt', 'eq'} and ls[0].e == ls[1].e:
                p = ls[0].e
                self.nonzero_exprs.add(p.dig); self.nonzero_exprs.add((-p).dig); self.nonneg_exprs.add(p.dig)
                at = self._lin1(p)
                if at and at[1] == 1 and at[2] <= 0: self.nonneg_vars.add(at[0]); self.nonzero_exprs.add(from_atom(at[0]).dig)
        for l, pol in lits:
            if l.kind == 'lt' and not pol:       # e >= 0
                self.nonneg_exprs.add(l.e.dig)
                at = self._lin1(l.e)
                if at and at[1] == 1 and at[0].sort == 'int':
                    lo = -at[2]
                    self.lower[at[0]] = max(self.lower.get(at[0], lo), lo)
                    if self.upper1.get(at[0]) == 1 and self.lower[at[0]] == 1: self.unit.add(from_atom(at[0]).dig)
                if at and at[1] == -1 and at[2] == 1 and at[0].sort == 'int':
                    self.upper1[at[0]] = 1
                    if self.lower.get(at[0]) == 1: self.unit.add(from_atom(at[0]).dig)
                if at and at[1] == 1 and at[2] == 0: self.nonneg_vars.add(at[0])
                if at and at[1] == 1 and at[2] < 0: self.nonneg_vars.add(at[0]); self.nonzero_exprs.add(from_atom(at[0]).dig)
            if l.kind == 'eq' and pol:
                at = self._lin1(l.e)
                if at and at[0].sort == 'int' and at[2] == -at[1]: self.unit.add(from_atom(at[0]).dig)
            if l.kind == 'eq' and not pol: self.nonzero_exprs.add(l.e.dig)
            if l.kind == 'lt' and pol:
                self.nonzero_exprs.add(l.e.dig); self.nonzero_exprs.add((-l.e).dig)
                self.nonneg_exprs.add((-l.e).dig)
                at = self._lin1(-l.e)
                if at and at[1] == 1 and at[2] <= 0:
                    self.nonneg_vars.add(at[0]); self.nonzero_exprs.add(from_atom(at[0]).dig)
    def _lin1(self, e):
        a = None; c = None; k = Q(0)
        for m, q in e.t.items():
            if m == T._EMPTY: k = q
            elif len(m[0]) == 1 and m[0][0][1] == 1 and not m[1] and a is None: a, c = m[0][0][0], q
            else: return None
        return (a, c, k) if a is not None else None

    # ------------------------------------------------------------------ literal decisions for the normaliser
    def nonneg_fact(self, a):
        return a in self.nonneg_vars or (a in self.lower and self.lower[a] >= 0) or a in self.ranges
    def nonneg_fact_e(self, e): return e.dig in self.nonneg_exprs
    def known_nonzero(self, e, conds=()):
        if e.dig in self.nonzero_exprs: return True
        at = T.the_atom(e)
        if at is not None and at in self.lower and self.lower[at] > 0: return True
        v = self.decide('eq', e)
        return v is False
    def _lb(self, e):
        """cheap lower bound (rational) of a linear integer expression or None"""
        if not e.is_int(): return None
        # substitute temp ranges
        for _ in range(6):
            const = Q(0); ch = False; out = num(0); ok = True
            acc = {}
            for m, c in e.t.items():
                if m == T._EMPTY: const += c; continue
                if m[1]: return None
                if len(m[0]) == 1 and m[0][0][1] == 1:
                    a = m[0][0][0]
                    if a in self.ranges:
                        ch = True
                        if c > 0: continue
                        d = self.ranges[a] - 1
                        for mm, cc in d.t.items(): acc[mm] = acc.get(mm, Q(0)) + c * cc
                        continue
                acc[m] = acc.get(m, Q(0)) + c
            acc = {m: c for m, c in acc.items() if c}
            e2 = E({**{m: c for m, c in acc.items() if m != T._EMPTY}, **({T._EMPTY: const + acc.get(T._EMPTY, Q(0))} if const + acc.get(T._EMPTY, Q(0)) else {})})
            e = e2
            if not ch: break
        tot = Q(0)
        for m, c in e.t.items():
            if m == T._EMPTY: tot += c; continue
            if len(m[0]) != 1 or m[0][0][1] != 1: return None
            a = m[0][0][0]
            lo = self.lower.get(a)
            if lo is None and T.nonneg_atom(a): lo = Q(0)
            if lo is None or c < 0: return None
            tot += c * lo
        return tot
    _raw = False
    def raw(self):
        import contextlib
        @contextlib.contextmanager
        def cm():
            if self._raw:
                yield; return
            self._raw = True
            m, p = dict(T._mulcache), dict(T._powcache)
            T._mulcache.clear(); T._powcache.clear()
            try: yield
            finally:
                self._raw = False
                T._mulcache.clear(); T._powcache.clear(); T._mulcache.update(m); T._powcache.update(p)
        return cm()
    def decide(self, kind, e):
        if self._raw: return None
        key = (kind, e.dig)
        if key in self._dec: return self._dec[key]
        r = self._decide(kind, e)
        self._dec[key] = r
        return r
    def _decide(self, kind, e):
        if kind == 'lt' and (e.dig in self.nonneg_exprs or T_nonneg(e)): return False
        if kind == 'eq' and e.dig in self.nonzero_exprs: return False
        if self._busy or self._raw: return None
        isint = e.is_int() and not any(m[1] for m in e.t)
        if isint:
            lo = self._lb(e)
            if kind == 'lt' and lo is not None and lo >= 0: return False
            if kind == 'eq' and lo is not None and lo > 0: return False
            up = self._lb(-e)
            if up is not None:
                if kind == 'lt' and up > 0: return True
                if kind == 'eq' and up > 0: return False
            # single temp variable compared with its own range only: undecided without z3
            if not self._worth(e): return None
        else:
            if any(a.kind in ('sum', 'red', 'pw') for m in e.t for a, _ in m[0]): 
                if not self.hyps: return None
            if not self._real_worth(e): return None
        self._busy = True
        try:
            x = self.z_num(e)
            f = x < 0 if kind == 'lt' else x == 0
            r1 = self.check([f], timeout=400, vocab=[e])
            if r1 == z3.unsat: return False
            r2 = self.check([z3.Not(f)], timeout=400, vocab=[e])
            if r2 == z3.unsat: return True
        except NotInt:
            return None
        finally:
            self._busy = False
        return None
    def _worth(self, e):
        """skip z3 for i-j style comparisons of two free temps with the same range"""
        vs = [m[0][0][0] for m in e.t if m != T._EMPTY and len(m[0]) == 1]
        if len(e.t) == 2 and len(vs) == 2 and all(v.kind == 'var' for v in vs):
            d = [self.ranges.get(v) for v in vs]
            if d[0] is not None and d[1] is not None and d[0] == d[1] and set(e.t.values()) == {Q(1), Q(-1)}:
                if not any(v in self.hyp_vars() for v in vs): return False
        return True
    def _real_worth(self, e):
        if not self.hyps: return False
        return any(a in self.hyp_vars() for a in e.fv) 
    def hyp_vars(self):
        return self._hv
    _hv = frozenset()
    def reduce_conds(self, conds):
        """drop literals implied by the others / detect contradictions (cheap, pairwise on equal linear parts)"""
        lits = sorted(conds, key=lambda l: l.dig)
        groups = {}
        for l in lits:
            if l.kind == 'p': continue
            c = l.e.t.get(T._EMPTY, Q(0))
            nc = tuple(sorted(((T.mono_dig(m), k) for m, k in l.e.t.items() if m != T._EMPTY)))
            groups.setdefault(nc, []).append((l, c))
        drop = set()
        for nc, ls in groups.items():
            if len(ls) < 2: continue
            for i in range(len(ls)):
                for j in range(len(ls)):
                    if i == j: continue
                    (l1, c1), (l2, c2) = ls[i], ls[j]
                    # value p: l1: p + c1 (=|<) 0
                    if l1.kind == 'eq' and l2.kind == 'eq':
                        if c1 != c2: return None
                    elif l1.kind == 'eq' and l2.kind == 'lt':
                        if -c1 + c2 < 0: drop.add(l2)
                        else: return None
                    elif l1.kind == 'lt' and l2.kind == 'lt' and l1 != l2:
                        if c1 > c2: drop.add(l2)      # p < -c1 < -c2
        # opposite orientation for non-canonical leftovers is handled by z3 at the end
        if drop: return frozenset(conds) - drop
        return conds
    def prove_le(self, a, b):
        d = b - a
        c = d.const()
        if c is not None: return c >= 0
        lo = self._lb(d)
        if lo is not None and lo >= 0: return True
        v = self.decide('lt', d)
        return v is False

    def divmod_simplify(self, a, n):
        """a = n*q + r with 0 <= r < n provable: (q, r)"""
        if not (a.is_int() and n.is_int()): return None
        if not self.prove_le(1, n): return None
        if any(x.kind == 'sum' and len(x.extra[0]) > 1 for m in a.t for x, _ in m[0]): a = split_order(a)
        # integer polynomial quotient: collect terms divisible by n when n is a single monomial
        q = num(0); r = a
        if len(n.t) == 1:
            (nm, nc), = n.t.items()
            qt, rt = {}, {}
            nf = dict(nm[0])
            for m, c in a.t.items():
                f = dict(m[0])
                if m[1] == frozenset() and all(f.get(x, 0) >= y for x, y in nf.items()) and (c / nc).denominator == 1:
                    for x, y in nf.items():
                        f[x] -= y
                        if f[x] == 0: del f[x]
                    k = (tuple(sorted(f.items(), key=lambda x: x[0].dig)), frozenset())
                    qt[k] = qt.get(k, Q(0)) + c / nc
                else: rt[m] = c
            q, r = E({m: c for m, c in qt.items() if c}), E(rt)
        for k in (0, -1, 1):
            rr = r - k * n
            if self.prove_le(0, rr) and self.prove_le(rr + 1, n):
                return q + k, rr
        # a - n style: r may still exceed n by a constant multiple; leave symbolic but normalise the quotient part
        if q.t:
            return q + T.idiv(r, n), T.imod(r, n)
        return None

    # ------------------------------------------------------------------ enumerations
    def solve_enum(self, e, binders):
        return None

    # ------------------------------------------------------------------ equality of expressions
    def prove_zero(self, d, timeout=8000, depth=0):
        """returns (True, how) or (False, reason)"""
        self.bump()
        d = renorm(d)
        if not d.t:
            STATS['norm'] += 1
            return True, 'normaliser'
        from . import values as V
        d2 = V.trig_reduce(d)
        d2 = split_order(d2)
        if not d2.t:
            STATS['norm'] += 1
            return True, 'normaliser'
        # combine sums over the same domain and prove the body vanishes pointwise
        rest = combine_sums(self, d2)
        if rest is not None and not rest.t:
            STATS['z3'] += 1
            return True, 'normaliser+z3'
        d3 = rest if rest is not None else d2
        if depth < 2:
            d4 = merge_reds(self, d3, depth)
            if d4 is not None:
                ok, how = self.prove_zero(d4, timeout, depth + 1)
                return ok, ('equal maxima: ' + how) if ok else how
        dp = split_points(d3)
        if dp is not None:
            dp = renorm(dp)
            if not dp.t:
                STATS['norm'] += 1
                return True, 'normaliser'
            if len(dp.t) < len(d3.t): d3 = dp
        if depth < 4:
            for B in denominators(d3):
                if all(self.prove_zero(x, timeout, depth + 1)[0] for x in denominator_cases(d3, B)):
                    return True, 'case split on a denominator'
                break
            bd = pointwise_body(d3)
            if bd is not None:
                ok, how = self.prove_zero(bd, timeout, depth + 1)
                if ok: return True, 'pointwise: ' + how
        if depth: timeout = min(timeout, 3000)
        try:
            r = self.check([self.z_num(d3) != 0], timeout=timeout, vocab=[d3])
        except NotInt:
            r = self.check([self.z_real(d3) != 0], timeout=timeout, vocab=[d3])
        if r == z3.unsat:
            STATS['z3'] += 1
            return True, 'z3'
        if depth == 0:
            from . import tactics
            ls = tactics.literals(d3)
            if len(d3.t) < 60 and (any(l.kind == 'eq' and l.e.fv and not l.e.is_int() for l in ls) or 0 < len(ls) <= 4) and tactics.zero_cases(self, d3, 4):
                STATS['z3'] += 1
                return True, 'case split, z3'
        return False, f'{"refuted (counter-model)" if r == z3.sat else "unknown"}: residue {T.show(d3)[:600]}'
    def prove_ind(self, ind, timeout=8000):
        c = ind.const()
        if c is not None:
            if c == 1: STATS['norm'] += 1
            return c == 1, 'normaliser' if c == 1 else 'normaliser: false'
        self.bump()
        ind = renorm(ind)
        c = ind.const()
        if c is not None:
            if c == 1: STATS['norm'] += 1
            return c == 1, 'normaliser' if c == 1 else 'normaliser: false'
        from . import tactics
        nested = any(n for n, _ in tactics.literals(ind).values())
        r = self.check([z3.Not(self.z_ind(ind))], timeout=1000 if nested else timeout, vocab=[ind])
        if r == z3.unsat:
            STATS['z3'] += 1
            return True, 'z3'
        if nested and tactics.ind_cases(self, ind):
            STATS['z3'] += 1
            return True, 'case split, z3'
        if nested and r != z3.sat: r = self.check([z3.Not(self.z_ind(ind))], timeout=timeout, vocab=[ind])
        if r == z3.unsat:
            STATS['z3'] += 1
            return True, 'z3'
        return False, f'{"refuted (counter-model)" if r == z3.sat else "unknown"}: {T.show(ind)[:600]}'

class NotInt(Exception): pass

def T_nonneg(e):
    return all(c > 0 and all(T.nonneg_factor(a, x) for a, x in m[0]) for m, c in e.t.items())

def renorm(e):
    """rebuild from scratch under the current context"""
    c = T.CTX
    memo = {}
    def rb_e(e):
        r = memo.get(e.dig)
        if r is None:
            r = T.addall([T.scale(rb_m(m), c) for m, c in e.t.items()])
            memo[e.dig] = r
        return r
    def rb_m(m):
        acc = num(1)
        for l in m[1]:
            acc = T.mul(acc, rb_l(l))
            if not acc.t: return acc
        for a, x in m[0]:
            acc = T.mul(acc, T.power(rb_a(a), x))
            if not acc.t: return acc
        return acc
    def rb_l(l):
        if l.kind == 'p': return T.ind_p(l.atom.fn, *[rb_e(x) for x in l.atom.args])
        x = rb_e(l.e)
        return T.ind_eq0(x) if l.kind == 'eq' else T.ind_lt0(x)
    def rb_a(a):
        if a.kind in ('var', 'num'): return from_atom(a)
        if a.kind == 'app': return T.app(a.fn, *[rb_e(x) for x in a.args])
        if a.kind == 'pw': return rb_e(a.args[0])
        if a.kind == 'sum':
            dims, vs, body = T.open_sum(a)
            return T.sum_over([(v, rb_e(d)) for v, d in zip(vs, dims)], rb_m(body))
        if a.kind == 'red':
            dims, vs, body = T.open_red(a)
            return T.reduce_over(a.name, [(v, rb_e(d)) for v, d in zip(vs, dims)], rb_e(body))
        raise Unsupported(a.kind)
    return rb_e(e)

def split_order(e):
    """two binders of equal range in one sum: split into i<j, i=j, i>j (needed to use symmetry of the body)"""
    out = []; changed = False
    for m, c in e.t.items():
        target = None
        for a, x in m[0]:
            if a.kind == 'sum' and len(a.extra[0]) >= 2 and x == 1:
                dims = a.extra[0]
                for i in range(len(dims)):
                    for j in range(i + 1, len(dims)):
                        if dims[i] == dims[j]:
                            bi, bj = T.bvar(a.extra[2], i), T.bvar(a.extra[2], j)
                            if not any({bi, bj} <= l.fv and l.kind != 'p' for l in a.extra[1][1]) and any(
                                    a2.fn is not None and a2.fn.sym and {bi, bj} <= a2.fv for a2, _ in a.extra[1][0]) or any(
                                    _has_sym_pair(l, bi, bj) for l in a.extra[1][1]):
                                target = (a, i, j); break
                    if target: break
            if target: break
        if target is None:
            out.append(from_mono(m, c)); continue
        a, i, j = target
        rest = tuple((b, y) for b, y in m[0] if b is not a)
        dims, vs, body = T.open_sum(a)
        # skip if an order literal on the pair is already there
        if any({vs[i], vs[j]} <= l.fv and l.kind in ('lt', 'eq') and set(f.kind for f in l.fv) == {'var'} and len(l.e.t) == 2 for l in body[1] if l.kind != 'p'):
            out.append(from_mono(m, c)); continue
        changed = True
        vi, vj = from_atom(vs[i]), from_atom(vs[j])
        if len(T.lt(vi, vj).t) > 1: i, j, vi, vj = j, i, vj, vi     # keep the order literal positive
        # [vj<vi] comes as 1-[<]-[=]: swap the binders of the full sum instead
        s_lt = T.sum_over(list(zip(vs, dims)), T.mul(T.lt(vi, vj), from_mono(body)))
        sw = {vs[i]: vj, vs[j]: vi}
        s_gt = T.sum_over(list(zip(vs, dims)), T.mul(T.lt(vi, vj), T.subst(from_mono(body), sw)))
        s_eq = T.sum_over(list(zip(vs, dims)), T.mul(T.eq(vi, vj), from_mono(body)))
        out.append(T.scale(T.mul(from_mono((rest, m[1])), s_lt + s_gt + s_eq), c))
    r = T.addall(out)
    return r

def _has_sym_pair(l, bi, bj):
    if l.kind == 'p': return l.atom.fn is not None and l.atom.fn.sym and {bi, bj} <= l.fv
    for m in l.e.t:
        for a, _ in m[0]:
            if a.fn is not None and a.fn.sym and {bi, bj} <= a.fv: return True
    return False

def _base(a):
    """expression denoted by the atom a (pw atoms stand for powers of compound expressions)"""
    return a.args[0] if a.kind == 'pw' else from_atom(a)
def denominators(d):
    """atoms occurring with a negative exponent, outermost level"""
    out = []
    for m in d.t:
        for a, x in m[0]:
            if x < 0 and a not in out: out.append(a)
    return sorted(out, key=lambda a: a.dig)
def denominator_cases(d, B):
    """d = 0 iff d|B=0 vanishes and, assuming B != 0, B^K d vanishes"""
    be = _base(B); z = T.eq(be, 0)
    zl = None
    if len(z.t) == 1:
        (zm, zc), = z.t.items()
        if zc == 1 and not zm[0] and len(zm[1]) == 1: zl = list(zm[1])[0]
    K = max(-x for m in d.t for a, x in m[0] if a is B)
    d0, d1 = [], []
    for m, c in d.t.items():
        x = dict(m[0]).get(B, Q(0))
        conds = m[1]
        if x == 0: d0.append(T.from_mono(m, c))
        if zl is not None and zl in conds: continue
        rest = T.from_mono((tuple((a, y) for a, y in m[0] if a is not B), conds), c)
        y = x + K
        if y.denominator == 1 and y >= 0:
            for _ in range(int(y)): rest = T.mul(rest, be)
        else: rest = T.mul(rest, T.power(be, y))
        d1.append(rest)
    if zl is not None:
        r0 = []
        for e in d0:
            for m, c in e.t.items(): r0.append(T.mul(T.from_mono((m[0], m[1] - {zl}), c), z))
        d0 = r0
    else: d0 = [T.mul(e, z) for e in d0]
    return T.addall(d0), T.addall(d1)
def merge_reds(ctx, d, depth):
    """maxima (minima) over the same range whose bodies are equal pointwise are the same; None when there are none"""
    reds = []
    for m in d.t:
        for a, x in m[0]:
            if a.kind == 'red' and a not in reds: reds.append(a)
    mp = {}
    for i, a in enumerate(reds):
        for b in reds[:i]:
            if a.name != b.name or len(a.extra[0]) != len(b.extra[0]) or any(p != q for p, q in zip(a.extra[0], b.extra[0])): continue
            dims, body, h = a.extra; vs = [T.CTX_temp(x) for x in dims]
            op = lambda a: T._rename(a.extra[1], {T.bvar(a.extra[2], i): v for i, v in enumerate(vs)})
            if ctx.prove_zero(op(a) - op(b), 2000, depth + 1)[0]: mp[a] = mp.get(b, from_atom(b)); break
    if not mp: return None
    from . import values as V
    return renorm(V.replace_atoms(d, mp))

def pointwise_body(d):
    """every term is a sum (coefficients without other factors allowed): common body over one outer binder"""
    items = []
    for m, c in d.t.items():
        sums = [a for a, x in m[0] if a.kind == 'sum' and x == 1]
        if len(sums) != 1: return None
        items.append((m, c, sums[0]))
    if not items: return None
    dims = set.intersection(*[{e.dig for e in a.extra[0]} for _, _, a in items])
    if not dims: return None
    dd = sorted(dims)[0]
    dim = next(e for e in items[0][2].extra[0] if e.dig == dd)
    v = T.CTX_temp(dim)
    out = []
    for m, c, a in items:
        ds, vs, body = T.open_sum(a)
        cand = [i for i, e in enumerate(ds) if e.dig == dd]
        def weight(i):
            n = 0
            for x, y in body[0]:
                if vs[i] in x.fv: n += 100 if y < 0 else (10 if x.fv & set(vs) == {vs[i]} else 1)
            for l in body[1]:
                if vs[i] in l.fv: n += 1
            return n
        o = max(cand, key=weight)
        inner = [(x, e) for i, (x, e) in enumerate(zip(vs, ds)) if i != o]
        s = T.sum_over(inner, T.from_mono(body)) if inner else T.from_mono(body)
        s = T.subst(s, {vs[o]: from_atom(v)})
        rest = T.from_mono((tuple((x, y) for x, y in m[0] if x is not a), m[1]), c)
        out.append(T.mul(rest, s))
    return T.addall(out)

def split_points(d):
    """split whole sums at the bounds of partial sums occurring in the same expression:
    S{k<N} f = S{k<p} f + f(p) + S{p<k<N} f.  None when there is nothing to split."""
    sums = {a for m in d.t for a, x in m[0] if a.kind == 'sum' and x == 1 and len(a.extra[0]) == 1}
    dims = {a.extra[0][0].dig: a.extra[0][0] for a in sums}
    pts = [e for e in dims.values() if (lambda v: v is not None and v.kind in ('var', 'app') and T.CTX.ranges.get(v) is not None)(T.the_atom(e))]
    if not pts: return None
    memo = {}
    def split(a):
        r = memo.get(a)
        if r is None:
            ds, vs, body = T.open_sum(a)
            todo = [(num(0), ds[0])]       # [lo, hi) pieces; single points kept apart
            single = []
            for p in pts:
                if p == ds[0]: continue
                nt = []
                for lo, hi in todo:
                    if T.CTX.prove_le(lo, p) and T.CTX.prove_le(p + 1, hi): nt += [(lo, p), (p + 1, hi)]; single.append(p)
                    else: nt.append((lo, hi))
                todo = nt
            if not single: r = memo[a] = from_atom(a)
            else:
                body = T.from_mono(body); acc = []
                for p in single: acc.append(T.subst(body, {vs[0]: p}))
                for lo, hi in todo:
                    w = T.CTX_temp(hi - lo)
                    acc.append(T.sum_over([(w, hi - lo)], T.subst(body, {vs[0]: from_atom(w) + lo})))
                r = memo[a] = T.addall(acc)
        return r
    out = []
    for m, c in d.t.items():
        ss = [a for a, x in m[0] if a in sums and a.extra[0][0].dig not in {p.dig for p in pts}]
        if not ss: out.append(from_mono(m, c)); continue
        rest = (tuple((a, x) for a, x in m[0] if a not in ss), m[1])
        e = from_mono(rest, c)
        for a in ss: e = T.mul(e, split(a))
        out.append(e)
    return T.addall(out)

def combine_sums(ctx, d):
    """group the terms of d by the range of their (single) sum factor; a group whose combined body vanishes
    pointwise (z3, all free and bound variables universally quantified) is removed."""
    groups = {}
    rest = []
    for m, c in d.t.items():
        sums = [(a, x) for a, x in m[0] if a.kind == 'sum']
        if len(sums) == 1 and sums[0][1] == 1:
            a = sums[0][0]
            key = tuple(x.dig for x in a.extra[0])
            groups.setdefault(key, []).append((m, c, a))
        else: rest.append(from_mono(m, c))
    out = list(rest)
    for key, items in groups.items():
        dims = items[0][2].extra[0]
        vs = [T.CTX_temp(x) for x in dims]
        body = []
        for m, c, a in items:
            h = a.extra[2]
            b = T._rename(a.extra[1], {T.bvar(h, i): v for i, v in enumerate(vs)})
            r = tuple((x, y) for x, y in m[0] if x is not a)
            body.append(T.scale(T.mono_mul((r, m[1]), b), c))
        tot = T.addall(body)
        tot = renorm(tot)
        if not tot.t: continue
        try:
            r = ctx.check([ctx.z_real(tot) != 0], timeout=4000, vocab=[tot])
        except Exception:
            r = None
        if r == z3.unsat: continue
        out.append(T.sum_over(list(zip(vs, dims)), tot))
    return T.addall(out)
