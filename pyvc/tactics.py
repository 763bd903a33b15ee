"""Case split on a literal occurring in a goal (sound: both cases are proved under their hypothesis)."""
from . import terms as T
from .terms import E, num, from_atom

def bound(fv): return any(v.name.startswith('#') for v in fv)
def literals(e):
    """literals (comparisons without bound variables) anywhere in e: {lit: [nested occurrences, occurrences]}"""
    cnt = {}; seen = set()
    def go(x, nested):
        if (x.dig, nested) in seen: return
        seen.add((x.dig, nested))
        for m in x.t:
            for l in m[1]:
                if l.kind != 'p' and not bound(l.fv):
                    c = cnt.setdefault(l, [0, 0]); c[1] += 1; c[0] += nested
                if l.kind != 'p': go(l.e, True)
            for a, _ in m[0]:
                for y in a.args:
                    if isinstance(y, E): go(y, True)
    go(e, False)
    return cnt
def replace(e, at, val):
    """e with the atom at replaced by val, renormalised"""
    def rb_e(x): return T.addall([T.scale(rb_m(m), c) for m, c in x.t.items()])
    def rb_m(m):
        acc = num(1)
        for l in m[1]: acc = T.mul(acc, rb_l(l))
        for a, x in m[0]: acc = T.mul(acc, T.power(rb_a(a), x))
        return acc
    def rb_l(l):
        if l.kind == 'p': return T.ind_p(l.atom.fn, *[rb_e(x) for x in l.atom.args])
        x = rb_e(l.e)
        return T.ind_eq0(x) if l.kind == 'eq' else T.ind_lt0(x)
    def rb_a(a):
        if a is at: return val
        if a.kind == 'app': return T.app(a.fn, *[rb_e(x) for x in a.args])
        if a.kind == 'pw': return rb_e(a.args[0])
        return from_atom(a)
    return rb_e(e)
def save(c):
    return (len(c.hyps), len(c.hyp_src), dict(c.lower), set(c.nonneg_vars), set(c.nonneg_exprs), set(c.nonzero_exprs), c._hv, set(c.unit), dict(c.upper1))
def restore(c, s):
    n, m, lo, nv, ne, nz, hv, un, up = s
    del c.hyps[n:]; del c.hyp_src[m:]
    c.lower, c.nonneg_vars, c.nonneg_exprs, c.nonzero_exprs, c._hv, c.unit, c.upper1 = lo, nv, ne, nz, hv, un, up
    c.bump()
def split(c, goals, prove, depth):
    """prove every goal of the list (kept together so that the substitution of an equality reaches all of them)"""
    from .prover import renorm
    cnt = {}
    for g in goals:
        for l, (a, b) in literals(g).items():
            x = cnt.setdefault(l, [0, 0]); x[0] += a; x[1] += b
    if not cnt: return False
    l = max(cnt, key=lambda l: (cnt[l][0], cnt[l][1], l.dig))
    if any(k.kind != l.kind and k.kind != 'p' and k.e == l.e for k in cnt) and l.kind != 'p':
        cases = [('lt', T.ind_lt0(l.e)), ('eq', T.ind_eq0(l.e)), ('gt', num(1) - T.ind_lt0(l.e) - T.ind_eq0(l.e))]
    else:
        ind = T.from_mono(((), frozenset([l]))); cases = [(l.kind, ind), ('not', num(1) - ind)]
    for kind, hyp in cases:
        if not hyp.t: continue
        s = save(c)
        try:
            c.assume(hyp)
            gs = goals
            if kind == 'eq':
                t = [m for m in l.e.t if m != T._EMPTY]
                if len(t) == 1 and not t[0][1] and len(t[0][0]) == 1 and t[0][0][0][1] == 1 and not bound(t[0][0][0][0].fv):
                    gs = [replace(g, t[0][0][0][0], num(-l.e.t.get(T._EMPTY, 0) / l.e.t[t[0]])) for g in gs]
            import z3
            if not prove([renorm(g) for g in gs], depth):
                if c.check([], timeout=500) != z3.unsat: return False
        finally: restore(c, s)
    return True
def abstract(c, g, timeout=2000):
    """every outermost application of a function of reals becomes an arbitrary (positive) number"""
    import z3
    ats = []
    def go(x):
        for m in x.t:
            for l in m[1]:
                if l.kind != 'p': go(l.e)
            for a, _ in m[0]:
                if a.kind == 'app' and a.fn.pos and a not in ats: ats.append(a)
                elif a.kind == 'pw': go(a.args[0])
    go(g)
    if not ats: return False
    f = z3.Solver(); f.set('timeout', timeout)
    for a in ats:
        v = T.fresh('abs', 'real'); c.nonneg_vars.add(v); f.add(z3.Real(v.name) > 0)
        g = replace(g, a, from_atom(v))
    f.add(z3.Not(c.z_ind(g)))
    return f.check() == z3.unsat
def ind_cases(c, ind, depth=6, timeout=2500):
    import z3
    def prove(gs, d):
        g = gs[0]
        k = g.const()
        if k is not None: return k == 1
        if not any(n for n, _ in literals(g).values()) or d <= 0:
            return abstract(c, g) or c.check([z3.Not(c.z_ind(g))], timeout=timeout, vocab=[g]) == z3.unsat
        return split(c, [g], prove, d - 1)
    return prove([ind], depth)
def zero_cases(c, d, depth=6):
    def prove(gs, n):
        g = gs[0]
        if not g.t: return True
        if n <= 0 or not literals(g): return c.prove_zero(g, timeout=2500, depth=4)[0]
        return split(c, [g], prove, n - 1)
    return prove([d], depth)
