"""Sums over an index that is written block by block: the index set is split into consecutive pieces and the pieces
into equal blocks (u = D*q + r), each a bijection of the index set, so that the sum is the sum over the parts."""
from . import terms as T
from .terms import num, from_atom
from .values import exact_quot

def rewrite(e, f):
    """e with every application rebuilt through f(atom-expression) (sums are opened, so ranges of their indices are known)"""
    memo = {}
    def re(e):
        r = memo.get(e.dig)
        if r is None:
            acc = []
            for m, c in e.t.items():
                x = num(c)
                for a, p in m[0]: x = T.mul(x, T.power(ra(a), p))
                for l in m[1]: x = T.mul(x, rl(l))
                acc.append(x)
            r = memo[e.dig] = T.addall(acc)
        return r
    def rl(l):
        if l.kind == 'p': return T.ind_p(l.atom.fn, *[re(x) for x in l.atom.args])
        x = re(l.e)
        return T.ind_eq0(x) if l.kind == 'eq' else T.ind_lt0(x)
    def ra(a):
        if a.kind == 'app':
            x = f(a.fn, [re(x) for x in a.args])
            return x
        if a.kind == 'pw': return re(a.args[0])
        if a.kind == 'sum':
            dims, vs, body = T.open_sum(a)
            return T.sum_over([(v, re(d)) for v, d in zip(vs, dims)], re(T.from_mono(body)))
        return from_atom(a)
    return re(e)
def wrap(e):
    """imod(x, N) with 0 <= x < 2N is x or x - N"""
    def f(fn, args):
        if fn is T.IMOD:
            x, n = args
            if T.CTX.prove_le(1, n) and T.CTX.prove_le(0, x) and T.CTX.prove_le(x + 1, 2 * n): return x - T.mul(n, T.le(n, x))
        return T.app(fn, *args)
    return rewrite(e, f)

def coeff(e, v):
    """e = c*v + rest with c an expression free of v: (c, rest) or None"""
    c, r = {}, {}
    for m, k in e.t.items():
        f = dict(m[0])
        if v in f:
            if f[v] != 1 or m[1]: return None
            del f[v]; c[(tuple(sorted(f.items(), key=lambda y: y[0].dig)), m[1])] = k
        elif v in T.mono_fv(m): return None
        else: r[m] = k
    return T.E(c), T.E(r)
def cuts(es, u, outer):
    """split points and block sizes suggested by the comparisons with u"""
    pts, sizes, ends = [], [], []; seen = set()
    def add(l, x):
        if x not in l: l.append(x)
    def go(e, bound):
        if (e.dig, bound) in seen or u not in e.fv: return
        seen.add((e.dig, bound))
        for m in e.t:
            for l in m[1]:
                if l.kind == 'p' or u not in l.fv: continue
                go(l.e, bound)
                cr = coeff(l.e, u)
                if cr is None: continue
                co, r = cr[0].const(), cr[1]
                if co not in (1, -1): continue
                tb = [b for b in bound if b in r.fv]
                if l.kind == 'lt' and not tb and not any(v in r.fv for v in outer):
                    add(pts, -r if co == 1 else r + 1)
                if l.kind == 'eq' and not tb and not any(v in r.fv for v in outer):
                    c = -r if co == 1 else r      # u = c: cut off the end it stands for
                    add(ends, c)
                for b in tb:
                    x = coeff(r, b)
                    if x is not None and x[0].const() not in (1, -1): add(sizes, x[0] if not negative(x[0]) else -x[0])
            for a, _ in m[0]:
                if u not in a.fv: continue
                if a.kind == 'app':
                    if a.fn in (T.IDIV, T.IMOD) and u in a.args[0].fv and not (a.args[1].fv & set(bound)): add(sizes, a.args[1])
                    for x in a.args: go(x, bound)
                elif a.kind == 'pw': go(a.args[0], bound)
                elif a.kind == 'sum':
                    dims, vs, body = T.open_sum(a)
                    go(T.from_mono(body), bound + tuple(vs))
    for e in es: go(e, ())
    return pts, sizes, ends
def quotient(d, D):
    """m with d = m*D (the terms of d that D does not divide may add up to D on this path)"""
    m = exact_quot(d, D)
    if m is not None: return m
    a = T.E({k: c for k, c in d.t.items() if exact_quot(T.E({k: c}), D) is not None}); b = d - a
    if not a.t: return None
    return exact_quot(a, D) + 1 if T.CTX.prove_le(b, D) and T.CTX.prove_le(D, b) else None
def negative(e): return all(c < 0 for c in e.t.values())
def split(es, binders, i):
    """one split of the i-th index: [(binders, es)], or None"""
    u, d = binders[i]; rest = binders[:i] + binders[i + 1:]
    if not any(u in e.fv for e in es) or any(u in dd.fv for _, dd in rest): return None
    c = d.const()
    def sub(x, new): return [(rest[:i] + new + rest[i:], [T.subst(e, {u: x}) for e in es])]
    if c is not None and 0 <= c <= 8: return [p for k in range(int(c)) for p in sub(num(k), [])]
    pts, sizes, ends = cuts(es, u, [v for v, _ in rest])
    le = T.CTX.prove_le
    for D in sizes:
        if D.const() is None and len(D.t) == 1:
            (mm, _), = D.t.items(); D = T.E({mm: T.Q(1)})
        m = quotient(d, D) if len(D.t) == 1 else None
        if m is None or m.const() == 1 or not (le(1, D) and le(0, m)): continue
        q, r = T.CTX_temp(m), T.CTX_temp(D)
        return sub(T.mul(D, from_atom(q)) + from_atom(r), [(q, m), (r, D)])
    for p in pts + [num(1) if c == num(0) else c for c in ends if c == num(0) or c + 1 == d]:
        if p.const() is not None and p.const() <= 0 or p == d: continue
        if le(0, p) and le(p, d) and not (le(p, 0) or le(d, p)):
            a, b = T.CTX_temp(p), T.CTX_temp(d - p)
            return sub(from_atom(a), [(a, p)]) + sub(from_atom(b) + p, [(b, d - p)])
    return None
def decompose(es, u, d, limit=64):
    """[(binders, es)]: the parts of the index set of u < d, each with the expressions at that part"""
    todo, done = [([(u, d)], es)], []
    while todo:
        b, es = todo.pop(0)
        for i in range(len(b) - 1, -1, -1):
            x = split(es, b, i) if len(todo) + len(done) < limit else None
            if x is not None: todo = x + todo; break
        else: done.append((b, es))
    return done
