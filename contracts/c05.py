from pyvc.values import SBool
from .common import *

Q = ('is_directed', 'is_weighted', 'has_loops')
def wanted(q, w):
    """(binders, indicator): the predicate holds iff the indicator holds for some indices"""
    if q == 'is_directed': return 2, lambda i, j: T.ne(w(i, j), w(j, i))
    if q == 'is_weighted': return 2, lambda i, j: T.mul(T.ne(w(i, j), 0), T.ne(w(i, j), 1))
    return 1, lambda i: T.ne(w(i, i), 0)
def decided(h, name, r, N, n, ind):
    """r == (some index tuple satisfies the indicator), whichever way the path decided"""
    r = bool(r)
    if r:
        pts = [p for p in h.points()]
        for p in pts:
            for ix in ([p] if len(p) == n else []) + ([[p[0]] * n] if len(p) == 1 else []) + ([[x] for x in p] if n == 1 else []):
                ok, how = T.CTX.prove_ind(ind(*ix), timeout=3000)
                if ok: h.en.oblige(f'{name} is reported: there is a witness', True, how); return r
        h.en.oblige(f'{name} is reported: there is a witness', False, 'no witness among the points of the path')
    else:
        ix = [h.idx(N) for _ in range(n)]
        h.true(f'{name} is not reported: there is no witness', T.one_minus(ind(*ix)))
    return r
def predicates(fmt, kind, order):
    def run(h):
        G, N, w, W = make_graph(h, fmt, kind)
        seen = {}
        for q in order + order:
            n, ind = wanted(q, w)
            if q in seen: h.check(f'{q} asked again: the same answer', bool(getattr(G, q)()) == seen[q], 'answers'); continue
            seen[q] = decided(h, q, getattr(G, q)(), N, n, ind)
    return run
def harnesses():
    for fmt, kind in (('dense', 'f'), ('csr', 'f'), ('csc', 'f'), ('coo', 'f'), ('lil', 'f'), ('dense', 'i'), ('csr', 'i'), ('dense', 'b'), ('csr', 'b')):
        yield f'predicates[{fmt},{kind}]', predicates(fmt, kind, Q)
    yield 'predicates[csr,f, other order]', predicates('csr', 'f', Q[::-1])
def connected(fmt, kind, symmetric, before=()):
    """every search marks exactly the vertices reachable from its starting points (invariant), the starting point is
    one vertex s, and the answer is: all marked by every search; the relations searched are the edges and, for a
    directed graph, also the reversed edges.  That this is strong connectivity is lemma `connected_iff` (Lean)."""
    def run(h):
        from pyvc.whiles import Worklist
        h.en.while_specs = [Worklist()]; h.en.searches = []
        G, N, w, W = make_graph(h, fmt, kind, symmetric=symmetric)
        for q in before: getattr(G, q)()
        r = bool(G.is_connected())
        ss = h.en.searches; rel = []
        for k, s in enumerate(ss):
            a, b = h.idx(N), h.idx(N)
            h.true('the search starts from vertices', T.one_minus(T.mul(s['s0'](a), T.one_minus(T.in_range(a, N)))))
            h.true('the search starts from one vertex', T.one_minus(T.mul(T.mul(s['s0'](a), s['s0'](b)), T.ne(a, b))))
            if k: h.true('all searches start from the same vertex', T.one_minus(T.mul(T.mul(s['s0'](a), ss[0]['s0'](b)), T.ne(a, b))))
            h.true('no vertex is marked beforehand', T.one_minus(s['v0'].get([a])))
            f = T.CTX.prove_ind(iff(s['A'](a, b), T.ne(w(a, b), 0)))[0]; t = T.CTX.prove_ind(iff(s['A'](a, b), T.ne(w(b, a), 0)))[0]
            h.check('the search follows the edges or the reversed edges', f or t, f'forward {f}, backward {t}')
            rel.append((f, t))
        n = h.idx(N)
        if r:
            for s in ss: h.true('connected: every vertex is reached', s['R'](n))
            h.check('connected: searched along the edges', any(f for f, t in rel), str(rel))
            h.check('connected: searched along the reversed edges', any(t for f, t in rel), str(rel))
        else:
            ok = False
            for p in h.points():
                if len(p) == 1 and T.CTX.prove_ind(T.one_minus(ss[-1]['R'](p[0])))[0]: ok = True
            h.check('not connected: some vertex is not reached', ok, 'no such vertex among the points of the path')
        for q in before: getattr(G, q)()
        k = len(ss)
        h.check('asked again: the same answer', bool(G.is_connected()) == r or len(h.en.searches) > k, 'answers')
    return run
def iff(a, b): return T.one_minus(T.lor(T.mul(a, T.one_minus(b)), T.mul(b, T.one_minus(a))))
_predicates = harnesses
def harnesses():
    yield from _predicates()
    for fmt, kind in (('csr', 'f'), ('dense', 'f'), ('csr', 'i'), ('csr', 'b')):
        yield f'is_connected[{fmt},{kind}]', connected(fmt, kind, None)
    for q in Q: yield f'is_connected[csr,b after {q}]', connected('csr', 'b', None, (q,))
