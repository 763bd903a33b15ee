"""Chebyshev filtering.  Ghost sequence: P_0 = x, P_1 = Lt x, P_{k+2} = 2 Lt P_{k+1} - P_k with
Lt = (L - a I)/a, a = lmax/2, i.e. P_k = T_k(Lt) x; the loop of cheby_op is proved to compute it (invariant), for
every number of coefficients, scales and signals."""
from .common import *
from .c10 import bank
from pyvc.loops import Rec
elem, mk = V.elem, V.mk

def graph(h):
    G, N, Lfn = laplacian_stub(h)
    lm = h.real('lmax'); h.assume(T.lt(0, lm)); G._lmax = mk(lm, 'f')
    return G, N, (lambda i, j: T.app(Lfn, i, j)), lm
def cheb(h, G, N, L, lm, x, dims):
    a = lm / 2
    def Lt(f): return lambda ix: T.mul(T.power(a, -1), sum1(N, lambda j: T.mul(L(ix[0], j), f([j] + ix[1:]))) - T.mul(a, f(ix)))
    base0 = lambda ix: x.get(ix)
    r = Rec('P', dims, [base0, Lt(base0)], lambda S, k, ix: 2 * Lt(lambda jx: S(1, jx))(ix) - S(0, ix))
    h.en.rec_specs = [r]
    return r
def cheby(dims, scales, M0, form):
    def run(h):
        G, N, L, lm = graph(h)
        S = h.size('S', 0)
        sh = [N] + ([S] if dims == 2 else [])
        x = h.vec('x', sh); x0 = x.e
        r = cheb(h, G, N, L, lm, x, dims)
        M = h.size('M', 2) if M0 is None else num(M0)
        K = h.size('K', 1) if scales is None else num(scales)
        c = h.vec('c', [M] if form == '1d' else [K, M]); c0 = c.e
        if form == 'list': c_ = [SArr.make([M], lambda m, k=k: c.get([num(k), m]), 'f') for k in range(scales)]
        else: c_ = c
        C = (lambda k, m: c.get([m])) if form == '1d' else (lambda k, m: c.get([k, m]))
        f = h.get('pygsp.filters.approximations:cheby_op')
        y = f(G, c_, x)
        h.shape('shape', y, [T.mul(K, N)] + sh[1:])
        k, i = h.idx(K), h.idx(N); t = [h.idx(d) for d in sh[1:]]
        ix = [i] + t
        want = C(k, num(0)) / 2 * r.base[0](ix) + T.mul(C(k, num(1)), r.base[1](ix))
        if M0 is None: want = want + sum1(M - 2, lambda m: T.mul(C(k, m + 2), r.unfold(m + 2, ix)))
        else:
            for m in range(2, M0): want = want + T.mul(C(k, num(m)), unroll(r, m, ix))
        h.eq('Chebyshev expansion', h.at(y, T.mul(k, N) + i, *t), want)
        h.eq('signal unmodified', x.e, x0); h.eq('coefficients unmodified', c.e, c0)
    return run
def unroll(r, m, ix):
    if m < r.order: return r.base[m](list(ix))
    return r.step(lambda o, jx: unroll(r, m - r.order + o, jx), num(m - r.order), list(ix))
def too_short(h):
    G, N, L, lm = graph(h); x = h.vec('x', [N]); K = h.size('K', 1)
    f = h.get('pygsp.filters.approximations:cheby_op')
    h.raises('a single coefficient is rejected', TypeError, f, G, h.vec('c', [num(1)]), x)
    h.raises('a single coefficient per scale is rejected', TypeError, f, G, h.vec('c2', [K, num(1)]), x)

def cosv(x): return T.app(V.COS, x)
def node(N, j): return cosv(T.mul(from_atom(V.PI), T.mul(j + T.Q(1, 2), T.power(N, -1))))
def coeff(n, given):
    def run(h):
        lm = h.real('lmax'); h.assume(T.lt(0, lm)); G = GraphStub(); G.lmax = mk(lm, 'f')
        f, Nf, g, _, ks = bank(h, G=G, n=n)
        m = h.size('m', 1); Q_ = h.size('Nq', 1) if given else m + 1
        fn = h.get('pygsp.filters.approximations:compute_cheby_coeff')
        kw = dict(m=mk(m, 'i'))
        if given: kw['N'] = mk(Q_, 'i')
        c = fn(f, **kw)
        o, k = h.idx(m + 1), h.idx(Nf)
        if n == 1: k = num(0)
        a = lm / 2
        def want(k): return 2 * T.mul(T.power(Q_, -1), sum1(Q_, lambda j: T.mul(g(k, T.mul(a, node(Q_, j)) + a), cosv(T.mul(T.mul(from_atom(V.PI), o), T.mul(j + T.Q(1, 2), T.power(Q_, -1)))))))
        if T.CTX.decide('eq', Nf - 1) is True or n == 1:
            c = V.to_sarr(c); one = c.ndim == 1
            h.shape('shape', c, [m + 1] if one else [num(1), m + 1]); h.eq('coefficient', h.at(c, *([o] if one else [num(0), o])), want(num(0)))
        else:
            row = c[mk(k, 'i')]
            h.eq('one row per filter', elem(V.dim_out(c.n)) if isinstance(c, V.SymSeq) else num(len(c)) if isinstance(c, list) else c._shape[0], Nf)
            h.shape('shape', row, [m + 1]); h.eq('coefficient', h.at(row, o), want(k))
        # one filter on request
        r = fn(f, i=mk(k, 'i'), **kw)
        h.eq('coefficient of one filter', h.at(V.to_sarr(r), o), want(k))
    return run

def filtering(code, via, n):
    """filter(method='chebyshev') against the contracts of compute_cheby_coeff and cheby_op"""
    def run(h):
        G, N, L, lm = graph(h)
        f, Nf, g, _, ks = bank(h, G=G, n=n)
        S = h.size('S', 1)
        order = h.size('order', 1); M = order + 1
        Cf, Pf = h.fn('C', 2), h.fn('Pm', 3)
        ap = h.en.loader.load('pygsp.filters.approximations'); seen = []
        op = lambda k, s, i, t: sum2(M, N, lambda m, j: T.mul(T.app(Cf, k, m), T.mul(T.app(Pf, m, i, j), s.get([j] + t))))
        def coeffs(f_, m=30, N=None, **kw):
            seen.append(elem(m)); 
            if f_ is not f or N is not None: raise T.Unsupported('other call of compute_cheby_coeff')
            row = lambda k: SArr.make([elem(m) + 1], lambda a: T.app(Cf, k, a), 'f')
            if 'i' in kw: return row(elem(kw['i']))
            if T.CTX.decide('eq', Nf - 1) is True or n == 1: return row(num(0))
            return V.SymSeq(Nf, row) if n is None else [row(num(k)) for k in range(n)]
        def cheby_op(G_, c, s, **kw):
            if G_ is not G: raise T.Unsupported('another graph')
            c = V.to_sarr(c); s = V.to_sarr(s); K = num(1) if c.ndim == 1 else c._shape[0]
            # rows of the coefficient table, as the expansion of the contract
            P = lambda m, i, t: sum1(N, lambda j: T.mul(T.app(Pf, m, i, j), s.get([j] + t)))
            cc = (lambda k, m: c.get([m])) if c.ndim == 1 else (lambda k, m: c.get([k, m]))
            def val(r, *t):
                k, i = V.int_div(r, N) if K.const() != 1 else num(0), T.imod(r, N) if K.const() != 1 else r
                return sum1(c._shape[-1], lambda m: T.mul(cc(k, m), P(m, i, list(t))))
            return SArr.make([T.mul(K, N)] + list(s._shape[1:]), val, 'f')
        old = ap.compute_cheby_coeff, ap.cheby_op
        ap.compute_cheby_coeff, ap.cheby_op = coeffs, cheby_op
        h.en.contracts_used.add('cheby_op, compute_cheby_coeff (contracts above)')
        try:
            dims = {'N': [N], 'N1': [N, num(1)], 'NS': [N, S], 'NS1': [N, S, num(1)], 'NSF': [N, S, Nf], 'NF': [N, Nf]}[code]
            if code == 'NS': h.assume(T.ne(S, Nf))
            x = h.vec('x', dims); x0 = x.e
            y = getattr(f, via)(x, order=mk(order, 'i'))
        finally: ap.compute_cheby_coeff, ap.cheby_op = old
        h.eq('signal unmodified', x.e, x0)
        for q in seen: h.eq('the order is passed on', q, order)
        i, s, k = h.idx(N), h.idx(S), h.idx(Nf)
        analysis = code in ('N', 'N1', 'NS', 'NS1') or (code in ('NF', 'NSF') and T.CTX.decide('eq', Nf - 1) is True)
        cols = {'N': num(1), 'N1': num(1), 'NF': num(1)}.get(code, S)
        if cols.const() == 1: s = num(0)
        at = {'N': lambda j, s, k: [j], 'N1': lambda j, s, k: [j, num(0)], 'NS': lambda j, s, k: [j, s], 'NS1': lambda j, s, k: [j, s, num(0)], 'NSF': lambda j, s, k: [j, s, k], 'NF': lambda j, s, k: [j, k]}[code]
        H = lambda k, ix: sum2(M, N, lambda m, j: T.mul(T.app(Cf, k, m), T.mul(T.app(Pf, m, i, j), x.get(ix(j)))))
        if analysis: sh, ix = squeezed(h, [N, cols, Nf], [i, s, k]); want = H(k, lambda j: at(j, s, num(0)))
        else: sh, ix = squeezed(h, [N, cols], [i, s]); want = sum1(Nf, lambda q: H(q, lambda j: at(j, s, q)))
        h.shape('shape', y, sh)
        h.eq('analysis' if analysis else 'synthesis', h.at(y, *ix), want)
    return run
def harnesses():
    for d in (1, 2):
        yield f'cheby_op[{d}d, one scale]', cheby(d, 1, None, '1d')
        yield f'cheby_op[{d}d, any number of scales]', cheby(d, None, None, '2d')
        yield f'cheby_op[{d}d, list of 3 scales]', cheby(d, 3, None, 'list')
        for M in (2, 3, 4): yield f'cheby_op[{d}d, {M} coefficients]', cheby(d, None, M, '2d')
    yield 'cheby_op rejects', too_short
    for n in (None, 1):
        for g in (False, True): yield f'coefficients[{n or "any"} filters{", nodes given" if g else ""}]', coeff(n, g)
    for code in ('N', 'N1', 'NS', 'NS1', 'NSF', 'NF'): yield f'filter[{code}]', filtering(code, 'filter', None)
    yield 'analyze[NS]', filtering('NS', 'analyze', None)
    yield 'synthesize[NSF]', filtering('NSF', 'synthesize', None)
