"""Frame matrix and localisation.  For any method, the callee `filter` is replaced by its contract: linear, each
kernel acting through a symmetric matrix H_k (U g_k(Lambda) U^T for exact filtering, C08; a polynomial in the
symmetric Laplacian for Chebyshev filtering, C09).  With the exact method the real filter is also run."""
from .common import *
from .c10 import bank, sumsq
from .c08 import setup, response
elem = V.elem

def linear_filter(h, f, N, Nf):
    H = h.fn('H', 3)
    def A(k, i, j):      # symmetric in (i, j)
        return (T.app(H, k, i, j) + T.app(H, k, j, i)) / 2
    calls = []
    def filt(s, **kw):
        calls.append(kw)
        s = V.to_sarr(s)
        if s.ndim == 3: sh = [N, s._shape[1], Nf]; val = lambda i, c, k: sum1(N, lambda j: T.mul(A(k, i, j), s.get([j, c, num(0)])))
        else: sh = [N, num(1), Nf]; val = lambda i, c, k: sum1(N, lambda j: T.mul(A(k, i, j), s.get([j])))
        return SArr.make(sh, val, 'f').squeeze()
    f.filter = filt
    h.en.contracts_used.add('Filter.filter (contract of C08, C09: linear, symmetric response)')
    return A, calls

def frame(kw, name):
    def run(h):
        G, N, U, e, f, Nf, g = setup(h)
        A, calls = linear_filter(h, f, N, Nf)
        F = getattr(f, name)(**kw)
        h.check('options reach the filter', calls == [kw], str(calls))
        h.shape('shape', F, [T.mul(N, Nf), N])
        k, s, i = h.idx(Nf), h.idx(N), h.idx(N)
        h.eq('row (k, s) is the transposed response to the impulse s', h.at(F, T.mul(k, N) + s, i), A(k, i, s))
        x = h.vec('x', [N])
        h.eq('frame times signal is analysis', sum1(N, lambda j: T.mul(h.at(F, T.mul(k, N) + s, j), x.get([j]))), sum1(N, lambda j: T.mul(A(k, s, j), x.get([j]))))
    return run
def frame_exact(h):
    G, N, U, e, f, Nf, g = setup(h)
    F = f.compute_frame(method='exact')
    h.shape('shape', F, [T.mul(N, Nf), N])
    k, s, i = h.idx(Nf), h.idx(N), h.idx(N)
    h.eq('entry', h.at(F, T.mul(k, N) + s, i), sum1(N, lambda l: T.mul(T.mul(U(s, l), g(k, e(l))), U(i, l))))
    x = h.vec('x', [N])
    h.eq('frame times signal is analysis', sum1(N, lambda j: T.mul(h.at(F, T.mul(k, N) + s, j), x.get([j]))), response(N, U, e, g, k, s, lambda j: x.get([j])))
def localize(kw, exact=False):
    def run(h):
        G, N, U, e, f, Nf, g = setup(h)
        if not exact: A, calls = linear_filter(h, f, N, Nf)
        v = h.idx(N, 'vertex')
        y = f.localize(V.mk(v, 'i'), **kw)
        if not exact: h.check('options reach the filter', calls == [kw], str(calls))
        i, k = h.idx(N), h.idx(Nf)
        sh, ix = squeezed(h, [N, Nf], [i, k])
        h.shape('shape', y, sh)
        if exact: want = sum1(N, lambda l: T.mul(T.mul(U(i, l), g(k, e(l))), U(v, l)))
        else: want = A(k, i, v)
        h.eq('localised kernel', h.at(y, *ix), T.mul(T.power(N, T.Q(1, 2)), want))
    return run
def energy(h):
    G, N, U, e, f, Nf, g = setup(h)
    orthonormal(h, G._U.fn_ if hasattr(G._U, 'fn_') else U_fn(G), N)
    h.assume(T.lt(1, N)); h.assume(T.lt(1, Nf))
    x = h.vec('x', [N]); xh = lambda l: sum1(N, lambda j: T.mul(U(j, l), x.get([j])))
    a, b = f.estimate_frame_bounds(G.e)
    c = f.analyze(x, method='exact')
    S = lambda l: sumsq(h, g, Nf, e(l))
    en = sum2(N, Nf, lambda i, k: T.power(h.at(c, i, k), 2))
    nx = sum1(N, lambda j: T.power(x.get([j]), 2))
    h.eq('energy of the coefficients', en, sum1(N, lambda l: T.mul(S(l), T.power(xh(l), 2))))
    h.eq('energy of the signal', nx, sum1(N, lambda l: T.power(xh(l), 2)))
    l = h.idx(N); h.red_facts([l])
    # both energies are sums over l of the same non-negative weights: termwise comparison
    h.true('lower bound, term by term', T.le(T.mul(elem(a), T.power(xh(l), 2)), T.mul(S(l), T.power(xh(l), 2))))
    h.true('upper bound, term by term', T.le(T.mul(S(l), T.power(xh(l), 2)), T.mul(elem(b), T.power(xh(l), 2))))
def U_fn(G):
    return next(a.fn for m in G._U.e.t for a, _ in m[0] if a.kind == 'app')
def harnesses():
    for kw in ({}, dict(method='exact'), dict(method='chebyshev', order=12)): yield f'frame {kw}', frame(kw, 'compute_frame')
    yield 'toarray', frame({}, 'toarray')
    yield 'frame, exact filter', frame_exact
    for kw in ({}, dict(method='exact'), dict(order=7)): yield f'localize {kw}', localize(kw)
    yield 'localize, exact filter', localize(dict(method='exact'), True)
    yield 'energy', energy
