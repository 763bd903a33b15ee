"""Exact filtering: y[i, s, k] = sum_l U[i,l] g_k(e_l) sum_j U[j,l] x[j,s] (analysis), the sum over features
(synthesis); (U, e) is whatever compute_fourier_basis left (C07)."""
from .common import *
from .c10 import bank
elem = V.elem

def response(N, U, e, g, k, i, xf):
    """[g_k(L) x]_i for the spectral response of kernel k"""
    return sum1(N, lambda l: T.mul(T.mul(U(i, l), g(k, e(l))), sum1(N, lambda j: T.mul(U(j, l), xf(j)))))

def setup(h, n=None, N=None):
    G, N, U, e = spectral_graph(h, N)
    f, Nf, g, _, ks = bank(h, G=G, n=n)
    return G, N, U, e, f, Nf, g
def run_shape(code, via):
    def run(h):
        G, N, U, e, f, Nf, g = setup(h)
        S = h.size('S', 1)
        dims = {'N': [N], 'N1': [N, num(1)], 'NS': [N, S], 'NS1': [N, S, num(1)], 'NSF': [N, S, Nf], 'NF': [N, Nf]}[code]
        if code == 'NS': h.assume(T.ne(S, Nf))
        if code == 'NSF' and via == 'filter': h.assume(T.ne(Nf, 1))
        x = h.vec('x', dims); x0 = x.e
        y = (f @ x) if via == 'matmul' else getattr(f, via)(x, method='exact')
        h.eq('signal unmodified', x.e, x0)
        i, s, k = h.idx(N), h.idx(S), h.idx(Nf)
        analysis = code in ('N', 'N1', 'NS', 'NS1') or (code in ('NF', 'NSF') and T.CTX.decide('eq', Nf - 1) is True)
        cols = {'N': num(1), 'N1': num(1), 'NF': num(1)}.get(code, S)
        if cols.const() == 1: s = num(0)
        at = {'N': lambda j, s, k: [j], 'N1': lambda j, s, k: [j, num(0)], 'NS': lambda j, s, k: [j, s], 'NS1': lambda j, s, k: [j, s, num(0)], 'NSF': lambda j, s, k: [j, s, k], 'NF': lambda j, s, k: [j, k]}[code]
        if analysis:
            sh, ix = squeezed(h, [N, cols, Nf], [i, s, k])
            want = response(N, U, e, g, k, i, lambda j: x.get(at(j, s, num(0))))
        else:
            sh, ix = squeezed(h, [N, cols], [i, s])
            want = sum1(Nf, lambda q: response(N, U, e, g, q, i, lambda j: x.get(at(j, s, q))))
        h.shape('shape', y, sh)
        h.eq('synthesis' if not analysis else 'analysis', h.at(y, *ix), want)
    return run
def history(how):
    """the Fourier basis in force at the time of the call decides, whatever was filtered before"""
    def run(h):
        G, N, U, e, f, Nf, g = setup(h)
        h.assume(T.lt(1, N)); h.assume(T.lt(1, Nf))
        x = h.vec('x', [N]); i, k = h.idx(N), h.idx(Nf)
        if how == 'filter': f.filter(x, method='exact')
        elif how == 'evaluate': f.evaluate(G.e)
        elif how == 'bounds': f.estimate_frame_bounds(G.e)
        elif how == 'frame': f.compute_frame(method='exact')
        U2, e2 = h.fn('U2', 2), h.fn('lam2', 1)      # another Laplacian: another basis
        G._U = SArr.make([N, N], lambda a, b: T.app(U2, a, b), 'f'); G._e = SArr.make([N], lambda a: T.app(e2, a), 'f')
        y = f.filter(x, method='exact')
        h.shape('shape', y, [N, Nf])
        h.eq('filtering after a change of Laplacian', h.at(y, i, k), response(N, lambda a, b: T.app(U2, a, b), lambda a: T.app(e2, a), g, k, i, lambda j: x.get([j])))
    return run
def adjoint(h):
    """<analyze(x), c> = <x, synthesize(c)>"""
    G, N, U, e, f, Nf, g = setup(h)
    h.assume(T.lt(1, N)); h.assume(T.lt(1, Nf)); S = h.size('S', 2)
    x = h.vec('x', [N, S, num(1)]); c = h.vec('c', [N, S, Nf])
    a = f.analyze(x, method='exact'); b = f.synthesize(c, method='exact')
    s = h.idx(S)
    h.eq('adjoint', sum2(N, Nf, lambda i, k: T.mul(h.at(a, i, s, k), c.get([i, s, k]))), sum1(N, lambda i: T.mul(x.get([i, s, num(0)]), h.at(b, i, s))))
def rejects(h):
    G, N, U, e, f, Nf, g = setup(h)
    M, S, Q = h.size('M', 1), h.size('S', 1), h.size('Q', 1)
    h.assume(T.ne(M, N))
    x = h.vec('x', [M])
    for m in ('exact', 'chebyshev', 'other'): h.raises(f'wrong number of vertices [{m}]', ValueError, f.filter, x, method=m)
    y = h.vec('y', [N])
    for m in ('', 'Exact', 'lanczos', None): h.raises(f'unknown method {m!r}', ValueError, f.filter, y, method=m)
    h.assume(T.ne(Q, Nf)); h.assume(T.ne(Q, 1))
    h.raises('wrong number of features', ValueError, f.filter, h.vec('z', [N, S, Q]), method='exact')
    h.raises('too many dimensions', ValueError, f.filter, h.vec('w', [N, S, Nf, Nf]), method='exact')
    h.raises('analysis of several features', ValueError, f.analyze, h.vec('z2', [N, S, Q]), method='exact')
    h.raises('synthesis needs one feature per filter', ValueError, f.synthesize, h.vec('z3', [N, S, Q]), method='exact')
    h.raises('synthesis needs one feature per filter, two dimensions', ValueError, f.synthesize, h.vec('z4', [N, Q]), method='exact')
def harnesses():
    for code in ('N', 'N1', 'NS', 'NS1', 'NSF', 'NF'): yield f'filter[{code}]', run_shape(code, 'filter')
    for code in ('N', 'N1', 'NS', 'NS1'): yield f'analyze[{code}]', run_shape(code, 'analyze')
    for code in ('NSF', 'NF'): yield f'synthesize[{code}]', run_shape(code, 'synthesize')
    yield 'adjoint', adjoint
    for how in ('filter', 'evaluate', 'bounds', 'frame'): yield f'history[{how}, new basis, filter]', history(how)
    yield 'rejects', rejects
