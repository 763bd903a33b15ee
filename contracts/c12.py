from pyvc import terms as T
from pyvc.values import SArr

METHODS = ['average', 'maximum', 'fill', 'tril', 'triu']

def spec(method, w, i, j):
    a, b = w(i, j), w(j, i)
    if method == 'average': return (a + b) / 2
    if method == 'maximum': return T.maximum(a, b)
    if method == 'fill':
        fa = T.ite(T.lt(0, a), a, b); fb = T.ite(T.lt(0, b), b, a)
        return (fa + fb) / 2
    if method == 'tril': return T.ite(T.lt(i, j), b, a)
    if method == 'triu': return T.ite(T.lt(i, j), a, b)

def harness(method, sparse, kind):
    def run(h):
        f = h.get('pygsp.utils:symmetrize')
        N = h.size('N', 0)
        nonneg = method in ('fill', 'tril', 'triu')
        W = h.sparse('W', N, kind=kind, nonneg=nonneg, stored='any') if sparse else h.vec('W', [N, N], kind, nonneg)
        w0 = W.e; fn = W.fn
        st0 = W.st if sparse else None
        R = f(W, method)
        h.shape('shape', R, [N, N])
        i, j = h.idx(N), h.idx(N)
        w = lambda i, j: T.ind_p(fn, i, j) if kind == 'b' else T.app(fn, i, j)
        h.eq('value', h.at(R, i, j), spec(method, w, i, j))
        h.eq('symmetric', h.at(R, i, j), h.at(R, j, i))
        h.eq('input unmodified', W.e, w0)
        if sparse: h.eq('input pattern unmodified', W.st, st0)
        if sparse: h.check('result is sparse', not isinstance(R, SArr))
    return run

def nonsquare(sparse):
    def run(h):
        f = h.get('pygsp.utils:symmetrize')
        N, M = h.size('N', 0), h.size('M', 0)
        h.assume(T.ne(N, M))
        W = h.sparse('W', N, M) if sparse else h.vec('W', [N, M])
        for m in METHODS: h.raises('non-square rejected', ValueError, f, W, m)
    return run
def unknown(h):
    f = h.get('pygsp.utils:symmetrize')
    N = h.size('N', 0)
    for m in ('sum', None, 'AVERAGE', 'Tril', 0): h.raises('unknown method rejected', ValueError, f, h.vec('W', [N, N]), m)

def harnesses():
    for m in METHODS:
        for s in (False, True):
            for k in 'fib':
                yield f'symmetrize[{m},{"sparse" if s else "dense"},{k}]', harness(m, s, k)
    yield 'non-square[dense]', nonsquare(False)
    yield 'non-square[sparse]', nonsquare(True)
    yield 'unknown method', unknown
