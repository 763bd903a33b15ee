from pyvc import terms as T, values as V
from pyvc.terms import num, from_atom, lift
from pyvc.values import SArr, Sc, mk, elem
from .common import *

def bank(h, name='g', G=None, n=None):
    Nf, g, ks = bank_kernels(h, name, n)
    F = h.get('pygsp.filters.filter:Filter')
    G = GraphStub() if G is None else G
    return F(G, ks), Nf, g, G, ks
def points(h, dims, kind='f'):
    sh = [h.size('m%d' % i, 1) for i in range(dims)]
    return sh, h.vec('x', sh, kind)
def sumsq(h, g, Nf, x): return sum1(Nf, lambda k: T.power(g(k, x), 2))

def evaluate(dims, call, kind='f'):
    def run(h):
        f, Nf, g, G, ks = bank(h)
        sh, x = points(h, dims, kind); x0 = x.e
        y = f(x) if call else f.evaluate(x)
        h.shape('shape', y, [Nf] + sh)
        k = h.idx(Nf); ix = [h.idx(d) for d in sh]
        h.eq('evaluate stacks the kernels', h.at(y, k, *ix), g(k, x.get(ix)))
        h.eq('points unmodified', x.e, x0)
        h.eq('number of filters', elem(f.n_filters), Nf); h.eq('Nf', elem(f.Nf), Nf); h.eq('features out', elem(f.n_features_out), Nf); h.check('features in', f.n_features_in == 1)
        h.eq('len', elem(V.dim_out(elem(f.__len__()))), Nf)
    return run
def single(h):
    """a bare kernel is a bank of one"""
    f = h.fn('g', 1)
    class K1:
        def __call__(self, x): return SArr.make(x._shape, lambda *ix: T.app(f, x.get(list(ix))), 'f')
    F = h.get('pygsp.filters.filter:Filter')(GraphStub(), K1())
    n = h.size('m', 1); x = h.vec('x', [n]); y = F.evaluate(x)
    h.shape('shape', y, [num(1), n]); i = h.idx(n)
    h.eq('value', h.at(y, num(0), i), T.app(f, x.get([i])))
    h.check('one filter', F.n_filters == 1 and F.Nf == 1 and len(F._kernels) == 1)
def index_int(neg):
    def run(h):
        f, Nf, g, G, ks = bank(h)
        j = h.idx(Nf, 'key'); key = j - Nf if neg else j
        s = f[mk(key, 'i')]
        h.check('indexing keeps the graph', s.G is G); h.check('one filter', s.n_filters == 1)
        n = h.size('m', 1); x = h.vec('x', [n]); y = s.evaluate(x); i = h.idx(n)
        h.shape('shape', y, [num(1), n]); h.eq('value', h.at(y, num(0), i), g(j, x.get([i])))
    return run
def index_slice(n, sl):
    """numbers of filters up to 6 and every slice (Python's own list slicing does the work)"""
    def run(h):
        f, Nf, g, G, ks = bank(h, n=n)
        s = f[sl]; want = list(range(n))[sl]
        h.check('indexing keeps the graph', s.G is G); h.check('number of filters', s.n_filters == len(want) and s.Nf == len(want))
        m = h.size('m', 1); x = h.vec('x', [m]); i = h.idx(m)
        if want:
            y = s.evaluate(x); h.shape('shape', y, [num(len(want)), m])
            for a, b in enumerate(want): h.eq(f'kernel {a}', h.at(y, num(a), i), g(num(b), x.get([i])))
    return run
def union(na, nb):
    def run(h):
        f, Na, g, G, ks = bank(h, 'g', n=na); f2, Nb, g2, G2, ks2 = bank(h, 'k', n=nb)
        u = f + f2
        h.check('graph of the first', u.G is G); h.eq('number of filters', elem(u.n_filters), Na + Nb)
        m = h.size('m', 1); x = h.vec('x', [m]); i = h.idx(m)
        if na is None:
            a, b = h.idx(Na), h.idx(Nb)
            h.eq('first bank', h.at(V.to_sarr(u._kernels[mk(a, 'i')](x)), i), g(a, x.get([i])))
            h.eq('second bank', h.at(V.to_sarr(u._kernels[mk(Na + b, 'i')](x)), i), g2(b, x.get([i])))
        else:
            y = u.evaluate(x); h.shape('shape', y, [num(na + nb), m])
            for a in range(na): h.eq(f'kernel {a}', h.at(y, num(a), i), g(num(a), x.get([i])))
            for a in range(nb): h.eq(f'kernel {na + a}', h.at(y, num(na + a), i), g2(num(a), x.get([i])))
        h.eq('operands unchanged', elem(f.n_filters) + elem(f2.n_filters), Na + Nb)
        h.check('not a filter', f.__add__(3) is NotImplemented)
    return run
def on_graph(h):
    """calling a bank with a graph moves it there"""
    Graph = h.get('pygsp.graphs.graph:Graph'); G2 = object.__new__(Graph)
    f, Nf, g, G, ks = bank(h); r = f(G2)
    h.check('graph', r.G is G2 and r._kernels is f._kernels); h.eq('number of filters', elem(r.n_filters), Nf)
def complement(dims, bound):
    def run(h):
        f, Nf, g, G, ks = bank(h)
        sh, x = points(h, dims); ix = [h.idx(d) for d in sh]
        S = lambda jx: sumsq(h, g, Nf, x.get(jx))
        if bound == 'given':
            B = h.real('B')
            c = f.complement(frame_bound=mk(B, 'f'))
        else: c = f.complement()
        h.check('one filter on the same graph', c.n_filters == 1 and c.G is G)
        feasible = True
        if bound == 'given':
            try: y = c.evaluate(x)
            except ValueError: feasible = False
            if not feasible:      # only if some point exceeds the bound
                for pt in [[]] + h.points():
                    if len(pt) == dims: h.assume(T.le(S(pt), B))
                h.unreachable('a feasible bound is not rejected'); return
        else: y = c.evaluate(x)
        h.shape('shape', y, [num(1)] + sh)
        h.red_facts(ix)
        tot = S(ix) + T.power(h.at(y, num(0), *ix), 2)
        if bound == 'given':
            h.eq('the sum of squares is the bound', tot, B); h.true('bound is feasible', T.le(S(ix), B))
        else:
            jx = [h.idx(d) for d in sh]; h.red_facts(jx)
            h.eq('the sum of squares is constant', tot, S(jx) + T.power(h.at(y, num(0), *jx), 2))
            h.true('it is an upper bound', T.le(S(jx), tot))
    return run
def bounds(given):
    def run(h):
        f, Nf, g, G, ks = bank(h)
        if given: sh, x = points(h, given); a, b = f.estimate_frame_bounds(x)
        else:
            lm = h.real('lmax'); h.assume(T.le(0, lm)); G.lmax = mk(lm, 'f'); a, b = f.estimate_frame_bounds(); sh = [num(1000)]
            x = SArr.make(sh, lambda i: T.mul(i, lm) / 999, 'f')
        ix = [h.idx(d) for d in sh]; S = lambda jx: sumsq(h, g, Nf, x.get(jx))
        h.red_facts(ix)
        h.true('lower bound', T.le(elem(a), S(ix))); h.true('upper bound', T.le(S(ix), elem(b)))
        for nm, v in (('lower', a), ('upper', b)): h.attained(f'{nm} bound is attained', v, S)
    return run
def inverse(n):
    """kernel i of the inverse is g_i over the sum of squares: with the analysis/synthesis contract of C08 the
    composition multiplies every spectral component by sum_i g_i (g_i / sum_j g_j^2) = 1"""
    def run(h):
        f, Nf, g, G, ks = bank(h, n=n); lm = h.real('lmax'); h.assume(T.lt(0, lm)); G.lmax = mk(lm, 'f')
        r = f.inverse()
        h.check('same graph', r.G is G); h.eq('as many filters', elem(r.n_filters), Nf)
        m = h.size('m', 1); x = h.vec('x', [m]); y = r.evaluate(x)
        h.shape('shape', y, [Nf, m]); k, i = h.idx(Nf), h.idx(m); xi = x.get([i])
        S = sumsq(h, g, Nf, xi)
        h.eq('inverse kernels', h.at(y, k, i), T.mul(g(k, xi), T.power(S, -1)))
        h.assume(T.ne(S, 0))
        h.eq('synthesis undoes analysis on every spectral component', sum1(Nf, lambda a: T.mul(g(a, xi), h.at(y, a, i))), num(1))
    return run
def harnesses():
    yield 'inverse', inverse(None)
    for n in (1,): yield f'inverse[{n}]', inverse(n)
    for d in (0, 1, 2, 3):
        yield f'evaluate[{d}d]', evaluate(d, False)
    yield 'call[2d]', evaluate(2, True)
    yield 'evaluate[1d, integer points]', evaluate(1, False, 'i')
    yield 'single kernel', single
    yield 'index[i]', index_int(False)
    yield 'index[-i]', index_int(True)
    for n in (1, 3):
        for sl in (slice(None), slice(1, None), slice(None, None, -1), slice(0, 2), slice(1, 1)): yield f'index[{n} filters, {sl.start}:{sl.stop}:{sl.step}]', index_slice(n, sl)
    yield 'union', union(None, None)
    yield 'union[2+3]', union(2, 3)
    yield 'call with a graph', on_graph
    for d in (0, 1, 2):
        for b in ('given', None): yield f'complement[{d}d,{b}]', complement(d, b)
    for d in (0, 1, 2, 3): yield f'frame bounds[{d or "default"}]', bounds(d)
