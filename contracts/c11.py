from pyvc import terms as T, values as V
from pyvc.terms import num, from_atom, lift
from pyvc.values import SArr, Sc, mk, elem
from .common import *
from .c22 import setup

def stacked(h, name, dims=1, params=()):
    G, lm, sh, x = setup(h, dims)
    bs = [T.CTX_temp(lift(d)) for d in sh]
    F = h.get('pygsp.filters.%s:%s' % (name.lower(), name))(G, *params)
    return G, lm, sh, x, F
def total(h, F, x, sh, ix):
    y = F.evaluate(x); n = V.dim_e(y._shape[0]) if hasattr(V, 'dim_e') else y._shape[0]
    return y, sum1(n, lambda k: T.power(h.at(y, k, *ix), 2))

def with_complement(name, param, dims=1):
    """kernel and complement: the kernel never exceeds one, so that the complement exists and makes the sum one"""
    def run(h):
        ps = ()
        if param == 'a': a = h.real('a'); h.assume(T.lt(0, a)); ps = (mk(a, 'f'),)
        elif param == 'degree': ps = (mk(h.size('degree', 1), 'i'),)
        elif param is not None: ps = (param,)
        G, lm, sh, x, F = stacked(h, name, dims, ps)
        h.check('two filters on the graph', F.n_filters == 2 and F.G is G)
        ok = True
        try: y = F.evaluate(x)
        except ValueError: ok = False
        if not ok:
            for at, bs, body, wb, ws in list(T.CTX.reds):
                b = T.subst(body, {v: from_atom(w) for (v, _), w in zip(bs, ws)})
                if h.true('the squared kernel is at most one', T.le(b, 1)): h.assume(T.le(from_atom(at), 1))
            h.unreachable('the complement exists'); return
        h.shape('shape', y, [num(2)] + sh); ix = [h.idx(d) for d in sh]
        h.red_facts(ix)
        h.eq('tight', T.power(h.at(y, num(0), *ix), 2) + T.power(h.at(y, num(1), *ix), 2), num(1))
    return run
def sum_on(h, name, n, body, lo, hi):
    """sum over k < n of body(k) whose terms vanish but for lo <= k <= hi (obligations), then the sum of these"""
    from pyvc import tactics
    k = h.idx(n)
    for side in ([T.lt(k, lo), T.lt(hi, k)] if hi is not None else [num(1)]):
        s = tactics.save(T.CTX); h.know(side)
        h.zero(f'{name}: no other kernel is active', body(k))
        tactics.restore(T.CTX, s)
    if hi is None: return num(0)
    return T.addall([T.mul(T.mul(T.le(0, lo + q), T.lt(lo + q, n)), body(lo + q)) for q in range(int((lift(hi) - lift(lo)).const()) + 1)])
def point(h, x): return SArr.make([num(1)], lambda i: x, 'f')
def uniform(h, G, lm, gaps):
    """an arbitrary point of [0, lmax] as lmax (j + f) / gaps with 0 <= f < 1"""
    j = h.idx(gaps + 1, 'j'); f = h.real('f')
    h.know(T.le(0, f)); h.know(T.lt(f, 1)); h.know(T.le(j + f, gaps))
    return T.mul(T.mul(lm, j + f), T.power(gaps, -1)), j, f
def bank_of(h, name, n, lm, **kw):
    G = GraphStub(); G.lmax = mk(lm, 'f')
    F = h.get('pygsp.filters.%s:%s' % (name.lower(), name))(G, Nf=n, **kw)
    h.check('graph', F.G is G); h.eq('number of filters', elem(F.n_filters), elem(n))
    return F
def itersine(n):
    def run(h):
        lm = h.real('lmax'); h.know(T.lt(0, lm)); M = h.size('M', 1); Nf = M + 1 if n is None else num(n)
        x, j, f = uniform(h, None, lm, M)
        F = bank_of(h, 'Itersine', mk(Nf, 'i') if n is None else n, lm)
        y = F.evaluate(point(h, x)); h.shape('shape', y, [Nf, num(1)])
        body = lambda k: T.power(h.at(y, k, num(0)), 2)
        h.eq('tight', sum_on(h, 'sum', Nf, body, j - 1, j + 1), num(1))
    return run
def halfcosine(h):
    lm = h.real('lmax'); h.know(T.lt(0, lm)); M = h.size('M', 1); Nf = M + 2
    x, j, f = uniform(h, None, lm, M)
    F = bank_of(h, 'HalfCosine', mk(Nf, 'i'), lm)
    y = F.evaluate(point(h, x)); h.shape('shape', y, [Nf, num(1)])
    body = lambda k: T.power(h.at(y, k, num(0)), 2)
    h.eq('tight', sum_on(h, 'sum', Nf, body, j - 1, j + 2), num(9) / 8)
def dyadic(name, lo, base):
    """scales base/lmax 2^k: an arbitrary point lies below the first band, or is y / scales[i] with i the largest
    index such that y >= lo; then y < 2 lo unless i is the last index"""
    def run(case):
        def go(h):
            lm = h.real('lmax'); h.know(T.lt(0, lm)); Nf = h.size('Nf', 2); p2 = lambda k: T.app(V.POWN, num(2), k)
            s = lambda i: T.mul(T.mul(num(base), T.power(lm, -1)), p2(Nf - 2 - i))
            y = h.real('y'); h.know(T.le(0, y))
            if case == 'low': i = num(0); h.know(T.lt(y, lo))
            elif case == 'top': i = Nf - 2; y = num(2 * lo)
            else:
                if case == 'first band': i = num(0)
                else: i = h.idx(Nf - 1, 'i'); h.know(T.le(1, i))
                h.know(T.le(lo, y)); h.know(T.lt(y, 2 * lo))
            x = T.mul(y, T.power(s(i), -1))
            F = bank_of(h, name, mk(Nf, 'i'), lm)
            k = h.idx(Nf - 1); h.eq('scales', elem(F.scales[mk(k, 'i')]), s(k))
            v = F.evaluate(point(h, x)); h.shape('shape', v, [Nf, num(1)])
            body = lambda k: T.power(h.at(v, k + 1, num(0)), 2)
            tot = sum_on(h, 'sum', Nf - 1, body, *((None, None) if case == 'low' else (i - 1, i)))
            h.eq('tight', tot + T.power(h.at(v, num(0), num(0)), 2), num(1))
        return go
    return run
def harnesses():
    for nm in ('Held', 'Simoncelli', 'Papadakis'):
        yield f'{nm.lower()}[default]', with_complement(nm, None)
        yield f'{nm.lower()}[a]', with_complement(nm, 'a')
    for d in (0, 1): yield f'regular[{d}]', with_complement('Regular', d)
    yield 'regular[any degree]', with_complement('Regular', 'degree')
    yield 'itersine[n filters]', itersine(None)
    yield 'half cosine[n filters]', halfcosine
    for case in ('low', 'first band', 'in a band', 'top'):
        yield f'meyer[n filters, {case}]', dyadic('Meyer', T.Q(2, 3), T.Q(4, 3))(case)
        yield f'simple tight[n filters, {case}]', dyadic('SimpleTight', T.Q(1, 4), T.Q(1, 2))(case)
