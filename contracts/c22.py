from pyvc import terms as T, values as V
from pyvc.terms import num, from_atom, lift
from pyvc.values import SArr, Sc, mk, elem
from .common import *

def exp(x): return T.app(V.EXP, lift(x))
def setup(h, dims=1, basis=False):
    """a graph known by its largest eigenvalue (contract of C06) and points in [0, lmax]"""
    G = GraphStub(); lm = h.real('lmax'); h.assume(T.lt(0, lm)); G.lmax = mk(lm, 'f')
    sh = [h.size('m%d' % i, 1) for i in range(dims)]
    x = h.vec('x', sh, nonneg=True)
    bs = [T.CTX_temp(lift(d)) for d in sh]; at = x.get([from_atom(b) for b in bs])
    h.assume_forall(list(zip(bs, map(lift, sh))), T.mul(T.le(0, at), T.le(at, lm)))
    if basis:
        N = h.size('N', 1); e = h.vec('e', [N], nonneg=True); k = T.CTX_temp(lift(N))
        h.assume_forall([(k, lift(N))], T.mul(T.le(0, e.get([from_atom(k)])), T.le(e.get([from_atom(k)]), lm)))
        G.e = e; G.N = G.n_vertices = mk(N, 'i'); return G, lm, sh, x, N, e
    return G, lm, sh, x
def seq(h, name, nonneg=True, n=None):
    n = h.size('n_' + name, 1) if n is None else lift(n)
    f = h.fn(name, 1, nonneg=nonneg)
    s = V.SymSeq(n, lambda k: mk(T.app(f, k), 'f')) if n.const() is None else [mk(T.app(f, num(k)), 'f') for k in range(int(n.const()))]
    return n, (lambda k: T.app(f, lift(k))), s
def outcome(h, F, G, Nf, sh, x, spec, note=True):
    h.check('graph', F.G is G); h.eq('number of filters', elem(F.n_filters), Nf)
    if lift(Nf).const() == 0: return
    x0 = x.e; y = F.evaluate(x); k = h.idx(Nf); ix = [h.idx(d) for d in sh]
    h.shape('shape', y, [lift(Nf)] + sh)
    c = lift(Nf).const()
    if c is None: h.eq('documented formula', h.at(y, k, *ix), spec(k, x.get(ix)))
    else:
        for a in range(int(c)): h.eq(f'documented formula, kernel {a}', h.at(y, num(a), *ix), spec(num(a), x.get(ix)))
    h.eq('points unmodified', x.e, x0)

def heat(dims, normalize, n, scalar=False):
    def run(h):
        if normalize: G, lm, sh, x, N, e = setup(h, dims, True)
        else: G, lm, sh, x = setup(h, dims)
        if scalar: s1 = T.app(h.fn('scale', 1, nonneg=True), num(0)); S = mk(s1, 'f'); s = lambda k: s1; Nf = num(1)
        else: Nf, s, S = seq(h, 's', n=n)
        F = h.get('pygsp.filters.heat:Heat')(G, S, normalize)
        def spec(k, xi):
            r = exp(-T.mul(T.mul(s(k), xi), T.power(lm, -1)))
            if normalize: r = T.mul(r, T.power(sum1(N, lambda i: T.power(exp(-T.mul(T.mul(s(k), e.get([i])), T.power(lm, -1))), 2)), T.Q(-1, 2)))
            return r
        outcome(h, F, G, Nf, sh, x, spec)
    return run
def wave(dims, nt, ns, scalar=''):
    def run(h):
        G, lm, sh, x = setup(h, dims)
        if nt == 'n': n, t, Ts = seq(h, 'time'); _, v, Vs = seq(h, 'speed', n=n)
        else:
            a, t, Ts = seq(h, 'time', n=nt); b, v, Vs = seq(h, 'speed', n=ns); n = a if nt else b
            if nt == 1 and ns != 1: t1 = t; t = lambda k: t1(num(0)); n = b
            if ns == 1 and nt != 1: v1 = v; v = lambda k: v1(num(0))
            if 't' in scalar: Ts = Ts[0]
            if 's' in scalar: Vs = Vs[0]
        W = h.get('pygsp.filters.wave:Wave')
        ok = True
        try: F = W(G, time=Ts, speed=Vs)
        except ValueError: ok = False
        if not ok:
            k = T.CTX_temp(n); h.assume_forall([(k, n)], T.lt(v(from_atom(k)), 2))
            for p in h.points():
                for y in p: h.assume(T.lt(v(y), 2))
            h.unreachable('admissible speeds are not rejected'); return
        k = h.idx(n); h.true('speeds below two', T.lt(v(k), 2))
        outcome(h, F, G, n, sh, x, lambda k, xi: T.app(V.COS, T.mul(t(k), T.app(V.ARCCOS, num(1) - T.mul(T.mul(T.power(v(k), 2), xi), T.power(lm, -1)) / 2))))
    return run
def wave_mismatch(h):
    G, lm, sh, x = setup(h)
    _, t, Ts = seq(h, 'time', n=2); _, v, Vs = seq(h, 'speed', n=3)
    h.raises('different lengths', ValueError, h.get('pygsp.filters.wave:Wave'), G, time=Ts, speed=Vs)
def band(h, lo, hi):
    a = {}
    b0, b1 = h.real('band_min'), h.real('band_max')
    if lo != 'default': a['band_min'] = mk(b0, 'f') if lo else None
    if hi != 'default': a['band_max'] = mk(b1, 'f') if hi else None
    if hi == 'default': b1 = lift(T.Q(1, 5)); 
    return a, b0, b1
def rect(dims, lo, hi):
    def run(h):
        G, lm, sh, x = setup(h, dims); a, b0, b1 = band(h, lo, hi)
        F = h.get('pygsp.filters.rectangular:Rectangular')(G, **a)
        def spec(k, xi):
            z = T.mul(xi, T.power(lm, -1)); r = num(1)
            if hi: r = T.mul(r, T.le(z, b1))
            if lo is True: r = T.mul(r, T.le(b0, z))
            return r
        outcome(h, F, G, num(1), sh, x, spec)
    return run
def expwin(dims, lo, hi, slope):
    def run(h):
        G, lm, sh, x = setup(h, dims); a, b0, b1 = band(h, lo, hi)
        if slope: s = h.real('slope'); h.assume(T.lt(0, s)); a['slope'] = mk(s, 'f')
        F = h.get('pygsp.filters.expwin:Expwin')(G, **a)
        h.check('graph', F.G is G); h.check('number of filters', F.n_filters == 1)
        y = F.evaluate(x); h.shape('shape', y, [num(1)] + sh); ix = [h.idx(d) for d in sh]; v = h.at(y, num(0), *ix)
        h.true('at least 0', T.le(0, v)); h.true('at most 1', T.le(v, 1))
        if bool(lo is True) != bool(hi):
            edge = T.mul(b1 if hi else b0, lm)
            w = F.evaluate(SArr.make([num(1)], lambda i: edge, 'f'))
            h.eq('one half at the band edge', h.at(w, num(0), num(0)), num(1) / 2)
    return run
def mexican(dims, Nf, own, normalize, lp=None):
    def run(h):
        G, lm, sh, x = setup(h, dims); a = dict(normalize=normalize)
        l = h.real('lpfactor'); h.assume(T.lt(0, l))
        a['lpfactor'] = mk(l, 'f')
        if Nf == 'n': n = h.size('Nf', 2); a['Nf'] = mk(n, 'i')
        else: n = lift(Nf); a['Nf'] = Nf
        lmin = T.mul(lm, T.power(l, -1))
        if own: _, s, S = seq(h, 's', n=n - 1); a['scales'] = S
        else:
            lo, hi = T.app(V.LOG, T.mul(num(2), T.power(lmin, -1))), T.app(V.LOG, T.power(lm, -1))   # 1 / lmax is the smallest scale
            def s(k): return exp(lo + T.mul(T.mul(lift(k), hi - lo), T.power(n - 2, -1)))
        F = h.get('pygsp.filters.mexicanhat:MexicanHat')(G, **a)
        sc = (lambda k: elem(F.scales[mk(lift(k), 'i')])) if not own else s
        if not own: k = h.idx(n - 1); h.eq('scales', sc(k), s(k))
        def low(xi): return T.mul(exp(-T.power(T.mul(T.mul(xi, num(5) / 2), T.power(lmin, -1)), 4)), T.mul(lift(T.Q(6, 5)), exp(-1)))
        def bp(k, xi):
            u = T.mul(s(k), xi); r = T.mul(u, exp(-u))
            return T.mul(r, T.power(s(k), T.Q(1, 2))) if normalize else r
        h.check('graph', F.G is G); h.eq('number of filters', elem(F.n_filters), n)
        y = F.evaluate(x); h.shape('shape', y, [n] + sh); ix = [h.idx(d) for d in sh]; xi = x.get(ix)
        h.eq('low-pass', h.at(y, num(0), *ix), low(xi))
        if Nf == 'n': k = h.idx(n - 1); h.eq('band-pass kernels', h.at(y, k + 1, *ix), bp(k, xi))
        else:
            for k in range(Nf - 1): h.eq(f'band-pass kernel {k}', h.at(y, num(k + 1), *ix), bp(num(k), xi))
    return run
def mexican_mismatch(h):
    G, lm, sh, x = setup(h); n, s, S = seq(h, 's', n=3)
    h.raises('wrong number of scales', ValueError, h.get('pygsp.filters.mexicanhat:MexicanHat'), G, Nf=3, scales=S)
def harnesses():
    for nrm in (False, True):
        for n in (None, 1, 3): yield f'heat[{n or "n"} scales, normalize={nrm}]', heat(1, nrm, n)
        yield f'heat[scalar, normalize={nrm}]', heat(2, nrm, None, True)
    yield 'wave[n times, n speeds]', wave(1, 'n', 'n')
    for a, b, s in ((1, 1, 'ts'), (1, 1, ''), (3, 1, 's'), (3, 1, ''), (1, 3, 't'), (1, 3, ''), (3, 3, '')): yield f'wave[{a} times, {b} speeds, scalar {s}]', wave(1, a, b, s)
    yield 'wave[different lengths]', wave_mismatch
    for lo, hi in ((True, True), (True, None), (None, True), (None, None), ('default', 'default')):
        for d in (1, 2): yield f'rectangular[{lo},{hi},{d}d]', rect(d, lo, hi)
        for s in (False, True): yield f'expwin[{lo},{hi},slope={s}]', expwin(1, lo, hi, s)
    for nrm in (False, True):
        yield f'mexican hat[n filters, given scales, normalize={nrm}]', mexican(1, 'n', True, nrm)
        yield f'mexican hat[n filters, default scales, normalize={nrm}]', mexican(1, 'n', False, nrm)
        for n in (2, 4): yield f'mexican hat[{n} filters, given scales, normalize={nrm}]', mexican(2, n, True, nrm)
    yield 'mexican hat[wrong number of scales]', mexican_mismatch
