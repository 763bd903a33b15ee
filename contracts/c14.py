"""Graph pyramids.  A multiresolution: an arbitrary number of levels, level k having an arbitrary number N(k) of vertices,
an arbitrary symmetric Laplacian and, for k > 0, an arbitrary enumeration of the vertices kept from level k-1.
Contracts of the callees: filtering with one kernel is a linear map of the signal that depends on the graph, the kernel, the
method and the order only (C08, C10); kron_reduction is a function of the matrix and of the vertices it is given (C13).
The loops over the levels are cut by the invariant that the last array computed is the approximation of its level."""
from pyvc.values import SymSeq, mk, elem
from pyvc.loops import Levels
from .common import *

class Reduction(dict):
    """what a level records about its reduction"""
    def __init__(self, s, k): super().__init__(level=mk(k - 1, 'i')); self.s, self.k = s, k
    def __missing__(self, x):
        if x == 'idx': self[x] = self.s.idx(self.k).arr(0); return self[x]
        raise KeyError(x)
class Multi:
    def __init__(s, h, levels=None):
        s.h = h
        s.levels = h.size('levels', 0) if levels is None else lift(levels)
        s.memo, s.maps, s.krons, s.used = {}, {}, {}, []
        s.F = h.get('pygsp.filters.filter:Filter')
        s.red = h.ld.load('pygsp.reduction')
        s.Gs = SymSeq(s.levels + 1, s.graph) if s.levels.const() is None else [s.graph(num(k)) for k in range(int(s.levels.const()) + 1)]
    # ------------------------------------------------------------------ levels
    def size(s, k):
        """number of vertices; a level that is reduced further has at least two"""
        k = lift(k); key = ('size', k.dig)
        if key not in s.memo: s.memo[key] = T.var(f'N{len(s.memo)}', 'int')
        N = s.memo[key]
        T.CTX.assume(T.le(1, N)); T.CTX.assume(T.one_minus(T.mul(T.lt(k, s.levels), T.lt(N, 2))))
        return N
    N = size
    def graph(s, k):
        k = lift(k); key = ('graph', k.dig); N = s.size(k)
        if key not in s.memo:
            h = s.h; m = len(s.memo)
            s.memo[key] = G = object.__new__(h.get('pygsp.graphs.graph:Graph')); G._pyvc_stub = True
            G.n_vertices = G.N = mk(N, 'i'); G.L = h.sparse(f'L{m}', N, symmetric=True, stored='any'); G.L0 = G.L.e
            G.lap_type = 'combinatorial'; G._lmax = G._lmax_method = G._U = G._e = G._coherence = G._D = None; G.signals = {}
            G.logger = h.get('pygsp.utils:build_logger')('x'); G.level = m
            G.mr = {'idx': SArr.make([N], lambda i: i, 'i'), 'orig_idx': SArr.make([N], lambda i: i, 'i')} if k.const() == 0 else Reduction(s, k)
        return s.memo[key]
    def idx(s, k):
        """enumeration of the vertices of level k-1 that level k keeps"""
        k = lift(k); key = ('kept', k.dig)
        if key not in s.memo:
            m = len(s.memo); kept = s.h.fn(f'kept{m}', 1, 'b'); v = T.CTX_temp(s.N(k - 1))
            s.memo[key] = V.opaque_enum([s.N(k - 1)], [v], T.ind_p(kept, from_atom(v)), s.N(k)), (lambda i: T.ind_p(kept, i))
        return s.memo[key][0]
    def kept(s, k): s.idx(k); return s.memo['kept', lift(k).dig][1]
    # ------------------------------------------------------------------ contracts of the callees
    def linear(s, G, kern, opts):
        """matrix of the filter with this kernel"""
        x = T.var('canonical', 'real')
        y = elem(kern(mk(x, 'f')))
        key = (G.level,) + tuple((k, elem(v).dig if isinstance(v, (Sc, int)) else v) for k, v in sorted(opts.items()))
        same = s.maps.setdefault(key, [])
        for z, f in same:
            if z.dig == y.dig: break
        else:
            for z, f in same:
                if T.CTX.prove_zero(z - y)[0]: break
            else:
                f = s.h.fn(f'H{G.level}_{len(s.maps)}_{len(same)}', 2); same.append((y, f))
        return lambda i, j: T.app(f, i, j)
    def filtering(s, flt, sig, method='chebyshev', order=30):
        if len(flt._kernels) != 1: raise T.Unsupported('more than one filter')
        s.h.en.contracts_used.add('Filter.filter: a linear map given by the graph, the kernel, the method and the order (C08, C10)')
        H = s.linear(flt.G, flt._kernels[0], dict(method=method, order=order)); N = flt.G.n_vertices.e
        sig = V.to_sarr(sig)
        if sig.ndim not in (1, 2): raise T.Unsupported('signal of that rank')
        if not T.CTX.prove_zero(sig._shape[0] - N)[0]: raise T.Unsupported('a signal of another size')
        n = sig._shape[1] if sig.ndim == 2 else num(1)
        sig = sig.copy()
        val = lambda i, c: sum1(N, lambda j: T.mul(H(i, j), sig.get([j, c] if sig.ndim == 2 else [j])))
        return SArr.make([N, n, num(1)], lambda i, c, z: val(i, c), 'f').squeeze()
    def kron(s, L, ind):
        s.h.en.contracts_used.add('kron_reduction: a function of the matrix and of the vertices to keep (C13)')
        if not isinstance(L, SSp): raise T.Unsupported('reduction of something else than a matrix')
        ind = V.to_sarr(ind); n = ind._shape[0]
        a, b = T.var('canon0', 'int'), T.var('canon1', 'int')
        key = (L.get(a, b).dig, ind.get([a]).dig, n.dig)
        if key not in s.krons: s.krons[key] = s.h.fn(f'K{len(s.krons)}', 2, sym=T.CTX.prove_zero(L.get(a, b) - L.get(b, a))[0])     # symmetric: C13
        f = s.krons[key]
        return SSp.make([n, n], lambda i, j: T.app(f, i, j), 'f', None, 'csr')
    def __enter__(s):
        s.old = s.F.filter, s.red.kron_reduction
        s.F.filter = lambda flt, sig, method='chebyshev', order=30: s.filtering(flt, sig, method, order)
        s.F.analyze = s.F.filter
        s.red.kron_reduction = s.kron
        return s
    def __exit__(s, *a):
        s.F.filter, s.red.kron_reduction = s.old
        del s.F.analyze
        return False
    # ------------------------------------------------------------------ specification
    def green(s, k, eps, opts): return s.linear(s.graph(k), lambda x: 1. / (eps + x), opts)
    def interpolated(s, k, x, eps, opts):
        """values on level k interpolated from x(a, c), the values on the vertices of level k+1"""
        G = s.graph(k); E = s.idx(k + 1); M = s.N(k + 1); g = s.green(k, eps, opts)
        L = SSp.make([s.N(k), s.N(k)], lambda i, j: T.app(G.L.fn, i, j) + T.mul(elem(eps), T.eq(i, j)), 'f', None, 'csr')
        K = s.kron(L, E.arr(0))
        kept = s.kept(k + 1)
        return lambda i, c: sum1(s.N(k), lambda j: T.mul(T.mul(kept(j), g(i, j)), sum1(M, lambda b: T.mul(K.get(E.rank(j), b), x(b, c)))))
def signal(h, s, cols):
    N = s.N(num(0))
    if cols is None: f = h.vec('f', [N]); return f, num(1), lambda i, c: T.app(f.fn, i)
    n = h.size('n', 1) if cols == 'n' else lift(cols)
    f = h.vec('f', [N, n]); return f, n, lambda i, c: T.app(f.fn, i, c)
def bank(h, s, how):
    if how == 'default': return {}, lambda k: (lambda x: 1. / (2 * x + 1))
    g = h.fn('g', 2); K = lambda k: Kern(g, lift(k))
    if how == 'callable': return {'h_filters': K(0)}, lambda k: K(0)
    if how == 'one': return {'h_filters': [K(0)]}, lambda k: K(0)
    return {'h_filters': SymSeq(s.levels, K) if s.levels.const() is None else [K(k) for k in range(int(s.levels.const()))]}, K
def params(h, given):
    """interpolation parameters"""
    if not given: return {}, 0.005, dict(method='chebyshev', order=30)
    eps = h.real('eps'); h.assume(T.lt(0, eps)); e = mk(eps, 'f')
    o = dict(order=mk(h.size('order', 0), 'i'), method=given)
    return dict(reg_eps=e, **o), e, o
def analysis(cols, how, given, levels=None):
    def run(h):
        with Multi(h, levels) as s:
            f, n, f0 = signal(h, s, cols); fe = f.e
            kw, flt = bank(h, s, how); par, eps, opts = params(h, given)
            A = h.fn('approximation', 3)
            fam = lambda k: f0 if lift(k).const() == 0 else (lambda i, c: T.app(A, lift(k), i, c))
            el = lambda k: SArr.make([s.N(k), n], fam(k), 'f')
            def step(k, x, p, u=None):
                u = fam(k) if u is None else u
                h.shape('shape of the next approximation', x, [s.N(k + 1), n])
                a, c, i = h.idx(s.N(k + 1)), h.idx(n), h.idx(s.N(k))
                H = s.linear(s.graph(k), flt(k), opts); E = s.idx(k + 1)
                low = lambda a, c: sum1(s.N(k), lambda j: T.mul(H(E.fns[0](a), j), u(j, c)))
                h.eq('the next approximation is the low-pass filtered one restricted to the kept vertices', x.get([a, c]), low(a, c))
                h.shape('shape of the prediction error', p, [s.N(k), n])
                h.eq('the prediction error is the difference to the interpolation', p.get([i, c]), u(i, c) - s.interpolated(k, low, eps, opts)(i, c))
                for q in (k, k + 1): h.eq('the Laplacians are unmodified', s.graph(q).L.e, s.graph(q).L0)
                return low
            h.en.for_specs = [Levels(el, step, lambda k: SArr.make([s.N(k), n], lambda i, c: T.app(A, k, i, c), 'f'))]
            ca, pe = s.red.pyramid_analysis(s.Gs, f, **kw, **par)
            h.en.functions |= {'pygsp.reduction:pyramid_analysis', 'pygsp.reduction:interpolate', 'pygsp.reduction:_analysis'}
            ln = lambda x: elem(x.sym_len()) if hasattr(x, 'sym_len') else num(len(x))
            h.eq('number of approximations', ln(ca), s.levels + 1); h.eq('number of prediction errors', ln(pe), s.levels)
            h.shape('shape of the first approximation', ca[0], [s.N(num(0)), n])
            i, c = h.idx(s.N(num(0))), h.idx(n)
            h.eq('the first approximation is the signal', h.at(ca[0], i, c), f0(i, c))
            if levels:
                u = f0
                for k in range(levels): u = step(num(k), V.to_sarr(ca[k + 1]), V.to_sarr(pe[k]), u)
            h.eq('signal unmodified', f.e, fe)
    return run
def synthesis(cols, given, levels=None):
    def run(h):
        with Multi(h, levels) as s:
            n = h.size('n', 1) if cols == 'n' else lift(cols)
            par, eps, opts = params(h, given)
            A = h.fn('approximation', 3); P = s.levels
            fam = lambda k: (lambda i, c: T.app(A, lift(k), i, c))
            el = lambda k: SArr.make([s.N(P - k), n], fam(P - k), 'f')
            def error(k):
                u, w = fam(k), fam(lift(k) + 1); I = s.interpolated(lift(k), w, eps, opts)
                return SArr.make([s.N(k), n], lambda i, c: u(i, c) - I(i, c), 'f')
            pe = SymSeq(P, error) if P.const() is None else [error(num(k)) for k in range(int(P.const()))]
            cap = SArr.make([s.N(P), n], fam(P), 'f'); cap0 = cap.e
            def step(k, x, p):
                q = P - 1 - k
                h.shape('shape of the reconstruction at the next finer level', x, [s.N(q), n])
                i, c = h.idx(s.N(q)), h.idx(n)
                h.eq('the approximation of the next finer level is recovered', x.get([i, c]), fam(q)(i, c))
            h.en.for_specs = [Levels(el, step)]
            rec, ca = s.red.pyramid_synthesis(s.Gs, cap, pe, **par)
            h.en.functions |= {'pygsp.reduction:pyramid_synthesis', 'pygsp.reduction:interpolate', 'pygsp.reduction:_analysis'}
            ln = lambda x: elem(x.sym_len()) if hasattr(x, 'sym_len') else num(len(x))
            N0 = s.N(num(0)); i, c = h.idx(N0), h.idx(n)
            h.shape('reconstruction: shape', rec, [N0, n]); h.eq('the signal is recovered', h.at(rec, i, c), fam(0)(i, c))
            h.eq('number of approximations', ln(ca), P + 1)
            ks = [T.CTX_temp(P + 1)] if P.const() is None else range(int(P.const()) + 1)
            for k in ks:
                k = from_atom(k) if P.const() is None else num(k)
                x = ca[mk(k, 'i')] if P.const() is None else ca[int(k.const())]
                i = h.idx(s.N(k)); h.shape('approximation: shape', x, [s.N(k), n]); h.eq('the approximations are recovered', h.at(x, i, c), fam(k)(i, c))
            h.eq('coarsest approximation unmodified', cap.e, cap0)
    return run
def interp(cols, given):
    def run(h):
        with Multi(h) as s:
            par, eps, opts = params(h, given)
            if not given: opts['order'] = 100
            k = num(0); M = s.N(num(1)); h.assume(T.lt(0, s.levels))
            E = s.idx(num(1)); n = num(1) if cols is None else h.size('n', 1) if cols == 'n' else lift(cols)
            x = h.vec('x', [M] + ([n] if cols is not None else [])); x0 = x.e
            X = lambda a, c: T.app(x.fn, a) if cols is None else T.app(x.fn, a, c)
            G = s.graph(k)
            r = s.red.interpolate(G, x, E.arr(0), **par)
            h.en.functions.add('pygsp.reduction:interpolate')
            i, c = h.idx(s.N(k)), h.idx(n)
            h.shape('shape', r, [s.N(k), n]); h.eq('Green kernel applied to the reduced operator of the values', h.at(r, i, c), s.interpolated(k, X, eps, opts)(i, c))
            h.eq('values unmodified', x.e, x0); h.eq('Laplacian unmodified', G.L.e, G.L0)
    return run
def rejected(h):
    with Multi(h, 3) as s:
        N = s.N(num(0)); f = h.vec('f', [N])
        g = h.fn('g', 2); K = lambda k: Kern(g, lift(k))
        pa = s.red.pyramid_analysis
        h.raises('a number of filters other than one or the number of levels is rejected', ValueError, pa, s.Gs, f, h_filters=[K(0), K(1)])
        M = h.size('M', 1); h.assume(T.ne(M, N), 'M != N')
        h.raises('a signal of another size is rejected', ValueError, pa, s.Gs, h.vec('b', [M]))
def harnesses():
    for cols in (None, 1, 'n'):
        for how in ('default', 'callable', 'one', 'list'): yield f'analysis[{cols} columns,{how}]', analysis(cols, how, 'chebyshev' if how in ('one', 'list') else '')
        yield f'analysis[{cols} columns,exact]', analysis(cols, 'list', 'exact')
        yield f'interpolate[{cols} columns]', interp(cols, ''); yield f'interpolate[{cols} columns,parameters]', interp(cols, 'chebyshev')
    for cols in (1, 'n'):
        for given in ('', 'chebyshev', 'exact'): yield f'synthesis[{cols} columns,{given or "default"}]', synthesis(cols, given)
    for lv in (0, 1, 2):
        yield f'analysis[{lv} levels]', analysis('n', 'list', 'chebyshev', lv)
        yield f'synthesis[{lv} levels]', synthesis('n', 'chebyshev', lv)
    yield 'rejected input', rejected
