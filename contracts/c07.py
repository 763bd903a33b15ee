"""Fourier basis and transforms.  eigh is replaced by its contract; everything around it is the real code."""
from .common import *
elem, mk = V.elem, V.mk

def basis(h, G, N, Lfn, U, e, calls):
    """postconditions of a full Fourier basis"""
    h.check('a decomposition', len(calls) >= 1)
    a, b = h.idx(N), h.idx(N)
    if calls:
        h.shape('matrix decomposed', calls[-1], [N, N])
        h.eq('the current Laplacian is decomposed', h.at(calls[-1], a, b), T.app(Lfn, a, b))
    eigen_rule(h, Lfn, U, e, N)
    Ua, ea = G.U, G.e
    h.shape('U', Ua, [N, N]); h.shape('e', ea, [N])
    l, m, i = h.idx(N), h.idx(N), h.idx(N)
    ua = lambda i, l: h.at(Ua, i, l)
    h.eq('orthonormal columns', sum1(N, lambda k: T.mul(ua(k, l), ua(k, m))), T.eq(l, m))
    h.eq('eigenvectors', sum1(N, lambda k: T.mul(T.app(Lfn, i, k), ua(k, l))), T.mul(ua(i, l), h.at(ea, l)))
    h.eq('first eigenvalue', h.at(ea, num(0)), num(0))
    h.true('non-decreasing', T.one_minus(T.mul(T.le(l, m), T.lt(h.at(ea, m), h.at(ea, l)))))
    h.eq('largest eigenvalue recorded', elem(G.lmax), h.at(ea, N - 1))
    h.true('largest eigenvalue is an upper bound', T.le(h.at(ea, l), elem(G.lmax)))
    h.red_facts([i, l], [l])
    ab = lambda i, l: T.app(T.ABS, ua(i, l))
    h.true('coherence bounds the entries', T.le(ab(i, l), elem(G.coherence)))
    h.attained('coherence is attained', G.coherence, lambda ix: ab(*ix) if len(ix) == 2 else num(-1))
def prepare(h, lap, dense=False):
    G, N, Lfn = laplacian_stub(h, lap=lap)
    U, e, calls = eigh_contract(h)
    ub = h.real('ub')
    def bound():      # contract of C06
        l = T.CTX_temp(N)
        h.assume_forall([(l, N)], T.le(T.app(e, from_atom(l)), ub)); h.assume(T.le(T.app(e, N - 1), ub))
        return mk(ub, 'f')
    G._get_upper_bound = bound
    h.en.contracts_used.add('_get_upper_bound (C06: at least every eigenvalue)')
    return G, N, Lfn, U, e, calls
def full(lap, how):
    def run(h):
        G, N, Lfn, U, e, calls = prepare(h, lap)
        if how == 'explicit': G.compute_fourier_basis()
        elif how == 'U': G.U
        elif how == 'e': G.e
        elif how == 'coherence': G.coherence
        elif how == 'explicit N': G.compute_fourier_basis(mk(N, 'i'))
        elif how == 'twice': G.compute_fourier_basis(); G.compute_fourier_basis()
        elif how == 'after partial':
            k = h.size('K', 1); h.assume(T.lt(k, N))
            V_, f = h.fn('Upart', 2), h.fn('epart', 1)
            h.assume(T.eq(T.app(f, num(0)), 0))
            i = T.CTX_temp(k); j = T.CTX_temp(k)
            h.assume_forall([(i, k), (j, k)], T.one_minus(T.mul(T.le(from_atom(i), from_atom(j)), T.lt(T.app(f, from_atom(j)), T.app(f, from_atom(i))))))
            def eigsh(L, n, which=None, **kw):
                l = T.CTX_temp(k)
                return SArr.make([elem(n)], lambda a: T.app(f, a), 'f'), SArr.make([N, elem(n)], lambda a, b: T.app(V_, a, b), 'f')
            h.en.hooks['eigsh'] = eigsh
            ub = h.real('ub2'); old = G._get_upper_bound
            def bound():
                h.assume_forall([(T.CTX_temp(k), k)], num(1)); h.assume(T.le(T.app(f, k - 1), ub)); return mk(ub, 'f')
            G._get_upper_bound = bound
            G.compute_fourier_basis(mk(k, 'i'))
            h.shape('partial eigenvalues', G._e, [k]); h.shape('partial basis', G._U, [N, k])
            G._get_upper_bound = old
            G.compute_fourier_basis()
        basis(h, G, N, Lfn, U, e, calls)
    return run
def history(first, then):
    """real graph: the basis answered after a change of Laplacian is the one of the new Laplacian"""
    def run(h):
        other = {'combinatorial': 'normalized', 'normalized': 'combinatorial'}[first]
        G, N, w, W = make_graph(h, 'csr', 'f', True, first)
        if not is_sym_path(G): return h.check('directed graphs are not in scope', True)
        calls = []; ub = h.real('ub')
        def eigh(a, *args, **kw):
            n = len(calls); a = V.to_sarr(a); m = a._shape[0]
            U, e = h.fn(f'U{n}', 2), h.fn(f'lam{n}', 1, nonneg=True)
            calls.append((a.copy(), U, e))
            i, j = T.CTX_temp(m), T.CTX_temp(m)
            h.assume_forall([(i, m), (j, m)], T.one_minus(T.mul(T.le(from_atom(i), from_atom(j)), T.lt(T.app(e, from_atom(j)), T.app(e, from_atom(i))))))
            h.assume(T.eq(T.app(e, num(0)), 0), 'smallest eigenvalue zero')
            return SArr.make([m], lambda l: T.app(e, l), 'f'), SArr.make([m, m], lambda i, l: T.app(U, i, l), 'f')
        h.en.hooks['eigh'] = eigh
        def bound():
            for _, _, e in calls:
                l = T.CTX_temp(N); h.assume_forall([(l, N)], T.le(T.app(e, from_atom(l)), ub)); h.assume(T.le(T.app(e, N - 1), ub))
            return mk(ub, 'f')
        G._get_upper_bound = bound
        h.en.contracts_used.add('_get_upper_bound (C06: at least every eigenvalue)')
        G.compute_fourier_basis()
        G.compute_laplacian(other)
        if then == 'coherence': c = G.coherence
        elif then == 'U': G.U
        elif then == 'e': G.e
        else: G.compute_fourier_basis()
        h.check('one decomposition per Laplacian', len(calls) == 2)
        a, b = h.idx(N), h.idx(N); spec = (lap_comb if other == 'combinatorial' else lap_norm)(w, N)
        M, U, e = calls[-1]
        h.eq('the current Laplacian is decomposed', h.at(M, a, b), spec(a, b))
        h.eq('basis of the current Laplacian', h.at(G.U, a, b), T.app(U, a, b)); h.eq('eigenvalues of the current Laplacian', h.at(G.e, a), V.elem(V.mk(T.app(e, a), 'f')) - T.mul(T.eq(a, 0), T.app(e, num(0))))
        h.eq('largest eigenvalue of the current Laplacian', elem(G.lmax), h.at(G.e, N - 1))
        h.red_facts([a, b], [a])
        ab = lambda i, l: T.app(T.ABS, T.app(U, i, l))
        h.true('coherence of the current basis', T.le(ab(a, b), elem(G.coherence)))
        h.attained('coherence of the current basis is attained', G.coherence, lambda ix: ab(*ix) if len(ix) == 2 else num(-1))
        h.check('the laplacian type', G.lap_type == other)
        G.compute_laplacian(other); n = len(calls); G.U, G.e, G.coherence
        h.check('recomputing the same Laplacian keeps the basis', len(calls) == n)
    return run
def null_vector(h):
    """the Laplacian definition has a null vector (with L = D D^T of C02: smallest eigenvalue zero)"""
    N = h.size('N', 1); w0 = h.fn('W', 2, nonneg=True, sym=True); w = lambda i, j: T.app(w0, i, j)
    i = h.idx(N)
    h.eq('combinatorial: L 1 = 0', sum1(N, lambda j: lap_comb(w, N)(i, j)), num(0))
    d = degree_w(w, N)
    h.eq('normalized: L sqrt(d) = 0', sum1(N, lambda j: T.mul(lap_norm(w, N)(i, j), T.power(d(j), T.Q(1, 2)))), num(0))
def transforms(tail):
    def run(h):
        G, N, U, e = spectral_graph(h, orthonormal=True)
        dims = [N] + [h.size('T%d' % k, 0) for k in range(tail)]
        x = h.vec('x', dims); y = h.vec('y', dims)
        xh, yh = G.gft(x), G.gft(y); z = G.igft(y)
        h.shape('gft', xh, dims); h.shape('igft', z, dims)
        t = [h.idx(d) for d in dims[1:]]; l, i = h.idx(N), h.idx(N)
        h.eq('forward', h.at(xh, l, *t), sum1(N, lambda j: T.mul(U(j, l), x.get([j] + t))))
        h.eq('inverse', h.at(z, i, *t), sum1(N, lambda m: T.mul(U(i, m), y.get([m] + t))))
        h.eq('igft(gft)', h.at(G.igft(xh), i, *t), x.get([i] + t)); h.eq('gft(igft)', h.at(G.gft(z), l, *t), y.get([l] + t))
        h.eq('inner product', sum1(N, lambda m: T.mul(h.at(xh, m, *t), h.at(yh, m, *t))), sum1(N, lambda j: T.mul(x.get([j] + t), y.get([j] + t))))
        M = h.size('M', 0); h.assume(T.ne(M, N)); bad = h.vec('bad', [M] + dims[1:])
        h.raises('gft rejects other sizes', ValueError, G.gft, bad); h.raises('igft rejects other sizes', ValueError, G.igft, bad)
    return run
def harnesses():
    for how in ('explicit', 'U', 'e', 'coherence', 'explicit N', 'twice', 'after partial'): yield f'basis[{how}]', full('combinatorial', how)
    yield 'basis[normalized]', full('normalized', 'explicit')
    yield 'null vector', null_vector
    for then in ('coherence', 'U', 'e', 'explicit'):
        for first in ('combinatorial', 'normalized'): yield f'basis[real graph, {first}, change of Laplacian, {then}]', history(first, then)
    for t in (0, 1, 2, 3): yield f'transforms[{t} trailing]', transforms(t)
