"""Spectral bound and the state machine (Laplacian, largest eigenvalue, Fourier basis).

Bound: the value returned by the real _get_upper_bound is at least one of the bounds that lemmas/Bounds.lean proves to
dominate every eigenvalue.  State machine: the representation invariant below is preserved by every public operation
from an arbitrary state satisfying it (so it holds after any history), including operations that raise."""
from .common import *
elem, mk = V.elem, V.mk

def amax(n, f):
    return SArr.make([lift(n)], f, 'f').max()
def bound(lap, fmt, kind):
    def run(h):
        G, N, w, W = make_graph(h, fmt, kind, True, lap, symmetric=True)
        if not is_sym_path(G): return h.check('symmetric weights: undirected', False)
        E = edge_contract(h, G, N, w, True)
        h.en.fork_min = True
        ub = elem(G._get_upper_bound()); d = degree_w(w, N)
        if lap == 'normalized': return h.true('the bound is at least 2 [bound_normalized]', T.le(2, ub))
        # on every path it is (at least) one of the proved bounds
        wmax = SArr.make([N, N], lambda i, j: w(i, j), 'f').max()
        cands = {'bound_size': T.mul(N, elem(wmax)), 'bound_degree': 2 * elem(amax(N, d)),
                 'bound_merris_all': elem(amax(N, lambda i: d(i) + T.mul(sum1(N, lambda k: T.mul(w(i, k), d(k))), T.power(d(i), -1))))}
        s, t, _ = G.get_edge_list()
        if T.CTX.prove_ind(T.lt(0, E))[0]:
            cands['bound_edges_all'] = elem(SArr.make([E], lambda k: d(s.get([k])) + d(t.get([k])), 'f').max())
        for nm, c in cands.items():
            if T.CTX.prove_zero(ub - c, timeout=2000)[0]: return h.check('the bound is one of the proved ones', True, nm)
        for nm, c in cands.items():
            if T.CTX.prove_ind(T.le(c, ub), timeout=2000)[0]: return h.check('the bound is at least one of the proved ones', True, nm)
        h.check('the bound is at least one of the proved ones', False, T.show(ub)[:300])
    return run
STATES = [(b, l) for b in ('no basis', 'partial basis') for l in (None, 'lanczos', 'bounds')] + [('full basis', l) for l in ('fourier', 'lanczos', 'bounds')]
OPS = ['compute_laplacian combinatorial', 'compute_laplacian normalized', 'compute_laplacian unknown', 'estimate_lmax lanczos', 'estimate_lmax lanczos (fails)', 'estimate_lmax bounds',
       'estimate_lmax unknown', 'estimate_lmax None', 'estimate_lmax fourier', 'lmax', 'U', 'e', 'coherence', 'compute_fourier_basis', 'compute_fourier_basis partial']
class World:
    """ghost state: what was computed, from which matrix"""
    def __init__(self, h, lap):
        self.h = h
        self.G, self.N, self.w, self.W = make_graph(h, 'csr', 'f', True, lap, symmetric=True)
        self.lap = lap; self.fail = False; self.decs = []; self.lanc = []; self.ubs = {l: h.real('ub_' + l) for l in ('combinatorial', 'normalized')}
        for u in self.ubs.values(): h.assume(T.le(0, u))
        G = self.G
        h.en.hooks['eigh'] = self.eigh; h.en.hooks['eigsh'] = self.eigsh
        G._get_upper_bound = lambda: mk(self.ubs[G.lap_type], 'f')
        h.en.contracts_used.add('_get_upper_bound (first part of C06: at least every eigenvalue)')
    def pair(self, n, k, lap):
        """k eigenpairs of the Laplacian of type lap: non-decreasing eigenvalues, the first is zero, all below the bound"""
        h, N = self.h, self.N
        U, e = h.fn(f'U{n}', 2), h.fn(f'lam{n}', 1, nonneg=True)
        i, j = T.CTX_temp(k), T.CTX_temp(k)
        h.assume_forall([(i, k), (j, k)], T.one_minus(T.mul(T.le(from_atom(i), from_atom(j)), T.lt(T.app(e, from_atom(j)), T.app(e, from_atom(i))))))
        h.assume(T.eq(T.app(e, num(0)), 0)); h.assume(T.le(T.app(e, k - 1), self.ubs[lap]))
        i = T.CTX_temp(k); h.assume_forall([(i, k)], T.le(T.app(e, from_atom(i)), self.ubs[lap]))
        return SArr.make([k], lambda l: T.app(e, l), 'f'), SArr.make([N, k], lambda i, l: T.app(U, i, l), 'f'), U, e
    def eigh(self, a, *args, **kw):
        M = V.to_sarr(a).copy(); ea, Ua, U, e = self.pair(len(self.decs), M._shape[0], self.G.lap_type)
        self.decs.append((M, U, e, self.N, Ua))
        return ea, Ua
    def eigsh(self, a, k=6, which='LM', return_eigenvectors=True, **kw):
        if self.fail:
            import scipy.sparse.linalg as sl
            raise sl.ArpackNoConvergence('no convergence', [], [])
        M = a.copy() if isinstance(a, SSp) else V.to_sarr(a).copy()
        if not return_eigenvectors:
            if which != 'LM' or lift(elem(k)).const() != 1: raise T.Unsupported('eigsh arguments')
            v = self.h.real(f'lanczos{len(self.lanc)}'); self.h.assume(T.le(0, v)); self.h.assume(T.le(v, self.ubs[self.G.lap_type]))
            self.lanc.append((M, v)); return SArr.make([num(1)], lambda i: v, 'f')
        if which != 'SM': raise T.Unsupported('eigsh arguments')
        k = lift(elem(k)); ea, Ua, U, e = self.pair(len(self.decs), k, self.G.lap_type)
        self.decs.append((M, U, e, k, Ua))
        return ea, Ua
    def start(self, state):
        """an arbitrary state satisfying the invariant"""
        h, G, N = self.h, self.G, self.N
        b, l = state
        if b != 'no basis':
            k = N if b == 'full basis' else h.size('K', 1)
            if b == 'partial basis': h.assume(T.lt(k, N))
            ea, Ua, U, e = self.pair('0', k, self.lap)
            G._e, G._U = ea, Ua
            self.start_basis = (Ua, ea, U, e, k)
            if b == 'full basis':
                self.coh = h.real('coherence0'); G._coherence = mk(self.coh, 'f')
        else: self.start_basis = None
        if l is not None:
            if l == 'lanczos': v = h.real('lmax0')
            elif l == 'bounds': v = self.ubs[self.lap]
            else: v = h.at(G._e, N - 1)
            G._lmax = mk(v, 'f'); G._lmax_method = l; self.lmax0 = v
        else: self.lmax0 = None
        self.lap0 = self.lap
    def laplacian(self, a, b): return (lap_comb if self.lap == 'combinatorial' else lap_norm)(self.w, self.N)(a, b)
    def is_current(self, M):
        a, b = self.h.idx(self.N), self.h.idx(self.N)
        if len(M._shape) != 2: return False
        x = M.get(a, b) if isinstance(M, SSp) else M.get([a, b])
        return T.CTX.prove_zero(x - self.laplacian(a, b))[0]
    def same(self, x, y): return T.CTX.prove_zero(lift(elem(x)) - lift(y), timeout=3000)[0]
    def invariant(self, what):
        h, G, N = self.h, self.G, self.N
        h.check(f'{what}: Laplacian type', G.lap_type == self.lap, str(G.lap_type))
        a, b = h.idx(N), h.idx(N)
        h.eq(f'{what}: the Laplacian is the one of that type', h.at(G.L, a, b), self.laplacian(a, b))
        # the basis
        if G._U is None and G._e is None: ok = G._coherence is None; how = 'no basis'
        elif G._U is None or G._e is None: ok, how = False, 'half a basis'
        else:
            ok, how = False, 'basis of another matrix'
            k = G._e._shape[0]; i = h.idx(N); l = from_atom(T.CTX_temp(k))
            srcs = [(U, e, kk, M) for M, U, e, kk, _ in self.decs]
            if self.start_basis is not None and self.lap0 == self.lap and not self.changed: srcs.append((self.start_basis[2], self.start_basis[3], self.start_basis[4], None))
            for U, e, kk, M in srcs:
                if not T.CTX.prove_zero(k - kk)[0] or not T.CTX.prove_zero(G._U._shape[1] - kk)[0]: continue
                if M is not None and not self.is_current(M): continue
                if self.same(G._U.get([i, l]), T.app(U, i, l)) and self.same(G._e.get([l]) + T.mul(T.eq(l, 0), T.app(e, num(0))), T.app(e, l)): ok, how = True, 'basis of the current Laplacian'
        h.check(f'{what}: the stored basis belongs to the current Laplacian', ok, how)
        # the largest eigenvalue
        if G._lmax is None: ok, how = G._lmax_method is None or G._lmax_method not in ('lanczos', 'bounds', 'fourier'), 'missing but remembered'
        else: ok, how = self.valid_lmax(G._lmax)
        h.check(f'{what}: the stored largest eigenvalue belongs to the current Laplacian', ok, how)
        if G._lmax_method == 'bounds': h.eq(f'{what}: the remembered estimate by bounds is the bound', elem(G._lmax), self.ubs[self.lap])
        if G._U is not None and T.CTX.prove_zero(G._U._shape[1] - N)[0]:
            h.check(f'{what}: a full basis comes with coherence and largest eigenvalue', G._lmax is not None and G._coherence is not None)
    def valid_lmax(self, v):
        if v is None: return False, 'missing'
        if self.same(v, self.ubs[self.lap]): return True, 'the bound of the current Laplacian'
        for M, x in self.lanc:
            if self.is_current(M) and self.same(v, T.mul(num(T.Q(101, 100)), x)): return True, 'estimated from the current Laplacian'
        for M, U, e, k, _ in self.decs:
            if self.is_current(M) and T.CTX.prove_zero(k - self.N)[0] and self.same(v + 0, T.app(e, self.N - 1) - T.mul(T.eq(self.N, 1), T.app(e, num(0)))): return True, 'largest computed eigenvalue'
        if self.lmax0 is not None and self.lap0 == self.lap and not self.changed and self.same(v, self.lmax0): return True, 'kept'
        return False, 'of another Laplacian'
def step(op, lap, state):
    def run(h):
        wd = World(h, lap); wd.start(state); wd.changed = False
        G, N = wd.G, wd.N
        wd.invariant('assumed state'); n0 = len(h.en.obligations)
        name, _, arg = op.partition(' ')
        if name == 'compute_laplacian':
            if arg == 'unknown': h.raises('unknown Laplacian type rejected', ValueError, G.compute_laplacian, arg)
            else:
                if arg != lap: wd.changed = True
                wd.lap = arg; G.compute_laplacian(arg)
        elif name == 'estimate_lmax':
            if arg == 'lanczos (fails)':
                wd.fail = True
                try: G.estimate_lmax('lanczos')
                except ValueError: h.check('failure is reported', True)
                else: h.check('without failure the estimate was there', state[1] == 'lanczos', str(state))
                wd.fail = False
            elif arg in ('lanczos', 'bounds'):
                G.estimate_lmax(arg)
                h.check('estimated', G._lmax is not None)
                if arg == 'bounds': h.eq('the largest eigenvalue is the bound', elem(G.lmax), wd.ubs[wd.lap])
            else: h.raises('unknown method rejected', ValueError, G.estimate_lmax, None if arg == 'None' else arg)
        elif op == 'compute_fourier_basis': G.compute_fourier_basis()
        elif op == 'compute_fourier_basis partial':
            k = h.size('K2', 1); h.assume(T.lt(k, N)); G.compute_fourier_basis(mk(k, 'i'))
        else: h.check(f'{name} is not missing', getattr(G, name) is not None)
        wd.invariant(f'after {op}')
        ok, how = wd.valid_lmax(G.lmax); h.check('the reported largest eigenvalue is present and belongs to the current Laplacian', ok, how)
        h.check('the reported basis is present', G.U is not None and G.e is not None)
        wd.invariant(f'after {op}, lmax, U, e')
    return run
def constructor(lap):
    def run(h):
        wd = World(h, lap); wd.start_basis = wd.lmax0 = None; wd.lap0 = lap; wd.changed = False
        wd.invariant('new graph'); h.check('nothing is claimed yet', wd.G._lmax is None and wd.G._U is None)
    return run
def harnesses():
    for fmt, kind in (('csr', 'f'), ('dense', 'f'), ('csr', 'i'), ('csr', 'b')):
        yield f'bound[combinatorial,{fmt},{kind}]', bound('combinatorial', fmt, kind)
    yield 'bound[normalized]', bound('normalized', 'csr', 'f')
    for lap in ('combinatorial', 'normalized'):
        yield f'invariant[{lap}: new graph]', constructor(lap)
        for st in STATES:
            for op in OPS: yield f'invariant[{lap}, {st[0]}, lmax {st[1]}: {op}]', step(op, lap, st)
