from .base import *
OPS = ['L', 'lap', 'U', 'gft', 'igft', 'lmax_b', 'lmax_l', 'D', 'grad', 'div', 'edges', 'degrees', 'dirichlet', 'connected', 'directed', 'filter', 'filter_exact', 'analyze', 'frame', 'localize', 'complement', 'inverse', 'bounds', 'cheby', 'reg0', 'reg1', 'cls', 'simplex', 'kron', 'kronL', 'interp', 'multires', 'pyramid', 'subgraph', 'components', 'repr', 'A', 'symm', 'weighted', 'export', 'resist', 'spectro', 'modulate', 'mask']
def case(g):
    d = g.graph(lo=3, hi=9, cap=25, directed=g.chance(.25), neg=False, connected=g.chance(.8), kinds=('float', 'float', 'int', 'ones'))
    if not 1e-2 <= d['scale'] <= 100: d['scale'] = 1
    return dict(g=d, lap=g.choice(['combinatorial', 'combinatorial', 'normalized']), ops=[g.choice(OPS) for _ in range(g.r.randint(2, 9))], coords=g.choice([2, 2, None]), s=g.seed(), cols=g.choice([None, 1, 3]), alias=g.chance(.3), intsig=g.chance(.2))
ONE = {'directed', 'connected', 'lap'}
def snap(x):
    if sparse.issparse(x): return D(x).copy()
    if isinstance(x, np.ndarray): return x.copy()
    if isinstance(x, (list, tuple)): return [snap(v) for v in x]
    return x
def eq(F, what, a, b):
    if isinstance(b, (list, tuple)):
        F.true(f'{what}: length', len(a) == len(b))
        for i, (u, v) in enumerate(zip(a, b)): eq(F, f'{what}[{i}]', u, v)
    elif isinstance(b, np.ndarray) or sparse.issparse(b):
        F.same(what, np.asarray(D(a)), np.asarray(D(b)))
    else: F.true(f'{what}: {a} instead of {b}', a is b or a == b)
def check(p):
    from pygsp import graphs, filters, learning, reduction, utils
    F = Fails(); n = p['g']['n']; C = signal([n, p['coords']], 5) if p['coords'] else None; C0 = None if C is None else C.copy()
    W = dense_W(p['g']); A = stored(W, p['g']); G = graphs.Graph(A, lap_type=p['lap'], coords=C)
    x = signal([n] if p['cols'] is None else [n, p['cols']], p['s'], 'int' if p['intsig'] else 'float'); x1 = signal([n], p['s'] + 1, 'int' if p['intsig'] else 'float')
    sig = x if p['alias'] else x.copy(); G.set_signal(sig, 's'); G.set_signal(x1 if p['alias'] else x1.copy(), 't')
    y = signal([G.n_edges], p['s'] + 2); M = np.random.RandomState(p['s'] + 3).rand(n) < .5; M[0] = True; M[1] = False
    lab = np.random.RandomState(p['s']).randint(0, 3, n); ind = [0, n - 1] if n > 2 else [0]; inda = np.array(ind)
    args = dict(A=A, x=x, x1=x1, y=y, M=M, lab=lab, ind=ind, inda=inda, C=C)
    keep = {k: snap(v) for k, v in args.items()}
    und = not (W != W.T).any(); conn = und and bool(reach(W).all()); comb = p['lap'] == 'combinatorial'; edges = bool(np.triu(W, 1).any() or np.tril(W, -1).any())
    G.estimate_lmax('bounds')
    mh = filters.Filter(G, [lambda t: np.exp(-t), lambda t: t / (1 + t)]); low = filters.Filter(G, lambda t: 1. / (1 + t)); loc = filters.Filter(G, lambda t: np.exp(-3 * t))
    Ld = sparse.csr_matrix(lap_oracle(W, 'combinatorial') + .1 * np.eye(n)); args['Ld'] = Ld; keep['Ld'] = snap(Ld)
    noloop = not np.diag(W).any()
    def op(o):
        if o == 'L': return G.L
        if o == 'lap': G.compute_laplacian(p['lap']); G.estimate_lmax('bounds'); return G.L
        if o == 'U': return [G.e, G.U]
        if o == 'gft': return G.gft(x)
        if o == 'igft': return G.igft(x)
        if o == 'lmax_b': G.estimate_lmax('bounds'); return None
        if o == 'lmax_l': return None if not edges or n < 4 else (G.estimate_lmax(), None)[1]
        if o == 'D': return None if not edges else (G.compute_differential_operator(), G.D)[1]
        if o == 'grad': return None if not edges else G.grad(x1)
        if o == 'div': return None if not edges else G.div(y)
        if o == 'edges': return list(G.get_edge_list())
        if o == 'degrees': return [G.d, G.dw]
        if o == 'dirichlet': return float(G.dirichlet_energy(x1))
        if o == 'connected': return bool(G.is_connected())
        if o == 'directed': return bool(G.is_directed())
        if o == 'weighted': return [bool(G.is_weighted()), bool(G.has_loops())]
        if o == 'filter': return None if not edges else low.filter(x, order=5)
        if o == 'filter_exact': return low.filter(x, method='exact')
        if o == 'analyze': return None if not edges else mh.analyze(x, order=5)
        if o == 'frame': return mh.compute_frame(method='exact')
        if o == 'localize': return low.localize(n // 2, method='exact')
        if o == 'complement': return mh.complement().evaluate(x1 * 0. + .3)
        if o == 'inverse': return mh.inverse().evaluate(x1 * 0. + .3)
        if o == 'bounds': return list(map(float, mh.estimate_frame_bounds()))
        if o == 'cheby': return None if not edges else filters.approximations.compute_cheby_coeff(low, m=4)
        if o == 'reg0': return learning.regression_tikhonov(G, x, M, 0) if conn else None
        if o == 'reg1': return learning.regression_tikhonov(G, x, M, .5)
        if o == 'cls': return learning.classification_tikhonov(G, lab, M, .5)
        if o == 'simplex': return learning.classification_tikhonov_simplex(G, lab, M, .5, maxit=3, verbosity='NONE') if edges else None
        if o == 'kron': return reduction.kron_reduction(G, inda).W if conn and comb else None
        if o == 'kronL': return reduction.kron_reduction(Ld, ind)
        if o == 'interp':
            if not (conn and comb): return None
            G.mr = {'idx': np.arange(n)}; return reduction.interpolate(G, x1[ind] * 1., inda, order=5)
        if o == 'multires':
            if not (conn and comb and noloop): return None
            U = G._U
            try: Gs = reduction.graph_multiresolution(G, 1, sparsify=False, compute_full_eigen=U is not None)
            except Exception: return None
            return Gs[1].W if U is not None else None
        if o == 'pyramid':
            if not (conn and comb and noloop): return None
            H = reduction.kron_reduction(G, inda); H.mr = {'idx': inda}; G.mr = {'idx': np.arange(n)}
            ca, pe = reduction.pyramid_analysis([G, H], x1 * 1., method='exact'); z = [c.copy() for c in ca + pe]
            r, c2 = reduction.pyramid_synthesis([G, H], ca[-1], pe, method='exact'); eq(F, 'pyramid coefficients unchanged by the synthesis', list(ca + pe), z); return [r]
        if o == 'subgraph': g = G.subgraph(ind); return [g.W, g.signals['s']]
        if o == 'components': return [list(map(int, g.info['orig_idx'])) for g in G.extract_components()] if und else None
        if o == 'repr': return repr(G)
        if o == 'A': return G.A
        if o == 'symm': return [utils.symmetrize(A, m) for m in ('average', 'maximum', 'fill', 'tril', 'triu')]
        if o == 'export': return sorted(G.to_networkx().edges()) if und else None
        if o == 'resist': return utils.resistance_distance(G) if conn and comb and n > 1 else None
        if o == 'spectro': return None if not edges else (utils.distanz(x1[None] * 1.), None)[1]
        if o == 'modulate': return G.modulate(x1 * 1., 1) if hasattr(G, 'modulate') and 0 else None
        if o == 'mask': return None
    for o in p['ops']:
        r = snap(op(o))
        F.same(f'{o}: weights unchanged', G.W, W)
        if C is not None: F.true(f'{o}: coordinates object', G.coords is not None); F.same(f'{o}: coordinates unchanged', G.coords, C0)
        F.true(f'{o}: signal names', list(G.signals) == ['s', 't'])
        if list(G.signals) == ['s', 't']: F.same(f'{o}: signal unchanged', G.signals['s'], keep['x']); F.same(f'{o}: signal unchanged', G.signals['t'], keep['x1'])
        for k, v in args.items():
            if v is not None: eq(F, f'{o}: argument {k} unchanged', v, keep[k])
        F.true(f'{o}: Laplacian type', G.lap_type == p['lap']); F.eq(f'{o}: Laplacian unchanged', G.L, lap_oracle(W, p['lap']), scale=1 + np.abs(W).max() * n)
        r2 = op(o)
        if F: return F
        if r is not None:
            try: eq(F, f'{o}: repeated', r2, r)
            except Exception as e: F.append(f'{o}: repeated answers differ in kind: {e}')
        if F: return F
    def setw(): G.W = sparse.csr_matrix(W)
    F.raises('assigning weights', AttributeError, setw)
    return F
