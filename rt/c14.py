from .base import *
from .c13 import schur
from .c08 import response
def case(g):
    d = g.graph(lo=6, hi=14, cap=30, directed=False, neg=False, loops=False, connected=True, kinds=('float', 'ones')); d['scale'] = 1
    lev = g.r.randint(1, 3)
    return dict(g=d, lev=lev, coords=g.chance(.5), cols=g.choice([None, 1, 2, 3]), hf=g.choice([None, 'one', 'list']), ks=kspecs(g, lev), order=g.choice([3, 10, 30, 40]), method=g.choice(['chebyshev', 'chebyshev', 'exact']), reg=g.choice([.005, .005, .1]), opt=g.choice(['all', 'all', 'none', 'order', 'method']), full=g.chance(.5), s=g.seed(), own=g.chance(.4))
def check(p):
    from pygsp import reduction, graphs, filters
    F = Fails(); n = p['g']['n']
    G, W = mk(p['g'], coords=signal([n, 2], 1) if p['coords'] else None)
    Gs = [G]; rng = np.random.RandomState(p['s'])
    if p['own']:
        G.estimate_lmax('bounds'); G.mr = {'idx': np.arange(n), 'orig_idx': np.arange(n)}
        for i in range(p['lev']):
            k = max(2, Gs[-1].N // 2)
            if Gs[-1].N <= 2: break
            ind = np.sort(rng.choice(Gs[-1].N, k, replace=False)); H = reduction.kron_reduction(Gs[-1], ind); H.estimate_lmax('bounds'); H.mr = {'idx': ind, 'orig_idx': ind}; Gs.append(H)
    else:
        try: Gs = reduction.graph_multiresolution(G, p['lev'], sparsify=False, compute_full_eigen=p['full'])
        except Exception: return F        # degenerate split (all vertices kept): not this property
    lev = len(Gs) - 1
    if lev == 0 or any(g.N < 3 for g in Gs[:-1]): return F
    ks = kernels(p['ks'])[:lev]
    kw = {} if p['hf'] is None else {'h_filters': ks[0] if p['hf'] == 'one' else ks}
    hs = [(lambda x: 1. / (2 * x + 1))] * lev if p['hf'] is None else ([ks[0]] * lev if p['hf'] == 'one' else ks)
    f = signal([n] if p['cols'] is None else [n, p['cols']], p['s'] + 1); f0 = f.copy()
    opt = dict(order=p['order'], method=p['method']); opt = {k: v for k, v in opt.items() if p['opt'] in ('all', k)}
    ca, pe = reduction.pyramid_analysis(Gs, f, reg_eps=p['reg'], **opt, **kw)
    F.true(f'lengths {len(ca)}, {len(pe)}', len(ca) == lev + 1 and len(pe) == lev)
    F.same('signal unchanged', f, f0)
    rec, cas = reduction.pyramid_synthesis(Gs, ca[-1], pe, reg_eps=p['reg'], **opt)
    sc = 10 + max(np.abs(np.asarray(c)).max() for c in list(ca) + list(pe))
    F.eq('reconstruction', np.asarray(rec).reshape(f.shape) if np.size(rec) == f.size else rec, f, 1e-7, sc)
    for i, (a, b) in enumerate(zip(cas, ca)): F.eq(f'reconstruction at level {i}', np.asarray(a).reshape(np.shape(b)) if np.size(a) == np.size(b) else a, b, 1e-7, sc)
    for i in range(lev):
        g = Gs[i]; x = np.asarray(ca[i]).reshape(g.N, -1); idx = Gs[i + 1].mr['idx']
        low = np.asarray(filters.Filter(g, hs[i]).filter(x if x.shape[1] > 1 else x[:, 0], **opt)).reshape(g.N, -1)
        nxt = np.asarray(ca[i + 1]); 
        F.eq(f'approximation {i + 1} is the restricted low-pass', nxt.reshape(len(idx), -1) if nxt.size == low[idx].size else nxt, low[idx], 1e-8, sc)
        if nxt.size != low[idx].size: continue
        K = schur(D(g.L) + p['reg'] * np.eye(g.N), list(idx)); al = np.zeros((g.N, x.shape[1])); al[idx] = K @ nxt.reshape(len(idx), -1)
        pr = np.asarray(filters.Filter(g, lambda t: 1. / (p['reg'] + t)).filter(al if al.shape[1] > 1 else al[:, 0], **opt)).reshape(g.N, -1)
        er = np.asarray(pe[i]); F.eq(f'prediction error {i}', er.reshape(g.N, -1) if er.size == pr.size else er, x - pr, 1e-7, sc)
    return F
