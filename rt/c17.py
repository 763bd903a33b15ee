from .base import *
def case(g):
    d = g.graph(lo=1, hi=12, cap=40); n = d['n']
    return dict(g=d, sel=g.r.sample(range(n), g.r.randint(1, n)), kind=g.choice(['list', 'array', 'mask']), coords=g.choice([None, 2, 3]), lap=g.choice(['combinatorial', 'normalized']), sig=g.choice([[], [['a', 0]], [['a', 0], ['b', 2]]]), s=g.seed(), A=g.chance(.3))
def check(p):
    from pygsp import graphs
    F = Fails(); gd = dict(p['g'])
    if p['lap'] == 'normalized': gd['neg'] = False
    n = gd['n']; C = signal([n, p['coords']], 5) if p['coords'] else None
    G, W = mk(gd, p['lap'], coords=C); S = {}
    for nm, c in p['sig']: S[nm] = signal([n] + ([c] if c else []), p['s'] + c); G.set_signal(S[nm], nm)
    def same(sub, sel, tag):
        F.same(f'{tag}: weights', sub.W, W[np.ix_(sel, sel)]); F.true(f'{tag}: Laplacian type', sub.lap_type == p['lap'])
        F.true(f'{tag}: signals {sorted(sub.signals)}', sorted(sub.signals) == sorted(S))
        for nm in S: F.same(f'{tag}: signal {nm}', sub.signals[nm], S[nm][sel])
        if C is not None: F.same(f'{tag}: coordinates', sub.coords, C[sel])
        else: F.true(f'{tag}: no coordinates', not hasattr(sub, 'coords'))
        F.eq(f'{tag}: Laplacian', sub.L, lap_oracle(W[np.ix_(sel, sel)], p['lap']), scale=max(1, np.abs(W).max() * n))
    sel = p['sel']
    if p['kind'] == 'mask': m = np.zeros(n, bool); m[sel] = True; sub = G.subgraph(m); sel = np.nonzero(m)[0].tolist()
    else: sub = G.subgraph(np.array(sel) if p['kind'] == 'array' else sel)
    same(sub, sel, f'subgraph of {sel}')
    if p['A']: G.A
    if (W != W.T).any(): F.raises('components of a directed graph', NotImplementedError, G.extract_components); return F
    comps = G.extract_components(); allv = []
    lab = np.full(n, -1)
    R = reach(W)
    for k, c in enumerate(comps):
        idx = list(map(int, c.info['orig_idx'])); allv += idx; lab[idx] = k
        same(c, idx, f'component {k}'); F.true(f'component {k} connected', bool(R[np.ix_(idx, idx)].all())); F.true(f'component {k} says it is connected', bool(c.is_connected()))
    F.true(f'original indices {allv} partition the vertices', sorted(allv) == list(range(n)))
    if sorted(allv) == list(range(n)): F.true('edges between components', not (W * (lab[:, None] != lab[None])).any())
    return F
