from .base import *
from .c08 import gcfg
D_ = ['Held', 'Simoncelli', 'Papadakis', 'Regular', 'Itersine', 'Meyer', 'SimpleTight', 'HalfCosine']
def case(g):
    d = g.choice(D_); a = dict()
    if d in ('Held', 'Simoncelli', 'Papadakis'):
        if g.chance(.6): a['a'] = round(g.uni(.1, 1.5), 3)
    elif d == 'Regular':
        if g.chance(.8): a['degree'] = g.k(0, 6)
    elif g.chance(.85): a['Nf'] = g.k(3 if d == 'HalfCosine' else 2, 9, 40)
    dd = gcfg(g, 2, 8); dd['connected'] = True; dd['isolated'] = False
    return dict(g=dd, d=d, a=a, lap=g.choice(['combinatorial', 'normalized']), s=g.seed(), shape=g.choice([[40], [40], [5, 4]]), lm=g.choice(['bounds', 'fourier']))
def check(p):
    from pygsp import filters
    F = Fails(); G, W = mk(p['g'], p['lap'])
    if not np.triu(W, 1).any(): return F
    G.estimate_lmax('bounds') if p['lm'] == 'bounds' else G.compute_fourier_basis()
    lm = float(G.lmax)
    f = getattr(filters, p['d'])(G, **p['a'])
    rng = np.random.RandomState(p['s']); x = np.concatenate([[0, lm], rng.uniform(0, lm, 38)]) if len(p['shape']) == 1 else rng.uniform(0, lm, p['shape'])
    if len(p['shape']) == 1:      # points at the joints of the kernels
        a = p['a'].get('a', 2 / 3); q = [lm / 2 * t for t in (a, 2 * a, a * 5 / 3)] + [lm * k / 24 for k in range(25)]
        x = np.concatenate([x, [v for v in q if v <= lm]])
    s = (f.evaluate(x) ** 2).sum(0); c = 1.125 if p['d'] == 'HalfCosine' else 1
    bad = np.abs(s - c) > 1e-8
    F.true(f'{p["d"]}{p["a"]}: sum of squares at x/lmax={(x[bad] / lm)[:4]} is {s[bad][:4]}, expected {c}', not bad.any())
    if len(p['shape']) == 1: A, B = f.estimate_frame_bounds(); F.eq('frame bounds', [A, B], [c, c], 1e-8)
    if 'Nf' in p['a']: F.true('number of filters', len(f) == p['a']['Nf'])
    return F
