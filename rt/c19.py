from .base import *
def fixed():
    o = []
    for n in range(3, 13):
        for k in range(1, n // 2 + 1): o.append(['Ring', dict(N=n, k=k)])
        o.append(['Ring', dict(N=n, k=n // 2 + 1)])
    for n in range(1, 3): o.append(['Ring', dict(N=n, k=1)])
    for n in range(2, 10): o += [['Path', dict(N=n, directed=b)] for b in (False, True)] + [['Star', dict(N=n)], ['FullConnected', dict(N=n)]] + [['Comet', dict(N=n, k=k)] for k in range(1, n + 2)]
    for a in range(1, 6):
        for b in range(1, 6):
            if a * b > 1: o += [['Grid2d', dict(N1=a, N2=b, diagonal=d)] for d in (0., 1., .5)]
    for a in range(3, 7): o += [['Torus', dict(Nv=a, Mv=b)] for b in range(3, 7)]
    o += [['Grid2d', dict(N1=4)], ['Torus', dict(Nv=4)]]
    return [dict(f=f, a=a) for f, a in o]
def case(g):
    f = g.choice(['Ring', 'Path', 'Comet', 'Star', 'FullConnected', 'Grid2d', 'Torus'])
    if f == 'Ring': n = g.n(3, 30, 200); a = dict(N=n, k=g.choice([1, 2, n // 2, g.r.randint(1, n // 2), n // 2 + 1]))
    elif f == 'Path': a = dict(N=g.n(2, 30, 300), directed=g.chance(.5))
    elif f == 'Comet': n = g.n(2, 30, 200); a = dict(N=n, k=g.choice([g.r.randint(1, n - 1), n - 1, n, 1]))
    elif f in ('Star', 'FullConnected'): a = dict(N=g.n(2, 30, 120))
    elif f == 'Grid2d': a = dict(N1=g.n(1, 9, 40), N2=g.choice([None, g.n(1, 9, 40)]), diagonal=g.choice([0., 1., .3, 2.5])); 
    else: a = dict(Nv=g.n(3, 9, 40), Mv=g.choice([None, g.n(3, 9, 40)]))
    if f == 'Grid2d' and a['N1'] == 1 and (a['N2'] or 1) == 1: a['N1'] = 2
    return dict(f=f, a=a)
def oracle(f, a):
    if f == 'Ring':
        n, k = a['N'], a['k']
        if n < 3 or 2 * k > n: return None
        return [[1. if i != j and min((i - j) % n, (j - i) % n) <= k else 0. for j in range(n)] for i in range(n)]
    if f == 'Path': n = a['N']; return [[1. if j == i + 1 or (not a['directed'] and i == j + 1) else 0. for j in range(n)] for i in range(n)]
    if f in ('Comet', 'Star'):
        n = a['N']; k = a.get('k', n - 1)
        if k > n - 1: return None
        e = {(0, i) for i in range(1, k + 1)} | {(i, i + 1) for i in range(k, n - 1)}
        return [[1. if (i, j) in e or (j, i) in e else 0. for j in range(n)] for i in range(n)]
    if f == 'FullConnected': n = a['N']; return [[float(i != j) for j in range(n)] for i in range(n)]
    if f == 'Grid2d':
        n1, n2, d = a['N1'], a.get('N2') or a['N1'], a.get('diagonal', 0.)
        def w(p, q):
            x, y = abs(p // n2 - q // n2), abs(p % n2 - q % n2)
            return 1. if x + y == 1 else (d if x == y == 1 else 0.)
        return [[w(p, q) for q in range(n1 * n2)] for p in range(n1 * n2)]
    nv, mv = a['Nv'], a.get('Mv') or a['Nv']
    def w(p, q):
        x, y = (p // nv - q // nv) % mv, (p % nv - q % nv) % nv
        return 1. if (x == 0 and y in (1, nv - 1)) or (y == 0 and x in (1, mv - 1)) else 0.
    return [[w(p, q) for q in range(nv * mv)] for p in range(nv * mv)]
def check(p):
    from pygsp import graphs
    F = Fails(); C = getattr(graphs, p['f']); O = oracle(p['f'], p['a'])
    if O is None: F.raises(f'{p["f"]}{p["a"]} is out of range', ValueError, lambda: C(**p['a'])); return F
    if len(O) > 900: return F
    G = C(**p['a']); W = D(G.W); F.same(f'{p["f"]}{p["a"]}', W, np.array(O))
    F.true('self-loops', not np.diag(W).any() and not G.has_loops())
    if not p['a'].get('directed'): F.true('symmetric', not G.is_directed())
    F.true('number of edges', G.n_edges == int(np.count_nonzero(O)) // (1 if G.is_directed() else 2))
    return F
