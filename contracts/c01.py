from contracts.common import *

def check_lap(h, G, N, w, lap):
    spec = (lap_comb if lap == 'combinatorial' else lap_norm)(w, N)
    h.shape('L shape', G.L, [N, N])
    i, j = h.idx(N), h.idx(N)
    h.eq(f'{lap} Laplacian entry', h.at(G.L, i, j), spec(i, j))
    h.eq(f'{lap} symmetric', h.at(G.L, i, j), h.at(G.L, j, i))
    if lap == 'combinatorial':
        h.zero('rows sum to zero', sum1(N, lambda k: h.at(G.L, i, k)))
    h.check('lap_type recorded', G.lap_type == lap)

def harness(fmt, kind, lap, then):
    def run(h):
        nonneg = 'normalized' in (lap, then)
        G, N, w, W = make_graph(h, fmt, kind, nonneg, lap)
        h.en.note(f'directed={G._directed}')
        check_lap(h, G, N, w, lap)
        if then:
            G.compute_laplacian(then); check_lap(h, G, N, w, then)
            G.compute_laplacian(lap); check_lap(h, G, N, w, lap)
    return run

def harnesses():
    o = {'combinatorial': 'normalized', 'normalized': 'combinatorial'}
    for lap in ('combinatorial', 'normalized'):
        for fmt, kind in (('dense', 'f'), ('csr', 'f'), ('csc', 'f'), ('coo', 'f'), ('lil', 'f'), ('dense', 'i'), ('csr', 'i'), ('dense', 'b'), ('csr', 'b')):
            yield f'Graph[{fmt},{kind}].L {lap}', harness(fmt, kind, lap, None)
        yield f'Graph.compute_laplacian {lap}->other->back', harness('csr', 'f', lap, o[lap])
