from .base import *
def case(g): return dict(g=g.graph(), twice=g.chance(.3))
def check(p):
    F = Fails(); G, W = mk(p['g'])
    for _ in range(1 + p['twice']):
        s, t, w = [np.asarray(a) for a in G.get_edge_list()]
        F.true(f'lengths {len(s)},{len(t)},{len(w)} vs n_edges={G.n_edges}, Ne={G.Ne}', len(s) == len(t) == len(w) == G.n_edges == G.Ne)
        got = sorted(zip(s.tolist(), t.tolist(), w.tolist()))
        sym = not (W != W.T).any()
        if sym: got = sorted((min(a, b), max(a, b), x) for a, b, x in got)
        want = sorted((a, b, W[a, b].item()) for a, b in zip(*np.nonzero(np.triu(W) if sym else W)))
        want = [(int(a), int(b), x) for a, b, x in want]
        F.true(f'edges {got[:6]} instead of {want[:6]} ({len(got)} vs {len(want)})', got == want)
    return F
