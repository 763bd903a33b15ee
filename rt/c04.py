from .base import *
def case(g): return dict(g=g.graph(), order=g.choice(['d', 'dw']))
def check(p):
    F = Fails(); G, W = mk(p['g'])
    if p['order'] == 'dw': dw = np.asarray(G.dw); d = np.asarray(G.d)
    else: d = np.asarray(G.d); dw = np.asarray(G.dw)
    nz = (W != 0).astype(float); Wf = W.astype(float)
    F.eq('degree', d, (nz.sum(0) + nz.sum(1)) / 2)
    F.eq('weighted degree', dw, (Wf.sum(0) + Wf.sum(1)) / 2, scale=max(1e-300, np.abs(Wf).sum(0).max() if W.size else 1))
    return F
