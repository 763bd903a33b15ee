from contracts.common import *

def harness(fmt, kind, order):
    def run(h):
        G, N, w, W = make_graph(h, fmt, kind)
        for rep in range(2):
            for what in order:
                i = h.idx(N)
                if what == 'd':
                    h.shape('d', G.d, [N]); h.eq('degree', h.at(G.d, i), degree_n(w, N)(i))
                else:
                    h.shape('dw', G.dw, [N]); h.eq('weighted degree', h.at(G.dw, i), degree_w(w, N)(i))
    return run

def harnesses():
    for fmt, kind in (('dense', 'f'), ('csr', 'f'), ('csc', 'f'), ('coo', 'f'), ('lil', 'f'), ('dense', 'i'), ('csr', 'i'), ('dense', 'b'), ('csr', 'b')):
        yield f'Graph[{fmt},{kind}] d then dw', harness(fmt, kind, ('d', 'dw'))
    yield 'Graph[csr,f] dw then d', harness('csr', 'f', ('dw', 'd'))
