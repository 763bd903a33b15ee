from .base import *
OPS = ['comb', 'norm', 'bad_lap', 'lanczos', 'bounds', 'bad_method', 'fourier', 'partial', 'U', 'e', 'lmax', 'coherence', 'failed_lanczos']
def case(g):
    return dict(g=g.graph(lo=2, directed=False, neg=False, kinds=('float', 'float', 'int', 'bool', 'ones')), lap=g.choice(['combinatorial', 'normalized']), bad=g.choice(['unknown', None, 'fourier', 'Bounds', '', 'lanczos ']), hist=[g.choice(OPS) for _ in range(g.r.randint(1, 7))])
def check(p):
    from scipy.sparse.linalg import ArpackNoConvergence
    import scipy.sparse.linalg as sl
    F = Fails(); gd = dict(p['g'], scale=min(p['g']['scale'], 10) if p['g']['scale'] < 1e3 else 1)
    W = dense_W(gd)
    if not np.triu(W, 1).any(): return F
    G, W = mk(gd, p['lap'])
    n = len(W); lap = p['lap']; last = None; hist = []; bound = getattr(G, '_get_upper_bound', None)
    ev = lambda: np.linalg.eigvalsh(lap_oracle(W, lap))
    for op in p['hist'] + ['lmax', 'e', 'bounds', 'lmax']:
        hist.append(op); h = '>'.join(hist)
        top = ev()[-1]; tol = 1e-8 * max(top, 1e-3)
        if op in ('comb', 'norm'):
            new = 'combinatorial' if op == 'comb' else 'normalized'
            G.compute_laplacian(new)
            if new != lap: last = None
            lap = new; top = ev()[-1]
        elif op == 'bad_lap': F.raises(h, ValueError, lambda: G.compute_laplacian('unknown'))
        elif op == 'bad_method': F.raises(h, ValueError, lambda: G.estimate_lmax(p.get('bad', 'unknown')))
        elif op in ('lanczos', 'failed_lanczos'):
            real = sl.eigsh
            if op == 'failed_lanczos':
                def boom(*a, **k): raise ArpackNoConvergence('no convergence', np.array([]), np.array([[]]))
                sl.eigsh = boom
            try:
                G.estimate_lmax('lanczos')
                if op == 'lanczos' : last = 'lanczos'
            except ValueError: pass
            except Exception as ex:
                if n > 2 and op == 'lanczos': F.append(f'{h}: {type(ex).__name__} {ex}')
            finally: sl.eigsh = real
        elif op == 'bounds':
            G.estimate_lmax('bounds'); last = 'bounds'
            F.true(f'{h}: bounds estimate {G.lmax} below the largest eigenvalue {top}', G.lmax >= top - tol)
            if bound: F.eq(f'{h}: lmax is the bound', G.lmax, bound())
        elif op == 'fourier': G.compute_fourier_basis(); last = None
        elif op == 'partial':
            if n > 3:
                try: G.compute_fourier_basis(n_eigenvectors=2)
                except Exception: pass
        elif op in ('U', 'e', 'coherence'):
            if op == 'e' and pv(G, '_e') is not None and len(G.e) != n: G.compute_fourier_basis()
            v = getattr(G, op)
            F.true(f'{h}: {op} missing', v is not None)
        b = bound() if bound else float('inf')
        F.true(f'{h}: upper bound {b} below the largest eigenvalue {top}', b >= top - tol)
        F.true(f'{h}: lap_type {G.lap_type}', G.lap_type == lap)
        F.eq(f'{h}: Laplacian', G.L, lap_oracle(W, lap), 1e-8)
        # caches belong to the current Laplacian
        if op == 'lmax' or pv(G, '_lmax') is not None:
            try: lm = G.lmax
            except Exception as ex: 
                if n > 2: F.append(f'{h}: lmax raises {type(ex).__name__}: {ex}')
                continue
            F.true(f'{h}: lmax is missing', lm is not None)
            if lm is None: continue
            F.true(f'{h}: lmax {lm} is not an estimate for the {lap} Laplacian whose largest eigenvalue is {top}', top * .8 - tol <= lm <= max(b, top * 1.0101) + tol)
        if pv(G, '_e') is not None:
            e, U, L = G.e, G.U, lap_oracle(W, lap)
            F.true(f'{h}: stale Fourier basis', np.abs(L @ U - U * e).max() <= 1e-7 * max(1, top))
    return F
