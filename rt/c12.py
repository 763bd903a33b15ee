from .base import *
def case(g):
    d = g.graph(); return dict(g=d, m=g.choice(['average', 'maximum', 'fill', 'tril', 'triu']), fmt=g.choice(['dense', 'csr', 'csc', 'coo', 'lil']))
def check(p):
    from pygsp import utils
    F = Fails(); m = p['m']; gd = dict(p['g'], fmt=p['fmt'])
    if m in ('fill', 'tril', 'triu'): gd['neg'] = False
    W = dense_W(gd); S = stored(W, gd); keep = S.copy(); n = len(W)
    if W.dtype == bool and m in ('tril', 'triu', 'maximum'): W = W.astype(float); S = S.astype(float); keep = S.copy()
    R = utils.symmetrize(S, method=m); A = W.astype(float)
    if m == 'average': O = (A + A.T) / 2
    elif m == 'maximum': O = np.maximum(A, A.T)
    elif m == 'fill': B = np.where(A != 0, A, A.T); O = (B + B.T) / 2
    else: t = np.tril(A) if m == 'tril' else np.triu(A); O = t + t.T - np.diag(np.diag(t))
    F.eq(f'{m} of {p["fmt"]}', R, O); F.same('symmetric', R, D(R).T)
    F.same('input unchanged', S, keep); F.true('storage kept', sparse.issparse(R) == sparse.issparse(S))
    F.raises('unknown method', ValueError, lambda: utils.symmetrize(S, method='nope'))
    F.raises('non-square', ValueError, lambda: utils.symmetrize(np.zeros((n, n + 1)), method=m))
    return F
