"""Executable contracts: concrete cases for the postconditions, run against the real code of /repo.
Used (1) to find a failing input when an obligation is not discharged, and to replay it, and
(2) as the bounded stand-in for the parts of a property that the deductive verifier cannot reach."""
import os, sys, ast, glob, random, logging, warnings, math
for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'): os.environ.setdefault(k, '1')
os.environ.setdefault('MPLBACKEND', 'agg')
sys.dont_write_bytecode = True
if '/repo' not in sys.path: sys.path.insert(0, '/repo')
import numpy as np
from scipy import sparse
warnings.simplefilter('ignore'); np.seterr(all='ignore')
logging.disable(logging.CRITICAL)

def harvest(root='/repo/pygsp'):
    """integers (and floats) the code compares with, takes remainders by or slices with: sizes worth trying"""
    ints, floats = set(), set()
    for f in glob.glob(root + '/**/*.py', recursive=True):
        if '/tests/' in f or f.endswith('plotting.py'): continue
        try: tree = ast.parse(open(f).read())
        except Exception: continue
        for n in ast.walk(tree):
            if isinstance(n, (ast.Compare,)) or (isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mod, ast.FloorDiv, ast.BitAnd))) or isinstance(n, ast.Slice) or (isinstance(n, ast.Call) and getattr(n.func, 'id', getattr(n.func, 'attr', '')) in ('min', 'max', 'range', 'minimum', 'maximum')):
                for c in ast.walk(n):
                    if isinstance(c, ast.Constant) and not isinstance(c.value, bool):
                        if isinstance(c.value, int) and 2 <= c.value <= 5000: ints.add(c.value)
                        elif isinstance(c.value, float) and 0 < c.value < 1e6: floats.add(c.value)
    return sorted(ints), sorted(floats)
INTS, FLOATS = harvest()

HIST = ['switch', 'switch', 'fourier', 'partial', 'bounds', 'lanczos', 'coherence', 'D', 'degrees', 'A', 'edges', 'predicates', 'energy', 'filter', 'cheby', 'eval', 'frame']
def warm(G, hist, lap, f=None):
    """run a history of queries on G (and on the filter bank f), then come back to the Laplacian type lap"""
    n = G.n_vertices; x = np.arange(n) / n; neg = (G.W < 0).nnz
    for op in hist:
        try:
            if op == 'switch' and not neg: G.compute_laplacian('normalized' if G.lap_type == 'combinatorial' else 'combinatorial')
            elif op == 'fourier': G.compute_fourier_basis()
            elif op == 'partial' and n > 4: G.compute_fourier_basis(n_eigenvectors=2)
            elif op in ('bounds', 'lanczos'): G.estimate_lmax(op)
            elif op == 'coherence': G.coherence
            elif op == 'D': G.D
            elif op == 'degrees': G.d, G.dw
            elif op == 'A': G.A
            elif op == 'edges': G.get_edge_list()
            elif op == 'predicates': G.is_directed(), G.is_connected(), G.is_weighted(), G.has_loops()
            elif op == 'energy': G.dirichlet_energy(x)
            elif f is not None:
                if op == 'filter': f.filter(x, method='exact')
                elif op == 'cheby': f.filter(x, order=4)
                elif op == 'eval': f.evaluate(x); f.estimate_frame_bounds(x)
                elif op == 'frame': f.compute_frame(method='exact')
        except Exception: pass
    if G.lap_type != lap: G.compute_laplacian(lap)
    if f is not None and pv(G, '_e') is not None and len(G.e) < n: G.compute_fourier_basis()     # a partial basis is not enough to filter

def pv(G, name):
    """a cache of the graph, None when it is empty (or kept in another way)"""
    return getattr(G, name, None)
class Gen:
    """seeded source of case parameters (JSON values only)"""
    def __init__(self, seed, i, tier='quick'):
        self.r = random.Random(f'{seed}/{i}'); self.i = i; self.tier = tier
    def n(self, lo=1, hi=12, cap=70):
        r = self.r; x = r.random()
        if x < .72: return r.randint(lo, hi)
        if x < .90:
            c = [k + d for k in INTS for d in (-1, 0, 1) if lo <= k + d <= cap]
            if c: return r.choice(c)
        return r.randint(lo, min(cap, 3 * hi))
    def k(self, lo=1, hi=6, cap=None):
        """small parameter (number of filters, order, columns)"""
        r = self.r
        if r.random() < .15:
            c = [k + d for k in INTS for d in (-1, 0, 1) if lo <= k + d <= (cap or 4 * hi)]
            if c: return r.choice(c)
        return r.randint(lo, hi)
    def choice(self, l): return self.r.choice(list(l))
    def chance(self, p): return self.r.random() < p
    def uni(self, a, b): return self.r.uniform(a, b)
    def seed(self): return self.r.randrange(2 ** 31)
    def hist(self, p=.5):
        """earlier queries on the graph and on the filter bank, with either Laplacian"""
        return [self.choice(HIST) for _ in range(self.r.randint(1, 5))] if self.r.random() < p else []
    def graph(self, lo=1, hi=12, cap=70, directed=None, neg=None, loops=None, kinds=('float', 'float', 'float', 'int', 'bool', 'ones'), connected=None, fmts=('csr', 'csr', 'dense', 'csc', 'coo', 'lil'), zeros=None, isolated=None):
        r = self.r
        pick = lambda v, p: (r.random() < p) if v is None else v
        return dict(n=self.n(lo, hi, cap), seed=self.seed(), density=r.choice([0, .1, .25, .5, .8, 1]) if not connected else r.choice([.1, .25, .5, .8, 1]),
                    kind=r.choice(list(kinds)), directed=pick(directed, .4), neg=pick(neg, .2), loops=pick(loops, .35), connected=bool(connected),
                    fmt=r.choice(list(fmts)), zeros=pick(zeros, .25), isolated=pick(isolated, .3) and not connected,
                    scale=r.choice([1, 1, 1, 1, 1e-3, 1e-2, 10, 1e3] + [f * m for f in FLOATS for m in (.5, 2) if 1e-9 < f < 1e6][:40]), shape=r.choice(['random'] * 6 + ['path', 'star', 'blocks', 'band', 'tri']))

def dense_W(g):
    """the (dense, numpy) adjacency of a graph description"""
    n = g['n']; rng = np.random.RandomState(g['seed'])
    kind = g['kind']
    if kind in ('float', 'float32'): V = rng.choice([0, 1], p=[.5, .5]) * rng.randint(1, 4, (n, n)) * .5 + rng.uniform(.1, 2, (n, n))
    elif kind == 'int': V = rng.randint(1, 6, (n, n))
    else: V = np.ones((n, n))
    if kind in ('float', 'float32') and rng.rand() < .15: V = V * 10. ** rng.uniform(-3, 3, (n, n))
    if g['neg'] and kind in ('float', 'int', 'float32'): V = V * rng.choice([-1, 1], (n, n))
    sh = g.get('shape', 'random'); ii, jj = np.indices((n, n))
    M = rng.rand(n, n) < g['density']
    if sh == 'path': M = abs(ii - jj) == 1
    elif sh == 'star': M = (ii == 0) | (jj == 0)
    elif sh == 'blocks': M = M & ((ii < (n + 1) // 2) == (jj < (n + 1) // 2))
    elif sh == 'band': M = M & (abs(ii - jj) <= 2)
    elif sh == 'tri' and g['directed']: M = M & (ii < jj)
    if g['connected']:
        p = rng.permutation(n)
        for a, b in zip(p[:-1], p[1:]): M[a, b] = M[b, a] = True
    if not g['directed']:
        V = np.triu(V) + np.triu(V, 1).T; M = np.triu(M); M = M | M.T
    W = np.where(M, V, 0)
    if not g['loops']: W[np.arange(n), np.arange(n)] = 0
    if g['isolated'] and n > 1:
        for v in rng.choice(n, rng.randint(1, max(2, n // 3 + 1)), replace=False): W[v, :] = 0; W[:, v] = 0
    if kind in ('float', 'float32'): W = W * g['scale']
    return W.astype({'float': float, 'int': int, 'bool': bool, 'ones': float, 'float32': np.float32}[kind])

def stored(W, g):
    """the object passed to the constructor: storage format, possibly with explicitly stored zeros"""
    f = g['fmt']
    if f == 'dense': return W.copy()
    S = sparse.csr_matrix(W)
    if g['zeros']:
        c = S.tocoo(); n = W.shape[0]; rng = np.random.RandomState(g['seed'] + 1)
        ex = [(a, b) for a in range(n) for b in range(n) if W[a, b] == 0 and rng.rand() < .3]
        S = sparse.csr_matrix((np.concatenate([c.data, np.zeros(len(ex), W.dtype)]), (np.concatenate([c.row, [a for a, _ in ex]]).astype(int), np.concatenate([c.col, [b for _, b in ex]]).astype(int))), shape=W.shape)
        if f == 'lil': return S                     # lil would drop the zeros
    return S.asformat(f)

def mk(g, lap='combinatorial', cls=None, coords=None):
    from pygsp import graphs
    W = dense_W(g)
    return graphs.Graph(stored(W, g), lap_type=lap, coords=coords), W

def D(x):
    """dense ndarray of a result"""
    if sparse.issparse(x): return x.toarray()
    return np.asarray(x)

def close(a, b, rtol=1e-9, scale=None):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape: return False
    if a.size == 0: return True
    s = scale if scale is not None else max(1e-300, np.max(np.abs(b)), np.max(np.abs(a)))
    d = np.abs(a - b)
    return bool(np.all(np.isfinite(a) == np.isfinite(b))) and bool(np.all(d[np.isfinite(b)] <= rtol * s + 1e-13)) and bool(np.all(np.isfinite(a)))

class Fails(list):
    def eq(self, what, a, b, rtol=1e-9, scale=None):
        a, b = D(a), D(b)
        if a.shape != b.shape: self.append(f'{what}: shape {a.shape} instead of {b.shape}')
        elif not close(a, b, rtol, scale): self.append(f'{what}: got {np.array2string(a, threshold=12, precision=6)} expected {np.array2string(b, threshold=12, precision=6)}'.replace('\n', ' '))
    def same(self, what, a, b):
        """bitwise-equal values"""
        a, b = D(a), D(b)
        if a.shape != b.shape: self.append(f'{what}: shape {a.shape} instead of {b.shape}')
        elif not np.array_equal(a, b): self.append(f'{what}: got {np.array2string(a, threshold=12)} expected {np.array2string(b, threshold=12)}'.replace('\n', ' '))
    def true(self, what, c):
        if not c: self.append(what)
    def raises(self, what, exc, f):
        try: f()
        except exc: return
        except Exception as ex: self.append(f'{what}: raised {type(ex).__name__} instead of {exc}'); return
        self.append(f'{what}: no exception')

# ---------------------------------------------------------------- oracles
def avgw(W): W = W.astype(float); return (W + W.T) / 2
def lap_oracle(W, lap):
    A = avgw(W); d = A.sum(1)
    if lap == 'combinatorial': return np.diag(d) - A
    s = np.zeros_like(d); s[d != 0] = d[d != 0] ** -.5
    L = np.eye(len(d)) - s[:, None] * A * s[None]
    z = d == 0; L[z] = 0; L[:, z] = 0
    return L
def reach(W):
    n = len(W); R = (W != 0) | np.eye(n, dtype=bool)
    for _ in range(max(1, n).bit_length() + 1): R = (R.astype(int) @ R.astype(int)) > 0
    return R

def kernels(specs):
    """kernel functions from JSON: ['poly', c0, c1, ...] | ['exp', a] | ['inv', a] | ['sin', a] | ['band', lo, hi]"""
    def one(s):
        t, a = s[0], s[1:]
        if t == 'poly': return lambda x: sum(c * np.asarray(x, float) ** k for k, c in enumerate(a)) + 0 * np.asarray(x, float)
        if t == 'exp': return lambda x: np.exp(-a[0] * np.asarray(x, float))
        if t == 'inv': return lambda x: 1. / (a[0] + np.asarray(x, float))
        if t == 'sin': return lambda x: np.sin(a[0] * np.asarray(x, float)) + a[1]
        if t == 'band': return lambda x: ((np.asarray(x) >= a[0]) & (np.asarray(x) <= a[1])) * 1.
        raise ValueError(t)
    return [one(s) for s in specs]
def kspecs(g, nf, polydeg=None, lm=1.):
    out = []
    for _ in range(nf):
        t = 'poly' if polydeg is not None else g.choice(['poly', 'exp', 'inv', 'sin'])
        if t == 'poly': out.append(['poly'] + [round(g.uni(-2, 2), 3) for _ in range(1 + (g.r.randint(0, polydeg) if polydeg is not None else g.r.randint(0, 3)))])
        elif t == 'sin': out.append(['sin', round(g.uni(.2, 3), 3), round(g.uni(-1, 1), 3)])
        else: out.append([t, round(g.uni(.1, 3), 3)])
    return out
def signal(shape, seed, kind='float'):
    rng = np.random.RandomState(seed)
    x = rng.randn(*shape)
    return x if kind == 'float' else x.astype(np.float32) if kind == 'float32' else np.round(3 * x).astype(int)
