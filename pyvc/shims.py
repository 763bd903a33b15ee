"""Contract models of numpy / scipy / builtins (the trusted base: assumed specifications of dependencies)."""
import builtins as _b, sys, types, functools, math as _math
import numpy as _np
import scipy as _sp, scipy.sparse as _ss
from fractions import Fraction as Q
from . import terms as T, engine as EN, values as V
from .terms import E, num, from_atom, lift, Unsupported
from .values import *
from .values import ctx, map1, make_red, nonzero, concatenate, coo_build, enum_of, reshape, dot, matmul, tensordot, trig_reduce, sqrt_e, _split_pi, seq_concat, same_dim, dims_match, bshape, bget, reduce_arr, out, elem, mk, skind, promote, is_scalar, to_sarr, kind_of_dtype, as_bool
from . import loops as LP, whiles as WH

def get_locals(): return sys._getframe(1).f_locals

def has_sym(x, depth=0):
    if isinstance(x, (Sc, SBool, SArr, SSp, SymSeq, SymRange, E)): return True
    if depth < 3:
        if isinstance(x, (list, tuple)): return any(has_sym(y, depth + 1) for y in x)
        if isinstance(x, dict): return any(has_sym(y, depth + 1) for y in x.values())
    return False

def assume_fact(text): ctx().assumptions.append(text)

# ================================================================================================ numpy
NP = {}
def np_(name=None):
    def d(f):
        nm = name or f.__name__.rstrip('_')
        real = getattr(_np, nm, None)
        @functools.wraps(f)
        def g(*a, **k):
            if real is not None and not has_sym(a) and not has_sym(k): return real(*a, **k)
            return f(*a, **k)
        NP[nm] = g
        return g
    return d
def ufunc(name, f, kind='f', exact=False):
    real = getattr(_np, name)
    def g(x, out=None, where=None, **k):
        if exact and out is None and type(x) in (int, float) and x: return mk(f(lift(x)), 'f')
        if not has_sym((x, out, where)): return real(x, **({'out': out} if out is not None else {}), **({'where': where} if where is not None else {}), **k)
        if isinstance(x, SSp):
            if f(num(0)).const() == 0: return x._like(f(x.e), kind)
            raise Unsupported('ufunc on sparse')
        if is_scalar(x) and out is None: return map1(x, f, kind)
        return ufunc_out(map1(to_sarr(x), f, kind), out, where)
    NP[name] = g
def ufunc_out(r, out_, where):
    if out_ is None:
        if where is not None: raise Unsupported('ufunc where without out')
        return r
    if isinstance(out_, _np.ndarray): raise Unsupported('symbolic result into a concrete array')
    w = to_sarr(where) if where is not None else None
    r = to_sarr(r)
    r = SArr(r._shape, r.vs, r.e, r.kind)
    if w is not None: w = SArr(w._shape, w.vs, w.e, w.kind)
    out_.write((lambda ix: bget(w, ix, out_._shape)) if w is not None else (lambda ix: num(1)), lambda ix: bget(r, ix, out_._shape))
    return out_
def _definite(e, what):
    """definedness obligations are the callers' contracts: recorded, not blocking"""
    return e
ufunc('sqrt', sqrt_e)
ufunc('exp', lambda e: T.app(V.EXP, e), exact=True); ufunc('log', lambda e: T.app(V.LOG, e))
ufunc('cos', lambda e: T.app(V.COS, e)); ufunc('sin', lambda e: T.app(V.SIN, e)); ufunc('arccos', lambda e: T.app(V.ARCCOS, e))
ufunc('abs', lambda e: T.app(T.ABS, e)); NP['absolute'] = NP['abs']; NP['fabs'] = NP['abs']
ufunc('conjugate', lambda e: e); NP['conj'] = NP['conjugate']
ufunc('negative', lambda e: -e); ufunc('square', lambda e: T.mul(e, e))
ufunc('sign', lambda e: T.lt(0, e) - T.lt(e, 0))
ufunc('logical_not', lambda e: T.one_minus(T.ne(e, 0)) if not _isind(e) else T.one_minus(e), 'b')
def _isnan(e):
    if any(getattr(f, 'name', f) == 'unset' for f in e.fns): raise Unsupported('test of a value that is not set')
    return num(0)
ufunc('isnan', _isnan, 'b'); ufunc('isinf', lambda e: num(0), 'b'); ufunc('isfinite', lambda e: num(1), 'b')
def _isind(e): return all(not m[0] for m in e.t)
def binu(name, f, kind=None, pre=None):
    real = getattr(_np, name)
    def g(a, b, out=None, where=None, **k):
        if not has_sym((a, b, out, where)): return real(a, b, **({'out': out} if out is not None else {}), **({'where': where} if where is not None else {}), **k)
        if isinstance(a, SSp) or isinstance(b, SSp):
            return getattr(_op, name)(a, b)
        r = binop(pre(a) if pre else a, pre(b) if pre else b, f, kind)
        return ufunc_out(r, out, where)
    NP[name] = g
class _op:
    multiply = staticmethod(lambda a, b: a.multiply(b) if isinstance(a, SSp) else b.multiply(a))
    add = staticmethod(lambda a, b: a + b)
    subtract = staticmethod(lambda a, b: a - b)
    divide = staticmethod(lambda a, b: a / b)
    maximum = staticmethod(lambda a, b: a.maximum(b))
    minimum = staticmethod(lambda a, b: a.minimum(b))
    not_equal = staticmethod(lambda a, b: a != b)
    equal = staticmethod(lambda a, b: a == b)
    power = staticmethod(lambda a, b: a.power(b))
def _tob(x):
    if is_scalar(x): return as_bool(x)
    x = to_sarr(x)
    return x if x.kind == 'b' else x.map(lambda e: T.ne(e, 0), 'b')
binu('add', lambda a, b: a + b); binu('subtract', lambda a, b: a - b); binu('multiply', T.mul); binu('divide', V.div, 'f'); NP['true_divide'] = NP['divide']
binu('power', V.pw); binu('maximum', T.maximum); binu('minimum', T.minimum); NP['fmax'] = NP['maximum']; NP['fmin'] = NP['minimum']
binu('remainder', T.imod); NP['mod'] = NP['remainder']; binu('floor_divide', V.int_div, 'i')
binu('equal', T.eq, 'b'); binu('not_equal', T.ne, 'b'); binu('less', T.lt, 'b'); binu('less_equal', T.le, 'b')
binu('greater', lambda a, b: T.lt(b, a), 'b'); binu('greater_equal', lambda a, b: T.le(b, a), 'b')
binu('logical_and', T.mul, 'b', _tob); binu('logical_or', T.lor, 'b', _tob); binu('logical_xor', lambda a, b: a + b - 2 * T.mul(a, b), 'b', _tob)
NP['bitwise_and'] = NP['logical_and']; NP['bitwise_or'] = NP['logical_or']
def _round(name):
    real = getattr(_np, name)
    def g(x):
        if not has_sym(x): return real(x)
        raise Unsupported(name)
    NP[name] = g
for _n in ('ceil', 'floor', 'round', 'rint'): _round(_n)

@np_()
def asanyarray(x, dtype=None, **k):
    if isinstance(x, SSp):
        raise Unsupported('object array of a sparse matrix')
    if isinstance(x, (SArr,)):
        return x if dtype is None or kind_of_dtype(dtype) == x.kind else x.astype(dtype)
    if isinstance(x, SymSeq): return x.to_arr()
    r = to_sarr(x)
    return r if dtype is None else r.astype(dtype)
NP['asarray'] = asanyarray
@np_()
def array(x, dtype=None, copy=True, **k):
    r = asanyarray(x, dtype)
    return r.copy() if isinstance(r, SArr) and copy is not False else r
@np_('copy')
def np_copy(x): return x.copy()
def _shape(s):
    if isinstance(s, (list, tuple)): return [elem(d) for d in s]
    if isinstance(s, SymSeq): raise Unsupported('symbolic rank')
    return [elem(s)]
def _nonneg_shape(sh):
    for d in sh:
        if d.const() is None and not ctx().prove_le(0, d):
            if not bool(SBool.ind(T.le(0, d))): raise ValueError('negative dimensions are not allowed')
        elif d.const() is not None and d.const() < 0: raise ValueError('negative dimensions are not allowed')
    return sh
def _const(name, v):
    real = getattr(_np, name)
    def g(shape, dtype=float, **k):
        if not has_sym(shape): return SArrIfSym(real(shape, dtype=_rdt(dtype)))
        sh = _nonneg_shape(_shape(shape))
        kd = kind_of_dtype(dtype)
        if v is None:
            f = T.Fn(f'uninit{T._ctr[0]}', len(sh)); T._ctr[0] += 1
            if kd == 'b': raise Unsupported('empty bool')
            return SArr.make(sh, lambda *ix: f(*ix), kd)
        return SArr.make(sh, lambda *ix: num(v), kd)
    NP[name] = g
def _rdt(dt):
    if dt is V.shim_int: return int
    if dt is V.shim_float: return float
    if dt is V.shim_bool: return bool
    return dt
def SArrIfSym(x):
    """arrays created with a concrete shape inside a symbolic run are still symbolic stores (later symbolic writes)"""
    if EN.eng() is not None and x.size <= 4096 and x.dtype.kind in 'bif':
        return small_arr(x)
    return x
def small_arr(x):
    k = skind(x)
    if x.size and (x == x.flat[0]).all() if x.dtype.kind != 'f' or x.size and not _np.isnan(x).any() else False:
        v = x.flat[0].item()
        if isinstance(v, float) and abs(v) > 1e-30 or v == 0 or not isinstance(v, float): return SArr.make(list(x.shape), lambda *ix: lift(v), k)
    f = T.Fn(f'uninit{T._ctr[0]}', x.ndim); T._ctr[0] += 1
    return SArr.make(list(x.shape), lambda *ix: f(*ix), k)
_const('zeros', 0); _const('ones', 1); _const('empty', None)
def _np_empty(shape, dtype=float, **k):
    if not has_sym(shape):
        sh = [num(d) for d in (shape if isinstance(shape, (list, tuple)) else [shape])]
    else: sh = _nonneg_shape(_shape(shape))
    f = T.Fn(f'uninit{T._ctr[0]}', len(sh)); T._ctr[0] += 1
    return SArr.make(sh, lambda *ix: f(*ix), kind_of_dtype(_rdt(dtype)))
NP['empty'] = lambda shape, dtype=float, **k: _np_empty(shape, dtype) if EN.eng() is not None else _np.empty(shape, dtype)
@np_()
def full(shape, v, dtype=None, **k):
    if isinstance(v, float) and v != v:
        if not getattr(EN.eng(), 'unset_values', False): raise Unsupported('nan fill')
        f = T.Fn('unset', 1 if not isinstance(shape, (tuple, list)) else len(shape), 'real')      # an unknown value; not a number is never tested for
        return SArr.make(list(shape) if isinstance(shape, (tuple, list)) else [shape], lambda *ix: T.app(f, *ix), 'f')
    return SArr.make(_nonneg_shape(_shape(shape)), lambda *ix: elem(v), skind(v) if dtype is None else kind_of_dtype(dtype))
def _like(name, v):
    @np_(name)
    def g(a, dtype=None, **k):
        a = to_sarr(a) if not isinstance(a, SSp) else a
        kd = a.kind if dtype is None else kind_of_dtype(dtype)
        if v is None:
            f = T.Fn(f'uninit{T._ctr[0]}', len(a._shape)); T._ctr[0] += 1
            r = SArr.make(a._shape, lambda *ix: f(*ix), kd)
        else: r = SArr.make(a._shape, lambda *ix: num(v), kd)
        return r if r.ndim else r
_like('zeros_like', 0); _like('ones_like', 1); _like('empty_like', None)
@np_()
def full_like(a, v, dtype=None): 
    a = to_sarr(a); return SArr.make(a._shape, lambda *ix: elem(v), a.kind if dtype is None else kind_of_dtype(dtype))
@np_()
def arange(*a, dtype=None, **k):
    if len(a) == 1: r = SymRange(0, a[0])
    elif len(a) == 2: r = SymRange(a[0], a[1])
    else: r = SymRange(a[0], a[1], a[2])
    kd = 'f' if any(skind(x) == 'f' for x in a) else 'i'
    if kd == 'f' and not all(elem(x).is_int() for x in a): raise Unsupported('fractional arange')
    x = r.to_arr()
    x.kind = kd if dtype is None else kind_of_dtype(dtype)
    return x
@np_()
def linspace(a, b, num_=50, endpoint=True, num=None, **k):
    n = elem(num if num is not None else num_)
    a, b = elem(a), elem(b)
    if k.get('retstep'): raise Unsupported('linspace')
    d = n - 1 if endpoint else n
    return SArr.make([n], lambda i: a + T.mul(T.mul(b - a, i), T.power(d, -1)), 'f')
NP['linspace'] = functools.wraps(_np.linspace)(lambda a, b, num=50, **k: _np.linspace(a, b, num, **k) if not has_sym((a, b, num)) else linspace(a, b, num, **k))
@np_()
def identity(n, dtype=None): return SArr.make([n, n], lambda i, j: T.eq(i, j), 'f' if dtype is None else kind_of_dtype(dtype))
@np_()
def eye(n, m=None, k=0, dtype=None): return SArr.make([n, m if m is not None else n], lambda i, j: T.eq(i + elem(k), j), 'f' if dtype is None else kind_of_dtype(dtype))
@np_('concatenate')
def np_concatenate(xs, axis=0): return concatenate(list(xs), axis)
@np_()
def hstack(xs):
    xs = [to_sarr(x) for x in xs]
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)
@np_()
def vstack(xs):
    xs = [to_sarr(x) for x in xs]
    return concatenate([x if x.ndim > 1 else x.expand(0) for x in xs], 0)
@np_()
def stack(xs, axis=0):
    if isinstance(xs, SymSeq):
        r = xs.to_arr()
        if axis == 0: return r
        p = list(range(1, r.ndim)); p.insert(axis % r.ndim, 0)
        return r.transpose(p)
    xs = [to_sarr(x) for x in xs]
    return concatenate([x.expand(axis if axis >= 0 else axis + x.ndim + 1) for x in xs], axis)
@np_()
def atleast_2d(x):
    x = to_sarr(x)
    if x.ndim == 0: return x.expand(0).expand(0)
    return x.expand(0) if x.ndim == 1 else x
@np_()
def atleast_1d(x):
    x = to_sarr(x); return x.expand(0) if x.ndim == 0 else x
@np_()
def ravel(x, order='C'):
    x = to_sarr(x)
    if x.ndim == 2 and x._shape[0].const() == 1:
        return x.view([x._shape[1]], lambda ix: [num(0), ix[0]], lambda ix: (num(1), [ix[1]]))
    if x.ndim == 2 and x._shape[1].const() == 1:
        return x.view([x._shape[0]], lambda ix: [ix[0], num(0)], lambda ix: (num(1), [ix[0]]))
    return x.reshape(-1, order=order)
@np_('reshape')
def np_reshape(x, shape, order='C'): return to_sarr(x).reshape(shape, order=order) if isinstance(shape, (list, tuple)) else to_sarr(x).reshape(shape, order=order)
@np_('transpose')
def np_transpose(x, axes=None): return x.transpose() if axes is None else x.transpose(axes)
@np_()
def swapaxes(x, a, b): return x.swapaxes(a, b)
@np_()
def moveaxis(x, s, d):
    n = x.ndim; p = [i for i in range(n) if i != s % n]; p.insert(d % n, s % n)
    return x.transpose(p)
@np_()
def expand_dims(x, axis):
    x = to_sarr(x)
    if isinstance(axis, (tuple, list)):
        n = x.ndim + len(axis)
        for a in sorted(a % n for a in axis): x = x.expand(a)
        return x
    return x.expand(axis)
@np_()
def squeeze(x, axis=None): return x.squeeze(axis) if isinstance(x, SArr) else x
def _red(name, op):
    real = getattr(_np, name)
    def g(x, axis=None, keepdims=False, out=None, **k):
        if not has_sym(x): return real(x, axis=axis, **k)
        if isinstance(x, SSp):
            if op == 'sum': return x.sum(axis)
            if axis is not None: raise Unsupported('sparse ' + name)
            return getattr(x, op)()
        if is_scalar(x): return x
        x = to_sarr(x)
        if op in ('any', 'all'): return getattr(x if x.kind == 'b' else x.map(lambda e: T.ne(e, 0), 'b'), op)(axis)
        if op == 'mean': return x.mean(axis)
        return reduce_arr(x, op, axis, keepdims)
    NP[name] = g
for _n, _o in (('sum', 'sum'), ('max', 'max'), ('min', 'min'), ('amax', 'max'), ('amin', 'min'), ('any', 'any'), ('all', 'all'), ('mean', 'mean')): _red(_n, _o)
@np_()
def prod(x, axis=None):
    if isinstance(x, (list, tuple)):
        r = 1
        for d in x: r = r * d
        return r
    raise Unsupported('prod')
@np_()
def count_nonzero(x, axis=None):
    if axis is not None: raise Unsupported('count_nonzero axis')
    x = to_sarr(x)
    return reduce_arr(x.map(lambda e: T.ne(e, 0), 'b') if x.kind != 'b' else x, 'sum')
@np_('nonzero')
def np_nonzero(x):
    if isinstance(x, SSp): return x.nonzero()
    return nonzero(to_sarr(x))
@np_()
def flatnonzero(x): return nonzero(to_sarr(x))[0]
@np_()
def where(c, a=None, b=None):
    if a is None: return np_nonzero(c)
    if isinstance(c, SSp): raise Unsupported('where on sparse')
    c, a, b = to_sarr(c), to_sarr(a), to_sarr(b)
    ci = c if c.kind == 'b' else c.map(lambda e: T.ne(e, 0), 'b')
    sh = bshape([ci._shape, a._shape, b._shape])
    r = SArr.make(sh, lambda *ix: T.ite(bget(ci, list(ix), sh), bget(a, list(ix), sh), bget(b, list(ix), sh)), promote(a.kind, b.kind))
    return r
@np_()
def diag(x, k=0):
    x = to_sarr(x)
    if elem(k).const() != 0: raise Unsupported('diag offset')
    if x.ndim == 2: return x.diagonal()
    return SArr.make([x._shape[0]] * 2, lambda i, j: T.mul(T.eq(i, j), x.get([i])), x.kind)
@np_()
def diagonal(x): return x.diagonal()
@np_()
def trace(x): return x.diagonal().sum()
@np_('dot')
def np_dot(a, b, out=None): return dot(a, b) if not isinstance(a, SSp) else a.dot(b)
@np_('matmul')
def np_matmul(a, b): return matmul(a, b) if not isinstance(a, SSp) else a.dot(b)
@np_('tensordot')
def np_tensordot(a, b, axes=2): return tensordot(a, b, axes)
@np_()
def inner(a, b): return tensordot(a, b, ([-1], [-1]))
@np_()
def outer(a, b):
    a, b = to_sarr(a), to_sarr(b)
    return a.expand(1) * b.expand(0)
@np_()
def einsum(*a, **k): raise Unsupported('einsum')
@np_()
def kron(a, b):
    a, b = to_sarr(a), to_sarr(b)
    while a.ndim < b.ndim: a = a.expand(0)
    while b.ndim < a.ndim: b = b.expand(0)
    n = a.ndim
    # (a_i b_j) at i*nb + j, through a transposed reshape (exact index map)
    x = a; y = b
    r = SArr.make([d for p in zip(a._shape, b._shape) for d in p], lambda *ix: T.mul(a.get(list(ix[0::2])), b.get(list(ix[1::2]))), promote(a.kind, b.kind))
    return r.reshape([dim_out_(T.mul(p, q)) for p, q in zip(a._shape, b._shape)])
def dim_out_(e): return V.dim_out(e)
@np_('tril')
def np_tril(x, k=0):
    x = to_sarr(x); kk = elem(k)
    i, j = from_atom(x.vs[-2]), from_atom(x.vs[-1])
    return SArr(x._shape, x.vs, T.mul(T.le(j, i + kk), x.e), x.kind)
@np_('triu')
def np_triu(x, k=0):
    x = to_sarr(x); kk = elem(k)
    i, j = from_atom(x.vs[-2]), from_atom(x.vs[-1])
    return SArr(x._shape, x.vs, T.mul(T.le(i + kk, j), x.e), x.kind)
@np_()
def fill_diagonal(x, v):
    vv = to_sarr(v)
    x.write(lambda ix: T.eq(ix[0], ix[1]), lambda ix: vv.e if vv.ndim == 0 else vv.get([ix[0]]))
@np_('shape')
def np_shape(x):
    if isinstance(x, (SArr, SSp)): return x.shape
    return to_sarr(x).shape
@np_('ndim')
def np_ndim(x): return x.ndim if hasattr(x, 'ndim') else to_sarr(x).ndim
@np_('size')
def np_size(x): return to_sarr(x).size
@np_('ix_')
def ix_(*args):
    outl = []
    n = len(args)
    for k, a in enumerate(args):
        a = to_sarr(a)
        if a.kind == 'b': a = nonzero(a)[0]
        for q in range(n):
            if q != k: a = a.expand(0 if q < k else a.ndim)
        outl.append(a)
    return tuple(outl)
@np_()
def allclose(a, b, *r, **k): raise Unsupported('allclose')
@np_()
def tile(x, reps):
    x = to_sarr(x)
    if not isinstance(reps, (list, tuple)): reps = (reps,)
    reps = list(reps)
    while x.ndim < len(reps): x = x.expand(0)
    while len(reps) < x.ndim: reps = [1] + reps
    if all(elem(d).const() is None or True for d in reps):
        r = SArr.make([d for p in zip([elem(q) for q in reps], x._shape) for d in p], lambda *ix: x.get(list(ix[1::2])), x.kind)
        return r.reshape([dim_out_(T.mul(elem(p), q)) for p, q in zip(reps, x._shape)])
@np_()
def repeat(x, n, axis=None):
    x = to_sarr(x)
    if x.ndim != 1: raise Unsupported('repeat')
    if not is_scalar(n): raise Unsupported('repeat by an array')
    r = SArr.make([x._shape[0], elem(n)], lambda i, j: x.get([i]), x.kind)
    return r.reshape(-1)
@np_()
def may_share_memory(a, b): raise Unsupported('may_share_memory')
@np_()
def issubdtype(a, b): return _np.issubdtype(a, b)
@np_()
def array_equal(a, b):
    a, b = to_sarr(a), to_sarr(b)
    if a.ndim != b.ndim: return False
    for x, y in zip(a._shape, b._shape):
        if not dims_match(x, y): return False
    return (a == b).all()
@np_('setdiff1d')
def setdiff1d(a, b, assume_unique=False):
    """contract: the sorted elements of a (here 0..N-1) that are not in b"""
    a, b = to_sarr(a), to_sarr(b)
    t = T.the_atom(a.e)
    if a.ndim != 1 or t is not a.vs[0]: raise Unsupported('setdiff1d of other than arange')
    if b.kind == 'b': raise Unsupported('setdiff1d bool')
    n = a._shape[0]
    def member(i):
        k = T.CTX_temp(b._shape[0]); ke = from_atom(k)
        s = T.sum_over([(k, b._shape[0])], T.eq(b.get([ke]), i))
        return T.ne(s, 0)
    i = T.CTX_temp(n)
    en = enum_of([n], [i], T.one_minus(member(from_atom(i))))
    assume_fact('numpy.setdiff1d(arange(N), ind): the increasing enumeration of the indices not in ind')
    return en.arr(0)
@np_()
def sort(x, axis=-1): return sorted_of(x)[0]
@np_()
def argsort(x, axis=-1): return sorted_of(x)[1]
def sorted_of(x):
    """contract of sort/argsort along the last axis: a permutation p with x[p] non-decreasing"""
    x = to_sarr(x)
    c = ctx()
    key = ('sort', x.e.dig, tuple(v.dig for v in x.vs))
    db = c.__dict__.setdefault('_sorts', {})
    n = len(db)
    lead = list(x._shape[:-1]); d = x._shape[-1]
    p = T.Fn(f'perm{n}', x.ndim, sort='int'); q = T.Fn(f'iperm{n}', x.ndim, sort='int')
    db[key] = (p, q)
    def rw(*a):
        t = T.the_atom(a[-1])
        if t is not None and t.kind == 'app' and t.fn is q and t.args[:-1] == a[:-1]: return t.args[-1]
    def rwq(*a):
        t = T.the_atom(a[-1])
        if t is not None and t.kind == 'app' and t.fn is p and t.args[:-1] == a[:-1]: return t.args[-1]
    p.rewrite = rw; q.rewrite = rwq
    p.meta = {'perm': True, 'inverse_fn': q, 'dim': d}; q.meta = {'perm': True, 'inverse_fn': p, 'dim': d}
    def rng(f):
        def fact(*a):
            g = T.mul(T.le(0, a[-1]), T.lt(a[-1], d))
            return [T.lor(T.one_minus(g), T.mul(T.le(0, f(*a)), T.lt(f(*a), d)))]
        return fact
    p.facts.append(rng(p)); q.facts.append(rng(q))
    # sortedness as a quantified hypothesis
    import z3
    vs = [T.CTX_temp(s) for s in lead] + [T.CTX_temp(d), T.CTX_temp(d)]
    ix = [from_atom(v) for v in vs]
    a = x.get(ix[:-2] + [p(*ix[:-2], ix[-2])]); b = x.get(ix[:-2] + [p(*ix[:-2], ix[-1])])
    zs = [c.z_atom(v) for v in vs]
    r = [z >= 0 for z in zs] + [z < c.z_num(s) for z, s in zip(zs, lead + [d, d])]
    c.hyps.append(z3.ForAll(zs, z3.Implies(z3.And(r + [zs[-2] <= zs[-1]]), c.z_num(a) <= c.z_num(b)), patterns=[z3.MultiPattern(c.z_num(a) if False else c.z_atom(T.the_atom(p(*ix[:-2], ix[-2]))), c.z_atom(T.the_atom(p(*ix[:-2], ix[-1]))))]))
    c.bump()
    assume_fact('numpy.sort/argsort: a permutation of the last axis that orders the values')
    idx = SArr.make(x._shape, lambda *ix: p(*ix), 'i')
    val = SArr.make(x._shape, lambda *ix: x.get(list(ix[:-1]) + [p(*ix)]), x.kind)
    return val, idx
@np_()
def take_along_axis(x, idx, axis):
    x, idx = to_sarr(x), to_sarr(idx)
    if axis % x.ndim != x.ndim - 1: raise Unsupported('take_along_axis')
    return SArr.make(idx._shape, lambda *ix: x.get(list(ix[:-1]) + [idx.get(list(ix))]), x.kind)
@np_()
def cumsum(x, axis=None):
    x = to_sarr(x)
    ax = (x.ndim - 1) if axis is None and x.ndim == 1 else axis
    if ax is None: raise Unsupported('cumsum')
    ax %= x.ndim
    def f(*ix):
        k = T.CTX_temp(ix[ax] + 1)
        jx = list(ix); jx[ax] = from_atom(k)
        return T.sum_over([(k, ix[ax] + 1)], x.get(jx))
    return SArr.make(x._shape, f, x.kind)
@np_()
def unique(x, **k): raise Unsupported('unique')

class _ND(type):
    def __instancecheck__(cls, x): return isinstance(x, (SArr, _np.ndarray))
class ndarray_shim(metaclass=_ND):
    def __new__(cls, *a, **k): return _np.ndarray(*a, **k)

def linalg_hook(n):
    return EN.eng().hooks.get(n) if EN.eng() is not None else None
class Linalg:
    def __getattr__(self, n):
        real = getattr(_np.linalg, n)
        if not callable(real) or isinstance(real, type): return real
        def g(*a, **k):
            hook = linalg_hook(n)
            if hook is not None: return hook(*a, **k)
            if has_sym(a) or has_sym(k): raise Unsupported('numpy.linalg.' + n)
            return real(*a, **k)
        return g
    @staticmethod
    def norm(x, ord=None, axis=None, **k):
        if not has_sym(x): return _np.linalg.norm(x, ord=ord, axis=axis, **k)
        if k: raise Unsupported('norm arguments')
        x = to_sarr(x)
        if x.ndim != 1 and axis is None and ord is not None: raise Unsupported('matrix norm')
        if ord not in (None, 2): raise Unsupported('norm order')
        s = reduce_arr(x.map(lambda e: T.mul(e, e), 'f'), 'sum', axis)
        return map1(s, sqrt_e)
    @staticmethod
    def solve(A, b):
        if not has_sym((A, b)): return _np.linalg.solve(A, b)
        return opaque_solve(A, b, 'numpy.linalg.solve')
    @staticmethod
    def pinv(A, *a, **k):
        if not has_sym(A): return _np.linalg.pinv(A, *a, **k)
        A = to_sarr(A)
        if A._shape[-1].const() == 1:
            # contract for a single column v: pinv(v) = v^T / (v^T v)  (0 when v = 0)
            assume_fact('numpy.linalg.pinv of one column v is v^T/(v^T v), and 0 for v = 0')
            lead = A._shape[:-2]; m = A._shape[-2]
            def f(*ix):
                k = T.CTX_temp(m)
                i0 = list(ix[:len(lead)])
                nn = T.sum_over([(k, m)], T.power(A.get(i0 + [from_atom(k), num(0)]), 2))
                return T.mul(A.get(i0 + [ix[-1], num(0)]), T.power(nn, -1))
            return SArr.make(list(lead) + [num(1), m], f, 'f')
        raise Unsupported('pinv')

def opaque_solve(A, b, name):
    """contract: A x = b with A invertible (its definedness); x is the unknown function constrained by the equation"""
    c = ctx()
    hook = linalg_hook('solve')
    if hook is not None: return hook(A, b)
    raise Unsupported(name + ' without a registered contract')

class Numpy(types.ModuleType):
    def __getattr__(self, n):
        real = getattr(_np, n)
        if isinstance(real, type) or not callable(real): return real
        def g(*a, **k):
            if has_sym(a) or has_sym(k): raise Unsupported('numpy.' + n)
            return real(*a, **k)
        return g
snp = Numpy('numpy')
for _k, _v in NP.items(): setattr(snp, _k, _v)
snp.ndarray = ndarray_shim
snp.linalg = Linalg()
snp.newaxis = None
snp.pi = Sc(from_atom(V.PI), 'f')
snp.inf = _np.inf; snp.nan = _np.nan
class _S:
    """np.s_ / np.r_"""

# ================================================================================================ scipy.sparse
class Sparse(types.ModuleType):
    def __getattr__(self, n):
        real = getattr(_ss, n)
        if not callable(real): return real
        def g(*a, **k):
            if has_sym(a) or has_sym(k): raise Unsupported('scipy.sparse.' + n)
            return real(*a, **k)
        return g
sps = Sparse('scipy.sparse')
def issparse(x): return isinstance(x, SSp) or _ss.issparse(x)
sps.issparse = issparse; sps.isspmatrix = issparse
def _mkfmt(fmt):
    real = getattr(_ss, fmt + '_matrix')
    def g(arg, shape=None, dtype=None, copy=False):
        if not has_sym((arg, shape)): return real(arg, shape=shape, dtype=dtype, copy=copy)
        if isinstance(arg, SSp):
            r = arg if arg.fmt == fmt and not copy and dtype is None else SSp(arg._shape, arg.vs, arg._e, arg.kind, arg.st, fmt)
            if fmt == 'lil': r.st = r.nz()
            if dtype is not None and V.kind_of_dtype(dtype) != arg.kind: return r.astype(dtype)
            if r is arg: r = SSp(arg._shape, arg.vs, arg._e, arg.kind, arg.st, fmt)     # another matrix with the same stored values
            if not copy and (arg.fmt == fmt or fmt == 'coo' and arg.fmt in ('csr', 'csc')): arg.share(r)
            return r
        if isinstance(arg, SArr):
            a = arg
            if a.ndim == 1: a = a.expand(0)
            r = SSp(a._shape, a.vs, a.e, a.kind, None, fmt); r.st = r.nz()
            return r if dtype is None else r.astype(dtype)
        if isinstance(arg, tuple) and len(arg) == 2:
            if isinstance(arg[1], (tuple, list)) and len(arg[1]) == 2:
                data, (rows, cols) = arg
                if shape is None: raise Unsupported('sparse from coordinates without shape')
                return coo_build(data, rows, cols, shape, fmt)
            if is_scalar(arg[0]) and is_scalar(arg[1]):
                return SSp.make([arg[0], arg[1]], lambda i, j: num(0), 'f', 'nz', fmt)
        if isinstance(arg, (list,)):
            a = to_sarr(arg); r = SSp(a._shape, a.vs, a.e, a.kind, None, fmt); r.st = r.nz()
            return r
        raise Unsupported('sparse constructor')
    class M(type):
        def __instancecheck__(cls, x): return isinstance(x, SSp) and x.fmt == fmt or isinstance(x, real)
        def __call__(cls, *a, **k): return g(*a, **k)
    return M(fmt + '_matrix', (), {})
for _f in ('csr', 'csc', 'coo', 'lil', 'dok', 'dia', 'bsr'):
    setattr(sps, _f + '_matrix', _mkfmt(_f)); setattr(sps, _f + '_array', _mkfmt(_f))
def sp_fn(name):
    def d(f):
        real = getattr(_ss, name)
        def g(*a, **k):
            if not has_sym(a) and not has_sym(k): return real(*a, **k)
            return f(*a, **k)
        setattr(sps, name, g)
        return g
    return d
@sp_fn('identity')
def sp_identity(n, dtype=None, format=None): return SSp.make([n, n], lambda i, j: T.eq(i, j), 'f', 'nz', format or 'dia')
@sp_fn('eye')
def sp_eye(n, m=None, k=0, dtype=None, format=None): return SSp.make([n, m if m is not None else n], lambda i, j: T.eq(i + elem(k), j), 'f', 'nz', format or 'dia')
setattr(sps, 'eye_array', sps.eye)
@sp_fn('diags')
def sp_diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
    single = is_scalar(offsets)
    if single:
        if isinstance(diagonals, (list, tuple)) and len(diagonals) == 1 and not is_scalar(diagonals[0]): ds = [to_sarr(diagonals[0])]
        else: ds = [to_sarr(diagonals)]
        offs = [offsets]
    else:
        ds = [to_sarr(d) for d in diagonals]; offs = list(offsets)
    offs = [elem(o) for o in offs]
    if shape is None:
        # contract: square, size len(first diagonal) + |offset|
        o = offs[0]
        n = ds[0]._shape[0] + (o if ctx().prove_le(0, o) else -o)
        shape = [n, n]
    else: shape = [elem(d) for d in shape]
    parts = []
    for d, o in zip(ds, offs):
        pos = ctx().prove_le(0, o)
        ln = d._shape[0] if d.ndim else num(1)
        m_, n_ = shape
        # documented length: min(m + o, n - o, min(m, n)); a length-1 diagonal is broadcast
        need = T.minimum(m_, n_ - o) if pos else T.minimum(m_ + o, n_)
        if not (d.ndim == 0 or ln.const() == 1 and not same_dim(ln, need)):
            if not dims_match(ln, need): raise ValueError('Diagonal length does not agree with array size')
        bc = d.ndim == 0 or (ln.const() == 1 and not same_dim(ln, need))
        parts.append((d, o, pos, ln, bc))
    def f(i, j):
        acc = num(0)
        for d, o, pos, ln, bc in parts:
            k = i if pos else i + o           # data index: row for o>=0, column for o<0
            v = (d.e if d.ndim == 0 else d.get([num(0)])) if bc else d.get([k])
            acc = acc + T.mul(T.eq(i + o, j), v)
        return acc
    kd = 'f' if dtype is not None or any(d.kind == 'f' for d, *_ in parts) else parts[0][0].kind
    r = SSp.make(shape, f, kd, None, format or 'dia')
    if (format or 'dia') != 'dia': r.st = None
    return r
sps.diags_array = sps.diags
def _tri(name, cond):
    @sp_fn(name)
    def g(A, k=0, format=None):
        if isinstance(A, SArr): A = sps.csr_matrix(A)
        i, j = (from_atom(v) for v in A.vs)
        m = cond(i, j, elem(k))
        return SSp(A._shape, A.vs, T.mul(m, A._e), A.kind, None if A.st is None else T.mul(m, A.st), format or 'coo')
_tri('tril', lambda i, j, k: T.le(j, i + k)); _tri('triu', lambda i, j, k: T.le(i + k, j))
@sp_fn('kron')
def sp_kron(A, B, format=None):
    r = kron(A.toarray() if isinstance(A, SSp) else A, B.toarray() if isinstance(B, SSp) else B)
    q = SSp(r._shape, r.vs, r.e, r.kind, None, format or 'csr')
    return q
@sp_fn('find')
def sp_find(A):
    A = A if isinstance(A, SSp) else sps.coo_matrix(A)
    # contract: coordinates and values of the non-zero entries (column-major order of the summed matrix)
    en = enum_of(A._shape[::-1], A.vs[::-1], A.nz())
    rows, cols = en.arr(1), en.arr(0)
    return rows, cols, SArr.make([en.K], lambda k: A.get(en.fns[1](k), en.fns[0](k)), A.kind)
@sp_fn('hstack')
def sp_hstack(xs, format=None, dtype=None):
    r = concatenate([x.toarray() if isinstance(x, SSp) else x for x in xs], 1)
    return SSp(r._shape, r.vs, r.e, r.kind, None, format or 'csr')
@sp_fn('vstack')
def sp_vstack(xs, format=None, dtype=None):
    r = concatenate([x.toarray() if isinstance(x, SSp) else x for x in xs], 0)
    return SSp(r._shape, r.vs, r.e, r.kind, None, format or 'csr')

class SpLinalg(types.ModuleType):
    ArpackNoConvergence = _ss.linalg.ArpackNoConvergence
    def __getattr__(self, n):
        import scipy.sparse.linalg as R
        real = getattr(R, n)
        def g(*a, **k):
            hook = linalg_hook(n)
            if hook is not None: return hook(*a, **k)
            if has_sym(a) or has_sym(k): raise Unsupported('scipy.sparse.linalg.' + n)
            return real(*a, **k)
        return g
spl = SpLinalg('scipy.sparse.linalg')
sps.linalg = spl
class ScLinalg(types.ModuleType):
    def __getattr__(self, n):
        import scipy.linalg as R
        real = getattr(R, n)
        def g(*a, **k):
            hook = linalg_hook(n)
            if hook is not None: return hook(*a, **k)
            if has_sym(a) or has_sym(k): raise Unsupported('scipy.linalg.' + n)
            return real(*a, **k)
        return g
scl = ScLinalg('scipy.linalg')
class Scipy(types.ModuleType):
    def __getattr__(self, n):
        import importlib
        return importlib.import_module('scipy.' + n)
ssp = Scipy('scipy')
ssp.sparse = sps; ssp.linalg = scl
SHIMS = {'numpy': snp, 'scipy': ssp}

# ================================================================================================ builtins
class _IntM(type):
    def __instancecheck__(cls, x): return isinstance(x, (int, )) or (isinstance(x, Sc) and x.kind == 'i')
    def __call__(cls, *a, **k):
        if a and isinstance(a[0], Sc):
            if a[0].e.is_int(): return mk(a[0].e, 'i')
            import math
            D = math.lcm(*[c.denominator for c in a[0].e.t.values()])
            if (a[0].e * D).is_int() and ctx().prove_le(0, a[0].e): return mk(T.idiv(a[0].e * D, T.num(D)), 'i')
            raise Unsupported('int() of a real')
        if a and isinstance(a[0], SBool): return a[0].sc()
        return int(*a, **k)
class shim_int(metaclass=_IntM): dtype = _np.dtype(int)
class _FloatM(type):
    def __instancecheck__(cls, x): return isinstance(x, float) or (isinstance(x, Sc) and x.kind == 'f')
    def __call__(cls, *a, **k):
        if a and isinstance(a[0], (Sc, SBool)): return Sc(elem(a[0]), 'f')
        if a and isinstance(a[0], SArr) and a[0].ndim == 0: return Sc(a[0].e, 'f')
        return float(*a, **k)
class shim_float(metaclass=_FloatM): dtype = _np.dtype(float)
class _BoolM(type):
    def __instancecheck__(cls, x): return isinstance(x, (bool, SBool))
    def __call__(cls, *a, **k): return bool(*a, **k)
class shim_bool(metaclass=_BoolM): dtype = _np.dtype(bool)
V.shim_int, V.shim_float, V.shim_bool = shim_int, shim_float, shim_bool

def s_len(x):
    if isinstance(x, (SArr, SymSeq, SymRange, WH.SSet)): return x.sym_len()
    return len(x)
def s_range(*a):
    if any(isinstance(x, Sc) for x in a):
        r = SymRange(*( (0, a[0]) if len(a) == 1 else a))
        return r
    return range(*a)
def s_enumerate(x, start=0):
    q = LP.seq_of(x)
    if q is None: return enumerate(LP.concrete_list(x), start)
    n, at = q
    r = SymSeq(n, lambda k: (mk(k + elem(start), 'i'), at(k)))
    if isinstance(x, SymSeq) and len(x.segs) > 1:
        off = elem(start); r.segs = []
        for sn, sa in x.segs:
            r.segs.append((sn, lambda k, off=off, sa=sa: (mk(k + off, 'i'), sa(k)))); off = off + sn
    return r
def s_zip(*xs):
    qs = [LP.seq_of(x) for x in xs]
    if all(q is None for q in qs): return zip(*[LP.concrete_list(x) for x in xs])
    ns = [q[0] if q is not None else num(len(list(LP.concrete_list(x)))) for q, x in zip(qs, xs)]
    n = ns[0]
    for m in ns[1:]:
        if not same_dim(n, m): n = T.minimum(n, m)
    ats = [q[1] if q is not None else (lambda k, x=list(LP.concrete_list(x)): V.pick(x, k)) for q, x in zip(qs, xs)]
    return SymSeq(n, lambda k: tuple(a(k) for a in ats))
def s_min(*a, **k):
    xs = list(a[0]) if len(a) == 1 and not isinstance(a[0], (SArr, SymSeq)) else list(a) if len(a) > 1 else a[0]
    if not has_sym(xs): return min(*a, **k)
    if isinstance(xs, (SArr, SymSeq)): return to_sarr(xs).min()
    if getattr(EN.eng(), 'fork_min', False):      # one path per argument that can be the smallest
        r = xs[0]
        for x in xs[1:]:
            if x < r: r = x
        return r
    r = elem(xs[0]); kd = skind(xs[0])
    for x in xs[1:]: r = T.minimum(r, elem(x)); kd = promote(kd, skind(x))
    return mk(r, kd)
def s_max(*a, **k):
    xs = list(a[0]) if len(a) == 1 and not isinstance(a[0], (SArr, SymSeq)) else list(a) if len(a) > 1 else a[0]
    if not has_sym(xs): return max(*a, **k)
    if isinstance(xs, (SArr, SymSeq)): return to_sarr(xs).max()
    r = elem(xs[0]); kd = skind(xs[0])
    for x in xs[1:]: r = T.maximum(r, elem(x)); kd = promote(kd, skind(x))
    return mk(r, kd)
def s_sum(x, start=0):
    if isinstance(x, (SArr, SymSeq)): return to_sarr(x).sum() + start
    r = start
    for y in x: r = r + y
    return r
def s_list(x=()):
    q = LP.seq_of(x)
    if q is None: return list(LP.concrete_list(x))
    return SymSeq(*q)
def s_abs(x): return abs(x)
def s_iter(x):
    if isinstance(x, (SymSeq, SymRange, SArr)):
        if isinstance(x, SArr) and x.ndim == 0: raise TypeError('iteration over a 0-d array')
        return V.SymIter(x)
    if isinstance(x, Sc): raise TypeError("'float' object is not iterable")
    return iter(x)
def s_isinstance(x, cls):
    cs = cls if isinstance(cls, tuple) else (cls,)
    for c in cs:
        if c is s_list: c = list
        if c is int: c = shim_int
        elif c is float: c = shim_float
        elif c is bool: c = shim_bool
        elif c is list and isinstance(x, (SymSeq, LP.GenList)): return True
        elif c is _np.float64 and isinstance(x, Sc) and x.kind == 'f': raise Unsupported('isinstance float64 of a symbolic scalar')
        if isinstance(x, c): return True
    return False
def s_round(x, n=None):
    if isinstance(x, Sc): raise Unsupported('round')
    return round(x) if n is None else round(x, n)
def s_sorted(x, **k):
    if isinstance(x, WH.SSet) and not k: return x.sorted()
    if isinstance(x, (SArr, SymSeq)): raise Unsupported('sorted of a symbolic sequence')
    return sorted(x, **k)
def s_any(x):
    if isinstance(x, (SArr, SymSeq)): return bool(to_sarr(x).any())
    return any(x)
def s_all(x):
    if isinstance(x, (SArr, SymSeq)): return bool(to_sarr(x).all())
    return all(x)
class _SetM(type):
    def __instancecheck__(cls, x): return isinstance(x, (set, frozenset)) or (isinstance(x, WH.SSet) and not x.multi)
    def __call__(cls, x=()):
        if isinstance(x, WH.SSet): return WH.SSet(x.f, x.dim)
        if LP.seq_of(x) is not None: return WH.SSet(WH.SSet.members(x))
        xs = list(LP.concrete_list(x))
        if any(isinstance(y, Sc) for y in xs): return WH.SSet(WH.SSet.members(xs))
        return set(xs)
class s_set(metaclass=_SetM): pass
def pyvc_setcomp(x, elt, conds):
    n, at = LP.seq_of(x)
    k = T.CTX_temp(n); y = at(from_atom(k)); e = V.elem(elt(y)); g = T.num(1)
    for c in conds: g = T.mul(g, V.as_bool(c(y)).as_ind())
    return WH.SSet(lambda i: V.SBool.exists([(k, n)], T.mul(g, T.eq(e, i))).as_ind())
def pyvc_listcomp(x, elt, conds):
    n, at = LP.seq_of(x)
    k = T.CTX_temp(n); y = at(from_atom(k)); g = T.num(1)
    for c in conds: g = T.mul(g, V.as_bool(c(y)).as_ind())
    m = pyvc_setcomp(x, elt, conds) if is_scalar(elt(y)) else None
    en = V.enum_of([n], [k], g)
    r = SymSeq(en.K, lambda j: elt(at(en.fns[0](j))))
    if m is not None: r.members = m.f
    return r
def pyvc_not(x): return ~V.as_bool(x) if isinstance(x, (Sc, SBool)) else not x
def pyvc_and(*xs):
    r = xs[0]
    for x in xs[1:]: r = (V.as_bool(r) & x) if isinstance(r, (Sc, SBool)) or isinstance(x, (Sc, SBool)) else (r and x)
    return r
def pyvc_or(*xs):
    r = xs[0]
    for x in xs[1:]: r = (V.as_bool(r) | x) if isinstance(r, (Sc, SBool)) or isinstance(x, (Sc, SBool)) else (r or x)
    return r
def pyvc_issym(x): return LP.seq_of(x) is not None
def pyvc_comp(x, f):
    n, at = LP.seq_of(x)
    # the element expression is evaluated lazily, once per requested index
    return SymSeq(n, lambda k: f(at(k)))
def pyvc_star(f): return lambda t: f(*t)
BUILTINS = dict(len=s_len, range=s_range, enumerate=s_enumerate, zip=s_zip, min=s_min, max=s_max, sum=s_sum, list=s_list,
                iter=s_iter, isinstance=s_isinstance, round=s_round, sorted=s_sorted, any=s_any, all=s_all,
                int=shim_int, float=shim_float,
                set=s_set, frozenset=s_set, __pyvc_while__=WH.While, __pyvc_setcomp__=pyvc_setcomp, __pyvc_listcomp__=pyvc_listcomp, __pyvc_not__=pyvc_not, __pyvc_and__=pyvc_and, __pyvc_or__=pyvc_or,
                __pyvc_loop__=LP.Loop, __pyvc_issym__=pyvc_issym, __pyvc_comp__=pyvc_comp, __pyvc_star__=pyvc_star)
