"""Loops over iterables of symbolic length: the loop is summarised by an inferred inductive closed form.

Protocol (driven by the transformed source, see loader.py).  The body is executed
 pass 1 (discovery) : arbitrary iteration kappa from the entry state - which locals / arrays / lists change;
 pass 2 (arbitrary iteration): everything that changes is havocked to fresh symbols H; the body's effect on each
          array is then H*coef + R.  Closed forms, each sound by induction on the iteration count:
            coef = 1               ->  A + sum_kappa R            (accumulation)
            writes of different iterations disjoint (obligation) -> A*(1 - sum (1-coef)) + sum R   (map)
          lists that only grow by one append per iteration -> symbolic list;  scalars: accumulation.
 recurrences: a contract supplies candidate state formulas by iteration number (loop_specs); each modified variable
          is matched with the candidates holding on entry, and preservation is an obligation.
Anything else is Unsupported (out of reach, never silently dropped).
"""
import types
from fractions import Fraction as Q
from . import terms as T, engine as EN
from .terms import E, num, from_atom, lift, Unsupported
from .values import *
from .values import ctx, SymIter

UNDEF = object()

def seq_of(it):
    """(n, at) of an iterable with symbolic length, or None if concrete"""
    if isinstance(it, SymRange):
        n = it.length()
        if n.const() is not None and elem(it.start).const() is not None and elem(it.step).const() is not None: return None
        return n, lambda k: mk(it.at(k), 'i')
    if isinstance(it, SymSeq):
        if it.n.const() is not None: return None
        return it.n, it.at
    if isinstance(it, SArr):
        if it.ndim == 0: raise TypeError('iteration over a 0-d array')
        if it._shape[0].const() is not None: return None
        return it._shape[0], lambda k: _row(it, k)
    if isinstance(it, SymIter): return seq_of(it.x)
    return None
def _row(a, k):
    if a.ndim > 1:      # rows are views: what is written into them is written into the array
        r = a.view(a._shape[1:], lambda ix: [k] + list(ix), lambda b: (T.eq(b[0], k), b[1:]))
        return out(r)
    r = SArr.make([], lambda: a.get([k]), a.kind)
    return out(r) if r.ndim else (mk(r.e, a.kind) if a.kind != 'b' else SBool.ind(r.e))
def concrete_list(it):
    if isinstance(it, SymRange): return [mk(it.at(num(k)), 'i') for k in range(int(it.length().const()))]
    if isinstance(it, SymSeq): return [it.at(num(k)) for k in range(int(it.n.const()))]
    if isinstance(it, SArr): return [it[k] for k in range(int(it._shape[0].const()))]
    if isinstance(it, SymIter): return concrete_list(it.x)
    return it

def subst_value(v, s, memo=None):
    if isinstance(v, Sc): return mk(T.subst(v.e, s), v.kind)
    if isinstance(v, SBool):
        return SBool.ind(T.subst(v.as_ind(), s))
    if isinstance(v, SArr):
        if not any(k in v.e.fv or any(k in d.fv for d in v._shape) for k in s): return v
        sh = [T.subst(d, s) for d in v._shape]
        return SArr.make(sh, lambda *ix: T.subst(v.get(list(ix)), s), v.kind)
    if isinstance(v, SSp):
        if not any(k in v.e.fv for k in s): return v
        r = SSp.make([T.subst(d, s) for d in v._shape], lambda i, j: T.subst(v.get(i, j), s), v.kind, None, v.fmt)
        if v.st is not None:
            r.st = T.subst(v.get_st(*[from_atom(x) for x in r.vs]), s)
        return r
    if isinstance(v, tuple): return tuple(subst_value(x, s) for x in v)
    if isinstance(v, list): return [subst_value(x, s) for x in v]
    if isinstance(v, types.FunctionType):
        d = v.__defaults__; kd = v.__kwdefaults__
        d2 = tuple(subst_value(x, s) for x in d) if d else d
        f = types.FunctionType(v.__code__, v.__globals__, v.__name__, d2, v.__closure__)
        f.__kwdefaults__ = {k: subst_value(x, s) for k, x in kd.items()} if kd else kd
        return f
    import functools
    if isinstance(v, functools.partial):
        return functools.partial(subst_value(v.func, s), *[subst_value(a, s) for a in v.args], **{k: subst_value(a, s) for k, a in v.keywords.items()})
    return v

def same_val(a, b):
    if a is b: return True
    if isinstance(a, Sc) and isinstance(b, Sc): return a.e == b.e
    if isinstance(a, (int, float, str)) and isinstance(b, (int, float, str)) and type(a) == type(b): return a == b
    return False

class Loop:
    def __init__(self, lid, it, names, has_exit, attr):
        self.lid, self.names, self.has_exit, self.attr = lid, names, has_exit, attr
        s = seq_of(it)
        self.symbolic = s is not None
        if not self.symbolic:
            self.it = concrete_list(it); return
        segs = it.segs if isinstance(it, SymSeq) and len(it.segs) > 1 else [s]
        self.segs = []
        for n, at in segs:
            if n.const() is None: self.segs.append((n, at, None))
            else:
                for k in range(int(n.const())): self.segs.append((num(1), at, num(k)))
        self.mode = 'next segment'
        self.vals = {}
        self.en = EN.eng()
        if has_exit: raise Unsupported('break/return inside a loop of symbolic length')
        if attr: raise Unsupported('attribute assignment inside a loop of symbolic length')
    # ---- state of the transformed loop
    def has(self, x): return x in self.vals
    def get(self, x): return self.vals[x]
    def item(self): return self.cur_item
    def finish(self):
        if self.mode != 'done': raise Unsupported('loop left early')

    def next(self, loc):
        c = ctx()
        if self.mode == 'step':
            self.end_pass()
            self.summarise(loc)
            self.mode = 'next segment'; loc = {**loc, **self.vals}
        elif self.mode == 'next segment': self.vals = {}
        if self.mode == 'cut': self.cut_end(loc)
        if self.mode == 'next segment' and len(self.segs) == 1 and self.segs[0][2] is None:
            for sp in getattr(self.en, 'for_specs', ()):
                st = sp.match(self, loc)
                if st is not None: return self.cut_begin(sp, st, loc)
        if self.mode == 'next segment':
            # stretches of the iterable one after the other; single items are executed as they are
            if not self.segs:
                self.mode = 'done'; return False
            self.n, self.at, one = self.segs.pop(0)
            if one is not None:
                self.cur_item = self.at(one); return True
            for a in ('uid0', 'root_entry', 'decisions'): self.__dict__.pop(a, None)
            self.mode = 'start'
        if self.mode == 'start':
            self.entry = {k: v for k, v in loc.items() if not k.startswith('__')}
            self.lists = {id(v): (v, list(v)) for v in self.entry.values() if type(v) is list}
            self.outer_written = self.en.written
            self.kappa = T.CTX_temp(self.n, 'kap')
            self.hyp_save()
            c.assume(T.le(1, self.n), 'loop entered')
            self.begin_pass()
            self.cur_item = self.at(from_atom(self.kappa))
            self.mode = 'discover'
            return True
        if self.mode == 'discover':
            self.end_pass()
            self.roots = dict(self.en_written)          # uid -> array (created before the loop)
            self.roots = {u: a for u, a in self.roots.items() if u < self.uid0}
            self.changed = [x for x in self.names if x in loc and not (x in self.entry and same_val(loc[x], self.entry[x]))]
            self.grown = [(v, old) for v, old in self.lists.values() if len(v) != len(old) or any(a is not b for a, b in zip(v, old))]
            self.disc = {x: loc[x] for x in self.changed}
            for a in self.roots.values(): a._e = self.root_entry[a.uid]
            for v, old in self.grown: v[:] = old
            # havoc
            self.begin_pass()
            self.hav = {}
            self.vals = {k: v for k, v in self.vals.items() if k not in self.changed}
            for u, a in self.roots.items():
                f = T.Fn(f'hav{u}_{T._ctr[0]}', a.ndim, sort='int' if a.kind in 'i' else 'real'); T._ctr[0] += 1
                self.hav[u] = f
                a._e = f(*[from_atom(v) for v in a.vs]) if a.kind != 'b' else T.ne(f(*[from_atom(v) for v in a.vs]), 0)
            self.hsc = {}
            self.recs = {}
            for x in self.changed:
                if x in self.entry:
                    v = self.entry[x]
                    r = self.match_rec(v, self.disc[x])
                    if r is not None:
                        self.recs[x] = r; self.vals[x] = r[0].state(from_atom(self.kappa) + r[1], v)
                        continue
                    if isinstance(v, (Sc, int, float)) and not isinstance(v, bool) and is_scalar(self.disc[x]):
                        kd = promote(skind(v), skind(self.disc[x]))
                        h = T.fresh('hv', 'int' if kd == 'i' else 'real')
                        self.hsc[x] = (h, kd); self.vals[x] = Sc(from_atom(h), kd)
                    elif isinstance(v, SArr) and isinstance(self.disc[x], SArr):
                        f = T.Fn(f'hav_{x}_{T._ctr[0]}', v.ndim, sort='real'); T._ctr[0] += 1
                        self.hsc[x] = (f, v.kind)
                        self.vals[x] = SArr.make(v._shape, lambda *ix: f(*ix), v.kind)
                    else:
                        # a local that is merely reassigned before use, or not summarisable
                        self.vals[x] = Poison(x)
            self.reclists = []
            for v, old in self.grown:
                v[:] = old
                self.reclists.append((v, len(old)))
            self.cur_item = self.at(from_atom(self.kappa))
            self.mode = 'step'
            return True
        raise Unsupported('loop protocol')

    # ---- a loop cut by an invariant of the contract (en.for_specs): an arbitrary iteration, then the state after the last one
    def cut_begin(self, spec, st, loc):
        c = ctx()
        self.n, self.at, _ = self.segs.pop(0)
        self.spec, self.st = spec, st
        spec.entry(self, st, loc)
        self.outer_written = self.en.written
        self.kappa = T.CTX_temp(self.n, 'kap'); self.hyp_save()
        c.assume(T.le(1, self.n), 'loop entered')
        self.root_entry = {}; self.uid0 = self.en.array_counter; self.en.written = Written(self)
        self.vals = {x: Poison(x) for x in self.names if x in loc}
        self.vals.update(spec.havoc(self, st, loc, from_atom(self.kappa)))
        self.state = set(spec.names(st))
        self.entry = {k: v for k, v in loc.items() if not k.startswith('__')}; self.entry.update(self.vals)
        self.size = {id(v): (v, len(v)) for v in self.entry.values() if type(v) in (list, dict, set)}
        self.cur_item = self.at(from_atom(self.kappa)); self.mode = 'cut'
        return True
    def cut_end(self, loc):
        w = [a for a in self.en.written.values() if a.uid < self.uid0]
        if w and not (hasattr(self.spec, 'writes') and self.spec.writes(self, self.st, w)): raise Unsupported('the loop writes an array its invariant does not mention')
        self.en.written = self.outer_written
        if self.outer_written is not None:
            for a in w: self.outer_written.note(a, self.root_entry[a.uid])
        for n, v in loc.items():
            if n in self.state or n in self.names or n.startswith('__'): continue
            if n in self.entry and not same_val(v, self.entry[n]): raise Unsupported(f'the loop changes {n}, which its invariant does not mention')
        if any(len(v) != n for v, n in self.size.values()): raise Unsupported('the loop changes a collection its invariant does not mention')
        self.spec.step(self, self.st, loc, from_atom(self.kappa))
        self.hyp_restore()
        self.vals = {x: Poison(x) for x in self.names}
        self.vals.update(self.spec.exit(self, self.st, loc))
        self.mode = 'next segment'

    def match_rec(self, v, w):
        """a ghost sequence of the contract one of whose first elements is this variable on entry"""
        if not (isinstance(v, SArr) and isinstance(w, SArr)): return None
        for r in getattr(self.en, 'rec_specs', ()):
            for o in range(r.order):
                if r.is_base(o, v): return (r, o)
        return None
    # ---- passes
    def begin_pass(self):
        self.uid0 = getattr(self, 'uid0', None) or self.en.array_counter
        self.en.written = Written(self)
        self.root_entry = getattr(self, 'root_entry', {})
        self.dec0 = len(self.en.taken)
        self.en.loop_frames.append(self)
        self.decisions = getattr(self, 'decisions', [])
    def end_pass(self):
        self.en_written = dict(self.en.written)
        self.en.loop_frames.pop()
        self.en.written = self.outer_written
    def hyp_save(self):
        c = ctx()
        self.saved = (len(c.hyps), len(c.hyp_src), dict(c.lower), set(c.nonneg_vars), set(c.nonneg_exprs), set(c.nonzero_exprs), c._hv, set(c.unit))
    def hyp_restore(self):
        c = ctx()
        n, m, lo, nv, ne, nz, hv, un = self.saved
        del c.hyps[n:]; del c.hyp_src[m:]
        c.lower, c.nonneg_vars, c.nonneg_exprs, c.nonzero_exprs, c._hv, c.unit = lo, nv, ne, nz, hv, un
        c.bump()
    def on_branch(self, b, v):
        self.decisions.append((b, v))

    # ---- closed forms
    def depends_h(self, e):
        hf = {f.name for f in self.hav.values()} | {h.name for h, _ in self.hsc.values() if isinstance(h, T.Fn)}
        if e.fns & hf: return True
        hv = {h for h, _ in self.hsc.values() if not isinstance(h, T.Fn)}
        return bool(e.fv & hv)
    def summarise(self, loc):
        c = ctx()
        k = self.kappa; ke = from_atom(k)
        keep = []
        for b, v in self.decisions:
            voc = b.vocab()
            bad = any(k in e.fv or self.depends_h(e) for e in voc)
            if b.t[0] == 'ex' and (k in b.t[2].fv or self.depends_h(b.t[2])): bad = True
            if bad: raise Unsupported(f'branch on the loop index or loop state inside a loop of symbolic length')
            keep.append((b, v))
        newvals = {x: loc[x] for x in self.changed if x in loc}
        for a in list(self.en_written.values()):
            if a.uid < self.uid0 and a.uid not in self.roots: raise Unsupported('loop writes differ between passes')
        step = {u: a._e for u, a in self.roots.items()}
        finals = {}
        for u, a in self.roots.items():
            ix = [from_atom(v) for v in a.vs]
            h = self.hav[u](*ix)
            if a.kind == 'b': raise Unsupported('boolean array updated in a loop of symbolic length')
            new = step[u]
            coef, rest = linear_in(merge_index(new, T.the_atom(h)), T.the_atom(h))
            if self.depends_h(coef) or self.depends_h(rest): raise Unsupported('loop-carried dependence in an array update')
            finals[u] = (a, coef, rest)
        scal = {}
        for x, (h, kd) in self.hsc.items():
            v = newvals.get(x)
            if isinstance(h, T.Fn):
                if isinstance(v, SArr) and not self.depends_h(v.e): scal[x] = ('last', v); continue
                # no invariant known: after the loop the array is arbitrary (of the shape it keeps)
                if not isinstance(v, SArr) or v.ndim != self.entry[x].ndim or any(not c.prove_zero(p - q)[0] for p, q in zip(v._shape, self.entry[x]._shape)): raise Unsupported(f'loop-carried array {x}')
                self.en.imprecise = f'loop-carried array {x} without an invariant'
                scal[x] = ('any', v); continue
            if v is None or not is_scalar(v): scal[x] = ('last', v); continue
            e = elem(v)
            if not self.depends_h(e): scal[x] = ('last', v); continue
            co, rest = linear_in(e, h)
            if co.const() != 1 or self.depends_h(rest): raise Unsupported(f'loop-carried scalar {x}')
            scal[x] = ('acc', rest, kd)
        for x in self.changed:
            if x not in self.hsc and x not in self.recs:
                v = newvals.get(x)
                for e in exprs_of(v):
                    if self.depends_h(e): raise Unsupported(f'loop-carried value {x}')
                scal[x] = ('last', v)
        for x, (r, o) in self.recs.items():
            v = newvals.get(x)
            ok, how = r.is_state(ke + 1 + o, v) if isinstance(v, SArr) else (False, 'not an array')
            self.en.oblige(f'{self.lid}: {x} follows the recurrence of the contract', ok, how)
            scal[x] = ('rec', None)
        # lists
        appended = []
        for v, n0 in self.reclists:
            if len(v) != n0 + 1: raise Unsupported('list changed by other than one append per iteration')
            val = v[n0]
            for e in exprs_of(val):
                if self.depends_h(e): raise Unsupported('loop-carried list element')
            appended.append((v, n0, val))
            del v[n0:]
        self.hyp_restore()
        for b, v in keep: b.assume(v)
        # restore arrays, then set finals
        for u, (a, coef, rest) in finals.items():
            a0 = self.root_entry[u]
            if coef.const() == 1:
                a._e = a0 + T.sum_over([(k, self.n)], rest)
            else:
                w = T.one_minus(coef)
                k2 = T.CTX_temp(self.n, 'kap')
                dis = T.mul(T.mul(w, T.subst(w, {k: from_atom(k2)})), T.ne(ke, from_atom(k2)))
                # definite support of the update: w may be any indicator
                ok, how = c.prove_zero(dis)
                if not ok: raise Unsupported('writes of different iterations overlap or cannot be separated')
                self.en.oblige(f'{self.lid}: iterations write disjoint entries', ok, how)
                a._e = T.mul(a0, T.one_minus(T.sum_over([(k, self.n)], w))) + T.sum_over([(k, self.n)], rest)
                self.add_blocks(a)
            a.writes += 1
            if self.outer_written is not None: self.outer_written.note(a, a0)
            if a.owner is not None: a.owner(a)
        vals = {}
        last = {k: self.n - 1}
        for x, r in scal.items():
            if r[0] == 'acc': vals[x] = mk(elem(self.entry[x]) + T.sum_over([(k, self.n)], r[1]), r[2])
            elif r[0] == 'any':
                g = self.arbitrary(x, r[1].ndim)
                vals[x] = SArr.make(self.entry[x]._shape, lambda *ix, g=g: g(*ix), r[1].kind)
            elif r[0] == 'rec': vals[x] = self.recs[x][0].state(self.n + self.recs[x][1], self.entry[x])
            elif r[1] is None: pass
            else: vals[x] = subst_value(r[1], last)
        for v, n0, val in appended:
            s = SymSeq(self.n, lambda kk, val=val: subst_value(val, {k: kk}))
            if n0: s = seq_concat(list(v), s)
            # names bound to this list now denote the symbolic list
            for x, y in self.entry.items():
                if y is v: vals[x] = s
        hold = [x for x, y in self.entry.items() for v, _, _ in appended if y is v and x not in self.names]
        if hold: raise Unsupported('list grown in a loop of symbolic length under an alias: ' + ','.join(hold))
        self.vals = vals
    def add_blocks(self, a): pass
    def arbitrary(self, x, ndim):
        """the value of array x after the loop, of which nothing is known but that it depends on the state at entry only"""
        key = [self.lid, x, ndim, self.n.dig]; same = True
        for nm, v in sorted(self.entry.items()):
            if isinstance(v, SArr): key += [nm, v.kind, tuple(d.dig for d in v._shape), v.get([T.var(f'canon{i}', 'int') for i in range(v.ndim)]).dig]
            elif isinstance(v, Sc): key += [nm, v.kind, v.e.dig]
            elif v is None or isinstance(v, (int, float, str)): key += [nm, repr(v)]
            elif not isinstance(v, Loop): same = False
        memo = self.en.__dict__.setdefault('loop_memo', {})
        g = memo.get(tuple(key)) if same else None
        if g is None:
            g = T.Fn(f'any_{x}_{T._ctr[0]}', ndim, sort='real'); T._ctr[0] += 1
            if same: memo[tuple(key)] = g
        return g

class Rec:
    """ghost sequence S_0, S_1, ...: S_o = base[o] for o < order, S_{k+order} = step([S_k, ..., S_{k+order-1}], k).
    As an inductive invariant: proved on entry (base) and preserved (step) by the loop that computes it."""
    def __init__(self, name, arity, base, step):
        self.fn = T.Fn(name, arity + 1); self.arity, self.base, self.step, self.order = arity, base, step, len(base)
    def at(self, k, ix):
        """S_k; the defining equations are unfolded for k = c and k = v + c with c >= order"""
        k = lift(k); c = k.const()
        if c is not None and c < self.order: return self.base[int(c)](list(ix))
        return T.app(self.fn, k, *ix)
    def unfold(self, k, ix):
        """S_k by its defining equation (k >= order)"""
        return self.step(lambda o, jx: self.at(k - self.order + o, jx), k - self.order, list(ix))
    def state(self, k, like):
        return SArr.make(like._shape, lambda *ix: self.at(k, ix), 'f')
    def is_base(self, o, v):
        if v.ndim != self.arity: return False
        ix = [from_atom(T.CTX_temp(d)) for d in v._shape]
        return ctx().prove_zero(v.get(ix) - self.base[o](ix), timeout=1500)[0]
    def is_state(self, k, v):
        if v.ndim != self.arity: return False, 'rank'
        ix = [from_atom(T.CTX_temp(d)) for d in v._shape]
        x = v.get(ix)
        ok, how = ctx().prove_zero(x - self.at(k, ix), timeout=3000)
        return (ok, how) if ok else ctx().prove_zero(x - self.unfold(k, ix))

class GenList:
    """a list in the middle of a cut loop: n elements so far, of which only the last is known, then what is appended"""
    def __init__(self, n, last): self.n, self.last, self.new = n, last, []
    def append(self, x): self.new.append(x)
    def sym_len(self): return dim_out(self.n + len(self.new))
    def __getitem__(self, k):
        if isinstance(k, slice) or not is_scalar(k): raise Unsupported('slice of a list built by a cut loop')
        e = elem(k)
        if e.const() is not None and e.const() < 0: o = int(e.const())
        else:
            o = (e - self.n - len(self.new)).const()
            if o is None or o >= 0: raise Unsupported('element of a list built by a cut loop')
            o = int(o)
        o += len(self.new)
        if o >= 0: return self.new[o]
        if o == -1 and self.last is not None: return self.last
        raise Unsupported('an earlier element of a list built by a cut loop')
    def __iter__(self): raise Unsupported('iteration over a list built by a cut loop')
class BuiltList(SymSeq):
    """the list after the loop"""
    def reverse(self):
        at, n = self.at, self.n
        self.at = lambda k: at(n - 1 - k); self.segs = [(self.n, self.at)]
    def __getitem__(self, k):
        if isinstance(k, slice) and k.start is None and k.stop is None and (k.step is None or elem(k.step).const() == -1):
            r = BuiltList(self.n, self.at)
            if k.step is not None: r.reverse()
            return r
        return super().__getitem__(k)
class Levels:
    """a loop that computes the next of a sequence of arrays from the last one: x[o+k] is `element(k)` (arrays given by the
    contract), the lists it is appended to start with element(0); what else it appends is checked by `on_step`"""
    def __init__(self, element, on_step, after=None): self.element, self.on_step, self.after = element, on_step, after
    def same(self, x, y, what=None):
        if not isinstance(x, SArr) or x.ndim != y.ndim: return False, 'not an array of that rank'
        for d, e in zip(x._shape, y._shape):
            ok, how = ctx().prove_zero(d - e)
            if not ok: return ok, 'shape: ' + how
        ix = [from_atom(T.CTX_temp(d)) for d in y._shape]
        return ctx().prove_zero(x.get(ix) - y.get(ix))
    def match(self, loop, loc):
        full, empty, arrs = [], [], []
        for n in loop.names:
            v = loc.get(n)
            if type(v) is list and len(v) == 1 and isinstance(v[0], SArr) and self.same(v[0], self.element(num(0)))[0]: full.append(n)
            elif type(v) is list and not v: empty.append(n)
            elif isinstance(v, SArr) and self.same(v, self.element(num(0)))[0]: arrs.append(n)
            elif type(v) is list: return None
        if not (full or arrs) or len(empty) > 1: return None
        return dict(full=full, empty=empty, arrs=arrs)
    def names(self, st): return st['full'] + st['empty'] + st['arrs']
    def entry(self, loop, st, loc): loop.en.oblige(f'{loop.lid}: the sequence starts with the stated array', True, 'matched on entry')
    def havoc(self, loop, st, loc, k):
        x = self.element(k)
        v = {n: GenList(k + 1, x) for n in st['full']}
        v.update({n: GenList(k, None) for n in st['empty']}); v.update({n: x for n in st['arrs']})
        st['given'] = dict(v); return v
    def step(self, loop, st, loc, k):
        xs = []
        for n in st['full'] + st['empty']:
            g = loc[n]
            if g is not st['given'][n]: raise Unsupported('result list replaced')
            if len(g.new) != 1: raise Unsupported('a list that does not grow by one element per iteration')
            if n in st['full']: xs.append(g.new[0])
        xs += [loc[n] for n in st['arrs']]
        for x in xs[1:]:
            if not (x is xs[0] or self.same(x, xs[0])[0]): raise Unsupported('state of a cut loop')
        self.on_step(k, xs[0], loc[st['empty'][0]].new[0] if st['empty'] else None)
    def exit(self, loop, st, loc):
        n = loop.n
        v = {x: BuiltList(n + 1, self.element) for x in st['full']}
        v.update({x: self.element(n) for x in st['arrs']})
        for x in st['empty']:
            if self.after is None: raise Unsupported('list built by a cut loop')
            v[x] = BuiltList(n, self.after)
        return v

class Written(dict):
    def __init__(self, loop):
        self.loop = loop; self.uid0 = EN.eng().array_counter
    def note_sparse(self, a, old):
        if a.uid < self.uid0: raise Unsupported('a loop writes a sparse matrix created before it')
    def note(self, a, old):
        self[a.uid] = a
        self.loop.root_entry.setdefault(a.uid, old)

class Poison:
    def __init__(self, x): self.x = x
    def __getattr__(self, k): raise Unsupported(f'loop-carried object {self.__dict__["x"]}')

def exprs_of(v):
    if isinstance(v, Sc): return [v.e]
    if isinstance(v, SArr): return [v.e] + list(v._shape)
    if isinstance(v, SSp): return [v.e]
    if isinstance(v, SBool): return v.vocab()
    if isinstance(v, (tuple, list)): return [e for x in v for e in exprs_of(x)]
    if isinstance(v, types.FunctionType): return [e for x in (v.__defaults__ or ()) for e in exprs_of(x)]
    return []

def merge_index(e, atom):
    """[i=k]*h(k) is [i=k]*h(i): occurrences of the array at an index equal to its own under the indicators"""
    out = []
    for m, c in e.t.items():
        f = dict(m[0]); hit = None
        for a in f:
            if a.kind == 'app' and a.fn is atom.fn and a != atom: hit = a
        if hit is None or f[hit] != 1: out.append(T.from_mono(m, c)); continue
        inds = T.from_mono(((), m[1])); same = num(1)
        for x, y in zip(hit.args, atom.args): same = T.mul(same, T.eq(x, y))
        if T.mul(inds, T.one_minus(same)).t: out.append(T.from_mono(m, c)); continue
        del f[hit]; f[atom] = f.get(atom, Q(0)) + 1
        out.append(T.from_mono((tuple(sorted(f.items(), key=lambda y: y[0].dig)), m[1]), c))
    # written without re-normalising: the normal form would move the index back
    r = {}
    for x in out:
        for m, c in x.t.items(): r[m] = r.get(m, Q(0)) + c
    return E({m: c for m, c in r.items() if c})

def linear_in(e, atom):
    """e = coef*atom + rest (both free of a plain occurrence of atom)"""
    co, rest = [], []
    for m, c in e.t.items():
        f = dict(m[0])
        x = f.get(atom)
        if x is None: rest.append(T.from_mono(m, c)); continue
        if x != 1: raise Unsupported('nonlinear loop update')
        del f[atom]
        co.append(T.from_mono((tuple(sorted(f.items(), key=lambda y: y[0].dig)), m[1]), c))
    return T.addall(co), T.addall(rest)
