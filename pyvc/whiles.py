"""While loops cut by an invariant: entry obligation, havoc of everything the loop changes, then either an arbitrary
iteration (which must re-establish the invariant; the path ends there) or the exit (condition false).  The invariant
comes from a specification in the contract (en.while_specs), matched by the *types* of the loop state, not by names.
Sets and lists used as work lists are symbolic collections of integers (SSet)."""
import collections
from . import terms as T, engine as EN
from .terms import num, from_atom, lift, Unsupported
from .values import *
from .values import ctx
from . import loops as LP

class SSet:
    """collection of integers given by its membership indicator; multi: a list/deque (an element may occur several times)"""
    def __init__(self, f, dim=None, multi=False, distinct=True): self.f, self.dim, self.multi, self.distinct = f, dim, multi, distinct
    def set(self, f): self.f = f
    # membership of an iterable
    @staticmethod
    def members(x):
        if isinstance(x, SSet): return x.f
        if getattr(x, 'members', None) is not None: return x.members
        q = LP.seq_of(x)
        if q is None:
            xs = [elem(y) for y in LP.concrete_list(x)]
            return lambda i: _lor([T.eq(i, y) for y in xs])
        n, at = q
        k = T.CTX_temp(n); v = elem(at(from_atom(k)))
        return lambda i: SBool.exists([(k, n)], T.eq(v, i)).as_ind() if (k in v.fv) else T.mul(T.lt(0, n), T.eq(v, i))
    def add_members(self, g):
        if self.dim is not None:
            i = T.var('any', 'int')
            ok, _ = ctx().prove_ind(T.one_minus(T.mul(g(i), T.one_minus(T.in_range(i, self.dim)))))
            if not ok: raise Unsupported('elements of a work list not known to be indices')
        f = self.f
        self.f = lambda i: T.lor(f(i), g(i))
    def add(self, x): self.update([x])
    def append(self, x):
        self.note_new(elem(x)); self.update([x])
    def note_new(self, x):
        if self.multi and self.distinct:
            ok, _ = ctx().prove_ind(T.one_minus(self.f(x)))
            self.distinct = self.distinct and ok
    def update(self, *xs):
        for x in xs: self.add_members(SSet.members(x))
    def extend(self, x):
        if self.multi: self.distinct = False
        self.update(x)
    def __ior__(self, x): self.update(x); return self
    def __or__(self, x):
        r = SSet(self.f, self.dim); r.update(x); return r
    def __iadd__(self, x): self.extend(x); return self
    def pop(self, *a):
        if a and a not in ((0,), (-1,)): raise Unsupported('pop from the middle of a work list')
        if not bool(self): raise (IndexError if self.multi else KeyError)('pop from an empty collection')
        if self.dim is None: raise Unsupported('pop from a set of unknown range')
        w = T.CTX_temp(self.dim, 'pop'); we = from_atom(w)
        c = ctx(); c.assume(self.f(we)); c._hv = c._hv | {w}
        f = self.f
        if self.multi and not self.distinct:
            g = T.var(f'more{T._ctr[0]}', 'int'); T._ctr[0] += 1
            self.f = lambda i: T.mul(f(i), T.lor(T.ne(i, we), T.eq(g, 1)))
        else: self.f = lambda i: T.mul(f(i), T.ne(i, we))
        return mk(we, 'i')
    popleft = pop
    def discard(self, x):
        x = elem(x); f = self.f; self.f = lambda i: T.mul(f(i), T.ne(i, x))
    def sb(self):
        if self.dim is None: raise Unsupported('emptiness of a set of unknown range')
        w = T.CTX_temp(self.dim)
        return SBool.exists([(w, self.dim)], self.f(from_atom(w)))
    def __bool__(self): return bool(self.sb())
    def sym_len(self):
        """for comparisons with zero"""
        if not self.multi:
            w = T.CTX_temp(self.dim); b = [(w, self.dim)]; g = self.f(from_atom(w)); return Sc(T.sum_over(b, g), 'i', (b, g))
        n = T.var(f'len{T._ctr[0]}', 'int'); T._ctr[0] += 1
        ctx().assume(T.le(0, n)); b = self.sb()
        i = b.as_ind(); ctx().assume(T.one_minus(T.mul(i, T.eq(n, 0)))); ctx().assume(T.one_minus(T.mul(T.one_minus(i), T.lt(0, n))))
        w = T.CTX_temp(self.dim)
        return Sc(n, 'i', ([(w, self.dim)], self.f(from_atom(w))))
    def __contains__(self, x): return bool(SBool.ind(self.f(elem(x))))
    def copy(self): return SSet(self.f, self.dim, self.multi, self.distinct)
    def __iter__(self): raise Unsupported('iteration over a symbolic set')
    def sorted(self):
        if not self.distinct: raise Unsupported('sorted of a list that may contain duplicates')
        if self.dim is None: raise Unsupported('sorted of a set of unknown range')
        v = T.CTX_temp(self.dim)
        en = enum_of([self.dim], [v], self.f(from_atom(v)))
        return SymSeq(en.K, lambda k: mk(en.fns[0](k), 'i'))
def _lor(xs):
    r = num(0)
    for x in xs: r = T.lor(r, x)
    return r

class While:
    """one dynamic execution of a while statement"""
    def __init__(self, lid, info):
        self.lid, self.info, self.mode, self.vals, self.spec = lid, info, 'plain', {}, None
        self.en = EN.eng()
        self.specs = list(getattr(self.en, 'while_specs', ()))
    def has(self, x): return x in self.vals
    def get(self, x): return self.vals[x]
    def next(self, loc):
        if self.mode == 'plain':
            for s in self.specs:
                st = s.match(self, loc)
                if st is not None: self.spec, self.st = s, st; break
            else:
                self.specs = []; return True
            self.mode = 'cut'
            for name, ind in self.spec.invariants(self.st, loc): self.claim(f'{name} (on entry)', ind)
            self.before = {a.uid: a._e for a in self.st.get('arrays', ()) if isinstance(a, SArr)}
            self.vals = self.spec.havoc(self.st, loc)
            for n in self.info['stored']:
                if n not in self.vals and n in loc and n not in self.st['names']: self.vals[n] = LP.Poison(n)
            self.entry = {k: v for k, v in loc.items() if not k.startswith('_')}; self.entry.update(self.vals)
            for name, ind in self.spec.invariants(self.st, self.entry): self.spec.assume(ind)
            self.outer = self.en.written; self.en.written = Written(self.outer); self.uid0 = self.en.array_counter
            me = loc.get('self')
            self.attrs = dict(vars(me)) if hasattr(me, '__dict__') else {}
            self.size = {id(v): (v, len(v)) for v in self.entry.values() if type(v) in (list, dict, set)}
            return True
        # an arbitrary iteration came to its end
        self.vals = {}
        for a in self.en.written.values():
            if a.uid < self.uid0 and not any(a is b for b in self.st['arrays']): raise Unsupported('the loop writes an array its invariant does not mention')
        for n, v in loc.items():
            if n in self.st['names'] or n in self.info['stored'] or n.startswith('_'): continue
            if n in self.entry and not LP.same_val(v, self.entry[n]): raise Unsupported(f'the loop changes {n}, which its invariant does not mention')
        for v, n in self.size.values():
            if len(v) != n and not any(v is x for x in self.st.get('lists', ())): raise Unsupported('the loop changes a collection its invariant does not mention')
        me = loc.get('self')
        for k, v in (vars(me) if hasattr(me, '__dict__') else {}).items():
            if k not in self.attrs or not (v is self.attrs[k] or LP.same_val(v, self.attrs[k])): raise Unsupported(f'the loop changes self.{k}, which its invariant does not mention')
        self.spec.step(self, self.st, loc)
        for name, ind in self.spec.invariants(self.st, loc): self.claim(f'{name} (preserved)', ind)
        raise EN.PathEnd()
    def done(self, loc):
        if self.mode != 'cut': return
        self.en.written = self.outer
        if self.outer is not None:
            for a in self.st.get('arrays', ()):
                if isinstance(a, SArr) and a.uid < self.uid0: self.outer.note(a, self.before.get(a.uid, a._e))
        self.spec.exit(self, self.st, loc)
    def claim(self, name, ind):
        """an invariant is a device of the proof: if it does not hold, the loop is outside the verifier's reach"""
        binders, e = ind if isinstance(ind, tuple) else ([], ind)
        ok, how = ctx().prove_ind(e)
        if not ok: raise Unsupported(f'loop invariant: {name}: {how}'[:300])
        self.en.oblige(f'{self.lid}: {name}', ok, how)

class Written(dict):
    def __init__(self, outer):
        self.outer = outer; self.uid0 = EN.eng().array_counter
    def note_sparse(self, a, old):
        if a.uid < self.uid0: raise Unsupported('a loop writes a sparse matrix created before it')
    def note(self, a, old):
        self[a.uid] = a
        if self.outer is not None: self.outer.note(a, old)

def relation_of(loop, loc, N):
    """the edge relation the loop follows: the square matrix it reads"""
    def square(v): return isinstance(v, (SSp, SArr)) and len(v._shape) == 2 and all(d == N or same_dim_quick(d, N) for d in v._shape)
    for n in loop.info['loads']:
        if n in loc and square(loc[n]): return loc[n]
    s = loc.get('self')
    if s is not None:
        for a in ('W', 'A'):
            if a in loop.info['attrs'] and square(getattr(s, a, None)): return getattr(s, a)
        if square(getattr(s, 'W', None)): return s.W      # read by a helper the loop calls
    return None

class Worklist:
    """graph search.  With V the marked vertices, S the work list, V0/S0 their values on entry, A the edge relation and
    R the vertices reachable from S0 (least set containing S0 closed under A):
      V0 in V,  S0 in V u S,  V in V0 u R,  S in R,  A-successors of V - V0 in V u S,  collected = V - V0."""
    def match(self, loop, loc):
        arrs = [n for n in loop.info['subs'] if isinstance(loc.get(n), SArr) and loc[n].kind == 'b' and loc[n].ndim == 1]
        colls = [n for n in loop.info['mutated'] if isinstance(loc.get(n), (set, list, SSet, collections.deque)) and n in loop.info['cond']]
        bags = [n for n in loop.info['mutated'] if isinstance(loc.get(n), (list, set)) and n not in loop.info['cond']]
        if len(arrs) != 1 or len(colls) != 1: return None
        V, S = loc[arrs[0]], loc[colls[0]]; N = V._shape[0]
        rel = relation_of(loop, loc, N)
        if rel is None: return None
        if any(len(loc[b]) for b in bags): return None
        A = lambda u, v: T.ne(rel.get(u, v) if isinstance(rel, SSp) else rel.get([u, v]), 0)
        n = len(self.searches(loop))
        R = T.Fn(f'reach{n}', 1, 'bool'); T._ctr[0] += 1
        v0 = V.copy(); s0 = SSet.members(S)
        multi = not isinstance(S, (set, SSet)) or (isinstance(S, SSet) and S.multi)
        ss = SSet(s0, N, multi, False)
        ok, _ = ctx().prove_ind(T.one_minus(T.mul(s0(T.var('any', 'int')), T.one_minus(T.in_range(T.var('any', 'int'), N)))))
        if not ok: return None
        st = dict(V=V, v0=v0, s0=s0, S=colls[0], A=A, R=lambda i: T.ind_p(R, i), N=N, names={colls[0], *bags}, bags=bags, arrays=[V], multi=multi, rel=rel,
                  entry={colls[0]: ss, **{b: SSet(lambda i: num(0), N, isinstance(loc[b], list)) for b in bags}})
        a, b = T.CTX_temp(N), T.CTX_temp(N); ae, be = from_atom(a), from_atom(b)
        imp = self.imp
        assume_forall([(a, N)], imp(s0(ae), st['R'](ae)))
        assume_forall([(a, N), (b, N)], imp(T.mul(st['R'](ae), A(ae, be)), st['R'](be)))
        st['avoids'] = False
        V0 = lambda i: v0.get([i])
        if all(ctx().prove_ind(x)[0] for x in (T.one_minus(T.mul(s0(ae), V0(ae))), imp(T.mul(T.one_minus(V0(ae)), A(ae, be)), T.one_minus(V0(be))))):
            # the vertices not marked beforehand contain the starting points and are closed: R, the least such set, avoids the marked ones
            st['avoids'] = True
            assume_forall([(a, N)], T.one_minus(T.mul(st['R'](ae), V0(ae))))
        ctx().assumptions.append('reachability from a set: the least set containing it that is closed under the edge relation')
        return st
    @staticmethod
    def searches(loop): return loop.en.__dict__.setdefault('searches', [])
    @staticmethod
    def imp(a, b): return T.one_minus(T.mul(a, T.one_minus(b)))
    def invariants(self, st, loc):
        N, imp = st['N'], self.imp
        S = loc[st['S']] if isinstance(loc[st['S']], SSet) else st['entry'][st['S']]
        f = S.f; R = st['R']; A = st['A']
        V = lambda i: st['V'].get([i]); v0 = lambda i: st['v0'].get([i])
        i, j = T.CTX_temp(N), T.CTX_temp(N); ie, je = from_atom(i), from_atom(j)
        out = [('entry marks are kept', ([(i, N)], imp(v0(ie), V(ie)))),
               ('starting points are marked or waiting', ([(i, N)], imp(st['s0'](ie), T.lor(V(ie), f(ie))))),
               ('only reachable vertices are marked', ([(i, N)], imp(V(ie), T.lor(v0(ie), R(ie))))),
               ('only reachable vertices wait', ([(i, N)], imp(f(ie), R(ie)))),
               ('successors of marked vertices are marked or waiting', ([(i, N), (j, N)], imp(T.mul(T.mul(V(ie), T.one_minus(v0(ie))), A(ie, je)), T.lor(V(je), f(je)))))]
        for b in st['bags']:
            g = (loc[b] if isinstance(loc[b], SSet) else st['entry'][b])
            if not g.distinct: raise Unsupported('a list that may collect a vertex twice')
            out.append((f'the collected vertices are the newly marked ones', ([(i, N)], T.one_minus(xor(g.f(ie), T.mul(V(ie), T.one_minus(v0(ie))))))))
        return out
    def assume(self, ind): assume_forall(*ind)
    def havoc(self, st, loc):
        N = st['N']; V = st['V']; vals = {}
        k = T._ctr[0]; T._ctr[0] += 1
        fV = T.Fn(f'marked{k}', 1, 'bool')
        old = V._e; V._e = T.ind_p(fV, from_atom(V.vs[0])); V.writes += 1
        en = EN.eng()
        if en.written is not None: en.written.note(V, old)
        for n in st['names']:
            g = T.Fn(f'{n}{k}', 1, 'bool')
            vals[n] = SSet(lambda i, g=g: T.mul(T.ind_p(g, i), T.in_range(i, N)), N, st['entry'][n].multi, n != st['S'] or not st['multi'])
        return vals
    def step(self, loop, st, loc):
        for n in st['names']:
            if not isinstance(loc[n], SSet): raise Unsupported('work list replaced')
    def exit(self, loop, st, loc):
        c = ctx(); N = st['N']; imp = self.imp
        i, j = T.CTX_temp(N), T.CTX_temp(N); ie, je = from_atom(i), from_atom(j)
        V = lambda x: st['V'].get([x])
        ok1, h1 = c.prove_ind(imp(st['s0'](ie), V(ie)))
        ok2, h2 = c.prove_ind(imp(T.mul(V(ie), st['A'](ie, je)), V(je)))
        if not (ok1 and ok2): raise Unsupported('the marked vertices are not known to be closed under the edges')
        loop.en.oblige(f'{loop.lid}: the marked vertices contain the starting points', ok1, h1)
        loop.en.oblige(f'{loop.lid}: the marked vertices are closed under the edges', ok2, h2)
        assume_forall([(i, N)], imp(st['R'](ie), V(ie)))       # R is the least such set
        self.searches(loop).append(st)
def xor(a, b): return T.lor(T.mul(a, T.one_minus(b)), T.mul(b, T.one_minus(a)))

class Ghost:
    """a list built by a cut loop: what one arbitrary iteration appends to it"""
    def __init__(self): self.new = []
    def append(self, x): self.new.append(x)
    def __len__(self): raise Unsupported('length of a list built by a cut loop')
    def __iter__(self): raise Unsupported('iteration over a list built by a cut loop')
    def __getitem__(self, k): raise Unsupported('element of a list built by a cut loop')

class Sweep:
    """repeated searches until every vertex is marked: the marked vertices V are closed under the edge relation A (both
    ways); `on_item(st, item)` states what every iteration appends to the result list, st giving the marks before (v0)
    and after (V) it."""
    def __init__(self, on_item): self.on_item = on_item
    def match(self, loop, loc):
        arrs = [n for n in loop.info['cond'] if isinstance(loc.get(n), SArr) and loc[n].kind == 'b' and loc[n].ndim == 1]
        outs = [n for n in loop.info['mutated'] if type(loc.get(n)) is list]
        if len(arrs) != 1 or len(outs) != 1 or loc[outs[0]]: return None
        V = loc[arrs[0]]; N = V._shape[0]
        rel = relation_of(loop, loc, N)
        if rel is None: return None
        A = lambda u, v: T.ne(rel.get(u, v) if isinstance(rel, SSp) else rel.get([u, v]), 0)
        return dict(V=V, N=N, A=A, out=outs[0], names={outs[0]}, arrays=[V], entry={}, ghost=Ghost())
    def invariants(self, st, loc):
        N = st['N']; i, j = T.CTX_temp(N), T.CTX_temp(N); ie, je = from_atom(i), from_atom(j)
        V = lambda x: st['V'].get([x])
        return [('the marked vertices are closed under the edges', ([(i, N), (j, N)], T.one_minus(T.mul(T.mul(V(ie), T.one_minus(V(je))), st['A'](ie, je))))),
                ('the marked vertices are closed under the reversed edges', ([(i, N), (j, N)], T.one_minus(T.mul(T.mul(V(ie), T.one_minus(V(je))), st['A'](je, ie)))))]
    def assume(self, ind): assume_forall(*ind)
    def havoc(self, st, loc):
        i = T.CTX_temp(st['N']); V = st['V']
        EN.eng().oblige('no vertex is marked before the first search', *ctx().prove_ind(T.one_minus(V.get([from_atom(i)]))))
        k = T._ctr[0]; T._ctr[0] += 1
        fV = T.Fn(f'swept{k}', 1, 'bool')
        old = V._e; V._e = T.ind_p(fV, from_atom(V.vs[0])); V.writes += 1
        en = EN.eng()
        if en.written is not None: en.written.note(V, old)
        st['v0'] = V.copy()
        return {st['out']: st['ghost']}
    def step(self, loop, st, loc):
        g = loc[st['out']]
        if g is not st['ghost']: raise Unsupported('result list replaced')
        EN.eng().oblige(f'{loop.lid}: an iteration appends one graph', len(g.new) == 1, f'{len(g.new)} appended')
        if len(g.new) == 1: self.on_item(st, g.new[0])
    def exit(self, loop, st, loc):
        if loc[st['out']] is not st['ghost']: raise Unsupported('result list replaced')
        self.finished = st
