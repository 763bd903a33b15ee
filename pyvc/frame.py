"""Frame conditions: `modifies nothing`.

While a harness runs in frame mode, every array (and sparse matrix) made outside the code under verification -- the
caller's arguments, the state of the objects the harness built through the real constructors' arguments, the values
promised by the contracts of callees -- is watched.  Every write the verified code performs into one of them (directly,
through a view, through a sparse matrix sharing its values, or in a summarised loop) is recorded with the value the
array had before; the obligation is that its value at the end of the path is the value it had.
Graph objects are watched as well: weights, coordinates and signals keep their values and stay what they were."""
import sys
from . import terms as T, engine as EN
from .terms import from_atom, Unsupported
from .values import SArr, SSp

def in_code():
    f = sys._getframe(2)
    while f is not None:
        n = f.f_code.co_filename
        if '/pygsp/' in n: return True
        if n.endswith('pyvc/engine.py') and f.f_code.co_name == 'run': return False
        f = f.f_back
    return False

class Frame:
    def __init__(self, en):
        self.en = en; self.outside = {}; self.log = {}; self.graphs = []
        en.frame = self; en.written = self; en.mute = True
    def created(self, a):
        if not in_code(): self.outside[a.uid] = a
    def fresh(self, *arrays):
        for a in arrays: self.outside.pop(a.uid, None)
    def note(self, a, old):
        if a.uid in self.outside and a.uid not in self.log and in_code(): self.log[a.uid] = (a, old)
    note_sparse = note
    def graph(self, G):
        d = vars(G); self.graphs = [x for x in self.graphs if x[0] is not G]
        self.graphs.append((G, {k: (d[k], snap(d[k])) for k in ('_adjacency', 'W', 'coords', 'signals', '_directed', 'n_vertices', 'mr') if k in d}))
    def check(self):
        en = self.en; en.mute = False; en.frame = None; en.written = None
        for a, old in self.log.values(): self.same(f'{name(a)} keeps its value', a.vs, a._e, old)
        en.oblige('frame: nothing else outside is written', True, f'{len(self.outside)} arrays watched')
        for G, keep in self.graphs:
            d = vars(G)
            for k, (v, s) in keep.items():
                if k not in d: en.oblige(f'G.{k} unchanged', False, 'the attribute is gone'); continue
                self.attr(f'G.{k} unchanged', d[k], v, s)
    def attr(self, what, now, was, s):
        en = self.en
        if isinstance(was, (SArr, SSp)):
            if not isinstance(now, type(was)) or len(now._shape) != len(was._shape): en.oblige(what, False, f'replaced by {type(now).__name__}'); return
            for x, y in zip(now._shape, s[2]): en.ensure_eq(what + ' (shape)', x, y)
            self.same(what, now.vs, now.e, T.subst(s[1], {v: from_atom(w) for v, w in zip(s[0], now.vs)}))
        elif isinstance(was, dict):
            if sorted(now) != sorted(s): en.oblige(what, False, 'the names changed'); return
            for k in s: self.attr(f'{what} [{k}]', now[k], s[k][0], s[k][1])
        else: en.oblige(what, now is was or type(now) is type(was) and not hasattr(now, 'e') and now == was or hasattr(now, 'e') and hasattr(was, 'e') and not (now.e - was.e).t, f'{now} / {was}')
    def same(self, what, vs, a, b):
        if not (a - b).t: self.en.oblige(what, True, 'structural'); return
        self.en.ensure_zero(what, T.subst(a - b, {v: from_atom(T.CTX_temp(d)) for v, d in ()}) if False else a - b)

def name(a): return (a.label or type(a).__name__) + f'#{a.uid}'
def snap(v):
    if isinstance(v, (SArr, SSp)): return (v.vs, v.e, v._shape)
    if isinstance(v, dict): return {k: (x, snap(x)) for k, x in v.items()}
    return v

def framed(fn):
    """the same harness, with the frame condition in place of its postconditions (those are proved under their own property)"""
    def run(h):
        fr = Frame(h.en)
        try: fn(h)
        except (Unsupported, RecursionError): raise
        except EN.PathEnd:
            fr.check(); raise
        except Exception as e:
            fr.check()
            if not fr.log: raise Unsupported(f'did not complete: {e!r:.120}')      # the harness' own property says whether it should
            return
        fr.check()
    return run
