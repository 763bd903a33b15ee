"""Path exploration: the real code is executed by CPython on symbolic values; a decision on a symbolic
condition forks the path (re-execution with a decision prefix).  One Path object per executed path."""
import time, traceback, sys
import z3
from . import terms as T
from .terms import E, num, from_atom, Unsupported
from .prover import Ctx, STATS

class PathEnd(BaseException):
    """the current path is finished (infeasible, or an arbitrary-iteration path that reached its end)"""

class SBoolTree:
    pass

ENG = None
def eng(): return ENG

class Obligation:
    __slots__ = ('name', 'ok', 'how', 'path')
    def __init__(self, name, ok, how, path): self.name, self.ok, self.how, self.path = name, ok, how, path

class Engine:
    """Runs one contract harness over all paths."""
    def __init__(self, name, harness, loader, max_paths=200, budget=300.0, loops=None):
        self.name, self.harness, self.loader = name, harness, loader
        self.max_paths, self.budget = max_paths, budget
        self.obligations = []
        self.unsupported = []
        self.paths = 0
        self.path_log = []
        self.assumptions = set()
        self.functions = set()
        self.contracts_used = set()
        self.loop_db = {}         # persistent over paths: loop summaries
        self.live = 0             # paths whose hypotheses are not contradictory
        self.models = []          # concrete witnesses of path conditions (for directed replay)

    def run(self):
        global ENG
        self.t0 = time.time()
        stack = [[]]
        while stack:
            if self.paths >= self.max_paths or time.time() - self.t0 > self.budget:
                self.unsupported.append(f'path or time budget exhausted after {self.paths} paths')
                break
            prefix = stack.pop()
            self.prefix = prefix; self.taken = []; self.pending = []
            T._ctr[0] = 0
            T.reset()
            self.ctx = Ctx()
            T.set_ctx(self.ctx)
            self.ctx._hv = frozenset()
            ENG = self
            self.loop_stack = []
            self.path_notes = []; self.imprecise = None; self.loop_memo = {}
            self.inputs = []
            self.array_counter = 0
            self.written = None; self.frame = None; self.mute = False
            self.hooks = {}           # contracts of linear-algebra routines, set by the harness
            self.loop_frames = []
            self.paths += 1
            n0 = len(self.obligations)
            try:
                self.harness(self)
            except PathEnd:
                pass
            except Unsupported as ex:
                tb = traceback.extract_tb(sys.exc_info()[2])
                loc = [f for f in tb if '/pygsp/' in f.filename]
                where = f'{loc[-1].filename.split("/pygsp/")[-1]}:{loc[-1].lineno}' if loc else ''
                self.unsupported.append(f'{ex} at {where}')
            except RecursionError as ex:
                self.unsupported.append('recursion limit')
            except Exception as ex:
                tb = traceback.extract_tb(sys.exc_info()[2])
                loc = [f for f in tb if '/pygsp/' in f.filename]
                infra = tb and '/pyvc/' in tb[-1].filename and not isinstance(ex, (ValueError, IndexError, AssertionError, NotImplementedError, KeyError, ZeroDivisionError, TypeError, AttributeError))
                where = f'{loc[-1].filename.split("/pygsp/")[-1]}:{loc[-1].lineno}' if loc else '?'
                stub = isinstance(ex, AttributeError) and getattr(getattr(ex, 'obj', None), '__dict__', {}).get('_pyvc_stub', False)
                if stub or infra or not loc or (tb and '/pyvc/' in tb[-1].filename and isinstance(ex, (TypeError, AttributeError, KeyError))):
                    self.unsupported.append(f'model limit: {type(ex).__name__}: {ex} at {where} <- {tb[-1].filename.split("/")[-1]}:{tb[-1].lineno}')
                else:
                    self.oblige(f'no exception ({where})', False, f'path raises {type(ex).__name__}: {ex}')
            for alt in self.pending: stack.append(alt)
            try: dead = self.ctx.check([], timeout=1500) == z3.unsat
            except Exception: dead = False
            self.live += not dead
            self.assumptions |= set(self.ctx.assumptions)
            self.path_log.append((list(self.taken), list(self.path_notes), len(self.obligations) - n0))
            if any(not o.ok for o in self.obligations[n0:]) or self.path_notes:
                self.models.append(self.concrete_model())
        if not self.live and self.obligations: self.unsupported.append('vacuous: the hypotheses of every path are contradictory')
        ENG = None
        return self

    # ------------------------------------------------------------------ branching
    def branch(self, b):
        """b: SBool; returns a Python bool, forking if both outcomes are feasible"""
        d = b.decide()
        if d is not None: return d
        i = len(self.taken)
        if i < len(self.prefix):
            v, forced = self.prefix[i]
        else:
            # feasibility of both sides
            ft, ff = b.feasible(True), b.feasible(False)
            if not ft and not ff: raise PathEnd()
            forced = not (ft and ff)
            if not forced: self.pending.append(self.taken + [(False, False)])
            v = ft
        self.taken.append((v, forced))
        if not forced:
            for l in self.loop_frames: l.on_branch(b, v)
        b.assume(v)
        return v

    def choose(self, what):
        """non-deterministic boolean (loop cut)"""
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i][0]
        else:
            self.pending.append(self.taken + [(False, False)]); v = True
        self.taken.append((v, False))
        return v

    # ------------------------------------------------------------------ obligations
    imprecise = None
    def oblige(self, name, ok, how):
        if self.mute: return
        if not ok and self.imprecise: raise T.Unsupported(f"{self.imprecise}: {name}: {how}")
        self.obligations.append(Obligation(name, ok, how, list(self.path_notes)))
    def ensure_zero(self, name, e):
        if self.mute: return True
        ok, how = self.ctx.prove_zero(e)
        self.oblige(name, ok, how)
        return ok
    def ensure_eq(self, name, a, b):
        if self.mute: return True
        return self.ensure_zero(name, T.lift(a) - T.lift(b))
    def ensure_true(self, name, ind):
        if self.mute: return True
        ok, how = self.ctx.prove_ind(ind)
        self.oblige(name, ok, how)
        return ok
    def note(self, s): self.path_notes.append(s)
    def concrete_model(self):
        try:
            r = self.ctx.check([], timeout=2000)
            if r == z3.sat:
                m = self.ctx.last_model
                out = {}
                for d in m.decls():
                    if d.arity() == 0:
                        v = m[d]
                        if z3.is_int_value(v): out[d.name()] = v.as_long()
                        elif z3.is_rational_value(v): out[d.name()] = float(v.as_fraction())
                return out
        except Exception:
            pass
        return {}
