"""Extraction: every run re-reads /repo/pygsp/**/*.py, applies the AST transformations below and executes the
modules in a private namespace where numpy/scipy are the contract models of shims.py.

Transformations (everything else is the file's own code):
 1. docstrings dropped;
 2. `if c: <only logging calls>` evaluates c and drops the body (logging has no effect on results);
 3. `for` loops and comprehensions dispatch on the iterable: over a concrete iterable they run as written, over
    one of symbolic length they run the summarisation protocol of loops.py.
"""
import ast, builtins, types, os, sys, hashlib
from .terms import Unsupported

class Xf(ast.NodeTransformer):
    def __init__(self, mod): self.mod = mod; self.depth = 0; self.n = 0; self.fn = []
    def _body(self, body):
        return body
    def visit_FunctionDef(self, node):
        self.fn.append(node.name); self.depth += 1
        node.body = strip_doc(node.body)
        self.generic_visit(node)
        self.depth -= 1; self.fn.pop()
        return node
    visit_AsyncFunctionDef = visit_FunctionDef
    def visit_ClassDef(self, node):
        d, self.depth = self.depth, 0
        self.fn.append(node.name)
        node.body = strip_doc(node.body)
        self.generic_visit(node)
        self.fn.pop(); self.depth = d
        return node
    def visit_ExceptHandler(self, node):
        """a handler for every exception does not catch the verifier's own"""
        self.generic_visit(node)
        if node.type is None or ast.unparse(node.type) in ('Exception', 'BaseException'):
            node.body.insert(0, ast.fix_missing_locations(ast.copy_location(ast.Expr(ast.Call(ast.Name('__pyvc_own__', ast.Load()), [], [])), node.body[0])))
        return node
    def visit_If(self, node):
        self.generic_visit(node)
        if not node.orelse and all(is_log(s) for s in node.body):
            return ast.copy_location(ast.Expr(node.test), node)
        return node
    def visit_For(self, node):
        own = exits(node.body)
        names = sorted(stored(node.body) | stored_t(node.target))
        attr = has_attr_store(node.body)
        self.generic_visit(node)
        if self.depth == 0 or node.orelse: return node
        self.n += 1
        lid = f'{self.mod}:{".".join(self.fn)}:for{self.n}'
        v = f'__L{self.n}'
        def N(id, ctx=None): return ast.Name(id, ctx or ast.Load())
        def call(m, *a): return ast.Call(ast.Attribute(N(v), m, ast.Load()), list(a), [])
        loc = ast.Call(N('__pyvc_locals__'), [], [])
        mk = ast.Assign([N(v, ast.Store())], ast.Call(N('__pyvc_loop__'), [ast.Constant(lid), node.iter, ast.Constant(tuple(names)), ast.Constant(bool(own)), ast.Constant(attr)], []))
        restore = []
        for x in names:
            restore.append(ast.If(call('has', ast.Constant(x)), [ast.Assign([N(x, ast.Store())], call('get', ast.Constant(x)))], []))
        item = ast.Assign([node.target], call('item'))
        # body for the symbolic protocol is a second copy of the same statements
        import copy
        w = ast.While(call('next', loc), restore + [item] + copy.deepcopy(node.body), [])
        fin = [ast.Expr(call('finish'))] + copy.deepcopy(restore)
        conc = ast.For(node.target, ast.Attribute(N(v), 'it', ast.Load()), node.body, [])
        out = [mk, ast.If(ast.Attribute(N(v), 'symbolic', ast.Load()), [w] + fin, [conc])]
        for o in out: ast.copy_location(o, node)
        for o in out: ast.fix_missing_locations(o)
        return out
    def visit_While(self, node):
        info = while_info(node)
        self.generic_visit(node)
        if self.depth == 0 or node.orelse: return node
        self.n += 1
        lid = f'{self.mod}:{".".join(self.fn)}:while{self.n}'
        v = f'__W{self.n}'
        def N(id, ctx=None): return ast.Name(id, ctx or ast.Load())
        def call(m, *a): return ast.Call(ast.Attribute(N(v), m, ast.Load()), list(a), [])
        loc = lambda: ast.Call(N('__pyvc_locals__'), [], [])
        mk = ast.Assign([N(v, ast.Store())], ast.Call(N('__pyvc_while__'), [ast.Constant(lid), ast.Dict([ast.Constant(k) for k in info], [ast.Constant(x) for x in info.values()])], []))
        restore = [ast.If(call('has', ast.Constant(x)), [ast.Assign([N(x, ast.Store())], call('get', ast.Constant(x)))], []) for x in sorted(set(info['stored']) | set(info['mutated']))]
        leave = ast.If(ast.UnaryOp(ast.Not(), node.test), [ast.Expr(call('done', loc())), ast.Break()], [])
        w = ast.While(call('next', loc()), restore + [leave] + node.body, [])
        out = [mk, w]
        for o in out: ast.copy_location(o, node); ast.fix_missing_locations(o)
        return out
    def visit_SetComp(self, node):
        self.generic_visit(node)
        if self.depth == 0 or len(node.generators) != 1: return node
        g = node.generators[0]
        if g.is_async or not isinstance(g.target, ast.Name): return node
        return self.filtered(node, '__pyvc_setcomp__', ast.SetComp)
    def filtered(self, node, fn, kind):
        g = node.generators[0]
        self.n += 1
        v = f'__C{self.n}'
        def N(id, ctx=None): return ast.Name(id, ctx or ast.Load())
        import copy
        lam = lambda e: ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), e)
        conds = ast.Tuple([lam(Logic().visit(copy.deepcopy(c))) for c in g.ifs], ast.Load())
        test = ast.Call(N('__pyvc_issym__'), [ast.NamedExpr(N(v, ast.Store()), g.iter)], [])
        r = ast.IfExp(test, ast.Call(N(fn), [N(v), lam(node.elt), conds], []), kind(copy.deepcopy(node.elt), [ast.comprehension(g.target, N(v), g.ifs, 0)]))
        return ast.fix_missing_locations(ast.copy_location(r, node))
    def visit_ListComp(self, node):
        self.generic_visit(node)
        if self.depth == 0 or len(node.generators) != 1: return node
        g = node.generators[0]
        if g.is_async or not isinstance(g.target, (ast.Name, ast.Tuple)): return node
        if g.ifs:
            if isinstance(g.target, ast.Name): return self.filtered(node, '__pyvc_listcomp__', ast.ListComp)
            return node
        self.n += 1
        v = f'__C{self.n}'
        def N(id, ctx=None): return ast.Name(id, ctx or ast.Load())
        if isinstance(g.target, ast.Name):
            lam = ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), node.elt)
        else:
            if not all(isinstance(e, ast.Name) for e in g.target.elts): return node
            lam = ast.Lambda(ast.arguments([], [ast.arg(e.id) for e in g.target.elts], None, [], [], None, []), node.elt)
            lam = ast.Call(N('__pyvc_star__'), [lam], [])
        test = ast.Call(N('__pyvc_issym__'), [ast.NamedExpr(N(v, ast.Store()), g.iter)], [])
        import copy
        g2 = ast.comprehension(g.target, N(v), [], 0)
        r = ast.IfExp(test, ast.Call(N('__pyvc_comp__'), [N(v), lam], []), ast.ListComp(copy.deepcopy(node.elt), [g2]))
        return ast.fix_missing_locations(ast.copy_location(r, node))

class Logic(ast.NodeTransformer):
    """not/and/or of a filter condition as functions, so that symbolic conditions do not fork"""
    def visit_Lambda(self, node): return node
    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        return ast.Call(ast.Name('__pyvc_not__', ast.Load()), [node.operand], []) if isinstance(node.op, ast.Not) else node
    def visit_BoolOp(self, node):
        self.generic_visit(node)
        return ast.Call(ast.Name('__pyvc_and__' if isinstance(node.op, ast.And) else '__pyvc_or__', ast.Load()), node.values, [])
MUT = ('append', 'extend', 'insert', 'update', 'add', 'pop', 'popleft', 'appendleft', 'remove', 'discard', 'clear', 'popitem', 'setdefault', 'sort', 'reverse', 'difference_update', 'intersection_update')
def while_info(node):
    st = stored(node.body); mut = set(); subs = set(); loads = []; attrs = set()
    def go(n):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and isinstance(n.func.value, ast.Name): mut.add(n.func.value.id)
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name): mut.add(n.target.id)
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name): subs.add(n.value.id)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in loads: loads.append(n.id)
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name): attrs.add(n.attr)
        for c in ast.iter_child_nodes(n): go(c)
    for b in node.body: go(b)
    go(node.test)
    cond = {n.id for n in ast.walk(node.test) if isinstance(n, ast.Name)}
    return dict(stored=tuple(sorted(st)), mutated=tuple(sorted(mut)), subs=tuple(sorted(subs)), loads=tuple(loads), attrs=tuple(sorted(attrs)), cond=tuple(sorted(cond)))

def strip_doc(body):
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        body = body[1:] or [ast.copy_location(ast.Pass(), body[0])]
    return body
def is_log(s):
    if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute)): return False
    f = s.value.func
    if f.attr not in ('debug', 'info', 'warning', 'error', 'warn'): return False
    x = f.value
    return (isinstance(x, ast.Name) and 'log' in x.id) or (isinstance(x, ast.Attribute) and 'log' in x.attr) or (isinstance(x, ast.Name) and x.id == 'warnings')
def exits(body):
    """break/return belonging to this loop"""
    hit = []
    def go(ns, inner):
        for n in ns:
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
            if isinstance(n, ast.Return): hit.append(n)
            if isinstance(n, ast.Break) and not inner: hit.append(n)
            go(ast.iter_child_nodes(n), inner or isinstance(n, (ast.For, ast.While)))
    go(body, False)
    return hit
def stored(body):
    s = set()
    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            s.add(n.name); return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)): return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): s.add(n.id)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend', 'insert') and isinstance(n.func.value, ast.Name): s.add(n.func.value.id)
        for c in ast.iter_child_nodes(n): go(c)
    for b in body: go(b)
    return s
def stored_t(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}
def has_attr_store(body):
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store): return True
    return False

class StubModule(types.ModuleType):
    """plotting: no property depends on it"""
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        def stub(*a, **kw): raise Unsupported(f'plotting.{k}')
        return stub

def own():
    e = sys.exc_info()[1]
    if isinstance(e, (Unsupported, RecursionError)) or type(e).__name__ == 'PathEnd': raise e
class Loader:
    """private copy of the pygsp package under the shims"""
    def __init__(self, root, shims, stub=('pygsp.plotting',)):
        self.root = root; self.shims = shims; self.mods = {}; self.stub = set(stub)
        self.sources = {}
        from . import shims as S
        b = dict(vars(builtins))
        b['__import__'] = self.imp
        b.update(S.BUILTINS)
        b['__pyvc_locals__'] = S.get_locals
        b['__pyvc_own__'] = own
        self.builtins = b
    def path(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p): return os.path.join(p, '__init__.py'), True
        return p + '.py', False
    def load(self, name):
        if name in self.mods: return self.mods[name]
        if name in self.stub:
            m = StubModule(name); self.mods[name] = m
            if '.' in name: setattr(self.load(name.rsplit('.', 1)[0]), name.rsplit('.', 1)[1], m)
            return m
        path, pkg = self.path(name)
        if not os.path.exists(path): raise ModuleNotFoundError(f'No module named {name!r}')
        if '.' in name: parent = self.load(name.rsplit('.', 1)[0])
        if name in self.mods: return self.mods[name]
        src = open(path, encoding='utf-8').read()
        self.sources[name] = hashlib.sha256(src.encode()).hexdigest()
        tree = ast.parse(src, path)
        tree.body = strip_doc(tree.body)
        tree = ast.fix_missing_locations(Xf(name).visit(tree))
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__['__builtins__'] = self.builtins
        m.__package__ = name if pkg else name.rsplit('.', 1)[0]
        if pkg: m.__path__ = [os.path.dirname(path)]
        self.mods[name] = m
        if '.' in name: setattr(self.mods[name.rsplit('.', 1)[0]], name.rsplit('.', 1)[1], m)
        try:
            exec(compile(tree, path, 'exec'), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        return m
    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pk = globals['__package__'].split('.')
            base = pk[:len(pk) - level + 1]
            name = '.'.join(base + ([name] if name else []))
        if name.split('.')[0] == 'pygsp':
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try: self.load(name + '.' + f)
                        except ModuleNotFoundError: pass
                return m
            return self.mods['pygsp']
        top = name.split('.')[0]
        if top in self.shims:
            root = self.shims[top]
            if fromlist:
                m = root
                for p in name.split('.')[1:]: m = getattr(m, p)
                return m
            return root
        return builtins.__import__(name, globals, locals, fromlist, 0)
    def get(self, dotted):
        """'pygsp.graphs.graph:Graph.dw'"""
        mod, _, q = dotted.partition(':')
        o = self.load(mod)
        for p in q.split('.'): o = getattr(o, p) if p else o
        return o
