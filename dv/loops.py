"""Loop contracts: `while` loops of the current source are cut by an invariant, inserted mechanically at AST level on
every run.  The loop body is kept verbatim; the only insertion is a call at the end of the body (and before each
`continue` of that loop)

    x, y, ... = __dv_cut(locals())          (x, y, ...: every name the body assigns)

which on its first visit proves the invariant (after the first, really executed, iteration), replaces every assigned name
by an arbitrary value and assumes the invariant; on its second visit it proves the invariant again and ends the path.
Leaving the loop (break, condition false) continues with the real code after it."""
import ast, inspect, textwrap
from .core import *
from .core import _np
from . import core

class _Cut(ast.NodeTransformer):
    def __init__(self, names, tag): self.names, self.tag, self.depth = names, tag, 0
    def stmt(self):
        return ast.parse(f"({', '.join(self.names)},) = __dv_cut({self.tag!r}, locals())").body[0]
    def visit_Continue(self, n): return [self.stmt(), n] if self.depth == 0 else n
    def inner(self, n):
        self.depth += 1; self.generic_visit(n); self.depth -= 1; return n
    visit_While = visit_For = inner
    def visit_FunctionDef(self, n): return n
    visit_Lambda = visit_ClassDef = visit_AsyncFunctionDef = visit_FunctionDef

def stored(body):
    out = []
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)): raise Unsupported('loop contract: the body writes through an attribute or index')
            if isinstance(n, (ast.FunctionDef, ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal, ast.Import)): raise Unsupported('loop contract: construct in the body')
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in out: out.append(n.id)
    return sorted(out)

def instrument(fn, k, cut):
    """copy of fn whose k-th while loop calls cut(); None when there is no such loop"""
    raw = inspect.unwrap(fn)
    if raw.__closure__: raise Unsupported('loop contract: closure')
    tree = ast.parse(textwrap.dedent(inspect.getsource(raw)))
    f = tree.body[0]; f.decorator_list = []
    ws = [n for n in ast.walk(f) if isinstance(n, ast.While)]
    if len(ws) <= k: return None
    w = ws[k]
    if w.orelse: raise Unsupported('loop contract: else clause')
    names = stored(w.body)
    c = _Cut(names, k)
    w.body = [s for x in w.body for s in (lambda r: r if isinstance(r, list) else [r])(c.visit(x))] + [c.stmt()]
    ast.fix_missing_locations(tree)
    code = compile(tree, raw.__code__.co_filename, 'exec')
    g = dict(raw.__globals__); ns = {}
    g['__dv_cut'] = cut
    exec(code, g, ns)
    r = ns[raw.__name__]; r.__qualname__ = raw.__qualname__; r.__dv_names__ = names
    return r

class Loop:
    def __init__(self, E, owner, name, k, inv):
        self.E, self.name, self.inv, self.visits, self.fresh = E, name, inv, 0, {}
        self.owner = owner
        self.old = inspect.getattr_static(owner, name)
        self.fn = instrument(self.old, k, self.cut)
    def __enter__(self):
        if self.fn is not None: setattr(self.owner, self.name, self.fn)
        return self
    def __exit__(self, *a): setattr(self.owner, self.name, self.old)
    def goals(self, V):
        try: return self.inv(V)
        except KeyError as ex: raise Unsupported(f'loop contract: no variable {ex}')
    def cut(self, tag, V):
        self.visits += 1; e = self.E.e
        lbl = f'loop in {self.name}: invariant ' + ('established' if self.visits == 1 else 'preserved')
        for n, g in self.goals(V): self.E.ens(f'{lbl}: {n}', g)
        if self.visits > 1: raise core.PathEnd()
        names = self.fn.__dv_names__
        out = []
        for n in names:
            v = V.get(n, None)
            if isinstance(v, bool) or not isinstance(v, (int, float, SNum, _np.integer, _np.floating)): raise Unsupported(f'loop contract: variable {n} of type {type(v).__name__}')
            v = lift(v)
            if not is_false(v.nan): raise Unsupported('loop contract: missing value')
            t = e.fresh('loop_' + n, v.t.sort()); out.append(SNum(t)); self.fresh[n] = SNum(t)
            if t.sort() == I: e.add_index((t,))
        W = dict(V); W.update(self.fresh)
        for n, g in self.goals(W): e.fact(bterm(g))
        return tuple(out)
