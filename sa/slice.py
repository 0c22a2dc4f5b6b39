"""Backward value slices: the leaf expressions a value can come from, through locals, parameters, package calls and containers."""
import ast
from .core import *
from .fold import calls_named


def own_nodes(f):
    for st in f.body:
        yield st
        yield from walk_own(st)


def defs_of(f, name):
    """[(value expr or None, statement)] for every definition of a local name in f (no parameters)"""
    if not hasattr(f, "_defs"):
        d = {}
        for n in own_nodes(f):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        d.setdefault(t.id, []).append((n.value, n))
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        vs = n.value.elts if isinstance(n.value, (ast.Tuple, ast.List)) and len(n.value.elts) == len(t.elts) else None
                        for i, x in enumerate(t.elts):
                            if isinstance(x, ast.Name):
                                d.setdefault(x.id, []).append((vs[i] if vs else ("item", i, n.value), n))
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                d.setdefault(n.target.id, []).append((n.value, n))
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                d.setdefault(n.target.id, []).append((n.value, n))
            elif isinstance(n, ast.NamedExpr):
                d.setdefault(n.target.id, []).append((n.value, n))
            elif isinstance(n, (ast.For, ast.comprehension)):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        d.setdefault(x.id, []).append((("elem", n.iter), n))
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                for x in ast.walk(n.optional_vars):
                    if isinstance(x, ast.Name):
                        d.setdefault(x.id, []).append((None, n))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in ("append", "extend", "add", "insert", "update") and n.args:
                d.setdefault(n.func.value.id, []).append((n.args[-1], n))
        f._defs = d
    return f._defs.get(name, [])


def targets_of(prog, call, f, m):
    """package functions a call can name (by class and name, no points-to)"""
    fn = call.func
    if isinstance(fn, ast.Name):
        g = f
        while g is not None:
            for n in own_nodes(g):
                if isinstance(n, ast.FunctionDef) and n.name == fn.id:
                    return [prog.by_node[id(n)]]
            g = g.parent
        r = prog.resolve_global(m.name, fn.id)
        return [r] if isinstance(r, Func) else []
    if isinstance(fn, ast.Attribute):
        if isinstance(fn.value, ast.Name) and fn.value.id in ("self", "cls") and f is not None:
            c, g = None, f
            while g is not None and c is None:
                c, g = g.cls, g.parent
            if c is not None:
                t = c.find_method(fn.attr)
                return [t] if t is not None else []
        r = prog.resolve_dotted(m, fn)
        if isinstance(r, Func):
            return [r]
        if isinstance(r, tuple) and r[0] == "classattr":
            t = r[1].find_method(r[2])
            return [t] if t else []
    return []


class Slicer:
    """leaves(e, f, m) -> set of (expr, func) after following definitions; `stop(e, f, m)` returns True for expressions kept as leaves"""

    def __init__(self, prog, stop=None, through=None, limit=400):
        self.prog, self.stop, self.through, self.limit = prog, stop or (lambda *a: False), through or (lambda *a: None), limit

    def leaves(self, e, f, m):
        self.seen = set()
        self.out = {}
        self.go(e, f, m)
        return list(self.out.values())

    def leaf(self, e, f, m):
        self.out[(id(e), f)] = (e, f, m)

    def go(self, e, f, m):
        if e is None:
            return
        if isinstance(e, tuple):
            if e[0] == "elem":
                return self.go(e[1], f, m)
            if e[0] == "item":
                v = e[2]
                if isinstance(v, ast.Call):
                    ts = targets_of(self.prog, v, f, m)
                    if ts:
                        for t in ts:
                            for n in own_nodes(t):
                                if isinstance(n, ast.Return) and n.value is not None:
                                    if isinstance(n.value, (ast.Tuple, ast.List)) and len(n.value.elts) > e[1]:
                                        self.go(n.value.elts[e[1]], t, t.module)
                                    else:
                                        self.leaf(n.value, t, t.module)
                        return
                return self.leaf(v, f, m)
        k = (id(e), f)
        if k in self.seen or len(self.seen) > self.limit:
            return
        self.seen.add(k)
        if self.stop(e, f, m):
            return self.leaf(e, f, m)
        nxt = self.through(e, f, m)
        if nxt is not None:
            for x in nxt:
                self.go(x, f, m)
            return
        if isinstance(e, ast.Name):
            g = f
            while g is not None:
                if e.id in g.params:
                    return self.param(e, g)
                ds = defs_of(g, e.id)
                if ds:
                    for v, st in ds:
                        if v is None:
                            self.leaf(e, g, m)
                        else:
                            self.go(v, g, m)
                    return
                g = g.parent
            r = self.prog.resolve_global(m.name, e.id)
            if isinstance(r, tuple) and r[0] == "global":
                for v in r[1].gassign.get(r[2], []):
                    self.go(v, None, r[1])
                return
            return self.leaf(e, f, m)
        if isinstance(e, ast.IfExp):
            self.go(e.body, f, m)
            return self.go(e.orelse, f, m)
        if isinstance(e, ast.BoolOp):
            for v in e.values:
                self.go(v, f, m)
            return
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            for v in e.elts:
                self.go(v.value if isinstance(v, ast.Starred) else v, f, m)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            return self.go(e.elt, f, m)
        if isinstance(e, ast.NamedExpr):
            return self.go(e.value, f, m)
        if isinstance(e, ast.Call):
            ts = targets_of(self.prog, e, f, m)
            if ts:
                for t in ts:
                    for n in own_nodes(t):
                        if isinstance(n, ast.Return) and n.value is not None:
                            self.go(n.value, t, t.module)
                return
            d = dotted(e.func) or ""
            if d.split(".")[-1] in ("list", "tuple", "set", "sorted", "dict", "fromkeys", "frozenset", "deepcopy", "copy", "reversed", "OrderedDict") and e.args:
                return self.go(e.args[0], f, m)
        self.leaf(e, f, m)

    def param(self, e, g):
        pos = list(g.posargs)
        if g.cls is not None and not g.is_static:
            pos = pos[1:]
        hit = False
        for c, cf, cm in calls_named(self.prog, g.name):
            if e.id in pos and pos.index(e.id) < len(c.args) and not any(isinstance(a, ast.Starred) for a in c.args):
                hit = True
                self.go(c.args[pos.index(e.id)], cf, cm)
            for k in c.keywords:
                if k.arg == e.id:
                    hit = True
                    self.go(k.value, cf, cm)
        if e.id in g.defaults:
            self.go(g.defaults[e.id], None, g.module)
        if not hit:
            self.leaf(e, g, g.module)
