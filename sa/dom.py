"""Conditions known to hold at a program point (syntactic dominance) and normalised access paths of values."""
import ast
from .core import *
from .slice import defs_of, own_nodes, targets_of


def exits(body):
    """every path through the statement list leaves it (return, raise, continue, break)"""
    for st in body:
        if isinstance(st, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return True
        if isinstance(st, ast.If) and exits(st.body) and exits(st.orelse):
            return True
        if isinstance(st, ast.With) and exits(st.body):
            return True
        if isinstance(st, ast.Try) and (exits(st.finalbody) or exits(st.body) and all(exits(h.body) for h in st.handlers)):
            return True
    return False


BLOCKS = ("body", "orelse", "finalbody", "handlers")


def conditions(node):
    """[(test, polarity, statement)] known when `node` is evaluated, inside its function (branches taken, earlier exits, short circuits)"""
    out = []
    child, n = node, getattr(node, "_parent", None)
    while n is not None:
        if isinstance(n, ast.BoolOp):
            i = n.values.index(child) if child in n.values else 0
            for v in n.values[:i]:
                out.append((v, isinstance(n.op, ast.And), n))
        elif isinstance(n, ast.IfExp):
            if child is n.body:
                out.append((n.test, True, n))
            elif child is n.orelse:
                out.append((n.test, False, n))
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in n.generators:
                if child is not g:
                    for t in g.ifs:
                        out.append((t, True, n))
        elif isinstance(n, ast.comprehension):
            if child in n.ifs:
                for t in n.ifs[:n.ifs.index(child)]:
                    out.append((t, True, n))
        elif isinstance(n, ast.If):
            if child in n.body:
                out.append((n.test, True, n))
            elif child in n.orelse:
                out.append((n.test, False, n))
        elif isinstance(n, ast.While):
            if child in n.body:
                out.append((n.test, True, n))
        # earlier statements of the same block that leave on a condition
        for b in BLOCKS:
            body = getattr(n, b, None)
            if isinstance(body, list) and child in body:
                for st in body[:body.index(child)]:
                    if isinstance(st, ast.If):
                        if exits(st.body) and not exits(st.orelse):
                            out.append((st.test, False, st))
                        elif st.orelse and exits(st.orelse) and not exits(st.body):
                            out.append((st.test, True, st))
                    elif isinstance(st, ast.Assert):
                        out.append((st.test, True, st))
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            break
        child, n = n, getattr(n, "_parent", None)
    return [x for t, p, s in out for x in split(t, p, s)]


def split(t, pol, st):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return split(t.operand, not pol, st)
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) == pol:
        return [x for v in t.values for x in split(v, pol, st)]
    if isinstance(t, ast.NamedExpr):
        return split(t.value, pol, st) + [(t.target, pol, st)]
    return [(t, pol, st)]


def norm(e, f, depth=0):
    """normal form of a value: ('param', name) / ('var', name, defs) / ('path', base, keys) / ('expr', dump)"""
    if depth > 8 or e is None:
        return ("expr", id(e))
    if isinstance(e, ast.Name):
        if f is not None and e.id in f.params and not defs_of(f, e.id):
            return ("param", e.id)
        ds = [(v, s) for v, s in (defs_of(f, e.id) if f is not None else [])]
        if len(ds) == 1 and isinstance(ds[0][0], ast.AST) and not isinstance(ds[0][1], (ast.AugAssign, ast.Call)) and e.id not in (f.params if f else ()):
            v = ds[0][0]
            if isinstance(v, (ast.Name, ast.Subscript, ast.Constant)) or isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "get" or isinstance(v, ast.BoolOp):
                return norm(v, f, depth + 1)
        return ("var", e.id)
    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant):
        return ("path", norm(e.value, f, depth + 1), e.slice.value)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("get", "pop") and e.args and isinstance(e.args[0], ast.Constant):
        return ("path", norm(e.func.value, f, depth + 1), e.args[0].value)
    if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or) and len(e.values) == 2 and isinstance(e.values[1], ast.Constant):
        return norm(e.values[0], f, depth + 1)
    if isinstance(e, ast.Attribute):
        return ("attr", norm(e.value, f, depth + 1), e.attr)
    if isinstance(e, ast.Constant):
        return ("const", e.value)
    return ("expr", ast.dump(e))


def base_var(n):
    while isinstance(n, tuple) and n[0] in ("path", "attr"):
        n = n[1]
    return n


def subst(n, mp):
    """replace ('param', x) by mp[x]"""
    if n[0] == "param":
        return mp.get(n[1], ("unknown",))
    if n[0] in ("path", "attr"):
        b = subst(n[1], mp)
        return (n[0], b, n[2])
    return n
