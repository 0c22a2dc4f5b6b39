"""Reset-coverage analysis: which state survives clear(), which shared state is written."""
import ast
from .core import *
from .pta import Frame, CONTAINERS

FRESH_CONST = (ast.Constant,)


class MustReset:
    """must-effects of a function: set of ('attr', obj, name) definitely stored and ('content', obj, name)
    whose container is definitely emptied, on every normal completion"""

    def __init__(self, pta):
        self.p = pta
        self.memo = {}
        self.values = {}  # ('attr', obj, name) -> list of (func, value expr)
        self.stack = set()

    def func(self, f, ctx):
        k = (f, ctx)
        if k in self.memo:
            return self.memo[k]
        if k in self.stack:
            return frozenset()
        self.stack.add(k)
        exits = []
        cur = self.block(f.body, frozenset(), f, ctx, exits)
        if cur is not None:
            exits.append(cur)
        self.stack.discard(k)
        res = frozenset.intersection(*exits) if exits else frozenset()
        self.memo[k] = res
        return res

    # cur: set of effects so far, or None if unreachable
    def block(self, body, cur, f, ctx, exits):
        for st in body:
            if cur is None:
                return None
            cur = self.stmt(st, cur, f, ctx, exits)
        return cur

    def stmt(self, st, cur, f, ctx, exits):
        if isinstance(st, ast.Return):
            if st.value is not None:
                cur = cur | self.expr(st.value, f, ctx)
            exits.append(cur)
            return None
        if isinstance(st, ast.Raise):
            return None
        if isinstance(st, (ast.Assign, ast.AnnAssign)):
            if st.value is not None:
                cur = cur | self.expr(st.value, f, ctx)
                ts = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in ts:
                    cur = cur | self.target(t, st.value, f, ctx)
            return cur
        if isinstance(st, ast.Expr):
            return cur | self.expr(st.value, f, ctx)
        if isinstance(st, ast.If):
            c0 = cur | self.expr(st.test, f, ctx)
            a = self.block(st.body, c0, f, ctx, exits)
            b = self.block(st.orelse, c0, f, ctx, exits)
            if a is None:
                return b
            if b is None:
                return a
            if not st.orelse:
                # `if x: x.clear()` / `if x is not None: ...` : nothing to reset otherwise
                g = st.test
                if isinstance(g, ast.Compare) and len(g.ops) == 1 and isinstance(g.ops[0], (ast.IsNot, ast.NotEq)) and isinstance(g.comparators[0], ast.Constant) and g.comparators[0].value is None:
                    g = g.left
                if isinstance(g, ast.Call) and isinstance(g.func, ast.Name) and g.func.id in ("hasattr", "len", "callable") and g.args:
                    g = g.args[0]
                gs = ast.unparse(g)
                if isinstance(g, (ast.Name, ast.Attribute)) and all(self._about(x, gs) for x in st.body):
                    return a
            return a & b
        if isinstance(st, (ast.For,)):
            c0 = cur | self.expr(st.iter, f, ctx)
            if any(isinstance(n, (ast.Break, ast.Continue, ast.Return)) for n in ast.walk(st) if n is not st):
                return c0
            # body applies to every element: effects through the loop variable hold for all elements
            inner = self.block(st.body, frozenset(), f, ctx, [])
            if inner is None:
                return c0
            names = {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
            self.loopvars = getattr(self, "loopvars", [])
            self.loopvars.append(names)
            inner = self.block(st.body, frozenset(), f, ctx, [])
            self.loopvars.pop()
            return self.block(st.orelse, c0 | (inner or frozenset()), f, ctx, exits)
        if isinstance(st, ast.While):
            c0 = cur | self.expr(st.test, f, ctx)
            return c0
        if isinstance(st, ast.With):
            for it in st.items:
                cur = cur | self.expr(it.context_expr, f, ctx)
            return self.block(st.body, cur, f, ctx, exits)
        if isinstance(st, ast.Try):
            ex2 = []
            a = self.block(st.body, cur, f, ctx, ex2)
            if a is not None:
                a = self.block(st.orelse, a, f, ctx, ex2)
            outs = [a] if a is not None else []
            for h in st.handlers:
                b = self.block(h.body, cur, f, ctx, ex2)
                if b is not None:
                    outs.append(b)
            fin_ex = []
            fin = self.block(st.finalbody, frozenset(), f, ctx, fin_ex)
            fe = fin if fin is not None else frozenset()
            exits.extend(x | fe for x in ex2)
            if not outs or fin is None:
                return None if fin is None or not outs else None
            r = frozenset.intersection(*outs) | fe
            return r
        if isinstance(st, ast.Delete):
            return cur
        return cur

    def _about(self, st, gs):
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute):
            return ast.unparse(st.value.func.value).startswith(gs)
        if isinstance(st, ast.Assign):
            return all(ast.unparse(t).startswith(gs) for t in st.targets)
        return isinstance(st, ast.Pass)

    def node_objs(self, e, ctx):
        return self.p.get(("E", id(e), ctx))

    def is_loopvar(self, e):
        return isinstance(e, ast.Name) and any(e.id in s for s in getattr(self, "loopvars", []))

    def bases(self, e, ctx):
        """objects definitely denoted by e: singleton, or all elements of a loop variable"""
        objs = {o for o in self.node_objs(e, ctx) if o.kind in ("inst", "class") or o.kind in CONTAINERS}
        if len(objs) == 1 or self.is_loopvar(e):
            return objs
        return set()

    def target(self, t, value, f, ctx):
        out = set()
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                for a, b in zip(t.elts, value.elts):
                    out |= self.target(a, b, f, ctx)
            else:
                for a in t.elts:
                    out |= self.target(a, None, f, ctx)
            return frozenset(out)
        if isinstance(t, ast.Attribute):
            for o in self.bases(t.value, ctx):
                k = ("attr", o, t.attr)
                out.add(k)
                self.values.setdefault(k, []).append((f, value))
        elif isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Slice) and t.slice.lower is None and t.slice.upper is None:
            out |= self.content(t.value, ctx)
        return frozenset(out)

    def content(self, recv, ctx):
        out = set()
        if isinstance(recv, ast.Attribute):
            held = self.node_objs(recv, ctx)
            if held and all(x.kind in CONTAINERS or x.kind in ("extbound", "extinst") for x in held):
                for o in self.bases(recv.value, ctx):
                    out.add(("content", o, recv.attr))
        return out

    def expr(self, e, f, ctx):
        out = set()
        if e is None:
            return frozenset()
        for n in [e] + list(walk_own(e)):
            if not isinstance(n, ast.Call) or isinstance(e, ast.Lambda):
                continue
            if self._conditional(n, e):
                continue
            # x.attr.clear()
            if isinstance(n.func, ast.Attribute) and n.func.attr == "clear" and not n.args:
                out |= self.content(n.func.value, ctx)
            if isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
                for o in self.bases(n.args[0], ctx):
                    k = ("attr", o, n.args[1].value)
                    out.add(k)
                    self.values.setdefault(k, []).append((f, n.args[2]))
            targets = set()
            for o in self.p.get(("E", id(n.func), ctx)):
                if o.kind == "bound":
                    targets.add((o.key[0], o.key[1]))
                elif o.kind == "func":
                    targets.add((o.key[0], ("closure", o.key[1])))
            if not targets:
                continue
            union = len(targets) == 1 or (isinstance(n.func, ast.Attribute) and self.is_loopvar(n.func.value))
            effs = []
            for fn, so in targets:
                if isinstance(so, tuple):
                    effs.append(self.func(fn, so[1]))
                else:
                    effs.append(self.func(fn, self.p.ctx_for(fn, so)))
            if union:
                for x in effs:
                    out |= x
            elif effs:
                out |= frozenset.intersection(*effs)
        return frozenset(out)

    def _conditional(self, n, root):
        """is call n only conditionally evaluated inside expression root?"""
        x = n
        while x is not root:
            par = getattr(x, "_parent", None)
            if par is None:
                return False
            if isinstance(par, ast.IfExp) and x is not par.test:
                return True
            if isinstance(par, ast.BoolOp) and x is not par.values[0]:
                return True
            if isinstance(par, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) and x is not par.generators[0]:
                return True
            x = par
        return False


def heap_children(p, o, cut=frozenset()):
    """objects directly held by o, except through cut fields"""
    for f, n in o.fields.items():
        if isinstance(f, str) and ("attr", o, f) in cut:
            continue
        for x in p.get(n):
            yield f, x


HEAPKINDS = ("inst", "dict", "list", "set", "tuple", "extinst", "input", "bound", "func", "super")


def reachable(p, roots, cut=frozenset(), cutcontent=frozenset()):
    """obj -> (parent, field) path map of the heap reachable from roots"""
    seen = {o: None for o in roots}
    todo = list(roots)
    while todo:
        o = todo.pop()
        if o in cutcontent:
            continue
        ch = []
        if o.kind == "bound":
            ch = [("<self>", o.key[1])]
        elif o.kind in ("inst", "extinst", "input") or o.kind in CONTAINERS or o.kind == "class":
            ch = list(heap_children(p, o, cut))
        for f, x in ch:
            if x.kind in ("str", "lab", "ext", "extbound", "module", "class", "enummember"):
                continue
            if x not in seen:
                seen[x] = (o, f)
                todo.append(x)
    return seen


def path_to(seen, o):
    parts = []
    while seen.get(o) is not None:
        par, f = seen[o]
        parts.append(f if isinstance(f, str) else str(f[-1]))
        o = par
    name = o.key[0].name if o.kind in ("inst", "class") and hasattr(o.key[0], "name") else repr(o)
    return name + "." + ".".join(reversed(parts)) if parts else name


def attr_reads(prog):
    """attribute names that are read anywhere in the package (or handed to getattr)"""
    out = set()
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                out.add(n.attr)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute):
                pass
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("getattr", "hasattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                out.add(n.args[1].value)
    return out


def normalize_fresh(e):
    """comparable form of a closed (input independent) initial value, or None"""
    if e is None:
        return None
    if isinstance(e, ast.Constant):
        return ("c", repr(e.value))
    if isinstance(e, ast.UnaryOp) and isinstance(e.operand, ast.Constant):
        return ("c", ast.unparse(e))
    if isinstance(e, ast.Dict):
        if not e.keys:
            return ("dict",)
        ks = [normalize_fresh(k) for k in e.keys]
        vs = [normalize_fresh(v) for v in e.values]
        return None if None in ks or None in vs else ("dict",) + tuple(sorted(zip(ks, vs)))
    if isinstance(e, (ast.List, ast.Tuple)):
        vs = [normalize_fresh(v) for v in e.elts]
        return None if None in vs else (type(e).__name__.lower(),) + tuple(vs)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and not e.args and not e.keywords and e.func.id in ("dict", "list", "set", "tuple", "OrderedDict", "deque"):
        return (e.func.id.lower(),)
    return None
