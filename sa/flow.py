"""Structured path analysis over one function (with inlining of package callees)."""
import ast
from .core import *


def eval_order_calls(e):
    """calls inside expression e in evaluation order (inner first), not entering lambdas"""
    out = []

    def rec(n):
        if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return
        for c in ast.iter_child_nodes(n):
            rec(c)
        if isinstance(n, ast.Call):
            out.append(n)
    if e is not None:
        rec(e)
    return out


def must_precede(p, f, ctx, is_first, is_second, skip=lambda f: False, depth=6):
    """every call satisfying is_second that f (transitively) makes: is a call satisfying is_first
    always executed before it?  -> [(call, func, bool)]"""
    results = {}

    def callee_targets(call, ctx):
        out = []
        for o in p.get(("E", id(call.func), ctx)):
            if o.kind == "bound":
                out.append((o.key[0], p.ctx_for(o.key[0], o.key[1])))
            elif o.kind == "func":
                out.append((o.key[0], o.key[1]))
        return out

    def run(f, ctx, st0, stack):
        """-> state at normal exit (bool: first done), None if never"""
        exits = []

        def call_effect(call, st):
            if is_second(call, f, ctx):
                k = id(call)
                results[k] = (call, f, results.get(k, (None, None, True))[2] and st)
            if is_first(call, f, ctx):
                return True
            ts = callee_targets(call, ctx)
            outs = []
            for t in ts:
                if t in stack or len(stack) > depth or skip(t[0]):
                    outs.append(st)
                    continue
                r = run(t[0], t[1], st, stack + [t])
                outs.append(st if r is None else r)
            # callables passed as arguments run inside the callee: handled by points-to when called there
            if outs:
                return all(outs)
            return st

        def exprs(e, st):
            for c in eval_order_calls(e):
                st = call_effect(c, st)
            return st

        def block(body, st):
            for s in body:
                if st is None:
                    return None
                st = stmt(s, st)
            return st

        def join(*xs):
            xs = [x for x in xs if x is not None]
            return all(xs) if xs else None

        def stmt(s, st):
            if isinstance(s, ast.Return):
                st = exprs(s.value, st)
                exits.append(st)
                return None
            if isinstance(s, ast.Raise):
                exprs(s.exc, st)
                return None
            if isinstance(s, ast.If):
                st = exprs(s.test, st)
                return join(block(s.body, st), block(s.orelse, st))
            if isinstance(s, ast.While):
                st = exprs(s.test, st)
                block(s.body, st)
                return st
            if isinstance(s, ast.For):
                st = exprs(s.iter, st)
                block(s.body, st)
                return block(s.orelse, st)
            if isinstance(s, ast.With):
                for it in s.items:
                    st = exprs(it.context_expr, st)
                return block(s.body, st)
            if isinstance(s, ast.Try):
                a = block(s.body, st)
                if a is not None:
                    a = block(s.orelse, a)
                hs = [block(h.body, st) for h in s.handlers]
                r = join(a, *hs)
                if s.finalbody:
                    fr = block(s.finalbody, st if r is None else r)
                    return None if r is None else fr
                return r
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                return st
            if isinstance(s, (ast.Break, ast.Continue)):
                return None
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    st = exprs(c, st)
            return st
        end = block(f.body, st0)
        return join(end, *exits) if (end is not None or exits) else None
    run(f, ctx, False, [(f, ctx)])
    return list(results.values())


class FactFlow:
    """Must-fact dataflow over the call graph: `gen(node, func, ctx)` yields facts established by a call/assignment node,
    `query(node, func, ctx, facts)` sees each visited call/attribute-load node with the facts that definitely hold there."""

    def __init__(self, p, gen, query, skip=lambda f: False, depth=12, loopgen=None):
        self.loopgen = loopgen
        self.p, self.gen, self.query, self.skip, self.depth = p, gen, query, skip, depth
        self.memo = {}

    def targets(self, call, ctx):
        out = []
        for o in self.p.get(("E", id(call.func), ctx)):
            if o.kind == "bound":
                out.append((o.key[0], self.p.ctx_for(o.key[0], o.key[1])))
            elif o.kind == "func":
                out.append((o.key[0], o.key[1]))
        return out

    def run(self, f, ctx, facts=frozenset(), stack=()):
        k = (f, ctx, facts)
        if k in self.memo:
            return self.memo[k]
        if (f, ctx) in stack or len(stack) > self.depth:
            return facts
        self.memo[k] = facts  # recursion: nothing new
        stack = stack + ((f, ctx),)
        exits = []

        def call(c, st):
            self.query(c, f, ctx, st)
            st = st | self.gen(c, f, ctx)
            outs = []
            for t in self.targets(c, ctx):
                if self.skip(t[0]):
                    outs.append(st)
                else:
                    outs.append(self.run(t[0], t[1], st, stack))
            return st | frozenset.intersection(*outs) if outs else st

        def expr(e, st):
            if e is None:
                return st
            if isinstance(e, (ast.Lambda,)):
                return st
            if isinstance(e, ast.BoolOp):
                st = expr(e.values[0], st)
                s2 = st
                for v in e.values[1:]:
                    s2 = expr(v, s2)
                return st
            if isinstance(e, ast.IfExp):
                st = expr(e.test, st)
                return expr(e.body, st) & expr(e.orelse, st)
            if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                st = expr(e.generators[0].iter, st)
                s2 = st
                for i, g in enumerate(e.generators):
                    if i:
                        s2 = expr(g.iter, s2)
                    for c in g.ifs:
                        s2 = expr(c, s2)
                if isinstance(e, ast.DictComp):
                    expr(e.key, s2)
                    expr(e.value, s2)
                else:
                    expr(e.elt, s2)
                return st
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    st = expr(c, st)
                elif isinstance(c, ast.keyword):
                    st = expr(c.value, st)
            if isinstance(e, ast.Call):
                return call(e, st)
            if isinstance(e, ast.Attribute) and isinstance(e.ctx, ast.Load):
                self.query(e, f, ctx, st)
            return st

        def block(body, st):
            for s in body:
                if st is None:
                    return None
                st = stmt(s, st)
            return st

        def join(*xs):
            xs = [x for x in xs if x is not None]
            return frozenset.intersection(*xs) if xs else None

        def stmt(s, st):
            if isinstance(s, ast.Return):
                exits.append(expr(s.value, st))
                return None
            if isinstance(s, ast.Raise):
                expr(s.exc, st)
                return None
            if isinstance(s, ast.If):
                st = expr(s.test, st)
                return join(block(s.body, st), block(s.orelse, st))
            if isinstance(s, ast.While):
                st = expr(s.test, st)
                block(s.body, st)
                return block(s.orelse, st) if s.orelse else st
            if isinstance(s, ast.For):
                g = self.gen(s, f, ctx)
                if g:
                    return st | g
                st = expr(s.iter, st)
                block(s.body, st)
                if self.loopgen is not None:
                    st = st | self.loopgen(s, f, ctx)
                return block(s.orelse, st)
            if isinstance(s, ast.With):
                for it in s.items:
                    st = expr(it.context_expr, st)
                return block(s.body, st)
            if isinstance(s, ast.Try):
                a = block(s.body, st)
                if a is not None:
                    a = block(s.orelse, a)
                hs = [block(h.body, st) for h in s.handlers]
                r = join(a, *hs)
                if s.finalbody:
                    fr = block(s.finalbody, st)
                    return None if r is None else (None if fr is None else r | fr)
                return r
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                return st
            if isinstance(s, (ast.Break, ast.Continue)):
                return None
            if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                st = expr(s.value, st)
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in ts:
                    for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                        if isinstance(x, ast.Attribute):
                            st = expr(x.value, st)
                            if isinstance(s, ast.AugAssign):
                                self.query(x, f, ctx, st)
                        else:
                            st = expr(x, st)
                return st | self.gen(s, f, ctx)
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    st = expr(c, st)
            return st
        end = block(f.body, facts)
        xs = ([end] if end is not None else []) + exits
        res = frozenset.intersection(*xs) if xs else facts
        self.memo[k] = res
        return res


def reset_gen(p, mr):
    """gen function: attribute locations (obj, name) that a statement/call re-establishes"""
    def gen(n, f, ctx):
        out = set()
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                for k in mr.target(t, n.value, f, ctx):
                    out.add((k[1], k[2]))
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr == "clear" and not n.args:
                for k in mr.content(n.func.value, ctx):
                    out.add((k[1], k[2]))
            if isinstance(n.func, ast.Name) and n.func.id == "setattr":
                for k in mr.expr(n, f, ctx):
                    out.add((k[1], k[2]))
        elif isinstance(n, ast.For):
            # for k in self.x: self.x[k] = const
            it = ast.unparse(n.iter)
            if len(n.body) == 1 and isinstance(n.body[0], ast.Assign) and isinstance(n.body[0].value, ast.Constant):
                t = n.body[0].targets[0]
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and ast.unparse(t.value) in it:
                    for o in mr.bases(t.value.value, ctx):
                        out.add((o, t.value.attr))
        return frozenset(out)
    return gen


def reset_loopgen(p, mr):
    """effects of a loop that resets every element it visits (for h in handlers: h.clear())"""
    def gen(s, f, ctx):
        return frozenset((k[1], k[2]) for k in (mr.stmt(s, frozenset(), f, ctx, []) or ()))
    return gen
