"""Structured path interpreter: abstract states flow through the statements of a function (package callees inlined through
the points-to call graph), with normal, return, break/continue and exceptional exits, generator context managers included."""
import ast
from .core import *
from .exc import Exc

NEXT, RET, BRK, CNT = "next", "return", "break", "continue"


class State:
    """facts: client facts; env: known values of local names ('True','False','None','NotNone', or a constant repr)"""
    __slots__ = ("facts", "env")

    def __init__(self, facts=frozenset(), env=frozenset()):
        self.facts, self.env = facts, env

    def __hash__(self):
        return hash((self.facts, self.env))

    def __eq__(self, o):
        return isinstance(o, State) and self.facts == o.facts and self.env == o.env

    def add(self, *fs):
        return State(self.facts | set(fs), self.env)

    def drop(self, *fs):
        return State(self.facts - set(fs), self.env)

    def bind(self, name, val):
        env = {k: v for k, v in self.env if k != name}
        if val is not None:
            env[name] = val
        return State(self.facts, frozenset(env.items()))

    def get(self, name):
        for k, v in self.env:
            if k == name:
                return v
        return None

    def withenv(self, env):
        return State(self.facts, env)

    def __repr__(self):
        return f"S({set(self.facts)},{dict(self.env)})"


class FnVal(tuple):
    """a known callable: (function, context, captured environment)"""
    def __new__(cls, f, ctx, cap):
        return tuple.__new__(cls, (f, ctx, cap))


class GenVal(tuple):
    """a generator that has not run yet: ('func', function, context, environment) or ('exp', node, function, context, environment)"""


class Frame:
    def __init__(self, func, ctx, handler=None, outer=None):
        self.func, self.ctx, self.handler, self.outer = func, ctx, handler, outer


class Client:
    top = "Exception"
    inline_depth = 12

    def relevant(self, func):
        return True

    def on_call(self, call, frame, st, eng):
        """-> None (default) | list of outcomes (kind, state, exc|None)"""
        return None

    def may_raise(self, call, frame, targets, eng):
        return self.top

    def on_stmt(self, stmt, frame, st, eng):
        return st

    def on_expr(self, e, frame, st, eng):
        return None

    def cond(self, e, frame, st, eng):
        return None

    def bind_loop(self, s, st, fr, eng):
        return None

    def value(self, e, st, fr, eng):
        """client value of an expression (kept in the environment), or None"""
        return None

    def on_handler(self, handler, frame, st, exc, eng):
        return st


class Engine:
    MAXSTATES = 400

    def __init__(self, p, client):
        self.p, self.c = p, client
        self.exc = Exc(p.prog)
        self.memo = {}
        self.stack = []
        self.overflow = False

    def targets(self, call, ctx):
        out, ext = [], []
        for o in self.p.get(("E", id(call.func), ctx)):
            if o.kind == "bound":
                out.append((o.key[0], self.p.ctx_for(o.key[0], o.key[1])))
            elif o.kind == "func":
                out.append((o.key[0], o.key[1]))
            elif o.kind in ("ext", "extbound", "class"):
                ext.append(o)
        return out, ext

    def exc_classes(self, e, ctx):
        """exception classes of a computed exception object (points-to)"""
        out = set()
        for o in self.p.get(("E", id(e), ctx)):
            if o.kind == "inst" and isinstance(o.key[0], Class):
                out.add(o.key[0].full)
            elif o.kind == "extinst" and self.exc.known(str(o.key[0]).replace("builtins.", "")):
                out.add(str(o.key[0]).replace("builtins.", ""))
        return out

    # ---- functions
    def run(self, f, ctx, st):
        """-> set of (kind in {return, raise}, State(facts, ()), exc)"""
        key = (f, ctx, st)
        if key in self.memo:
            return self.memo[key]
        if key in self.stack or len(self.stack) > self.c.inline_depth:
            return {(RET, State(st.facts), None)}
        self.stack.append(key)
        fr = Frame(f, ctx)
        outs = self.block(f.body, {st}, fr)
        self.stack.pop()
        res = set()
        for k, s, x in outs:
            if k in (NEXT, RET):
                res.add((RET, State(s.facts, frozenset((a, v) for a, v in s.env if a == "<ret>")), None))
            elif k == "raise":
                res.add(("raise", State(s.facts), x))
        self.memo[key] = res
        return res

    def bind_params(self, f, call, st, frame, selfobj=False):
        env = {}
        pos = list(f.posargs)
        if pos and f.cls is not None and not f.is_static:
            pos = pos[1:]
        used = set()
        for a, n in zip(call.args, pos):
            if isinstance(a, ast.Starred):
                break
            v = self.const(a, st, frame)
            used.add(n)
            if v is not None:
                env[n] = v
        for k in call.keywords:
            if k.arg:
                used.add(k.arg)
                v = self.const(k.value, st, frame)
                if v is not None:
                    env[k.arg] = v
        star = any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords)
        for n, d in f.defaults.items():
            if n not in used and not star:
                v = self.const(d, State(), frame)
                if v is not None:
                    env[n] = v
        return frozenset(env.items())

    def const(self, e, st, frame):
        cv = self.c.value(e, st, frame, self)
        if cv is not None:
            return cv
        if isinstance(e, ast.Constant):
            if e.value is True or e.value is False or e.value is None:
                return repr(e.value)
            return "truthy:" + repr(e.value) if e.value else "falsy:" + repr(e.value)
        if isinstance(e, ast.Name) and st.get(e.id) is not None:
            return st.get(e.id)
        if isinstance(e, (ast.Name, ast.Lambda, ast.Attribute)):
            os_ = [o for o in self.p.get(("E", id(e), frame.ctx))]
            if len(os_) == 1 and os_[0].kind in ("func", "bound"):
                o = os_[0]
                f = o.key[0]
                ctx = o.key[1] if o.kind == "func" else self.p.ctx_for(f, o.key[1])
                cap = frozenset((k, v) for k, v in st.env if not k.startswith("<")) if o.kind == "func" and f.parent is not None else frozenset()
                return FnVal(f, ctx, cap)
            return None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.truth(self.const(e.operand, st, frame))
            return None if v is None else repr(not v)
        if isinstance(e, ast.GeneratorExp):
            return GenVal(("exp", e, frame.func, frame.ctx, st.env))
        if isinstance(e, ast.Call):
            ts, ext = self.targets(e, frame.ctx)
            if len(ts) == 1 and not ext and ts[0][0].is_gen and not ts[0][0].is_ctx and self.c.relevant(ts[0][0]):
                return GenVal(("func", ts[0][0], ts[0][1], self.bind_params(ts[0][0], e, st, frame)))
        return None

    def consume(self, e, st, fr):
        """outcomes of exhausting the generator e evaluates to (nothing when it is not a known one)"""
        v = self.const(e, st, fr)
        if not isinstance(v, GenVal):
            return {(NEXT, st, None)}
        if v[0] == "exp":
            fr2 = Frame(v[2], v[3])
            outs = self._comp(v[1], State(st.facts, v[4]), fr2, first=False)
        else:
            outs = self.run(v[1], v[2], State(st.facts, v[3]))
        return {("raise" if k == "raise" else NEXT, State(q.facts, st.env), x) for k, q, x in outs}

    @staticmethod
    def truth(v):
        if v is None:
            return None
        if isinstance(v, (FnVal, GenVal)):
            return True
        if not isinstance(v, str):
            return None
        if v in ("False", "None") or v.startswith("falsy"):
            return False
        if v in ("True",) or v.startswith("truthy"):
            return True
        return None

    # ---- statements: states -> set of outcomes
    def block(self, body, states, fr):
        outs = set()
        cur = set(states)
        for s in body:
            if not cur:
                break
            nxt = set()
            for st in cur:
                for k, s2, x in self.stmt(s, st, fr):
                    if k == NEXT:
                        nxt.add(s2)
                    else:
                        outs.add((k, s2, x))
            if len(nxt) > self.MAXSTATES:
                self.overflow = True
                nxt = set(list(nxt)[: self.MAXSTATES])
            cur = nxt
        for st in cur:
            outs.add((NEXT, st, None))
        return outs

    def seq(self, outs, fn):
        res = set()
        for k, s, x in outs:
            if k == NEXT:
                res |= fn(s)
            else:
                res.add((k, s, x))
        return res

    def stmt(self, s, st, fr):
        N = lambda q: {(NEXT, q, None)}
        if isinstance(s, ast.Return):
            def r(q):
                q = self.c.on_stmt(s, fr, q, self)
                v = self.const(s.value, q, fr) if s.value is not None else "None"
                return {(RET, q.bind("<ret>", v), None)}
            return self.seq(self.expr(s.value, st, fr), r)
        if isinstance(s, ast.Raise):
            def r(q):
                if s.exc is None:
                    x = next((v for k, v in q.env if k == "<exc>"), self.c.top)
                else:
                    e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
                    x = self.exc.name_of(fr.func.module, e)
                    if isinstance(e, ast.Name) and not isinstance(s.exc, ast.Call) and (x is None or q.get("<excname>") == e.id):
                        x = q.get("<exc>") if q.get("<excname>") == e.id else None
                        v = q.get(e.id)
                        if x is None and isinstance(v, tuple) and v and v[0] == "exc":
                            x = v[1]
                    if x is None or isinstance(s.exc, ast.Call) and not self.exc.known(x):
                        cl = self.exc_classes(s.exc, fr.ctx)
                        if cl:
                            return {("raise", self.c.on_stmt(s, fr, q, self), c) for c in cl}
                        x = x if x is not None and self.exc.known(x) else self.c.top
                q = self.c.on_stmt(s, fr, q, self)
                return {("raise", q, x or self.c.top)}
            if isinstance(s.exc, ast.Call):
                outs = {(NEXT, st, None)}
                for a in s.exc.args:
                    outs = self.seq(outs, lambda q, a=a: self.expr(a, q, fr, quiet=True))
                return self.seq(outs, r)
            return r(st)
        if isinstance(s, ast.If):
            return self.branch(s.test, st, fr, lambda q: self.block(s.body, {q}, fr), lambda q: self.block(s.orelse, {q}, fr))
        if isinstance(s, (ast.While, ast.For)):
            return self.loop(s, st, fr)
        if isinstance(s, ast.With):
            return self.with_(s, 0, st, fr)
        if isinstance(s, ast.Try):
            return self.try_(s, st, fr)
        if isinstance(s, ast.Break):
            return {(BRK, st, None)}
        if isinstance(s, ast.Continue):
            return {(CNT, st, None)}
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Pass)):
            return N(st)
        if isinstance(s, ast.Assert):
            return self.seq(self.expr(s.test, st, fr), lambda q: {(NEXT, q, None), ("raise", q, "AssertionError")})

        def fin(q):
            if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and s.value is not None:
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in ts:
                    if isinstance(t, ast.Name):
                        v = None
                        if not isinstance(s, ast.AugAssign):
                            v = self.const(s.value, q, fr)
                            if v is None and isinstance(s.value, ast.Call):
                                v = q.get("<ret>")
                        q = q.bind(t.id, v)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        vals = s.value.elts if isinstance(s.value, (ast.Tuple, ast.List)) and len(s.value.elts) == len(t.elts) else [None] * len(t.elts)
                        new = [(x.id, self.const(v, q, fr) if v is not None else None) for x, v in zip(t.elts, vals) if isinstance(x, ast.Name)]
                        for nm, v in new:
                            q = q.bind(nm, v)
            q = q.bind("<ret>", None)
            q = self.c.on_stmt(s, fr, q, self)
            return N(q) if isinstance(q, State) else q
        outs = {(NEXT, st, None)}
        for c in self._stmt_exprs(s):
            outs = self.seq(outs, lambda q, c=c: self.expr(c, q, fr))
        return self.seq(outs, fin)

    def _stmt_exprs(self, s):
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            out = [s.value] if s.value is not None else []
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                for x in ast.walk(t):
                    if isinstance(x, ast.Call):
                        out.append(t)
                        break
            return out
        return [c for c in ast.iter_child_nodes(s) if isinstance(c, ast.expr)]

    def loop(self, s, st, fr):
        outs = set()
        head = set()
        work = set()
        if isinstance(s, ast.For):
            for k, q, x in self.seq(self.expr(s.iter, st, fr), lambda q: self.consume(s.iter, q, fr)):
                (work.add(q) if k == NEXT else outs.add((k, q, x)))
        else:
            work = {st}
        exits = set()
        names = [n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)] if isinstance(s, ast.For) else []
        while work:
            q = work.pop()
            if q in head:
                continue
            head.add(q)
            if len(head) > self.MAXSTATES:
                self.overflow = True
                break

            def body(q2):
                for n in names:
                    q2 = q2.bind(n, None)
                if isinstance(s, ast.For):
                    b = self.c.bind_loop(s, q2, fr, self)
                    starts = b if b is not None else {q2}
                else:
                    starts = {q2}
                res = set()
                for k, q3, x in self.block(s.body, starts, fr):
                    if k in (NEXT, CNT):
                        work.add(q3)
                    elif k == BRK:
                        res.add((NEXT, q3, None))
                    else:
                        res.add((k, q3, x))
                return res
            if isinstance(s, ast.For):
                outs |= body(q)
                exits.add(q)
            else:
                def no(q2):
                    exits.add(q2)
                    return set()
                outs |= self.branch(s.test, q, fr, body, no)
        for q in exits:
            if s.orelse:
                outs |= self.block(s.orelse, {q}, fr)
            else:
                outs.add((NEXT, q, None))
        return outs

    def with_(self, s, i, st, fr):
        if i == len(s.items):
            return self.block(s.body, {st}, fr)
        it = s.items[i]
        ce = it.context_expr
        inner = lambda q: self.with_(s, i + 1, self._bind_target(it.optional_vars, q), fr)
        gens = []
        if isinstance(ce, ast.Call):
            ts, _ = self.targets(ce, fr.ctx)
            gens = [t for t in ts if t[0].is_ctx]
        if gens:
            outs = {(NEXT, st, None)}
            for a in list(ce.args) + [k.value for k in ce.keywords]:
                outs = self.seq(outs, lambda q, a=a: self.expr(a, q, fr))

            def enter(q):
                res = set()
                for g, gctx in gens:
                    env = self.bind_params(g, ce, q, fr)
                    res |= self.gen_with(g, gctx, State(q.facts, env), q.env, inner, fr)
                return res
            return self.seq(outs, enter)
        if isinstance(ce, ast.Call) and (dotted(ce.func) or "").split(".")[-1] == "suppress":
            names = [self.exc.name_of(fr.func.module, a) or "?" for a in ce.args]
            res = set()
            for k, q, x in inner(st):
                if k == "raise":
                    got, rest = self.exc.match(x, names)
                    if got is not None:
                        res.add((NEXT, self.c.on_handler(ce, fr, q, got, self), None))
                    if rest is not None:
                        res.add((k, q, rest))
                else:
                    res.add((k, q, x))
            return res
        return self.seq(self.expr(ce, st, fr), inner)

    def _bind_target(self, t, st):
        if t is None:
            return st
        for n in ast.walk(t):
            if isinstance(n, ast.Name):
                st = st.bind(n.id, None)
        return st

    def gen_with(self, g, gctx, gst, env0, inner, outer):
        """with <generator context manager>: body.  body = inner(state in the caller's environment)"""
        if len(self.stack) > self.c.inline_depth:
            return inner(gst.withenv(env0))
        pend = {}

        def handler(q):
            """called at a yield with the generator's state; returns outcomes in the generator"""
            outs = set()
            for k, q2, x in inner(State(q.facts, env0)):
                if k == "raise":
                    tok = ("<pend>", len(pend))
                    pend[tok] = ("raise", q2.env, x)
                    outs.add(("raise", State(q2.facts, q.env), x))
                else:
                    tok = ("<pend>", k, q2.env)
                    outs.add((NEXT, State(q2.facts | {tok}, q.env), None))
            return outs
        fr = Frame(g, gctx, handler, outer)
        self.stack.append((g, gctx, "with"))
        outs = self.block(g.body, {gst}, fr)
        self.stack.pop()
        res = set()
        for k, q, x in outs:
            toks = [f for f in q.facts if isinstance(f, tuple) and f and f[0] == "<pend>"]
            facts = q.facts - set(toks[-1:])
            if k == "raise":
                res.add(("raise", State(q.facts - set(toks), env0), x))
            elif toks:
                t = toks[-1]
                res.add((t[1], State(facts, t[2]), None))
            else:
                # generator ended without yielding, or swallowed the exception
                res.add((NEXT, State(facts, env0), None))
        return res

    def try_(self, s, st, fr):
        outs = self.block(s.body, {st}, fr)
        res = set()
        for k, q, x in outs:
            if k == NEXT:
                res |= self.block(s.orelse, {q}, fr) if s.orelse else {(NEXT, q, None)}
            elif k == "raise":
                rest = x
                for h in s.handlers:
                    if rest is None:
                        break
                    names = self.exc.handler_names(fr.func.module, h)
                    got, rest = self.exc.match(rest, names)
                    if got is not None:
                        old = (q.get("<exc>"), q.get("<excname>"))
                        q2 = q.bind("<exc>", got).bind("<excname>", h.name)
                        q2 = self.c.on_handler(h, fr, q2, got, self)
                        for k3, q3, x3 in self.block(h.body, {q2}, fr):
                            res.add((k3, q3.bind("<exc>", old[0]).bind("<excname>", old[1]), x3))
                if rest is not None:
                    res.add(("raise", q, rest))
            else:
                res.add((k, q, x))
        if not s.finalbody:
            return res
        out2 = set()
        for k, q, x in res:
            ret = q.get("<ret>")
            for k2, q2, x2 in self.block(s.finalbody, {q}, fr):
                if k2 == NEXT:
                    out2.add((k, q2.bind("<ret>", ret) if k == RET else q2, x))
                else:
                    out2.add((k2, q2, x2))
        return out2

    # ---- conditions
    def branch(self, test, st, fr, yes, no):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.branch(test.operand, st, fr, no, yes)
        if isinstance(test, ast.BoolOp):
            first, rest = test.values[0], test.values[1:]
            rt = rest[0] if len(rest) == 1 else ast.copy_location(ast.BoolOp(op=test.op, values=rest), test)
            if isinstance(test.op, ast.And):
                return self.branch(first, st, fr, lambda q: self.branch(rt, q, fr, yes, no), no)
            return self.branch(first, st, fr, yes, lambda q: self.branch(rt, q, fr, yes, no))

        def dec(q):
            v = self.c.cond(test, fr, q, self)
            if v is None:
                v = self.truth(self.const(test, q, fr))
            if v is None and isinstance(test, ast.Call):
                v = self.truth(q.get("<ret>"))
            if v is None and isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and isinstance(test.comparators[0], ast.Constant):
                cur = q.get(test.left.id)
                cv = test.comparators[0].value
                op = test.ops[0]
                if isinstance(op, (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
                    pos = isinstance(op, (ast.Is, ast.Eq))
                    same = None
                    if cur is not None and (cv is None or isinstance(cv, bool)):
                        if cv is None:
                            same = cur == "None" if cur in ("None", "True", "False", "NotNone") or isinstance(cur, FnVal) or (isinstance(cur, str) and cur.startswith("truthy")) else None
                        elif cur in ("True", "False", "None"):
                            same = cur == repr(cv)
                    if same is not None:
                        return yes(q) if same == pos else no(q)
                    qs = q.bind(test.left.id, repr(cv)) if (cv is None or isinstance(cv, bool)) else q
                    qn = q.bind(test.left.id, "NotNone") if cv is None else q
                    return (yes(qs) | no(qn)) if pos else (yes(qn) | no(qs))
            q = q.bind("<ret>", None)
            if v is True:
                return yes(q)
            if v is False:
                return no(q)
            if isinstance(test, ast.Name):
                cur = q.get(test.id)
                if cur == "NotNone":
                    return yes(q) | no(q)
                return yes(q.bind(test.id, "truthy:")) | no(q.bind(test.id, "falsy:"))
            if isinstance(test, ast.NamedExpr):
                return yes(q) | no(q)
            y, n = q, q
            rc = getattr(self.c, "refine", None)
            if rc is not None:
                y, n = rc(test, fr, q, True, self), rc(test, fr, q, False, self)
            out = set()
            if y is not None:
                out |= yes(y)
            if n is not None:
                out |= no(n)
            return out
        return self.seq(self.expr(test, st, fr), dec)

    # ---- expressions
    def expr(self, e, st, fr, quiet=False):
        if e is None or isinstance(e, (ast.Constant, ast.Name, ast.Lambda)):
            r = self.c.on_expr(e, fr, st, self) if e is not None else None
            return {(NEXT, r if r is not None else st, None)}
        if isinstance(e, ast.Yield):
            def y(q):
                q = self.c.on_stmt(e, fr, q, self)
                if fr.handler is not None:
                    return fr.handler(q)
                return {(NEXT, q, None)}
            return self.seq(self.expr(e.value, st, fr), y)
        if isinstance(e, ast.IfExp):
            return self.branch(e.test, st, fr, lambda q: self.expr(e.body, q, fr), lambda q: self.expr(e.orelse, q, fr))
        if isinstance(e, ast.BoolOp):
            outs = self.expr(e.values[0], st, fr)
            for v in e.values[1:]:
                outs = outs | self.seq(outs, lambda q, v=v: self.expr(v, q, fr))
            return outs
        if isinstance(e, ast.GeneratorExp):
            return self.expr(e.generators[0].iter, st, fr)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp)):
            return self._comp(e, st, fr)
        if isinstance(e, (ast.YieldFrom, ast.Starred)):
            return self.seq(self.expr(e.value, st, fr), lambda q: self.consume(e.value, q, fr))
        outs = {(NEXT, st, None)}
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.keyword):
                c = c.value
            if isinstance(c, ast.expr):
                outs = self.seq(outs, lambda q, c=c: self.expr(c, q, fr, quiet))
            elif isinstance(c, ast.FormattedValue):
                outs = self.seq(outs, lambda q, c=c: self.expr(c.value, q, fr, quiet))
        if isinstance(e, ast.Call):
            return self.seq(outs, lambda q: self.call(e, q, fr, quiet))

        def oe(q):
            r = self.c.on_expr(e, fr, q, self)
            if r is None:
                return {(NEXT, q, None)}
            if isinstance(r, State):
                return {(NEXT, r, None)}
            return r
        return self.seq(outs, oe)

    def _comp(self, e, st, fr, first=True):
        it = e.generators[0].iter
        outs = self.seq(self.expr(it, st, fr), lambda q: self.consume(it, q, fr)) if first else self.consume(it, st, fr)
        parts = []
        for i, g in enumerate(e.generators):
            if i:
                parts.append(g.iter)
            parts += g.ifs
        parts += [e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]
        body = outs
        for x in parts:
            body = self.seq(body, lambda q, x=x: self.expr(x, q, fr))
        return outs | body

    def call(self, e, st, fr, quiet=False):
        args = [a for a in e.args if not isinstance(a, ast.Starred)]
        if any(isinstance(self.const(a, st, fr), GenVal) for a in args) and not any(self.c.relevant(t[0]) for t in self.targets(e, fr.ctx)[0]):
            outs = {(NEXT, st, None)}
            for a in args:
                outs = self.seq(outs, lambda q, a=a: self.consume(a, q, fr))
            return self.seq(outs, lambda q: self.call_(e, q, fr, quiet))
        return self.call_(e, st, fr, quiet)

    def call_(self, e, st, fr, quiet=False):
        r = self.c.on_call(e, fr, st, self)
        if r is not None:
            return set(r)
        ts, ext = self.targets(e, fr.ctx)
        caps = {}
        if isinstance(e.func, ast.Name):
            v = st.get(e.func.id)
            if isinstance(v, FnVal):
                ts, ext = [(v[0], v[1])], []
                caps[v[0]] = v[2]
            elif len(ts) == 1 and ts[0][0].parent is not None:
                caps[ts[0][0]] = frozenset((k, v) for k, v in st.env if not k.startswith("<"))
        res = set()
        st = st.bind("<ret>", None)
        rel = [t for t in ts if self.c.relevant(t[0]) and not t[0].is_gen]
        opaque = len(rel) < len(ts) or not ts or ext
        for f, ctx in rel:
            env = self.bind_params(f, e, st, fr)
            if f in caps:
                have = {k for k, _ in env}
                env = env | {(k, v) for k, v in caps[f] if k not in have and k not in f.locals}
            for k, q, x in self.run(f, ctx, State(st.facts, env)):
                if k == RET:
                    s2 = State(q.facts, st.env)
                    v = q.get("<ret>")
                    res.add((NEXT, s2.bind("<ret>", v) if v is not None else s2, None))
                else:
                    res.add(("raise", State(q.facts, st.env), x))
        if opaque or not rel:
            res.add((NEXT, st, None))
            x = None if quiet else self.c.may_raise(e, fr, (ts, ext), self)
            for xx in ([x] if isinstance(x, str) else (x or [])):
                res.add(("raise", st, xx))
        return res


def reaches(p, entries, pred):
    """functions from which a function satisfying pred(func) is reachable (via points-to call graph)"""
    rev = {}
    for (f, c), outs in p.calls_by.items():
        for g, c2 in outs:
            rev.setdefault(g, set()).add(f)
    seen = {f for f in set(rev) | {x for v in rev.values() for x in v} if f is not None and pred(f)}
    todo = list(seen)
    while todo:
        f = todo.pop()
        for g in rev.get(f, ()):
            if g is not None and g not in seen:
                seen.add(g)
                todo.append(g)
    return seen
