"""The shapes of all tokens the parser can put into its result (abstract interpretation of LatexParser.parse).

A shape is a hashable tree: ('none',) ('bool',) ('int',) ('str', const or None) ('tok',) ('top',) ('list', frozenset of element
shapes, lo, hi) ('dict', ((key, frozenset of shapes, always present), ...), site)."""
import ast
import gc
import os
import pickle
import signal
from .core import *
from .drive import build_pta
from . import ai as A
from .slice import own_nodes

TOPS = ("top",)


class Shapes(A.Client):
    answer = None

    def __init__(self, prog, p):
        self.prog, self.p = prog, p
        self.parser = prog.need_class("LatexParser")
        self.P = prog.need_method(self.parser, "parse")
        self.PF = prog.need_method(self.parser, "parse_file")
        self.stores = {}            # site of the list -> {shape: (node, func)}
        self.events = {}
        self.dicts = {}
        for m in prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.Dict, ast.Call, ast.DictComp)):
                    self.dicts[id(n)] = n

    # the parser called again on a part of the text: well-formed tokens (induction over the nesting)
    def call(self, e, fr, st, ts, recv, args, kw, ai):
        if ts and all(t[0] in (self.P, self.PF) for t in ts):
            f = ts[0][0]
            v = args[0] if args else kw.get(f.posargs[1], A.TOP)
            out = []
            rest = A.norm(a for a in v if a[0] not in ("str", "str*", "top")) if f is self.P else frozenset()
            if rest:
                out.append((st, rest))
            if f is self.PF or len(rest) < len(v):
                s2, r = A.alloc(st, (id(e), "parse"), ("list", A.VTOK, 0, None))
                out.append((s2, frozenset({r})))
            return out

    def event(self, kind, node, fr, st, v, ai, **kw):
        if kind == "store":
            if kw.get("key") == "[]":
                for b in kw["base"]:
                    if b[0] == "ref":
                        d = self.stores.setdefault(b[1], {})
                        for a in v:
                            if a[0] in ("ref", "str", "str*", "none", "int", "bool"):
                                sh = freeze(frozenset({a}), st, 0)
                                for x in sh:
                                    d.setdefault(x, set()).add(self.answer)
            return
        if kind in ("alloc", "return", "loophead", "loopback", "forback", "raise"):
            return
        self.events.setdefault((kind, id(node)), (node, fr.func))

    def site_node(self, site):
        return self.dicts.get(site[0]) if isinstance(site, tuple) and site else None


def freeze(v, st, d, memo=None):
    out = set()
    if memo is None:
        memo = {}
    elif (v, d) in memo:
        return memo[v, d]
    else:
        memo[v, d] = out
    for a in v:
        k = a[0]
        if k in ("none", "tok"):
            out.add((k,))
        elif k == "bool":
            out.add(("bool",))
        elif k == "int":
            out.add(("int",))
        elif k == "str":
            out.add(a if len(a[1]) < 40 else ("str", None))
        elif k == "str*":
            out.add(("str", None))
        elif k == "enum":
            out.add(("str", a[3]))
        elif k == "tup":
            els = set()
            for x in a[1]:
                els |= freeze(x, st, d + 1, memo)
            out.add(("list", frozenset(els), len(a[1]), len(a[1])))
        elif k == "ref":
            c = st.heap.get(a)
            if c is None or d > 5:
                out.add(TOPS)
            elif c[0] == "dict":
                if c[2]:
                    out.add(("map", frozenset(freeze(c[2], st, d + 1, memo)), tuple(sorted(((kk, frozenset(freeze(vv, st, d + 1, memo)), m) for kk, (vv, m) in c[1]), key=lambda t: str(t[0])))))
                else:
                    out.add(("dict", tuple(sorted(((kk, frozenset(freeze(vv, st, d + 1, memo)), m) for kk, (vv, m) in c[1]), key=lambda t: str(t[0]))), a[1]))
            elif c[0] == "list":
                out.add(("list", frozenset(freeze(c[1], st, d + 1, memo)), c[2], c[3]))
            else:
                out.add(TOPS)
        else:
            out.add(TOPS)
    if TOPS in out and len(out) > 1:
        memo[v, d] = out = {x for x in out if x[0] in ("top", "dict", "list", "tok", "map")}
    return out


def thaw(shapes, st):
    """shapes -> (state, V): fresh abstract objects"""
    out = set()
    for x in shapes:
        k = x[0]
        if k == "none" or k == "tok":
            out.add((k,))
        elif k == "bool":
            out |= A.VBOOL
        elif k == "int":
            out |= A.VINT
        elif k == "str":
            out.add(x if x[1] is not None else ("str*", 0))
        elif k == "list":
            st, v = thaw(x[1], st)
            st, r = A.alloc(st, ("thaw", x), ("list", v, x[2], x[3]))
            out.add(r)
        elif k in ("dict", "map"):
            d = {}
            for kk, vv, m in (x[1] if k == "dict" else x[2]):
                st, v = thaw(vv, st)
                d[kk] = (v, m)
            rest = None
            if k == "map":
                st, rest = thaw(x[1], st)
            st, r = A.alloc(st, ("thaw", x), A.dictcell(d, rest))
            out.add(r)
        else:
            return st, A.TOP
    return st, A.norm(out)


class Stage2(Shapes):
    """LatexParser.parse with the calls that dispatch over the handlers replaced by one known answer"""
    answer = None        # (handler object, shape) or None: no handler takes anything

    def call(self, e, fr, st, ts, recv, args, kw, ai):
        r = super().call(e, fr, st, ts, recv, args, kw, ai)
        if r is not None:
            return r
        if e in self.dispatch:
            if self.answer is None:
                s, t = A.S(st.env, st.heap), ("tup", (A.VNONE, A.vint(0, 0)))
                return [(s, frozenset({t}))]
            o, sh = self.answer
            s = st
            if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and ai.islocal(e.func.value, st, fr):
                s = s.set((fr.fid, e.func.value.id), frozenset({("inst", o)}))
            s, v = thaw([sh], s)
            return [(s, frozenset({("tup", (v, A.vint(1)))}))]


def handler_objs(p):
    out = []
    for o in p.objs.values():
        if o.kind == "inst" and isinstance(o.key[0], Class):
            m, c = o.key[0].find_method("handle"), o.key[0].find_method("can_handle")
            if m and c and len(m.posargs) >= 2:
                out.append((o, m))
    return out


def targets(p, n, ctx):
    out = []
    for o in p.get(("E", id(n.func), ctx)):
        if o.kind == "bound":
            out.append((o.key[0], p.ctx_for(o.key[0], o.key[1]), o.key[1]))
        elif o.kind == "func":
            out.append((o.key[0], o.key[1], None))
    return out


def dispatch_calls(p, c):
    """the calls that choose among the registered handlers, in the functions parse reaches without entering a handler or
    itself -> ({call: handler objects}, functions from which such a call is reached)"""
    hs = dict(handler_objs(p))
    root = (c.P, p.parser)
    seen, todo, edges, disp = set(), [root], {}, {}
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        f, ctx = k
        for n in own_nodes(f):
            if not isinstance(n, ast.Call):
                continue
            ts = targets(p, n, ctx)
            hit = {o for g, _, o in ts if o in hs and g is hs[o]}
            if len({o.key[0] for o in hit}) >= 4:
                disp.setdefault(n, set()).update(hit)
                edges.setdefault("D", set()).add(k)
                continue
            for g, cx, o in ts:
                if g in (c.P, c.PF) or (o in hs and g.name in ("handle", "can_handle")):
                    continue
                edges.setdefault((g, cx), set()).add(k)
                todo.append((g, cx))
    reach, todo = set(), list(edges.get("D", ()))
    while todo:
        k = todo.pop()
        if k not in reach:
            reach.add(k)
            todo += edges.get(k, ())
    return disp, {k[0] for k in reach} | {c.P}


def token_shapes(prog, p=None, log=None, client=Stage2):
    """-> (client, {shape: [origin]}): everything stored into the list LatexParser.parse returns"""
    p = p or build_pta(prog)
    c = client(prog, p)
    f = c.P
    hs = dict(handler_objs(p))
    c.dispatch, reach = dispatch_calls(p, c)
    if not c.dispatch:
        raise AnalysisBroken("no call reached from LatexParser.parse chooses among the registered handlers")
    handlers = {o for objs in c.dispatch.values() for o in objs}
    ai = A.AI(p, c)
    c.ai = ai
    todo = {}
    for o in sorted(handlers, key=lambda o: o.key[0].name):
        m = hs[o]
        args = {m.posargs[0]: frozenset({("inst", o)}), m.posargs[1]: A.VSTR1}
        for x in m.posargs[2:]:
            args[x] = A.TOP
        for s, v in ai.run(m, p.ctx_for(m, o), args, A.S()):
            for a in v:
                if a[0] == "tup" and a[1]:
                    for sh in freeze(a[1][0], s, 0):
                        if sh[0] not in ("none", "top", "tok"):
                            todo.setdefault((o, sh), None)
    c.todo = todo
    out, sites = {}, set()

    def once(ans):
        c.answer = ans
        for k in [k for k in ai.memo if k[0] in reach or any(r[1][0] == "thaw" for r, _ in k[3])]:
            del ai.memo[k]
        res = ai.run(f, p.parser, {f.posargs[0]: frozenset({("inst", p.parser)}), f.posargs[1]: A.VSTR}, A.S())
        sites.update(a[1] for st, v in res for a in v if a[0] == "ref")
        if log:
            log(ans)
    c.skipped = 0
    with deadline(240) as d:
        once(None)
    if d.hit:
        raise AnalysisBroken("LatexParser.parse could not be interpreted within 240 s")
    parallel(c, list(todo), once, sites, 300)
    for s in sites:
        for sh, o in c.stores.get(s, {}).items():
            out.setdefault(sh, set()).update(o)
    if not out:
        raise AnalysisBroken("no token reaches the list returned by LatexParser.parse")
    return c, out


class deadline:
    """stop what runs in the block after so many seconds (self.hit)"""
    class Over(BaseException):
        pass

    def __init__(self, sec):
        self.sec, self.hit = sec, False

    def __enter__(self):
        def stop(*a):
            raise deadline.Over()
        self.old = signal.signal(signal.SIGALRM, stop)
        signal.alarm(self.sec)
        return self

    def __exit__(self, t, e, tb):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)
        if t is deadline.Over:
            self.hit = True
            return True


def parallel(c, todo, once, sites, sec, workers=6):
    """once(answer) for every answer, in forked workers (the program, the points-to result and the memo are shared); adds to
    c.stores and sites.  What a worker does not finish in time is counted in c.skipped."""
    objs = {o.seq: o for o, _ in todo}
    kids = []
    gc.freeze()
    for i in range(min(workers, len(todo))):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                n = 0
                mine = todo[i::workers]
                with deadline(sec):
                    for a in mine:
                        once(a)
                        n += 1
                out = {s: {sh: {(x[0].seq, x[1]) if x else None for x in o} for sh, o in d.items()} for s, d in c.stores.items()}
                with os.fdopen(w, "wb") as fh:
                    pickle.dump((out, sites, len(mine) - n, list(c.events)), fh)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    for pid, r in kids:
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
        _, status = os.waitpid(pid, 0)
        if status or not data:
            raise AnalysisBroken("a worker of the token shape analysis failed")
        out, ss, left, evs = pickle.loads(data)
        for k in evs:
            c.events.setdefault(k, None)
        c.skipped += left
        sites |= ss
        for s, d in out.items():
            mine = c.stores.setdefault(s, {})
            for sh, o in d.items():
                mine.setdefault(sh, set()).update((objs[x[0]], x[1]) if x else None for x in o)
