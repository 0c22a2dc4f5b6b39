"""C20: scoped parser context is restored on every exit."""
import ast
from ..core import *
from ..drive import build_pta
from ..paths import *

NOTE = ("Path-sensitive save/restore analysis: the context attributes of the parsers (base directory, current environment, containers of open files) are tracked symbolically "
        "(value on entry / other) through every normal and exceptional path of the file-inclusion and environment code; nested parsing is an opaque step that may fail and may change "
        "the attributes its call closure stores.")

CAUGHT = ("caught",)
PUSH, POP = {"append", "add", "push", "insert"}, {"pop", "remove", "discard", "popitem"}
CONTAINERS_ = {"list", "set", "dict"}


def own_nodes(f):
    for st in f.body:
        yield st
        yield from walk_own(st)


class C(Client):
    top = "Exception"

    def __init__(self, p, cls, inline, nested_stores, attrs, conts):
        self.p, self.cls, self.inline, self.nested, self.attrs, self.conts = p, cls, inline, nested_stores, attrs, conts
        self.saved = set()

    def relevant(self, f):
        return f in self.inline

    def attr_of(self, e, fr):
        if isinstance(e, ast.Attribute):
            os_ = self.p.get(("E", id(e.value), fr.ctx))
            if any(o.kind == "inst" and isinstance(o.key[0], Class) and self.cls in o.key[0].mro() for o in os_):
                return e.attr
        return None

    def val(self, st, a):
        for f in st.facts:
            if f[0] == "attr" and f[1] == a:
                return f[2]
        return "orig"

    def setv(self, st, a, v):
        q = State(frozenset(f for f in st.facts if not (f[0] == "attr" and f[1] == a)), st.env)
        return q if v == "orig" else q.add(("attr", a, v))

    def depth(self, st, a):
        for f in st.facts:
            if f[0] == "depth" and f[1] == a:
                return f[2]
        return 0

    def setd(self, st, a, n):
        q = State(frozenset(f for f in st.facts if not (f[0] == "depth" and f[1] == a)), st.env)
        return q if n == 0 else q.add(("depth", a, n))

    def value(self, e, st, fr, eng):
        if self.kind is not None:
            if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and e.slice.value == "type" and isinstance(e.value, ast.Name):
                return ("type",)
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "get" and e.args and isinstance(e.args[0], ast.Constant) and e.args[0].value == "type":
                return ("type",)
        a = self.attr_of(e, fr)
        if a in self.attrs:
            self.saved.add(a)
            return ("ctx", a, self.val(st, a))
        if isinstance(e, ast.Call) and e.args and (dotted(e.func) or "") in ("list", "set", "tuple", "frozenset", "copy.copy") or isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "copy":
            x = e.args[0] if e.args else e.func.value
            a = self.attr_of(x, fr)
            if a in self.conts:
                return ("cont", a, self.depth(st, a))
        return None

    def on_stmt(self, s, fr, st, eng):
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            for t in ts:
                pairs = [(t, s.value)]
                if isinstance(t, (ast.Tuple, ast.List)):
                    vs = s.value.elts if isinstance(s.value, (ast.Tuple, ast.List)) and len(s.value.elts) == len(t.elts) else [None] * len(t.elts)
                    pairs = list(zip(t.elts, vs))
                for tt, v in pairs:
                    a = self.attr_of(tt, fr)
                    if a in self.attrs:
                        cv = eng.const(v, st, fr) if v is not None and not isinstance(s, ast.AugAssign) else None
                        back = isinstance(cv, tuple) and not isinstance(cv, FnVal) and cv[0] == "ctx" and cv[1] == a
                        st = self.setv(st, a, cv[2] if back else "new")
                        st = st.drop(("own", a)).add(("restored", a)) if back else st.add(("own", a))
                    elif a in self.conts:
                        cv = eng.const(v, st, fr) if v is not None else None
                        if isinstance(cv, tuple) and not isinstance(cv, FnVal) and cv[0] == "cont" and cv[1] == a:
                            st = self.setd(st, a, cv[2])
                        elif isinstance(s, ast.AugAssign) or isinstance(v, ast.BinOp):
                            st = self.setd(st, a, min(self.depth(st, a) + 1, 3))
                        else:
                            st = self.setd(st, a, "lost")
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    a = self.attr_of(t.value, fr)
                    if a in self.conts and isinstance(self.depth(st, a), int):
                        st = self.setd(st, a, max(self.depth(st, a) - 1, -3))
        return st

    def on_call(self, e, fr, st, eng):
        if isinstance(e.func, ast.Attribute):
            a = self.attr_of(e.func.value, fr)
            if a in self.conts:
                d = self.depth(st, a)
                if isinstance(d, int):
                    if e.func.attr in PUSH:
                        return [(NEXT, self.setd(st, a, min(d + 1, 3)), None)]
                    if e.func.attr in POP:
                        return [(NEXT, self.setd(st, a, max(d - 1, -3)), None)]
        ts, ext = eng.targets(e, fr.ctx)
        opaque = [t[0] for t in ts if t[0] not in self.inline]
        dirty = set()
        for g in opaque:
            dirty |= self.nested.get(g, set())
        if dirty:
            q = st
            for a in dirty & self.attrs:
                if self.val(q, a) == "orig" or self.val(q, a) == "new":
                    q = self.setv(q, a, "dirty")
            return [(NEXT, q, None), (NEXT, st, None), ("raise", q, "Exception"), ("raise", st, "Exception")]
        return None

    def may_raise(self, e, fr, tg, eng):
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("info", "error", "debug", "warning", "endswith", "startswith", "strip"):
            return None
        if any(t[0] not in self.inline for t in tg[0]) or (dotted(e.func) or "").split(".")[-1] in ("open", "read", "read_text"):
            return self.top
        return None

    def refine(self, test, fr, st, sense, eng):
        a = self.attr_of(test, fr)
        neg = False
        if a is None and isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            a = self.attr_of(test.left, fr)
            neg = isinstance(test.ops[0], (ast.Is, ast.Eq))
        if a in self.attrs and self.val(st, a) == "orig" and (not sense if not neg else sense):
            return st.add(("wasfalsy", a))
        return st

    kind = None     # fixed value of token["type"]

    def cond(self, e, fr, st, eng):
        if self.kind is None or not isinstance(e, ast.Compare) or len(e.ops) != 1:
            return None
        v = eng.const(e.left, st, fr)
        r = eng.const(e.comparators[0], st, fr) if not isinstance(e.comparators[0], (ast.List, ast.Tuple, ast.Set)) else None
        cmp_ = e.comparators[0]
        if v != ("type",) and r == ("type",):
            v, cmp_ = r, e.left
        if v != ("type",):
            return None
        op = e.ops[0]
        if isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(cmp_, ast.Constant):
            return (cmp_.value == self.kind) == isinstance(op, ast.Eq)
        if isinstance(op, (ast.In, ast.NotIn)):
            c = literal_of(cmp_, fr)
            if c is not None:
                return (self.kind in c) == isinstance(op, ast.In)
        return None

    def on_handler(self, h, fr, st, exc, eng):
        return st.add(CAUGHT)


def literal_of(e, fr):
    if isinstance(e, ast.Name):
        vs = fr.func.module.gassign.get(e.id) or [None]
        e = vs[0] if len(vs) == 1 else None
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)) and all(isinstance(x, ast.Constant) for x in e.elts):
        return [x.value for x in e.elts]
    return None


def stores(f, cls, p, ctxs):
    """self attributes f stores on an instance of cls"""
    out = set()
    for n in own_nodes(f):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
            for c in ctxs:
                if any(o.kind == "inst" and isinstance(o.key[0], Class) and cls in o.key[0].mro() for o in p.get(("E", id(n.value), c))):
                    out.add(n.attr)
    return out


def analyse(p, prog, rep, cls, entry, label):
    f0, ctx0 = entry
    reach = p.reach([entry])
    ctxs = {}
    for f, c in reach:
        if f is not None:
            ctxs.setdefault(f, set()).add(c)
    parse = cls.find_method("parse")
    st = {f: stores(f, cls, p, cs) for f, cs in ctxs.items()}
    # helpers of parse_file: methods of the class / module functions from which parsing is not re-entered except through parse
    methods = {m for c in cls.mro() if isinstance(c, Class) for m in c.methods.values()} | {f for f in ctxs if f.parent is not None and f.module is cls.module}
    direct = set()
    todo = [f0]
    while todo:
        f = todo.pop()
        if f in direct or f is parse:
            continue
        direct.add(f)
        for c in ctxs.get(f, ()):
            for g, _ in p.calls_by.get((f, c), ()):
                if g is not None and g in methods and g is not parse and g.name not in ("preprocess", "clear", "__init__"):
                    todo.append(g)
    # functions that reach parse again are opaque (induction), unless they are parse_file's own helpers
    inline = {f for f in direct if f.module is cls.module}
    nested = {}
    for g in ctxs:
        if g in inline:
            continue
        s = set()
        for f, c in p.reach([(g, c) for c in ctxs[g]]):
            if f is not None and f not in inline:
                s |= st.get(f, set())
        nested[g] = s
    # context attributes
    saved = set()
    for f in methods:
        names = {}
        for n in own_nodes(f):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name):
                names[n.targets[0].id] = n.value.attr
        for n in own_nodes(f):
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and isinstance(n.value, ast.Name) and names.get(n.value.id) == n.targets[0].attr:
                saved.add(n.targets[0].attr)
    written = set().union(*[st.get(f, set()) for f in inline]) if inline else set()
    dirs, conts = set(), set()
    for f in methods:
        for n in own_nodes(f):
            if isinstance(n, ast.Call) and (dotted(n.func) or "").split(".")[-1] == "join" and n.args and isinstance(n.args[0], ast.Attribute) and len(n.args) > 1:
                dirs.add(n.args[0].attr)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in POP | PUSH and isinstance(n.func.value, ast.Attribute) and isinstance(n.func.value.value, ast.Name) and f in inline:
                conts.add(n.func.value.attr)
    popped = {n.func.value.attr for f in methods for n in own_nodes(f) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in POP and isinstance(n.func.value, ast.Attribute)}
    read_in = {n.attr for f in inline for n in own_nodes(f) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)}
    attrs = ((saved | written | dirs) & (written | set().union(*nested.values()) if nested else written)) - conts
    if not attrs and not conts:
        raise AnalysisBroken(f"{label}: no context attribute found")
    c = C(p, cls, inline, nested, attrs, conts)
    eng = Engine(p, c)
    outs = eng.run(f0, ctx0, State())
    if eng.overflow:
        raise AnalysisBroken("state explosion in C20")
    for k, q, x in outs:
        failed = k == "raise" or CAUGHT in q.facts
        for a in sorted(attrs):
            v = c.val(q, a)
            fals = ("wasfalsy", a) in q.facts
            if a in dirs:
                ok = v == "orig" or fals
            elif failed:
                ok = v == "orig" or fals and v == "new"
            else:
                ok = v in ("orig", "dirty")
            how = f"ends with {x}" if k == "raise" else "returns after a caught failure" if failed else "returns"
            rep.check(ok, "context-restored", f"{label}: {a} when it {how}", f"{f0.where}: {label} {how} with {a} not restored to its value on entry")
        for a in sorted(conts):
            d = c.depth(q, a)
            rep.check(d == 0 or (a not in popped and False), "push-pop-balanced", f"{label}: {a} ({'exception' if k == 'raise' else 'return'})",
                      f"{f0.where}: {label} can {'fail with ' + str(x) if k == 'raise' else 'return'} with an unbalanced entry in {a} ({d})") if a in popped else None
    rep.stats[label] = f"{len(outs)} exits, context {sorted(attrs)}, containers {sorted(conts & popped)}"
    return attrs, dirs, inline, nested, ctxs, methods


def run(prog, rep, tier):
    p = build_pta(prog)
    rep.rule("context-restored: base directory on every exit; current environment on every failing exit and wherever a function saved it before overwriting it")
    rep.rule("push-pop-balanced: entries pushed to a container of open files are popped on every exit")
    parser = prog.need_class("LatexParser")
    attrs, dirs, inline, nested, ctxs, methods = analyse(p, prog, rep, parser, p.entry["parse_file"], "LatexParser.parse_file")
    # functions that save a context attribute in a local: whoever saves and overwrites it, restores it
    n = 0
    for f in sorted(methods, key=lambda m: m.full):
        if f in inline:
            continue
        sv = {m.value.attr for m in own_nodes(f) if isinstance(m, ast.Assign) and len(m.targets) == 1 and isinstance(m.targets[0], ast.Name) and isinstance(m.value, ast.Attribute) and m.value.attr in attrs}
        if not sv or f not in ctxs:
            continue
        for ctx in ctxs[f]:
            c = C(p, parser, set(), nested, attrs, set())
            eng = Engine(p, c)
            for k, q, x in scoped(eng, f, ctx):
                if k == "raise":
                    continue
                for a in sv:
                    held = [v for nm, v in q.env if isinstance(v, tuple) and not isinstance(v, FnVal) and v[:2] == ("ctx", a)]
                    if held:
                        n += 1
                        rep.check(("own", a) not in q.facts and (c.val(q, a) == "orig" or ("restored", a) in q.facts), "context-restored", f"{f.qual}: {a} after a scoped change", f"{f.where}: {f.qual} saves {a}, changes it and can return without restoring it")
    rep.stats["scoped_paths"] = n
    environments(p, prog, rep, parser, attrs - dirs, nested, ctxs, methods)
    # style files
    for cl in prog.classes.values():
        m = cl.methods.get("parse_file")
        if m is None or cl is parser or "parse" not in cl.methods:
            continue
        es = [(f, c) for f, c in p.reach(p.roots) if f is m]
        if not es:
            continue
        has = any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) for k in cl.methods.values() if k.name not in ("__init__", "clear") for x in own_nodes(k))
        if not has:
            continue
        for e in es:
            try:
                analyse(p, prog, rep, cl, e, f"{cl.name}.parse_file")
            except AnalysisBroken as ex:
                rep.stats[cl.name] = str(ex)
    rep.assumptions.append("nested parsing is handled by induction: an inner inclusion restores the context (that is what is being checked)")


def environments(p, prog, rep, parser, attrs, nested, ctxs, methods):
    """tokens produced by an environment handler: the function that processes them leaves the current environment as it was"""
    found = {}
    for f in methods:
        for n in own_nodes(f):
            if not isinstance(n, ast.Call):
                continue
            for i, a in list(enumerate(n.args)) + [(k.arg, k.value) for k in n.keywords]:
                if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "isinstance" and len(a.args) == 2 and isinstance(a.args[1], ast.Name):
                    k = next((c for c in prog.classes.values() if c.name == a.args[1].id), None)
                    if k is None or "env" not in k.name.lower():
                        continue
                    for c in ctxs.get(f, ()):
                        for o in p.get(("E", id(n.func), c)):
                            if o.kind == "bound" and o.key[0] in methods:
                                g = o.key[0]
                                prm = i if isinstance(i, str) else list(g.posargs)[i + 1]
                                found.setdefault((g, prm), k)
    n = 0
    for (g, prm), k in found.items():
        types = set()
        for st in k.module.tree.body:
            if isinstance(st, ast.Assign) and isinstance(st.value, ast.Dict):
                vs = [v.elt if isinstance(v, ast.ListComp) else v.value if isinstance(v, ast.DictComp) else v for v in st.value.values]
                if vs and all(isinstance(v, ast.Constant) and isinstance(v.value, str) for v in vs):
                    types |= {v.value for v in vs}
        for f in k.methods.values():
            for x in own_nodes(f):
                if isinstance(x, ast.Dict):
                    types |= {v.value for kk, v in zip(x.keys, x.values) if isinstance(kk, ast.Constant) and kk.value == "type" and isinstance(v, ast.Constant)}
        for t in sorted(types):
            for ctx in ctxs.get(g, ()):
                c = C(p, parser, set(), nested, attrs, set())
                c.kind = t
                eng = Engine(p, c)
                for kind, q, x in scoped(eng, g, ctx, State().bind(prm, "True")):
                    if kind == "raise":
                        continue
                    for a in sorted(attrs):
                        n += 1
                        rep.check(("own", a) not in q.facts, "context-restored", f"{g.qual}: {a} after a '{t}' environment", f"{g.where}: {g.qual} leaves {a} changed after the content of a '{t}' environment")
    rep.stats["environment_paths"] = n


def scoped(eng, f, ctx, st0=None):
    """all outcomes of f with its local environment kept"""
    fr = Frame(f, ctx)
    eng.stack.append((f, ctx, "scoped"))
    outs = eng.block(f.body, {st0 or State()}, fr)
    eng.stack.pop()
    return outs
