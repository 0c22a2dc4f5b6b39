"""C04 archive containment: members of the dangerous classes never reach an extraction call."""
import ast
from ..core import *
from ..drive import build_pta
from ..paths import *
from .c06 import labels, rooted

NOTE = ("For each danger class of archive members (absolute path, parent traversal, sibling-prefix traversal, symbolic link, hard link, device/fifo) the "
        "extraction code is interpreted abstractly with a member of that class: guards are evaluated three-valued, list filtering is tracked through the points-to "
        "objects, and the member may not reach an extraction or write call. The single-file branch must name its output by a base name inside the directory.")

CLASSES = {"zip": ("absolute", "traversal", "sibling"), "tar": ("absolute", "traversal", "sibling", "symlink", "hardlink", "device")}
LINKS = ("symlink", "hardlink", "device")
SOURCES = {"getmembers": "member", "getnames": "name", "namelist": "name", "infolist": "member"}
SINKS = ("extract", "extractall", "_extract_member", "extract_all")
TRUE, FALSE, UNK = True, False, None


class V(tuple):
    """client value"""


def V_(*a):
    return V(a)


class C(Client):
    top = "Exception"

    def __init__(self, p, kind, cls, rel):
        self.p, self.kind, self.cls, self.rel = p, kind, cls, rel
        self.bad, self.sinks, self.sources, self.inconclusive = [], set(), set(), set()

    def relevant(self, f):
        return True

    def may_raise(self, *a):
        return None

    def archive_kind(self, e, fr):
        for o in self.p.get(("E", id(e), fr.ctx)):
            if o.kind == "extinst" and isinstance(o.key[0], str):
                if o.key[0].startswith("tarfile."):
                    return "tar"
                if o.key[0].startswith("zipfile."):
                    return "zip"
        return None

    def source(self, e, fr):
        """does e enumerate archive members? -> 'member'/'name'"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in SOURCES and self.archive_kind(e.func.value, fr) == self.kind:
            self.sources.add(id(e))
            return SOURCES[e.func.attr]
        if isinstance(e, (ast.Name, ast.Attribute)) and self.archive_kind(e, fr) == self.kind:
            self.sources.add(id(e))
            return "member"
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "iter", "sorted", "tuple", "reversed") and e.args:
            return self.source(e.args[0], fr)
        return None

    def lists(self, e, fr):
        return {o for o in self.p.get(("E", id(e), fr.ctx)) if o.kind in ("list", "set", "tuple", "dict", "gen")}

    # ---- values
    def value(self, e, st, fr, eng):
        if isinstance(e, ast.Name):
            v = st.get(e.id)
            return v if isinstance(v, V) else None
        if isinstance(e, ast.Attribute):
            b = self.value(e.value, st, fr, eng)
            if b == ("member",) and e.attr in ("name", "filename", "path"):
                return V_("name")
            if b and e.attr in ("parts",):
                return V_("parts")
            return None
        if isinstance(e, ast.Subscript):
            b = self.value(e.value, st, fr, eng)
            return V_("?") if b else None
        if isinstance(e, ast.BinOp):
            l, r = self.value(e.left, st, fr, eng), self.value(e.right, st, fr, eng)
            if r in (("name",), ("pname",)):
                return V_("join")
            if l or r:
                return V_("?") if not (l == ("T",)) else V_("Tsep")
            return None
        if isinstance(e, ast.JoinedStr):
            if any(isinstance(v, ast.FormattedValue) and self.value(v.value, st, fr, eng) for v in e.values):
                return V_("?")
            return None
        if isinstance(e, ast.Call):
            d = (dotted(e.func) or "")
            last = d.split(".")[-1] if d else (e.func.attr if isinstance(e.func, ast.Attribute) else "")
            av = [self.value(a, st, fr, eng) for a in e.args]
            if last in ("join",) and "path" in d and len(e.args) >= 2:
                if av[-1] == ("name",):
                    return V_("join")
                return V_("?") if any(av) else None
            if last in ("abspath", "realpath", "normpath"):
                if av and av[0] == ("join",):
                    return V_("abs")
                if av and av[0] == ("name",):
                    return V_("norm")
                if e.args and "TMP" in labels(self.p, ("E", id(e.args[0]), fr.ctx)):
                    return V_("T")
            if last in ("Path", "PurePath", "PurePosixPath") and av:
                if av[0] in (("name",), ("norm",)):
                    return V_("pname")
                if av[0] == ("join",):
                    return V_("join")
                if e.args and "TMP" in labels(self.p, ("E", id(e.args[0]), fr.ctx)):
                    return V_("T")
            if isinstance(e.func, ast.Attribute):
                b = self.value(e.func.value, st, fr, eng)
                if b == ("join",) and e.func.attr in ("resolve", "absolute"):
                    return V_("abs")
                if b == ("T",) and e.func.attr in ("resolve", "absolute"):
                    return V_("T")
                if b == ("T",) and e.func.attr == "joinpath" and av and av[0] in (("name",), ("pname",)):
                    return V_("join")
                if b in (("name",), ("pname",)) and e.func.attr in ("split", "parts", "replace", "strip", "lower", "as_posix", "rstrip"):
                    return V_("parts") if e.func.attr == "split" else V_("name")
                if b:
                    return V_("?")
            if last in ("str", "fspath", "PurePath") and av and av[0]:
                return av[0]
            if last in ("commonpath", "commonprefix", "relpath"):
                def deep(x):
                    return [self.value(y, st, fr, eng) for y in (x.elts if isinstance(x, (ast.List, ast.Tuple)) else [x])]
                vs = [v for a in e.args for v in deep(a)]
                if ("abs",) in vs:
                    return V_("common" if last != "relpath" else "rel") if last != "commonprefix" else V_("?")
            if any(a and a[0] != "T" for a in av):
                return V_("?")
            return None
        if isinstance(e, ast.Attribute):
            return None
        if isinstance(e, ast.Name):
            return None
        return None

    def tmp(self, e, fr, st, eng):
        return self.value(e, st, fr, eng) == ("T",) or (not self.value(e, st, fr, eng) and "TMP" in labels(self.p, ("E", id(e), fr.ctx)))

    # ---- guards
    def cond(self, e, fr, st, eng):
        v = self.ev3(e, fr, st, eng)
        return v if v in (TRUE, FALSE) else None

    def ev3(self, e, fr, st, eng):
        c = self.cls
        if isinstance(e, ast.Call):
            last = (dotted(e.func) or "").split(".")[-1] if dotted(e.func) else (e.func.attr if isinstance(e.func, ast.Attribute) else "")
            if last == "isabs" and e.args and self.value(e.args[0], st, fr, eng) == ("name",):
                return c == "absolute"
            if isinstance(e.func, ast.Attribute):
                b = self.value(e.func.value, st, fr, eng)
                a = e.func.attr
                if b == ("member",):
                    if a in ("isfile", "isreg"):
                        return c not in LINKS
                    if a == "isdir":
                        return False if c in LINKS else None
                    if a == "issym":
                        return c == "symlink"
                    if a == "islnk":
                        return c == "hardlink"
                    if a in ("isdev",):
                        return c == "device"
                    if a in ("ischr", "isblk", "isfifo"):
                        return False if c != "device" else None
                    if a == "is_dir":
                        return None
                if b == ("name",) and a == "startswith" and e.args:
                    ks = self.consts(e.args[0])
                    if ks is not None and any(k in ("/", os_sep()) for k in ks):
                        return c == "absolute"
                    if ks is not None and any(k.startswith("..") for k in ks):
                        return None if c in ("traversal", "sibling") else False
                if b == ("pname",) and a == "is_absolute":
                    return c == "absolute"
                if b == ("abs",) and a == "startswith" and e.args:
                    av = self.value(e.args[0], st, fr, eng)
                    if av == ("Tsep",):
                        return c in LINKS
                    if self.tmp(e.args[0], fr, st, eng):
                        return c in LINKS or c == "sibling"
                    return None
                if b == ("abs",) and a == "is_relative_to":
                    return c in LINKS
                if b == ("rel",) and a == "startswith":
                    return c not in LINKS
            return None
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            l, r = e.left, e.comparators[0]
            lv, rv = self.value(l, st, fr, eng), self.value(r, st, fr, eng)
            op = e.ops[0]
            res = None
            if isinstance(op, (ast.In, ast.NotIn)) and isinstance(l, ast.Constant) and l.value in ("..", "../") and rv in (("name",), ("parts",), ("pname",)):
                res = c in ("traversal", "sibling")
            elif isinstance(op, (ast.Eq, ast.NotEq)) and (lv == ("common",) or rv == ("common",)):
                res = c in LINKS
            if res is None:
                return None
            return (not res) if isinstance(op, (ast.NotIn, ast.NotEq)) else res
        if isinstance(e, ast.Call) and False:
            return None
        return None

    def consts(self, e):
        es = e.elts if isinstance(e, (ast.Tuple, ast.List)) else [e]
        out = []
        for x in es:
            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                out.append(x.value)
            elif dotted(x) == "os.sep":
                out.append("/")
            else:
                return None
        return out

    def mentions(self, e, st, fr, eng):
        return any(isinstance(n, (ast.Name, ast.Attribute)) and (self.value(n, st, fr, eng) or ("T",))[0] not in ("T", "Tsep") for n in ast.walk(e))

    def refine(self, test, fr, st, val, eng):
        # an undecided guard about the member: inconclusive from here on
        if self.mentions(test, st, fr, eng) and not self.benign(test):
            return st.add(("unk",))
        return st

    def benign(self, test):
        # questions every class may answer either way and that do not protect anything
        return isinstance(test, ast.Call) and isinstance(test.func, ast.Attribute) and test.func.attr in ("isdir", "is_dir", "endswith", "isfile", "isreg", "startswith", "ischr", "isblk", "isfifo")

    # ---- flow
    def bind_loop(self, s, st, fr, eng):
        k = self.source(s.iter, fr)
        it = s.iter
        tgt = s.target
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and it.args and isinstance(tgt, ast.Tuple):
            k = self.source(it.args[0], fr)
            it, tgt = it.args[0], tgt.elts[-1]
        if k is None:
            held = {f[2] for f in st.facts if f[0] == "holds" and f[1] in self.lists(it, fr)}
            if not held:
                return None
            k = sorted(held)[0]
        if isinstance(tgt, ast.Name):
            return {st.bind(tgt.id, V_(k)), st}
        return None

    def on_expr(self, e, fr, st, eng):
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            return None
        return None

    def on_call(self, e, fr, st, eng):
        f = e.func
        if isinstance(f, ast.Attribute):
            if f.attr in ("append", "add", "insert", "extend") and e.args:
                v = self.value(e.args[-1], st, fr, eng)
                if v and v[0] in ("member", "name"):
                    for o in self.lists(f.value, fr):
                        st = st.add(("holds", o, v[0]))
                    return [(NEXT, st, None)]
            if f.attr in SINKS and self.archive_kind(f.value, fr) == self.kind:
                self.sinks.add((id(e), e, fr.func))
                self.sink(e, fr, st, eng)
                return [(NEXT, st, None)]
        d = dotted(f) or ""
        if d.split(".")[-1] == "open" and e.args and not isinstance(f, ast.Attribute):
            m = e.args[1].value if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) else "r"
            v = self.value(e.args[0], st, fr, eng)
            if v and v[0] in ("join", "abs", "name") and any(c in str(m) for c in "wax+") and self.cls not in LINKS:
                self.report(e, fr, st)
        return None

    def comp(self, e, fr, st, eng):
        """list comprehension over members: can the member survive the filters? -> None (not about members) or 3-valued"""
        g = e.generators[0]
        k = self.source(g.iter, fr)
        if k is None:
            held = {f[2] for f in st.facts if f[0] == "holds" and f[1] in self.lists(g.iter, fr)}
            if not held:
                return None
            k = sorted(held)[0]
        if not isinstance(g.target, ast.Name):
            return ("unk", k)
        q = st.bind(g.target.id, V_(k))
        res = True
        for t in g.ifs:
            outs = eng.branch(t, q, fr, lambda s2: {("yes", s2, None)}, lambda s2: {("no", s2, None)})
            ks = {o[0] for o in outs if o[0] in ("yes", "no")}
            unk = any(o[0] == "yes" and ("unk",) in o[1].facts for o in outs)
            if "yes" not in ks:
                return (False, k)
            if unk:
                res = "unk"
        ev = self.value(e.elt, q, fr, eng)
        if not ev:
            return (False, k)
        return (res, ev[0] if ev[0] in ("member", "name") else k)

    def on_stmt(self, s, fr, st, eng):
        for n in [s] if isinstance(s, ast.expr) else list(ast.walk(s)):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp)) and not isinstance(s, (ast.FunctionDef, ast.With, ast.For, ast.If, ast.Try, ast.While)):
                r = self.comp(n, fr, st, eng)
                if r and r[0]:
                    for o in self.lists(n, fr):
                        st = st.add(("holds", o, r[1]))
                    if r[0] == "unk":
                        st = st.add(("unk",))
        if isinstance(s, ast.Assign) and self.source(s.value, fr) and isinstance(s.value, ast.Call):
            for o in self.lists(s.value, fr):
                st = st.add(("holds", o, self.source(s.value, fr)))
        return st

    def sink(self, e, fr, st, eng):
        if e.func.attr == "extractall":
            flt = next((k.value for k in e.keywords if k.arg == "filter"), None)
            if isinstance(flt, ast.Constant) and flt.value == "data" or (dotted(flt) or "").endswith("data_filter"):
                return
            mem = next((k.value for k in e.keywords if k.arg == "members"), e.args[1] if len(e.args) > 1 else None)
            if mem is None or (isinstance(mem, ast.Constant) and mem.value is None) or self.source(mem, fr):
                return self.report(e, fr, st)
            if any(f[0] == "holds" and f[1] in self.lists(mem, fr) for f in st.facts):
                return self.report(e, fr, st)
            if isinstance(mem, (ast.ListComp, ast.GeneratorExp)):
                r = self.comp(mem, fr, st, eng)
                if r and r[0] is True:
                    return self.report(e, fr, st)
            return
        a = e.args[0] if e.args else next((k.value for k in e.keywords if k.arg == "member"), None)
        flt = next((k.value for k in e.keywords if k.arg == "filter"), None)
        if isinstance(flt, ast.Constant) and flt.value == "data":
            return
        v = self.value(a, st, fr, eng) if a is not None else None
        if v and v[0] in ("member", "name"):
            self.report(e, fr, st)

    def report(self, e, fr, st):
        if ("unk",) in st.facts:
            self.inconclusive.add(loc(e))
        else:
            self.bad.append((e, fr.func))


def os_sep():
    return "/"


def run(prog, rep, tier):
    p = build_pta(prog)
    rep.rule("danger-class-never-extracted: abstract interpretation per danger class; the member does not reach extract/extractall/a write")
    rep.rule("single-file-inside: the output of a decompressed single file is named by a base name joined to the temporary directory")
    rep.rule("extract-target: extraction always passes the temporary directory as target")
    ext = prog.need_class("TexFileExtractor")
    # functions that contain extraction calls or open archives
    mk = lambda f: any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("extract", "extractall") for s in f.body for n in [s] + list(walk_own(s)))
    reach = {f for f, c in p.reach(p.roots + [(None, "<api>")]) if f is not None}
    sinks_all = [f for f in reach if mk(f)]
    if not sinks_all:
        raise AnalysisBroken("no extraction call is reachable from the public API")
    entry, ectx = p.entry["from_compressed"]
    total = 0
    for kind, classes in CLASSES.items():
        for cls in classes:
            c = C(p, kind, cls, None)
            c.inline_depth = 8
            eng = Engine(p, c)
            # run the context manager with an empty body
            eng.gen_with(entry, ectx, State(), frozenset(), lambda q: {(NEXT, q, None)}, None)
            if eng.overflow:
                raise AnalysisBroken("state explosion in C04")
            if not c.sinks:
                raise AnalysisBroken(f"no {kind} extraction call reached from from_compressed")
            total += 1
            bad = {id(e): (e, f) for e, f in c.bad}
            for sid, e, f in c.sinks:
                hit = id(e) in bad
                rep.check(not hit, "danger-class-never-extracted", f"{kind} member class '{cls}' at {f.full}: {src_of(e, 60)}",
                          f"{loc(e)} in {f.qual}: {src_of(e)} can receive a {kind} member of class '{cls}': no guard on the path rejects it")
            for e, f in bad.values():
                if id(e) not in {x[0] for x in c.sinks}:
                    rep.bad("danger-class-never-extracted", f"{kind} member class '{cls}' at {f.full}: {src_of(e, 60)}",
                            f"{loc(e)} in {f.qual}: {src_of(e)} writes to a path built from a {kind} member name of class '{cls}'")
            if c.inconclusive:
                rep.assumptions.append(f"{kind}/{cls}: guard not understood before {sorted(c.inconclusive)}")
    # targets + single file
    for e, f, ctx, d, args, kwargs, recv, mod in p.ext_calls:
        if f not in reach or not isinstance(e, ast.Call) or not isinstance(d, str):
            continue
        last = d.split(".")[-1]
        if last in ("extract", "extractall") and ("tarfile" in d or "zipfile" in d):
            i = 1 if last == "extract" else 0
            a = args[i] if len(args) > i else kwargs.get("path")
            ex = e.args[i] if len(e.args) > i else next((k.value for k in e.keywords if k.arg == "path"), None)
            l = labels(p, a)
            rep.check("TMP" in l and rooted(p, ex, f, ctx), "extract-target", f"{f.full}: {src_of(e, 60)}", f"{loc(e)} in {f.qual}: {src_of(e)} extracts to a path of provenance {sorted(l) or 'the current directory'}")
        if d in ("builtins.open", "open") and len(e.args) > 1:
            m = e.args[1]
            if isinstance(m, ast.Constant) and any(c in str(m.value) for c in "wax+") and "TMP" in labels(p, args[0]):
                ok, why = single(p, e.args[0], f, ctx, 0)
                rep.check(ok, "single-file-inside", f"{f.full}: {src_of(e, 60)}", f"{loc(e)} in {f.qual}: {src_of(e)} — {why}")
                total += 1
    rep.stats["abstract_runs"] = total
    rep.assumptions += ["zipfile/tarfile write a regular member only under the directory they are given, once its name is relative and free of '..'"]


def defs_of(f, name):
    return [n for st in f.body for n in [st] + list(walk_own(st)) if isinstance(n, (ast.Assign, ast.AugAssign)) and
            any(isinstance(t, ast.Name) and t.id == name for t in (n.targets if isinstance(n, ast.Assign) else [n.target]))]


def single(p, e, f, ctx, depth):
    """is e = join(tmp, <one safe path component>)?"""
    if depth > 6:
        return True, ""
    if isinstance(e, ast.Name):
        ds = defs_of(f, e.id)
        for d in ds:
            ok, why = single(p, d.value, f, ctx, depth + 1)
            if not ok:
                return ok, why
        return True, ""
    if isinstance(e, ast.Call) and (dotted(e.func) or "").endswith("path.join"):
        for a in e.args[1:]:
            if not component(p, a, f, 0):
                return False, f"{src_of(a)} is not reduced to a base name: a directory part or an absolute path escapes the temporary directory"
        return True, ""
    if isinstance(e, ast.BinOp):
        # tmp / name  or  tmp + "/" + name
        if not component(p, e.right, f, 0):
            return False, f"{src_of(e.right)} is not reduced to a base name"
        return True, ""
    return True, ""


def component(p, e, f, depth):
    if depth > 8:
        return True
    if isinstance(e, ast.Constant):
        return isinstance(e.value, str) and ".." not in e.value.split("/") and not e.value.startswith("/")
    if isinstance(e, ast.Name):
        ds = defs_of(f, e.id)
        if not ds:
            return e.id not in f.params
        return all(isinstance(d, ast.AugAssign) and component(p, d.value, f, depth + 1) or isinstance(d, ast.Assign) and component(p, d.value, f, depth + 1) for d in ds)
    if isinstance(e, ast.Call):
        d = dotted(e.func) or ""
        if d.split(".")[-1] in ("basename",):
            return True
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("replace", "strip", "lower", "removesuffix", "rstrip", "lstrip", "removeprefix"):
            return component(p, e.func.value, f, depth + 1)
        r = p.prog.resolve_dotted(f.module, e.func) if isinstance(e.func, (ast.Name, ast.Attribute)) else None
        if isinstance(r, Func) or isinstance(e.func, ast.Attribute):
            # helper: all its returns
            tg = [o.key[0] for nd, s in p.pts.items() if nd[0] == "E" and nd[1] == id(e.func) for o in s if o.kind in ("func", "bound")]
            for g in tg:
                for st in g.body:
                    for n in [st] + list(walk_own(st)):
                        if isinstance(n, ast.Return) and n.value is not None and not component(p, n.value, g, depth + 1):
                            return False
            return bool(tg)
        return False
    if isinstance(e, ast.Attribute):
        return e.attr in ("name", "stem", "suffix")
    if isinstance(e, ast.Subscript):
        if isinstance(e.value, ast.Call) and (dotted(e.value.func) or "").split(".")[-1] in ("split", "splitext", "rsplit", "partition"):
            inner = e.value.args[0] if e.value.args else None
            if (dotted(e.value.func) or "").endswith("path.split"):
                return isinstance(e.slice, ast.Constant) and e.slice.value == 1 or isinstance(e.slice, ast.UnaryOp)
            if (dotted(e.value.func) or "").endswith("splitext"):
                return inner is not None and component(p, inner, f, depth + 1)
        return component(p, e.value, f, depth + 1)
    if isinstance(e, ast.BinOp):
        return component(p, e.left, f, depth + 1) and component(p, e.right, f, depth + 1)
    if isinstance(e, ast.IfExp):
        return component(p, e.body, f, depth + 1) and component(p, e.orelse, f, depth + 1)
    if isinstance(e, ast.JoinedStr):
        return all(component(p, v.value if isinstance(v, ast.FormattedValue) else v, f, depth + 1) for v in e.values)
    return False
