"""Inclusion-based (Andersen-style) whole-program points-to analysis with an
on-the-fly call graph, object-sensitive method contexts, constant-key-sensitive
dictionary fields, string constants and provenance labels.

Everything the checks ask ("which objects can this expression denote?", "which
functions can this call reach?", "which text can reach this pattern argument?")
is answered from the solved constraint system; no code of the package is run.
"""
import ast
import builtins
import collections
from .core import *

BUILTINS = set(dir(builtins))


class Obj:
    __slots__ = ("kind", "key", "fields", "fwatch", "site", "extra", "seq")
    count = 0

    def __init__(self, kind, key, site=None):
        Obj.count += 1
        self.seq = Obj.count
        self.kind, self.key, self.site = kind, key, site
        self.fields = {}
        self.fwatch = []
        self.extra = None

    def __hash__(self):
        return self.seq

    def __repr__(self):
        k = self.key
        if self.kind in ("list", "dict", "set", "tuple", "comp"):
            k = loc(self.site) if self.site is not None else k
        elif self.kind == "inst":
            k = (self.key[0].name, loc(self.site) if self.site is not None else self.key[1:])
        return f"{self.kind}:{k}"


METHODS = {k: set(dir(t)) for k, t in {"str": str, "dict": collections.OrderedDict, "list": list, "set": set, "tuple": tuple}.items()}
METHODS["list"] |= {"appendleft", "popleft", "extendleft"}
METHODS["enummember"] = {"value", "name"} | METHODS["str"]
CONTAINERS = ("list", "dict", "set", "tuple")
OPAQUE_MODULES = ("latex_maps._",)

STR_SAME = {"strip", "lstrip", "rstrip", "lower", "upper", "title", "capitalize", "replace", "format", "join",
            "zfill", "ljust", "rjust", "center", "expandtabs", "casefold", "swapcase", "removeprefix", "removesuffix",
            "translate", "format_map", "decode", "encode"}
STR_LIST = {"split", "rsplit", "splitlines"}
STR_TUP = {"partition", "rpartition"}
STR_NUM = {"find", "rfind", "index", "rindex", "count", "startswith", "endswith", "isdigit", "isspace", "isalpha",
           "isalnum", "isupper", "islower", "isnumeric", "isidentifier", "isdecimal", "istitle", "isascii", "isprintable"}


class PTA:
    def __init__(self, prog, ctx_sensitive=True, taint_params=True):
        self.prog = prog
        self.objs = {}
        self.pts = {}
        self.watchers = {}
        self.edges = set()
        self.work = collections.deque()
        self.delta = {}
        self.succ = {}
        self.cbs = []
        self.done = set()
        self.mut = []  # (site, func, ctx, recvnode, field, op)
        self.callees = {}  # (id(call), ctx) -> set
        self.callnode = {}  # id(call) -> call
        self.calls_by = {}  # (func, ctx) -> set of (func2, ctx2)
        self.ext_calls = []  # (call, func, ctx, dotted, argnodes, kwnodes, recvobj)
        self._extseen = set()
        self.globals_done = set()
        self.ctx_sensitive = ctx_sensitive
        self.cur_budget = 0
        self.unresolved = {}
        self.lab_doc = self.lab("DOC")
        self.lab_str = self.lab("STR")
        self.nstr = {}
        self.reccache = {}

    # ---------- objects
    def obj(self, kind, *key, site=None):
        k = (kind,) + key
        o = self.objs.get(k)
        if o is None:
            o = Obj(kind, key, site)
            self.objs[k] = o
        return o

    def lab(self, name):
        return self.obj("lab", name)

    def sconst(self, s):
        return self.obj("str", s)

    # ---------- solver (difference propagation; copy edges propagate whole sets)
    def add(self, node, o):
        s = self.pts.get(node)
        if s is None:
            s = self.pts[node] = set()
        if o not in s:
            if o.kind == "str":
                c = self.nstr.get(node, 0)
                if c >= 64:
                    o = self.lab_str
                    if o in s:
                        return
                else:
                    self.nstr[node] = c + 1
            s.add(o)
            d = self.delta.get(node)
            if d is None:
                self.delta[node] = {o}
                self.work.append(node)
            else:
                d.add(o)

    def addset(self, node, objs):
        s = self.pts.get(node)
        if s is None:
            s = self.pts[node] = set()
        new = objs - s
        if not new:
            return
        s |= new
        d = self.delta.get(node)
        if d is None:
            self.delta[node] = new
            self.work.append(node)
        else:
            d |= new

    def on(self, node, cb):
        self.watchers.setdefault(node, []).append(cb)
        s = self.pts.get(node)
        if s:
            d = self.delta.get(node)
            self.cbs.append((cb, list(s - d) if d else list(s)))

    def edge(self, a, b):
        if a is None or b is None or a == b or (a, b) in self.edges:
            return
        self.edges.add((a, b))
        self.succ.setdefault(a, []).append(b)
        s = self.pts.get(a)
        if s:
            self.addset(b, s)

    def solve(self):
        while self.work or self.cbs:
            while self.cbs:
                cb, os_ = self.cbs.pop()
                for o in os_:
                    cb(o)
            if not self.work:
                continue
            node = self.work.popleft()
            d = self.delta.pop(node)
            for b in self.succ.get(node, ()):
                self.addset(b, d)
            for cb in list(self.watchers.get(node, ())):
                for o in d:
                    cb(o)

    def get(self, node):
        return self.pts.get(node, set())

    # ---------- fields
    def fld(self, o, f):
        """node for field f of object o; creates it and links aggregates"""
        n = o.fields.get(f)
        if n is None:
            n = ("F", o, f)
            o.fields[f] = n
            if o.kind in CONTAINERS or o.kind in ("extinst",):
                if f == "[]" or (isinstance(f, tuple) and f[0] != "r"):
                    self.edge(n, self.fld(o, "*"))
                if isinstance(f, tuple) and f[0] != "r":
                    rn = ("F", o, ("r",) + f)
                    o.fields[("r",) + f] = rn
                    self.edge(self.fld(o, "[]"), rn)
                    self.edge(n, rn)
                    if f[0] == "k":
                        self.add(self.fld(o, "keys"), self.sconst(f[1]))
            for w in list(o.fwatch):
                w(f, n)
        return n

    def on_fields(self, o, cb):
        o.fwatch.append(cb)
        for f, n in list(o.fields.items()):
            cb(f, n)

    def load_elem(self, o, key, out):
        """o[key] ; key: ('k', s) / ('i', n) / None(any)"""
        if o.kind in CONTAINERS:
            if key is None or o.kind in ("list", "set") or (key[0] == "i" and o.kind == "tuple" and key[1] < 0):
                self.edge(self.fld(o, "*"), out)
            else:
                self.edge(self._rnode(o, key), out)
        elif o.kind == "lab" or o.kind == "str":
            self.add(out, o if o.kind == "lab" else self.lab("STR"))
        elif o.kind == "input":
            self.add(out, o)
            self.add(out, self.lab_doc)
        elif o.kind in ("extinst",):
            if o.key[0] == "re.Match":
                self.add(out, self.lab_doc)
            else:
                self.edge(self.fld(o, "*"), out)
                self._extlabels(o, out)
        elif o.kind == "class":
            # Enum['X'] / generics
            self.add(out, o)
        elif o.kind == "inst":
            m = o.key[0].find_method("__getitem__")
            if m:
                self.invoke(m, o, [None], {}, None, out)

    def _rnode(self, o, key):
        self.fld(o, key)
        return self.fld(o, ("r",) + key)

    def store_elem(self, o, key, src):
        if o.kind in ("list", "set"):
            key = None
        if o.kind in CONTAINERS:
            self.edge(src, self.fld(o, "[]" if key is None else key))
        elif o.kind == "extinst":
            self.edge(src, self.fld(o, "[]"))
        elif o.kind == "inst":
            m = o.key[0].find_method("__setitem__")
            if m:
                self.invoke(m, o, [None, src], {}, None, None)

    def iter_elem(self, o, out):
        if o.kind == "dict":
            self.edge(self.fld(o, "keys"), out)
        elif o.kind in CONTAINERS:
            self.edge(self.fld(o, "*"), out)
        elif o.kind == "gen":
            self.edge(("Y",) + o.key, out)
        elif o.kind == "input":
            self.add(out, o)
            self.add(out, self.lab_doc)
        elif o.kind in ("lab", "str"):
            self.add(out, o if o.kind == "lab" else self.lab("STR"))
        elif o.kind == "extinst":
            d = o.key[0]
            if d == "iter:re.Match":
                self.add(out, self.obj("extinst", "re.Match", 0))
            else:
                self.edge(self.fld(o, "*"), out)
                self._extlabels(o, out)
        elif o.kind == "class":
            self.add(out, self.obj("enummember", o.key[0]))

    def _extlabels(self, o, out):
        self.edge(self.fld(o, "labels"), out)

    # ---------- modules / globals
    def gnode(self, modname, name):
        n = ("G", modname, name)
        if n not in self.globals_done:
            self.globals_done.add(n)
            m = self.prog.modules[modname]
            if any(x in modname for x in OPAQUE_MODULES):
                d = self.obj("dict", "opaque", modname, name)
                self.add(self.fld(d, "[]"), self.lab("STR"))
                self.add(self.fld(d, "keys"), self.lab("STR"))
                self.add(n, d)
            else:
                self.module_body(m)
        return n

    def module_body(self, m):
        k = ("modbody", m.name)
        if k in self.done:
            return
        self.done.add(k)
        if any(x in m.name for x in OPAQUE_MODULES):
            return
        fr = Frame(self, None, None, m)
        for st in m.tree.body:
            fr.stmt(st)

    def class_body(self, c):
        k = ("classbody", c.full)
        if k in self.done:
            return
        self.done.add(k)
        fr = Frame(self, None, None, c.module, cls=c)
        for st in c.node.body:
            if not isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fr.stmt(st)

    def value_of_resolved(self, r, out):
        """r from Program.resolve_*"""
        if isinstance(r, Func):
            self.add(out, self.obj("func", r, None))
        elif isinstance(r, Class):
            self.add(out, self.obj("class", r))
            self.class_body(r)
        elif isinstance(r, Module):
            self.add(out, self.obj("module", r))
        elif isinstance(r, tuple) and r[0] == "global":
            self.edge(self.gnode(r[1].name, r[2]), out)
        elif isinstance(r, str):
            if r not in ("True", "False", "None"):
                self.add(out, self.obj("ext", r))

    # ---------- attribute access
    def load_attr(self, o, attr, out, frame=None, node=None):
        k = o.kind
        if k == "inst" and attr == "__class__":
            self.add(out, self.obj("class", o.key[0]))
        elif k == "inst":
            c = o.key[0]
            m = c.find_method(attr)
            if m is not None:
                if m.is_property:
                    self.invoke(m, o, [], {}, node, out, caller=frame)
                    return
                if m.is_static:
                    self.add(out, self.obj("func", m, None))
                    return
                if m.is_classmethod:
                    self.add(out, self.obj("bound", m, self.obj("class", c)))
                    return
                self.add(out, self.obj("bound", m, o))
            ca = c.find_attr(attr)
            if ca is not None and not self.shadowed(c, attr):
                self.class_body(ca[0])
                self.edge(self.fld(self.obj("class", ca[0]), attr), out)
            self.edge(self.fld(o, attr), out)
            if m is None and c.ext_bases():
                self.add(out, self.obj("extbound", o, attr))
        elif k == "class":
            c = o.key[0]
            if attr == "__name__":
                self.add(out, self.lab("STR"))
                return
            m = c.find_method(attr)
            if m is not None:
                if m.is_classmethod:
                    self.add(out, self.obj("bound", m, o))
                else:
                    self.add(out, self.obj("func", m, None))
            ca = c.find_attr(attr)
            if ca is not None:
                self.class_body(ca[0])
                if any(b.split(".")[-1] in ("Enum", "StrEnum", "IntEnum") for b in c.ext_bases()):
                    self.add(out, self.obj("enummember", c, attr))
                self.edge(self.fld(self.obj("class", ca[0]), attr), out)
            else:
                self.edge(self.fld(o, attr), out)
                if m is None:
                    self.add(out, self.obj("extbound", o, attr))
        elif k == "module":
            r = self.prog.resolve_global(o.key[0].name, attr)
            if r is not None:
                self.value_of_resolved(r, out)
        elif k == "ext":
            self.add(out, self.obj("ext", o.key[0] + "." + attr))
        elif k == "super":
            cls, so = o.key
            base = so.key[0]
            m = base.find_method(attr, after=cls) if isinstance(base, Class) else None
            if m is not None:
                self.add(out, self.obj("bound", m, so) if not m.is_static else self.obj("func", m, None))
            else:
                self.add(out, self.obj("extbound", so, attr))
        elif k in ("str", "lab", "extinst", "input", "gen", "enummember") or k in CONTAINERS:
            if k in METHODS and attr not in METHODS[k]:
                return
            if k == "lab" and attr not in METHODS["str"] and o.key[0] not in ("INP", "OUTPATH"):
                return
            self.add(out, self.obj("extbound", o, attr))
            if k == "extinst":
                self.edge(self.fld(o, attr), out)
                self._extlabels(o, out)
            if k == "input":
                self.add(out, o)
            if k == "enummember" and attr == "value":
                c = o.key[0]
                if len(o.key) > 1:
                    v = c.attrs.get(o.key[1])
                    if isinstance(v, ast.Constant) and isinstance(v.value, str):
                        self.add(out, self.sconst(v.value))
        elif k in ("func", "bound") and attr in ("__name__", "__qualname__", "__doc__"):
            self.add(out, self.lab("STR"))

    def shadowed(self, c, attr):
        """is instance attribute `attr` always set by the constructor (unconditional top-level store)?"""
        key = ("shadow", c, attr)
        cache = self.__dict__.setdefault("_shadow", {})
        if key in cache:
            return cache[key]
        cache[key] = False
        init = c.find_method("__init__")
        r = init is not None and attr in unconditional_self_stores(init, c, self.prog, set())
        if not r and (c.ann.get(attr) is not None and init is None and self._is_record(c)):
            r = True
        cache[key] = r
        return r

    def _is_record(self, c):
        k = self.reccache.get(c)
        if k is None:
            k = self.reccache[c] = self._is_record0(c)
        return k

    def _is_record0(self, c):
        return "pydantic.BaseModel" in c.ext_bases() or any(d and d.split(".")[-1] == "dataclass" for k in c.mro() if isinstance(k, Class) for d in k.decorators)

    def store_attr(self, o, attr, src):
        if o.kind in ("inst", "class", "extinst"):
            self.edge(src, self.fld(o, attr))
        elif o.kind == "module":
            self.edge(src, ("G", o.key[0].name, attr))

    # ---------- calls
    def ctx_for(self, f, selfobj):
        if not self.ctx_sensitive or selfobj is None:
            return None
        if selfobj.kind == "inst" and not self._is_record(selfobj.key[0]):
            return selfobj
        return None

    def invoke(self, f, selfobj, args, kwargs, site, out, caller=None, closure_ctx=None, star=None, starstar=None):
        """bind arguments (nodes, may be None) and link return"""
        ctx = self.ctx_for(f, selfobj) if f.parent is None else closure_ctx
        if caller is not None and caller.func is not None:
            self.calls_by.setdefault((caller.func, caller.ctx), set()).add((f, ctx))
        elif caller is not None:
            self.calls_by.setdefault((None, caller.module.name), set()).add((f, ctx))
        if site is not None and isinstance(site, ast.Call):
            self.callnode[id(site)] = site
            self.callees.setdefault((id(site), caller.ctx if caller else None), set()).add(f)
        self.analyze(f, ctx)
        pos = list(f.posargs)
        if selfobj is not None and f.cls is not None and not f.is_static and pos:
            self.add(("L", f, ctx, pos[0]), selfobj)
            pos = pos[1:]
        elif f.cls is not None and f.is_classmethod and pos:
            self.add(("L", f, ctx, pos[0]), self.obj("class", f.cls))
            pos = pos[1:]
        for i, a in enumerate(args):
            if a is None:
                continue
            if i < len(pos):
                self.edge(a, ("L", f, ctx, pos[i]))
            elif f.vararg:
                t = self.obj("tuple", "varargs", f, ctx, site=f.node)
                self.add(("L", f, ctx, f.vararg), t)
                self.edge(a, self.fld(t, "[]"))
        if star is not None:
            # *args: elements may land on any positional
            tmp = ("T", "star", id(site), ctx, f)
            self.on(star, lambda o: self.iter_elem(o, tmp))
            for p in pos[len(args):]:
                self.edge(tmp, ("L", f, ctx, p))
            if f.vararg:
                t = self.obj("tuple", "varargs", f, ctx, site=f.node)
                self.add(("L", f, ctx, f.vararg), t)
                self.edge(tmp, self.fld(t, "[]"))
        for k, a in kwargs.items():
            if a is None:
                continue
            if k in f.posargs or k in f.kwonly:
                self.edge(a, ("L", f, ctx, k))
            elif f.kwarg:
                d = self.obj("dict", "kwargs", f, ctx, site=f.node)
                self.add(("L", f, ctx, f.kwarg), d)
                self.edge(a, self.fld(d, ("k", k)))
        if starstar is not None:
            tmp = ("T", "ss", id(site), ctx, f)
            def ss(o):
                if o.kind == "dict":
                    for p in f.posargs + f.kwonly:
                        self.load_elem(o, ("k", p), ("L", f, ctx, p))
                    if f.kwarg:
                        d = self.obj("dict", "kwargs", f, ctx, site=f.node)
                        self.add(("L", f, ctx, f.kwarg), d)
                        self.edge(self.fld(o, "*"), self.fld(d, "[]"))
                elif o.kind == "input":
                    for p in f.posargs + f.kwonly:
                        self.add(("L", f, ctx, p), o)
            self.on(starstar, ss)
        if f.kwarg:
            d = self.obj("dict", "kwargs", f, ctx, site=f.node)
            self.add(("L", f, ctx, f.kwarg), d)
        if f.vararg:
            t = self.obj("tuple", "varargs", f, ctx, site=f.node)
            self.add(("L", f, ctx, f.vararg), t)
        for p, d in f.defaults.items():
            n = ("D", f, p)
            if n not in self.globals_done:
                self.globals_done.add(n)
                fr = Frame(self, f.parent, None, f.module)
                fr.default_owner = f
                v = fr.ev(d)
                self.edge(v, n)
            self.edge(n, ("L", f, ctx, p))
        if out is not None:
            if f.is_gen:
                if f.is_ctx:
                    self.add(out, self.obj("ctxcall", f, ctx))
                else:
                    self.add(out, self.obj("gen", f, ctx))
            else:
                self.edge(("R", f, ctx), out)
        return ctx

    def analyze(self, f, ctx):
        k = (f, ctx)
        if k in self.done:
            return
        self.done.add(k)
        self.cbs.append((self._analyze, [k]))

    def _analyze(self, k):
        f, ctx = k
        fr = Frame(self, f, ctx, f.module)
        for st in f.body:
            fr.stmt(st)

    def instantiate(self, c, args, kwargs, site, out, caller, star=None, starstar=None):
        self.class_body(c)
        if any(b.split(".")[-1] in ("Enum", "StrEnum", "IntEnum") for b in c.ext_bases()):
            self.add(out, self.obj("enummember", c))
            for a in args:
                if a is not None:
                    self.on(a, lambda o: self.add(out, o) if o.kind in ("str", "lab", "enummember") else None)
            return
        if any(b.split(".")[-1] == "TypedDict" for b in c.ext_bases()):
            d = self.obj("dict", id(site), site=site)
            for k, a in kwargs.items():
                self.edge(a, self.fld(d, ("k", k)))
            self.add(out, d)
            return
        hc = caller.ctx if caller is not None and not self._is_record(c) else None
        if hc is not None and self.depth(hc) >= 4:
            hc = None
        o = self.obj("inst", c, id(site) if site is not None else 0, hc, site=site)
        self.add(out, o)
        self.callnode[id(site)] = site
        init = c.find_method("__init__")
        if init is not None:
            self.invoke(init, o, args, kwargs, site, None, caller=caller, star=star, starstar=starstar)
        else:
            names = []
            for k in reversed([k for k in c.mro() if isinstance(k, Class)]):
                for a in k.ann:
                    if a not in names:
                        names.append(a)
            for i, a in enumerate(args):
                if a is not None and i < len(names):
                    self.edge(a, self.fld(o, names[i]))
            for k, a in kwargs.items():
                if a is not None:
                    self.edge(a, self.fld(o, k))
            for n in names:
                ca = c.find_attr(n)
                if ca is not None and ca[1] is not None:
                    self.edge(self.fld(self.obj("class", ca[0]), n), self.fld(o, n))
            if starstar is not None:
                def ss(x):
                    for n in names:
                        if x.kind == "dict":
                            self.load_elem(x, ("k", n), self.fld(o, n))
                        elif x.kind == "input":
                            self.add(self.fld(o, n), x)
                self.on(starstar, ss)

    def copy_fields(self, src, dst):
        def cb(f, n):
            if f == "*" or (isinstance(f, tuple) and f[0] == "r"):
                return
            if dst.kind in ("list", "set") and f not in ("keys",):
                f = "[]"
            self.edge(n, self.fld(dst, f))
        if src.kind in CONTAINERS or src.kind == "extinst":
            self.on_fields(src, cb)
        elif src.kind == "input":
            self.add(self.fld(dst, "[]"), src)
            self.add(self.fld(dst, "[]"), self.lab_doc)

    def deep(self, o, site):
        """clone of o made at site"""
        if o.kind in ("str", "lab", "class", "func", "module", "ext", "enummember", "bound"):
            return o
        if o.kind == "input":
            d = self.obj("input", "deep", id(site), site=site)
            return d
        if len(o.key) and o.key[0] == "deep" and o.key[1] == id(site):
            return o
        k = o.kind
        if k == "inst":
            d = self.obj("inst", o.key[0], "deep", id(site), o, site=site)
        else:
            d = self.obj(k, "deep", id(site), o, site=site)
        if d.extra is None:
            d.extra = "deep"
            def cb(f, n):
                if f == "*" or (isinstance(f, tuple) and f[0] == "r"):
                    return
                dn = self.fld(d, f)
                self.on(n, lambda x: self.add(dn, self.deep(x, site)))
            self.on_fields(o, cb)
        return d

    def record_mut(self, site, frame, recv, field, op):
        self.mut.append((site, frame.func, frame.ctx, recv, field, op))

    def depth(self, o):
        n = 0
        while o is not None and o.kind == "inst" and len(o.key) > 2 and isinstance(o.key[-1], Obj):
            o = o.key[-1]
            n += 1
        return n

    # reachability of functions
    def reach(self, roots):
        seen, todo = set(), list(roots)
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            todo.extend(self.calls_by.get(k, ()))
        return seen


def unconditional_self_stores(f, cls, prog, seen):
    """names of self attributes stored on every normal path of f (top-level statements only),
    following unconditional self.method() / super().method() calls"""
    if f in seen or not f.posargs:
        return set()
    seen = seen | {f}
    me = f.posargs[0]
    out = set()

    def scan(body):
        for st in body:
            if isinstance(st, (ast.Assign, ast.AnnAssign)):
                ts = st.targets if isinstance(st, ast.Assign) else ([st.target] if st.value is not None else [])
                flat = []
                for t in ts:
                    flat.extend(t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t])
                for t in flat:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                        out.add(t.attr)
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
                fn = st.value.func
                if isinstance(fn, ast.Attribute):
                    if isinstance(fn.value, ast.Name) and fn.value.id == me:
                        m = cls.find_method(fn.attr)
                        if m:
                            out.update(unconditional_self_stores(m, cls, prog, seen))
                    elif isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and f.cls:
                        m = cls.find_method(fn.attr, after=f.cls)
                        if m:
                            out.update(unconditional_self_stores(m, cls, prog, seen))
            elif isinstance(st, (ast.With,)):
                scan(st.body)
            elif isinstance(st, ast.Try):
                scan(st.body)
                scan(st.finalbody)
            elif isinstance(st, ast.Return):
                return
            elif isinstance(st, ast.If):
                # stored on both branches
                pass
    scan(f.body)
    return out


class Frame:
    """Generates constraints for one function body in one context."""

    def __init__(self, p, func, ctx, module, cls=None):
        self.p, self.func, self.ctx, self.module, self.cls = p, func, ctx, module, cls
        self.default_owner = None
        self.hctx = ctx if ctx is None or ctx.kind != "inst" else ctx

    # ----- names
    def var(self, name):
        f = self.func
        if self.cls is not None:
            # class body
            if name in self.cls.attrs:
                return self.p.fld(self.p.obj("class", self.cls), name)
        while f is not None:
            if name in f.locals:
                return ("L", f, self.ctx, name)
            f = f.parent
        return None

    def load_name(self, e):
        p = self.p
        n = self.var(e.id)
        out = ("E", id(e), self.ctx)
        f = self.func
        if n is not None:
            g = f
            while g is not None:
                if e.id in g.limports:
                    r = p.prog._res_import(g.limports[e.id])
                    p.value_of_resolved(r, out)
                    break
                g = g.parent
            p.edge(n, out)
            return out
        r = p.prog.resolve_global(self.module.name, e.id)
        if r is None:
            if e.id in BUILTINS:
                p.value_of_resolved("builtins." + e.id, out)
        else:
            p.value_of_resolved(r, out)
        return out

    # ----- statements
    def stmts(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, st):
        p = self.p
        t = type(st)
        if t is ast.Expr:
            self.ev(st.value)
        elif t is ast.Assign:
            v = self.ev(st.value)
            for tg in st.targets:
                self.assign(tg, v, st)
        elif t is ast.AnnAssign:
            if st.value is not None:
                self.assign(st.target, self.ev(st.value), st)
        elif t is ast.AugAssign:
            self.aug(st)
        elif t is ast.Return:
            if st.value is not None:
                v = self.ev(st.value)
                if self.func is not None:
                    p.edge(v, ("R", self.func, self.ctx))
        elif t is ast.If or t is ast.While:
            self.ev(st.test)
            self.stmts(st.body)
            self.stmts(st.orelse)
        elif t is ast.For or t is ast.AsyncFor:
            it = self.ev(st.iter)
            el = ("T", "for", id(st), self.ctx)
            p.on(it, lambda o: p.iter_elem(o, el))
            self.assign(st.target, el, st)
            self.stmts(st.body)
            self.stmts(st.orelse)
        elif t is ast.With:
            for it in st.items:
                v = self.ev(it.context_expr)
                el = ("T", "with", id(it), self.ctx)

                def w(o, el=el):
                    if o.kind == "ctxcall":
                        p.edge(("Y",) + o.key, el)
                    else:
                        p.add(el, o)
                p.on(v, w)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, el, st)
            self.stmts(st.body)
        elif t is ast.Try:
            self.stmts(st.body)
            for h in st.handlers:
                if h.type is not None:
                    self.ev(h.type)
                if h.name:
                    n = self.var(h.name)
                    if n is not None:
                        p.add(n, p.obj("extinst", "exception", 0))
                        p.add(p.fld(p.obj("extinst", "exception", 0), "labels"), p.lab_doc)
                self.stmts(h.body)
            self.stmts(st.orelse)
            self.stmts(st.finalbody)
        elif t in (ast.FunctionDef, ast.AsyncFunctionDef):
            f = p.prog.by_node.get(id(st))
            for d in st.decorator_list:
                pass
            n = self.var(st.name)
            if f is not None and n is not None:
                p.add(n, p.obj("func", f, self.ctx))
        elif t is ast.ClassDef:
            c = p.prog.by_node.get(id(st))
            n = self.var(st.name)
            if n is not None and isinstance(c, Class):
                p.add(n, p.obj("class", c))
        elif t is ast.Delete:
            for tg in st.targets:
                if isinstance(tg, ast.Subscript):
                    r = self.ev(tg.value)
                    self.ev_slice(tg.slice)
                    p.record_mut(st, self, r, "[]", "del")
                elif isinstance(tg, ast.Attribute):
                    r = self.ev(tg.value)
                    p.record_mut(st, self, r, tg.attr, "delattr")
        elif t is ast.Raise:
            if st.exc is not None:
                self.ev(st.exc)
            if st.cause is not None:
                self.ev(st.cause)
        elif t is ast.Assert:
            self.ev(st.test)
            if st.msg:
                self.ev(st.msg)
        elif t is ast.Match:
            self.ev(st.subject)
            for c in st.cases:
                self.stmts(c.body)

    def assign(self, tg, v, st):
        p = self.p
        if isinstance(tg, ast.Name):
            n = self.var(tg.id)
            if n is None:
                if self.func is None and self.cls is None:
                    n = ("G", self.module.name, tg.id)
                    p.globals_done.add(n)
                elif self.func is not None and tg.id in self.func.globals_decl:
                    n = ("G", self.module.name, tg.id)
                    p.gnode(self.module.name, tg.id) if tg.id in self.module.gassign else None
                    p.mut.append((st, self.func, self.ctx, None, (self.module.name, tg.id), "global"))
                else:
                    return
            p.edge(v, n)
        elif isinstance(tg, ast.Attribute):
            r = self.ev(tg.value)
            p.on(r, lambda o: p.store_attr(o, tg.attr, v))
            p.record_mut(st, self, r, tg.attr, "attr")
        elif isinstance(tg, ast.Subscript):
            r = self.ev(tg.value)
            k = self.ev_slice(tg.slice)
            keyn = ("E", id(tg.slice), self.ctx)
            p.record_mut(st, self, r, k if k is not None else "[]", "item")

            def cb(o):
                if isinstance(tg.slice, ast.Slice):
                    el = ("T", "sl", id(tg), self.ctx)
                    p.on(v, lambda x: p.iter_elem(x, el))
                    p.store_elem(o, None, el)
                    return
                if k is None and o.kind == "dict":
                    p.edge(keyn, p.fld(o, "keys"))
                    # a key expression that is one of a few constants
                p.store_elem(o, k, v)
            p.on(r, cb)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            for i, x in enumerate(tg.elts):
                n = ("T", "unpack", id(tg), i, self.ctx)
                if isinstance(x, ast.Starred):
                    l = p.obj("list", id(x), self.hctx, site=x)
                    p.on(v, lambda o, l=l: p.iter_elem(o, p.fld(l, "[]")))
                    p.add(n, l)
                    self.assign(x.value, n, st)
                    continue
                def cb(o, i=i, n=n):
                    if o.kind == "tuple":
                        p.load_elem(o, ("i", i), n)
                    else:
                        p.iter_elem(o, n)
                p.on(v, cb)
                self.assign(x, n, st)
        elif isinstance(tg, ast.Starred):
            self.assign(tg.value, v, st)

    def aug(self, st):
        p = self.p
        v = self.ev(st.value)
        tg = st.target
        if isinstance(tg, ast.Name):
            n = self.var(tg.id)
            if n is None:
                if self.func is not None and tg.id in self.func.globals_decl:
                    p.mut.append((st, self.func, self.ctx, None, (self.module.name, tg.id), "global"))
                return
            cur = n
        elif isinstance(tg, ast.Attribute):
            r = self.ev(tg.value)
            cur = ("T", "augl", id(st), self.ctx)
            p.on(r, lambda o: p.load_attr(o, tg.attr, cur, self, st))
            p.record_mut(st, self, r, tg.attr, "augattr")
        elif isinstance(tg, ast.Subscript):
            r = self.ev(tg.value)
            k = self.ev_slice(tg.slice)
            cur = ("T", "augl", id(st), self.ctx)
            p.on(r, lambda o: p.load_elem(o, k, cur))
            p.record_mut(st, self, r, k if k is not None else "[]", "item")
        out = ("T", "aug", id(st), self.ctx)
        # in-place container update
        kinds = ("list",) if isinstance(st.op, (ast.Add, ast.Mult)) else (("dict", "set") if isinstance(st.op, ast.BitOr) else ("set",))
        conts = ("T", "augc", id(st), self.ctx)
        p.on(cur, lambda o: p.add(conts, o) if o.kind in kinds or o.kind == "input" else None)
        p.record_mut(st, self, conts, "[]", "augcontainer")

        def cb(o):
            if o.kind in kinds:
                p.on(v, lambda x: p.iter_elem(x, p.fld(o, "[]")))
                p.add(out, o)
        p.on(cur, cb)
        self.strop([cur, v], out)
        if isinstance(tg, ast.Name):
            p.edge(out, cur)
        elif isinstance(tg, ast.Attribute):
            p.on(r, lambda o: p.store_attr(o, tg.attr, out))
        else:
            p.on(r, lambda o: p.store_elem(o, k, out))

    # ----- expressions
    def shallow_input(self, o, e, out, tag, kinds=("list", "dict")):
        """shallow copy of a piece of the caller's opaque tree: a new container whose elements are the caller's"""
        p = self.p
        for k in kinds:
            c = p.obj(k, tag, id(e), self.hctx, site=e)
            p.copy_fields(o, c)
            p.add(out, c)
        p.add(out, p.lab_doc)

    def strop(self, nodes, out):
        p = self.p
        S = p.lab("STR")

        def cb(o):
            if o.kind == "lab":
                p.add(out, o)
            elif o.kind == "str":
                p.add(out, S)
            elif o.kind == "input":
                p.add(out, p.lab_doc)
            elif o.kind == "extinst":
                p._extlabels(o, out)
        for n in nodes:
            if n is not None:
                p.on(n, cb)

    def ev_slice(self, s):
        if isinstance(s, ast.Constant):
            if isinstance(s.value, str):
                return ("k", s.value)
            if isinstance(s.value, int) and not isinstance(s.value, bool):
                return ("i", s.value)
            return None
        if isinstance(s, ast.UnaryOp) and isinstance(s.op, ast.USub) and isinstance(s.operand, ast.Constant):
            return ("i", -s.operand.value)
        if isinstance(s, ast.Slice):
            for x in (s.lower, s.upper, s.step):
                if x is not None:
                    self.ev(x)
            return None
        self.ev(s)
        return None

    def ev(self, e):
        p = self.p
        t = type(e)
        out = ("E", id(e), self.ctx)
        if t is ast.Name:
            return self.load_name(e)
        if t is ast.Constant:
            if isinstance(e.value, str):
                p.add(out, p.sconst(e.value))
            return out
        if t is ast.Attribute:
            r = self.ev(e.value)
            p.on(r, lambda o: p.load_attr(o, e.attr, out, self, e))
            return out
        if t is ast.Call:
            return self.call(e, out)
        if t is ast.Subscript:
            r = self.ev(e.value)
            k = self.ev_slice(e.slice)
            if isinstance(e.slice, ast.Slice):
                def cb(o):
                    if o.kind in ("list", "tuple"):
                        c = p.obj("list", "slice", id(e), self.hctx, site=e)
                        p.edge(p.fld(o, "*"), p.fld(c, "[]"))
                        p.add(out, c)
                    elif o.kind == "str":
                        p.add(out, p.lab("STR"))
                    elif o.kind == "lab":
                        p.add(out, o)
                    elif o.kind == "input":
                        self.shallow_input(o, e, out, "slice", ("list",))
                    else:
                        p.load_elem(o, None, out)
                p.on(r, cb)
            else:
                p.on(r, lambda o: p.load_elem(o, k, out))
            return out
        if t in (ast.List, ast.Tuple, ast.Set):
            kind = {ast.List: "list", ast.Tuple: "tuple", ast.Set: "set"}[t]
            o = p.obj(kind, id(e), self.hctx, site=e)
            if self.default_owner is not None:
                o.extra = ("default", self.default_owner)
            p.add(out, o)
            for i, x in enumerate(e.elts):
                if isinstance(x, ast.Starred):
                    n = self.ev(x.value)
                    p.on(n, lambda s: p.iter_elem(s, p.fld(o, "[]")))
                else:
                    n = self.ev(x)
                    if kind == "tuple" and not any(isinstance(y, ast.Starred) for y in e.elts):
                        p.edge(n, p.fld(o, ("i", i)))
                    else:
                        p.edge(n, p.fld(o, "[]"))
            return out
        if t is ast.Dict:
            o = p.obj("dict", id(e), self.hctx, site=e)
            if self.default_owner is not None:
                o.extra = ("default", self.default_owner)
            p.add(out, o)
            for k, v in zip(e.keys, e.values):
                n = self.ev(v)
                if k is None:
                    p.on(n, lambda s: p.copy_fields(s, o) if s.kind != "input" else p.add(out, p.lab_doc) or p.copy_fields(s, o))
                elif isinstance(k, ast.Constant) and isinstance(k.value, str):
                    p.edge(n, p.fld(o, ("k", k.value)))
                else:
                    kn = self.ev(k)
                    p.edge(kn, p.fld(o, "keys"))
                    p.edge(n, p.fld(o, "[]"))
            return out
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            for g in e.generators:
                it = self.ev(g.iter)
                el = ("T", "comp", id(g), self.ctx)
                p.on(it, lambda o, el=el: p.iter_elem(o, el))
                self.assign(g.target, el, e)
                for c in g.ifs:
                    self.ev(c)
            kind = {ast.ListComp: "list", ast.SetComp: "set", ast.GeneratorExp: "list", ast.DictComp: "dict"}[t]
            o = p.obj(kind, id(e), self.hctx, site=e)
            p.add(out, o)
            if t is ast.DictComp:
                p.edge(self.ev(e.key), p.fld(o, "keys"))
                p.edge(self.ev(e.value), p.fld(o, "[]"))
            else:
                p.edge(self.ev(e.elt), p.fld(o, "[]"))
            return out
        if t is ast.BoolOp:
            for v in e.values:
                p.edge(self.ev(v), out)
            return out
        if t is ast.IfExp:
            self.ev(e.test)
            p.edge(self.ev(e.body), out)
            p.edge(self.ev(e.orelse), out)
            return out
        if t is ast.BinOp:
            a, b = self.ev(e.left), self.ev(e.right)
            self.strop([a, b], out)

            def cb(o):
                if o.kind in ("list", "set", "tuple"):
                    c = p.obj(o.kind, "binop", id(e), self.hctx, site=e)
                    p.edge(p.fld(o, "*"), p.fld(c, "[]"))
                    p.add(out, c)
                elif o.kind == "dict":
                    c = p.obj(o.kind, "binop", id(e), self.hctx, site=e)
                    p.copy_fields(o, c)
                    p.add(out, c)
                elif o.kind == "inst":
                    pass
            p.on(a, cb)
            if not isinstance(e.op, ast.Mod):
                p.on(b, cb)
            else:
                def cb2(o):
                    if o.kind == "tuple":
                        self.strop([p.fld(o, "*")], out)
                p.on(b, cb2)
            return out
        if t is ast.JoinedStr:
            ns = []
            for v in e.values:
                if isinstance(v, ast.FormattedValue):
                    ns.append(self.ev(v.value))
            self.strop(ns, out)
            p.add(out, p.lab("STR"))
            return out
        if t is ast.FormattedValue:
            return self.ev(e.value)
        if t is ast.Compare:
            self.ev(e.left)
            for c in e.comparators:
                self.ev(c)
            return out
        if t is ast.UnaryOp:
            self.ev(e.operand)
            return out
        if t is ast.Lambda:
            f = p.prog.by_node.get(id(e))
            if f is not None:
                p.add(out, p.obj("func", f, self.ctx))
            return out
        if t is ast.NamedExpr:
            v = self.ev(e.value)
            self.assign(e.target, v, e)
            return v
        if t is ast.Yield:
            if e.value is not None and self.func is not None:
                p.edge(self.ev(e.value), ("Y", self.func, self.ctx))
            return out
        if t is ast.YieldFrom:
            v = self.ev(e.value)
            p.on(v, lambda o: p.iter_elem(o, ("Y", self.func, self.ctx)))
            return out
        if t is ast.Starred:
            return self.ev(e.value)
        if t is ast.Await:
            return self.ev(e.value)
        return out

    def call(self, e, out):
        p = self.p
        fn = e.func
        if isinstance(fn, ast.Name) and fn.id == "super" and not e.args and self.func is not None and self.var("super") is None:
            f = self.func
            while f.parent is not None:
                f = f.parent
            if f.cls is not None and f.posargs:
                me = ("L", f, self.ctx, f.posargs[0])
                p.on(me, lambda o: p.add(out, p.obj("super", f.cls, o)))
            return out
        args, star, kwargs, starstar = [], None, {}, None
        for a in e.args:
            if isinstance(a, ast.Starred):
                star = self.ev(a.value)
            else:
                args.append(self.ev(a))
        for k in e.keywords:
            if k.arg is None:
                starstar = self.ev(k.value)
            else:
                kwargs[k.arg] = self.ev(k.value)
        fnode = self.ev(fn)
        p.on(fnode, lambda o: self.apply(o, e, args, kwargs, star, starstar, out))
        return out

    def apply(self, o, e, args, kwargs, star, starstar, out):
        p = self.p
        k = o.kind
        if k == "func":
            f, cctx = o.key
            p.invoke(f, None, args, kwargs, e, out, caller=self, closure_ctx=cctx, star=star, starstar=starstar)
        elif k == "bound":
            f, so = o.key
            p.invoke(f, so, args, kwargs, e, out, caller=self, star=star, starstar=starstar)
        elif k == "class":
            p.instantiate(o.key[0], args, kwargs, e, out, self, star=star, starstar=starstar)
        elif k == "ext":
            self.ext_call(o.key[0], None, e, args, kwargs, star, starstar, out)
        elif k == "extbound":
            recv, attr = o.key
            self.method_call(recv, attr, e, args, kwargs, star, starstar, out)
        elif k == "inst":
            m = o.key[0].find_method("__call__")
            if m:
                p.invoke(m, o, args, kwargs, e, out, caller=self, star=star, starstar=starstar)
        elif k == "extinst":
            self.generic_ext(o.key[0] + "()", o, e, args, kwargs, out)

    def note_ext(self, d, recv, e, args, kwargs):
        p = self.p
        key = (id(e), self.ctx, d, recv)
        if key not in p._extseen:
            p._extseen.add(key)
            p.ext_calls.append((e, self.func, self.ctx, d, args, kwargs, recv, self.module))
            p.callnode[id(e)] = e
            p.callees.setdefault((id(e), self.ctx), set()).add(d)

    def invoke_cb(self, node, argobjs_nodes):
        """a callable handed to an external function gets called with the given nodes"""
        p = self.p

        def cb(o):
            if o.kind == "func":
                p.invoke(o.key[0], None, argobjs_nodes, {}, None, ("T", "cbres", id(node), self.ctx), caller=self, closure_ctx=o.key[1])
            elif o.kind == "bound":
                p.invoke(o.key[0], o.key[1], argobjs_nodes, {}, None, ("T", "cbres", id(node), self.ctx), caller=self)
            elif o.kind == "class":
                p.instantiate(o.key[0], argobjs_nodes, {}, None, ("T", "cbres", id(node), self.ctx), self)
        p.on(node, cb)
        return ("T", "cbres", id(node), self.ctx)

    def generic_ext(self, d, recv, e, args, kwargs, out):
        p = self.p
        r = p.obj("extinst", d, id(e), site=e)
        p.add(out, r)
        L = p.fld(r, "labels")

        def cb(o):
            if o.kind == "lab":
                p.add(L, o)
            elif o.kind == "extinst":
                p._extlabels(o, L)
            elif o.kind == "input":
                p.add(L, p.lab_doc)
        for a in list(args) + list(kwargs.values()):
            p.on(a, cb)
            self.invoke_cb(a, [None])
        if recv is not None and recv.kind in ("extinst",) and recv is not r:
            p._extlabels(recv, L)
        if recv is not None and recv.kind == "lab":
            p.add(L, recv)

    def ext_call(self, d, recv, e, args, kwargs, star, starstar, out):
        p = self.p
        self.note_ext(d, recv, e, args, kwargs)
        b = d[9:] if d.startswith("builtins.") else None
        S = p.lab("STR")
        if b is not None:
            if b in ("len", "int", "float", "bool", "ord", "abs", "hash", "id", "isinstance", "issubclass", "callable",
                     "print", "hasattr", "any", "all", "round", "divmod", "range", "pow", "sum"):
                for a in args:
                    pass
                return
            if b in ("str", "repr", "format", "ascii", "chr", "hex"):
                p.add(out, S)
                self.strop(args, out)
                return
            if b in ("list", "tuple", "set", "frozenset", "sorted", "reversed", "iter"):
                kind = {"list": "list", "tuple": "tuple", "set": "set", "frozenset": "set"}.get(b, "list")
                o = p.obj(kind, id(e), self.hctx, site=e)
                if self.default_owner is not None:
                    o.extra = ("default", self.default_owner)
                p.add(out, o)
                if args:
                    p.on(args[0], lambda x: p.iter_elem(x, p.fld(o, "[]")))
                if "key" in kwargs:
                    self.invoke_cb(kwargs["key"], [p.fld(o, "*")])
                return
            if b == "dict":
                o = p.obj("dict", id(e), self.hctx, site=e)
                if self.default_owner is not None:
                    o.extra = ("default", self.default_owner)
                p.add(out, o)
                for k, a in kwargs.items():
                    p.edge(a, p.fld(o, ("k", k)))
                for a in args:
                    p.on(a, lambda x: p.copy_fields(x, o) if x.kind in ("dict", "input") else self._pairs(x, o))
                if starstar is not None:
                    p.on(starstar, lambda x: p.copy_fields(x, o))
                return
            if b == "enumerate":
                o = p.obj("list", "enum", id(e), self.hctx, site=e)
                t = p.obj("tuple", "enumt", id(e), self.hctx, site=e)
                p.add(out, o)
                p.add(p.fld(o, "[]"), t)
                if args:
                    p.on(args[0], lambda x: p.iter_elem(x, p.fld(t, ("i", 1))))
                return
            if b == "zip":
                o = p.obj("list", "zip", id(e), self.hctx, site=e)
                t = p.obj("tuple", "zipt", id(e), self.hctx, site=e)
                p.add(out, o)
                p.add(p.fld(o, "[]"), t)
                for i, a in enumerate(args):
                    p.on(a, lambda x, i=i: p.iter_elem(x, p.fld(t, ("i", i))))
                return
            if b in ("map", "filter"):
                o = p.obj("list", b, id(e), site=e)
                p.add(out, o)
                el = ("T", b, id(e), self.ctx)
                if len(args) > 1:
                    p.on(args[1], lambda x: p.iter_elem(x, el))
                    r = self.invoke_cb(args[0], [el])
                    p.edge(r if b == "map" else el, p.fld(o, "[]"))
                    if b == "map":
                        p.on(args[0], lambda x: p.add(p.fld(o, "[]"), S) if x.kind == "ext" else None)
                        self.strop([el], p.fld(o, "[]"))
                return
            if b in ("next", "min", "max"):
                for a in args:
                    p.on(a, lambda x: p.iter_elem(x, out))
                    if len(args) > 1:
                        p.edge(a, out)
                if "default" in kwargs:
                    p.edge(kwargs["default"], out)
                return
            if b == "getattr":
                nm = e.args[1] if len(e.args) > 1 else None
                if isinstance(nm, ast.Constant):
                    p.on(args[0], lambda o: p.load_attr(o, nm.value, out, self, e))
                else:
                    def ga(o):
                        if o.kind in ("inst", "extinst"):
                            p.on_fields(o, lambda f, n: p.edge(n, out))
                        if o.kind in ("inst", "class"):
                            for c in o.key[0].mro():
                                if isinstance(c, Class):
                                    for m in c.methods.values():
                                        p.load_attr(o, m.name, out, self, e)
                    p.on(args[0], ga)
                if len(args) > 2:
                    p.edge(args[2], out)
                return
            if b == "setattr":
                nm = e.args[1] if len(e.args) > 1 else None
                p.record_mut(e, self, args[0], nm.value if isinstance(nm, ast.Constant) else "?", "attr")
                if isinstance(nm, ast.Constant):
                    p.on(args[0], lambda o: p.store_attr(o, nm.value, args[2]))
                return
            if b == "type":
                if args:
                    p.on(args[0], lambda o: p.add(out, p.obj("class", o.key[0])) if o.kind == "inst" else None)
                return
            if b == "open":
                self.generic_ext("open", None, e, args, kwargs, out)
                return
            if b in ("vars", "globals", "locals"):
                return
            if b == "super":
                return
            self.generic_ext(d, None, e, args, kwargs, out)
            return
        if d in ("copy.deepcopy",):
            p.on(args[0], lambda o: p.add(out, p.deep(o, e)))
            return
        if d == "copy.copy":
            def cc(o):
                if o.kind in CONTAINERS:
                    c = p.obj(o.kind, "copy", id(e), self.hctx, site=e)
                    p.copy_fields(o, c)
                    p.add(out, c)
                elif o.kind == "input":
                    self.shallow_input(o, e, out, "copy")
                elif o.kind == "inst":
                    c = p.obj("inst", o.key[0], "copy", id(e), site=e)
                    p.on_fields(o, lambda f, n: p.edge(n, p.fld(c, f)))
                    p.add(out, c)
                else:
                    p.add(out, o)
            p.on(args[0], cc)
            return
        if d in ("collections.OrderedDict", "collections.defaultdict", "collections.Counter", "types.MappingProxyType"):
            o = p.obj("dict", id(e), self.hctx, site=e)
            p.add(out, o)
            for a in args:
                p.on(a, lambda x: p.copy_fields(x, o) if x.kind in ("dict", "input") else self._pairs(x, o))
            for k, a in kwargs.items():
                p.edge(a, p.fld(o, ("k", k)))
            return
        if d in ("collections.deque",):
            o = p.obj("list", id(e), self.hctx, site=e)
            p.add(out, o)
            if args:
                p.on(args[0], lambda x: p.iter_elem(x, p.fld(o, "[]")))
            return
        if d in ("dataclasses.field",):
            if "default_factory" in kwargs:
                p.edge(self.invoke_cb(kwargs["default_factory"], []), out)
                p.on(kwargs["default_factory"], lambda x: self.ext_call(x.key[0], None, e, [], {}, None, None, out) if x.kind == "ext" else None)
            if "default" in kwargs:
                p.edge(kwargs["default"], out)
            return
        if d == "re.escape":
            p.add(out, p.lab("ESC"))
            return
        if d == "re.compile":
            r = p.obj("extinst", "re.Pattern", id(e), site=e)
            p.add(out, r)
            if args:
                self.strop(args[:1], p.fld(r, "patlabels"))
            return
        if d.startswith("re."):
            self.re_call(d[3:], None, e, args, kwargs, out)
            return
        if d in ("os.path.join", "os.path.dirname", "os.path.basename", "os.path.abspath", "os.path.normpath",
                 "os.path.realpath", "os.path.relpath", "os.path.expanduser", "os.fspath", "textwrap.dedent", "html.unescape",
                 "unicodedata.normalize"):
            p.add(out, S)
            self.strop(args, out)
            return
        if d == "json.dumps":
            p.add(out, S)
            return
        if d in ("os.path.splitext", "os.path.split"):
            t = p.obj("tuple", id(e), self.hctx, site=e)
            p.add(out, t)
            self.strop(args, p.fld(t, "[]"))
            return
        if d == "functools.partial":
            # treat as a call with the missing arguments unknown
            p.on(args[0], lambda o: p.add(out, p.obj("partial", o, id(e))))
            self.generic_ext(d, None, e, args, kwargs, out)
            return
        if d == "tempfile.mkdtemp":
            p.add(out, p.lab("TMP"))
            return
        if d in ("pathlib.Path", "pathlib.PurePath"):
            self.generic_ext("pathlib.Path", None, e, args, kwargs, out)
            return
        if d == "typing.cast" and len(args) > 1:
            p.edge(args[1], out)
            return
        self.generic_ext(d, None, e, args, kwargs, out)

    def _pairs(self, x, o):
        p = self.p
        el = ("T", "pairs", id(o), id(x))
        p.iter_elem(x, el)

        def cb(t):
            if t.kind == "tuple":
                p.load_elem(t, ("i", 0), p.fld(o, "keys"))
                p.load_elem(t, ("i", 1), p.fld(o, "[]"))
            else:
                p.iter_elem(t, p.fld(o, "[]"))
        p.on(el, cb)

    def re_call(self, name, recv, e, args, kwargs, out):
        """module-level re.X(pattern, ...) or Pattern.X(...) when recv given"""
        p = self.p
        off = 0 if recv is not None else 1
        if name in ("match", "search", "fullmatch"):
            p.add(out, p.obj("extinst", "re.Match", 0))
        elif name == "finditer":
            p.add(out, p.obj("extinst", "iter:re.Match", 0))
        elif name in ("findall", "split"):
            l = p.obj("list", id(e), self.hctx, site=e)
            t = p.obj("tuple", "findall", id(e), self.hctx, site=e)
            p.add(out, l)
            p.add(p.fld(l, "[]"), p.lab_doc)
            if name == "findall":
                p.add(p.fld(l, "[]"), t)
                p.add(p.fld(t, "[]"), p.lab_doc)
        elif name in ("sub", "subn"):
            subj = args[off + 1] if len(args) > off + 1 else kwargs.get("string")
            repl = args[off] if len(args) > off else kwargs.get("repl")
            tgt = out
            if name == "subn":
                t = p.obj("tuple", id(e), self.hctx, site=e)
                p.add(out, t)
                tgt = p.fld(t, ("i", 0))
            self.strop([subj, repl], tgt)
            if repl is not None:
                mn = ("T", "remm", id(e), self.ctx)
                p.add(mn, p.obj("extinst", "re.Match", 0))
                r = self.invoke_cb(repl, [mn])
                self.strop([r], tgt)

    def method_call(self, recv, attr, e, args, kwargs, star, starstar, out):
        p = self.p
        k = recv.kind
        S = p.lab("STR")
        if k in ("str", "lab"):
            # method of a string (labels are strings / paths)
            self.note_ext("str." + attr, recv, e, args, kwargs)
            rl = recv if k == "lab" else S
            if attr in STR_NUM:
                return
            if attr == "join":
                p.add(out, rl)
                for a in args:
                    def j(o):
                        n = ("T", "join", id(e), self.ctx)
                        p.iter_elem(o, n)
                        self.strop([n], out)
                    p.on(a, j)
                return
            if attr == "replace" and isinstance(e, ast.Call) and len(e.args) >= 2 and all(isinstance(a, ast.Constant) for a in e.args[:2]) \
                    and e.args[0].value == "\\" and e.args[1].value == "\\\\":
                p.add(out, p.lab("RESC"))
                return
            if attr in STR_SAME:
                p.add(out, rl)
                if attr in ("replace", "format", "removeprefix"):
                    self.strop(args + list(kwargs.values()), out)
                return
            if attr in STR_LIST:
                l = p.obj("list", id(e), self.hctx, site=e)
                p.add(p.fld(l, "[]"), rl)
                p.add(out, l)
                return
            if attr in STR_TUP:
                l = p.obj("tuple", id(e), self.hctx, site=e)
                p.add(p.fld(l, "[]"), rl)
                p.add(out, l)
                return
            return
        if k == "dict":
            self.note_ext("dict." + attr, recv, e, args, kwargs)
            key = self.ev_slice(e.args[0]) if isinstance(e, ast.Call) and e.args and isinstance(e.args[0], ast.Constant) else None
            if attr in ("get", "pop", "setdefault"):
                p.load_elem(recv, key, out)
                if len(args) > 1:
                    p.edge(args[1], out)
                if attr == "pop":
                    self._mutm(e, recv, key or "[]", "pop")
                if attr == "setdefault":
                    self._mutm(e, recv, key or "[]", "setdefault")
                    if len(args) > 1:
                        p.store_elem(recv, key, args[1])
                        if key is None:
                            p.edge(args[0], p.fld(recv, "keys"))
                return
            if attr == "copy":
                c = p.obj("dict", "copy", id(e), self.hctx, site=e)
                p.copy_fields(recv, c)
                p.add(out, c)
                return
            if attr in ("items",):
                l = p.obj("list", "items", id(e), self.hctx, site=e)
                t = p.obj("tuple", "items", id(e), self.hctx, site=e)
                p.add(out, l)
                p.add(p.fld(l, "[]"), t)
                p.edge(p.fld(recv, "keys"), p.fld(t, ("i", 0)))
                p.edge(p.fld(recv, "*"), p.fld(t, ("i", 1)))
                return
            if attr in ("values", "keys"):
                l = p.obj("list", attr, id(e), site=e)
                p.add(out, l)
                p.edge(p.fld(recv, "*" if attr == "values" else "keys"), p.fld(l, "[]"))
                return
            if attr == "update":
                self._mutm(e, recv, "[]", "update")
                for a in args:
                    p.on(a, lambda x: p.copy_fields(x, recv) if x.kind in ("dict", "input") else self._pairs(x, recv))
                for kk, a in kwargs.items():
                    p.edge(a, p.fld(recv, ("k", kk)))
                return
            if attr in ("clear", "popitem", "move_to_end"):
                self._mutm(e, recv, "[]", attr)
                if attr == "popitem":
                    p.iter_elem(recv, out)
                return
            return
        if k in ("list", "set", "tuple"):
            self.note_ext(k + "." + attr, recv, e, args, kwargs)
            if attr in ("append", "add", "appendleft"):
                self._mutm(e, recv, "[]", attr)
                p.edge(args[0], p.fld(recv, "[]")) if args else None
                return
            if attr in ("extend", "update", "extendleft", "difference_update", "intersection_update"):
                self._mutm(e, recv, "[]", attr)
                for a in args:
                    p.on(a, lambda x: p.iter_elem(x, p.fld(recv, "[]")))
                return
            if attr == "insert":
                self._mutm(e, recv, "[]", attr)
                if len(args) > 1:
                    p.edge(args[1], p.fld(recv, "[]"))
                return
            if attr in ("pop", "popleft"):
                self._mutm(e, recv, "[]", attr)
                p.edge(p.fld(recv, "*"), out)
                return
            if attr in ("clear", "remove", "discard", "sort", "reverse"):
                self._mutm(e, recv, "[]", attr)
                if attr == "sort" and "key" in kwargs:
                    self.invoke_cb(kwargs["key"], [p.fld(recv, "*")])
                return
            if attr in ("copy", "union", "intersection", "difference", "symmetric_difference"):
                c = p.obj(k, "copy", id(e), self.hctx, site=e)
                p.edge(p.fld(recv, "*"), p.fld(c, "[]"))
                for a in args:
                    p.on(a, lambda x: p.iter_elem(x, p.fld(c, "[]")))
                p.add(out, c)
                return
            return
        if k == "input":
            self.note_ext("input." + attr, recv, e, args, kwargs)
            if attr in ("append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "popitem", "add", "discard"):
                self._mutm(e, recv, "[]", attr)
            if attr == "copy":
                self.shallow_input(recv, e, out, "copy")
                return
            p.add(out, recv)
            p.add(out, p.lab_doc)
            if attr == "items":
                l = p.obj("list", "items", id(e), self.hctx, site=e)
                t = p.obj("tuple", "items", id(e), recv, site=e)
                p.add(out, l)
                p.add(p.fld(l, "[]"), t)
                p.add(p.fld(t, "[]"), recv)
                p.add(p.fld(t, "[]"), p.lab_doc)
            return
        if k == "extinst":
            d = recv.key[0]
            self.note_ext(d + "." + attr, recv, e, args, kwargs)
            if d == "re.Match":
                if attr in ("group", "groups", "groupdict", "expand"):
                    if attr == "groups":
                        t = p.obj("tuple", "groups", id(e), self.hctx, site=e)
                        p.add(p.fld(t, "[]"), p.lab_doc)
                        p.add(out, t)
                    elif attr == "groupdict":
                        t = p.obj("dict", "groups", id(e), self.hctx, site=e)
                        p.add(p.fld(t, "[]"), p.lab_doc)
                        p.add(out, t)
                    else:
                        p.add(out, p.lab_doc)
                return
            if d == "re.Pattern":
                self.re_call(attr, recv, e, args, kwargs, out)
                return
            if d in ("open", "gzip.open", "io.open", "codecs.open", "pathlib.Path.open"):
                if attr in ("read", "readline"):
                    p.add(out, p.lab_doc)
                    return
                if attr == "readlines":
                    l = p.obj("list", id(e), self.hctx, site=e)
                    p.add(p.fld(l, "[]"), p.lab_doc)
                    p.add(out, l)
                    return
            if attr in ("read_text", "read_bytes"):
                p.add(out, p.lab_doc)
                return
            self.generic_ext(d + "." + attr, recv, e, args, kwargs, out)
            return
        if k == "inst":
            # method inherited from an external base class
            c = recv.key[0]
            self.note_ext("inherited." + attr, recv, e, args, kwargs)
            if attr in ("model_dump", "dict", "json", "model_dump_json"):
                dd = p.obj("dict", "dump", id(e), recv, site=e)
                p.on_fields(recv, lambda f, n: p.edge(n, p.fld(dd, ("k", f))) if isinstance(f, str) and f not in ("*", "[]", "keys") else None)
                p.add(out, dd)
                return
            if attr in ("model_copy", "copy"):
                d = p.deep(recv, e) if kwargs.get("deep") else recv
                p.add(out, d)
                return
            return
        if k == "class":
            c = recv.key[0]
            self.note_ext("inherited." + attr, recv, e, args, kwargs)
            if attr in ("model_validate", "parse_obj", "model_construct"):
                o = p.obj("inst", c, id(e), site=e)
                p.add(out, o)

                def ss(x):
                    if x.kind == "dict":
                        def cb(f, n):
                            if isinstance(f, tuple) and f[0] == "k":
                                p.edge(n, p.fld(o, f[1]))
                        p.on_fields(x, cb)
                    elif x.kind == "input":
                        for n in c.ann:
                            p.add(p.fld(o, n), p.obj("input", "deep", id(e), site=e))
                for a in args:
                    p.on(a, ss)
                for kk, a in kwargs.items():
                    p.edge(a, p.fld(o, kk))
            return
        if k == "enummember":
            return

    def _mutm(self, e, recv, field, op):
        self.p.mut.append((e, self.func, self.ctx, recv, field, op))
