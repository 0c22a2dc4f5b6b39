"""Program model: modules, imports, classes, functions of the package under analysis.

Nothing of the package is ever imported or executed; everything comes from the
syntax trees of /repo's working tree.
"""
import ast
import os

REPO = os.environ.get("L2J_REPO", "/repo")
PKG = "latex2json"


class AnalysisBroken(Exception):
    """An anchor vanished / the analysis cannot be performed -> error exit."""


class Module:
    def __init__(self, name, path, src, tree, is_pkg):
        self.name, self.path, self.src, self.tree, self.is_pkg = name, path, src, tree, is_pkg
        self.imports = {}  # local name -> ('mod', dotted) | ('from', dotted, attr)
        self.defs = {}  # name -> Func | Class
        self.gassign = {}  # name -> [value expr]
        self.rel = None

    def __repr__(self):
        return f"<M {self.name}>"


class Class:
    def __init__(self, name, module, node, outer=None):
        self.name, self.module, self.node, self.outer = name, module, node, outer
        self.qual = (outer + "." if outer else "") + name
        self.full = module.name + "." + self.qual
        self.methods = {}
        self.attrs = {}  # class-level name -> value expr or None (annotated only)
        self.ann = {}  # name -> annotation expr
        self.base_exprs = node.bases
        self.bases = []  # Class or str (external dotted)
        self._mro = None
        self.decorators = [dotted(d.func if isinstance(d, ast.Call) else d) for d in node.decorator_list]

    def mro(self):
        if self._mro is None:
            # simple linearisation: self, then bases left to right, duplicates removed (last kept)
            out = [self]
            for b in self.bases:
                if isinstance(b, Class):
                    for c in b.mro():
                        if c in out:
                            out.remove(c)
                        out.append(c)
                elif b not in out:
                    out.append(b)
            self._mro = out
        return self._mro

    def ext_bases(self):
        return [b for b in self.mro() if isinstance(b, str)]

    def find_method(self, name, after=None):
        seen = after is None
        for c in self.mro():
            if not seen:
                seen = c is after
                continue
            if isinstance(c, Class) and name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if isinstance(c, Class) and name in c.attrs:
                return c, c.attrs[name]
        return None

    def subclass_of(self, other):
        return other in self.mro()

    def __repr__(self):
        return f"<C {self.full}>"


class Func:
    def __init__(self, name, module, node, cls=None, parent=None):
        self.name, self.module, self.node, self.cls, self.parent = name, module, node, cls, parent
        if parent is not None:
            self.qual = parent.qual + ".<locals>." + name
        elif cls is not None:
            self.qual = cls.qual + "." + name
        else:
            self.qual = name
        self.full = module.name + "." + self.qual
        self.is_lambda = isinstance(node, ast.Lambda)
        decs = [] if self.is_lambda else [dotted(d.func if isinstance(d, ast.Call) else d) for d in node.decorator_list]
        self.decorators = decs
        self.is_static = "staticmethod" in decs
        self.is_classmethod = "classmethod" in decs
        self.is_property = "property" in decs or "functools.cached_property" in decs or "cached_property" in decs
        self.is_ctx = any(d and d.split(".")[-1] == "contextmanager" for d in decs)
        a = node.args
        self.posargs = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = {}
        for n, d in zip(self.posargs[len(self.posargs) - len(a.defaults):], a.defaults):
            self.defaults[n] = d
        for n, d in zip(self.kwonly, a.kw_defaults):
            if d is not None:
                self.defaults[n] = d
        self.ann = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs if x.annotation}
        self.body = [ast.copy_location(ast.Return(value=node.body), node.body)] if self.is_lambda else node.body
        self.locals = None
        self.is_gen = (not self.is_lambda) and _has_yield(node)

    @property
    def params(self):
        out = self.posargs + self.kwonly
        if self.vararg:
            out = out + [self.vararg]
        if self.kwarg:
            out = out + [self.kwarg]
        return out

    @property
    def lineno(self):
        return self.node.lineno

    @property
    def where(self):
        return f"{self.module.rel}:{self.lineno} {self.qual}"

    def __repr__(self):
        return f"<F {self.full}>"


def walk_own(node):
    """ast.walk that does not enter nested functions / classes / lambdas (but yields them)."""
    todo = list(ast.iter_child_nodes(node)) if not isinstance(node, list) else list(node)
    while todo:
        n = todo.pop(0)
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            # decorators / defaults are evaluated in the enclosing scope
            if not isinstance(n, ast.ClassDef):
                todo.extend(n.args.defaults)
                todo.extend(d for d in n.args.kw_defaults if d is not None)
            continue
        todo.extend(ast.iter_child_nodes(n))


def _has_yield(node):
    for st in node.body:
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        for n in [st] + list(walk_own(st)):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
    return False


def dotted(e):
    """a.b.c -> 'a.b.c' (syntactic), else None"""
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        d = dotted(e.value)
        return d + "." + e.attr if d else None
    return None


class Desugar(ast.NodeTransformer):
    """map(f, xs) and filter(f, xs) are read as the generator expressions they stand for"""

    def __init__(self, tree):
        self.n = 0
        self.bound = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {n.name for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}

    def visit_Call(self, e):
        self.generic_visit(e)
        if not isinstance(e.func, ast.Name) or e.func.id not in ("map", "filter") or e.func.id in self.bound or len(e.args) != 2 or e.keywords or any(isinstance(a, ast.Starred) for a in e.args):
            return e
        self.n += 1
        v = f"_e{self.n}_"
        f, xs = e.args
        if isinstance(f, ast.Lambda) and len(f.args.args) == 1 and not (f.args.defaults or f.args.vararg or f.args.kwarg or f.args.kwonlyargs or f.args.posonlyargs):
            v, app = f.args.args[0].arg, f.body
        elif isinstance(f, ast.Constant) and f.value is None:
            app = ast.Name(id=v, ctx=ast.Load())
        elif isinstance(f, (ast.Name, ast.Attribute)):
            app = ast.Call(func=f, args=[ast.Name(id=v, ctx=ast.Load())], keywords=[])
        else:
            return e
        tgt = ast.Name(id=v, ctx=ast.Store())
        if e.func.id == "map":
            g = ast.GeneratorExp(elt=app, generators=[ast.comprehension(target=tgt, iter=xs, ifs=[], is_async=0)])
        else:
            g = ast.GeneratorExp(elt=ast.Name(id=v, ctx=ast.Load()), generators=[ast.comprehension(target=tgt, iter=xs, ifs=[app], is_async=0)])
        for n in ast.walk(g):
            if not hasattr(n, "lineno"):
                ast.copy_location(n, e)
        ast.copy_location(g, e)
        return g


def is_main_guard(st):
    if not (isinstance(st, ast.If) and isinstance(st.test, ast.Compare)):
        return False
    names = [n.id for n in ast.walk(st.test) if isinstance(n, ast.Name)]
    consts = [n.value for n in ast.walk(st.test) if isinstance(n, ast.Constant)]
    return "__name__" in names and "__main__" in consts


class Program:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        self.classes = {}  # full -> Class
        self.funcs = {}  # full -> Func
        self.by_node = {}  # id(node) -> Func/Class
        self.scripts = []
        self._load()
        self._index()
        self._link()

    # ---- loading
    def _load(self):
        pk = os.path.join(self.root, PKG)
        if not os.path.isdir(pk):
            raise AnalysisBroken(f"package directory {pk} not found")
        for dp, dn, fn in os.walk(pk):
            dn.sort()
            dn[:] = [d for d in dn if d != "__pycache__"]
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, self.root)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                name = ".".join(parts[:-1] if is_pkg else parts)
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                try:
                    tree = ast.parse(src)
                except SyntaxError as e:
                    raise AnalysisBroken(f"{rel} does not parse: {e}")
                tree.body = [s for s in tree.body if not is_main_guard(s)]
                tree = Desugar(tree).visit(tree)
                m = Module(name, p, src, tree, is_pkg)
                m.rel = rel
                self.modules[name] = m

    def _index(self):
        for m in self.modules.values():
            self._index_body(m, m.tree.body, None, None)
            for st in walk_own(m.tree):
                if isinstance(st, (ast.Import, ast.ImportFrom)):
                    self._import(m, st, m.imports)
            for n in ast.walk(m.tree):
                for c in ast.iter_child_nodes(n):
                    c._parent = n
                n._module = m

    def _import(self, m, st, table):
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    table[a.asname] = ("mod", a.name)
                else:
                    table[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
        else:
            base = st.module or ""
            if st.level:
                parts = m.name.split(".")
                if not m.is_pkg:
                    parts = parts[:-1]
                parts = parts[: len(parts) - (st.level - 1)]
                base = ".".join(parts + ([st.module] if st.module else []))
            for a in st.names:
                if a.name == "*":
                    table.setdefault("*", []).append(base) if isinstance(table.get("*"), list) else table.__setitem__("*", [base])
                else:
                    table[a.asname or a.name] = ("from", base, a.name)

    def _index_body(self, m, body, cls, parent):
        for st in body:
            self._index_stmt(m, st, cls, parent)

    def _index_stmt(self, m, st, cls, parent):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = Func(st.name, m, st, cls, parent)
            self.by_node[id(st)] = f
            self.funcs.setdefault(f.full, f)
            if parent is None:
                if cls is not None:
                    cls.methods[st.name] = f
                else:
                    m.defs[st.name] = f
            for d in st.args.defaults + [x for x in st.args.kw_defaults if x is not None]:
                self._index_expr(m, d, None, parent)
            self._index_body(m, st.body, None, f)
        elif isinstance(st, ast.ClassDef):
            c = Class(st.name, m, st, cls.qual if cls else (parent.qual if parent else None))
            self.by_node[id(st)] = c
            self.classes[c.full] = c
            if cls is None and parent is None:
                m.defs[st.name] = c
            elif cls is not None:
                cls.attrs[st.name] = st
            self._index_body(m, st.body, c, None)
        else:
            if cls is not None and parent is None:
                if isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            cls.attrs[t.id] = st.value
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    cls.ann[st.target.id] = st.annotation
                    if st.value is not None:
                        cls.attrs[st.target.id] = st.value
            elif cls is None and parent is None:
                if isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            m.gassign.setdefault(t.id, []).append(st.value)
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                    m.gassign.setdefault(st.target.id, []).append(st.value)
            for ch in ast.iter_child_nodes(st):
                if isinstance(ch, ast.stmt):
                    self._index_stmt(m, ch, cls, parent)
                elif isinstance(ch, ast.expr):
                    self._index_expr(m, ch, cls, parent)
                else:
                    for g in ast.iter_child_nodes(ch):
                        if isinstance(g, ast.stmt):
                            self._index_stmt(m, g, cls, parent)
                        else:
                            self._index_expr(m, g, cls, parent)

    def _index_expr(self, m, e, cls, parent):
        for n in [e] + list(walk_own(e)):
            if isinstance(n, ast.Lambda):
                f = Func(f"<lambda:{n.lineno}:{n.col_offset}>", m, n, None, parent)
                f.lambda_cls = cls
                self.by_node[id(n)] = f
                self.funcs.setdefault(f.full, f)
                self._index_expr(m, n.body, None, f)

    def _link(self):
        for c in self.classes.values():
            for b in c.base_exprs:
                if isinstance(b, ast.Subscript):
                    b = b.value
                r = self.resolve_dotted(c.module, b)
                if isinstance(r, Class):
                    c.bases.append(r)
                elif isinstance(r, str):
                    c.bases.append(r)
        self.subclasses = {}
        for c in self.classes.values():
            for b in c.mro()[1:]:
                if isinstance(b, Class):
                    self.subclasses.setdefault(b, []).append(c)
        for f in [x for x in self.by_node.values() if isinstance(x, Func)]:
            f.locals = self._locals(f)
            f.limports = {}
            for st in f.body:
                for n in [st] + list(walk_own(st)):
                    if isinstance(n, (ast.Import, ast.ImportFrom)):
                        self._import(f.module, n, f.limports)

    def _locals(self, f):
        names, gl, nl = set(f.params), set(), set()
        for st in f.body:
            for n in [st] + list(walk_own(st)):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    names.add(n.name)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    names.add(n.name)
                elif isinstance(n, ast.Global):
                    gl.update(n.names)
                elif isinstance(n, ast.Nonlocal):
                    nl.update(n.names)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names:
                        names.add(a.asname or a.name.split(".")[0])
        f.globals_decl = gl
        return names - gl - nl

    # ---- resolution
    def resolve_global(self, modname, name, seen=()):
        """-> Func | Class | ('global', Module, name) | Module | 'ext.dotted' | None"""
        if (modname, name) in seen:
            return None
        seen = seen + ((modname, name),)
        m = self.modules.get(modname)
        if m is None:
            return modname + "." + name
        if name in m.defs:
            return m.defs[name]
        if name in m.gassign:
            return ("global", m, name)
        if name in m.imports:
            return self._res_import(m.imports[name], seen)
        if modname + "." + name in self.modules:
            return self.modules[modname + "." + name]
        for b in m.imports.get("*", []) if isinstance(m.imports.get("*"), list) else []:
            if b in self.modules:
                r = self.resolve_global(b, name, seen)
                if r is not None:
                    return r
        return None

    def _res_import(self, imp, seen=()):
        if imp[0] == "mod":
            return self.modules.get(imp[1], imp[1])
        _, base, attr = imp
        if base in self.modules:
            r = self.resolve_global(base, attr, seen)
            if r is not None:
                return r
            return self.modules.get(base + "." + attr)
        return base + "." + attr

    def resolve_dotted(self, m, e):
        """Resolve a Name/Attribute chain of module-level names."""
        if isinstance(e, ast.Name):
            r = self.resolve_global(m.name, e.id)
            if r is None:
                return e.id  # builtin
            return r
        if isinstance(e, ast.Attribute):
            r = self.resolve_dotted(m, e.value)
            if isinstance(r, Module):
                x = self.resolve_global(r.name, e.attr)
                return x
            if isinstance(r, str):
                return r + "." + e.attr
            if isinstance(r, Class):
                return ("classattr", r, e.attr)
        return None

    # ---- anchors
    def need_class(self, name):
        cs = [c for c in self.classes.values() if c.name == name]
        if len(cs) != 1:
            raise AnalysisBroken(f"anchor class {name} not found (or ambiguous): {cs}")
        return cs[0]

    def need_method(self, cls, name):
        c = self.need_class(cls) if isinstance(cls, str) else cls
        f = c.find_method(name)
        if f is None:
            raise AnalysisBroken(f"anchor method {c.name}.{name} not found")
        return f


def enclosing_func(prog, node):
    n = node
    while n is not None:
        f = prog.by_node.get(id(n))
        if isinstance(f, Func):
            return f
        n = getattr(n, "_parent", None)
    return None


def src_of(node, limit=100):
    try:
        s = ast.unparse(node)
    except Exception:
        s = type(node).__name__
    s = " ".join(s.split())
    return s if len(s) <= limit else s[: limit - 3] + "..."


def loc(node):
    m = getattr(node, "_module", None)
    return f"{m.rel if m else '?'}:{getattr(node, 'lineno', 0)}"
