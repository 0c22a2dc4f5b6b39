"""The output models (classes deriving from pydantic's BaseModel) as the source declares them: fields, annotations, defaults,
and which values a declared field can take."""
import ast
from .core import *


def is_model(c):
    return any("BaseModel" in str(b) for b in c.ext_bases())


class Models:
    def __init__(self, prog):
        self.prog = prog
        self.classes = {c.name: c for c in prog.classes.values() if is_model(c)}
        if not self.classes:
            raise AnalysisBroken("no output model class (pydantic BaseModel) was found")
        self.cache = {}

    def fields(self, c):
        """name -> (annotation node, module, has default)"""
        if c in self.cache:
            return self.cache[c]
        out = {}
        for k in reversed([k for k in c.mro() if isinstance(k, Class)]):
            for st in k.node.body:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    if "ClassVar" in ast.dump(st.annotation):
                        continue
                    d = st.value
                    has = d is not None and not (isinstance(d, ast.Constant) and d.value is Ellipsis)
                    if isinstance(d, ast.Call) and getattr(d.func, "id", getattr(d.func, "attr", "")) == "Field":
                        has = any(kw.arg in ("default", "default_factory") for kw in d.keywords) or bool(d.args and not (isinstance(d.args[0], ast.Constant) and d.args[0].value is Ellipsis))
                    out[st.target.id] = (st.annotation, k.module, has, d)
                elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id in out:
                    a = out[st.targets[0].id]
                    out[st.targets[0].id] = (a[0], a[1], True, st.value)
        self.cache[c] = out
        return out

    def typ(self, a, mod, depth=0):
        """annotation -> ('str'|'int'|'bool'|'none'|'any'|'float') | ('list', T) | ('dict', K, V) | ('union', Ts) | ('model', Class) | ('enum', Class) | None"""
        if depth > 12:
            return None
        if isinstance(a, ast.Constant):
            if a.value is None:
                return ("none",)
            if isinstance(a.value, str):
                try:
                    return self.typ(ast.parse(a.value, mode="eval").body, mod, depth + 1)
                except SyntaxError:
                    return None
            return None
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            return ("union", (self.typ(a.left, mod, depth + 1), self.typ(a.right, mod, depth + 1)))
        if isinstance(a, ast.Subscript):
            h = a.value.attr if isinstance(a.value, ast.Attribute) else getattr(a.value, "id", None)
            el = list(a.slice.elts) if isinstance(a.slice, ast.Tuple) else [a.slice]
            ts = tuple(self.typ(x, mod, depth + 1) for x in el)
            if h == "Optional":
                return ("union", ts + (("none",),))
            if h == "Union":
                return ("union", ts)
            if h in ("List", "list", "Sequence", "Iterable"):
                return ("list", ts[0])
            if h in ("Dict", "dict", "Mapping") and len(ts) == 2:
                return ("dict", ts[0], ts[1])
            if h in ("Final", "Annotated"):
                return ts[0]
            return None
        if isinstance(a, (ast.Name, ast.Attribute)):
            nm = a.attr if isinstance(a, ast.Attribute) else a.id
            if nm in ("str", "int", "bool", "float"):
                return (nm,)
            if nm == "Any":
                return ("any",)
            if nm in ("list", "List"):
                return ("list", ("any",))
            if nm in ("dict", "Dict"):
                return ("dict", ("any",), ("any",))
            if nm in self.classes:
                return ("model", self.classes[nm])
            r = self.prog.resolve_dotted(mod, a)
            if isinstance(r, Class):
                if any("Enum" in str(b) for b in r.ext_bases()):
                    return ("enum", r)
                return None
            # alias: NAME = Union[...]
            v = self.alias(nm, mod)
            if v is not None:
                return self.typ(v[0], v[1], depth + 1)
        return None

    def alias(self, nm, mod):
        for m in [mod] + list(self.prog.modules.values()):
            for st in m.tree.body:
                if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == nm for t in st.targets):
                    return st.value, m
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id == nm and st.value is not None:
                    return st.value, m
        return None

    def accepts(self, t, x, enums=None):
        """True / False / None (not known) for one shape (see tokshape.freeze)"""
        k = x[0]
        if t is None or k == "top" or t == ("any",):
            return None if t != ("any",) else True
        if t[0] == "union":
            rs = [self.accepts(y, x, enums) for y in t[1]]
            return True if True in rs else None if None in rs else False
        if t[0] == "none":
            return k == "none"
        if t[0] == "str":
            return k == "str"
        if t[0] in ("int", "float"):
            if k == "str":
                # pydantic turns numeric text into a number, but a text that is not known to be numeric need not be one
                return x[1] is not None and x[1].strip().lstrip("+-").isdigit()
            return k in ("int", "bool")
        if t[0] == "bool":
            if k == "str":
                return None
            return True if k == "bool" else None if k == "int" else False
        if t[0] == "enum":
            if k == "str":
                return None if x[1] is None or enums is None else x[1] in enums(t[1])
            return False
        if t[0] == "model":
            if k in ("tok", "model"):
                return True
            if k in ("dict", "map"):
                return None
            return False
        if t[0] == "list":
            if k == "list":
                rs = [self.accepts(t[1], y, enums) for y in x[1]]
                return False if False in rs else None if None in rs else True
            return False
        if t[0] == "dict":
            return None if k in ("dict", "map", "tok") else False
        return None


def type_map(prog, models, fold=None):
    """the literal dictionary from token types to model classes -> {type value: Class}, the enum class"""
    best = None
    for m in prog.modules.values():
        for st in ast.walk(m.tree):
            if isinstance(st, ast.Dict) and len(st.keys) >= 8:
                out, en = {}, None
                for kk, vv in zip(st.keys, st.values):
                    if isinstance(kk, ast.Attribute) and isinstance(vv, (ast.Name, ast.Attribute)):
                        e = prog.resolve_dotted(m, kk.value)
                        c = models.classes.get(vv.attr if isinstance(vv, ast.Attribute) else vv.id)
                        if isinstance(e, Class) and c:
                            en = e
                            out[kk.attr] = c
                if out and (best is None or len(out) > len(best[0])):
                    best = (out, en, m)
    if best is None:
        raise AnalysisBroken("the map from token types to output models was not found")
    out, en, m = best
    vals = {}
    for k, v in en.attrs.items():
        v = v[-1] if isinstance(v, list) else v
        v = getattr(v, "value", v) if isinstance(v, (ast.Assign, ast.AnnAssign)) else v
        if isinstance(v, ast.Constant) and isinstance(v.value, str):
            vals[k] = v.value
    return {vals[k]: c for k, c in out.items() if k in vals}, en, set(vals.values())
