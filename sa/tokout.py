"""What the output stage does with each token shape the parser can produce: TokenBuilder.build is interpreted on a list holding one
such token, down to the construction of the output model."""
import ast
from .core import *
from .model import Models, type_map, is_model
from .tokshape import freeze, thaw, targets
from . import ai as A

LABELS = ("list", frozenset({("str", None)}), 1, None)


class Out(A.Client):
    def __init__(self, prog, p):
        self.prog, self.p = prog, p
        self.models = Models(prog)
        self.typemap, self.enum, self.types = type_map(prog, self.models)
        self.builder = prog.need_class("TokenBuilder")
        self.factory = prog.need_class("TokenFactory")
        self.build = prog.need_method(self.builder, "build")
        self.create = prog.need_method(self.factory, "create")
        self.custom = set()
        reg = self.factory.find_method("register_custom_type")
        for m in prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and reg and n.func.attr == reg.name:
                    a = n.args[0] if n.args else next((k.value for k in n.keywords if k.arg == reg.posargs[1]), None)
                    if isinstance(a, ast.Constant) and isinstance(a.value, str):
                        self.custom.add(a.value)
        self.made = []          # (Class, {field: (shapes, must)}, node, func)
        self.ai = A.AI(p, self)

    def call(self, e, fr, st, ts, recv, args, kw, ai):
        if ts and all(t[0] is self.create for t in ts):
            a = args[0] if args else kw.get(self.create.posargs[1], A.TOP)
            known = a and all(x[0] == "tok" or x[0] == "ref" and (st.heap.get(x) or ("",))[0] == "dict" for x in a)
            if self.create in ai.stack and not known:
                return [(st, A.TOP)]
            if known and (self.create in ai.stack or all(x[0] == "tok" for x in a)):
                return [(st, frozenset({("pat", "<model>", 0)})), (st, A.VNONE)]
        if ts and all(t[0] in ai.stack for t in ts):
            # a pass over a nested token list: gives back a list of tokens like the one it was given (checked at the top level)
            conv = self.create in ai.stack
            for a in args:
                if a and all(x[0] in ("ref", "tok", "top") for x in a):
                    return [self.converted(a, st, id(e), 0)] if conv else [(st, a)]
            return [(st, A.TOP)]
        fn = e.func
        if isinstance(fn, ast.Attribute) and fn.attr in ("model_validate", "model_construct", "parse_obj"):
            objs = [o for o in self.p.get(("E", id(fn.value), fr.ctx)) if o.kind == "class" and is_model(o.key[0])]
            if objs and args:
                for a in args[0]:
                    c = st.heap.get(a) if a[0] == "ref" else None
                    if c and c[0] == "dict":
                        d = dict(c[1])
                        ty = d.get("type", (A.TOP, False))[0]
                        for t in ty:
                            v = t[1] if t[0] == "str" else t[3] if t[0] == "enum" else None
                            cls = self.typemap.get(v)
                            if len(objs) == 1:
                                cls = objs[0].key[0]
                            if cls:
                                self.made.append((cls, {k: (freeze2(v, st), m) for k, (v, m) in d.items()}, e, fr.func))
                return [(st, frozenset({("pat", "<model>", 0)}))]
            if objs:
                return [(st, A.TOP)]
        objs = [o for o in self.p.get(("E", id(fn), fr.ctx)) if o.kind == "class" and is_model(o.key[0])]
        if objs and not any(k.arg is None for k in e.keywords) and not e.args:
            classes = {o.key[0] for o in objs}
            if isinstance(fn, ast.Name) and fr.func.is_classmethod and fr.func.cls and fn.id == fr.func.posargs[0]:
                classes = {fr.func.cls}
            if len(classes) == 1:
                self.made.append((classes.pop(), {k: (freeze2(v, st), True) for k, v in kw.items()}, e, fr.func))
            return [(st, frozenset({("pat", "<model>", 0)}))]
        if objs and any(k.arg is None for k in e.keywords):
            # cls(**data)
            star = next(k.value for k in e.keywords if k.arg is None)
            v = ai.quiet(star, st, fr)
            classes = {o.key[0] for o in objs}
            if isinstance(fn, ast.Name) and fr.func.is_classmethod and fr.func.cls and fn.id == fr.func.posargs[0]:
                classes = {fr.func.cls}
            for a in v or ():
                c = st.heap.get(a) if a[0] == "ref" else None
                if c and c[0] == "dict" and len(classes) == 1:
                    d = {k: (freeze2(x, st), m) for k, (x, m) in dict(c[1]).items()}
                    d.update({k: (freeze2(x, st), True) for k, x in kw.items() if k})
                    self.made.append((next(iter(classes)), d, e, fr.func))
            return [(st, frozenset({("pat", "<model>", 0)}))]

    def converted(self, v, st, site, d):
        """what a conversion step gives back for a nested list: the same list with models for tokens (induction over the nesting)"""
        out = set()
        for a in v:
            c = st.heap.get(a) if a[0] == "ref" else None
            if a[0] == "tok" or c and c[0] == "dict" and any(k == "type" for k, _ in c[1]):
                out.add(("pat", "<model>", 0))
            elif c and c[0] == "list" and d < 5:
                st, w = self.converted(c[1], st, site, d + 1)
                st, r = A.alloc(st, (site, "conv", d), ("list", w, c[2], c[3]))
                out.add(r)
            else:
                out.add(a)
        return st, frozenset(out)

    def run(self, shape, second=None):
        self.made = []
        self.ai.memo.clear()
        st, v = thaw([shape], A.S())
        if second is None:
            st, l = A.alloc(st, ("in",), ("list", v, 1, 1))
        else:
            st, w = thaw([second], st)
            l = ("tup", (v, w))
        f = self.build
        self.ai.run(f, self.p.builder, {f.posargs[0]: frozenset({("inst", self.p.builder)}), f.posargs[1]: frozenset({l})}, st)
        out, seen = [], set()
        for c, d, e, fu in self.made:
            k = (c, tuple(sorted((x, y) for x, y in d.items())) if False else str(sorted(d.items(), key=lambda t: t[0])), id(e))
            if k not in seen:
                seen.add(k)
                out.append((c, d, e, fu))
        return out

    def members(self, cls):
        out = set()
        for v in cls.attrs.values():
            v = v[-1] if isinstance(v, list) and v else v
            v = getattr(v, "value", None) if not isinstance(v, ast.Constant) else v.value
            if isinstance(v, ast.Constant):
                v = v.value
            if isinstance(v, str):
                out.add(v)
        return out or None


def freeze2(v, st):
    """like freeze; an output model already made is a ('model',)"""
    def fix(x):
        if x[0] == "list":
            return ("list", frozenset(fix(y) for y in x[1]), x[2], x[3])
        return x
    mods = frozenset(a for a in v if a[0] == "pat" and a[1] == "<model>")
    out = set(freezem(v, st, 0))
    return frozenset(out)


def freezem(v, st, d):
    out = set()
    for a in v:
        if a[0] == "pat" and a[1] == "<model>":
            out.add(("model",))
            continue
        c = st.heap.get(a) if a[0] == "ref" else None
        if c and c[0] == "list" and d < 5:
            out.add(("list", frozenset(freezem(c[1], st, d + 1)), c[2], c[3]))
            continue
        out |= freeze(frozenset({a}), st, d)
    return out


def variants(shape):
    """one shape per token type; what is inside a mapping is not looked at"""
    if shape[0] != "dict":
        return []
    d = {k: (v, m) for k, v, m in shape[1]}
    ts = d.get("type")
    out = []
    for t in sorted(ts[0], key=str) if ts else []:
        if t[0] == "str" and t[1] is not None:
            dd = dict(d)
            dd["type"] = (frozenset({t}), True)
            out.append((t[1], len(ts[0]), ("dict", tuple(sorted(((k, frozenset(blur(x) for x in v), m) for k, (v, m) in dd.items()), key=lambda z: z[0])), shape[2])))
    return out


def blur(x):
    if x[0] == "map":
        return ("map", frozenset({("list", frozenset({("tok",)}), 0, None)}), ())
    return x


def shape_text(x, d=0):
    k = x[0]
    if k == "str":
        return repr(x[1]) if x[1] is not None else "a string"
    if k == "list":
        return "[" + " | ".join(sorted({shape_text(y, d + 1) for y in x[1]})) + "]"
    if k == "dict":
        t = next((v for kk, v, m in x[1] if kk == "type"), ())
        return "{type: " + " | ".join(sorted(shape_text(y) for y in t)) + ", ...}"
    return {"tok": "a parser token", "model": "an output token", "none": "None", "top": "?"}.get(k, k)
