"""Constant folding of the tables and patterns a program builds when it is loaded (strings, lists, dictionaries, compiled patterns).
Unknown pieces inside strings are holes; anything the folder does not model is UNK."""
import ast
import re as _re
from .core import *

HOLE = "\ue000"


class _U:
    def __repr__(self):
        return "UNK"


UNK = _U()


class Pat:
    __slots__ = ("pattern", "flags", "node")

    def __init__(self, pattern, flags, node):
        self.pattern, self.flags, self.node = pattern, flags, node

    def __repr__(self):
        return f"Pat({self.pattern!r},{self.flags})"


class Unsup(Exception):
    pass


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cnt(Exception):
    pass


RE_FLAGS = {"DOTALL": 16, "S": 16, "IGNORECASE": 2, "I": 2, "MULTILINE": 8, "M": 8, "VERBOSE": 64, "X": 64, "UNICODE": 32, "U": 32, "ASCII": 256, "A": 256, "NOFLAG": 0, "LOCALE": 4}
RE_FNS = {"compile", "match", "search", "fullmatch", "sub", "subn", "split", "findall", "finditer"}
MUTATORS = {"update", "append", "extend", "add", "insert", "setdefault", "pop", "remove", "discard", "clear", "reverse", "sort"}


def known(v):
    if v is UNK:
        return False
    if isinstance(v, (list, tuple, set, frozenset)):
        return all(known(x) for x in v)
    if isinstance(v, dict):
        return all(known(k) and known(x) for k, x in v.items())
    return True


class Env:
    def __init__(self, module, names=None, outer=None, cls=None, func=None):
        self.module, self.names, self.outer, self.cls, self.func = module, names if names is not None else {}, outer, cls, func


class OSet(set):
    """a set whose iteration order is fixed: ascending, or descending when built under rev"""

    def __init__(self, xs=(), rev=False):
        super().__init__(xs)
        self.rev = rev

    def __iter__(self):
        return iter(sorted(set.__iter__(self), key=repr, reverse=self.rev))

    def _w(self, r):
        return OSet(r, self.rev)

    def __or__(self, o):
        return self._w(set.__or__(self, o))

    def __and__(self, o):
        return self._w(set.__and__(self, o))

    def __sub__(self, o):
        return self._w(set.__sub__(self, o))

    def __xor__(self, o):
        return self._w(set.__xor__(self, o))

    def union(self, *o):
        return self._w(set.union(self, *o))

    def intersection(self, *o):
        return self._w(set.intersection(self, *o))

    def difference(self, *o):
        return self._w(set.difference(self, *o))

    def symmetric_difference(self, o):
        return self._w(set.symmetric_difference(self, o))

    def copy(self):
        return self._w(self)


class Fold:
    STEPS = 200000

    def __init__(self, prog, rev=False):
        self.prog = prog
        self.rev = rev
        self._mods = {}
        self._classes = {}
        self._busy = set()
        self.steps = 0
        self.depth = 0

    # ---- name resolution
    def module(self, m):
        if m.name in self._mods:
            return self._mods[m.name]
        env = Env(m)
        self._mods[m.name] = env
        self.body(m.tree.body, env)
        return env

    def cls(self, c):
        if c.full in self._classes:
            return self._classes[c.full]
        env = Env(c.module, cls=c)
        self._classes[c.full] = env
        self.body([s for s in c.node.body if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef))], env)
        return env

    def global_(self, m, name):
        r = self.prog.resolve_global(m.name, name)
        return self.resolved(r, name)

    def resolved(self, r, name=None):
        if isinstance(r, tuple) and r and r[0] == "global":
            env = self.module(r[1])
            return env.names.get(r[2], UNK)
        if isinstance(r, tuple) and r and r[0] == "classattr":
            return self.class_attr(r[1], r[2])
        if isinstance(r, (Func, Class, Module)):
            return r
        if isinstance(r, str):
            return ("ext", r)
        if r is None and name:
            return ("ext", name)
        return UNK

    def class_attr(self, c, attr):
        for k in c.mro():
            if isinstance(k, Class):
                e = self.cls(k)
                if attr in e.names:
                    return e.names[attr]
                if attr in k.methods:
                    return k.methods[attr]
        return UNK

    def name(self, n, env):
        e = env
        while e is not None:
            if n in e.names:
                return e.names[n]
            if e.func is not None and n in (e.func.locals or ()):
                if n in e.func.limports:
                    return self.resolved(self.prog._res_import(e.func.limports[n]))
                return UNK
            e = e.outer
        if env.cls is None and env.func is None and env.module.name in self._mods and self._mods[env.module.name] is env:
            # still interpreting the module top to bottom
            if n in env.module.gassign and n not in env.module.imports:
                return UNK
        return self.global_(env.module, n)

    # ---- statements
    def body(self, stmts, env, strict=False):
        for s in stmts:
            try:
                self.stmt(s, env)
            except (_Ret, _Brk, _Cnt):
                raise
            except Unsup:
                if strict:
                    raise
                self.taint(s, env)
            except RecursionError:
                if strict:
                    raise Unsup("recursion")
                self.taint(s, env)
            except Exception as ex:      # a value error inside the folded program
                if strict:
                    raise Unsup(str(ex))
                self.taint(s, env)

    def taint(self, s, env):
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                env.names[n.id] = UNK
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and isinstance(n.func.value, ast.Name):
                env.names[n.func.value.id] = UNK
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                env.names[n.value.id] = UNK

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.names[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if v is UNK:
                for x in t.elts:
                    self.assign(x, UNK, env)
            else:
                vs = list(v)
                if len(vs) != len(t.elts) or any(isinstance(x, ast.Starred) for x in t.elts):
                    raise Unsup("unpack")
                for x, y in zip(t.elts, vs):
                    self.assign(x, y, env)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, env)
            k = self.expr(t.slice, env)
            if isinstance(o, (dict, list)) and known(k):
                o[k] = v
            elif o is not UNK:
                raise Unsup("store")
        else:
            pass

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > self.STEPS:
            raise Unsup("steps")
        if isinstance(s, ast.Assign):
            v = self.expr(s.value, env)
            for t in s.targets:
                self.assign(t, v, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.expr(s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            if not isinstance(s.target, ast.Name):
                raise Unsup("aug")
            cur = self.name(s.target.id, env)
            v = self.expr(s.value, env)
            if isinstance(cur, list) and isinstance(s.op, ast.Add) and v is not UNK:
                cur.extend(v)
            elif isinstance(cur, (set, dict)) and isinstance(s.op, ast.BitOr) and v is not UNK:
                cur.update(v)
            else:
                env.names[s.target.id] = self.binop(s.op, cur, v)
        elif isinstance(s, ast.Expr):
            self.expr(s.value, env)
        elif isinstance(s, ast.For):
            it = self.expr(s.iter, env)
            if it is UNK or isinstance(it, tuple) and it and it[0] == "ext":
                raise Unsup("for")
            broke = False
            for v in list(it):
                self.steps += 1
                if self.steps > self.STEPS:
                    raise Unsup("steps")
                self.assign(s.target, v, env)
                try:
                    self.body(s.body, env, strict=True)
                except _Brk:
                    broke = True
                    break
                except _Cnt:
                    continue
            if not broke:
                self.body(s.orelse, env, strict=True)
        elif isinstance(s, ast.If):
            v = self.expr(s.test, env)
            if v is UNK:
                raise Unsup("if")
            self.body(s.body if v else s.orelse, env, strict=True)
        elif isinstance(s, ast.Return):
            raise _Ret(self.expr(s.value, env) if s.value else None)
        elif isinstance(s, ast.Break):
            raise _Brk()
        elif isinstance(s, ast.Continue):
            raise _Cnt()
        elif isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Assert)):
            if isinstance(s, ast.Global):
                raise Unsup("global")
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            env.names[s.name] = self.prog.by_node.get(id(s), UNK)
        else:
            raise Unsup(type(s).__name__)

    # ---- expressions
    def binop(self, op, a, b):
        if isinstance(a, str) and b is UNK or isinstance(b, str) and a is UNK:
            if isinstance(op, ast.Add):
                return (a if isinstance(a, str) else HOLE) + (b if isinstance(b, str) else HOLE)
            if isinstance(op, ast.Mod) and isinstance(a, str):
                return _re.sub(r"%[sdr]", HOLE, a).replace("%%", "%")
        if a is UNK or b is UNK:
            return UNK
        if isinstance(a, Pat) or isinstance(b, Pat):
            return UNK
        if isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Mod):
            if isinstance(a, str):
                t = b if isinstance(b, tuple) else (b,)
                return a % tuple(HOLE if x is UNK else x for x in t)
            return a % b
        if isinstance(op, ast.Mult):
            if isinstance(a, int) and isinstance(b, int) or isinstance(a, (str, list, tuple)) and isinstance(b, int) and b < 1000:
                return a * b
            return UNK
        if isinstance(op, ast.BitOr):
            return a | b
        if isinstance(op, ast.BitAnd):
            return a & b
        if isinstance(op, ast.Sub):
            return a - b
        return UNK

    def tostr(self, v):
        return HOLE if v is UNK or isinstance(v, (Pat, Func, Class)) or isinstance(v, tuple) and v and v[0] == "ext" else str(v)

    def expr(self, e, env):
        self.steps += 1
        if self.steps > self.STEPS:
            raise Unsup("steps")
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            return self.name(e.id, env)
        if isinstance(e, ast.JoinedStr):
            out = ""
            for p in e.values:
                if isinstance(p, ast.Constant):
                    out += p.value
                else:
                    out += self.tostr(self.expr(p.value, env)) if p.format_spec is None and p.conversion == -1 else HOLE
            return out
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    v = self.expr(x.value, env)
                    if v is UNK or isinstance(v, tuple) and v and v[0] == "ext":
                        return UNK
                    out.extend(v)
                else:
                    out.append(self.expr(x, env))
            return out if isinstance(e, ast.List) else tuple(out) if isinstance(e, ast.Tuple) else self.mkset(out)
        if isinstance(e, ast.Dict):
            d = {}
            for k, v in zip(e.keys, e.values):
                if k is None:
                    o = self.expr(v, env)
                    if not isinstance(o, dict):
                        return UNK
                    d.update(o)
                else:
                    kk = self.expr(k, env)
                    if not known(kk):
                        return UNK
                    d[kk] = self.expr(v, env)
            return d
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            return self.comp(e, env)
        if isinstance(e, ast.BinOp):
            return self.binop(e.op, self.expr(e.left, env), self.expr(e.right, env))
        if isinstance(e, ast.UnaryOp):
            v = self.expr(e.operand, env)
            if v is UNK:
                return UNK
            return (not v) if isinstance(e.op, ast.Not) else -v if isinstance(e.op, ast.USub) else UNK
        if isinstance(e, ast.BoolOp):
            v = UNK
            for x in e.values:
                v = self.expr(x, env)
                if v is UNK:
                    return UNK
                if bool(v) != isinstance(e.op, ast.And):
                    return v
            return v
        if isinstance(e, ast.IfExp):
            t = self.expr(e.test, env)
            if t is UNK:
                return UNK
            return self.expr(e.body if t else e.orelse, env)
        if isinstance(e, ast.Compare):
            l = self.expr(e.left, env)
            for op, r in zip(e.ops, e.comparators):
                r = self.expr(r, env)
                if not known(l) or not known(r):
                    return UNK
                ok = {ast.Eq: lambda: l == r, ast.NotEq: lambda: l != r, ast.In: lambda: l in r, ast.NotIn: lambda: l not in r, ast.Is: lambda: l is r, ast.IsNot: lambda: l is not r,
                      ast.Lt: lambda: l < r, ast.LtE: lambda: l <= r, ast.Gt: lambda: l > r, ast.GtE: lambda: l >= r}[type(op)]()
                if not ok:
                    return False
                l = r
            return True
        if isinstance(e, ast.Subscript):
            o = self.expr(e.value, env)
            if isinstance(e.slice, ast.Slice):
                b = [self.expr(x, env) if x is not None else None for x in (e.slice.lower, e.slice.upper, e.slice.step)]
                if o is UNK or any(x is UNK for x in b) or not isinstance(o, (str, list, tuple)):
                    return UNK
                return o[slice(*b)]
            k = self.expr(e.slice, env)
            if o is UNK or k is UNK or not isinstance(o, (str, list, tuple, dict)) or isinstance(o, tuple) and o and o[0] == "ext":
                return UNK
            if isinstance(o, dict) and k not in o:
                return UNK
            return o[k]
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id in ("self", "cls") and env.func is not None:
                c = env.func.cls
                return self.class_attr(c, e.attr) if c is not None else UNK
            o = self.expr(e.value, env)
            if isinstance(o, Pat):
                return {"pattern": o.pattern, "flags": o.flags}.get(e.attr, UNK)
            if isinstance(o, Module):
                return self.resolved(self.prog.resolve_global(o.name, e.attr), e.attr)
            if isinstance(o, Class):
                return self.class_attr(o, e.attr)
            if isinstance(o, tuple) and o and o[0] == "ext":
                d = o[1] + "." + e.attr
                if o[1] == "re" and e.attr in RE_FLAGS:
                    return RE_FLAGS[e.attr]
                return ("ext", d)
            return UNK
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, ast.Lambda):
            return self.prog.by_node.get(id(e), UNK)
        if isinstance(e, ast.NamedExpr):
            v = self.expr(e.value, env)
            self.assign(e.target, v, env)
            return v
        return UNK

    def mkset(self, out):
        if not all(known(x) for x in out):
            return UNK
        return OSet(out, self.rev)

    def comp(self, e, env):
        out = []

        def go(i, en):
            if i == len(e.generators):
                if isinstance(e, ast.DictComp):
                    out.append((self.expr(e.key, en), self.expr(e.value, en)))
                else:
                    out.append(self.expr(e.elt, en))
                return
            g = e.generators[i]
            it = self.expr(g.iter, en)
            if it is UNK or isinstance(it, tuple) and it and it[0] == "ext" or not isinstance(it, (list, tuple, set, frozenset, dict, str)):
                raise Unsup("comp")
            for v in list(it):
                self.steps += 1
                en2 = Env(en.module, {}, en, en.cls if en.outer is None else None, None)
                self.assign(g.target, v, en2)
                keep = True
                for c in g.ifs:
                    t = self.expr(c, en2)
                    if t is UNK:
                        raise Unsup("comp if")
                    if not t:
                        keep = False
                        break
                if keep:
                    go(i + 1, en2)
        try:
            go(0, env)
        except Unsup:
            return UNK
        if isinstance(e, ast.DictComp):
            return dict(out) if all(known(k) for k, _ in out) else UNK
        if isinstance(e, ast.SetComp):
            return self.mkset(out)
        return out

    def args(self, e, env):
        a = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.expr(x.value, env)
                if v is UNK:
                    raise Unsup("star")
                a.extend(v)
            else:
                a.append(self.expr(x, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.expr(k.value, env)
                if not isinstance(v, dict):
                    raise Unsup("kwstar")
                kw.update(v)
            else:
                kw[k.arg] = self.expr(k.value, env)
        return a, kw

    def call(self, e, env):
        if isinstance(e.func, ast.Attribute):
            o = self.expr(e.func.value, env) if not (isinstance(e.func.value, ast.Name) and e.func.value.id in ("self", "cls") and env.func is not None) else None
            nm = e.func.attr
            if isinstance(o, (str, list, dict, set, frozenset)) or isinstance(o, tuple) and not (o and o[0] == "ext"):
                a, kw = self.args(e, env)
                return self.method(o, nm, a, kw, e, env)
            if o is UNK:
                return UNK
        f = self.expr(e.func, env)
        a, kw = self.args(e, env)
        if isinstance(f, Func):
            return self.invoke(f, a, kw, e)
        if isinstance(f, tuple) and f and f[0] == "ext":
            return self.ext(f[1].replace("builtins.", ""), a, kw, e, env)
        return UNK

    def method(self, o, nm, a, kw, e, env):
        if isinstance(o, str):
            if nm == "join" and a:
                if a[0] is UNK or not isinstance(a[0], (list, tuple, set, frozenset, dict)):
                    return HOLE
                xs = a[0]
                return o.join(self.tostr(x) for x in xs)
            if nm == "format":
                s = o
                if any(x is UNK for x in a) or any(v is UNK for v in kw.values()):
                    a = [HOLE if x is UNK else x for x in a]
                    kw = {k: HOLE if v is UNK else v for k, v in kw.items()}
                return s.format(*a, **kw)
            if not all(known(x) for x in a):
                return UNK
            if nm in ("strip", "lstrip", "rstrip", "lower", "upper", "replace", "split", "splitlines", "startswith", "endswith", "title", "capitalize", "isalpha", "isdigit", "isalnum", "isspace",
                      "removeprefix", "removesuffix", "find", "count", "isupper", "islower", "partition", "rpartition", "zfill"):
                return getattr(o, nm)(*a)
            return UNK
        if isinstance(o, dict):
            if nm == "keys":
                return list(o)
            if nm == "values":
                return list(o.values())
            if nm == "items":
                return [(k, v) for k, v in o.items()]
            if nm == "get" and a and known(a[0]):
                return o.get(a[0], a[1] if len(a) > 1 else None)
            if nm == "copy":
                return dict(o)
            if nm == "update":
                for x in a:
                    if not isinstance(x, dict):
                        x = dict(x) if isinstance(x, (list, tuple)) else None
                    if x is None:
                        raise Unsup("update")
                    o.update(x)
                o.update(kw)
                return None
            if nm in ("setdefault", "pop") and a and known(a[0]):
                return getattr(o, nm)(*a)
            raise Unsup(nm)
        if isinstance(o, list):
            if nm in ("append", "extend", "insert", "remove", "reverse", "clear", "pop", "copy", "index", "count"):
                if any(x is UNK for x in a) and nm != "append":
                    raise Unsup(nm)
                return getattr(o, nm)(*a)
            if nm == "sort":
                o[:] = self.sort(o, kw)
                return None
            raise Unsup(nm)
        if isinstance(o, (set, frozenset)):
            if nm in ("union", "intersection", "difference", "add", "update", "discard", "remove", "copy", "issubset", "issuperset", "symmetric_difference"):
                if not all(known(x) for x in a):
                    raise Unsup(nm)
                return getattr(o, nm)(*a)
            raise Unsup(nm)
        if isinstance(o, tuple) and nm in ("index", "count"):
            return getattr(o, nm)(*a)
        return UNK

    def sort(self, xs, kw):
        key = kw.get("key")
        xs = list(xs)
        if not known(xs):
            raise Unsup("sort")
        if isinstance(key, tuple) and key[0] == "ext" and key[1].split(".")[-1] == "len":
            xs.sort(key=len)
        elif isinstance(key, Func):
            xs.sort(key=lambda v: self.must(self.invoke(key, [v], {}, None)))
        elif key is None:
            xs.sort()
        else:
            raise Unsup("sort key")
        if kw.get("reverse"):
            # stable reverse as Python does
            ys = list(reversed(xs))
            if isinstance(key, (Func, tuple)):
                k = (lambda v: self.must(self.invoke(key, [v], {}, None))) if isinstance(key, Func) else len
                out = []
                groups = {}
                for v in xs:
                    groups.setdefault(k(v), []).append(v)
                for kk in sorted(groups, reverse=True):
                    out += groups[kk]
                return out
            return ys
        return xs

    def must(self, v):
        if v is UNK:
            raise Unsup("unknown")
        return v

    def ext(self, d, a, kw, e, env):
        last = d.split(".")[-1]
        if d in ("re.escape",):
            return _re.escape(a[0]) if isinstance(a[0], str) else HOLE
        if d == "re.compile":
            p = a[0] if a else kw.get("pattern", UNK)
            fl = a[1] if len(a) > 1 else kw.get("flags", 0)
            if isinstance(p, Pat):
                return p
            return Pat(p, fl if isinstance(fl, int) else UNK, e) if isinstance(p, str) else UNK
        if last in ("OrderedDict", "dict", "defaultdict"):
            d = {}
            for x in a:
                if isinstance(x, dict):
                    d.update(x)
                elif isinstance(x, (list, tuple)) and not (x and x[0] == "ext"):
                    d.update(dict(x))
                elif x is UNK:
                    return UNK
            d.update(kw)
            return d
        if d in ("list", "tuple", "set", "frozenset", "sorted", "reversed", "enumerate", "zip", "range", "len", "str", "min", "max", "sum", "any", "all", "map", "filter", "chr", "ord", "int", "bool", "isinstance", "type"):
            if d == "isinstance":
                t = a[1]
                v = a[0]
                if v is UNK or v == HOLE:
                    return UNK
                names = [x[1] for x in (t if isinstance(t, (list, tuple)) and not (t and t[0] == "ext") else [t]) if isinstance(x, tuple)]
                for n in names:
                    n = n.split(".")[-1]
                    if n == "Pattern" and isinstance(v, Pat) or type(v).__name__ == n:
                        return True
                return False
            if any(x is UNK for x in a):
                return UNK if d != "str" else HOLE
            if d in ("list", "tuple", "set", "frozenset"):
                x = a[0] if a else ()
                if isinstance(x, tuple) and x and x[0] == "ext" or isinstance(x, Pat):
                    return UNK
                return {"list": list, "tuple": tuple, "set": self.mkset, "frozenset": self.mkset}[d](x)
            if d == "sorted":
                return self.sort(a[0], kw)
            if d in ("reversed", "enumerate", "zip", "range"):
                return list({"reversed": lambda x: list(x)[::-1], "enumerate": enumerate, "zip": zip, "range": range}[d](*a))
            if d in ("map", "filter"):
                if isinstance(a[0], Func):
                    vs = [(x, self.invoke(a[0], [x], {}, None)) for x in a[1]]
                elif isinstance(a[0], tuple) and a[0][0] == "ext":
                    vs = [(x, self.ext(a[0][1].replace("builtins.", ""), [x], {}, None, env)) for x in a[1]]
                else:
                    return UNK
                return [v for _, v in vs] if d == "map" else [x for x, v in vs if self.must(v)]
            if d == "type":
                return UNK
            if not all(known(x) for x in a):
                return UNK
            if d == "int" and not (isinstance(a[0], (int, str))):
                return UNK
            return {"len": len, "str": str, "min": min, "max": max, "sum": sum, "any": any, "all": all, "chr": chr, "ord": ord, "int": int, "bool": bool}[d](*a, **{k: v for k, v in kw.items() if k == "default"})
        if d == "copy.deepcopy" or d == "copy.copy":
            import copy as _c
            return _c.copy(a[0])
        if d in ("types.MappingProxyType",):
            return a[0]
        if d in ("typing.cast",):
            return a[1]
        return UNK

    def invoke(self, f, a, kw, e):
        if self.depth > 8 or f.is_gen and not f.is_lambda:
            return UNK
        names = {}
        pos = [x for x in f.posargs]
        if f.cls is not None and not f.is_static and pos:
            pos = pos[1:]
        for n, v in zip(pos, a):
            names[n] = v
        if len(a) > len(pos):
            if not f.vararg:
                return UNK
            names[f.vararg] = tuple(a[len(pos):])
        names.update({k: v for k, v in kw.items() if k in f.params})
        menv = Env(f.module)
        for n, d in f.defaults.items():
            if n not in names:
                names[n] = self.expr(d, self._mods.get(f.module.name, menv) if f.parent is None else menv)
        env = Env(f.module, names, None, None, f)
        self.depth += 1
        try:
            self.body(f.body, env, strict=True)
            return None
        except _Ret as r:
            return r.v
        except Unsup:
            return UNK
        finally:
            self.depth -= 1

    # ---- inside functions: every value a local can have, flow-insensitively
    def local_env(self, f):
        """environment for folding expressions inside f: single-assignment locals folded, others UNK"""
        if f is None:
            return None
        if not hasattr(self, "_lenv"):
            self._lenv = {}
        if f in self._lenv:
            return self._lenv[f]
        outer = self.local_env(f.parent) if f.parent is not None else None
        env = Env(f.module, {}, outer, None, f)
        self._lenv[f] = env
        ass = {}
        for st in f.body:
            for n in [st] + list(walk_own(st)):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                ass.setdefault(x.id, []).append(n.value if isinstance(t, ast.Name) else None)
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                    ass.setdefault(n.target.id, []).append(n.value)
                elif isinstance(n, (ast.AugAssign, ast.For, ast.NamedExpr, ast.withitem, ast.comprehension)):
                    t = getattr(n, "target", None) or getattr(n, "optional_vars", None)
                    for x in ast.walk(t) if t is not None else ():
                        if isinstance(x, ast.Name):
                            ass.setdefault(x.id, []).append(None)
        for p in f.params:
            env.names[p] = UNK
        for n, vs in ass.items():
            if n not in f.params and len(vs) == 1 and vs[0] is not None:
                env.names[n] = UNK
        self._multi = getattr(self, "_multi", {})
        self._multi[f] = {n: vs for n, vs in ass.items() if len(vs) > 1 or n in f.params}
        for _ in range(3):
            for n, vs in ass.items():
                if n not in f.params and len(vs) == 1 and vs[0] is not None:
                    env.names[n] = self.safe(vs[0], env)
        return env

    def safe(self, e, env):
        self.steps = 0
        try:
            return self.expr(e, env)
        except (Unsup, RecursionError):
            return UNK
        except Exception:
            return UNK

    def at(self, e, f, m):
        """possible values of expression e inside function f (or at module level)"""
        env = self.local_env(f) if f is not None else self.module(m)
        alts = [{}]
        if f is not None:
            for n in ast.walk(e):
                if isinstance(n, ast.Name) and n.id in self._multi.get(f, {}) and n.id not in f.params:
                    vs = [self.safe(v, env) if v is not None else UNK for v in self._multi[f][n.id]]
                    alts = [dict(a, **{n.id: v}) for a in alts for v in vs][:64]
        out = []
        for a in alts:
            en = Env(env.module, dict(env.names, **a), env.outer, env.cls, env.func) if a else env
            out.append(self.safe(e, en))
        return out


def all_patterns(prog, fold=None):
    """every regular expression the program builds: [(pattern, flags, node, func, how)], plus the nodes that could not be folded"""
    fold = fold or Fold(prog)
    got, unknown = [], []
    for m in prog.modules.values():
        al = set()
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call) or not isinstance(n.func, ast.Attribute) and not isinstance(n.func, ast.Name):
                continue
            d = dotted(n.func)
            if d is None:
                continue
            r = resolve_ext(prog, m, d)
            if r is None or not r.startswith("re.") or r.split(".")[1] not in RE_FNS or r.count(".") != 1:
                continue
            how = r.split(".")[1]
            f = enclosing_func(prog, n)
            pe = n.args[0] if n.args else next((k.value for k in n.keywords if k.arg == "pattern"), None)
            if pe is None:
                continue
            fpos = {"compile": 1, "match": 2, "search": 2, "fullmatch": 2, "findall": 2, "finditer": 2, "split": 3, "sub": 4, "subn": 4}[how]
            fe = n.args[fpos] if len(n.args) > fpos else next((k.value for k in n.keywords if k.arg == "flags"), None)
            vals = deep_values(prog, fold, pe, n, f, m)
            fl = fold.at(fe, f, m)[0] if fe is not None else 0
            seen = set()
            for v in vals:
                if isinstance(v, Pat) or (v if isinstance(v, str) else None) in seen:
                    continue
                seen.add(v if isinstance(v, str) else None)
                if isinstance(v, str):
                    got.append((v, fl if isinstance(fl, int) else 0, n, f, how))
                else:
                    unknown.append((n, f, how))
    return got, unknown


def deep_values(prog, fold, e, node, f, m, depth=0):
    """comp_values, following parameters to the call sites and dictionary entries to where they are stored"""
    vals = comp_values(fold, e, node, f, m)
    if depth > 4 or not any(v is UNK for v in vals):
        return vals
    out = [v for v in vals if v is not UNK]
    srcs = []
    if isinstance(e, ast.Name) and f is not None:
        if e.id in f.params:
            for g in calls_named(prog, f.name):
                c, cf, cm = g
                pos = [x for x in f.posargs]
                if f.cls is not None and not f.is_static:
                    pos = pos[1:]
                if e.id in pos and pos.index(e.id) < len(c.args):
                    srcs.append((c.args[pos.index(e.id)], c, cf, cm))
                srcs += [(k.value, c, cf, cm) for k in c.keywords if k.arg == e.id]
            if e.id in f.defaults:
                srcs.append((f.defaults[e.id], f.defaults[e.id], None, f.module))
        for n in f.body:
            for x in [n] + list(walk_own(n)):
                if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in x.targets):
                    if not (isinstance(x.value, ast.Call) and (dotted(x.value.func) or "") == "re.compile"):
                        srcs.append((x.value, x, f, m))
    key = None
    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
        key = e.slice.value
    elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "get" and e.args and isinstance(e.args[0], ast.Constant):
        key = e.args[0].value
    if isinstance(key, str):
        for m2 in prog.modules.values():
            for x in ast.walk(m2.tree):
                if isinstance(x, ast.Dict):
                    srcs += [(v, x, enclosing_func(prog, x), m2) for k, v in zip(x.keys, x.values) if isinstance(k, ast.Constant) and k.value == key]
                elif isinstance(x, ast.Assign):
                    srcs += [(x.value, x, enclosing_func(prog, x), m2) for t in x.targets if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and t.slice.value == key]
    if isinstance(e, ast.IfExp):
        srcs += [(e.body, node, f, m), (e.orelse, node, f, m)]
    got = []
    for x, nd, cf, cm in srcs:
        if x is not e:
            got += deep_values(prog, fold, x, nd, cf, cm, depth + 1)
    res = out + got
    return res or [UNK]


def calls_named(prog, name):
    if not hasattr(prog, "_calls_named"):
        prog._calls_named = {}
        for m in prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call):
                    nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                    prog._calls_named.setdefault(nm, []).append((n, enclosing_func(prog, n), m))
    return prog._calls_named.get(name, [])


def comp_values(fold, e, node, f, m):
    """values of e, taking enclosing comprehensions over known collections into account"""
    chain = []
    n = getattr(node, "_parent", None)
    while n is not None and not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.Module, ast.ClassDef)):
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            chain.append(n.generators)
        elif isinstance(n, ast.For):
            chain.append([n])
        n = getattr(n, "_parent", None)
    env = fold.local_env(f) if f is not None else fold.module(m)
    names = {x.id for g in chain for y in g for x in ast.walk(y.target) if isinstance(x, ast.Name)}
    used = {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}
    if not (names & used):
        if isinstance(e, ast.IfExp):
            return comp_values(fold, e.body, node, f, m) + comp_values(fold, e.orelse, node, f, m)
        return fold.at(e, f, m)
    envs = [env]
    for gens in reversed(chain):
        for g in gens:
            nxt = []
            for en in envs:
                it = fold.safe(g.iter, en)
                if it is UNK or not isinstance(it, (list, tuple, set, frozenset, dict, str)) or isinstance(it, tuple) and it and it[0] == "ext":
                    nxt.append(en)
                    continue
                for v in list(it)[:3000]:
                    e2 = Env(en.module, {}, en, None, None)
                    try:
                        fold.assign(g.target, v, e2)
                    except Unsup:
                        continue
                    nxt.append(e2)
            envs = nxt[:3000]
    out = []
    seen = set()
    for en in envs:
        v = fold.safe(e, en)
        k = v if isinstance(v, str) else id(v) if not isinstance(v, Pat) else None
        if k in seen:
            continue
        seen.add(k)
        out.append(v)
    return out


def resolve_ext(prog, m, d):
    parts = d.split(".")
    r = prog.resolve_global(m.name, parts[0])
    if isinstance(r, str):
        return ".".join([r] + parts[1:])
    if r is None and parts[0] in ("re",):
        return d
    return None
