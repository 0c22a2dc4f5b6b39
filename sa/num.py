"""A small abstract interpreter for counter code: containers and control flow are followed exactly, integers kept in object state are
affine (symbol + constant, symbol >= 0), text made from them is a sequence of pieces. A test the intervals of the symbols do not decide
splits the path; anything not modelled makes the obligation undecided."""
import ast
from .core import *


class Undecided(Exception):
    pass


class PathLimit(Undecided):
    pass


class Sym:
    __slots__ = ("base", "k")

    def __init__(self, base, k=0):
        self.base, self.k = base, k

    def __eq__(self, o):
        return isinstance(o, Sym) and (self.base, self.k) == (o.base, o.k)

    def __hash__(self):
        return hash((self.base, self.k))

    def __repr__(self):
        return f"{self.base}{'+%d' % self.k if self.k else ''}"


class SStr:
    """text: plain strings and ('n' | 'c', base, k) pieces (decimal number, character with that code)"""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != "":
                out.append(p)
        self.parts = tuple(out)

    def __eq__(self, o):
        return isinstance(o, SStr) and self.parts == o.parts

    def __hash__(self):
        return hash(self.parts)

    def __repr__(self):
        return "".join(p if isinstance(p, str) else f"<{p[1]}{'+%d' % p[2] if p[2] else ''}>" if p[0] == "n" else f"<chr {p[1]}{'+%d' % p[2] if p[2] else ''}>" for p in self.parts)


class Obj:
    def __init__(self, cls):
        self.cls, self.attrs = cls, {}


class Blob:
    """something outside the program (logger, ...): calls and attributes give another one"""


class Marker(dict):
    """a document element that stands for everything that came before"""


class Fn:
    def __init__(self, func, env, me=None):
        self.func, self.env, self.me = func, env, me


class Cls:
    def __init__(self, c):
        self.c = c


class Ext:
    def __init__(self, d):
        self.d = d


class Bound:
    def __init__(self, o, nm):
        self.o, self.nm = o, nm


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class Raised(Exception):
    def __init__(self, name):
        self.name = name


class Env:
    def __init__(self, module, func=None, outer=None, cls=None):
        self.module, self.func, self.outer, self.cls, self.names = module, func, outer, cls, {}
        self.glob = set()
        self.nonloc = set()


def fold_str(parts):
    s = SStr(parts)
    if not s.parts:
        return ""
    if len(s.parts) == 1 and isinstance(s.parts[0], str):
        return s.parts[0]
    return s


class Interp:
    STEPS = 60000
    DEPTH = 60

    def __init__(self, prog, fold):
        self.prog, self.fold = prog, fold
        self.roots = []
        self.globs = {}

    # ------------------------------------------------------------ paths
    def paths(self, go, limit=64):
        """all paths of go(): yields (result, {symbol: (lo, hi)})"""
        pending = [[]]
        n = 0
        while pending:
            pre = pending.pop()
            n += 1
            if n > limit:
                raise PathLimit("too many paths")
            self.pre, self.pos, self.dec = pre, 0, []
            self.iv = {}
            self.steps = 0
            self.depth = 0
            self.hv = set()
            r = go()
            yield r, dict(self.iv)
            for i in range(len(pre), len(self.dec)):
                pending.append([d for d in self.dec[:i]] + [not self.dec[i]])

    def ask(self):
        if self.pos < len(self.pre):
            v = self.pre[self.pos]
        else:
            v = True
        self.pos += 1
        self.dec.append(v)
        return v

    def gt(self, s, c):
        """s > c"""
        lo, hi = self.iv.get(s.base, (0, None))
        c -= s.k
        if lo > c:
            return True
        if hi is not None and hi <= c:
            return False
        if self.ask():
            self.iv[s.base] = (c + 1, hi)
            return True
        self.iv[s.base] = (lo, c)
        return False

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = a is b or isinstance(a, (Cls, bool, str)) and not isinstance(a, Sym) and type(a) is type(b) and (a.c is b.c if isinstance(a, Cls) else a == b)
            if isinstance(a, Blob) or isinstance(b, Blob):
                if a is None or b is None:
                    r = False
                else:
                    raise Undecided("identity of an outside object")
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, Blob) or isinstance(a, (Sym, Blob)):
                raise Undecided("membership")
            if isinstance(a, SStr) or isinstance(b, SStr):
                raise Undecided("membership in made text")
            if isinstance(b, (dict, list, tuple, set, frozenset, str, range)):
                try:
                    r = a in b
                except TypeError:
                    raise Undecided("membership")
                return r if isinstance(op, ast.In) else not r
            raise Undecided("membership")
        if isinstance(a, Sym) and isinstance(b, Sym) and a.base == b.base:
            a, b = a.k, b.k
        if isinstance(b, Sym) and not isinstance(a, Sym):
            flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
            return self.compare(flip.get(type(op), type(op))(), b, a)
        if isinstance(a, Sym):
            if isinstance(b, bool) or not isinstance(b, int):
                if isinstance(op, ast.Eq):
                    return False if not isinstance(b, (Sym, Blob)) else self.no("comparison")
                if isinstance(op, ast.NotEq):
                    return True if not isinstance(b, (Sym, Blob)) else self.no("comparison")
                raise Undecided("comparison of counters")
            if isinstance(op, ast.Gt):
                return self.gt(a, b)
            if isinstance(op, ast.GtE):
                return self.gt(a, b - 1)
            if isinstance(op, ast.Lt):
                return not self.gt(a, b - 1)
            if isinstance(op, ast.LtE):
                return not self.gt(a, b)
            eq = not self.gt(a, b) and self.gt(a, b - 1)
            return eq if isinstance(op, ast.Eq) else not eq
        if isinstance(a, (SStr, Blob)) or isinstance(b, (SStr, Blob)):
            if (a is None or b is None) and isinstance(op, (ast.Eq, ast.NotEq)):
                return isinstance(op, ast.NotEq)
            raise Undecided("comparison of made text")
        try:
            return {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()
        except TypeError:
            raise Raised("TypeError")

    def no(self, m):
        raise Undecided(m)

    def truth(self, v):
        if isinstance(v, Sym):
            return self.gt(v, 0)
        if isinstance(v, SStr):
            return True
        if isinstance(v, Blob):
            return True         # loggers and the like
        if isinstance(v, (Obj, Fn, Cls, Ext, Bound)):
            return True
        return bool(v)

    # ------------------------------------------------------------ state
    def havoc(self):
        """every integer kept in the objects under analysis becomes a symbol"""
        seen = set()

        def go(x, path):
            if isinstance(x, bool):
                return x
            if isinstance(x, (int, Sym)):
                return Sym(path)
            if id(x) in seen:
                return x
            if isinstance(x, Obj):
                seen.add(id(x))
                for k in list(x.attrs):
                    x.attrs[k] = go(x.attrs[k], f"{path}.{k}" if path else k)
            elif isinstance(x, dict):
                seen.add(id(x))
                for k in list(x):
                    x[k] = go(x[k], f"{path}[{k}]")
            elif isinstance(x, list):
                seen.add(id(x))
                for i in range(len(x)):
                    x[i] = go(x[i], f"{path}[{i}]")
            return x
        for r in self.roots:
            go(r, "")

    def snapshot(self):
        out = {}

        def go(x, path, d):
            if isinstance(x, bool) or d > 6:
                return
            if isinstance(x, (int, Sym)):
                out[path] = x
            elif isinstance(x, Obj):
                for k in x.attrs:
                    go(x.attrs[k], f"{path}.{k}" if path else k, d + 1)
            elif isinstance(x, dict):
                for k in x:
                    go(x[k], f"{path}[{k}]", d + 1)
            elif isinstance(x, list):
                for i, y in enumerate(x):
                    go(y, f"{path}[{i}]", d + 1)
        for r in self.roots:
            go(r, "", 0)
        return out

    def reached(self, x, key=None):
        """a pass over the document comes to the marker: every counter state can be there"""
        if isinstance(x, Marker) and (key is None or key not in self.hv):
            self.havoc()
            self.hv.add(key)
        return x

    # ------------------------------------------------------------ functions
    def construct(self, c, args, kw):
        o = Obj(c)
        init = c.find_method("__init__")
        if init is not None:
            self.invoke(Fn(init, None, o), args, kw)
        return o

    def invoke(self, fn, args, kw):
        f = fn.func
        self.depth += 1
        if self.depth > self.DEPTH:
            raise Undecided("recursion")
        try:
            env = Env(f.module, f, fn.env, f.cls)
            a = f.node.args
            args = list(args)
            if fn.me is not None and not f.is_static:
                args = [fn.me] + args
            names = [x.arg for x in a.posonlyargs + a.args]
            for n, v in zip(names, args):
                env.names[n] = v
            if len(args) > len(names):
                if not a.vararg:
                    raise Raised("TypeError")
                env.names[a.vararg.arg] = tuple(args[len(names):])
            elif a.vararg:
                env.names[a.vararg.arg] = ()
            rest = {}
            for k, v in kw.items():
                if k in names or k in [x.arg for x in a.kwonlyargs]:
                    env.names[k] = v
                elif a.kwarg:
                    rest[k] = v
                else:
                    raise Raised("TypeError")
            if a.kwarg:
                env.names[a.kwarg.arg] = rest
            for x, d in list(zip(names[::-1], a.defaults[::-1])) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
                if x not in env.names:
                    env.names[x] = self.expr(d, fn.env or Env(f.module))
            for x in names:
                if x not in env.names:
                    raise Raised("TypeError")
            if f.is_lambda:
                return self.expr(f.node.body, env)
            if f.is_gen:
                env.names["<yield>"] = []
                try:
                    self.block(f.body, env)
                except Ret:
                    pass
                return env.names["<yield>"]
            try:
                self.block(f.body, env)
            except Ret as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def local_func(self, node, env):
        for g in self.prog.funcs.values():
            if g.node is node:
                return Fn(g, env)
        raise Undecided("nested function")

    # ------------------------------------------------------------ statements
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > self.STEPS:
            raise Undecided("too long")
        if isinstance(s, ast.Expr):
            self.expr(s.value, env)
        elif isinstance(s, ast.Assign):
            v = self.expr(s.value, env)
            for t in s.targets:
                self.assign(t, v, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.expr(s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            cur = self.expr(ast_load(s.target), env)
            v = self.expr(s.value, env)
            if isinstance(cur, list) and isinstance(s.op, ast.Add):
                cur.extend(self.iter(v))
                v2 = cur
            else:
                v2 = self.binop(s.op, cur, v)
            self.assign(s.target, v2, env)
        elif isinstance(s, ast.If):
            self.block(s.body if self.truth(self.expr(s.test, env)) else s.orelse, env)
        elif isinstance(s, ast.For):
            broke = False
            for x in self.iter(self.expr(s.iter, env), live=True):
                self.reached(x)
                self.assign(s.target, x, env)
                try:
                    self.block(s.body, env)
                except Brk:
                    broke = True
                    break
                except Cnt:
                    continue
            if not broke:
                self.block(s.orelse, env)
        elif isinstance(s, ast.While):
            broke = False
            while self.truth(self.expr(s.test, env)):
                self.steps += 1
                if self.steps > self.STEPS:
                    raise Undecided("too long")
                try:
                    self.block(s.body, env)
                except Brk:
                    broke = True
                    break
                except Cnt:
                    continue
            if not broke:
                self.block(s.orelse, env)
        elif isinstance(s, ast.Return):
            raise Ret(self.expr(s.value, env) if s.value is not None else None)
        elif isinstance(s, ast.Break):
            raise Brk()
        elif isinstance(s, ast.Continue):
            raise Cnt()
        elif isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom)):
            pass
        elif isinstance(s, ast.Global):
            env.glob |= set(s.names)
        elif isinstance(s, ast.Nonlocal):
            env.nonloc |= set(s.names)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            env.names[s.name] = self.local_func(s, env)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    o = self.expr(t.value, env)
                    k = self.expr(t.slice, env)
                    try:
                        del o[k]
                    except (KeyError, IndexError):
                        raise Raised("LookupError")
                elif isinstance(t, ast.Name):
                    env.names.pop(t.id, None)
                else:
                    raise Undecided("del")
        elif isinstance(s, ast.Try):
            try:
                try:
                    self.block(s.body, env)
                except Raised as r:
                    h = next((h for h in s.handlers if self.catches(h, r)), None)
                    if h is None:
                        raise
                    if h.name:
                        env.names[h.name] = Blob()
                    self.block(h.body, env)
                else:
                    self.block(s.orelse, env)
            finally:
                self.block(s.finalbody, env)
        elif isinstance(s, ast.Raise):
            e = s.exc
            raise Raised((dotted(e.func if isinstance(e, ast.Call) else e) or "?").split(".")[-1] if e is not None else "?")
        elif isinstance(s, ast.Assert):
            pass
        elif isinstance(s, ast.With):
            raise Undecided("with")
        elif isinstance(s, ast.Match):
            raise Undecided("match")
        else:
            raise Undecided(type(s).__name__)

    def catches(self, h, r):
        if h.type is None:
            return True
        ns = [(dotted(t) or "").split(".")[-1] for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
        return bool({"Exception", "BaseException", r.name} & set(ns)) or r.name == "LookupError" and bool({"KeyError", "IndexError"} & set(ns))

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            e = env
            if t.id in env.glob:
                raise Undecided("global")
            if t.id in env.nonloc:
                e = env.outer
                while e is not None and t.id not in e.names:
                    e = e.outer
                if e is None:
                    raise Undecided("nonlocal")
            e.names[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.iter(v))
            star = next((i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)), None)
            if star is not None:
                k = len(t.elts) - star - 1
                vs = vs[:star] + [vs[star:len(vs) - k]] + vs[len(vs) - k:]
            if len(vs) != len(t.elts):
                raise Raised("ValueError")
            for x, y in zip(t.elts, vs):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value, env)
            if isinstance(o, Obj):
                o.attrs[t.attr] = v
            elif isinstance(o, Blob):
                pass
            else:
                raise Undecided("attribute store")
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, env)
            if isinstance(t.slice, ast.Slice) and isinstance(o, list):
                i = [self.expr(x, env) if x is not None else None for x in (t.slice.lower, t.slice.upper, t.slice.step)]
                if any(isinstance(x, Sym) for x in i):
                    raise Undecided("slice")
                o[slice(*i)] = list(self.iter(v))
                return
            k = self.expr(t.slice, env)
            if isinstance(k, (Sym, SStr, Blob)) or not isinstance(o, (dict, list)):
                raise Undecided("item store")
            try:
                o[k] = v
            except IndexError:
                raise Raised("IndexError")
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Undecided("target")

    def iter(self, v, live=False):
        if isinstance(v, (Sym, SStr, Blob, Obj, Fn, Cls, Ext)) or v is None:
            raise Undecided("iteration")
        if isinstance(v, list) and live:
            return iter_live(v)
        return list(v)

    # ------------------------------------------------------------ expressions
    def binop(self, op, a, b):
        if isinstance(op, ast.Add):
            if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
                return fold_str(tuple(parts(a)) + tuple(parts(b)))
            if isinstance(a, Sym) and isinstance(b, int):
                return Sym(a.base, a.k + b)
            if isinstance(b, Sym) and isinstance(a, int):
                return Sym(b.base, b.k + a)
        if isinstance(op, ast.Sub) and isinstance(a, Sym):
            if isinstance(b, int):
                return Sym(a.base, a.k - b)
            if isinstance(b, Sym) and a.base == b.base:
                return a.k - b.k
        if isinstance(op, ast.Mod) and isinstance(a, str):
            xs = b if isinstance(b, tuple) else (b,)
            out, i = [], 0
            import re
            for m in re.split(r"(%[sd])", a):
                if m in ("%s", "%d"):
                    out += parts(self.tostr(xs[i]))
                    i += 1
                elif "%" in m:
                    raise Undecided("format")
                else:
                    out.append(m)
            return fold_str(out)
        if any(isinstance(x, (Sym, SStr, Blob, Obj)) for x in (a, b)):
            raise Undecided("arithmetic on counters")
        fs = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b, ast.BitOr: lambda: a | b, ast.BitAnd: lambda: a & b}
        if type(op) not in fs:
            raise Undecided("operator")
        try:
            return fs[type(op)]()
        except (TypeError, ZeroDivisionError) as e:
            raise Raised(type(e).__name__)

    def tostr(self, v):
        if isinstance(v, Sym):
            return SStr((("n", v.base, v.k),))
        if isinstance(v, (str, SStr)):
            return v
        if isinstance(v, (int, float)) or v is None:
            return str(v)
        raise Undecided("text of a value")

    def expr(self, e, env):
        self.steps += 1
        if self.steps > self.STEPS:
            raise Undecided("too long")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Undecided(type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        x = env
        while x is not None:
            if e.id in x.names:
                return x.names[e.id]
            x = x.outer
        return self.entity(self.prog.resolve_dotted(env.module, e), e, env)

    def entity(self, r, e, env):
        if isinstance(r, Class):
            return Cls(r)
        if isinstance(r, Func):
            return Fn(r, None)
        if isinstance(r, tuple) and r[0] == "global":
            k = (r[1].name, r[2])
            if k not in self.globs:
                val = next((s.value for s in reversed(r[1].tree.body) if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == r[2] for t in s.targets) or isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == r[2] and s.value is not None), None)
                if val is None:
                    raise Undecided(r[2])
                self.globs[k] = self.expr(val, Env(r[1]))
            return self.globs[k]
        if isinstance(r, str):
            return Ext(r)
        raise Undecided(src_of(e))

    def e_Attribute(self, e, env):
        r = self.prog.resolve_dotted(env.module, e) if dotted(e) and not self.local(dotted(e).split(".")[0], env) else None
        if r is not None and not (isinstance(r, tuple) and r[0] == "classattr"):
            return self.entity(r, e, env)
        o = self.expr(e.value, env)
        return self.attr(o, e.attr, e, env)

    def local(self, nm, env):
        while env is not None:
            if nm in env.names:
                return True
            env = env.outer
        return False

    def attr(self, o, nm, e, env):
        if isinstance(o, Obj):
            if nm in o.attrs:
                return o.attrs[nm]
            f = o.cls.find_method(nm)
            if f is not None:
                if f.is_property:
                    return self.invoke(Fn(f, None, o), [], {})
                return Fn(f, None, Cls(o.cls) if f.is_classmethod else o)
            for c in o.cls.mro():
                if isinstance(c, Class) and nm in c.attrs:
                    return self.class_attr(c, nm)
            if nm == "__class__":
                return Cls(o.cls)
            if nm == "__dict__":
                return o.attrs
            raise Raised("AttributeError")
        if isinstance(o, Cls):
            f = o.c.find_method(nm)
            if f is not None:
                return Fn(f, None, o if f.is_classmethod else None)
            for c in o.c.mro():
                if isinstance(c, Class) and nm in c.attrs:
                    return self.class_attr(c, nm)
            if nm == "__name__":
                return o.c.name
            raise Undecided("class attribute")
        if isinstance(o, Blob):
            return Blob()
        if isinstance(o, Ext):
            return Ext(o.d + "." + nm)
        if isinstance(o, str) and nm == "value":
            return o
        return Bound(o, nm)

    def class_attr(self, c, nm):
        v = c.attrs[nm]
        v = v[-1] if isinstance(v, list) else v
        v = getattr(v, "value", v) if isinstance(v, (ast.Assign, ast.AnnAssign)) else v
        if isinstance(v, ast.AST):
            if self.enum(c) and isinstance(v, ast.Constant):
                return v.value
            if isinstance(v, ast.Call):
                w = self.fold.safe(v, self.fold.module(c.module))
                if isinstance(w, (str, int, tuple, list, dict, frozenset)):
                    return w
            return self.expr(v, Env(c.module))
        raise Undecided("class attribute")

    def e_Subscript(self, e, env):
        o = self.expr(e.value, env)
        if isinstance(e.slice, ast.Slice):
            i = [self.expr(x, env) if x is not None else None for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            if any(isinstance(x, (Sym, Blob)) for x in i) or not isinstance(o, (str, list, tuple)):
                raise Undecided("slice")
            return o[slice(*i)]
        k = self.expr(e.slice, env)
        if isinstance(k, (SStr, Blob)) or not isinstance(o, (dict, list, tuple, str)):
            raise Undecided("item")
        if isinstance(k, Sym):
            if isinstance(o, str):          # table of letters: text[n]
                return SStr((("t", k.base, k.k, o),))
            raise Undecided("item")
        try:
            return self.reached(o[k], (id(env), id(e))) if isinstance(e.slice, ast.Name) else o[k]
        except KeyError:
            raise Raised("KeyError")
        except IndexError:
            raise Raised("IndexError")
        except TypeError:
            raise Raised("TypeError")

    def e_Call(self, e, env):
        args, kw = [], {}
        # super().m()
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and getattr(e.func.value.func, "id", "") == "super" and env.cls:
            x = env
            while x is not None and not (x.func and x.func.cls and x.func.posargs):
                x = x.outer
            me = x.names.get(x.func.posargs[0]) if x else None
            ms = [c for c in (me.cls if isinstance(me, Obj) else env.cls).mro() if isinstance(c, Class)]
            if env.cls in ms:
                for c in ms[ms.index(env.cls) + 1:]:
                    if e.func.attr in c.methods:
                        return self.invoke(Fn(c.methods[e.func.attr], None, me), [self.expr(a, env) for a in e.args], {k.arg: self.expr(k.value, env) for k in e.keywords})
            return None
        f = self.expr(e.func, env)
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += list(self.iter(self.expr(a.value, env)))
            else:
                args.append(self.expr(a, env))
        for k in e.keywords:
            v = self.expr(k.value, env)
            if k.arg is None:
                if not isinstance(v, dict):
                    raise Undecided("**")
                kw.update(v)
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        if isinstance(f, Fn):
            return self.invoke(f, args, kw)
        if isinstance(f, Cls):
            if self.enum(f.c):
                return args[0]
            return self.construct(f.c, args, kw)
        if isinstance(f, Blob):
            return Blob()
        if isinstance(f, Bound):
            return self.method(f.o, f.nm, args, kw)
        if isinstance(f, Ext):
            return self.ext(f.d, args, kw)
        raise Undecided("call")

    def enum(self, c):
        return any(getattr(b, "name", str(b)).split(".")[-1] in ("Enum", "IntEnum", "StrEnum") for b in c.mro())

    def copy(self, x, memo=None):
        memo = {} if memo is None else memo
        if id(x) in memo:
            return memo[id(x)]
        if isinstance(x, dict):
            y = type(x)() if type(x) in (dict, Marker) else Marker() if isinstance(x, Marker) else {}
            memo[id(x)] = y
            for k, v in x.items():
                y[k] = self.copy(v, memo)
            return y
        if isinstance(x, list):
            y = []
            memo[id(x)] = y
            y.extend(self.copy(v, memo) for v in x)
            return y
        if isinstance(x, tuple):
            return tuple(self.copy(v, memo) for v in x)
        if isinstance(x, set):
            return set(x)
        if isinstance(x, Obj):
            y = Obj(x.cls)
            memo[id(x)] = y
            y.attrs = {k: self.copy(v, memo) for k, v in x.attrs.items()}
            return y
        return x

    def ext(self, d, a, kw):
        b = d.split(".")[-1]
        if d in ("copy.deepcopy", "deepcopy"):
            return self.copy(a[0])
        if d in ("copy.copy",):
            return a[0].copy() if isinstance(a[0], list) else self.shallow(a[0])
        if d in ("collections.defaultdict", "defaultdict"):
            import collections
            f = a[0] if a else None
            return collections.defaultdict((lambda: self.call(f, [], {})) if f is not None else None, *a[1:])
        if d in ("collections.OrderedDict", "dict"):
            x = {}
            for y in a:
                x.update(y if isinstance(y, dict) else {k: v for k, v in self.iter(y)})
            x.update(kw)
            return x
        if d in ("collections.Counter",) and not a:
            import collections
            return collections.Counter()
        if d == "dict.fromkeys":
            return {k: (a[1] if len(a) > 1 else None) for k in self.iter(a[0])}
        if d.startswith("str.") and a and isinstance(a[0], (str, SStr)):
            return self.method(a[0], d[4:], a[1:], kw)
        if "." in d and d not in ("str.join",):
            if d.split(".")[0] in ("logging", "sys", "os", "time"):
                return Blob()
            if d == "itertools.chain":
                return [y for x in a for y in self.iter(x)]
            if d == "itertools.count" or d.startswith("itertools"):
                raise Undecided(d)
            if d in ("string.ascii_uppercase",):
                return "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
            raise Undecided(d)
        if b == "isinstance":
            return self.isinst(a[0], a[1])
        if b == "str":
            return self.tostr(a[0]) if a else ""
        if b == "chr":
            return SStr((("c", a[0].base, a[0].k),)) if isinstance(a[0], Sym) else chr(a[0])
        if b == "bool":
            return self.truth(a[0]) if a else False
        if b == "int":
            if a and isinstance(a[0], Sym):
                return a[0]
            if a and isinstance(a[0], (SStr, Blob)):
                raise Undecided("int")
            try:
                return int(*a)
            except (ValueError, TypeError) as x:
                raise Raised(type(x).__name__)
        if b in ("print", "id", "super"):
            return None
        if b in ("getattr", "setattr", "hasattr"):
            if not isinstance(a[1], str):
                raise Undecided(b)
            if b == "setattr":
                if not isinstance(a[0], Obj):
                    raise Undecided(b)
                a[0].attrs[a[1]] = a[2]
                return None
            try:
                v = self.attr(a[0], a[1], None, None)
            except Raised:
                if b == "hasattr":
                    return False
                if len(a) > 2:
                    return a[2]
                raise
            return True if b == "hasattr" else v
        if b == "type":
            if isinstance(a[0], Obj):
                return Cls(a[0].cls)
            return Ext(type(a[0]).__name__ if not isinstance(a[0], Marker) else "dict")
        if b in ("any", "all"):
            for x in self.iter(a[0]):
                t = self.truth(x)
                if t == (b == "any"):
                    return t
            return b == "all"
        if b in ("map", "filter"):
            xs = list(self.iter(a[1]))
            if b == "map":
                return [self.call(a[0], [x], {}) for x in xs]
            return [x for x in xs if self.truth(self.call(a[0], [x], {}) if a[0] is not None else x)]
        if b == "next":
            xs = a[0]
            if isinstance(xs, list):
                if xs:
                    return xs[0]
                if len(a) > 1:
                    return a[1]
                raise Raised("StopIteration")
            raise Undecided("next")
        if b in ("max", "min", "sorted", "sum"):
            xs = list(self.iter(a[0])) if len(a) == 1 or b in ("sorted", "sum") else list(a)
            if any(isinstance(x, (Sym, SStr, Blob)) for x in xs) or "key" in kw:
                if "key" in kw and b != "sum":
                    ks = [self.call(kw["key"], [x], {}) for x in xs]
                    if all(isinstance(k, (int, str, tuple)) for k in ks):
                        o = sorted(range(len(xs)), key=lambda i: ks[i], reverse=bool(kw.get("reverse")))
                        return [xs[i] for i in o] if b == "sorted" else xs[o[0]] if b == "min" else max(zip(ks, range(len(xs))))and xs[max(range(len(xs)), key=lambda i: ks[i])]
                raise Undecided(b)
            try:
                if b == "sorted":
                    return sorted(xs, reverse=bool(kw.get("reverse")))
                return {"max": max, "min": min, "sum": sum}[b](xs, **{k: v for k, v in kw.items() if k == "default"}) if b != "sum" else sum(xs)
            except (TypeError, ValueError):
                raise Raised("ValueError")
        if b == "len":
            if isinstance(a[0], (dict, list, tuple, str, set, frozenset, range)):
                return len(a[0])
            raise Undecided("len")
        if b == "range":
            if any(isinstance(x, (Sym, Blob)) for x in a):
                raise Undecided("range")
            return range(*a)
        if b == "list":
            return list(self.iter(a[0])) if a else []
        if b == "iter":
            return list(self.iter(a[0]))
        if b == "tuple":
            return tuple(self.iter(a[0])) if a else ()
        if b in ("set", "frozenset"):
            xs = list(self.iter(a[0])) if a else []
            try:
                return set(xs)
            except TypeError:
                raise Undecided(b)
        if b == "enumerate":
            return [(i + (a[1] if len(a) > 1 else kw.get("start", 0)), x) for i, x in enumerate(self.iter(a[0]))]
        if b == "zip":
            return [tuple(x) for x in zip(*[self.iter(y) for y in a])]
        if b == "reversed":
            return list(self.iter(a[0]))[::-1]
        if b == "ord" and isinstance(a[0], str):
            return ord(a[0])
        if b == "abs" and isinstance(a[0], int):
            return abs(a[0])
        raise Undecided(d)

    def shallow(self, x):
        if isinstance(x, dict):
            return type(x)(x) if type(x) in (dict, Marker) else dict(x)
        if isinstance(x, Obj):
            y = Obj(x.cls)
            y.attrs = dict(x.attrs)
            return y
        return x

    def isinst(self, v, t):
        ts = t if isinstance(t, tuple) else (t,)
        for x in ts:
            if isinstance(x, Ext):
                py = {"dict": dict, "list": list, "str": (str, SStr), "int": (int, Sym), "tuple": tuple, "set": set, "bool": bool, "float": float}.get(x.d.split(".")[-1])
                if py is None:
                    if isinstance(v, (dict, list, str, int, type(None), SStr, Sym)) and x.d.split(".")[-1][:1].isupper():
                        if x.d.split(".")[-1] in ("Mapping", "MutableMapping") and isinstance(v, dict) or x.d.split(".")[-1] == "Sequence" and isinstance(v, (list, tuple, str)):
                            return True
                        continue
                    raise Undecided("isinstance")
                if isinstance(v, py):
                    return True
            elif isinstance(x, Cls):
                if isinstance(v, Obj) and v.cls.subclass_of(x.c):
                    return True
                if isinstance(v, str):
                    raise Undecided("isinstance")
            else:
                raise Undecided("isinstance")
        return False

    def method(self, o, nm, a, kw):
        if isinstance(o, Sym):
            raise Undecided(nm)
        if isinstance(o, (str, SStr)):
            if nm == "join" and isinstance(o, str):
                out = []
                for i, x in enumerate(self.iter(a[0])):
                    if i:
                        out.append(o)
                    if not isinstance(x, (str, SStr)):
                        raise Raised("TypeError")
                    out += parts(x)
                return fold_str(out)
            if nm == "format" and isinstance(o, str):
                import re
                out, i = [], 0
                for m in re.split(r"(\{\w*\})", o):
                    if re.fullmatch(r"\{\w*\}", m):
                        k = m[1:-1]
                        v = a[int(k)] if k.isdigit() else kw[k] if k else a[i]
                        i += not k
                        out += parts(self.tostr(v))
                    elif "{" in m or "}" in m:
                        raise Undecided("format")
                    else:
                        out.append(m)
                return fold_str(out)
            if isinstance(o, SStr) or any(isinstance(x, (SStr, Sym, Blob)) for x in a):
                raise Undecided("text method")
            if nm in ("lower", "upper", "strip", "lstrip", "rstrip", "startswith", "endswith", "split", "replace", "isdigit", "isalpha", "isalnum", "isspace", "find", "count", "title", "capitalize", "removeprefix", "removesuffix"):
                try:
                    return getattr(o, nm)(*a, **kw)
                except TypeError:
                    raise Raised("TypeError")
            raise Undecided(nm)
        if isinstance(o, (dict, list, set)) or isinstance(o, tuple):
            if nm in ("append", "extend", "insert", "pop", "clear", "get", "setdefault", "update", "items", "keys", "values", "copy", "remove", "add", "discard", "index", "count", "reverse", "popitem", "fromkeys"):
                if nm in ("get", "setdefault", "pop", "index") and a and isinstance(a[0], (SStr, Blob)) or nm in ("get", "pop") and a and isinstance(a[0], Sym):
                    raise Undecided(nm)
                if nm in ("extend",):
                    a = [list(self.iter(a[0]))]
                try:
                    r = getattr(o, nm)(*a, **kw)
                except KeyError:
                    raise Raised("KeyError")
                except IndexError:
                    raise Raised("IndexError")
                except (TypeError, ValueError, AttributeError) as x:
                    raise Raised(type(x).__name__)
                if nm in ("items", "keys", "values"):
                    return list(r)
                return r
            raise Undecided(nm)
        if o is None:
            raise Raised("AttributeError")
        raise Undecided(nm)

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.expr(e.left, env), self.expr(e.right, env))

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        for v in e.values:
            r = self.expr(v, env)
            if self.truth(r) != isand:
                return r
        return r

    def e_UnaryOp(self, e, env):
        v = self.expr(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(e.op, ast.USub) and isinstance(v, (int, float)):
            return -v
        raise Undecided("unary")

    def e_Compare(self, e, env):
        a = self.expr(e.left, env)
        for op, c in zip(e.ops, e.comparators):
            b = self.expr(c, env)
            if not self.compare(op, a, b):
                return False
            a = b
        return True

    def e_IfExp(self, e, env):
        return self.expr(e.body if self.truth(self.expr(e.test, env)) else e.orelse, env)

    def e_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                if v.format_spec is not None:
                    x = self.expr(v.value, env)
                    raise Undecided("format")
                x = self.expr(v.value, env)
                out += parts(self.tostr(x) if not isinstance(x, (list, dict, Blob, Obj)) else "?")
        return fold_str(out)

    def e_List(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += list(self.iter(self.expr(x.value, env)))
            else:
                out.append(self.expr(x, env))
        return out

    def e_Tuple(self, e, env):
        return tuple(self.e_List(e, env))

    def e_Set(self, e, env):
        try:
            return set(self.e_List(e, env))
        except TypeError:
            raise Undecided("set")

    def e_Dict(self, e, env):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.expr(v, env)
                if not isinstance(x, dict):
                    raise Undecided("**")
                out.update(x)
            else:
                kk = self.expr(k, env)
                if isinstance(kk, (Sym, SStr, Blob)):
                    raise Undecided("key")
                if isinstance(kk, Cls):
                    kk = kk.c
                out[kk] = self.expr(v, env)
        return out

    def e_Lambda(self, e, env):
        return self.local_func(e, env)

    def e_NamedExpr(self, e, env):
        v = self.expr(e.value, env)
        x = env
        while getattr(x, "comp", False):
            x = x.outer
        x.names[e.target.id] = v
        return v

    def e_Starred(self, e, env):
        raise Undecided("star")

    def comp(self, e, env, emit):
        inner = Env(env.module, env.func, env, env.cls)
        inner.comp = True

        def go(i):
            if i == len(e.generators):
                emit(inner)
                return
            g = e.generators[i]
            for x in self.iter(self.expr(g.iter, inner if i else env)):
                self.reached(x)
                self.assign(g.target, x, inner)
                if all(self.truth(self.expr(t, inner)) for t in g.ifs):
                    go(i + 1)
        go(0)

    def e_ListComp(self, e, env):
        out = []
        self.comp(e, env, lambda en: out.append(self.expr(e.elt, en)))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env):
        try:
            return set(self.e_ListComp(e, env))
        except TypeError:
            raise Undecided("set")

    def e_DictComp(self, e, env):
        out = {}

        def emit(en):
            k = self.expr(e.key, en)
            if isinstance(k, (Sym, SStr, Blob)):
                raise Undecided("key")
            out[k] = self.expr(e.value, en)
        self.comp(e, env, emit)
        return out

    def yielded(self, env):
        x = env
        while x is not None and "<yield>" not in x.names:
            x = x.outer
        if x is None:
            raise Undecided("yield")
        return x.names["<yield>"]

    def e_Yield(self, e, env):
        self.yielded(env).append(self.expr(e.value, env) if e.value is not None else None)

    def e_YieldFrom(self, e, env):
        self.yielded(env).extend(self.iter(self.expr(e.value, env)))


BUILTINS = {"dict", "list", "str", "int", "tuple", "set", "frozenset", "bool", "float", "isinstance", "chr", "ord", "len", "range", "enumerate", "zip", "reversed", "sorted", "max", "min", "sum", "any", "all", "map", "filter", "next", "iter", "print", "getattr", "setattr", "hasattr", "type", "id", "abs", "super"}


def parts(x):
    return [x] if isinstance(x, str) else list(x.parts)


def iter_live(v):
    i = 0
    while i < len(v):
        yield v[i]
        i += 1


def ast_load(t):
    import copy
    n = copy.copy(t)
    n.ctx = ast.Load()
    return n
