"""Flow- and path-sensitive abstract interpreter for the package's own functions (nothing is executed).

Values are finite sets of atoms: None, booleans, string constants or an arbitrary string of known minimal length, integer
intervals relative to a symbolic base, tuples, match objects with the pattern that produced them, instances, module constants
folded from the source, references to abstract heap objects (recency abstraction per allocation site), an opaque well-formed
token, or an unknown value. Dictionary objects know their keys (present on every path or only on some) and the value of each.
Calls into the package are interpreted with the callee's body (targets from the points-to call graph), memoised on the
abstract arguments; a client may replace a call by its contract. States are kept apart per path up to a bound, then joined.
An unknown value never raises an alarm."""
import ast
import re
try:
    from re import _parser as sre_parse
except ImportError:                                   # pragma: no cover
    import sre_parse
from .core import *
from .fold import Fold, Pat, UNK, known

TOPA, NONE = ("top",), ("none",)
TOP = frozenset({TOPA})
VNONE = frozenset({NONE})
VSTR = frozenset({("str*", 0)})
VSTR1 = frozenset({("str*", 1)})
VBOOL = frozenset({("bool", True), ("bool", False)})
VTRUE, VFALSE = frozenset({("bool", True)}), frozenset({("bool", False)})
VTOK = frozenset({("tok",)})
VINT = frozenset({("int", None, None, None)})
VNAT = frozenset({("int", None, 0, None)})
MAXCONST = 48


def vint(lo, hi=None, base=None):
    return frozenset({("int", base, lo, hi)})


def vstr(s):
    return frozenset({("str", s)})


def norm(atoms):
    atoms = frozenset(atoms)
    if TOPA in atoms:
        return frozenset(a for a in atoms if a[0] in ("top", "ref", "tok"))
    ns = sum(1 for a in atoms if a[0] in ("str", "str*"))
    if ns > 1 and (ns > MAXCONST or any(a[0] == "str*" for a in atoms)):
        m = min((a[1] if a[0] == "str*" else min(len(a[1]), 1)) for a in atoms if a[0] in ("str", "str*"))
        atoms = frozenset(a for a in atoms if a[0] not in ("str", "str*")) | {("str*", m)}
    ints = [a for a in atoms if a[0] == "int"]
    if len(ints) > 1:
        by = {}
        for a in ints:
            by.setdefault(a[1], []).append(a)
        new = set()
        for b, xs in by.items():
            if len(xs) <= 4 and b is None and all(x[2] is not None and x[2] == x[3] for x in xs):
                new |= set(xs)
                continue
            lo = None if any(x[2] is None for x in xs) else min(x[2] for x in xs)
            hi = None if any(x[3] is None for x in xs) else max(x[3] for x in xs)
            new.add(("int", b, lo, hi))
        atoms = frozenset(a for a in atoms if a[0] != "int") | new
    tups = [a for a in atoms if a[0] == "tup"]
    if len(tups) > 4:
        n = {len(t[1]) for t in tups}
        rest = frozenset(a for a in atoms if a[0] != "tup")
        if len(n) == 1:
            k = n.pop()
            atoms = rest | {("tup", tuple(norm(frozenset().union(*[t[1][i] for t in tups])) for i in range(k)))}
        else:
            return norm(rest | {TOPA})
    ms = [a for a in atoms if a[0] == "match"]
    if len(ms) > 16:
        atoms = frozenset(a for a in atoms if a[0] != "match") | {("match", None)}
    if sum(1 for a in atoms if a[0] == "kon") > 16:
        return norm(frozenset(a for a in atoms if a[0] != "kon") | {TOPA})
    return atoms


def join(*vs):
    vs = [v for v in vs if v is not None]
    if not vs:
        return frozenset()
    if len(vs) == 1 or all(v == vs[0] for v in vs[1:]):
        return vs[0]
    return norm(frozenset().union(*vs))


def widen(a, b):
    """b is the new value; integer bounds that moved go to infinity"""
    if a == b:
        return b
    out = set()
    for x in b:
        if x[0] == "int":
            o = [y for y in a if y[0] == "int" and y[1] == x[1]]
            if o:
                lo0 = None if any(y[2] is None for y in o) else min(y[2] for y in o)
                hi0 = None if any(y[3] is None for y in o) else max(y[3] for y in o)
                lo = x[2] if lo0 is not None and x[2] is not None and x[2] >= lo0 else None
                hi = x[3] if hi0 is not None and x[3] is not None and x[3] <= hi0 else None
                if lo is None and lo0 is not None and lo0 >= 0 and x[2] is not None and x[2] >= 0:
                    lo = 0
                out.add(("int", x[1], lo, hi))
                continue
        if x[0] == "tup":
            o = [y for y in a if y[0] == "tup" and len(y[1]) == len(x[1])]
            if len(o) == 1 and o[0] != x:
                out.add(("tup", tuple(widen(p, q) for p, q in zip(o[0][1], x[1]))))
                continue
        out.add(x)
    return norm(out)


class Kon:
    """a folded constant container (hashable by identity)"""
    cache = {}

    def __init__(self, v):
        self.v = v

    @classmethod
    def of(cls, v):
        k = cls.cache.get(id(v))
        if k is None:
            k = cls(v)
            cls.cache[id(v)] = k
        return k


def lift(v):
    """a folded Python value as an abstract value"""
    if v is UNK:
        return TOP
    if v is None:
        return VNONE
    if isinstance(v, bool):
        return VTRUE if v else VFALSE
    if isinstance(v, int):
        return vint(v, v)
    if isinstance(v, str):
        return vstr(v)
    if isinstance(v, Pat):
        if isinstance(v.pattern, str):
            return frozenset({("pat", v.pattern, v.flags if isinstance(v.flags, int) else 0)})
        return frozenset({("pat", None, 0)})
    if isinstance(v, (dict, list, set, frozenset)):
        return frozenset({("kon", Kon.of(v))})
    if isinstance(v, tuple):
        if v and v[0] == "ext":
            return TOP
        if len(v) <= 8:
            return frozenset({("tup", tuple(lift(x) for x in v))})
        return frozenset({("kon", Kon.of(v))})
    return TOP


# ---------------------------------------------------------------- patterns
_pinfo = {}


def pinfo(pattern, flags):
    """(minimal width, {group: (always participates, minimal width)})"""
    k = (pattern, flags)
    if k in _pinfo:
        return _pinfo[k]
    try:
        t = sre_parse.parse(pattern, flags)
    except Exception:
        _pinfo[k] = None
        return None
    groups = {}

    def walk(seq, sure):
        for op, av in seq:
            nm = str(op)
            if nm == "SUBPATTERN":
                g, _, _, p = av
                if g is not None:
                    groups[g] = (sure, p.getwidth()[0])
                walk(p, sure)
            elif nm in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
                walk(av[2], sure and av[0] >= 1)
            elif nm == "BRANCH":
                for b in av[1]:
                    walk(b, False)
            elif nm == "ASSERT":
                walk(av[1], sure)
            elif nm == "ASSERT_NOT":
                walk(av[1], False)
            elif nm == "ATOMIC_GROUP":
                walk(av, sure)
            elif nm == "GROUPREF_EXISTS":
                walk(av[1], False)
                if av[2]:
                    walk(av[2], False)
    walk(t, True)
    names = dict(t.state.groupdict)
    _pinfo[k] = (t.getwidth()[0], groups, names)
    return _pinfo[k]


def gkey(e):
    """m.group(1), m[1] -> ('m', 1)"""
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "group" and len(e.args) == 1 and not e.keywords:
        b, k = e.func.value, e.args[0]
    elif isinstance(e, ast.Subscript):
        b, k = e.value, e.slice
    else:
        return None
    if isinstance(b, ast.Name) and isinstance(k, ast.Constant) and isinstance(k.value, (int, str)):
        return b.id, repr(k.value)


_combos = {}


def combos(pattern, flags):
    """the sets of groups that can be matched (not empty) together, None: too many"""
    k = (pattern, flags)
    if k in _combos:
        return _combos[k]

    def seq(items):
        cur = {frozenset()}
        for op, av in items:
            nm = str(op)
            if nm == "SUBPATTERN":
                r = seq(av[3])
                if av[0] is not None:
                    r = {x | {av[0]} if av[3].getwidth()[0] > 0 else x for x in r}
            elif nm in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
                r = seq(av[2]) | ({frozenset()} if av[0] == 0 else set())
            elif nm == "BRANCH":
                r = set().union(*(seq(b) for b in av[1]))
            elif nm == "ATOMIC_GROUP":
                r = seq(av)
            else:
                continue
            cur = {a | b for a in cur for b in r}
            if len(cur) > 500:
                raise OverflowError
        return cur
    try:
        r = seq(sre_parse.parse(pattern, flags))
    except Exception:
        r = None
    _combos[k] = r
    return r


# ---------------------------------------------------------------- states
class S:
    __slots__ = ("env", "heap", "_k")

    def __init__(self, env=None, heap=None):
        self.env, self.heap, self._k = env or {}, heap or {}, None

    def key(self):
        if self._k is None:
            self._k = (frozenset(self.env.items()), frozenset(self.heap.items()))
        return self._k

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, S) and self.key() == o.key()

    def set(self, k, v):
        if self.env.get(k) == v:
            return self
        e = dict(self.env)
        e[k] = v
        return S(e, self.heap)

    def cell(self, r, c):
        if self.heap.get(r) == c:
            return self
        h = dict(self.heap)
        h[r] = c
        return S(self.env, h)


def joincell(a, b):
    if a is None or a == b:
        return b
    if b is None:
        return a
    if a[0] != b[0]:
        return ("any",)
    if a[0] == "list":
        return ("list", join(a[1], b[1]), min(a[2], b[2]), None if a[3] is None or b[3] is None else max(a[3], b[3]))
    if a[0] == "dict":
        da, db = dict(a[1]), dict(b[1])
        out = {}
        for k in set(da) | set(db):
            if k in da and k in db:
                out[k] = (join(da[k][0], db[k][0]), da[k][1] and db[k][1])
            else:
                v = da.get(k) or db.get(k)
                r = b[2] if k in da else a[2]
                out[k] = (join(v[0], r) if r else v[0], False)
        return ("dict", mk(out), join(a[2], b[2]) if a[2] or b[2] else None)
    return a


def mk(d):
    return tuple(sorted(d.items(), key=lambda kv: kv[0]))


def joinstate(a, b, w=False):
    if a is None or a == b:
        return b
    env = {}
    for k in set(a.env) | set(b.env):
        x, y = a.env.get(k), b.env.get(k)
        if (x is None or y is None) and k[1][:1] == "@":
            continue
        env[k] = y if x is None else x if y is None else (widen(x, join(x, y)) if w else join(x, y))
    heap = {}
    for r in set(a.heap) | set(b.heap):
        c = joincell(a.heap.get(r), b.heap.get(r))
        if w and c[0] == "list" and r in a.heap and a.heap[r][0] == "list":
            o = a.heap[r]
            c = ("list", c[1], c[2] if c[2] == o[2] else 0, c[3] if c[3] == o[3] else None)
        heap[r] = c
    return S(env, heap)


def refs_in(v, out):
    for a in v:
        if a[0] == "ref":
            out.add(a)
        elif a[0] == "tup":
            for x in a[1]:
                refs_in(x, out)


def cellvals(c):
    if c[0] == "list":
        return [c[1]]
    if c[0] == "dict":
        return [v for _, (v, _) in c[1]] + ([c[2]] if c[2] else [])
    return []


def reachable(st, vals):
    seen = set()
    todo = set()
    for v in vals:
        refs_in(v, todo)
    while todo:
        r = todo.pop()
        if r in seen:
            continue
        seen.add(r)
        c = st.heap.get(r)
        if c:
            n = set()
            for v in cellvals(c):
                refs_in(v, n)
            todo |= n - seen
    return seen


def gc(st, roots=frozenset()):
    live = reachable(st, list(st.env.values()) + [roots])
    if len(live) >= len(st.heap):
        return st
    return S(st.env, {r: c for r, c in st.heap.items() if r in live})


def subst(v, old, new):
    if not any(a == old or a[0] == "tup" for a in v):
        return v
    out = set()
    for a in v:
        if a == old:
            out.add(new)
        elif a[0] == "tup":
            out.add(("tup", tuple(subst(x, old, new) for x in a[1])))
        else:
            out.add(a)
    return frozenset(out)


def substcell(c, old, new):
    if c[0] == "list":
        return ("list", subst(c[1], old, new), c[2], c[3])
    if c[0] == "dict":
        return ("dict", tuple((k, (subst(v, old, new), m)) for k, (v, m) in c[1]), subst(c[2], old, new) if c[2] else None)
    return c


def age(st, r):
    """the most recent object of a site becomes one of its older ones"""
    if r not in st.heap:
        return st
    o = ("ref", r[1], "o")
    env = {k: subst(v, r, o) for k, v in st.env.items()}
    heap = {}
    for q, c in st.heap.items():
        c = substcell(c, r, o)
        if q == r:
            q = o
        heap[q] = joincell(heap.get(q), c) if q in heap else c
    return S(env, heap)


def alloc(st, site, c):
    r = ("ref", site, "n")
    # contents evaluated before the allocation may point at the previous object of this site
    if r in st.heap:
        o = ("ref", site, "o")
        c = substcell(c, r, o)
        st = age(st, r)
    return st.cell(r, c), r


def dictcell(d, rest=None):
    return ("dict", mk(d), rest)


EMPTYLIST = ("list", frozenset(), 0, 0)


class Frame:
    __slots__ = ("func", "ctx", "fid", "module", "outer", "selfname", "call")

    def __init__(self, func, ctx, fid, outer=None, call=None):
        self.func, self.ctx, self.fid, self.outer, self.call = func, ctx, fid, outer, call
        self.module = func.module


class Client:
    """override to supply contracts and to look at events"""

    def call(self, e, fr, st, targets, recv, args, kw, ai):
        return None

    def event(self, kind, node, fr, st, v, ai, **kw):
        pass

    def skip(self, f):
        return False

    def isinst(self, a, classes, names, node, fr):
        return None

    groupfacts = False  # remember tests of match groups
    gens = False        # follow generator functions (as the list of what they yield)

    roots = frozenset()        # references every function can reach (what attrv answers with)

    def attrv(self, e, fr, st, base, ai):
        return None

    def mgroup(self, pat, flags, g, e, fr):
        return None

    def rematch(self, op, pats, subj, e, fr, ai):
        """the patterns of `pats` that can match, or None to keep them all"""
        return None


STRM_SAME = {"strip", "lstrip", "rstrip", "lower", "upper", "title", "capitalize", "replace", "zfill", "ljust", "rjust", "center", "expandtabs", "casefold", "swapcase",
             "removeprefix", "removesuffix", "translate", "format", "join", "format_map"}
STRM_BOOL = {"startswith", "endswith", "isdigit", "isspace", "isalpha", "isalnum", "isupper", "islower", "isnumeric", "isidentifier", "isdecimal", "istitle", "isascii", "isprintable"}
LOGM = {"debug", "info", "warning", "warn", "error", "exception", "critical", "log"}


class AI:
    PATHS = 14
    LOOPHEAD = 3
    DEPTH = 16

    def __init__(self, p, client=None):
        self.p, self.prog, self.c = p, p.prog, client or Client()
        self.fold = Fold(p.prog)
        self.memo = {}
        self._rebound = {}
        self.stack = []
        self.unknown = {}
        self.stats = {"functions": set(), "calls": 0, "cut": 0}
        self.objcls = {}

    # ------------------------------------------------------------ helpers
    def cap(self, xs, n=None):
        """dedupe states / (state, value) pairs; join when there are too many"""
        n = n or self.PATHS
        seen, out = set(), []
        for x in xs:
            if x in seen:
                continue
            seen.add(x)
            out.append(x)
        if len(out) <= n:
            return out
        if isinstance(out[0], tuple):
            # group by the shape of the value first
            groups = {}
            for s, v in out:
                groups.setdefault(self.sig(v, s), []).append((s, v))
            if len(groups) > n:
                groups = {0: out}
            res = []
            for g in groups.values():
                s, v = g[0]
                for s2, v2 in g[1:]:
                    s, v = joinstate(s, s2), join(v, v2)
                res.append((s, v))
            return res
        groups = {}
        for s in out:
            groups.setdefault(self.ssig(s), []).append(s)
        if len(groups) > n:
            groups = {0: out}
        res = []
        for g in groups.values():
            s = g[0]
            for s2 in g[1:]:
                s = joinstate(s, s2)
            res.append(s)
        return res

    def sig(self, v, st):
        out = []
        for a in v:
            if a[0] == "tup":
                out.append(("tup",) + tuple(self.sig(x, st) for x in a[1]))
            elif a[0] == "ref":
                c = st.heap.get(a)
                t = None
                if c and c[0] == "dict":
                    t = dict(c[1]).get("type")
                    t = t and t[0]
                out.append((a[1], t))
            elif a[0] == "int":
                out.append(("int", a[2] is not None and a[2] > 0, a[3] == 0))
            elif a[0] in ("str", "str*"):
                out.append("str")
            else:
                out.append(a[0] if a[0] != "bool" else a)
        return frozenset(out)

    def ssig(self, s):
        return frozenset((k, frozenset("none" if a == NONE else a if a[0] == "bool" else "x" for a in v)) for k, v in s.env.items() if any(a == NONE or a[0] == "bool" for a in v))

    def joinall(self, xs):
        s = None
        for x in xs:
            s = joinstate(s, x)
        return s

    def conv(self, objs, strong=True):
        """points-to objects as an abstract value"""
        out = set()
        if not objs:
            return TOP
        for o in objs:
            if o.kind == "inst":
                out.add(("inst", o))
            elif o.kind in ("list", "dict", "tuple", "set"):
                out.add(("pobj", o))
            elif o.kind in ("func", "bound"):
                out.add(("fn", o))
            else:
                return TOP
        return norm(out)

    # ------------------------------------------------------------ functions
    def run(self, f, ctx, args, st, outer=None, call=None):
        """interpret f with args {param: V}; -> list of (state, V)"""
        depth = len(self.stack)
        if depth > self.DEPTH or sum(1 for g in self.stack if g is f) >= (2 if f.parent is None else 3) or self.c.skip(f):
            self.stats["cut"] += 1
            return [(st, TOP)]
        self.stats["functions"].add(f)
        memoable = f.parent is None and not f.is_lambda
        key = None
        if memoable:
            rs = reachable(st, list(args.values()) + [self.c.roots] if self.c.roots else args.values())
            frag = frozenset((r, st.heap[r]) for r in rs if r in st.heap)
            key = (f, ctx, frozenset(args.items()), frag)
            m = self.memo.get(key)
            if m is None:
                if sum(1 for k in self.memo if k[0] is f) > 400:
                    self.stats["cut"] += 1
                    return [(st, TOP)]
                inner = S({}, dict(frag))
                res = self._run(f, ctx, args, inner, None, call)
                before = {r for r, _ in frag}
                m = []
                for s, v in res:
                    m.append((v, s.heap, s.env.get(("alloc",), frozenset())))
                self.memo[key] = m
            out = []
            for v, heap, _ in m:
                s = st
                before = {r for r, _ in frag}
                args_live = rs
                new = [r for r in heap if r not in before]
                for r in new:
                    if r[2] == "n" and r in s.heap:
                        s = age(s, r)
                # a parameter object that was re-allocated inside shows up as both n and o
                h = dict(s.heap)
                for r, c in heap.items():
                    if r in before or r not in h:
                        h[r] = c
                    else:
                        h[r] = joincell(h[r], c)
                out.append((S(s.env, h), v))
            return self.cap(out)
        res = self._run(f, ctx, args, st, outer, call)
        return res

    def _run(self, f, ctx, args, st, outer, call):
        fid = len(self.stack)
        self.stack.append(f)
        fr = Frame(f, ctx, fid, outer, call)
        try:
            env = dict(st.env)
            for k in [k for k in env if k[0] == fid]:
                del env[k]
            for n, v in args.items():
                env[(fid, n)] = v
            s0 = S(env, st.heap)
            for n, d in f.defaults.items():
                if n not in args:
                    vs = self.default(f, d)
                    s0 = s0.set((fid, n), vs)
            for n in f.params:
                if (fid, n) not in s0.env:
                    s0 = s0.set((fid, n), TOP)
            if f.is_gen and not self.c.gens:
                return [(st, TOP)]
            if f.is_gen:
                s0, y = alloc(s0, ("yield", id(f.node)), EMPTYLIST)
                s0 = s0.set((fid, "<yield>"), frozenset({y}))
            outs = self.block(f.body, [s0], fr)
            res = [(s, v) for s, v in outs["ret"]] + [(s, VNONE) for s in outs["next"]]
            if f.is_gen:
                res = [(s, s.env.get((fid, "<yield>"), TOP)) for s, _ in res]
            out = []
            for s, v in res:
                e = {k: x for k, x in s.env.items() if k[0] != fid}
                live = reachable(s, list(e.values()) + [v, self.c.roots] + ([x for x in args.values()] if call is not None else []))
                if f.parent is None and not f.is_lambda:
                    live |= reachable(s, args.values()) | {r for r in st.heap}
                    out.append((S(e, {r: c for r, c in s.heap.items() if r in live or r in st.heap}), v))
                else:
                    out.append((S(e, s.heap), v))
            return self.cap(out)
        finally:
            self.stack.pop()

    def default(self, f, d):
        if isinstance(d, ast.Constant):
            return lift(d.value)
        try:
            v = self.fold.safe(d, self.fold.module(f.module))
            if isinstance(v, (str, int, bool, tuple)) or v is None:
                return lift(v)
        except Exception:
            pass
        return TOP

    # ------------------------------------------------------------ statements
    def empty(self):
        return {"next": [], "ret": [], "brk": [], "cnt": [], "exc": []}

    def block(self, body, states, fr):
        outs = self.empty()
        cur = self.cap(states)
        for s in body:
            nxt = []
            if self.trail is not None:
                self.trail[-1].extend(cur)
            for st in cur:
                o = self.stmt(s, st, fr)
                nxt += o["next"]
                for k in ("ret", "brk", "cnt", "exc"):
                    outs[k] += o[k]
            cur = self.cap([gc(x, self.c.roots) for x in nxt])
            if not cur:
                break
        outs["next"] = cur
        for k in ("ret", "brk", "cnt", "exc"):
            outs[k] = self.cap(outs[k], 24 if k == "ret" else None)
        return outs

    trail = None

    def stmt(self, s, st, fr):
        o = self.empty()
        t = type(s)
        if t is ast.Expr:
            o["next"] = [a for a, _ in self.ev(s.value, st, fr)]
        elif t is ast.Assign:
            for a, v in self.ev(s.value, st, fr):
                xs = [a]
                for tg in s.targets:
                    xs = [y for x in xs for y in self.assign(tg, v, x, fr)]
                o["next"] += xs
        elif t is ast.AnnAssign:
            if s.value is None:
                o["next"] = [st]
            else:
                for a, v in self.ev(s.value, st, fr):
                    o["next"] += self.assign(s.target, v, a, fr)
        elif t is ast.AugAssign:
            load = ast.copy_location(_aug_load(s.target), s.target)
            for a, l in self.ev(load, st, fr):
                for b, r in self.ev(s.value, a, fr):
                    # in-place on lists
                    lists = [x for x in l if x[0] == "ref" and b.heap.get(x, ("",))[0] == "list"]
                    if lists and isinstance(s.op, ast.Add):
                        elem, lo, hi = self.itervals(r, b)
                        for x in lists:
                            c = b.heap[x]
                            n = ("list", join(c[1], elem), c[2] + (lo if x[2] == "n" else 0), None if c[3] is None or hi is None else c[3] + hi)
                            b = b.cell(x, n)
                            self.c.event("store", s, fr, b, elem, self, base=frozenset({x}), key="[]")
                        o["next"].append(b)
                        continue
                    for b2, v in self.binop(s.op, l, r, b, s, fr):
                        o["next"] += self.assign(s.target, v, b2, fr)
        elif t is ast.Return:
            if s.value is None:
                o["ret"] = [(st, VNONE)]
            else:
                o["ret"] = self.ev(s.value, st, fr)
            for a, v in o["ret"]:
                self.c.event("return", s, fr, a, v, self)
        elif t is ast.If:
            T, F = self.branch(s.test, st, fr)
            r1 = self.block(s.body, T, fr) if T else self.empty()
            r2 = self.block(s.orelse, F, fr) if F else self.empty()
            for k in o:
                o[k] = r1[k] + r2[k]
        elif t is ast.While:
            return self.while_(s, st, fr)
        elif t in (ast.For, ast.AsyncFor):
            return self.for_(s, st, fr)
        elif t is ast.Break:
            o["brk"] = [st]
        elif t is ast.Continue:
            o["cnt"] = [st]
        elif t is ast.Raise:
            o["exc"] = [st]
            self.c.event("raise", s, fr, st, None, self)
        elif t is ast.Try:
            return self.try_(s, st, fr)
        elif t is ast.With:
            xs = [st]
            for it in s.items:
                ys = []
                for x in xs:
                    for a, v in self.ev(it.context_expr, x, fr):
                        ys += self.assign(it.optional_vars, TOP, a, fr) if it.optional_vars is not None else [a]
                xs = ys
            return self.block(s.body, xs, fr)
        elif t in (ast.FunctionDef, ast.AsyncFunctionDef):
            o["next"] = [st.set((fr.fid, s.name), TOP)]
        elif t is ast.Assert:
            T, F = self.branch(s.test, st, fr)
            o["next"] = T
        elif t is ast.Delete:
            xs = [st]
            for tg in s.targets:
                if isinstance(tg, ast.Subscript):
                    ys = []
                    for x in xs:
                        for a, b in self.ev(tg.value, x, fr):
                            for a2, k in self.ev(tg.slice, a, fr) if not isinstance(tg.slice, ast.Slice) else [(a, TOP)]:
                                ys.append(self.delkey(a2, b, k))
                    xs = ys
            o["next"] = xs
        else:
            o["next"] = [st]
        return o

    def delkey(self, st, base, key):
        ks = [a[1] for a in key if a[0] == "str"]
        for r in [a for a in base if a[0] == "ref"]:
            c = st.heap.get(r)
            if c and c[0] == "dict" and len(ks) == 1 and len(key) == 1:
                d = dict(c[1])
                if ks[0] in d:
                    if r[2] == "n" and len(base) == 1:
                        del d[ks[0]]
                    else:
                        d[ks[0]] = (d[ks[0]][0], False)
                    st = st.cell(r, ("dict", mk(d), c[2]))
            elif c and c[0] == "dict":
                st = st.cell(r, ("dict", tuple((k, (v, False)) for k, (v, m) in c[1]), c[2]))
            elif c and c[0] == "list":
                st = st.cell(r, ("list", c[1], 0, c[3]))
        return st

    def while_(self, s, st, fr):
        o = self.empty()
        heads = [st]
        final = []
        seen = []
        for it in range(14):
            T, F = [], []
            for h in heads:
                a, b = self.branch(s.test, h, fr)
                T += a
                F += b
            final = F
            self.c.event("loophead", s, fr, None, None, self, states=T)
            r = self.block(s.body, T, fr) if T else self.empty()
            back = r["next"] + r["cnt"]
            self.c.event("loopback", s, fr, None, None, self, states=back, start=T)
            last = r
            new = self.loopjoin(heads, back, it)
            if new is None:
                break
            heads = new
        for k in ("ret", "exc"):
            o[k] = last[k]
        xs = final
        if s.orelse and xs:
            r = self.block(s.orelse, xs, fr)
            xs = r["next"]
            for k in ("ret", "exc", "brk", "cnt"):
                o[k] += r[k]
        o["next"] = self.cap(xs + last["brk"])
        return o

    def loopjoin(self, heads, back, it):
        """None when the head states already cover the states at the back edge"""
        back = [gc(b, self.c.roots) for b in back]
        todo = [b for b in back if not any(self.covers(h, b) for h in heads)]
        if not todo:
            return None
        allh = heads + todo
        if it < 2 and len(allh) <= self.LOOPHEAD:
            return self.cap(allh)
        base = self.joinall(heads)
        new = self.joinall(todo)
        return [joinstate(base, new, w=it >= 3)]

    def covers(self, h, b):
        return joinstate(h, b) == h

    def for_(self, s, st, fr):
        o = self.empty()
        outs = []
        for a, alts, lo, kind in self.iter_alts(s.iter, st, fr):
            heads = [a]
            post = []
            last = self.empty()
            for it in range(14):
                bodies = []
                for h in heads:
                    for v in alts(h) if callable(alts) else alts:
                        bodies += self.assign(s.target, v, h, fr)
                if not bodies:
                    break
                r = self.empty()
                # every alternative of a constant table is followed separately
                if kind == "table":
                    for b in bodies:
                        q = self.block(s.body, [b], fr)
                        for k in r:
                            r[k] += q[k]
                else:
                    r = self.block(s.body, bodies, fr)
                back = r["next"] + r["cnt"]
                self.c.event("forback", s, fr, None, None, self, states=back)
                last = r
                post = self.cap(back)
                new = self.loopjoin(heads, back, it)
                if new is None:
                    break
                heads = new
            for k in ("ret", "exc"):
                o[k] += last[k]
            xs = self.cap((heads if lo == 0 else post) + [])
            if s.orelse and xs:
                r = self.block(s.orelse, xs, fr)
                xs = r["next"]
                for k in ("ret", "exc", "brk", "cnt"):
                    o[k] += r[k]
            outs += xs + last["brk"]
        o["next"] = self.cap(outs)
        o["ret"] = self.cap(o["ret"], 40)
        return o

    def iter_alts(self, e, st, fr):
        """-> [(state, [V per alternative element], min iterations, kind)]"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("enumerate", "reversed", "sorted", "list", "tuple", "set") and e.args:
            out = []
            for a, alts, lo, kind in self.iter_alts(e.args[0], st, fr):
                if e.func.id == "enumerate":
                    fn = alts
                    if callable(fn):
                        alts = lambda h, fn=fn: [frozenset({("tup", (VNAT, v))}) for v in fn(h)]
                    else:
                        alts = [frozenset({("tup", (VNAT, v))}) for v in alts]
                out.append((a, alts, lo, kind))
            return out
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "range":
            out = []
            for a, vs in self.evs(e.args, st, fr):
                out.append((a, [VINT if len(vs) > 2 else vint(0) if len(vs) == 1 else VINT], 0, "seq"))
            return out
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "zip":
            out = []
            for a, vs in self.evs(e.args, st, fr):
                out.append((a, lambda h, vs=vs: [frozenset({("tup", tuple(self.itervals(v, h)[0] or TOP for v in vs))})], 0, "seq"))
            return out
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("items", "keys", "values") and not e.args:
            out = []
            for a, v in self.ev(e.func.value, st, fr):
                k = e.func.attr
                kons = [x[1].v for x in v if x[0] == "kon"]
                if len(v) == 1 and kons and isinstance(kons[0], dict):
                    if len(kons[0]) <= 80:
                        alts = [frozenset({("tup", (lift(p), lift(q)))}) if k == "items" else lift(p if k == "keys" else q) for p, q in kons[0].items()]
                        out.append((a, alts, 1 if kons[0] else 0, "table"))
                    else:
                        out.append((a, [frozenset({("tup", (VSTR, TOP))}) if k == "items" else TOP], 0, "seq"))
                    continue

                def alts(h, v=v, k=k):
                    ks, vals = set(), frozenset()
                    pairs = []
                    for x in v:
                        if x[0] == "ref":
                            c = h.heap.get(x)
                            if c and c[0] == "dict":
                                for q, (w, _) in c[1]:
                                    pairs.append((vstr(q), w))
                                if c[2]:
                                    pairs.append((VSTR, c[2]))
                                continue
                            pairs.append((TOP, TOP))
                        else:
                            pairs.append((TOP, TOP))
                    if k == "items":
                        return [frozenset({("tup", pq)}) for pq in pairs]
                    return [p if k == "keys" else q for p, q in pairs]
                out.append((a, alts, 0, "seq"))
            return out
        out = []
        for a, v in self.ev(e, st, fr):
            v = self.deref_iter(v, e, fr, a)
            if len(v) == 1:
                x = next(iter(v))
                if x[0] == "kon" and len(x[1].v) <= 80:
                    out.append((a, [lift(y) for y in x[1].v], 1 if len(x[1].v) else 0, "table"))
                    continue
                if x[0] == "tup":
                    out.append((a, list(x[1]), 1 if x[1] else 0, "table"))
                    continue
                if x[0] == "pobj":
                    objs = set()
                    for fl, n in list(x[1].fields.items()):
                        if fl == "*":
                            objs |= self.p.get(n)
                    cv = self.conv(objs)
                    if all(y[0] in ("inst", "fn") for y in cv):
                        out.append((a, [frozenset({y}) for y in sorted(cv, key=lambda y: y[1].seq)], 0, "table"))
                        continue
                    out.append((a, [cv], 0, "seq"))
                    continue
            lo = min([self.itervals(frozenset({x}), a)[1] for x in v] or [0])

            def alts(h, v=v):
                el = self.itervals(v, h)[0]
                if not el:
                    return []
                return [el]
            out.append((a, alts, lo, "seq"))
        return out

    def deref_iter(self, v, e, fr, st):
        if NONE in v:
            self.c.event("iter-none", e, fr, st, v, self)
            v = frozenset(x for x in v if x != NONE)
        return v

    def itervals(self, v, st):
        """element value, min, max length"""
        el, lo, hi = frozenset(), None, 0
        for x in v:
            if x[0] == "ref":
                c = st.heap.get(x)
                if c and c[0] == "list":
                    e, l, h = c[1], c[2], c[3]
                elif c and c[0] == "dict":
                    e, l, h = join(*[vstr(k) for k, _ in c[1]], VSTR if c[2] else frozenset()), sum(1 for _, (_, m) in c[1] if m), None
                else:
                    e, l, h = TOP, 0, None
            elif x[0] == "tup":
                e, l, h = join(*x[1]) if x[1] else frozenset(), len(x[1]), len(x[1])
            elif x[0] in ("str", "str*"):
                e, l, h = VSTR1, (x[1] if x[0] == "str*" else len(x[1])), None
            elif x[0] == "kon":
                e, l, h = join(*[lift(y) for y in list(x[1].v)[:200]]) if len(x[1].v) else frozenset(), len(x[1].v), len(x[1].v)
            elif x == NONE:
                e, l, h = frozenset(), 0, 0
            else:
                e, l, h = TOP, 0, None
            el = join(el, e)
            lo = l if lo is None else min(lo, l)
            hi = None if hi is None or h is None else max(hi, h)
        return el, lo or 0, hi

    def try_(self, s, st, fr):
        o = self.empty()
        saved = self.trail
        self.trail = (saved or []) + [[]]
        r = self.block(s.body, [st], fr)
        mid = self.trail[-1]
        self.trail = saved
        if saved is not None:
            saved[-1].extend(mid)
        nxt = r["next"]
        if s.orelse and nxt:
            q = self.block(s.orelse, nxt, fr)
            nxt = q["next"]
            for k in ("ret", "brk", "cnt", "exc"):
                r[k] = r[k] + q[k]
        o["next"] = list(nxt)
        for k in ("ret", "brk", "cnt"):
            o[k] = list(r[k])
        entry = self.cap(mid + r["next"] + r["exc"], 4)
        if s.handlers:
            for h in s.handlers:
                xs = [x.set((fr.fid, h.name), TOP) if h.name else x for x in entry]
                q = self.block(h.body, xs, fr)
                for k in o:
                    o[k] += q[k]
        else:
            o["exc"] += r["exc"]
        if s.finalbody:
            f = self.empty()
            for k in ("next", "brk", "cnt", "exc"):
                if o[k]:
                    q = self.block(s.finalbody, o[k], fr)
                    f[k] += q["next"]
                    for j in ("ret", "brk", "cnt", "exc"):
                        if j != k or j == "ret":
                            f[j] += q[j]
            for a, v in o["ret"]:
                q = self.block(s.finalbody, [a.set((fr.fid, "<ret>"), v)], fr)
                for b in q["next"]:
                    f["ret"].append((b, b.env.get((fr.fid, "<ret>"), v)))
                for j in ("ret", "brk", "cnt", "exc"):
                    f[j] += q[j]
            o = f
        return o

    # ------------------------------------------------------------ assignment
    def assign(self, tg, v, st, fr):
        if isinstance(tg, ast.Name):
            f = fr
            if self.c.groupfacts:
                old = [k for k in st.env if k[0] == fr.fid and k[1].startswith("@%s " % tg.id)]
                if old:
                    st = S({k: x for k, x in st.env.items() if k not in old}, st.heap)
            if fr.func is not None and tg.id not in (fr.func.locals or ()):
                f2 = fr.outer
                while f2 is not None:
                    if tg.id in (f2.func.locals or ()):
                        return [st.set((f2.fid, tg.id), v)]
                    f2 = f2.outer
            return [st.set((fr.fid, tg.id), v)]
        if isinstance(tg, ast.Starred):
            st, r = alloc(st, ("star", id(tg)), ("list", v, 0, None))
            return self.assign(tg.value, frozenset({r}), st, fr)
        if isinstance(tg, (ast.Tuple, ast.List)):
            n = len(tg.elts)
            if NONE in v:
                self.c.event("unpack-none", tg, fr, st, v, self)
            tups = [a for a in v if a[0] == "tup"]
            others = [a for a in v if a[0] != "tup" and a != NONE]
            out = []
            for t in tups:
                if len(t[1]) != n or any(isinstance(x, ast.Starred) for x in tg.elts):
                    if not any(isinstance(x, ast.Starred) for x in tg.elts):
                        self.c.event("unpack-len", tg, fr, st, v, self)
                        continue
                    others.append(TOPA)
                    continue
                xs = [st]
                for x, w in zip(tg.elts, t[1]):
                    xs = [y for s in xs for y in self.assign(x, w, s, fr)]
                out += xs
            if others:
                el = self.itervals(frozenset(others), st)
                for a in others:
                    if a[0] == "ref":
                        c = st.heap.get(a)
                        if c and c[0] == "list" and (c[2] < n or c[3] is None or c[3] > n) and not any(isinstance(x, ast.Starred) for x in tg.elts):
                            self.c.event("unpack-list", tg, fr, st, v, self, cell=c, n=n)
                xs = [st]
                for x in tg.elts:
                    xs = [y for s in xs for y in self.assign(x, el[0] or TOP, s, fr)]
                out += xs
            return self.cap(out)
        if isinstance(tg, ast.Subscript):
            out = []
            for a, b in self.ev(tg.value, st, fr):
                if isinstance(tg.slice, ast.Slice):
                    out.append(a)
                    continue
                for a2, k in self.ev(tg.slice, a, fr):
                    if NONE in b:
                        self.c.event("sub-none", tg, fr, a2, b, self)
                    out.append(self.setitem(a2, b, k, v, tg, fr))
            return self.cap(out)
        if isinstance(tg, ast.Attribute):
            out = []
            for a, b in self.ev(tg.value, st, fr):
                if NONE in b:
                    self.c.event("attr-none", tg, fr, a, b, self)
                self.c.event("store", tg, fr, a, v, self, base=b, key="." + tg.attr)
                out.append(a)
            return self.cap(out)
        return [st]

    def setitem(self, st, base, key, v, node, fr):
        refs = [a for a in base if a[0] == "ref"]
        strong = len(refs) == 1 and len(base) == 1 and refs[0][2] == "n"
        ks = [a[1] for a in key if a[0] == "str"]
        exact = len(key) == 1 and len(ks) == 1
        self.c.event("store", node, fr, st, v, self, base=base, key=ks[0] if exact else None)
        for r in refs:
            c = st.heap.get(r)
            if c is None:
                continue
            if c[0] == "dict":
                d = dict(c[1])
                if exact:
                    k = ks[0]
                    if strong:
                        d[k] = (v, True)
                    else:
                        old = d.get(k)
                        d[k] = (join(old[0], v), old[1]) if old else (join(v, c[2]) if c[2] else v, False)
                    st = st.cell(r, ("dict", mk(d), c[2]))
                elif ks and len(ks) == len(key):
                    for k in ks:
                        old = d.get(k)
                        d[k] = (join(old[0], v), old[1]) if old else (v, False)
                    st = st.cell(r, ("dict", mk(d), c[2]))
                else:
                    st = st.cell(r, ("dict", tuple((k, (join(w, v), m)) for k, (w, m) in c[1]), join(c[2], v) if c[2] else v))
            elif c[0] == "list":
                st = st.cell(r, ("list", join(c[1], v), c[2], c[3]))
        return st

    # ------------------------------------------------------------ expressions
    def evs(self, es, st, fr):
        out = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in out:
                for s2, v in self.ev(e, s, fr):
                    nxt.append((s2, vs + [v]))
            if len(nxt) > self.PATHS:
                s, vs = nxt[0]
                for s2, vs2 in nxt[1:]:
                    s = joinstate(s, s2)
                    vs = [join(a, b) for a, b in zip(vs, vs2)]
                nxt = [(s, vs)]
            out = nxt
        return out

    def ev(self, e, st, fr):
        r = self._ev(e, st, fr)
        if len(r) > 1:
            r = self.cap(r)
        return r

    def rebound(self, f):
        """variables of f that functions defined in it rebind (nonlocal): any call may change them"""
        r = self._rebound.get(f)
        if r is None:
            r = self._rebound[f] = frozenset(x for n in ast.walk(f.node) if isinstance(n, ast.Nonlocal) for x in n.names)
        return r

    def name(self, e, st, fr):
        f = fr
        while f is not None:
            v = st.env.get((f.fid, e.id))
            if v is not None:
                if f.func is not None and e.id in self.rebound(f.func):
                    return VINT if all(a[0] == "int" for a in v) else TOP
                return v
            if f.func is not None and e.id in (f.func.locals or ()):
                return TOP
            f = f.outer
        m = fr.module
        r = self.prog.resolve_global(m.name, e.id)
        if isinstance(r, tuple) and r and r[0] == "global":
            v = lift(self.fold.global_(m, e.id))
            if v == TOP:
                return self.conv({o for o in self.p.get(("E", id(e), fr.ctx)) if o.kind in ("inst", "func", "bound", "class")})
            return v
        return TOP

    def _ev(self, e, st, fr):
        t = type(e)
        if t is ast.Constant:
            return [(st, lift(e.value) if isinstance(e.value, (str, int, bool)) or e.value is None else TOP)]
        if t is ast.Name:
            return [(st, self.name(e, st, fr))]
        if t is ast.Dict:
            return self.dictlit(e, st, fr)
        if t in (ast.List, ast.Set):
            return self.listlit(e, st, fr)
        if t is ast.Tuple:
            if any(isinstance(x, ast.Starred) for x in e.elts):
                return [(s, TOP) for s, _ in self.evs([x.value if isinstance(x, ast.Starred) else x for x in e.elts], st, fr)]
            return [(s, frozenset({("tup", tuple(vs))})) for s, vs in self.evs(e.elts, st, fr)]
        if t is ast.Call:
            return self.call(e, st, fr)
        if t is ast.Attribute:
            return self.attr(e, st, fr)
        if t is ast.Subscript:
            return self.subscript(e, st, fr)
        if t is ast.BinOp:
            out = []
            for s, (a, b) in self.evs([e.left, e.right], st, fr):
                out += self.binop(e.op, a, b, s, e, fr)
            return out
        if t is ast.BoolOp:
            return self.boolop(e, st, fr)
        if t is ast.Compare or (t is ast.UnaryOp and isinstance(e.op, ast.Not)):
            T, F = self.branch(e, st, fr)
            return [(s, VTRUE) for s in T] + [(s, VFALSE) for s in F]
        if t is ast.UnaryOp:
            out = []
            for s, v in self.ev(e.operand, st, fr):
                if isinstance(e.op, ast.USub) and all(a[0] == "int" and a[1] is None for a in v) and v:
                    out.append((s, norm({("int", None, None if a[3] is None else -a[3], None if a[2] is None else -a[2]) for a in v})))
                else:
                    out.append((s, VINT if all(a[0] == "int" for a in v) else TOP))
            return out
        if t is ast.IfExp:
            T, F = self.branch(e.test, st, fr)
            out = []
            for s in T:
                out += self.ev(e.body, s, fr)
            for s in F:
                out += self.ev(e.orelse, s, fr)
            return out
        if t is ast.JoinedStr:
            out = []
            parts = [x.value for x in e.values if isinstance(x, ast.FormattedValue)]
            for s, vs in self.evs(parts, st, fr):
                consts = [""]
                vi = iter(vs)
                lit = 0
                for x in e.values:
                    if isinstance(x, ast.Constant):
                        lit += len(str(x.value))
                        if consts is not None:
                            consts = [c + str(x.value) for c in consts]
                    else:
                        v = next(vi)
                        if consts is not None and x.format_spec is None and x.conversion == -1 and v and all(a[0] == "str" for a in v) and len(consts) * len(v) <= MAXCONST:
                            consts = [c + a[1] for c in consts for a in v]
                        else:
                            if v and all(a[0] == "str*" and a[1] >= 1 or a[0] in ("int", "bool", "none") or a[0] == "str" and a[1] for a in v):
                                lit += 1
                            consts = None
                out.append((s, frozenset(("str", c) for c in consts) if consts is not None else VSTR1 if lit else VSTR))
            return out
        if t is ast.Lambda:
            return [(st, frozenset({("lam", e)}))]
        if t in (ast.ListComp, ast.GeneratorExp, ast.SetComp):
            return self.comp(e, st, fr)
        if t is ast.DictComp:
            return self.dictcomp(e, st, fr)
        if t is ast.NamedExpr:
            out = []
            for s, v in self.ev(e.value, st, fr):
                out += [(x, v) for x in self.assign(e.target, v, s, fr)]
            return out
        if t in (ast.Yield, ast.YieldFrom) and self.c.gens and (fr.fid, "<yield>") in st.env:
            out = []
            for s, v in (self.ev(e.value, st, fr) if e.value is not None else [(st, VNONE)]):
                y = next(iter(s.env[fr.fid, "<yield>"]))
                c = s.heap.get(y)
                if t is ast.YieldFrom:
                    el, lo, hi = self.itervals(v, s)
                else:
                    el, lo, hi = v, 1, 1
                if c and c[0] == "list":
                    s = s.cell(y, ("list", join(c[1], el), min(c[2] + lo, 4), None))
                out.append((s, TOP))
            return out
        if t is ast.Starred:
            return self.ev(e.value, st, fr)
        if t is ast.Slice:
            return [(st, TOP)]
        return [(st, TOP)]

    def boolop(self, e, st, fr):
        out = []
        cur = [st]
        for i, x in enumerate(e.values):
            nxt = []
            last = i == len(e.values) - 1
            for s in cur:
                if last:
                    out += self.ev(x, s, fr)
                    continue
                for s2, v in self.ev(x, s, fr):
                    T = self.filt(v, s2, True)
                    F = self.filt(v, s2, False)
                    if isinstance(e.op, ast.And):
                        if F:
                            out.append((self.refine(x, F, s2, fr), F))
                        if T:
                            nxt.append(self.refine(x, T, s2, fr))
                    else:
                        if T:
                            out.append((self.refine(x, T, s2, fr), T))
                        if F:
                            nxt.append(self.refine(x, F, s2, fr))
            if not last:
                # conditions refine better through branch()
                if isinstance(x, (ast.Compare, ast.UnaryOp, ast.BoolOp, ast.Call)):
                    nxt2 = []
                    for s in cur:
                        T, F = self.branch(x, s, fr)
                        nxt2 += T if isinstance(e.op, ast.And) else F
                    nxt = nxt2
                cur = self.cap(nxt)
        if isinstance(e.op, ast.Or) and self.allgroups(e, st, fr):
            out = [(s, self.filt(v, s, True) or v) for s, v in out]
        return self.cap(out)

    def allgroups(self, e, st, fr):
        """m.group(1) or m.group(2): is one of the groups always matched (and not empty)?"""
        base, gs = None, set()
        for x in e.values:
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "group" and len(x.args) == 1 and not x.keywords:
                b, k = x.func.value, x.args[0]
            elif isinstance(x, ast.Subscript):
                b, k = x.value, x.slice
            else:
                return False
            if not isinstance(k, ast.Constant) or not isinstance(b, ast.Name) or (base is not None and b.id != base.id):
                return False
            base = b
            gs.add(k.value)
        v = self.quiet(base, st, fr)
        if not v or any(a[0] != "match" or not a[1] for a in v):
            return False
        for a in v:
            for pat, fl in a[1]:
                c = combos(pat, fl) if pat is not None else None
                info = pinfo(pat, fl) if pat is not None else None
                if c is None or info is None:
                    return False
                w = {info[2].get(g, g) for g in gs}
                if not all(x & w for x in c):
                    return False
        return True

    def dictlit(self, e, st, fr):
        out = []
        exprs = []
        for k, v in zip(e.keys, e.values):
            if k is not None:
                exprs.append(k)
            exprs.append(v)
        for s, vs in self.evs(exprs, st, fr):
            it = iter(vs)
            d, rest = {}, None
            alts = [(d, rest)]
            for k in e.keys:
                if k is None:
                    sp = next(it)
                    nalts = []
                    for d, rest in alts:
                        for a in sp:
                            d2, r2 = dict(d), rest
                            if a[0] == "ref" and s.heap.get(a, ("",))[0] == "dict":
                                c = s.heap[a]
                                for kk, (vv, m) in c[1]:
                                    if m or kk not in d2:
                                        d2[kk] = (vv, m or d2.get(kk, (None, False))[1])
                                    else:
                                        d2[kk] = (join(d2[kk][0], vv), d2[kk][1])
                                if c[2]:
                                    r2 = join(r2, c[2]) if r2 else c[2]
                            elif a[0] == "kon" and isinstance(a[1].v, dict) and all(isinstance(q, str) for q in a[1].v):
                                for q, w in a[1].v.items():
                                    d2[q] = (lift(w), True)
                            elif a == NONE:
                                continue
                            else:
                                d2 = {kk: (TOP, m) for kk, (vv, m) in d2.items()}
                                r2 = TOP
                            nalts.append((d2, r2))
                    alts = nalts
                else:
                    kv, vv = next(it), next(it)
                    ks = [a[1] for a in kv if a[0] == "str"]
                    for i, (d, rest) in enumerate(alts):
                        if len(ks) == len(kv) == 1:
                            d[ks[0]] = (vv, True)
                        elif ks and len(ks) == len(kv):
                            for q in ks:
                                d[q] = (join(d[q][0], vv) if q in d else vv, d.get(q, (0, False))[1])
                        else:
                            alts[i] = (d, join(rest, vv) if rest else vv)
            for d, rest in alts[:8]:
                s2, r = alloc(s, (id(e),), ("dict", mk(d), rest))
                self.c.event("alloc", e, fr, s2, frozenset({r}), self)
                out.append((s2, frozenset({r})))
        return out

    def listlit(self, e, st, fr):
        out = []
        star = [isinstance(x, ast.Starred) for x in e.elts]
        for s, vs in self.evs([x.value if isinstance(x, ast.Starred) else x for x in e.elts], st, fr):
            el, lo, hi = frozenset(), 0, 0
            for v, sp in zip(vs, star):
                if sp:
                    a, l, h = self.itervals(v, s)
                    el = join(el, a)
                    lo += l
                    hi = None if hi is None or h is None else hi + h
                else:
                    el = join(el, v)
                    lo += 1
                    hi = None if hi is None else hi + 1
            if not e.elts:
                el = frozenset()
            s2, r = alloc(s, (id(e),), ("list", el, lo, hi))
            out.append((s2, frozenset({r})))
        return out

    def comp(self, e, st, fr, elt=None):
        out = []
        acc = [(st, frozenset(), 0)]
        elt = elt or e.elt
        states = [(st, False)]
        g0 = e.generators[0]
        results = []
        for a, alts, lo, kind in self.iter_alts(g0.iter, st, fr):
            bodies = [x for v in (alts(a) if callable(alts) else alts) for x in self.assign(g0.target, v, a, fr)]
            post = [a]
            el = frozenset()
            some = bool(g0.ifs) or len(e.generators) > 1
            cur = self.cap(bodies, 40)
            for c in g0.ifs:
                cur = self.cap([y for x in cur for y in self.branch(c, x, fr)[0]], 40)
            for g in e.generators[1:]:
                nxt = []
                for x in cur:
                    for b, alts2, _, _ in self.iter_alts(g.iter, x, fr):
                        ys = [y for v in (alts2(b) if callable(alts2) else alts2) for y in self.assign(g.target, v, b, fr)]
                        for c in g.ifs:
                            ys = [z for y in ys for z in self.branch(c, y, fr)[0]]
                        nxt += ys
                cur = self.cap(nxt, 40)
            s = a
            for x in cur:
                for b, v in self.ev(elt, x, fr):
                    # objects built in different rounds are different objects
                    el = join(el, v)
                    s = joinstate(s, S({k: w for k, w in b.env.items() if k in a.env}, b.heap))
            olds = set()
            refs_in(el, olds)
            for r in olds:
                if r[2] == "n" and r not in a.heap:
                    s = age(s, r)
                    el = subst(el, r, ("ref", r[1], "o"))
            s, r = alloc(s, (id(e),), ("list", el, 0 if some else lo, None))
            results.append((s, frozenset({r})))
        return results

    def knownitems(self, e, st, fr):
        """{k: v for k, v in D.items() if ..} over a dict with known keys: each key on its own"""
        g = e.generators[0]
        if len(e.generators) != 1 or not (isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Attribute) and g.iter.func.attr == "items" and not g.iter.args):
            return None
        out = []
        for a, v in self.ev(g.iter.func.value, st, fr):
            if not v or any(x[0] != "ref" or a.heap.get(x, ("",))[0] != "dict" for x in v):
                return None
            for x in v:
                c = a.heap[x]
                if len(c[1]) > 40:
                    return None
                d, rest = {}, c[2]
                for k, (w, m) in c[1]:
                    cur, lost = self.assign(g.target, frozenset({("tup", (vstr(k), w))}), a, fr), False
                    for t in g.ifs:
                        nxt = []
                        for y in cur:
                            T, F = self.branch(t, y, fr)
                            nxt += T
                            lost |= bool(F)
                        cur = nxt
                    kv = vv = frozenset()
                    for y in cur:
                        for b, q in self.ev(e.key, y, fr):
                            kv = join(kv, q)
                            for b2, q2 in self.ev(e.value, b, fr):
                                vv = join(vv, q2)
                                a = joinstate(a, S({n: z for n, z in b2.env.items() if n in a.env}, b2.heap))
                    if not cur:
                        continue
                    if len(kv) == 1 and next(iter(kv))[0] == "str":
                        q = next(iter(kv))[1]
                        d[q] = (join(d[q][0], vv) if q in d else vv, m and not lost or q in d and d[q][1])
                    else:
                        rest = join(rest, vv) if rest else vv
                s2, r = alloc(a, (id(e), "d"), ("dict", mk(d), rest))
                out.append((s2, frozenset({r})))
        return out

    def dictcomp(self, e, st, fr):
        out = self.knownitems(e, st, fr)
        if out is not None:
            return out
        out = []
        fake = ast.copy_location(ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), e)
        for s, v in self.comp(e, st, fr, elt=fake):
            rest = frozenset()
            d = {}
            for a in v:
                c = s.heap[a]
                for t in c[1]:
                    if t[0] == "tup":
                        rest = join(rest, t[1][1])
                    else:
                        rest = TOP
            s2, r = alloc(s, (id(e), "d"), ("dict", (), rest or None))
            out.append((s2, frozenset({r})))
        return out

    def binop(self, op, a, b, st, node, fr):
        if not a or not b:
            return [(st, TOP)]
        isS = lambda v: all(x[0] in ("str", "str*") for x in v)
        isI = lambda v: all(x[0] in ("int", "bool") for x in v)
        if isinstance(op, ast.Add):
            if isS(a) and isS(b):
                if all(x[0] == "str" for x in a | b) and len(a) * len(b) <= MAXCONST:
                    return [(st, frozenset(("str", x[1] + y[1]) for x in a for y in b))]
                return [(st, VSTR1 if self.nonempty(a) or self.nonempty(b) else VSTR)]
            if isS(a) or isS(b):
                o = b if isS(a) else a
                if NONE in o:
                    self.c.event("op-none", node, fr, st, o, self)
                if isS(a) and self.nonempty(a) or isS(b) and self.nonempty(b):
                    return [(st, VSTR1)]
                return [(st, VSTR)]
            if isI(a) and isI(b):
                return [(st, self.iadd(a, b, 1))]
            if NONE in a | b and (isI(a) or isI(b)):
                self.c.event("op-none", node, fr, st, a | b, self)
            la, lb = [x for x in a if x[0] == "ref"], [x for x in b if x[0] == "ref"]
            if la and lb and len(la) == len(a) and len(lb) == len(b):
                x, l1, h1 = self.itervals(a, st)
                y, l2, h2 = self.itervals(b, st)
                s2, r = alloc(st, (id(node), "+"), ("list", join(x, y), l1 + l2, None if h1 is None or h2 is None else h1 + h2))
                return [(s2, frozenset({r}))]
            ta, tb = [x for x in a if x[0] == "tup"], [x for x in b if x[0] == "tup"]
            if len(ta) == len(a) == 1 and len(tb) == len(b) == 1:
                return [(st, frozenset({("tup", ta[0][1] + tb[0][1])}))]
            return [(st, TOP)]
        if isinstance(op, ast.Sub) and isI(a) and isI(b):
            return [(st, self.iadd(a, b, -1))]
        if isinstance(op, ast.Mod) and isS(a):
            return [(st, VSTR)]
        if isinstance(op, ast.Mult) and (isS(a) or isS(b)):
            return [(st, VSTR)]
        if NONE in a | b and (isI(a - {NONE}) or isS(a - {NONE})) and isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
            self.c.event("op-none", node, fr, st, a | b, self)
        if isI(a) and isI(b):
            return [(st, VINT)]
        return [(st, TOP)]

    def nonempty(self, v):
        return bool(v) and all(x[0] == "str*" and x[1] >= 1 or x[0] == "str" and x[1] for x in v)

    def iadd(self, a, b, sg):
        out = set()
        for x in a:
            for y in b:
                x1 = ("int", None, int(x[1]), int(x[1])) if x[0] == "bool" else x
                y1 = ("int", None, int(y[1]), int(y[1])) if y[0] == "bool" else y
                base = x1[1]
                if y1[1] is not None:
                    if sg == 1 and base is None:
                        base = y1[1]
                    elif sg == -1 and base == y1[1]:
                        base = None
                    else:
                        out.add(("int", None, None, None))
                        continue
                if sg == 1:
                    lo = None if x1[2] is None or y1[2] is None else x1[2] + y1[2]
                    hi = None if x1[3] is None or y1[3] is None else x1[3] + y1[3]
                else:
                    lo = None if x1[2] is None or y1[3] is None else x1[2] - y1[3]
                    hi = None if x1[3] is None or y1[2] is None else x1[3] - y1[2]
                out.add(("int", base, lo, hi))
        return norm(out)

    # ------------------------------------------------------------ attributes and items
    def attr(self, e, st, fr):
        r = self.prog.resolve_dotted(fr.module, e) if isinstance(e.value, (ast.Name, ast.Attribute)) and not self.islocal(e.value, st, fr) else None
        if r is not None:
            if isinstance(r, tuple) and r[0] == "classattr":
                c = r[1]
                if any("Enum" in str(b) for b in c.ext_bases()):
                    v = self.fold.class_attr(c, r[2])
                    return [(st, frozenset({("enum", c, r[2], v)}) if isinstance(v, (str, int)) else TOP)]
                return [(st, lift(self.fold.class_attr(c, r[2])))]
            if isinstance(r, tuple) and r[0] == "global":
                return [(st, lift(self.fold.resolved(r)))]
            if isinstance(r, (Func, Class, Module, str)):
                return [(st, TOP)]
        out = []
        for s, v in self.ev(e.value, st, fr):
            r = self.c.attrv(e, fr, s, v, self)
            if r is not None:
                out.append((s, r))
                continue
            if NONE in v:
                self.c.event("attr-none", e, fr, s, v, self)
            res = frozenset()
            extra = []
            for a in v:
                if a == NONE:
                    continue
                if a[0] == "inst":
                    o = a[1]
                    c = o.key[0]
                    if isinstance(c, Class):
                        m = c.find_method(e.attr)
                        if m is not None and m.is_property:
                            for s2, v2 in self.run(m, self.p.ctx_for(m, o), {m.posargs[0]: frozenset({a})}, s, call=e):
                                extra.append((s2, v2))
                            continue
                        if m is not None:
                            res = join(res, frozenset({("fn", ("m", m, o))}))
                            continue
                        n = o.fields.get(e.attr)
                        objs = self.p.get(n) if n is not None else set()
                        if not objs or not o.fields.get(e.attr):
                            at = c.find_attr(e.attr)
                            if at is not None and n is None:
                                res = join(res, lift(self.fold.class_attr(c, e.attr)))
                                continue
                        if not objs and self.none_field(o, e.attr):
                            res = join(res, VNONE)
                            continue
                        res = join(res, self.conv(objs))
                    else:
                        res = TOP
                elif a[0] == "enum":
                    if e.attr == "value":
                        res = join(res, lift(a[3]))
                    elif e.attr == "name":
                        res = join(res, vstr(a[2]))
                    else:
                        res = TOP
                elif a[0] == "str" and e.attr == "value":
                    res = join(res, frozenset({a}))
                else:
                    res = join(res, TOP)
            if res or not extra:
                out.append((s, res or TOP))
            out += extra
        return out

    def none_field(self, o, attr):
        """the field is only ever set to None: by the constructor, from None itself or a parameter the creating call leaves at None"""
        memo = self.__dict__.setdefault("_nonef", {})
        k = (o, attr)
        if k in memo:
            return memo[k]
        memo[k] = False
        c = o.key[0]
        init = c.find_method("__init__")
        if not isinstance(o.site, ast.Call) or init is None:
            return False
        stores = self.__dict__.get("_attrstores")
        if stores is None:
            stores = self._attrstores = {}
            for f in self.prog.funcs.values():
                for n in walk_own(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        stores.setdefault(n.attr, {})[n] = f
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                        stores.setdefault("*", {})[n] = f
        todo = dict(stores.get(attr, {}))
        seen, good = set(), []

        def bind(f, call, env, skip):
            if any(isinstance(a, ast.Starred) for a in call.args) or any(x.arg is None for x in call.keywords):
                return None
            a = f.node.args
            pos = [x.arg for x in a.posonlyargs + a.args]
            out = {}
            for x, d in zip(reversed(pos), reversed(a.defaults)):
                out[x] = isinstance(d, ast.Constant) and d.value is None
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                out[x.arg] = isinstance(d, ast.Constant) and d.value is None
            val = lambda n: isinstance(n, ast.Constant) and n.value is None or isinstance(n, ast.Name) and bool(env.get(n.id))
            for x, n in zip(pos[skip:], call.args):
                out[x] = val(n)
            for x in call.keywords:
                out[x.arg] = val(x.value)
            return out

        def visit(f, env):
            if f in seen or env is None:
                return False
            seen.add(f)
            assigned = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            env = {k: v for k, v in env.items() if k not in assigned}
            me = f.posargs[0]
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Assign, ast.AnnAssign)):
                    for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        if isinstance(t, ast.Attribute) and t.attr == attr and isinstance(t.value, ast.Name) and t.value.id == me and n.value is not None:
                            v = n.value
                            if not (isinstance(v, ast.Constant) and v.value is None or isinstance(v, ast.Name) and env.get(v.id)):
                                return False
                            todo.pop(t, None)
                            good.append(t)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "__init__":
                    ms = [k for k in f.cls.mro()[1:] if isinstance(k, Class)] if f.cls else []
                    g = next((k.methods["__init__"] for k in ms if "__init__" in k.methods), None)
                    g = g[-1] if isinstance(g, list) else g
                    sup = isinstance(n.func.value, ast.Call)
                    if g is not None and not visit(g, bind(g, n, env, 1 if sup else 0)):
                        return False
            return True
        if not visit(init, bind(init, o.site, {}, 1)) or not good:
            return False
        mro = [k for k in c.mro() if isinstance(k, Class)]
        if stores.get("*"):
            return False
        for n, f in todo.items():
            b = n.value
            if isinstance(b, ast.Name) and f.cls and f.posargs and b.id == f.posargs[0] and f.parent is None:
                if f.cls in mro and (f.name != "__init__" or f in seen) and any(ff is f and cx in (o, None) for ff, cx in self.p.done):
                    return False
                continue
            got = [x for ff, cx in self.p.done if ff is f for x in self.p.get(("E", id(b), cx))]
            if not got or o in got:
                return False
        memo[k] = True
        return True

    def islocal(self, e, st, fr):
        while isinstance(e, ast.Attribute):
            e = e.value
        if not isinstance(e, ast.Name):
            return True
        f = fr
        while f is not None:
            if (f.fid, e.id) in st.env or f.func is not None and e.id in (f.func.locals or ()) and e.id not in getattr(f.func, "limports", {}):
                return True
            f = f.outer
        return False

    def subscript(self, e, st, fr):
        out = []
        if isinstance(e.slice, ast.Slice):
            for s, v in self.ev(e.value, st, fr):
                for x in (e.slice.lower, e.slice.upper, e.slice.step):
                    if x is not None:
                        ss = self.ev(x, s, fr)
                        s = self.joinall([q for q, _ in ss])
                        for q, w in ss:
                            pass
                if NONE in v:
                    self.c.event("sub-none", e, fr, s, v, self)
                res = frozenset()
                for a in v:
                    if a[0] in ("str", "str*"):
                        res = join(res, VSTR)
                    elif a[0] == "ref" and s.heap.get(a, ("",))[0] == "list":
                        c = s.heap[a]
                        s, r = alloc(s, (id(e), "s"), ("list", c[1], 0, c[3]))
                        res = join(res, frozenset({r}))
                    elif a == NONE:
                        pass
                    else:
                        res = join(res, TOP)
                out.append((s, res or TOP))
            return out
        for s, (b, k) in self.evs([e.value, e.slice], st, fr):
            if NONE in b:
                self.c.event("sub-none", e, fr, s, b, self)
            out.append((s, self.getitem(s, b, k, e, fr)))
        return out

    def getitem(self, s, b, k, e, fr):
        res = frozenset()
        ks = [a[1] for a in k if a[0] == "str"]
        ki = [a for a in k if a[0] == "int"]
        for a in b:
            if a[0] == "ref":
                c = s.heap.get(a)
                if c and c[0] == "dict":
                    d = dict(c[1])
                    if ks and len(ks) == len(k):
                        for q in ks:
                            if q in d:
                                res = join(res, d[q][0])
                                if not d[q][1]:
                                    self.c.event("key-maybe", e, fr, s, b, self, key=q, ref=a)
                            elif c[2]:
                                res = join(res, c[2])
                            else:
                                self.c.event("key-missing", e, fr, s, b, self, key=q, ref=a)
                    else:
                        res = join(res, *[v for v, _ in d.values()], c[2] or frozenset(), *([] if d or c[2] else [TOP]))
                elif c and c[0] == "list":
                    if ki and len(ki) == len(k):
                        self.c.event("index", e, fr, s, b, self, cell=c, idx=ki, ref=a)
                    res = join(res, c[1] if c[1] else TOP)
                else:
                    res = join(res, TOP)
            elif a[0] == "tup":
                if len(ki) == 1 and len(k) == 1 and ki[0][2] is not None and ki[0][2] == ki[0][3] and ki[0][1] is None and -len(a[1]) <= ki[0][2] < len(a[1]):
                    res = join(res, a[1][ki[0][2]])
                else:
                    res = join(res, *a[1])
            elif a[0] == "kon":
                d = a[1].v
                if isinstance(d, dict) and ks and len(ks) == len(k):
                    for q in ks:
                        if q in d:
                            res = join(res, lift(d[q]))
                        else:
                            self.c.event("key-missing", e, fr, s, b, self, key=q, ref=a)
                else:
                    vals = list(d.values()) if isinstance(d, dict) else list(d)
                    if isinstance(d, dict) and not (ks and len(ks) == len(k)):
                        self.c.event("key-unknown", e, fr, s, k, self, ref=a)
                    res = join(res, *[lift(x) for x in vals[:300]]) if vals else TOP
            elif a[0] in ("str", "str*"):
                if a[0] == "str*" and a[1] == 0 or a[0] == "str" and not a[1]:
                    self.c.event("str-index", e, fr, s, b, self)
                res = join(res, VSTR1)
            elif a[0] == "match":
                if ki or ks:
                    res = join(res, self.group(a, k, e, fr, s))
            elif a == NONE:
                pass
            else:
                res = join(res, TOP)
        return res or TOP

    def group(self, m, k, e, fr, st):
        """value of m.group(k)"""
        if self.c.groupfacts:
            g = gkey(e)
            if g is not None and (fr.fid, "@%s %s" % g) in st.env:
                return st.env[fr.fid, "@%s %s" % g]
        return self.group_(m, k, e, fr, st)

    def group_(self, m, k, e, fr, st):
        if m[1] is None:
            ok = [a for a in k if a[0] == "int" and a[2] == 0 and a[3] == 0]
            return VSTR if ok and len(ok) == len(k) else TOP
        res = frozenset()
        for pat, fl in m[1]:
            info = pinfo(pat, fl) if pat is not None else None
            if info is None:
                return TOP
            for a in k:
                g = None
                if a[0] == "int" and a[2] is not None and a[2] == a[3]:
                    g = a[2]
                elif a[0] == "str":
                    g = info[2].get(a[1])
                if g is None:
                    return TOP
                w = self.c.mgroup(pat, fl, g, e, fr)
                if w is not None:
                    res = join(res, w)
                    continue
                if g == 0:
                    res = join(res, VSTR1 if info[0] > 0 else VSTR)
                elif g in info[1]:
                    sure, w = info[1][g]
                    res = join(res, VSTR1 if w > 0 else VSTR)
                    if not sure:
                        res = join(res, VNONE)
                else:
                    self.c.event("no-group", e, fr, st, frozenset({m}), self, group=g)
                    return TOP
        return res or TOP

    # ------------------------------------------------------------ conditions
    def truth_atom(self, a, st, want):
        """the part of atom a that has truth value want"""
        k = a[0]
        if a == NONE:
            return None if want else a
        if k == "top":
            return a
        if k == "str":
            return a if bool(a[1]) == want else None
        if k == "str*":
            if want:
                return ("str*", 1)
            return ("str", "") if a[1] == 0 else None
        if k == "bool":
            return a if a[1] == want else None
        if k == "int":
            b, lo, hi = a[1:]
            if b is not None:
                return a
            if want:
                if lo == 0 and hi == 0:
                    return None
                if lo == 0:
                    return ("int", None, 1, hi)
                return a
            if (lo is None or lo <= 0) and (hi is None or hi >= 0):
                return ("int", None, 0, 0)
            return None
        if k == "ref":
            c = st.heap.get(a)
            if c and c[0] == "list":
                if want:
                    return None if c[3] == 0 else a
                return a if c[2] == 0 else None
            if c and c[0] == "dict":
                if want:
                    return a if c[1] or c[2] else None
                return None if any(m for _, (_, m) in c[1]) else a
            return a
        if k == "kon":
            return a if bool(len(a[1].v)) == want else None
        if k == "tup":
            return a if bool(a[1]) == want else None
        if k in ("tok", "match", "pat", "inst", "fn", "lam", "enum"):
            return a if want else None
        return a

    def filt(self, v, st, want):
        out = set()
        for a in v:
            b = self.truth_atom(a, st, want)
            if b is not None:
                out.add(b)
        return norm(out)

    def refine(self, e, v, st, fr):
        """the value of expression e is known to be within v"""
        if isinstance(e, ast.NamedExpr):
            e = e.target
        if self.c.groupfacts:
            g = gkey(e)
            if g is not None and (fr.fid, g[0]) in st.env:
                return st.set((fr.fid, "@%s %s" % g), v)
        if isinstance(e, ast.Name):
            f = fr
            while f is not None:
                if (f.fid, e.id) in st.env:
                    return st.set((f.fid, e.id), v)
                if f.func is not None and e.id in (f.func.locals or ()):
                    return st
                f = f.outer
            return st
        base = key = None
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
            base, key, get = e.value, e.slice.value, False
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "get" and e.args and isinstance(e.args[0], ast.Constant) and isinstance(e.args[0].value, str):
            base, key, get = e.func.value, e.args[0].value, True
        if base is not None:
            bs = self.quiet(base, st, fr)
            if bs is not None and len(bs) == 1:
                r = next(iter(bs))
                if r[0] == "ref" and r[2] == "n":
                    c = st.heap.get(r)
                    if c and c[0] == "dict":
                        d = dict(c[1])
                        cur = d.get(key)
                        if cur is None and not c[2]:
                            return st
                        if get:
                            dflt = self.lit(e.args[1]) if len(e.args) > 1 else VNONE
                            w = frozenset(a for a in v if a in cur[0] or TOPA in cur[0] or a[0] in ("str*", "str", "int", "ref")) if cur else v
                            canabs = dflt is None or bool(dflt & v) or TOPA in v
                            if cur is None or not cur[1]:
                                if canabs:
                                    if not (w - (dflt or frozenset())) and TOPA not in v:
                                        # either absent or holding the default
                                        if cur:
                                            keep = cur[0] & v
                                            if keep:
                                                d[key] = (keep, False)
                                            else:
                                                del d[key]
                                        return st.cell(r, ("dict", mk(d), c[2]))
                                    return st
                                d[key] = (w or v, True)
                            else:
                                d[key] = (w or v, True)
                        else:
                            d[key] = (v, True)
                        return st.cell(r, ("dict", mk(d), c[2]))
        return st

    def lit(self, e):
        if isinstance(e, ast.Constant) and (isinstance(e.value, (str, int, bool)) or e.value is None):
            return lift(e.value)
        return None

    def quiet(self, e, st, fr):
        """value of a simple access path without events"""
        if isinstance(e, ast.Name):
            return self.name(e, st, fr)
        if isinstance(e, ast.Subscript) and not isinstance(e.slice, ast.Slice):
            b = self.quiet(e.value, st, fr)
            k = self.lit(e.slice)
            if b is None or k is None:
                return None
            c = self.c
            self.c = Client()
            try:
                return self.getitem(st, b, k, e, fr)
            finally:
                self.c = c
        return None

    def splitvars(self, e, st, fr):
        """fork the state per object for variables whose items the condition looks at"""
        names = set()
        for n in ast.walk(e):
            b = None
            if isinstance(n, ast.Subscript):
                b = n.value
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                b = n.func.value
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "isinstance" and n.args:
                b = n.args[0]
            elif isinstance(n, ast.Compare) and isinstance(n.left, ast.Constant) and len(n.comparators) == 1:
                b = n.comparators[0]
            if isinstance(b, ast.Name):
                names.add(b.id)
        sts = [st]
        for nm in names:
            nxt = []
            for s in sts:
                f = fr
                while f is not None and (f.fid, nm) not in s.env:
                    f = f.outer
                if f is None:
                    nxt.append(s)
                    continue
                v = s.env[(f.fid, nm)]
                rs = [a for a in v if a[0] in ("ref", "tok")]
                if len(v) > 1 and rs and len(rs) <= 16:
                    for a in rs:
                        nxt.append(s.set((f.fid, nm), frozenset({a})))
                    rest = v - set(rs)
                    if rest:
                        nxt.append(s.set((f.fid, nm), rest))
                else:
                    nxt.append(s)
            sts = nxt
        return sts

    def branch(self, e, st, fr):
        T, F = [], []
        for s in self.splitvars(e, st, fr) if not isinstance(e, (ast.BoolOp,)) else [st]:
            a, b = self._branch(e, s, fr)
            T += a
            F += b
        return self.cap(T), self.cap(F)

    def _branch(self, e, st, fr):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            T, F = self.branch(e.operand, st, fr)
            return F, T
        if isinstance(e, ast.BoolOp):
            cur, out = [st], []
            for x in e.values:
                nxt = []
                for s in cur:
                    T, F = self.branch(x, s, fr)
                    if isinstance(e.op, ast.And):
                        out += F
                        nxt += T
                    else:
                        out += T
                        nxt += F
                cur = self.cap(nxt)
            return (cur, out) if isinstance(e.op, ast.And) else (out, cur)
        if isinstance(e, ast.Compare):
            if len(e.ops) == 1:
                return self.compare(e, e.left, e.ops[0], e.comparators[0], st, fr)
            T, F = [], []
            cur = [st]
            left = e.left
            for op, r in zip(e.ops, e.comparators):
                nxt = []
                for s in cur:
                    a, b = self.compare(e, left, op, r, s, fr)
                    nxt += a
                    F += b
                cur = self.cap(nxt)
                left = r
            return cur, F
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "isinstance" and len(e.args) == 2:
            return self.isinst(e, st, fr)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("any", "all", "bool") and len(e.args) == 1 and e.func.id == "bool":
            return self.branch(e.args[0], st, fr)
        T, F = [], []
        for s, v in self.ev(e, st, fr):
            t, f = self.filt(v, s, True), self.filt(v, s, False)
            if t:
                x = self.refine(e, t, s, fr)
                T.append(self.lenfix(t, x, True))
            if f:
                x = self.refine(e, f, s, fr)
                F.append(self.lenfix(f, x, False))
        return T, F

    def lenfix(self, v, st, want):
        if len(v) == 1:
            r = next(iter(v))
            if r[0] == "ref" and r[2] == "n":
                c = st.heap.get(r)
                if c and c[0] == "list":
                    if want and c[2] == 0:
                        return st.cell(r, ("list", c[1], 1, c[3]))
                    if not want and c[3] != 0:
                        return st.cell(r, ("list", frozenset(), 0, 0))
        return st

    def isinst(self, e, st, fr):
        types = e.args[1].elts if isinstance(e.args[1], ast.Tuple) else [e.args[1]]
        names, classes, unk = set(), set(), False
        for t in types:
            r = self.prog.resolve_dotted(fr.module, t)
            if isinstance(r, Class):
                classes.add(r)
            elif isinstance(r, str):
                names.add(r.split(".")[-1])
            elif isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "type" and len(t.args) == 1 and isinstance(t.args[0], ast.Constant):
                names.add(type(t.args[0].value).__name__)
            else:
                unk = True
        T, F = [], []
        for s, v in self.ev(e.args[0], st, fr):
            t, f = set(), set()
            for a in v:
                k = None
                if a[0] in ("str", "str*"):
                    k = "str"
                elif a[0] == "enum":
                    k = "enum"
                elif a == NONE:
                    k = "NoneType"
                elif a[0] == "int":
                    k = "int"
                elif a[0] == "bool":
                    k = "bool"
                elif a[0] == "tok":
                    k = "dict"
                elif a[0] == "tup":
                    k = "tuple"
                elif a[0] == "match":
                    k = "Match"
                elif a[0] == "ref":
                    c = s.heap.get(a)
                    k = c[0] if c and c[0] in ("list", "dict") else None
                elif a[0] == "pobj":
                    k = a[1].kind
                elif a[0] == "kon":
                    k = type(a[1].v).__name__
                if a[0] == "inst" and isinstance(a[1].key[0], Class):
                    ok = any(a[1].key[0].subclass_of(c) for c in classes)
                    (t if ok else f).add(a)
                    continue
                ok = self.c.isinst(a, classes, names, e.args[1], fr) if k is None else None
                if ok is not None:
                    (t if ok else f).add(a)
                    continue
                if k is None or unk:
                    f.add(a)
                    if a[0] == "top" and names == {"str"}:
                        t.add(("str*", 0))
                    else:
                        t.add(a)
                    continue
                ok = k in names or k == "bool" and "int" in names or k == "dict" and "OrderedDict" not in names and names & {"Mapping", "MutableMapping"} or k == "enum" and any(a[1].subclass_of(c) for c in classes)
                (t if ok else f).add(a)
            if t:
                T.append(self.refine(e.args[0], norm(t), s, fr))
            if f:
                F.append(self.refine(e.args[0], norm(f), s, fr))
        return T, F

    def eqatoms(self, a, b):
        """can they be equal (True/False/None unknown)"""
        def val(x):
            if x[0] == "str" or x[0] == "bool":
                return (x[1],)
            if x == NONE:
                return (None,)
            if x[0] == "int" and x[1] is None and x[2] is not None and x[2] == x[3]:
                return (x[2],)
            return None
        for x, y in ((a, b), (b, a)):
            if x[0] == "enum":
                if y[0] == "enum":
                    return x[1] is y[1] and x[2] == y[2]
                if y[0] == "str":
                    return x[3] == y[1] if "__eq__" in x[1].methods or any("str" == str(q).split(".")[-1] for q in x[1].ext_bases()) else False
                if y[0] in ("none", "int", "bool"):
                    return False
                return None
        va, vb = val(a), val(b)
        if va is not None and vb is not None:
            return va[0] == vb[0]
        kinds = {"str": "s", "str*": "s", "int": "i", "bool": "i", "none": "n"}
        if a[0] in kinds and b[0] in kinds and kinds[a[0]] != kinds[b[0]]:
            return False
        for x, y in ((a, b), (b, a)):
            if x[0] == "str*" and x[1] >= 1 and y == ("str", ""):
                return False
            if x[0] == "none" and y[0] in ("ref", "tok", "match", "tup", "inst", "kon", "pat", "fn"):
                return False
            if x[0] == "int" and y[0] == "int" and x[1] is None and y[1] is None:
                if x[3] is not None and y[2] is not None and x[3] < y[2]:
                    return False
        return None

    def compare(self, e, le, op, re_, st, fr):
        # len(x) <op> n
        if isinstance(op, (ast.In, ast.NotIn)):
            T, F = self.contains(le, re_, st, fr)
            return (T, F) if isinstance(op, ast.In) else (F, T)
        T, F = [], []
        for s, (a, b) in self.evs([le, re_], st, fr):
            if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                ta, fa, tb = set(), set(), set()
                for x in a:
                    rs = [self.eqatoms(x, y) for y in b]
                    if x == TOPA:
                        # comparing with constants tells the value apart
                        if all(y[0] in ("str", "none", "bool", "enum") for y in b):
                            ta |= set(b) if not any(y[0] == "enum" for y in b) else {TOPA}
                        else:
                            ta.add(x)
                        fa.add(x)
                        continue
                    if any(r is not False for r in rs):
                        if x[0] == "str*" and all(y[0] == "str" for y in b):
                            ta |= set(b)
                        elif x[0] == "int" and len(b) == 1 and next(iter(b))[0] == "int" and not (x[2] is not None and x[2] == x[3]):
                            ta |= set(b)
                        else:
                            ta.add(x)
                    if not (all(r is True for r in rs) and len(b) == 1):
                        fa.add(x)
                        if x[0] == "int" and x[1] is None and len(b) == 1:
                            y = next(iter(b))
                            if y[0] == "int" and y[1] is None and y[2] is not None and y[2] == y[3]:
                                if x[2] == y[2]:
                                    fa.discard(x)
                                    fa.add(("int", None, x[2] + 1, x[3]))
                        if x == ("str*", 0) and b == vstr(""):
                            fa.discard(x)
                            fa.add(("str*", 1))
                t = self.lenref(le, "==", b, self.refine(le, norm(ta), s, fr), fr, True) if ta else None
                f = self.lenref(le, "==", b, self.refine(le, norm(fa), s, fr), fr, False) if fa else None
                if ta and any(x[0] in ("top", "str*") for x in b) and not isinstance(re_, ast.Constant):
                    # x == <variable>: refine the right side as well
                    cons = norm(frozenset(x for x in a if x[0] == "str"))
                    if cons and cons == a and t is not None and all(x[0] in ("top", "str*", "str") for x in b):
                        t = self.refine(re_, cons, t, fr)
                if isinstance(op, (ast.NotEq, ast.IsNot)):
                    t, f = f, t
                if t is not None:
                    T.append(t)
                if f is not None:
                    F.append(f)
                continue
            # ordering
            o = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)]
            if NONE in a and any(y[0] == "int" for y in b) or NONE in b and any(y[0] == "int" for y in a):
                self.c.event("cmp-none", e, fr, s, a | b, self)
            ta, fa = self.order(a, o, b)
            if ta is not None:
                x = self.lenref(le, o, b, self.refine(le, ta, s, fr), fr, True) if ta else None
                y = self.lenref(le, o, b, self.refine(le, fa, s, fr), fr, False) if fa else None
                # the mirrored refinement of the right operand
                m = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[o]
                tb, fb = self.order(b, m, a)
                if x is not None and tb is not None:
                    x = self.lenref(re_, m, a, self.refine(re_, tb, x, fr), fr, True) if tb else None
                if y is not None and fb is not None:
                    y = self.lenref(re_, m, a, self.refine(re_, fb, y, fr), fr, False) if fb else None
                if x is not None:
                    T.append(x)
                if y is not None:
                    F.append(y)
            else:
                T.append(s)
                F.append(s)
        return T, F

    def order(self, a, o, b):
        """atoms of a for which a o b can hold / fail (b an integer range)"""
        bs = [y for y in b if y[0] == "int"]
        if len(bs) != 1 or len(b) != 1 or bs[0][1] is not None:
            return None, None
        _, _, bl, bh = bs[0]
        t, f = set(), set()
        for x in a:
            if x[0] == "bool":
                x = ("int", None, int(x[1]), int(x[1]))
            if x[0] != "int" or x[1] is not None:
                if x != NONE:
                    t.add(x)
                    f.add(x)
                continue
            lo, hi = x[2], x[3]

            def clip(l, h):
                l2 = lo if l is None else l if lo is None else max(lo, l)
                h2 = hi if h is None else h if hi is None else min(hi, h)
                if l2 is not None and h2 is not None and l2 > h2:
                    return None
                return ("int", None, l2, h2)
            dec = lambda v: None if v is None else v - 1
            inc = lambda v: None if v is None else v + 1
            if o == "<":
                p, q = clip(None, dec(bh)), clip(bl, None)
            elif o == "<=":
                p, q = clip(None, bh), clip(inc(bl), None)
            elif o == ">":
                p, q = clip(inc(bl), None), clip(None, bh)
            else:
                p, q = clip(bl, None), clip(None, dec(bh))
            if p:
                t.add(p)
            if q:
                f.add(q)
        return norm(t), norm(f)

    def lenref(self, le, o, b, st, fr, want):
        if st is None:
            return None
        if isinstance(le, ast.Call) and isinstance(le.func, ast.Name) and le.func.id == "len" and len(le.args) == 1:
            v = self.quiet(le.args[0], st, fr)
            if v is not None and len(v) == 1:
                r = next(iter(v))
                c = st.heap.get(r) if r[0] == "ref" else None
                if c and c[0] == "list":
                    cur = vint(c[2], c[3])
                    if o == "==":
                        y = [x for x in b if x[0] == "int" and x[1] is None]
                        if len(y) == 1 and len(b) == 1 and y[0][2] is not None and y[0][2] == y[0][3]:
                            n = y[0][2]
                            if want:
                                if n < c[2] or c[3] is not None and n > c[3]:
                                    return None
                                return st.cell(r, ("list", c[1] if n else frozenset(), n, n))
                            if c[2] == n == c[3]:
                                return None
                            if c[2] == n:
                                return st.cell(r, ("list", c[1], n + 1, c[3]))
                        return st
                    t, f = self.order(cur, o, b)
                    if t is None:
                        return st
                    z = t if want else f
                    if not z:
                        return None
                    z = [x for x in z if x[0] == "int"]
                    if len(z) == 1:
                        lo, hi = max(z[0][2] or 0, 0), z[0][3]
                        return st.cell(r, ("list", c[1] if hi != 0 else frozenset(), lo, hi))
                if r == ("str*", 0) and isinstance(le.args[0], ast.Name):
                    t, f = self.order(VNAT, o, b)
                    if t is not None:
                        z = t if want else f
                        if not z:
                            return None
                        if all(x[0] == "int" and (x[2] or 0) >= 1 for x in z):
                            return self.refine(le.args[0], VSTR1, st, fr)
        return st

    def contains(self, le, re_, st, fr):
        T, F = [], []
        for s, (a, b) in self.evs([le, re_], st, fr):
            if NONE in b:
                self.c.event("in-none", re_, fr, s, b, self)
            # constant collections
            coll = None
            if len(b) == 1:
                y = next(iter(b))
                if y[0] == "kon":
                    coll = [lift(x) for x in (list(y[1].v))][:400]
                elif y[0] == "tup":
                    coll = list(y[1])
                elif y[0] == "ref" and isinstance(re_, (ast.List, ast.Set)):
                    coll = [self.quiet2(x, s, fr) for x in re_.elts]
            if coll is not None and all(c is not None and len(c) == 1 and next(iter(c))[0] in ("str", "int", "enum", "none", "bool") for c in coll):
                atoms = [next(iter(c)) for c in coll]
                t, f = set(), set()
                for x in a:
                    if x == TOPA or x[0] == "str*":
                        t |= {y for y in atoms} if len(atoms) <= MAXCONST and not any(y[0] == "enum" for y in atoms) else {x}
                        f.add(x)
                        continue
                    rs = [self.eqatoms(x, y) for y in atoms]
                    if any(r is not False for r in rs):
                        t.add(x)
                    if not any(r is True for r in rs):
                        f.add(x)
                if t:
                    T.append(self.refine(le, norm(t), s, fr))
                if f:
                    F.append(self.refine(le, norm(f), s, fr))
                continue
            ks = [x[1] for x in a if x[0] == "str"]
            if len(a) == 1 and len(ks) == 1 and len(b) == 1:
                y = next(iter(b))
                if y[0] == "tok" and ks[0] == "type":
                    T.append(s)                    # every token has a type
                    continue
                c = s.heap.get(y) if y[0] == "ref" else None
                if c and c[0] == "dict":
                    d = dict(c[1])
                    k = ks[0]
                    if k in d:
                        if d[k][1]:
                            T.append(s)
                        else:
                            T.append(s.cell(y, ("dict", mk({**d, k: (d[k][0], True)}), c[2])) if y[2] == "n" else s)
                            d2 = dict(d)
                            del d2[k]
                            F.append(s.cell(y, ("dict", mk(d2), c[2])) if y[2] == "n" else s)
                    elif c[2]:
                        T.append(s.cell(y, ("dict", mk({**d, k: (c[2], True)}), c[2])) if y[2] == "n" else s)
                        F.append(s)
                    else:
                        F.append(s)
                    continue
                if y[0] == "str":
                    (T if ks[0] in y[1] else F).append(s)
                    continue
            T.append(s)
            F.append(s)
        return T, F

    def quiet2(self, e, st, fr):
        if isinstance(e, ast.Constant):
            return lift(e.value) if isinstance(e.value, (str, int, bool)) or e.value is None else None
        r = self.ev(e, st, fr)
        return r[0][1] if len(r) == 1 else None

    # ------------------------------------------------------------ calls
    def targets(self, e, fr):
        out, other = [], []
        for o in self.p.get(("E", id(e.func), fr.ctx)):
            if o.kind == "bound":
                out.append((o.key[0], self.p.ctx_for(o.key[0], o.key[1]), o.key[1]))
            elif o.kind == "func":
                out.append((o.key[0], o.key[1], None))
            else:
                other.append(o)
        return out, other

    def call(self, e, st, fr):
        out = []
        fn = e.func
        # receiver first
        if isinstance(fn, ast.Attribute) and not (isinstance(fn.value, (ast.Name, ast.Attribute)) and self.prog.resolve_dotted(fr.module, fn) is not None and not self.islocal(fn.value, st, fr)):
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
                rs = [(st, self.selfval(fr, st))]
            elif fn.attr in LOGM and self.islogger(fn.value):
                rs = [(st, TOP)]
            else:
                rs = self.ev(fn.value, st, fr)
        else:
            rs = [(st, None)]
        for s, recv in rs:
            pos = [a.value if isinstance(a, ast.Starred) else a for a in e.args]
            kwn = [k.arg for k in e.keywords]
            for s2, vs in self.evs(pos + [k.value for k in e.keywords], s, fr):
                args = vs[:len(pos)]
                kw = dict(zip(kwn, vs[len(pos):]))
                star = any(isinstance(a, ast.Starred) for a in e.args) or None in kwn
                out += self.dispatch(e, fr, s2, recv, args, kw, star)
        return self.cap(out)

    def islogger(self, e):
        nm = e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else ""
        return "log" in nm.lower()

    def selfval(self, fr, st):
        f = fr
        while f is not None:
            if f.func.cls is not None and f.func.posargs:
                return st.env.get((f.fid, f.func.posargs[0]), TOP)
            f = f.outer
        return TOP

    def dispatch(self, e, fr, st, recv, args, kw, star):
        self.stats["calls"] += 1
        ts, other = self.targets(e, fr)
        fn = e.func
        # lambdas known as values
        if isinstance(fn, ast.Name):
            v = st.env.get((fr.fid, fn.id))
        # narrow by the receiver
        if recv is not None and NONE in recv and isinstance(fn, ast.Attribute):
            self.c.event("attr-none", fn, fr, st, recv, self)
        if recv is not None and ts:
            insts = {a[1] for a in recv if a[0] == "inst"}
            if insts and all(a[0] in ("inst", "none") for a in recv):
                nt = [t for t in ts if t[2] is None or t[2] in insts]
                if nt:
                    ts = nt
            # a points-to result that is only an artefact of merging: the value is a container or string here
            if all(a[0] in ("ref", "tok", "str", "str*", "match", "pat", "tup", "kon", "none", "int", "bool") for a in recv) and recv:
                ts = []
        r = self.c.call(e, fr, st, ts, recv, args, kw, self)
        if r is not None:
            return r
        if ts:
            out = []
            for f, ctx, so in ts:
                a = self.bind(f, so, e, fr, st, recv, args, kw, star)
                outer = self.outerframe(f)
                for s2, v in self.run(f, ctx, a, st, outer=outer, call=e):
                    out.append((s2, v))
            if any(o.kind == "class" for o in other):
                out.append((st, TOP))
            return self.cap(out)
        if isinstance(fn, ast.Attribute) and recv is not None:
            return self.method(e, fn.attr, recv, args, kw, st, fr)
        return self.extcall(e, st, fr, args, kw)

    frames = None

    def outerframe(self, f):
        if f.parent is None:
            return None
        for i in range(len(self.stack) - 1, -1, -1):
            if self.stack[i] is f.parent:
                return Frame(f.parent, None, i, self.outerframe(f.parent) if f.parent.parent else None)
        return None

    def bind(self, f, so, e, fr, st, recv, args, kw, star):
        a = {}
        pos = list(f.posargs)
        if f.cls is not None and not f.is_static and pos and f.parent is None:
            if f.is_classmethod:
                a[pos[0]] = TOP
            elif so is not None:
                a[pos[0]] = frozenset({("inst", so)}) if so.kind == "inst" else TOP
            else:
                # Class.method(self, ...)
                a[pos[0]] = args[0] if args else TOP
                args = args[1:]
            pos = pos[1:]
        if star:
            for n in pos:
                a[n] = TOP
            return a
        for n, v in zip(pos, args):
            a[n] = v
        for k, v in kw.items():
            if k in f.posargs or k in f.kwonly:
                a[k] = v
        return a

    # ------------------------------------------------------------ library
    def reflags(self, v):
        if v is None:
            return 0
        if len(v) == 1:
            x = next(iter(v))
            if x[0] == "int" and x[2] is not None and x[2] == x[3]:
                return x[2]
        return None

    def flagsof(self, e, fr):
        """value of a flags argument"""
        try:
            v = self.fold.safe(e, self.fold.module(fr.module))
            return v if isinstance(v, int) else int(v) if hasattr(v, "value") else None
        except Exception:
            return None

    def patof(self, v, e, fr, flagexpr=None):
        """{(pattern, flags)} or None"""
        fl = 0
        if flagexpr is not None:
            fl = self.flagsof(flagexpr, fr)
            if fl is None:
                fl = 0
        out = set()
        for a in v:
            if a[0] == "str":
                out.add((a[1], int(fl)))
            elif a[0] == "pat" and a[1] is not None:
                out.add((a[1], a[2]))
            elif a == NONE:
                continue
            else:
                return None
        return tuple(sorted(out)) or None

    def reop(self, op, pats, e, st, fr, subj=None):
        if pats is not None and op in ("match", "search", "fullmatch"):
            keep = self.c.rematch(op, pats, subj, e, fr, self)
            if keep is not None:
                if not keep:
                    return [(st, VNONE)]
                pats = tuple(keep)
        if op in ("match", "search", "fullmatch"):
            if pats is not None and all((pinfo(p, f) or (1,))[0] == 0 for p, f in pats) and op == "search":
                return [(st, frozenset({("match", pats)}))]
            return [(st, frozenset({("match", pats)})), (st, VNONE)]
        if op in ("finditer",):
            s, r = alloc(st, (id(e), "fi"), ("list", frozenset({("match", pats)}), 0, None))
            return [(s, frozenset({r}))]
        if op == "findall":
            el = TOP
            if pats and all(pinfo(p, f) and len(pinfo(p, f)[1]) <= 1 for p, f in pats):
                el = VSTR
            s, r = alloc(st, (id(e), "fa"), ("list", el, 0, None))
            return [(s, frozenset({r}))]
        if op == "split":
            el = TOP
            if pats and all(pinfo(p, f) and not pinfo(p, f)[1] for p, f in pats):
                el = VSTR
            s, r = alloc(st, (id(e), "sp"), ("list", el, 1, None))
            return [(s, frozenset({r}))]
        if op == "sub":
            return [(st, VSTR)]
        if op == "subn":
            return [(st, frozenset({("tup", (VSTR, VNAT))}))]
        return [(st, TOP)]

    def extcall(self, e, st, fr, args, kw):
        fn = e.func
        d = None
        if isinstance(fn, (ast.Name, ast.Attribute)):
            r = self.prog.resolve_dotted(fr.module, fn)
            d = r if isinstance(r, str) else None
            if isinstance(r, Class):
                if any("Enum" in str(b) for b in r.ext_bases()) and len(args) == 1:
                    vals = {}
                    for n in r.attrs:
                        v = self.fold.class_attr(r, n)
                        if isinstance(v, str):
                            vals[v] = n
                    out = set()
                    for a in args[0]:
                        if a[0] == "str":
                            if a[1] in vals:
                                out.add(("enum", r, vals[a[1]], a[1]))
                            else:
                                self.c.event("enum-miss", e, fr, st, args[0], self)
                        elif a[0] == "enum":
                            out.add(a)
                        else:
                            return [(st, TOP)]
                    return [(st, norm(out))] if out else []
                objs = [o for o in self.p.get(("E", id(e), fr.ctx)) if o.kind == "inst" and o.key[0] is r]
                return [(st, frozenset(("inst", o) for o in objs) if objs else TOP)]
        if isinstance(fn, ast.Name) and self.islocal(fn, st, fr):
            return [(st, TOP)]
        if d is None:
            return [(st, TOP)]
        d = d.replace("builtins.", "")
        A = lambda i: args[i] if i < len(args) else frozenset()
        if d.startswith("re."):
            op = d[3:]
            if op in ("match", "search", "fullmatch", "finditer", "findall", "split", "sub", "subn"):
                nfl = {"sub": 4, "subn": 4, "split": 3}.get(op, 2)
                fe = next((k.value for k in e.keywords if k.arg == "flags"), e.args[nfl] if len(e.args) > nfl else None)
                subj = 2 if op in ("sub", "subn") else 1
                if NONE in A(subj):
                    self.c.event("arg-none", e, fr, st, A(subj), self)
                return self.reop(op, self.patof(A(0), e, fr, fe), e, st, fr, A(subj))
            if op == "compile":
                fe = next((k.value for k in e.keywords if k.arg == "flags"), e.args[1] if len(e.args) > 1 else None)
                ps = self.patof(A(0), e, fr, fe)
                return [(st, frozenset(("pat", p, f) for p, f in ps) if ps else frozenset({("pat", None, 0)}))]
            if op == "escape":
                return [(st, VSTR)]
            return [(st, TOP)]
        if d == "len":
            if NONE in A(0):
                self.c.event("arg-none", e, fr, st, A(0), self)
            el, lo, hi = self.itervals(frozenset(x for x in A(0) if x != NONE), st) if A(0) else (0, 0, None)
            if all(x[0] in ("str", "str*") for x in A(0)) and not all(x[0] == "str" for x in A(0)):
                hi = None
            return [(st, vint(lo, hi))]
        if d == "str":
            if not args:
                return [(st, vstr(""))]
            out = set()
            for a in A(0):
                if a[0] in ("str", "str*"):
                    out.add(a)
                elif a[0] == "enum" and "__str__" in a[1].methods:
                    out.add(("str", str(a[3])))
                elif a[0] == "int" and a[2] is not None and a[2] == a[3] and a[1] is None:
                    out.add(("str", str(a[2])))
                elif a[0] in ("int", "bool", "none", "ref", "tok"):
                    out.add(("str*", 1))
                else:
                    out.add(("str*", 0))
            return [(st, norm(out))]
        if d in ("int", "float"):
            if any(a[0] in ("str*", "str", "none") for a in A(0)):
                self.c.event("int-conv", e, fr, st, A(0), self)
            return [(st, VINT if d == "int" else TOP)]
        if d == "bool":
            v = A(0)
            if args and v:
                return [(st, frozenset({("bool", w) for w in (True, False) if any(self.truth_atom(a, st, w) is not None for a in v)}) or VBOOL)]
            return [(st, VBOOL if args else VFALSE)]
        if d in ("isinstance", "callable", "hasattr", "any", "all", "issubclass"):
            if d == "isinstance" and len(e.args) == 2:
                T, F = self.isinst(e, st, fr)
                return [(s, VTRUE) for s in T] + [(s, VFALSE) for s in F]
            return [(st, VBOOL)]
        if d in ("min", "max"):
            vs = args
            if len(args) >= 2 and all(v and all(a[0] == "int" for a in v) for v in args):
                return [(st, join(*args))] if d == "min" or len(args) > 2 else [(st, self.imax(args))]
            return [(st, join(*args) if len(args) > 1 else (self.itervals(A(0), st)[0] or TOP))]
        if d in ("list", "sorted", "tuple", "set", "frozenset", "reversed", "collections.deque"):
            if not args:
                s, r = alloc(st, (id(e),), EMPTYLIST)
                return [(s, frozenset({r}))]
            el, lo, hi = self.itervals(A(0), st)
            s, r = alloc(st, (id(e),), ("list", el, min(lo, 1) if "set" in d else lo, hi))
            return [(s, frozenset({r}))]
        if d in ("dict", "collections.OrderedDict", "collections.defaultdict"):
            if d == "dict" and not args:
                s, r = alloc(st, (id(e),), dictcell({k: (v, True) for k, v in kw.items() if k}))
                self.c.event("alloc", e, fr, s, frozenset({r}), self)
                return [(s, frozenset({r}))]
            if d == "dict" and len(args) == 1 and all(a[0] == "ref" and st.heap.get(a, ("",))[0] == "dict" for a in A(0)):
                out = []
                for a in A(0):
                    c = st.heap[a]
                    dd = dict(c[1])
                    dd.update({k: (v, True) for k, v in kw.items() if k})
                    s, r = alloc(st, (id(e),), ("dict", mk(dd), c[2]))
                    out.append((s, frozenset({r})))
                return out
            s, r = alloc(st, (id(e),), ("dict", (), TOP))
            return [(s, frozenset({r}))]
        if d == "copy.deepcopy" or d == "copy.copy":
            return self.copyval(e, A(0), st, d == "copy.deepcopy")
        if d == "ord":
            return [(st, VNAT)]
        if d == "chr":
            return [(st, VSTR1)]
        if d == "print":
            return [(st, VNONE)]
        if d in ("repr", "hex", "format", "ascii"):
            return [(st, VSTR)]
        if d.startswith("os.path.") and d.split(".")[-1] in ("join", "basename", "dirname", "abspath", "normpath", "realpath"):
            if any(NONE in v for v in args):
                self.c.event("arg-none", e, fr, st, args[0], self)
            return [(st, VSTR)]
        if d.startswith("os.path.") and d.split(".")[-1] in ("exists", "isfile", "isdir"):
            return [(st, VBOOL)]
        if d == "abs" or d == "sum" or d == "round":
            return [(st, VINT if all(a[0] == "int" for a in A(0)) else TOP)]
        if d in ("enumerate", "zip", "map", "filter", "iter", "next", "range"):
            if d == "next" and len(args) > 1:
                return [(st, TOP)]
            return [(st, TOP)]
        return [(st, TOP)]

    def imax(self, vs):
        a, b = vs
        out = set()
        for x in a:
            for y in b:
                if x[1] == y[1]:
                    lo = x[2] if y[2] is None else y[2] if x[2] is None else max(x[2], y[2])
                    hi = None if x[3] is None or y[3] is None else max(x[3], y[3])
                    out.add(("int", x[1], lo, hi))
                else:
                    # at least each of them: keep the one with a symbolic base
                    z = x if x[1] is not None else y
                    out.add(("int", z[1], z[2], None))
        return norm(out)

    def copyval(self, e, v, st, deep):
        m = {}
        rs = reachable(st, [v]) if deep else {a for a in v if a[0] == "ref"}
        for r in rs:
            if r in st.heap:
                m[r] = ("ref", ("copy", id(e), r[1]), r[2])
        new = {}
        for r, r2 in m.items():
            c = st.heap[r]
            if deep:
                for q, q2 in m.items():
                    c = substcell(c, q, q2)
            new[r2] = c
        for r2 in list(new):
            if r2 in st.heap and r2[2] == "n":
                st = age(st, r2)
        h = dict(st.heap)
        for r2, c in new.items():
            h[r2] = joincell(h.get(r2), c) if r2 in h else c
        out = v
        for r, r2 in m.items():
            out = subst(out, r, r2)
        return [(S(st.env, h), out)]

    def method(self, e, nm, recv, args, kw, st, fr):
        if NONE in recv:
            recv = frozenset(a for a in recv if a != NONE)
            if not recv:
                return []
        out = []
        A = lambda i: args[i] if i < len(args) else None
        rest = set()
        for a in recv:
            k = a[0]
            if k == "pat":
                if A(0) is not None and NONE in (A(1) if nm in ("sub", "subn") and A(1) is not None else A(0)):
                    self.c.event("arg-none", e, fr, st, A(0), self)
                out += self.reop(nm, ((a[1], a[2]),) if a[1] is not None else None, e, st, fr, args[0] if args else None)
            elif k == "match":
                out += [(st, v) for v in self.matchm(a, nm, args, e, fr, st)]
            elif k in ("str", "str*"):
                out += self.strm(a, nm, args, e, st, fr)
            elif k == "ref":
                c = st.heap.get(a)
                if c and c[0] == "list":
                    out += self.listm(a, c, nm, args, e, st, fr, len(recv) == 1)
                elif c and c[0] == "dict":
                    out += self.dictm(a, c, nm, args, kw, e, st, fr, len(recv) == 1)
                else:
                    out.append((st, TOP))
            elif k == "kon":
                d = a[1].v
                if nm == "get" and isinstance(d, dict) and args:
                    ks = [x[1] for x in args[0] if x[0] == "str"]
                    dflt = A(1) if len(args) > 1 else VNONE
                    if ks and len(ks) == len(args[0]):
                        out.append((st, join(*[lift(d[q]) if q in d else dflt for q in ks])))
                    else:
                        out.append((st, join(*[lift(x) for x in list(d.values())[:300]], dflt)))
                elif nm in ("copy",):
                    out.append((st, frozenset({a})))
                else:
                    out.append((st, TOP))
            elif k == "tok":
                if nm == "get":
                    out.append((st, TOP))
                elif nm == "copy":
                    out.append((st, VTOK))
                else:
                    if nm in ("update", "setdefault"):
                        self.c.event("store", e, fr, st, TOP, self, base=frozenset({a}), key=None)
                    out.append((st, TOP))
            else:
                rest.add(a)
        if rest or not out:
            # mutation of an unknown object by an unknown method cannot be seen
            v = TOP
            if nm in STRM_BOOL:
                v = VBOOL
            elif nm in ("strip", "lower", "upper", "lstrip", "rstrip") or nm == "sub" and len(args) >= 2 and not self.defined("sub"):
                v = VSTR            # only strings / compiled patterns have these (bytes are not used for document text)
            out.append((st, v))
        return self.cap(out)

    def defined(self, nm):
        d = self.__dict__.get("_defnames")
        if d is None:
            d = self._defnames = {f.name for f in self.prog.funcs.values()}
        return nm in d

    def matchm(self, m, nm, args, e, fr, st):
        info = None
        w = 0
        if m[1] is not None:
            ws = [pinfo(p, f) for p, f in m[1]]
            if all(x is not None for x in ws):
                w = min(x[0] for x in ws)
        if nm == "group":
            if not args:
                return [self.group(m, vint(0, 0), e, fr, st)]
            if len(args) == 1:
                return [self.group(m, args[0], e, fr, st)]
            return [frozenset({("tup", tuple(self.group(m, a, e, fr, st) for a in args))})]
        if nm == "end":
            return [vint(w if not args else 0)] if not args else [VINT]
        if nm == "start":
            return [VNAT if not args else VINT]
        if nm == "span":
            return [frozenset({("tup", (VNAT, vint(w)))})]
        return [TOP]

    def strm(self, a, nm, args, e, st, fr):
        if args and nm in ("find", "rfind", "index", "rindex", "count", "startswith", "endswith", "replace", "split", "join") and NONE in args[0]:
            self.c.event("arg-none", e, fr, st, args[0], self)
        if a[0] == "str" and nm in STRM_SAME | STRM_BOOL and nm not in ("join", "format", "format_map", "translate"):
            cs = []
            for v in args:
                c = next(iter(v)) if len(v) == 1 else None
                if c is None or c[0] not in ("str", "int") and c[0] != "tup":
                    cs = None
                    break
                if c[0] == "int":
                    if c[2] is None or c[2] != c[3]:
                        cs = None
                        break
                    cs.append(c[2])
                elif c[0] == "tup":
                    xs = [next(iter(x)) for x in c[1] if len(x) == 1 and next(iter(x))[0] == "str"]
                    if len(xs) != len(c[1]):
                        cs = None
                        break
                    cs.append(tuple(x[1] for x in xs))
                else:
                    cs.append(c[1])
            if cs is not None:
                try:
                    return [(st, lift(getattr(a[1], nm)(*cs)))]
                except Exception:
                    pass
        if nm in STRM_BOOL:
            if nm == "startswith" and len(args) == 1 and len(args[0]) == 1:
                x = next(iter(args[0]))
                if x[0] == "str" and x[1] and a[0] == "str*" and a[1] >= 0:
                    return [(st, VTRUE), (st, VFALSE)]
            return [(st, VTRUE), (st, VFALSE)]
        if nm in ("split", "rsplit", "splitlines"):
            s, r = alloc(st, (id(e), "sp"), ("list", VSTR, 1 if args and NONE not in args[0] and nm != "splitlines" else 0, None))
            return [(s, frozenset({r}))]
        if nm in ("partition", "rpartition"):
            return [(st, frozenset({("tup", (VSTR, VSTR, VSTR))}))]
        if nm in ("find", "rfind"):
            lo = 0
            res = {("int", None, -1, -1)}
            if len(args) > 1 and nm == "find":
                for x in args[1]:
                    res.add(("int", x[1], x[2], None) if x[0] == "int" else ("int", None, 0, None))
            else:
                res.add(("int", None, 0, None))
            return [(st, frozenset({x})) for x in res]
        if nm in ("index", "rindex"):
            self.c.event("str-find-raise", e, fr, st, frozenset({a}), self)
            return [(st, VNAT)]
        if nm == "count":
            return [(st, VNAT)]
        if nm == "join":
            return [(st, VSTR)]
        if nm in ("lower", "upper", "title", "capitalize", "casefold", "swapcase", "ljust", "rjust", "center", "zfill"):
            return [(st, frozenset({a}) if a[0] == "str*" else VSTR)]
        if nm in STRM_SAME:
            return [(st, VSTR)]
        if nm == "encode":
            return [(st, TOP)]
        if nm == "get":
            self.c.event("attr-str", e, fr, st, frozenset({a}), self)
            return []
        return [(st, TOP)]

    def listm(self, r, c, nm, args, e, st, fr, only):
        strong = only and r[2] == "n"
        me = frozenset({r})
        if nm in ("append", "add", "appendleft", "insert"):
            v = args[-1] if args else TOP
            self.c.event("store", e, fr, st, v, self, base=me, key="[]")
            return [(st.cell(r, ("list", join(c[1], v), c[2] + (1 if strong and nm != "add" else 0), None if c[3] is None else c[3] + 1)), VNONE)]
        if nm in ("extend", "update", "extendleft"):
            el, lo, hi = self.itervals(args[0], st) if args else (TOP, 0, None)
            self.c.event("store", e, fr, st, el, self, base=me, key="[]")
            return [(st.cell(r, ("list", join(c[1], el), c[2] + (lo if strong and nm != "update" else 0), None if c[3] is None or hi is None else c[3] + hi)), VNONE)]
        if nm in ("pop", "popleft"):
            self.c.event("pop", e, fr, st, me, self, cell=c)
            n = ("list", c[1], max(0, c[2] - 1), c[3] if not strong or c[3] is None else max(0, c[3] - 1))
            return [(st.cell(r, n), c[1] if c[1] else TOP)]
        if nm == "clear":
            return [(st.cell(r, EMPTYLIST if strong else ("list", c[1], 0, c[3])), VNONE)]
        if nm in ("remove", "discard"):
            return [(st.cell(r, ("list", c[1], max(0, c[2] - 1), c[3])), VNONE)]
        if nm in ("sort", "reverse"):
            return [(st, VNONE)]
        if nm == "copy":
            s, q = alloc(st, (id(e), "cp"), c)
            return [(s, frozenset({q}))]
        if nm in ("index", "count"):
            return [(st, VNAT)]
        if nm in ("get", "items", "keys", "startswith"):
            self.c.event("attr-list", e, fr, st, me, self)
            return []
        return [(st, TOP)]

    def dictm(self, r, c, nm, args, kw, e, st, fr, only):
        strong = only and r[2] == "n"
        d = dict(c[1])
        me = frozenset({r})
        ks = [x[1] for x in args[0] if x[0] == "str"] if args else []
        exact = args and len(ks) == len(args[0]) and ks
        if nm == "get":
            dflt = args[1] if len(args) > 1 else VNONE
            if exact:
                res = frozenset()
                for k in ks:
                    if k in d:
                        res = join(res, d[k][0])
                        if not d[k][1]:
                            res = join(res, dflt)
                    else:
                        res = join(res, dflt, c[2] or frozenset())
                return [(st, res)]
            return [(st, join(*[v for v, _ in d.values()], c[2] or frozenset(), dflt))]
        if nm == "setdefault" and exact and len(ks) == 1:
            k = ks[0]
            v = args[1] if len(args) > 1 else VNONE
            self.c.event("store", e, fr, st, v, self, base=me, key=k)
            if k in d and d[k][1]:
                return [(st, d[k][0])]
            nv = join(d[k][0], v) if k in d else join(v, c[2]) if c[2] else v
            d[k] = (nv, True)
            return [(st.cell(r, ("dict", mk(d), c[2])), nv)]
        if nm == "pop" and args:
            dflt = args[1] if len(args) > 1 else None
            if exact and len(ks) == 1:
                k = ks[0]
                if k in d:
                    v, m = d[k]
                    if strong:
                        del d[k]
                    else:
                        d[k] = (v, False)
                    s2 = st.cell(r, ("dict", mk(d), c[2]))
                    if not m and dflt is None:
                        self.c.event("key-maybe", e, fr, st, me, self, key=k, ref=r)
                    return [(s2, v if m or dflt is None else join(v, dflt))]
                if dflt is None and not c[2]:
                    self.c.event("key-missing", e, fr, st, me, self, key=k, ref=r)
                return [(st, join(dflt or frozenset(), c[2] or frozenset()) or TOP)]
            s2 = st.cell(r, ("dict", tuple((k, (v, False)) for k, (v, m) in c[1]), c[2]))
            return [(s2, TOP)]
        if nm == "update":
            st2 = st
            for k, v in kw.items():
                if k:
                    st2 = self.setitem(st2, me if only else me | {("x",)}, vstr(k), v, e, fr)
            for v in args[:1]:
                for a in v:
                    if a[0] == "ref" and st2.heap.get(a, ("",))[0] == "dict":
                        for k, (w, m) in st2.heap[a][1]:
                            if m and len(v) == 1:
                                st2 = self.setitem(st2, me, vstr(k), w, e, fr)
                            else:
                                cc = st2.heap[r]
                                dd = dict(cc[1])
                                o = dd.get(k)
                                dd[k] = (join(o[0], w), o[1]) if o else (w, False)
                                st2 = st2.cell(r, ("dict", mk(dd), cc[2]))
                        if st2.heap[a][2]:
                            cc = st2.heap[r]
                            st2 = st2.cell(r, ("dict", cc[1], join(cc[2], st2.heap[a][2]) if cc[2] else st2.heap[a][2]))
                    elif a != NONE:
                        cc = st2.heap[r]
                        st2 = st2.cell(r, ("dict", tuple((k, (TOP, m)) for k, (w, m) in cc[1]), TOP))
            return [(st2, VNONE)]
        if nm == "copy":
            s, q = alloc(st, (id(e), "cp"), c)
            self.c.event("alloc", e, fr, s, frozenset({q}), self)
            return [(s, frozenset({q}))]
        if nm in ("items", "keys", "values"):
            el = join(*[v for v, _ in d.values()], c[2] or frozenset())
            kv = join(*[vstr(k) for k in d], VSTR if c[2] else frozenset())
            if nm == "items":
                el = frozenset({("tup", (kv, el))}) if el else frozenset()
            elif nm == "keys":
                el = kv
            s, q = alloc(st, (id(e), nm), ("list", el, sum(1 for _, m in d.values() if m), None))
            return [(s, frozenset({q}))]
        if nm == "clear":
            return [(st.cell(r, ("dict", (), None) if strong else c), VNONE)]
        if nm in ("strip", "startswith", "append", "lower"):
            self.c.event("attr-dict", e, fr, st, me, self)
            return []
        return [(st, TOP)]


def _aug_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load())
    if isinstance(t, ast.Attribute):
        n = ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
        return n
    return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
