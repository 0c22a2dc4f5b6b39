"""C26: every substitution of document text by generated placeholder keys is found (a map that is filled under keys made of constant text and a
counter, the keys also being put into text); the keys are unambiguous, what is stored is what was taken out, and the map is used to put the text
back on every path on which text leaves the function."""
import ast
import re
from ..core import *
from ..drive import build_pta
from ..slice import own_nodes

NOTE = "placeholder typestate: key construction, stored = removed, must-restore on every path, order of restoration"

TEX = set("\\{}$%#&~^ \t\n")


def parents(n):
    while getattr(n, "_parent", None) is not None:
        n = n._parent
        yield n


def defs(f, name):
    return [n for n in own_nodes(f) if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None
            and any(isinstance(t, ast.Name) and t.id == name for t in (n.targets if isinstance(n, ast.Assign) else [n.target]))]


def const(f, e):
    """constant string value of an expression"""
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return e.value
    if isinstance(e, ast.Name):
        ds = defs(f, e.id)
        if len(ds) == 1:
            return const(f, ds[0].value)
        if not ds:
            v = getattr(f.module, "tree", None)
            for s in v.body if v else ():
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in s.targets):
                    return const(f, s.value)
    return None


def keyform(f, e):
    """[constant str | counter expression, ...] of a generated key, or None"""
    if isinstance(e, ast.JoinedStr):
        out = []
        for v in e.values:
            x = v.value if isinstance(v, ast.FormattedValue) else v
            c = const(f, x)
            out.append(c if c is not None else x)
    elif isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod) and const(f, e.left) is not None:
        parts = re.split(r"%[sd]", const(f, e.left))
        args = e.right.elts if isinstance(e.right, ast.Tuple) else [e.right]
        if len(parts) != len(args) + 1:
            return None
        out = [parts[0]]
        for a, b in zip(args, parts[1:]):
            c = const(f, a)
            out += [c if c is not None else a, b]
    elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "format" and const(f, e.func.value) is not None and not e.keywords:
        parts = re.split(r"\{\d*\}", const(f, e.func.value))
        if len(parts) != len(e.args) + 1:
            return None
        out = [parts[0]]
        for a, b in zip(e.args, parts[1:]):
            c = const(f, a)
            out += [c if c is not None else a, b]
    elif isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        out = []

        def flat(x):
            if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Add):
                flat(x.left), flat(x.right)
            else:
                c = const(f, x)
                if c is None and isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "str" and x.args:
                    x = x.args[0]
                out.append(c if c is not None else x)
        flat(e)
    else:
        return None
    merged = []
    for x in out:
        if isinstance(x, str) and merged and isinstance(merged[-1], str):
            merged[-1] += x
        elif x != "":
            merged.append(x)
    cs = [x for x in merged if not isinstance(x, str)]
    if len(cs) != 1 or not isinstance(merged[0], str):
        return None
    c = cs[0]
    if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "len" or isinstance(c, ast.Name) or (
            isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "next"):
        return merged
    return None


class Site:
    pass


def key_of(f, k, prog):
    """(key form, name of the key variable, function that builds it)"""
    if isinstance(k, ast.Name):
        ds = defs(f, k.id)
        if len(ds) == 1:
            form = keyform(f, ds[0].value)
            if form:
                return form, k.id
            v = ds[0].value
            if isinstance(v, ast.Call):  # a helper that builds the key
                g = prog.resolve_dotted(f.module, v.func) if isinstance(v.func, (ast.Name, ast.Attribute)) else None
                if isinstance(v.func, ast.Attribute) and f.cls is not None and isinstance(v.func.value, ast.Name):
                    g = f.cls.find_method(v.func.attr) or g
                if isinstance(g, Func):
                    rs = [n for n in own_nodes(g) if isinstance(n, ast.Return) and n.value is not None]
                    if len(rs) == 1:
                        form = keyform(g, rs[0].value)
                        if form:
                            c = next(x for x in form if not isinstance(x, str))
                            ps = g.posargs[1:] if g.cls is not None and g.posargs[:1] == ["self"] else g.posargs
                            if isinstance(c, ast.Name) and c.id in ps and ps.index(c.id) < len(v.args):
                                form = [x if isinstance(x, str) else v.args[ps.index(c.id)] for x in form]
                                return form, k.id
    elif keyform(f, k):
        return keyform(f, k), None
    return None


def sites(prog):
    out = []
    for f in prog.funcs.values():
        if isinstance(f.node, ast.Lambda):
            continue
        for n in own_nodes(f):
            if not (isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and isinstance(n.targets[0].value, ast.Name)):
                continue
            M, k = n.targets[0].value.id, n.targets[0].slice
            ko = key_of(f, k, prog)
            if ko is None or ko[1] is None:
                continue
            form, name = ko
            used = [x for x in own_nodes(f) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) and x is not k]
            intext = []
            for u in used:
                for q in parents(u):
                    if isinstance(q, ast.BinOp) and isinstance(q.op, ast.Add) or isinstance(q, ast.JoinedStr) or isinstance(q, ast.AugAssign) and isinstance(q.op, ast.Add) \
                            or isinstance(q, ast.Call) and isinstance(q.func, ast.Attribute) and q.func.attr in ("append", "join", "replace", "sub", "write", "extend"):
                        intext.append(q)
                        break
                    if isinstance(q, ast.stmt):
                        break
            if not intext:
                continue
            s = Site()
            s.f, s.store, s.M, s.form, s.key, s.intext = f, n, M, form, name, intext
            out.append(s)
    return out


def stmt_of(n):
    while not isinstance(n, ast.stmt):
        n = n._parent
    return n


def loops_around(n, f):
    return [q for q in parents(n) if isinstance(q, (ast.For, ast.While)) and any(q is x for x in ast.walk(f.node))]


def mapdef(f, M):
    ds = defs(f, M)
    return ds[0] if len(ds) == 1 else None


def unique(f, s, rep):
    """why the counter can repeat, or None"""
    c = next(x for x in s.form if not isinstance(x, str))
    if isinstance(c, ast.Call) and c.func.id == "len":
        a = c.args[0] if c.args else None
        if not (isinstance(a, ast.Name) and a.id == s.M):
            ok = isinstance(a, ast.Name) and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "append" and isinstance(x.func.value, ast.Name) and x.func.value.id == a.id for x in own_nodes(f))
            return None if ok else f"the counter len({src_of(a) if a is not None else ''}) is not the size of the map {s.M}"
        for x in own_nodes(f):
            if isinstance(x, ast.Delete) and any(isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == s.M for t in x.targets):
                return f"entries are deleted from {s.M}, so its size repeats"
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == s.M and x.func.attr in ("pop", "popitem", "clear"):
                return f"entries are removed from {s.M}, so its size repeats"
        return None
    if isinstance(c, ast.Call):
        return None  # next(counter)
    name = c.id
    around = loops_around(s.store, f)
    for q in around:
        if isinstance(q, ast.For) and any(isinstance(t, ast.Name) and t.id == name for t in ast.walk(q.target)):
            outer = [o for o in loops_around(q, f)]
            md = mapdef(f, s.M)
            inside = md is not None and outer and any(md is x for x in ast.walk(outer[0]))
            return None if not outer or inside else f"the counter {name} starts again in every round of an outer loop while {s.M} is kept"
    incs = [x for x in own_nodes(f) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name and isinstance(x.op, ast.Add)]
    incs += [x for x in defs(f, name) if isinstance(x.value, ast.BinOp) and isinstance(x.value.op, ast.Add) and any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(x.value))]
    if not incs:
        local = defs(f, name) or any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in own_nodes(f))
        return f"the counter {name} is never increased" if local else None
    md = mapdef(f, s.M)
    for d in defs(f, name):
        if d in incs:
            continue
        for q in loops_around(d, f):
            if q in around and not (md is not None and any(md is x for x in ast.walk(q))):
                return f"the counter {name} is reset inside the loop while {s.M} is kept"
    if not around:
        return None
    # every path from the store back to the store must pass an increase
    inner = around[0]
    bad = cyc(inner, stmt_of(s.store), incs)
    return f"a further key can be made before the counter {name} is increased" if bad else None


def cyc(loop, store, incs):
    """is there a path from the store statement round the loop to the store again without an increase?"""
    def run(body, st):
        # states: 'a' before any store, 's' stored and not increased, 'i' stored and increased
        brk, cont, hit = set(), set(), False
        for x in body:
            if not st:
                break
            if x is store or (isinstance(x, (ast.Assign, ast.AugAssign, ast.Expr)) and any(y is store for y in ast.walk(x))):
                if "s" in st:
                    return st, brk, cont, True
                st = {"s"}
                continue
            if x in incs:
                st = {"a" if y in ("a", "s") else y for y in st}
                st = {"a"}
                continue
            if isinstance(x, ast.Break):
                brk |= st
                st = set()
            elif isinstance(x, ast.Continue):
                cont |= st
                st = set()
            elif isinstance(x, (ast.Return, ast.Raise)):
                st = set()
            elif isinstance(x, ast.If):
                a = run(x.body, set(st))
                b = run(x.orelse, set(st))
                hit |= a[3] or b[3]
                st, brk, cont = a[0] | b[0], brk | a[1] | b[1], cont | a[2] | b[2]
            elif isinstance(x, (ast.For, ast.While)):
                cur = set(st)
                for _ in range(3):
                    a = run(x.body, set(cur))
                    hit |= a[3]
                    cur |= a[0] | a[1] | a[2]
                st = cur
            elif isinstance(x, ast.Try):
                a = run(x.body, set(st))
                outs, hit = set(a[0]), hit | a[3]
                brk, cont = brk | a[1], cont | a[2]
                for h in x.handlers:
                    b = run(h.body, set(st) | a[0])
                    outs |= b[0]
                    brk, cont, hit = brk | b[1], cont | b[2], hit | b[3]
                st = outs
            elif isinstance(x, ast.With):
                a = run(x.body, set(st))
                st, brk, cont, hit = a[0], brk | a[1], cont | a[2], hit | a[3]
            if hit:
                return st, brk, cont, True
        return st, brk, cont, hit
    st = {"a"}
    for _ in range(3):
        o = run(loop.body, set(st))
        if o[3]:
            return True
        st |= o[0] | o[2]
    return False


def slices(e):
    """(variable, lower, upper) of a slice expression"""
    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice) and e.slice.step is None:
        return ast.unparse(e.value), e.slice.lower, e.slice.upper
    return None


def removed_stored(f, s):
    """(stored (var, lo, hi), inserted (var, lo, hi)) when both are plain slices"""
    vals = []

    def collect(v):
        if isinstance(v, ast.Name):
            ds = defs(f, v.id)
            if len(ds) == 1:
                return collect(ds[0].value)
        elif isinstance(v, ast.Dict):
            for x in v.values:
                collect(x)
        elif slices(v):
            vals.append(slices(v))
    collect(s.store.value)
    ins = None
    for q in s.intext:
        top = q
        while isinstance(getattr(top, "_parent", None), ast.BinOp):
            top = top._parent
        parts = []

        def flat(x):
            if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Add):
                flat(x.left), flat(x.right)
            else:
                parts.append(x)
        flat(top)
        ki = next((i for i, x in enumerate(parts) if isinstance(x, ast.Name) and x.id == s.key), None)
        if ki is not None and 0 < ki < len(parts) - 1:
            a, b = slices(parts[ki - 1]), slices(parts[ki + 1])
            if a and b and a[0] == b[0] and a[1] is None and b[2] is None:
                ins = (a[0], a[2], b[1])
    return vals, ins


def nestable(f, s):
    """can a stored piece contain keys made earlier? (more than one pass over a text that holds keys)"""
    vals, ins = removed_stored(f, s)
    if ins is None or not any(v[0] == ins[0] for v in vals):
        return False
    names = {x.id for e in (ins[1], ins[2]) if e is not None for x in ast.walk(e) if isinstance(x, ast.Name)}
    md = mapdef(f, s.M)
    around = loops_around(s.store, f)
    for q in around:
        if md is not None and any(md is x for x in ast.walk(q)):
            continue
        for nm in names:
            for d in defs(f, nm):
                if isinstance(d.value, ast.Constant) and d.value.value == 0 and any(d is x for x in ast.walk(q)):
                    return True
    return False


# ---------------------------------------------------------------- restoration
def mentions(e, M):
    return any(isinstance(x, ast.Name) and x.id == M for x in ast.walk(e))


def over_map(e, M):
    """iteration expression over the map: (True, reversed?)"""
    rev = False
    for _ in range(6):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "tuple", "reversed", "sorted", "iter", "enumerate") and e.args:
            if e.func.id == "reversed":
                rev = not rev
            if e.func.id == "sorted" and any(k.arg == "reverse" for k in e.keywords):
                rev = True
            e = e.args[0]
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("items", "keys", "copy"):
            e = e.func.value
        elif isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice) and e.slice.lower is None and e.slice.upper is None and e.slice.step is not None:
            rev = not rev
            e = e.value
        else:
            break
    return isinstance(e, ast.Name) and e.id == M, rev


class Restore:
    def __init__(self, prog, p):
        self.prog, self.p = prog, p
        self.tgt = {}
        for (site, ctx), fs in p.callees.items():
            self.tgt.setdefault(site, set()).update(g for g in fs if isinstance(g, Func))
        self.memo = {}

    def loop(self, s, M):
        """is the loop a restoration of the whole map? (found, reversed, complete)"""
        if not isinstance(s, ast.For):
            return None
        ok, rev = over_map(s.iter, M)
        if not ok:
            return None
        keys = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        for x in ast.walk(s):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("replace", "find", "index", "split", "partition", "sub") and any(isinstance(a, ast.Name) and a.id in keys for a in ast.walk(x)):
                brk = [b for b in ast.walk(s) if isinstance(b, (ast.Break, ast.Return)) and not any(isinstance(q, (ast.For, ast.While)) and q is not s for q in parents(b) if q in set(ast.walk(s)))]
                fix = any(isinstance(q, ast.While) for q in parents(s) if not isinstance(q, (ast.FunctionDef, ast.Module)))
                return rev or fix, not brk
        return None

    def func(self, g, M):
        """does the function restore the map it has under the name M? -> (reversed, complete) or None"""
        k = (g, M)
        if k not in self.memo:
            self.memo[k] = None
            r = None
            for x in ast.walk(g.node):
                if isinstance(x, ast.For):
                    r = r or self.loop(x, M)
                elif isinstance(x, ast.Call) and not r:
                    r = self.call(x, M)
            self.memo[k] = r
        return self.memo[k]

    def call(self, c, M):
        """restoration by a call that is given the map"""
        args = list(c.args) + [k.value for k in c.keywords]
        hit = [i for i, a in enumerate(args) if over_map(a, M)[0]]
        if not hit:
            return None
        if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == M:
            return None
        if isinstance(c.func, ast.Name) and c.func.id in ("len", "print", "list", "bool", "str", "repr", "sorted", "reversed", "iter", "enumerate", "tuple", "dict", "any", "all"):
            return None
        if isinstance(c.func, ast.Attribute) and c.func.attr in ("debug", "info", "warning", "error", "append", "update", "extend"):
            return None
        rev = over_map(args[hit[0]], M)[1]
        gs = self.tgt.get(id(c), ())
        if not gs:
            if any(isinstance(x, ast.Attribute) and x.attr == "replace" for a in args for x in ast.walk(a)):
                return rev, True  # reduce(lambda ...: text.replace(...), map.items(), text)
            return (True, True)  # not known what is done with it
        res = None
        for g in gs:
            ps = [a for a in g.posargs]
            if g.cls is not None and ps[:1] in (["self"], ["cls"]):
                ps = ps[1:]
            i = hit[0]
            nm = (ps[i] if i < len(ps) else None) if i < len(c.args) else c.keywords[i - len(c.args)].arg
            r = self.func(g, nm) if nm else (True, True)
            if r is None:
                return None
            res = (r[0] != rev if rev else r[0], r[1])
        return res

    def stmt(self, s, M, f):
        """restoration inside one simple statement"""
        for x in ast.walk(s):
            if isinstance(x, ast.Call):
                r = self.call(x, M)
                if r:
                    return r
                # a local function that looks the keys up, handed on or called
                for a in [x.func, *x.args, *[k.value for k in x.keywords]]:
                    if isinstance(a, ast.Name):
                        for d in ast.walk(f.node):
                            if isinstance(d, ast.FunctionDef) and d.name == a.id and d is not f.node and mentions(d, M):
                                for y in ast.walk(d):
                                    r = self.loop(y, M) if isinstance(y, ast.For) else self.call(y, M) if isinstance(y, ast.Call) else None
                                    if r:
                                        return r
            elif isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.DictComp)) and any(over_map(g.iter, M)[0] for g in x.generators):
                return over_map(x.generators[0].iter, M)[1], True
        return None

    def leaks(self, f, start, M):
        """returns reached with text that still holds keys -> ([Return], [restorations found])"""
        bad, found = [], []
        R = self

        def names(e, M):
            return mentions(e, M)

        def run(body, st):
            brk, cont = set(), set()
            for x in body:
                if not st:
                    break
                if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    continue
                if isinstance(x, ast.If):
                    t = x.test
                    a, b = set(st), set(st)
                    if isinstance(t, ast.Name) and t.id == M or isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "len" and mentions(t, M):
                        b = {"n" if y == "live" else y for y in b}
                    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and isinstance(t.operand, ast.Name) and t.operand.id == M:
                        a = {"n" if y == "live" else y for y in a}
                    p1, p2 = run(x.body, a), run(x.orelse, b)
                    st = p1[0] | p2[0]
                    brk |= p1[1] | p2[1]
                    cont |= p1[2] | p2[2]
                    continue
                if isinstance(x, (ast.For, ast.While)):
                    r = R.loop(x, M)
                    if r:
                        found.append((x, r))
                        st = {"done" if y == "live" else y for y in st}
                        continue
                    cur = set(st)
                    for _ in range(3):
                        o = run(x.body, set(cur))
                        cur |= o[0] | o[1] | o[2]
                    st = cur
                    if x.orelse:
                        o = run(x.orelse, st)
                        st = o[0]
                    continue
                if isinstance(x, ast.Try):
                    o = run(x.body, set(st))
                    s2 = set(o[0])
                    brk |= o[1]
                    cont |= o[2]
                    for h in x.handlers:
                        q = run(h.body, set(st) | o[0])
                        s2 |= q[0]
                        brk |= q[1]
                        cont |= q[2]
                    st = s2
                    if x.finalbody:
                        st = run(x.finalbody, st)[0]
                    continue
                if isinstance(x, ast.With):
                    o = run(x.body, set(st))
                    st, brk, cont = o[0], brk | o[1], cont | o[2]
                    continue
                if isinstance(x, ast.Break):
                    brk |= st
                    st = set()
                    continue
                if isinstance(x, ast.Continue):
                    cont |= st
                    st = set()
                    continue
                r = R.stmt(x, M, f)
                if r:
                    found.append((x, r))
                    st = {"done" if y == "live" else y for y in st}
                if any(y is start for y in ast.walk(x)):
                    st = {"live"}
                if isinstance(x, ast.Return):
                    v = x.value
                    if "live" in st and v is not None and not mentions(v, M) and not (isinstance(v, ast.Constant)) \
                            and not (isinstance(v, ast.Tuple) and all(isinstance(y, ast.Constant) or isinstance(y, ast.Name) and y.id.endswith("pos") or isinstance(y, ast.Call) for y in v.elts)):
                        bad.append(x)
                    st = set()
                elif isinstance(x, ast.Raise):
                    st = set()
                elif isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None and mentions(x.value, M) and not r:
                    # the map is stored with the text (a field of the token, an attribute): it travels with it
                    tg = x.targets[0] if isinstance(x, ast.Assign) else x.target
                    if isinstance(tg, (ast.Subscript, ast.Attribute)) and isinstance(x.value, ast.Name) and not (isinstance(tg, ast.Subscript) and isinstance(tg.value, ast.Name) and tg.value.id == M):
                        st = {"done" if y == "live" else y for y in st}
                        found.append((x, (True, True)))
            return st, brk, cont
        run(f.node.body, {"n"})
        return bad, found


def filtered(prog, R, f, M):
    """restoration that is done only in tokens of one type: other tokens that may carry a key are passed on as they are -> [(node, type)]"""
    out = []
    for x in ast.walk(f.node):
        if not (isinstance(x, ast.For) and isinstance(x.target, ast.Name)):
            continue
        v = x.target.id
        for y in x.body:
            if isinstance(y, ast.If) and y.orelse and mentions(y.test, v) and any(isinstance(z, ast.Constant) and z.value == "type" for z in ast.walk(y.test)):
                if any(isinstance(z, ast.For) and R.loop(z, M) for b in y.body for z in ast.walk(b)) and not any(mentions(b, M) for b in y.orelse):
                    for b in y.orelse:
                        if any(isinstance(z, ast.Call) and isinstance(z.func, ast.Attribute) and z.func.attr == "append" and any(isinstance(a, ast.Name) and a.id == v for a in z.args) for z in ast.walk(b)):
                            out.append(b)
    return out


def run(prog, rep, tier):
    rep.rule("key-delimited: a generated key has constant text before and behind its counter (no key is a prefix of another) and no character that TeX processing changes")
    rep.rule("key-unique: the counter never repeats while the map is kept")
    rep.rule("stored-is-removed: what is stored under a key is exactly the text that the key replaces")
    rep.rule("restored: on every path on which text leaves after the substitution the map is used to put the text back, or leaves together with the text")
    rep.rule("restored-nested: if a stored piece can itself contain earlier keys, the keys are put back last one first")
    rep.rule("restored-everywhere: the keys are put back in every kind of token they can be in")
    p = build_pta(prog)
    R = Restore(prog, p)
    calls = {}
    nodes = {}
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                nodes[id(n)] = n
    for site, gs in R.tgt.items():
        for g in gs:
            calls.setdefault(g, set()).add(site)
    ss = sites(prog)
    for s in ss:
        f = s.f
        at = f"{f.qual}: {s.M}"
        where = loc(s.store)
        consts = [x for x in s.form if isinstance(x, str)]
        text = "".join(x if isinstance(x, str) else "<n>" for x in s.form)
        last = s.form[-1]
        rep.check(isinstance(last, str) and not last[0].isdigit() and not consts[0][-1:].isdigit(), "key-delimited", f"{at}: end", f"{where}: the keys {text!r} are not closed behind the counter: one key is a prefix of another")
        rep.check(not any(c in TEX for x in consts for c in x), "key-delimited", f"{at}: characters", f"{where}: the keys {text!r} contain characters that are changed by TeX processing between substitution and restoration")
        why = unique(f, s, rep)
        rep.check(why is None, "key-unique", at, f"{where}: keys {text!r} can repeat: {why}")
        vals, ins = removed_stored(f, s)
        if ins and any(v[0] == ins[0] for v in vals):
            d = lambda e: None if e is None else ast.dump(e)
            ok = any(v[0] == ins[0] and d(v[1]) == d(ins[1]) and d(v[2]) == d(ins[2]) for v in vals)
            v = next(v for v in vals if v[0] == ins[0])
            sh = lambda e: "" if e is None else ast.unparse(e)
            if ok or {x.id for e in (*v[1:], *ins[1:]) if e is not None for x in ast.walk(e) if isinstance(x, ast.Name)}:
                rep.check(ok, "stored-is-removed", at, f"{where}: the key replaces {ins[0]}[{sh(ins[1])}:{sh(ins[2])}] but {v[0]}[{sh(v[1])}:{sh(v[2])}] is stored")
        elif isinstance(s.store.value, ast.Call) and isinstance(s.store.value.func, ast.Attribute) and s.store.value.func.attr == "group" and not isinstance(s.store.value.func.value, ast.Constant):
            a = s.store.value.args
            rep.check(not a or isinstance(a[0], ast.Constant) and a[0].value == 0, "stored-is-removed", at, f"{where}: only a part of the match ({src_of(s.store.value)}) is stored under the key")
        v = s.store.value
        if isinstance(v, ast.Name):
            ds = defs(f, v.id)
            v = ds[0].value if len(ds) == 1 else v
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ("lower", "upper", "replace", "expandtabs", "title", "capitalize", "casefold", "swapcase", "translate"):
            b = v.func.value
            if isinstance(b, ast.Subscript) and isinstance(b.slice, ast.Slice) or isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute) and b.func.attr == "group":
                rep.bad("stored-is-removed", at, f"{where}: the removed text is changed before it is stored ({src_of(v)[:60]}): it comes back different")
        # who has to restore
        work, seen = [(f, s.store, s.M)], set()
        nest = nestable(f, s)
        judged = 0
        while work:
            g, start, M = work.pop()
            if (g, M) in seen:
                continue
            seen.add((g, M))
            bad, found = R.leaks(g, start, M)
            rets = [n for n in own_nodes(g) if isinstance(n, ast.Return) and n.value is not None and mentions(n.value, M)]
            handed = [n for n in rets if isinstance(n.value, ast.Tuple) and any(isinstance(e, ast.Name) and e.id == M for e in n.value.elts)]
            rep.check(not bad, "restored", f"{at}: {g.qual}", f"{loc(bad[0]) if bad else ''}: `{src_of(bad[0])[:60] if bad else ''}` in {g.qual} lets text leave that still holds the keys {text!r}; {M} is not used to put the text back on this path")
            judged += 1
            for x, (rev, complete) in found:
                rep.check(complete, "restored", f"{at}: {g.qual} complete", f"{loc(x)}: the loop over {M} ends before all keys {text!r} are put back")
                if nest:
                    rep.check(rev, "restored-nested", f"{at}: {g.qual}", f"{loc(x)}: stored pieces can contain earlier keys {text!r} ({f.qual} goes over the text more than once), but the keys are put back first one first: a key inside a later piece stays in the text")
            for b in filtered(prog, R, g, M):
                rep.bad("restored-everywhere", f"keys {text}", f"{loc(b)} {g.qual}: keys {text!r} are put back in text tokens only; a token of another type made from the same text (an unknown command with its argument) is passed on with the key in it")
            if not filtered(prog, R, g, M):
                rep.ok("restored-everywhere", f"keys {text}: {g.qual}")
            if handed:
                idx = next(i for i, e in enumerate(handed[0].value.elts) if isinstance(e, ast.Name) and e.id == M)
                for c in sorted(calls.get(g, ()), key=lambda c: loc(nodes[c]) if c in nodes else ""):
                    n = nodes.get(c)
                    h = enclosing_func(prog, n) if n is not None else None
                    if h is None:
                        continue
                    st = stmt_of(n)
                    if isinstance(st, ast.Assign) and st.value is n and len(st.targets) == 1 and isinstance(st.targets[0], ast.Tuple) and idx < len(st.targets[0].elts):
                        t = st.targets[0].elts[idx]
                        if isinstance(t, ast.Name):
                            work.append((h, st, t.id))
                        continue
                    if isinstance(st, ast.Assign) and isinstance(st.value, ast.Subscript) and st.value.value is n:
                        rep.bad("restored", f"{at}: {h.qual}", f"{loc(n)}: the map of the keys {text!r} is dropped")
    rep.stats["placeholder substitutions"] = [f"{loc(s.store)} {s.f.qual} {''.join(x if isinstance(x, str) else '<n>' for x in s.form)}" for s in ss]
    rep.assumptions += ["the document does not itself contain text of the form of a key", "calls that take the map and cannot be resolved are taken to restore it",
                        "the map published with an equation token (placeholders) travels with its text and is resolved by the builder"]
    if len(ss) < 3:
        raise AnalysisBroken(f"only {len(ss)} placeholder substitutions found")
