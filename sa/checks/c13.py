"""C13: a file whose content is being processed is not processed again inside itself."""
import ast
from ..core import *
from ..drive import build_pta
from ..dom import conditions, norm
from ..slice import own_nodes, defs_of, targets_of

NOTE = ("Strongly connected components of the points-to call graph; in each, every call that hands on text read from a file in the same activation must be dominated by a membership test of the "
        "normalised path in a collection that already contains it when the text is processed, and nothing reachable from the recursion may empty that collection.")

READERS = ("read_text", "read_bytes", "read", "readlines", "readline", "open")
NORMAL = ("abspath", "realpath", "resolve", "normpath", "samefile", "absolute")
ADDERS = ("append", "add", "insert", "appendleft", "push", "__setitem__", "setdefault", "update", "extend")
REMOVERS = ("pop", "remove", "discard", "clear", "popleft", "popitem", "difference_update", "__delitem__")


def sccs(nodes, succ):
    idx, low, on, st, out = {}, {}, set(), [], []
    n = 0
    for r in nodes:
        if r in idx:
            continue
        work = [(r, iter(succ.get(r, ())))]
        idx[r] = low[r] = n
        n += 1
        st.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n
                    n += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(succ.get(w, ()))))
                    adv = True
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == idx[v]:
                c = set()
                while True:
                    w = st.pop()
                    on.discard(w)
                    c.add(w)
                    if w == v:
                        break
                out.append(c)
    return out


class Fresh:
    """does a value, evaluated in one activation of a function, depend on a file read in that activation?"""

    def __init__(self, prog, p):
        self.prog = prog
        self.callees = {}
        for (site, ctx), fs in p.callees.items():
            self.callees.setdefault(site, set()).update(fs)
        self.summ = {}
        self.busy = set()
        self.comp = frozenset()

    def funcs(self, call):
        return [g for g in self.callees.get(id(call), ()) if isinstance(g, Func)]

    def reads(self, call):
        for d in self.callees.get(id(call), ()):
            if isinstance(d, str):
                nm = d.split(".")[-1].split(":")[-1]
                if nm in READERS and not d.startswith(("tarfile", "zipfile", "gzip", "json", "re.")):
                    return True
        return isinstance(call.func, ast.Name) and call.func.id == "open" or isinstance(call.func, ast.Attribute) and call.func.attr in ("read", "read_text", "read_bytes", "readlines")

    def returns(self, g, item=None):
        k = (g, item)
        if k in self.summ:
            return self.summ[k]
        if k in self.busy:
            return False
        self.busy.add(k)
        r = False
        for n in own_nodes(g):
            v = None
            if isinstance(n, ast.Return) or isinstance(n, (ast.Yield, ast.YieldFrom)):
                v = n.value
            if v is None:
                continue
            if item is not None and isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) > item:
                v = v.elts[item]
            if self.value(v, g):
                r = True
                break
        self.busy.discard(k)
        self.summ[k] = r
        return r

    def value(self, e, f, seen=None, item=None):
        seen = set() if seen is None else seen
        if e is None or (id(e), item) in seen:
            return False
        seen.add((id(e), item))
        if isinstance(e, tuple):
            if e[0] == "elem":
                return self.value(e[1], f, seen)
            if e[0] == "item":
                return self.value(e[2], f, seen, e[1])
            return False
        if isinstance(e, ast.Name):
            g = f
            while g is not None:
                ds = defs_of(g, e.id)
                if ds:
                    for v, s in ds:
                        if v is None:
                            # with ... as name
                            if isinstance(s, ast.withitem) and self.value(s.context_expr, g, seen):
                                return True
                            continue
                        if self.value(v, g, seen):
                            return True
                    return False
                if e.id in g.params:
                    return False
                g = g.parent
            return False
        if isinstance(e, ast.Call):
            if self.reads(e):
                return True
            gs = self.funcs(e)
            if any(g in self.comp for g in gs):
                # what the recursion returns has been processed where it was read
                return False
            if gs:
                if any(self.returns(g, item) for g in gs):
                    return True
            if isinstance(e.func, ast.Attribute) and not gs and self.value(e.func.value, f, seen):
                return True
            for a in list(e.args) + [k.value for k in e.keywords]:
                if self.value(a.value if isinstance(a, ast.Starred) else a, f, seen):
                    return True
            return False
        if isinstance(e, ast.Attribute):
            return False if isinstance(e.value, ast.Name) and e.value.id == "self" else self.value(e.value, f, seen)
        if isinstance(e, (ast.Compare, ast.Constant, ast.Lambda)):
            return False
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            return self.value(e.elt, f, seen) or any(self.value(g.iter, f, seen) for g in e.generators)
        if isinstance(e, ast.DictComp):
            return self.value(e.value, f, seen)
        return any(self.value(c, f, seen) for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr))


def coll_name(e):
    """name of the collection expression: the attribute or variable"""
    if isinstance(e, ast.Attribute):
        return e.attr
    if isinstance(e, ast.Name):
        return e.id
    return None


def tests_of(prog, F, f, site, depth=0):
    """[(collection name, key normal form or None, key expr, func)] known absent at site"""
    out = []

    def conj(test, pol, g, d):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return conj(test.operand, not pol, g, d)
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) == pol:
            for v in test.values:
                conj(v, pol, g, d)
            return
        if isinstance(test, ast.Name):
            ds = defs_of(g, test.id)
            if len(ds) == 1 and isinstance(ds[0][0], ast.AST):
                conj(ds[0][0], pol, g, d)
            return
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.In, ast.NotIn)):
            if isinstance(test.ops[0], ast.NotIn) == pol and coll_name(test.comparators[0]):
                out.append((coll_name(test.comparators[0]), norm(test.left, g) if d == 0 else None, test.left, g))
            return
        if isinstance(test, ast.Call):
            fs = F.funcs(test)
            if isinstance(test.func, ast.Name) and test.func.id == "any" and test.args and isinstance(test.args[0], ast.GeneratorExp) and not pol:
                for gen in test.args[0].generators:
                    if coll_name(gen.iter):
                        out.append((coll_name(gen.iter), None, None, g))
                return
            for t in fs:
                rets = [n.value for n in own_nodes(t) if isinstance(n, ast.Return) and n.value is not None]
                if len(rets) == 1 and d < 3:
                    conj(rets[0], pol, t, d + 1)
                elif d < 3:
                    for r in rets:
                        if isinstance(r, ast.Constant) and bool(r.value) == pol:
                            for tt, pp, ss in conditions(r):
                                conj(tt, pp, t, d + 1)
    for t, pol, st in conditions(site):
        conj(t, pol, f, 0)
    return out


def changes(node, F, names, depth=0):
    """[(kind, collection, key expr)] of additions / removals executed in the subtree (package callees followed two deep)"""
    out = []
    for n in ast.walk(node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and coll_name(n.func.value):
            if n.func.attr in ADDERS:
                out.append(("add", coll_name(n.func.value), n.args[-1] if n.args else None))
            elif n.func.attr in REMOVERS:
                out.append(("remove", coll_name(n.func.value), None))
        elif isinstance(n, ast.AugAssign) and coll_name(n.target) and isinstance(n.op, (ast.Add, ast.BitOr)):
            out.append(("add", coll_name(n.target), n.value))
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Subscript) and coll_name(t.value):
                    out.append(("add", coll_name(t.value), t.slice))
                elif coll_name(t) and isinstance(n.value, ast.BinOp) and isinstance(n.value.op, (ast.Add, ast.BitOr)) and coll_name(n.value.left) == coll_name(t):
                    out.append(("add", coll_name(t), n.value.right))
        if isinstance(n, ast.Call) and depth < 2:
            for g in F.funcs(n):
                if any(isinstance(x, (ast.Yield,)) for x in own_nodes(g)):
                    # context manager: what happens before the yield
                    pass
                for st in g.body:
                    out += [(k, c, None) for k, c, _ in changes(st, F, names, depth + 1) if k == "add"]
    return out


def before(site):
    """statements executed before `site` in its function (earlier siblings in enclosing blocks, with items)"""
    out = []
    child, n = site, getattr(site, "_parent", None)
    while n is not None and not isinstance(child, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
        for b in ("body", "orelse", "finalbody"):
            body = getattr(n, b, None)
            if isinstance(body, list) and child in body:
                out += body[:body.index(child)]
        if isinstance(n, (ast.With, ast.AsyncWith)) and child in n.body:
            out += [i.context_expr for i in n.items]
        child, n = n, getattr(n, "_parent", None)
    return out


def normalised(prog, F, e, f, depth=0, seen=None):
    """the key is a normalised path"""
    seen = set() if seen is None else seen
    if e is None or depth > 8 or id(e) in seen:
        return False
    seen.add(id(e))
    if isinstance(e, tuple):
        return False
    if isinstance(e, ast.Call):
        if (isinstance(e.func, ast.Attribute) and e.func.attr in NORMAL) or isinstance(e.func, ast.Name) and e.func.id in NORMAL:
            return True
        gs = F.funcs(e)
        if gs:
            return all(any(normalised(prog, F, n.value, g, depth + 1, seen) for n in own_nodes(g) if isinstance(n, ast.Return)) for g in gs)
        nm = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")
        if nm in ("join", "joinpath", "relpath", "basename"):
            return False
        src = list(e.args) + ([e.func.value] if isinstance(e.func, ast.Attribute) else [])
        return any(normalised(prog, F, a, f, depth + 1, seen) for a in src)
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Div):
        return False
    if isinstance(e, ast.Name):
        if e.id in ("self", "cls"):
            return False
        ds = [v for v, s in defs_of(f, e.id) if isinstance(v, ast.AST)] if f else []
        if not ds and f is not None and e.id in f.params:
            # a helper's parameter: what its callers pass
            vs = [(passed(f, e.id, c), c) for c in F.callers.get(f, ())]
            return bool(vs) and all(v is None or normalised(prog, F, v, enclosing_func(prog, c), depth + 1, seen) for v, c in vs)
        return any(normalised(prog, F, v, f, depth + 1, seen) for v in ds)
    return any(normalised(prog, F, c, f, depth + 1, seen) for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr))


def passed(g, name, call):
    """expression a call passes for parameter `name` of g (None when it cannot be told)"""
    for k in call.keywords:
        if k.arg == name:
            return k.value
    ps = list(g.params)
    if g.cls is not None and ps and ps[0] in ("self", "cls") and isinstance(call.func, ast.Attribute):
        ps = ps[1:]
    i = ps.index(name) if name in ps else -1
    return call.args[i] if 0 <= i < len(call.args) else None


def run(prog, rep, tier):
    p = build_pta(prog)
    F = Fresh(prog, p)
    rep.rule("guarded: text read from a file enters the recursion only after the file was tested against, and added to, the set of files in progress")
    rep.rule("key-normalised: files are compared by normalised path")
    rep.rule("not-reset: nothing the recursion can reach empties that set")
    succ = {}
    for (f, ctx), ks in p.calls_by.items():
        for k in ks:
            if isinstance(k[0], Func) and isinstance(f, Func):
                succ.setdefault(f, set()).add(k[0])
    live = {f for f, c in p.reach(p.roots) if isinstance(f, Func)}
    order = sorted(live, key=lambda f: f.full)
    comps = [c for c in sccs(order, {f: sorted(s, key=lambda g: g.full) for f, s in succ.items()}) if len(c) > 1 or any(f in succ.get(f, ()) for f in c)]
    sites = []
    for c in comps:
        F.comp, F.summ = c, {}
        for f in sorted(c, key=lambda f: f.full):
            for n in own_nodes(f):
                if isinstance(n, ast.Call) and any(g in c for g in F.funcs(n)):
                    args = list(n.args) + [k.value for k in n.keywords]
                    if any(F.value(a.value if isinstance(a, ast.Starred) else a, f) for a in args) or isinstance(n.func, ast.Attribute) and not (isinstance(n.func.value, ast.Name) and n.func.value.id == "self") and F.value(n.func.value, f):
                        sites.append((c, f, n))
    callers = F.callers = {}
    nodes = {}
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                nodes[id(n)] = n
    for s, fs in F.callees.items():
        for g in fs:
            if isinstance(g, Func) and s in nodes:
                callers.setdefault(g, []).append(nodes[s])
    used = set()

    def guarded(c, f, site, depth=0, seen=frozenset()):
        """None when guarded, else a message"""
        tests = tests_of(prog, F, f, site)
        names = {t[0] for t in tests}
        adds, removed = [], set()
        for st in before(site):
            for kind, coll, key in changes(st, F, names):
                if kind == "add":
                    adds.append((coll, key))
                    removed.discard(coll)
                elif coll in {a for a, _ in adds}:
                    removed.add(coll)
        for coll, keynorm, key, g in tests:
            for ac, akey in adds:
                if ac != coll or coll in removed:
                    continue
                if keynorm is not None and akey is not None and g is f and norm(akey, f) != keynorm and not (isinstance(akey, (ast.List, ast.Tuple, ast.Set)) and len(akey.elts) == 1 and norm(akey.elts[0], f) == keynorm):
                    continue
                used.add((coll, f))
                return None, coll, key, g
        # a stack that is a constructor / context manager object: not recognised here; try the callers inside the recursion
        if depth < 3 and f not in seen:
            cs = [x for x in callers.get(f, ()) if enclosing_func(prog, x) in c]
            if cs:
                rs = [guarded(c, enclosing_func(prog, x), x, depth + 1, seen | {f}) for x in cs]
                if all(r[0] is None for r in rs):
                    return rs[0]
        if tests and not adds:
            return "the file is tested but never recorded as being in progress", None, None, None
        if adds and not tests:
            return "no test stops a file that is already in progress", None, None, None
        if tests and adds:
            return "the recorded key and the tested key differ", None, None, None
        return "no test stops a file that is already in progress", None, None, None
    guards = {}
    for c, f, n in sites:
        msg, coll, key, g = guarded(c, f, n)
        what = f"{f.qual}: {src_of(n, 60)}"
        rep.check(msg is None, "guarded", what, f"{loc(n)} in {f.qual}: {src_of(n)} processes text read from a file inside the recursion {short(c)}, but {msg}")
        if msg is None:
            guards.setdefault((coll, c_id(c)), (c, f))
            if key is not None:
                rep.check(normalised(prog, F, key, g), "key-normalised", f"{g.qual}: key {src_of(key, 40)}",
                          f"{loc(key)} in {g.qual}: the key {src_of(key)} is not a normalised path, so the same file is not recognised under another spelling (a/../a.tex)")
    for (coll, _), (c, f) in sorted(guards.items(), key=lambda x: x[0]):
        cls = f.cls
        inside = reach_f(c, succ)
        for g in sorted(inside, key=lambda g: g.full):
            if g.cls is None or cls is None or not (g.cls.subclass_of(cls) or cls.subclass_of(g.cls)) or g.name == "__init__":
                continue
            for n in own_nodes(g):
                bad = None
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == coll for t in n.targets) and isinstance(n.value, (ast.List, ast.Dict, ast.Set, ast.Call)) and not keeps(n.value, coll):
                    bad = n
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "clear" and coll_name(n.func.value) == coll:
                    bad = n
                if bad is not None:
                    rep.check(False, "not-reset", f"{g.qual} empties {coll}", f"{loc(bad)} in {g.qual}: {src_of(bad)} empties {coll} and can run while a file is being processed (reachable from {f.qual})")
        rep.check(True, "not-reset", f"{f.qual}: {coll}", "")
    if not sites:
        raise AnalysisBroken("no recursion through file contents found")
    rep.stats.update(recursive_components=len(comps), functions_in_recursion=sum(len(c) for c in comps), file_entries=len(sites), guards=sorted(f"{k[0]} in {v[1].qual}" for k, v in guards.items()))
    rep.assumptions.append("the number of distinct normalised paths a run can name is finite")


def keeps(v, coll):
    return any(isinstance(x, (ast.Attribute, ast.Name)) and coll_name(x) == coll for x in ast.walk(v))


def c_id(c):
    return min(f.full for f in c)


def short(c):
    ns = sorted(f.qual for f in c)
    return "{" + ", ".join(ns[:4]) + (", ..." if len(ns) > 4 else "") + "}"


def reach_f(c, succ):
    seen, todo = set(), list(c)
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        todo += list(succ.get(f, ()))
    return seen
