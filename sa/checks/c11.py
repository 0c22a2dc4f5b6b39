"""C11: abstract interpretation of all handlers and of LatexParser.parse on arbitrary text: no value that stands for "not found" (None from a
match or an extraction function, a list shorter than the requested arguments) is used as if something had been found."""
from ..core import *
from ..drive import build_pta
from ..exc import Exc
from ..slice import own_nodes
from ..tokshape import Stage2, token_shapes
from .. import ai as A

NOTE = "abstract interpretation (None and list-length domain) of the handlers and the parser on arbitrary text + exception escape analysis"

NONEK = {"attr-none": ("AttributeError", "an attribute of None"), "sub-none": ("TypeError", "an element of None"), "op-none": ("TypeError", "an operator on None"),
         "arg-none": ("TypeError", "a function that does not take None"), "cmp-none": ("TypeError", "an order comparison with None"),
         "iter-none": ("TypeError", "iteration over None"), "unpack-none": ("TypeError", "unpacking None"), "in-none": ("TypeError", "a membership test in None")}

NUM = {"int-conv": ("ValueError", "it need not be a number")}


def optional(pattern, flags, g):
    """can the group be missing although the alternative it is written in was taken?"""
    def walk(seq, opt):
        for op, av in seq:
            nm = str(op)
            if nm == "SUBPATTERN":
                if av[0] == g:
                    return opt
                r = walk(av[3], opt)
            elif nm in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
                r = walk(av[2], opt or av[0] == 0)
            elif nm == "BRANCH":
                r = next((x for x in (walk(b, opt) for b in av[1]) if x is not None), None)
            elif nm in ("ASSERT", "ASSERT_NOT"):
                r = walk(av[1], opt)
            elif nm == "ATOMIC_GROUP":
                r = walk(av, opt)
            else:
                r = None
            if r is not None:
                return r
        return None
    try:
        t = A.sre_parse.parse(pattern, flags)
        return walk(t, False) is not False
    except Exception:
        return True


def alternation(node, fr, st, ai):
    """X.group(k).m() where the group is missing only because another alternative of the pattern matched: which one it was is usually known
    from the text, which this domain does not relate to the match; not judged"""
    b = node.value if isinstance(node, ast.Attribute) else None
    if not (isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute) and b.func.attr == "group" and len(b.args) == 1 and isinstance(b.args[0], ast.Constant)):
        return False
    v = ai.quiet(b.func.value, st, fr)
    pats = [x for a in v or () if a[0] == "match" for x in a[1] or ()]
    if not pats or any(a[0] not in ("match", "none") for a in v) or any(x[0] is None for x in pats):
        return False
    for pat, fl in pats:
        info = A.pinfo(pat, fl)
        g = b.args[0].value
        if info is None or optional(pat, fl, info[2].get(g, g)):
            return False
    return True


def numeral(pattern, flags, g):
    """is everything the group can match accepted by int()?"""
    def find(seq):
        for op, av in seq:
            nm = str(op)
            if nm == "SUBPATTERN":
                if av[0] == g:
                    return av[3]
                r = find(av[3])
            elif nm in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
                r = find(av[2])
            elif nm == "BRANCH":
                r = next((x for x in map(find, av[1]) if x is not None), None)
            elif nm in ("ASSERT", "ASSERT_NOT"):
                r = find(av[1])
            elif nm == "ATOMIC_GROUP":
                r = find(av)
            else:
                r = None
            if r is not None:
                return r
        return None

    def digits(seq):
        for op, av in seq:
            nm = str(op)
            if nm == "LITERAL":
                ok = chr(av).isdecimal()
            elif nm == "IN":
                ok = all(str(o) == "CATEGORY" and str(a) == "CATEGORY_DIGIT" or str(o) == "LITERAL" and chr(a).isdecimal() or str(o) == "RANGE" and 48 <= a[0] <= a[1] <= 57 for o, a in av)
            elif nm == "CATEGORY":
                ok = str(av) == "CATEGORY_DIGIT"
            elif nm in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
                ok = digits(av[2])
            elif nm == "SUBPATTERN":
                ok = digits(av[3])
            elif nm == "BRANCH":
                ok = all(map(digits, av[1]))
            elif nm == "AT" or nm.startswith("ASSERT"):
                ok = True
            else:
                ok = False
            if not ok:
                return False
        return True
    sub = find(A.sre_parse.parse(pattern, flags))
    return sub is None or (digits(sub) and sub.getwidth()[0] >= 1)


TESTS = ("isdigit", "isdecimal", "isnumeric", "match", "fullmatch")


def bad_number(e, fr, st, v, ai):
    """int(text): is the text the capture of a group that matches something else than a number?"""
    if any(a[0] == "none" for a in v):
        return True
    x = e.args[0]
    f = fr.func
    for _ in range(4):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "strip" and not x.args:
            x = x.func.value
        elif isinstance(x, ast.Name):
            if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in TESTS
                   and any(isinstance(y, ast.Name) and y.id == x.id for y in (n.func.value, *n.args)) for n in ast.walk(f.node)):
                return False
            ds = [n for n in own_nodes(f) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.id for t in n.targets)]
            if len(ds) != 1 or x.id in f.posargs:
                return False
            x = ds[0].value
        else:
            break
    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "group" and len(x.args) == 1:
        b, k = x.func.value, x.args[0]
    elif isinstance(x, ast.Subscript):
        b, k = x.value, x.slice
    else:
        return False
    w = ai.quiet(b, st, fr)
    if not isinstance(k, ast.Constant) or not w or any(a[0] not in ("match", "none") or a[0] == "match" and not a[1] for a in w):
        return False
    for a in w:
        for pat, fl in a[1] if a[0] == "match" else ():
            info = A.pinfo(pat, fl) if pat is not None else None
            if info is None:
                return False
            if not numeral(pat, fl, info[2].get(k.value, k.value)):
                return True
    return False


class Malformed(Stage2):
    groupfacts = True

    def event(self, kind, node, fr, st, v, ai, **kw):
        if kind == "store":
            return super().event(kind, node, fr, st, v, ai, **kw)
        if kind == "index":
            cell, ix = kw["cell"], kw["idx"]
            if len(v) != 1 or len(ix) != 1 or cell[0] != "list":
                return
            a = ix[0]
            if a[0] != "int" or a[1] is not None or a[2] is None or a[2] != a[3]:
                return
            if (cell[2] > a[2] if a[2] >= 0 else cell[2] >= -a[2]) or any(x[0] in ("ref", "tok", "top") for x in cell[1]):
                return
        elif kind == "int-conv":
            if not isinstance(node, ast.Call) or len(node.args) != 1 or not bad_number(node, fr, st, v, ai):
                return
        elif kind not in NONEK and kind != "unpack-len":
            return
        elif kind == "attr-none" and alternation(node, fr, st, ai):
            return
        self.events.setdefault((kind, id(node)), None)


def tested(node, f):
    """does a test that governs the statement (an enclosing if/while/conditional, an earlier operand of and/or, an earlier `if ...: leave`)
    look at the indexed list with something other than a constant length?  Then its relation to the index is not decided here."""
    base = ast.dump(node.value)

    def looks(t):
        return any(ast.dump(x) == base for x in ast.walk(t))

    def const_len(t):
        """every look at the list in the test is len(list) against a constant, or whether it is empty"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return const_len(t.operand)
        if isinstance(t, ast.BoolOp):
            return all(const_len(v) for v in t.values if looks(v))
        if ast.dump(t) == base:
            return node.slice.value not in (0, -1) if isinstance(node.slice, ast.Constant) else not isinstance(node.slice, ast.UnaryOp)
        cs = [x for x in ast.walk(t) if isinstance(x, ast.Compare)]
        for x in cs:
            ops = [x.left, *x.comparators]
            if any(looks(o) for o in ops) and not any(isinstance(o, ast.Constant) for o in ops):
                return False
        return all(any(looks(o) for o in [x.left, *x.comparators]) for x in cs) and bool(cs)
    child, par = node, getattr(node, "_parent", None)
    while par is not None and child is not f.node:
        ts = []
        if isinstance(par, (ast.If, ast.While, ast.IfExp)) and child is not par.test:
            ts.append(par.test)
        if isinstance(par, ast.BoolOp) and child in par.values:
            ts += par.values[:par.values.index(child)]
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(par, fld, None)
            if isinstance(b, list) and child in b:
                for s in b[:b.index(child)]:
                    if isinstance(s, ast.If) and any(isinstance(x, (ast.Return, ast.Continue, ast.Break, ast.Raise)) for x in (s.body[-1], *(s.orelse[-1:]))):
                        ts.append(s.test)
        if any(looks(t) and not const_len(t) for t in ts):
            return True
        child, par = par, getattr(par, "_parent", None)
    return False


class Escape:
    """which exceptions raised at a node can leave LatexParser.parse?"""

    def __init__(self, prog, p, exc):
        self.prog, self.p, self.exc = prog, p, exc
        self.callers = {}
        for (site, ctx), fs in p.callees.items():
            for g in fs:
                if isinstance(g, Func):
                    self.callers.setdefault(g, set()).add(site)
        self.nodes = {}
        for m in prog.modules.values():
            for n in ast.walk(m.tree):
                self.nodes[id(n)] = n
        self.memo = {}

    def caught(self, node, name):
        m = node._module
        child, par = node, getattr(node, "_parent", None)
        while par is not None and not isinstance(par, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if isinstance(par, ast.Try) and any(child is s for s in par.body):
                for h in par.handlers:
                    if any(self.exc.sub(name, x) for x in self.exc.handler_names(m, h)):
                        if not any(isinstance(x, ast.Raise) for x in ast.walk(h)):
                            return True
                        break
            child, par = par, getattr(par, "_parent", None)
        return False

    def path(self, node, name):
        """call path from LatexParser.parse on which the exception is not caught, or None"""
        f = enclosing_func(self.prog, node)
        if f is None or self.caught(node, name):
            return None
        k = (f, name)
        if k in self.memo:
            return self.memo[k]
        seen, q = {f}, [(f, (f.qual,))]
        res = None
        while q and res is None:
            g, tr = q.pop(0)
            if g.qual == "LatexParser.parse":
                res = tr
                break
            for s in sorted(self.callers.get(g, ()), key=lambda s: loc(self.nodes[s]) if s in self.nodes else ""):
                n = self.nodes.get(s)
                if n is None or self.caught(n, name):
                    continue
                h = enclosing_func(self.prog, n)
                if h is not None and h not in seen:
                    seen.add(h)
                    q.append((h, (h.qual,) + tr))
        self.memo[k] = res
        return res


def run(prog, rep, tier):
    rep.rule("none-use: on every path through a handler or LatexParser.parse, for any document text, a value that can be None (no match, group not taken, nothing found) is not used as an object, operand, argument, iterable or container")
    rep.rule("short-list: a constant index or an unpacking never goes past the end of a list that can be shorter than that")
    rep.rule("raise-escapes: an exception the package raises itself is caught before it leaves LatexParser.parse")
    rep.rule("number: text that is converted with int() was captured as digits, or tested")
    p = build_pta(prog)
    exc = Exc(prog)
    c, shapes = token_shapes(prog, p, client=Malformed)
    esc = Escape(prog, p, exc)
    done = c.ai.stats["functions"]
    hits = {}
    for kind, i in c.events:
        n = esc.nodes.get(i)
        if n is not None:
            hits.setdefault(i, set()).add(kind)
    skipped = 0
    for i, kinds in hits.items():
        n = esc.nodes[i]
        f = enclosing_func(prog, n)
        for kind in sorted(kinds):
            if kind == "index" and (not isinstance(n, ast.Subscript) or f is None or tested(n, f)):
                skipped += 1
                continue
            name, what = NONEK.get(kind) or NUM.get(kind) or (("IndexError", "an element past the end of the list") if kind == "index" else ("ValueError", "unpacking a list of another length"))
            tr = esc.path(n, name)
            if tr is None:
                skipped += 1
                continue
            rule = "none-use" if kind in NONEK else "number" if kind in NUM else "short-list"
            arg = {"none-use": "a value that can be None", "number": "captured text"}.get(rule, "a list that can be too short")
            rep.bad(rule, f"{f.qual}: {src_of(n)}", f"{loc(n)}: `{src_of(n)}` is reached with {arg} ({what}): {name} leaves LatexParser.parse via {' -> '.join(tr[-6:])}")
    for q in sorted(done, key=str):
        rep.ok("none-use", str(q))
        rep.ok("short-list", str(q))
        for x in ast.walk(q.node) if isinstance(q, Func) else ():
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("int", "float") and x.args:
                rep.ok("number", loc(x))
    raises = 0
    for f in prog.funcs.values():
        for n in own_nodes(f):
            if isinstance(n, ast.Raise) and n.exc is not None:
                e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                name = exc.name_of(n._module, e)
                if name is None or not exc.known(name) or exc.sub(name, "RecursionError"):
                    continue
                raises += 1
                tr = esc.path(n, name)
                rep.check(tr is None, "raise-escapes", f"{f.qual}: {src_of(n)[:60]}", f"{loc(n)}: {name} raised here leaves LatexParser.parse via {' -> '.join((tr or ())[-6:])}")
    rep.stats["functions interpreted"] = len(done)
    rep.stats["uses set aside (caught, or tested with a relation that is not decided)"] = skipped
    rep.stats["raise statements"] = raises
    rep.stats["answers not reached in the time limit"] = c.skipped
    if len(done) < 60:
        raise AnalysisBroken(f"only {len(done)} functions interpreted")
