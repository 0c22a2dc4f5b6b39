"""C14: a definition of a protected name is never registered as a user command."""
import ast
from ..core import *
from ..drive import build_pta
from ..dom import conditions, norm, subst, base_var
from ..fold import Fold, Pat, HOLE, UNK, known, all_patterns
from ..slice import Slicer, own_nodes, defs_of, targets_of

NOTE = ("For every store into a command registry the registered name is traced up the points-to call graph; on every chain from a document-processing entry a test against the protected "
        "list must dominate it and test that very name. Patterns of registered commands must end the name at a command boundary, and names must be captured without blanks or backslashes.")

# the structural commands the statement names: what the list protected when the property was written
PROTECTED = """newcommand begin end section subsection subsubsection paragraph subparagraph newline maketitle title author and thanks date part chapter abstract table figure
cite citep citet caption captionof bibitem url ref appendix appendices \\ \\\\ textbf textit textsl textsc textsf texttt textrm textup emph texttiny textscriptsize textfootnotesize textsmall
textnormal textlarge texthuge text tt bf it sl sc sf rm em bold rmfamily sffamily ttfamily itshape scshape upshape slshape bfseries mdseries normalfont textmd unboldmath boldmath
tiny scriptsize footnotesize small normalsize large Large LARGE huge Huge smaller larger""".split()


def collection(v):
    if isinstance(v, (list, tuple, set, frozenset)) and known(v):
        return {x for x in v if isinstance(x, str)}
    if isinstance(v, dict) and known(v):
        return {x for x in v if isinstance(x, str)}
    return None


class Guards:
    def __init__(self, prog, fold):
        self.prog, self.fold = prog, fold
        self.lists = {}

    def protected(self, e, f, m):
        """the folded protected collection e denotes, else None"""
        if isinstance(e, ast.Call) and dotted(e.func) in ("set", "frozenset", "list", "tuple", "sorted") and e.args:
            return self.protected(e.args[0], f, m)
        if not isinstance(e, (ast.Name, ast.Attribute, ast.List, ast.Tuple, ast.Set, ast.Dict, ast.BinOp, ast.Call)):
            return None
        for v in self.fold.at(e, f, m):
            c = collection(v)
            if c is not None and len(c & set(PROTECTED)) * 2 >= len(PROTECTED):
                self.lists[src_of(e)] = c
                return c
        return None

    def mentions(self, e, f, m, depth=0):
        for n in ast.walk(e):
            if isinstance(n, (ast.Name, ast.Attribute)) and self.protected(n, f, m) is not None:
                return True
            if isinstance(n, ast.Call) and depth < 3:
                for t in targets_of(self.prog, n, f, m):
                    if any(self.mentions(s, t, t.module, depth + 1) for s in t.body):
                        return True
        return False

    def is_guard(self, test, pol, f, m, want, site, depth=0):
        """the condition (test is pol) implies that the value `want` (normal form in f) is not protected"""
        if depth > 4:
            return False
        if isinstance(test, ast.Name):
            ds = defs_of(f, test.id) if f is not None else []
            if len(ds) == 1 and isinstance(ds[0][0], ast.AST):
                return self.is_guard(ds[0][0], pol, f, m, want, ds[0][1], depth + 1)
            return False
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.is_guard(test.operand, not pol, f, m, want, site, depth + 1)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == pol:
                return any(self.is_guard(v, pol, f, m, want, site, depth + 1) for v in test.values)
            return False
        if isinstance(test, ast.Compare):
            if len(test.ops) == 1 and isinstance(test.ops[0], (ast.In, ast.NotIn)) and self.protected(test.comparators[0], f, m) is not None:
                return (isinstance(test.ops[0], ast.NotIn) == pol) and norm(test.left, f) == want
            # count / membership look-ups: W.count(name) == 0, W.get(name) is None
            return self.mentions(test, f, m) and self.touches(test, f, want)
        if isinstance(test, ast.Call):
            ts = targets_of(self.prog, test, f, m)
            for t in ts:
                mp = argmap(t, test, f)
                rets = [n.value for n in own_nodes(t) if isinstance(n, ast.Return)]
                pw = [("param", k) for k, v in mp.items() if v == want] + [norm_under(want, v, k) for k, v in mp.items() if norm_under(want, v, k)]
                if len(rets) == 1 and rets[0] is not None:
                    if any(self.is_guard(rets[0], pol, t, t.module, w, None, depth + 1) for w in pw):
                        return True
                    continue
                if pw and any(self.mentions(s, t, t.module) for s in t.body):
                    return True
            if not ts:
                return self.mentions(test, f, m) and self.touches(test, f, want)
        return False

    def touches(self, e, f, want):
        return any(isinstance(n, ast.expr) and norm(n, f) == want for n in ast.walk(e))


def norm_under(want, v, k):
    """want = path over v: the same path over parameter k"""
    keys = []
    w = want
    while w != v and w[0] in ("path", "attr"):
        keys.append(w)
        w = w[1]
    if w != v or not keys:
        return None
    n = ("param", k)
    for x in reversed(keys):
        n = (x[0], n, x[2])
    return n


def argmap(g, call, f):
    """parameter name -> normal form of the argument in f"""
    pos = list(g.posargs)
    if g.cls is not None and not g.is_static:
        pos = pos[1:]
    mp = {}
    for i, a in enumerate(call.args):
        if isinstance(a, ast.Starred):
            break
        if i < len(pos):
            mp[pos[i]] = norm(a, f)
    for k in call.keywords:
        if k.arg:
            mp[k.arg] = norm(k.value, f)
    return mp


def argexpr(g, call, name):
    pos = list(g.posargs)
    if g.cls is not None and not g.is_static:
        pos = pos[1:]
    if name in pos and pos.index(name) < len(call.args) and not any(isinstance(a, ast.Starred) for a in call.args):
        return call.args[pos.index(name)]
    for k in call.keywords:
        if k.arg == name:
            return k.value
    return None


def name_part(k):
    """expression of the name inside a registry key: constant prefixes are dropped"""
    if isinstance(k, ast.BinOp) and isinstance(k.op, ast.Add):
        if isinstance(k.right, ast.Constant):
            return name_part(k.left)
        return name_part(k.right)
    if isinstance(k, ast.JoinedStr):
        vs = [v.value for v in k.values if isinstance(v, ast.FormattedValue)]
        return vs[-1] if vs else k
    return k


def entry_dict(prog, e, f, m):
    for x, g, gm in Slicer(prog).leaves(e, f, m):
        if isinstance(x, ast.Dict) and {"pattern", "handler"} <= {k.value for k in x.keys if isinstance(k, ast.Constant)}:
            return True
        if isinstance(x, ast.Call) and {"pattern", "handler"} <= {k.arg for k in x.keywords}:
            return True
    return False


def run(prog, rep, tier):
    fold = Fold(prog)
    G = Guards(prog, fold)
    rep.rule("guard-dominates: on every call chain to a registry store the stored name has been found not to be in the protected list")
    rep.rule("list-complete: the protected list contains every structural command")
    rep.rule("name-exact: the name that is tested is captured without surrounding blanks or backslash")
    rep.rule("usage-boundary: a registered usage pattern does not match a longer command name")
    p = build_pta(prog, all_methods=True)
    callers = {}
    for (site, ctx), fs in p.callees.items():
        for g in fs:
            if isinstance(g, Func):
                callers.setdefault(g, set()).add(site)
    nodes = {}
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                nodes[id(n)] = n
    stores = []
    for f in prog.funcs.values():
        for n in own_nodes(f):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice) and entry_dict(prog, n.value, f, f.module):
                        stores.append((f, name_part(t.slice), n))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if n.func.attr == "setdefault" and len(n.args) == 2 and entry_dict(prog, n.args[1], f, f.module):
                    stores.append((f, name_part(n.args[0]), n))
                elif n.func.attr == "update" and n.args and isinstance(n.args[0], ast.Dict):
                    for k, v in zip(n.args[0].keys, n.args[0].values):
                        if k is not None and entry_dict(prog, v, f, f.module):
                            stores.append((f, name_part(k), n))
                elif n.func.attr == "__setitem__" and len(n.args) == 2 and entry_dict(prog, n.args[1], f, f.module):
                    stores.append((f, name_part(n.args[0]), n))
    if len(stores) < 3:
        raise AnalysisBroken("no registration of user commands found")
    chains = 0
    guards = set()

    def stale(want, f, cond_stmt, site):
        """the tested variable is rebound between the test and the use"""
        b = base_var(want)
        if b[0] not in ("var", "param"):
            return False
        for v, s in defs_of(f, b[1]):
            if isinstance(s, ast.Call):
                continue
            if cond_stmt is not None and getattr(cond_stmt, "lineno", 0) < s.lineno < site.lineno:
                return True
        return False

    def up(f, want, site, trail, seen):
        """every chain through `site` in f is guarded for value `want`; yields unguarded chains"""
        nonlocal chains
        for t, pol, st in conditions(site):
            if G.is_guard(t, pol, f, f.module, want, site) and not stale(want, f, st, site):
                guards.add(f"{f.qual}: {src_of(t, 60)}")
                chains += 1
                return
        b = base_var(want)
        if b[0] == "var":
            # a loop variable over a filtered collection
            for v, s in defs_of(f, b[1]):
                if isinstance(v, tuple) and v[0] == "elem" and G.mentions(v[1], f, f.module):
                    chains += 1
                    return
                if isinstance(v, tuple) and v[0] == "elem" and isinstance(v[1], ast.Name) and any(isinstance(x, ast.AST) and G.mentions(x, f, f.module) for x, _ in defs_of(f, v[1].id)):
                    chains += 1
                    return
        key = (f, want, id(site) if not callers.get(f) else 0)
        if (f, want) in seen:
            return
        seen = seen | {(f, want)}
        # a transformed value of something tested before
        g = f
        while b[0] in ("param",) and g is not None and b[1] not in g.params:
            g = g.parent
        cs = [nodes[s] for s in callers.get(g or f, ()) if s in nodes]
        if b[0] == "param" and cs and g is not None:
            for c in sorted(cs, key=lambda c: (c._module.rel, c.lineno)):
                cf = enclosing_func(prog, c)
                a = argexpr(g, c, b[1])
                if cf is None or a is None:
                    continue
                w = subst(want, {b[1]: norm(a, cf)})
                yield from up(cf, w, c, trail + [c], seen)
            return
        if cs and b[0] != "param":
            # value made here: the guard may still be on the callers' side only if it is the same value, which it cannot be
            yield f, want, site, trail
            return
        yield f, want, site, trail

    def where(f):
        return f.qual
    entries = {g for (g, ctx) in p.roots} if p.roots else set()
    for f, k, n in stores:
        w = norm(k, f)
        bad = list(up(f, w, n, [n], frozenset()))
        # a chain that ends at a method nobody in the package calls is not reachable from a document
        bad = [x for x in bad if callers.get(x[0]) or x[0] in p_api(prog)]
        what = f"{f.qual}: registers {src_of(k)}"
        if not bad:
            rep.check(True, "guard-dominates", what, "")
        for g, want, site, trail in bad[:3]:
            rep.check(False, "guard-dominates", what, f"{loc(n)} in {f.qual} registers a command whose name is not tested against the protected list on the chain through {loc(site)} in {g.qual} ({src_of(site, 70)})")
    if not G.lists:
        # no guard at all: the list itself
        rep.stats["guards"] = 0
    for nm, c in sorted(G.lists.items()):
        miss = sorted(set(PROTECTED) - c)
        rep.check(not miss, "list-complete", f"protected list {nm}", f"the protected list {nm} lacks {miss[:5]}")
    names_exact(prog, fold, rep, G)
    boundaries(prog, fold, rep)
    control_words(prog, fold, rep, G, p, stores, callers, nodes)
    rep.stats.update(registry_stores=len(stores), guarded_chains=chains, guards=sorted(guards), lists=sorted(G.lists))


def p_api(prog):
    out = set()
    for c in ("LatexParser", "TexReader"):
        cl = prog.need_class(c)
        out |= {m for m in cl.methods.values() if not m.name.startswith("_")}
    return out


RAW = ("extract_nested_content", "extract_nested_content_sequence_blocks", "extract_nested_content_pattern", "extract_and_concat_nested_csname")


def issues(prog, e, f, m, depth=0):
    """what a captured name may still carry: 'blanks' around it, a leading 'backslash'"""
    if depth > 10 or e is None:
        return frozenset()
    if isinstance(e, tuple):
        return issues(prog, e[-1], f, m, depth + 1)
    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
        b = issues(prog, e.value, f, m, depth + 1)
        lo = e.slice.lower
        return b - {"backslash"} if isinstance(lo, ast.Constant) and lo.value == 1 and "blanks" not in b else b
    if isinstance(e, ast.Subscript):
        return issues(prog, e.value, f, m, depth + 1)
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("strip", "lstrip", "rstrip", "replace", "removeprefix"):
            b = issues(prog, e.func.value, f, m, depth + 1)
            if e.func.attr == "strip" and not e.args:
                return b - {"blanks"}
            if e.func.attr == "replace" and len(e.args) == 2 and isinstance(e.args[0], ast.Constant) and e.args[0].value == " ":
                return b - {"blanks"}
            if e.func.attr in ("strip", "lstrip", "removeprefix") and e.args and isinstance(e.args[0], ast.Constant) and isinstance(e.args[0].value, str) and "\\" in e.args[0].value:
                if " " in e.args[0].value and e.func.attr == "strip":
                    return frozenset()
                return b - {"backslash"} if "blanks" not in b else b
            return b
        d = dotted(e.func) or ""
        if d.split(".")[-1] in RAW:
            return frozenset({"blanks", "backslash"})
        ts = targets_of(prog, e, f, m)
        out = frozenset()
        for t in ts:
            for n in own_nodes(t):
                if isinstance(n, ast.Return):
                    out |= issues(prog, n.value, t, t.module, depth + 1)
        return out
    if isinstance(e, ast.Name) and f is not None:
        ds = [(v, s) for v, s in defs_of(f, e.id) if v is not None and not isinstance(s, ast.Call)]
        own = [v for v, s in ds if isinstance(v, ast.AST) and any(isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(v))]
        out = frozenset()
        for v, s in ds:
            if v not in own:
                out |= issues(prog, v, f, m, depth + 1)
        for v in own:
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "strip" and not v.args:
                out -= {"blanks"}
            if isinstance(v, ast.Subscript) or isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ("lstrip", "strip", "removeprefix") and v.args:
                if "blanks" not in out:
                    out -= {"backslash"}
        return out
    if isinstance(e, ast.BoolOp):
        return frozenset().union(*[issues(prog, v, f, m, depth + 1) for v in e.values])
    if isinstance(e, ast.IfExp):
        return issues(prog, e.body, f, m, depth + 1) | issues(prog, e.orelse, f, m, depth + 1)
    return frozenset()


DEFTYPES = ("newcommand", "let", "def", "paired_delimiter", "newlength", "newtoks", "newother", "newfam", "font", "newif", "newcounter")


def def_tokens(prog):
    """(dict node, field -> expr, func) of the definition tokens the package builds"""
    for f in prog.funcs.values():
        for n in own_nodes(f):
            if isinstance(n, ast.Dict):
                d = {k.value: v for k, v in zip(n.keys, n.values) if isinstance(k, ast.Constant)}
                t = d.get("type")
                if "name" in d and isinstance(t, ast.Constant) and t.value in DEFTYPES:
                    yield n, d, f


def names_exact(prog, fold, rep, G):
    n = 0
    for node, d, f in def_tokens(prog):
        n += 1
        bad = issues(prog, d["name"], f, f.module)
        rep.check(not bad, "name-exact", f"{f.qual}: {d['type'].value} name {src_of(d['name'], 50)}",
                  f"{loc(d['name'])} in {f.qual}: the name of the definition may still carry {' and '.join(sorted(bad))}, so it differs from the protected name it redefines")
    rep.stats["definition_tokens"] = n


def bounded(suffix):
    import re
    try:
        return re.match("x" + suffix, "xa") is None
    except re.error:
        return None


def last_operand(e, f):
    while True:
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            r = last_operand(e.right, f)
            e = e.left if isinstance(r, ast.Constant) and r.value == "" else r
        elif isinstance(e, ast.JoinedStr) and e.values:
            v = e.values[-1]
            e = v.value if isinstance(v, ast.FormattedValue) else v
        elif isinstance(e, ast.Name) and f is not None and len([1 for v, s in defs_of(f, e.id) if isinstance(v, ast.AST)]) == 1 and e.id not in f.params:
            e = next(v for v, s in defs_of(f, e.id) if isinstance(v, ast.AST))
        else:
            return e


def is_suffix(e, f, fold):
    vs = [v for v in fold.at(e, f, f.module) if isinstance(v, str) and HOLE not in v]
    return any(v and bounded(v) for v in vs)


def is_escape(e):
    return isinstance(e, ast.Call) and (dotted(e.func) or "").split(".")[-1] == "escape"


def boundaries(prog, fold, rep):
    n = 0
    sites = []
    for node, d, f in def_tokens(prog):
        if "usage_pattern" in d:
            sites.append((d["usage_pattern"], f, f"{d['type'].value} usage pattern"))
    for f in prog.funcs.values():
        for c in own_nodes(f):
            if isinstance(c, ast.Call) and (dotted(c.func) or "") == "re.compile" and c.args:
                par = getattr(c, "_parent", None)
                if isinstance(par, ast.Dict) and "handler" in {k.value for k in par.keys if isinstance(k, ast.Constant)}:
                    sites.append((c.args[0], f, "registered pattern"))
    for e, f, what in sites:
        for v in fold.at(e, f, f.module):
            if not isinstance(v, str) or HOLE not in v:
                continue
            n += 1
            suffix = v[v.rindex(HOLE) + 1:]
            key = f"{f.qual}: {what} {src_of(e, 60)}"
            msg = f"{loc(e)} in {f.qual}: the {what} {src_of(e)} also matches longer command names, so defining a prefix of a structural command takes that command over"
            if suffix:
                b = bounded(suffix)
                if b is not None:
                    rep.check(b, "usage-boundary", key, msg)
                continue
            l = last_operand(e, f)
            if is_escape(l):
                rep.check(False, "usage-boundary", key, msg)
            elif isinstance(l, ast.Name):
                rep.check(any(isinstance(x, str) and x and bounded(x) for x in alternatives(l, f, fold)), "usage-boundary", key, msg)
            elif isinstance(l, ast.IfExp):
                rep.check(any(is_suffix(x, f, fold) for x in (l.body, l.orelse)), "usage-boundary", key, msg)
            elif isinstance(l, ast.Call) and isinstance(l.func, ast.Attribute) and l.func.attr == "join" and l.args:
                for node, g, ok in parts_bounded(prog, l.args[0], f, fold):
                    rep.check(ok, "usage-boundary", f"{key}: {src_of(node, 60)} in {g.qual}",
                              f"{loc(node)} in {g.qual}: {src_of(node)} puts the command name into the {what} without a boundary after it: it also matches longer command names")
    rep.stats["usage_patterns"] = n


def alternatives(name, f, fold):
    out = []
    for v, s in defs_of(f, name.id):
        if isinstance(v, ast.AST):
            for x in ([v.body, v.orelse] if isinstance(v, ast.IfExp) else [v]):
                out += [y for y in fold.at(x, f, f.module) if isinstance(y, str)]
    return out


def parts_bounded(prog, e, f, fold):
    """the first piece appended on each branch of the function that builds the parts"""
    tgt = None
    if isinstance(e, ast.Name):
        for v, s in defs_of(f, e.id):
            c = v[2] if isinstance(v, tuple) and v[0] == "item" else v
            if isinstance(c, ast.Call):
                ts = targets_of(prog, c, f, f.module)
                tgt = ts[0] if ts else None
    if tgt is None:
        return

    def appended(st):
        c = st.value if isinstance(st, ast.Expr) else None
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("append", "extend") and c.args:
            return c.args[0]
        return None

    def suffix_next(st):
        a = appended(st)
        if a is not None:
            return is_suffix(a, tgt, fold)
        return isinstance(st, ast.If) and any(suffix_next(x) for x in st.body)

    def go(body):
        for i, st in enumerate(body):
            a = appended(st)
            if a is not None:
                l = last_operand(a, tgt)
                if is_escape(l):
                    yield a, tgt, i + 1 < len(body) and suffix_next(body[i + 1])
                elif isinstance(a, ast.BinOp):
                    yield a, tgt, is_suffix(l, tgt, fold)
                return
            if isinstance(st, ast.If):
                before = len(out)
                yield from go(st.body)
                yield from go(st.orelse)
                if any(appended(x) is not None for b in (st.body, st.orelse) for s in b for x in [s]):
                    return
    out = []
    yield from go(tgt.body)


def control_words(prog, fold, rep, G, p, stores, callers, nodes):
    r"""\def\section*{..} defines \section: where the captured name may run past the control word, the word itself is tested too"""
    import re
    rep.rule("control-word: a definition whose name may include delimiter text is also tested for the control word it starts with")
    runs_on = []
    for m in prog.modules.values():
        for nm in m.gassign:
            v = fold.module(m).names.get(nm)
            if isinstance(v, Pat) and isinstance(v.pattern, str) and HOLE not in v.pattern and "def" in v.pattern:
                try:
                    mm = re.compile(v.pattern, v.flags if isinstance(v.flags, int) else 0).match(r"\def\section*{x}")
                except re.error:
                    continue
                if mm and mm.re.groups and mm.group(1) == "section*":
                    runs_on.append(nm)
    if not runs_on:
        return
    # functions that define through such a token: those with a store for type 'def'
    ok = False
    where = None
    for f in prog.funcs.values():
        for n in own_nodes(f):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and G.protected(n.comparators[0], f, f.module) is not None:
                where = where or n
                lv = n.left
                srcs = [lv] + [v for x in ast.walk(lv) if isinstance(x, ast.Name) for v, s in defs_of(f, x.id) if isinstance(v, ast.AST)]
                if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("match", "group", "split", "partition", "search", "fullmatch", "sub") for y in srcs for x in ast.walk(y)):
                    ok = True
    if where is not None:
        rep.check(ok, "control-word", f"names captured by {', '.join(sorted(runs_on))}",
                  f"{loc(where)}: {', '.join(sorted(runs_on))} captures 'section*' as the name of \\def\\section*{{..}}, and only the whole captured text is compared with the protected list")
