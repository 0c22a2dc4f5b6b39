"""C19: style names in the output come from the published table."""
import ast
import re
from ..core import *
from ..fold import Fold, Pat, UNK, known
from ..regex import sre_parse, sc
from ..slice import Slicer, own_nodes

NOTE = ("Constant folding of the style tables and of the patterns built from them, closure of the old-style command table under the published table, and a backward value slice of every "
        "expression stored as a token's styles: each leaf must be a lookup in the published table, one of its values, a colour style or the styles of another token.")

TABLE = "FRONTEND_STYLE_MAPPING"


def finite_words(pattern, flags, group=1, cap=5000):
    """words a capturing group can match when that is a finite set of literals, else None"""
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        p = sre_parse.parse(pattern, flags if isinstance(flags, int) else 0)
    found = []

    def find(items):
        for op, av in items:
            if op is sc.SUBPATTERN:
                if av[0] == group:
                    found.append(av[3])
                find(av[3])
            elif op is sc.BRANCH:
                for x in av[1]:
                    find(x)
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                find(av[2])
            elif op in (sc.ASSERT, sc.ASSERT_NOT):
                find(av[1])
    find(p)
    if len(found) != 1:
        return None

    def words(items):
        out = {""}
        for op, av in items:
            if op is sc.LITERAL:
                w = {chr(av)}
            elif op is sc.IN and all(o is sc.LITERAL for o, _ in av):
                w = {chr(v) for _, v in av}
            elif op is sc.BRANCH:
                w = set()
                for x in av[1]:
                    y = words(x)
                    if y is None:
                        return None
                    w |= y
            elif op is sc.SUBPATTERN:
                w = words(av[3])
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT) and av[1] is not sc.MAXREPEAT and av[1] <= 3:
                b = words(av[2])
                if b is None:
                    return None
                w, cur = set(), {""}
                for i in range(av[1] + 1):
                    if i >= av[0]:
                        w |= cur
                    cur = {x + y for x in cur for y in b}
            elif op in (sc.AT, sc.ASSERT, sc.ASSERT_NOT):
                w = {""}
            else:
                return None
            if w is None:
                return None
            out = {x + y for x in out for y in w}
            if len(out) > cap:
                return None
        return out
    return words(found[0])


def lookups(f):
    """[(table expr, call/subscript node, default expr or None)] of X.get(k[, d]) and X[k]"""
    for n in own_nodes(f):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "get" and n.args:
            yield n.func.value, n, n.args[1] if len(n.args) > 1 else None
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
            yield n.value, n, None


def styles_stores(prog):
    """(value expr, node, func, module) of everything stored as token styles"""
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            f = None
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and t.slice.value == "styles":
                        yield n.value, n, enclosing_func(prog, n), m
                    elif isinstance(t, ast.Attribute) and t.attr == "styles":
                        yield n.value, n, enclosing_func(prog, n), m
            elif isinstance(n, ast.Dict):
                for k, v in zip(n.keys, n.values):
                    if isinstance(k, ast.Constant) and k.value == "styles":
                        yield v, n, enclosing_func(prog, n), m
            elif isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg == "styles":
                        yield k.value, n, enclosing_func(prog, n), m
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert") and n.args and isinstance(n.func.value, ast.Subscript) \
                        and isinstance(n.func.value.slice, ast.Constant) and n.func.value.slice.value == "styles":
                    yield n.args[-1], n, enclosing_func(prog, n), m
                if isinstance(n.func, ast.Attribute) and n.func.attr == "setdefault" and n.args and isinstance(n.args[0], ast.Constant) and n.args[0].value == "styles" and len(n.args) > 1:
                    yield n.args[1], n, enclosing_func(prog, n), m


def is_styles_read(e):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("get", "pop") and e.args and isinstance(e.args[0], ast.Constant) and e.args[0].value == "styles" \
        or isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and e.slice.value == "styles" or isinstance(e, ast.Attribute) and e.attr == "styles"


def run(prog, rep, tier):
    fold = Fold(prog)
    rep.rule("table-closed: every value of a table that renames formatting commands is a command of the published style table; every command a pattern accepts has a table entry")
    rep.rule("styles-from-table: every value stored as a token's styles is looked up in the published table, one of its values, a colour style, or taken from another token's styles")
    pub = None
    for m in prog.modules.values():
        if TABLE in m.gassign:
            pub = fold.module(m).names.get(TABLE)
            pubmod = m
    if not isinstance(pub, dict) or not known(pub):
        raise AnalysisBroken(f"{TABLE} cannot be folded")
    values = {v for v in pub.values() if v is not None}
    for k, v in pub.items():
        rep.check(v is None or isinstance(v, str) and v == v.strip() and v and "\\" not in v and not v.startswith("text"), "table-closed", f"{TABLE}[{k!r}]",
                  f"{pubmod.rel}: {TABLE}[{k!r}] = {v!r} is not a style name")
    # tables and patterns used by the same function
    tables = 0
    pats_closed = 0
    for f in prog.funcs.values():
        used = []
        for t, node, dflt in lookups(f):
            for v in fold.at(t, f, f.module):
                if isinstance(v, dict) and len(v) > 3 and known(v) and all(isinstance(k, str) for k in v) and all(x is None or isinstance(x, str) for x in v.values()):
                    used.append((t, v, node, dflt))
        for t, v, node, dflt in used:
            renames = v is not pub and v != pub and len(set(v.values()) & set(pub)) * 2 >= len(set(v.values()))
            if not renames and v is not pub:
                continue
            tables += 1
            if renames:
                for k, x in sorted(v.items()):
                    ok = x in pub
                    rep.check(ok, "table-closed", f"{f.qual}: {src_of(t)}[{k!r}]", f"{loc(node)} in {f.qual}: {src_of(t)} renames \\{k} to \\{x}, which is not a command of {TABLE}")
            # patterns whose group(1) is the looked-up key
            for name, val in patterns_of(f, fold):
                try:
                    ws = finite_words(val.pattern, val.flags)
                except re.error:
                    ws = None
                if not ws or len(ws & set(v)) * 2 < len(ws):
                    continue
                pats_closed += 1
                miss = sorted(w for w in ws if w not in v and (v is pub or w not in pub))
                rep.check(not miss, "table-closed", f"{f.qual}: pattern {name} against {src_of(t)}",
                          f"{loc(node)} in {f.qual}: pattern {name} accepts {miss[:4]} for which {src_of(t)} has no entry")
                # the commands of the table that no pattern accepts are dead; ones cut off by an earlier shorter alternative too
                for w in sorted(ws):
                    mm = None
                    try:
                        mm = re.compile(val.pattern, val.flags if isinstance(val.flags, int) else 0).match("\\" + w + "{x}")
                    except re.error:
                        pass
                    if mm is not None:
                        rep.check(mm.group(1) == w, "table-closed", f"{f.qual}: pattern {name} on \\{w}", f"{loc(node)} in {f.qual}: pattern {name} reads \\{w} as \\{mm.group(1)}")
    if tables < 1:
        raise AnalysisBroken("no lookup of the style tables found")
    n = 0
    unresolved = []

    def stop(e, f, m):
        return is_styles_read(e) or isinstance(e, (ast.JoinedStr, ast.BinOp, ast.Subscript)) or isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("get", "group", "format", "strip", "lower", "replace", "pop")

    def through(e, f, m):
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add) and not strish(e):
            return [e.left, e.right]
        return None

    def strish(e):
        return any(isinstance(x, (ast.JoinedStr,)) or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (e.left, e.right))

    class S(Slicer):
        def go(self, e, f, m):
            if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add) and not strish(e):
                self.go(e.left, f, m)
                return self.go(e.right, f, m)
            return Slicer.go(self, e, f, m)
    for val, node, f, m in styles_stores(prog):
        n += 1
        for e, g, gm in S(prog, stop).leaves(val, f, m):
            bad = None
            if is_styles_read(e):
                if isinstance(e, ast.Call) and len(e.args) > 1 and not (isinstance(e.args[1], (ast.List, ast.Tuple)) and not e.args[1].elts or isinstance(e.args[1], ast.Constant) and e.args[1].value is None):
                    bad = "has a default that is not a published style"
            elif isinstance(e, ast.Constant):
                if e.value is not None and e.value not in values and not (isinstance(e.value, str) and (e.value.startswith("color=") or e.value == "")):
                    # pieces of a colour style are built by +=
                    if not colour_piece(e, g):
                        bad = f"{e.value!r} is not a published style"
            elif isinstance(e, ast.JoinedStr):
                h = e.values[0].value if e.values and isinstance(e.values[0], ast.Constant) else ""
                if not h.startswith("color=") and not colour_piece(e, g):
                    bad = "is text that is not a colour style"
            elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "get" or isinstance(e, ast.Subscript):
                t = e.func.value if isinstance(e, ast.Call) else e.value
                vs = [v for v in fold.at(t, g, gm) if isinstance(v, dict) and known(v)]
                for v in vs:
                    out = sorted(str(x) for x in v.values() if x is not None and isinstance(x, str) and x not in values)
                    if out:
                        bad = f"looks up a table whose entries ({', '.join(out[:3])}, ...) are not published styles"
                if vs and isinstance(e, ast.Call) and len(e.args) > 1 and not (isinstance(e.args[1], ast.Constant) and (e.args[1].value is None or e.args[1].value in values)):
                    bad = f"falls back to {src_of(e.args[1])} for a command without an entry"
                if not vs:
                    unresolved.append(src_of(e))
            elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "group":
                if not colour_piece(e, g):
                    bad = "is the LaTeX command text"
            elif isinstance(e, ast.BinOp):
                l = e
                while isinstance(l, ast.BinOp):
                    l = l.left
                if not (isinstance(l, ast.Constant) and isinstance(l.value, str) and l.value.startswith("color=")) and not colour_piece(e, g):
                    bad = "is text that is not a colour style"
            else:
                unresolved.append(src_of(e))
            fq = f.qual if f else gm.name
            rep.check(bad is None, "styles-from-table", f"{fq}: styles from {src_of(e, 60)}", f"{loc(node)} in {fq}: styles can be {src_of(e)} ({loc(e)}), which {bad}")
    if n < 4:
        raise AnalysisBroken(f"only {n} stores of styles found")
    rep.stats.update(published=len(pub), table_lookups=tables, patterns_closed=pats_closed, style_stores=n, unresolved_leaves=len(unresolved))
    rep.assumptions.append("a leaf the slice cannot resolve (e.g. a value from an unknown parser token) is not judged")


def colour_piece(e, f):
    """e is part of building a local string that starts with 'color='"""
    n = e
    while n is not None and not isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.FunctionDef, ast.Lambda)):
        n = getattr(n, "_parent", None)
    if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) or isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
        nm = n.target.id if isinstance(n, ast.AugAssign) else n.targets[0].id
        from ..slice import defs_of
        vs = [v for v, st in (defs_of(f, nm) if f else [])]
        return any(isinstance(v, ast.Constant) and isinstance(v.value, str) and v.value.startswith("color=") for v in vs if not isinstance(v, tuple))
    return False


def patterns_of(f, fold):
    """compiled patterns f uses: names (or members of a pattern table) folded"""
    out = {}
    for n in own_nodes(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            v = fold.name(n.id, fold.local_env(f)) if n.id not in f.params else UNK
            if isinstance(v, Pat):
                out[n.id] = v
            elif isinstance(v, dict):
                for k, x in v.items():
                    if isinstance(x, Pat):
                        out[f"{n.id}[{k!r}]"] = x
    # methods of the same class may hold the pattern loop
    if f.cls is not None and not out:
        for g in f.cls.methods.values():
            if g is not f:
                for n in own_nodes(g):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in g.params:
                        v = fold.name(n.id, fold.local_env(g))
                        if isinstance(v, dict):
                            for k, x in v.items():
                                if isinstance(x, Pat):
                                    out[f"{n.id}[{k!r}]"] = x
    return sorted(out.items())
