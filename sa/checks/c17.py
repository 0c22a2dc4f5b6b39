"""C17: abstract interpretation of (A) the definition handler on each math-only declaration, (B) the registration of the token it
makes, (C) the command processor in text mode over a registry that holds a math-only and an ordinary command, and (D) points-to
tracing of who switches math mode on."""
import ast
from ..core import *
from ..drive import build_pta
from ..regex import overlap, TooBig
from ..slice import own_nodes
from .. import ai as A
import re as _re

NOTE = "abstract interpretation (definition token, registry entry, expansion in text mode) + points-to query for math_mode=True"

# the declarations whose name exists in math only (LaTeX, amsopn); the paired delimiters are usable in text
DECLS = {r"\DeclareMathOperator": r"\\DeclareMathOperator\{", r"\DeclareMathOperator*": r"\\DeclareMathOperator\*\{",
         r"\DeclareMathAlphabet": r"\\DeclareMathAlphabet\{", r"\DeclareSymbolFontAlphabet": r"\\DeclareSymbolFontAlphabet\{"}
TEXT = ("pat", "<document text>", 0)


def maymatch(pat, flags, lit, cache={}):
    k = (pat, flags, lit)
    if k not in cache:
        try:
            cache[k] = overlap(pat + r"[\s\S]*", flags, lit + r"[\s\S]*", 0)
        except (TooBig, Exception):
            cache[k] = True
    return cache[k]


class Defs(A.Client):
    gens = True

    def __init__(self, lit):
        self.lit = lit
        self.taken = 0

    def rematch(self, op, pats, subj, e, fr, ai):
        if subj == frozenset({TEXT}) and op in ("match", "fullmatch"):
            return [(p, f) for p, f in pats if maymatch(p, f, self.lit)]
        return None


class Reg(A.Client):
    """the registry entries made"""
    gens = True

    def __init__(self):
        self.entries = []

    def event(self, kind, node, fr, st, v, ai, **kw):
        if kind == "store" and v:
            for a in v:
                c = st.heap.get(a) if a[0] == "ref" else None
                if c and c[0] == "dict" and any(k == "handler" for k, _ in c[1]):
                    self.entries.append((node, fr.func, dict(c[1])))


HM, HT = ("pat", "<handler of a math-only command>", 0), ("pat", "<handler of a command>", 0)
PM = "<pattern of a math-only command>"
PT = "<pattern of a command>"


class Use(A.Client):
    gens = True

    def __init__(self, flag):
        self.flag, self.bad, self.used = flag, {}, set()

    def attrv(self, e, fr, st, base, ai):
        if e.attr in ("commands", "let_commands") and all(a[0] == "inst" for a in base):
            return frozenset({self.reg[e.attr]})

    def see(self, node, fr, what):
        self.bad.setdefault((fr.func, what), node)

    def rematch(self, op, pats, subj, e, fr, ai):
        for p, _ in pats:
            if p == PM:
                self.see(e, fr, "matched")
            if p == PT:
                self.used.add("pattern")

    def call(self, e, fr, st, ts, recv, args, kw, ai):
        if isinstance(e.func, (ast.Name, ast.Subscript)) or isinstance(e.func, ast.Call):
            v = ai.quiet(e.func, st, fr)
            if v and HM in v:
                self.see(e, fr, "expanded")
            if v and HT in v:
                self.used.add("handler")
            if v and all(a in (HM, HT) for a in v):
                return [(st, frozenset({("tup", (A.VSTR, A.VNAT))}))]
        fn = e.func
        nm = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, "id", "")
        # the pattern of the command given to a matching helper
        for a in list(args) + list(kw.values()):
            for x in a or ():
                if x == ("pat", PM, 0):
                    self.see(e, fr, "matched")
        if nm in ("convert",):
            return [(st, A.VSTR)]
        return None


def run(prog, rep, tier):
    p = build_pta(prog)
    rep.rule("declared-math-only: the token made for a math-only declaration says so on every path")
    rep.rule("registered-math-only: the command registered for such a token is marked math-only")
    rep.rule("text-mode-filter: in text mode no math-only command is matched or expanded")
    rep.rule("math-mode-origin: math mode is only switched on by the equation handler")
    cm = prog.need_class("CommandManager")
    cp = prog.need_class("CommandProcessor")
    nd = prog.need_class("NewDefinitionHandler")
    inst = lambda c: [o for o in p.objs.values() if o.kind == "inst" and o.key[0] is c]
    # A
    f = nd.find_method("handle")
    tokens = []
    for d, lit in DECLS.items():
        cl = Defs(lit)
        ai = A.AI(p, cl)
        n = 0
        for o in inst(nd)[:1]:
            pa = f.posargs
            res = ai.run(f, p.ctx_for(f, o), {pa[0]: frozenset({("inst", o)}), pa[1]: frozenset({TEXT})}, A.S())
            for st, v in res:
                for a in v:
                    t = a[1][0] if a[0] == "tup" and a[1] else frozenset()
                    for x in t:
                        c = st.heap.get(x) if x[0] == "ref" else None
                        if not c or c[0] != "dict":
                            continue
                        n += 1
                        fl, must = dict(c[1]).get("math_mode_only", (frozenset(), False))
                        ty = dict(c[1]).get("type", (A.TOP, False))[0]
                        ok = must and fl == A.VTRUE
                        rep.check(ok, "declared-math-only", f"{d}", f"{f.qual} ({loc(f.node)}): a path makes the token for {d} without math_mode_only = True: the operator is expanded in running text")
                        tokens.append((ty, c))
        rep.stats[f"tokens for {d}"] = n
        if not n:
            # not understood: C17 cannot say anything about this declaration
            rep.stats["declarations not decided"] = rep.stats.get("declarations not decided", 0) + 1
    # B
    g = cm.find_method("register_command")
    if g is None:
        g = next((m for m in cm.methods.values() if m.name.startswith("register")), None)
    n = 0
    if g is not None:
        for o in inst(cm)[:1]:
            cl = Reg()
            ai = A.AI(p, cl)
            st, tok = A.alloc(A.S(), ("tok",), A.dictcell({"type": (A.vstr("newcommand"), True), "name": (A.VSTR1, True), "content": (A.VSTR, True), "math_mode_only": (A.VTRUE, True),
                                                            "num_args": (A.VINT, True), "defaults": (A.TOP, True), "usage_pattern": (A.VSTR1, True), "is_sty": (A.VBOOL, False)})[:2] + (A.TOP,))
            ai.run(g, p.ctx_for(g, o), {g.posargs[0]: frozenset({("inst", o)}), g.posargs[1]: frozenset({tok})}, st)
            for node, fu, d in cl.entries:
                n += 1
                fl, must = d.get("math_mode_only", (frozenset(), False))
                rep.check(must and fl == A.VTRUE, "registered-math-only", fu.qual, f"{loc(node)} in {fu.qual}: the registry entry of a math-only command is stored {'without the mark' if not fl else 'with a mark that can be something else than True'}: text mode cannot leave it out")
    rep.stats["registrations"] = n
    # C
    decided = 0
    for o in inst(cp)[:1]:
        for key in sorted(entries_key(cl_entries(cl))) or ["math_mode_only"]:
            for nm, m in sorted(methods(cp).items()):
                if m.name.startswith("process_") or m.name.startswith("__") or m.is_property:
                    continue
                mm = next((x for x in m.params if "math" in x), None)
                pos = [x for x in m.posargs if x != "self"]
                # the entry functions: those that do not get the entries handed in
                if any("entries" in x or "match" in x for x in m.params):
                    continue
                u = Use(key)
                st, m1 = A.alloc(A.S(), ("m",), A.dictcell({"pattern": (frozenset({("pat", PM, 0)}), True), "handler": (frozenset({HM}), True), "definition": (A.VSTR, True), key: (A.VTRUE, True)}))
                st, t1 = A.alloc(st, ("t",), A.dictcell({"pattern": (frozenset({("pat", PT, 0)}), True), "handler": (frozenset({HT}), True), "definition": (A.VSTR, True), key: (A.VFALSE, True)}))
                st, r1 = A.alloc(st, ("reg",), A.dictcell({"m": (frozenset({m1}), True), "t": (frozenset({t1}), True)}))
                st, r2 = A.alloc(st, ("reg2",), A.dictcell({"l": (frozenset({t1}), True)}))
                u.reg = {"commands": r1, "let_commands": r2}
                u.roots = frozenset({r1, r2})
                ai = A.AI(p, u)
                args = {m.posargs[0]: frozenset({("inst", o)})}
                for x in pos:
                    args[x] = A.VSTR if "text" in x or "content" in x else A.TOP
                    if x == mm:
                        args[x] = A.VFALSE
                    elif x in m.defaults and isinstance(m.defaults[x], ast.Constant):
                        args.pop(x)
                        args[x] = A.lift(m.defaults[x].value)
                try:
                    ai.run(m, p.ctx_for(m, o), args, st)
                except RecursionError:
                    continue
                decided += "handler" in u.used or "pattern" in u.used
                rep.check(not u.bad, "text-mode-filter", m.qual, "; ".join(f"{loc(node)} in {fu.qual}: from {m.qual} in text mode a math-only command can be {what}" for (fu, what), node in list(u.bad.items())[:3]))
    rep.stats["text mode entries that use commands"] = decided
    # D
    eqs = [c for c in prog.classes.values() if c.name == "EquationHandler"]
    k = 0
    for f2 in list(prog.funcs.values()):
        for c in own_nodes(f2):
            if not isinstance(c, ast.Call):
                continue
            on = None
            for kw in c.keywords:
                if kw.arg == "math_mode" and not (isinstance(kw.value, ast.Constant) and not kw.value.value):
                    on = kw.value
            for t in targets(p, c, f2):
                off = 1 if t.cls and not t.is_static and isinstance(c.func, ast.Attribute) else 0
                for i, a in enumerate(c.args):
                    if i + off < len(t.posargs) and t.posargs[i + off] == "math_mode" and isinstance(a, ast.Constant) and a.value:
                        on = a
                    elif i + off < len(t.posargs) and t.posargs[i + off] == "math_mode" and not isinstance(a, ast.Constant):
                        on = a
            if on is None or off_when_off(enclosing_func(prog, on) or f2, on):
                continue        # passed on from a parameter
            k += 1
            ok = f2.is_lambda and only_math(prog, f2, eqs) or any(f2.cls and f2.cls.subclass_of(q) for q in eqs) or f2.parent is not None and f2.parent.cls in eqs or named_math(prog, f2, eqs)
            rep.check(ok, "math-mode-origin", f"{f2.qual}: {src_of(c, 60)}", f"{loc(c)} in {f2.qual}: {src_of(c)} expands commands in math mode outside the equation handler: math operators fire in running text")
    for f2 in prog.funcs.values():
        if "math_mode" in f2.params:
            for n2 in own_nodes(f2):
                if isinstance(n2, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "math_mode" for t in n2.targets) or isinstance(n2, (ast.AnnAssign, ast.NamedExpr)) and isinstance(n2.target, ast.Name) and n2.target.id == "math_mode" and n2.value is not None:
                    rep.check(off_when_off(f2, n2.value) or any(f2.cls and f2.cls.subclass_of(q) for q in eqs), "math-mode-origin", f"{f2.qual}: {src_of(n2, 60)}", f"{loc(n2)} in {f2.qual}: {src_of(n2, 80)} can switch math mode on although the caller asked for text mode")
    # defaults
    for f2 in prog.funcs.values():
        for x, d in f2.defaults.items():
            if x == "math_mode":
                k += 1
                rep.check(isinstance(d, ast.Constant) and not d.value, "math-mode-origin", f"{f2.qual} default", f"{loc(f2.node)}: math_mode of {f2.qual} defaults to {src_of(d)}")
    rep.stats["math mode switches"] = k
    if not n and not decided:
        raise AnalysisBroken("neither registration nor expansion of commands was understood")


def off_when_off(f, e):
    """the expression is false whenever the math mode the function was called with is"""
    if isinstance(e, ast.Constant):
        return not e.value
    if isinstance(e, ast.Name):
        g = f
        while g is not None:
            if e.id in g.params:
                return "math" in e.id
            g = g.parent
        defs = [n.value for n in own_nodes(f) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
        return bool(defs) and all(off_when_off(f, d) for d in defs if not (isinstance(d, ast.Name) and d.id == e.id))
    if isinstance(e, ast.BoolOp):
        return (any if isinstance(e.op, ast.And) else all)(off_when_off(f, x) for x in e.values)
    if isinstance(e, ast.IfExp):
        return off_when_off(f, e.orelse) and (off_when_off(f, e.test) or off_when_off(f, e.body))
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "bool" and len(e.args) == 1:
        return off_when_off(f, e.args[0])
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.Eq)) and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is True:
        return off_when_off(f, e.left)
    return False


def cl_entries(cl):
    return getattr(cl, "entries", [])


def entries_key(entries):
    """the key that carries the mark in a registry entry"""
    out = set()
    for node, fu, d in entries:
        for k, (v, m) in d.items():
            if v == A.VTRUE:
                out.add(k)
    return out


def methods(c):
    out = {}
    for k in c.mro():
        if isinstance(k, Class):
            for n, m in k.methods.items():
                out.setdefault(n, m)
    return out


def targets(p, c, f):
    out = set()
    for (e, ctx), ts in p.calls.items() if isinstance(getattr(p, "calls", None), dict) else ():
        pass
    nm = c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", None)
    return [g for g in p.prog.funcs.values() if g.name == nm and "math_mode" in g.params]


def only_math(prog, lam, eqs):
    """the lambda is an argument of the construction of an equation handler"""
    n = lam.node
    while n is not None and not isinstance(n, ast.Call):
        n = getattr(n, "_parent", None)
    return n is not None and any((dotted(n.func) or "").split(".")[-1] == q.name for q in eqs)


def named_math(prog, f, eqs):
    """a method that is only handed to equation handlers"""
    uses = 0
    for g in prog.funcs.values():
        for n in own_nodes(g):
            hit = isinstance(n, ast.Attribute) and n.attr == f.name and isinstance(n.ctx, ast.Load) or isinstance(n, ast.Name) and n.id == f.name and isinstance(n.ctx, ast.Load)
            if hit:
                q = getattr(n, "_parent", None)
                while q is not None and isinstance(q, ast.keyword):
                    q = getattr(q, "_parent", None)
                if not (isinstance(q, ast.Call) and n is not q.func and any((dotted(q.func) or "").split(".")[-1] == k.name for k in eqs)):
                    return False
                uses += 1
    return uses > 0
