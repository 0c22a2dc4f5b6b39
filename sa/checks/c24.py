"""C24: the patterns by which LatexParser.parse dispatches are collected in dispatch order; no general pattern that is tried earlier matches the
head of a command or environment that a later pattern names."""
import ast
import re
import re._constants as sc
import re._parser as sp
from ..core import *
from ..drive import build_pta
from ..slice import own_nodes
from ..tokshape import handler_objs
from .. import ai as A

NOTE = "dispatch order (points-to call targets) + regular-expression overlap between every ordered pair of dispatch patterns"

TEXT = ("pat", "<document text>", 0)


# ---------------------------------------------------------------- regular expressions
def blank(b):
    return len(b) == 1 and b[0][0] is sc.IN and all(o is sc.CATEGORY and a is sc.CATEGORY_SPACE for o, a in b[0][1])


def heads(items, cap=600):
    """{(literal text the match begins with, is that all of a command word?)}: finite alternatives only"""
    def go(items):
        cur = {("", False)}
        for op, av in items:
            alts = one(op, av)
            cur = {(t, True) for t, s in cur if s} | {(t + a, b) for t, s in cur if not s for a, b in alts}
            if len(cur) > cap:
                return {("", True)}
            if all(s for _, s in cur):
                break
        return cur

    def one(op, av):
        if op is sc.LITERAL:
            return {(chr(av), False)}
        if op is sc.IN and all(o is sc.LITERAL for o, _ in av) and len(av) <= 4:
            return {(chr(a), False) for _, a in av}
        if op in (sc.ASSERT, sc.ASSERT_NOT, sc.AT):
            return {("", False)}
        if op is sc.SUBPATTERN:
            return go(av[3])
        if op is sc.BRANCH:
            return set().union(*(go(b) for b in av[1]))
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT, sc.POSSESSIVE_REPEAT):
            lo, hi, b = av
            if lo == 0 and blank(list(b)):
                return {("", False)}
            r = go(b)
            if lo == hi == 1:
                return r
            if lo == 0:
                return {("", False)} | (r if hi == 1 else {(t, True) for t, _ in r})
            return {(t, True) for t, _ in r}
        return {("", True)}
    return {t for t, _ in go(items)}


def names(items):
    """complete heads: \\name, \\name* or \\begin{name}"""
    out = set()
    for t in heads(items):
        m = re.match(r"\\begin\{([a-zA-Z]+\*?)(\}|$)", t)
        if m:
            out.add("\\begin{" + m.group(1) + "}")
            continue
        m = re.match(r"(\\[a-zA-Z@]{2,}\*?)(?![a-zA-Z@])", t)
        if m and not m.group(1).startswith("\\begin"):
            out.add(m.group(1))
    return out


def word(c):
    return c.isalnum() or c == "_"


def inset(av, ch):
    neg = hit = False
    for o, a in av:
        if o is sc.NEGATE:
            neg = True
        elif o is sc.LITERAL:
            hit |= chr(a) == ch
        elif o is sc.RANGE:
            hit |= a[0] <= ord(ch) <= a[1]
        elif o is sc.CATEGORY:
            hit |= {sc.CATEGORY_SPACE: ch.isspace(), sc.CATEGORY_NOT_SPACE: not ch.isspace(), sc.CATEGORY_DIGIT: ch.isdigit(),
                    sc.CATEGORY_NOT_DIGIT: not ch.isdigit(), sc.CATEGORY_WORD: word(ch), sc.CATEGORY_NOT_WORD: not word(ch)}[a]
    return hit != neg


AFTER = "{[ \n,.;:=()}$\\1"  # what can follow a complete command word


def hides(items, h):
    """how the pattern matches a text that begins with the complete head h: 'general' (a character of the name is matched by a class), 'part'
    (the match ends inside the name), or None"""
    n = len(h)
    found = set()
    budget = [60000]

    def m(items, i, pos, gen, k):
        budget[0] -= 1
        if budget[0] < 0 or found:
            return
        if i == len(items):
            return k(pos, gen)
        op, av = items[i]

        def nx(p, g):
            m(items, i + 1, p, g, k)
        if pos > n:  # behind the head: any text, but a form that needs a second command further on is not the plain command
            if op is sc.LITERAL and av == 92 and not h.startswith("\\begin{"):
                return
            if op is sc.SUBPATTERN:
                return m(list(av[3]), 0, pos, gen, nx)
            if op is sc.BRANCH:
                for b in av[1]:
                    m(list(b), 0, pos, gen, nx)
                return
            if op in (sc.MAX_REPEAT, sc.MIN_REPEAT, sc.POSSESSIVE_REPEAT) and av[0] > 0:
                return m(list(av[2]), 0, pos, gen, nx)
            return nx(pos, gen)
        ch = h[pos] if pos < n else None
        if op is sc.LITERAL:
            if ch is None:
                if chr(av) in AFTER and (av != 92 or h.startswith("\\begin{")):
                    nx(pos + 1, gen)
            elif chr(av) == ch:
                nx(pos + 1, gen)
        elif op is sc.NOT_LITERAL:
            if ch is None or chr(av) != ch:
                nx(pos + 1, gen or ch is not None)
        elif op is sc.ANY:
            nx(pos + 1, gen or ch is not None)
        elif op is sc.IN:
            small = all(o is sc.LITERAL for o, _ in av) and len(av) <= 4
            if ch is None:
                if any(inset(av, c) for c in AFTER):
                    nx(pos + 1, gen)
            elif inset(av, ch):
                nx(pos + 1, gen or not small)
        elif op is sc.AT:
            if av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
                a = pos > 0 and word(h[pos - 1])
                bs = {word(ch)} if ch is not None else {False}
                if any((a != b) == (av is sc.AT_BOUNDARY) for b in bs):
                    nx(pos, gen)
            elif av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                if pos == 0:
                    nx(pos, gen)
            elif ch is None:
                nx(pos, gen)
        elif op in (sc.ASSERT, sc.ASSERT_NOT):
            d, b = av
            if d < 0:
                return nx(pos, gen)
            r = look(list(b), pos)
            if r is None or r == (op is sc.ASSERT):
                nx(pos, gen)
        elif op is sc.SUBPATTERN:
            m(list(av[3]), 0, pos, gen, nx)
        elif op is sc.BRANCH:
            for b in av[1]:
                m(list(b), 0, pos, gen, nx)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT, sc.POSSESSIVE_REPEAT):
            lo, hi, b = av
            b = list(b)

            def rep(c, p, g):
                if c >= lo:
                    nx(p, g)
                if c < hi:
                    m(b, 0, p, g, lambda p2, g2: rep(c + 1, p2, g2) if p2 > p else None)
            rep(0, pos, gen)
        else:
            nx(pos, gen)

    def look(items, pos):
        """does the look-ahead match at pos? True / False / None (unknown)"""
        st = {"hit": False, "unk": False}

        def run(items, i, p, k):
            if i == len(items):
                return k()
            op, av = items[i]
            if op is sc.BRANCH:
                for x in av[1]:
                    run(list(x), 0, p, lambda: run(items, i + 1, p, k)) if len(x) == 0 else run(list(x) + items[i + 1:], 0, p, k)
            elif op is sc.SUBPATTERN:
                run(list(av[3]) + items[i + 1:], 0, p, k)
            elif p >= n:
                if op in (sc.LITERAL, sc.IN) and not any(chr(av) == c if op is sc.LITERAL else inset(av, c) for c in AFTER):
                    return
                st["unk"] = True
            elif op is sc.LITERAL:
                if chr(av) == h[p]:
                    run(items, i + 1, p + 1, k)
            elif op is sc.IN:
                if inset(av, h[p]):
                    run(items, i + 1, p + 1, k)
            else:
                st["unk"] = True
        run(list(items), 0, pos, lambda: st.__setitem__("hit", True))
        return True if st["hit"] else None if st["unk"] else False

    def end(pos, gen):
        if pos < n and not (h[pos] == "*" and not gen):
            found.add("general" if gen and pos >= len(h.rstrip("*}")) else "part")
        elif gen:
            found.add("general")
    m(list(items), 0, 0, False, end)
    return next(iter(found), None)


# ---------------------------------------------------------------- dispatch
class Record(A.Client):
    gens = True

    def rematch(self, op, pats, subj, e, fr, ai):
        if subj == frozenset({TEXT}) and op in ("match", "fullmatch", "search"):
            for x in pats:
                if x not in self.seen:
                    self.seen.append(x)
                    self.ops[x] = op
        return None


def interp(p, f, obj, ctx):
    c = Record()
    c.seen, c.ops = [], {}
    ai = A.AI(p, c)
    args = {}
    if f.posargs and f.cls is not None:
        args[f.posargs[0]] = frozenset({("inst", obj)})
        if len(f.posargs) > 1:
            args[f.posargs[1]] = frozenset({TEXT})
    for a in f.posargs[2:]:
        args[a] = A.TOP
    ai.run(f, ctx, args, A.S())
    return [x for x in c.seen if c.ops[x] != "search"]


def handler_list(prog, byc):
    """the list of handlers in the order they are registered: [class or None (handlers of packages)]"""
    best = None

    def cls(m, e, f):
        for _ in range(3):
            if isinstance(e, ast.Starred):
                return None
            if isinstance(e, ast.Call):
                r = prog.resolve_dotted(m, e.func)
                return r if isinstance(r, Class) else None
            if isinstance(e, (ast.Name, ast.Attribute)):
                d = ast.unparse(e)
                v = [n.value for g in prog.funcs.values() if g.cls is f.cls for n in own_nodes(g) if isinstance(n, ast.Assign) and any(ast.unparse(t) == d for t in n.targets)]
                if len(v) != 1:
                    return None
                e = v[0]
        return None
    for f in prog.funcs.values():
        if f.cls is None or f.cls.name != "LatexParser":
            continue
        for n in own_nodes(f):
            if isinstance(n, ast.List) and len(n.elts) >= 3:
                cs = [cls(f.module, e, f) for e in n.elts]
                k = sum(c is not None and c in byc for c in cs)
                if k >= 4 and (best is None or k > best[0]):
                    best = (k, [None if isinstance(e, ast.Starred) else c for c, e in zip(cs, n.elts) if isinstance(e, ast.Starred) or c in byc])
    return best[1] if best else None


def stages(prog, p, P, byc):
    """the calls of LatexParser.parse in order: [(call, {handler classes asked by it}, function)]"""
    f = P.find_method("parse")
    calls = sorted([n for n in own_nodes(f) if isinstance(n, ast.Call)], key=lambda n: (n.lineno, n.col_offset))
    tgt = {}
    for (site, ctx), fs in p.callees.items():
        tgt.setdefault(site, set()).update(g for g in fs if isinstance(g, Func))
    out, had = [], set()
    for n in calls:
        todo, seen, cs = list(tgt.get(id(n), ())), set(), set()
        fns = set(todo)
        while todo:
            g = todo.pop()
            if g in seen or g is f:
                continue
            seen.add(g)
            if g.name == "can_handle" and g.cls is not None:
                cs |= {c for c in byc if c.find_method("can_handle") is g}
                continue
            if g.name in ("handle", "process_content_fn") or (g.cls is not None and g.cls is not P):
                if not (g.cls is not None and g.name != "handle" and any(c is g.cls for c in byc) is False and len(seen) < 4):
                    continue
            for x in own_nodes(g):
                if isinstance(x, ast.Call):
                    todo += tgt.get(id(x), ())
        out.append((n, cs, fns))
    return f, out


def run(prog, rep, tier):
    rep.rule("not-hidden: no pattern tried earlier matches the head of a command or environment named by a later pattern through a general construct (a character class over the name) or by a proper part of the name")
    p = build_pta(prog)
    byc = {}
    for o, _ in handler_objs(p):
        byc.setdefault(o.key[0], o)
    P = p.parser.key[0]
    order = handler_list(prog, byc)
    if not order:
        raise AnalysisBroken("the handler list was not found")
    listed = [c for c in order if c is not None]
    f, st = stages(prog, p, P, byc)
    seq, done = [], set()
    positions = {}
    for n, cs, fns in st:
        many = [c for c in cs if c in listed]
        if len(many) >= 3:
            for c in order:
                if c is None:
                    seq += [("pack", x) for x in cs if x not in listed and x not in done]
                    done |= {x for x in cs if x not in listed}
                elif c not in done:
                    seq.append(("h", c))
                    done.add(c)
            positions["handlers"] = n
            continue
        for c in sorted(cs, key=lambda c: c.name):
            if c not in done and c not in listed:
                seq.append(("h", c))
                done.add(c)
        for g in fns:
            if g.cls is P and not cs and g is not f and len(g.posargs) > 1:
                seq.append(("f", g))
    full, rank = [], 0
    for kind, x in seq:
        rank += 1
        if kind == "f":
            pats = interp(p, x, p.parser, p.ctx_for(x, p.parser))
            name = x.qual
        else:
            g = x.find_method("can_handle")
            pats = interp(p, g, byc[x], p.ctx_for(g, byc[x])) if len(g.posargs) >= 2 else []
            name = x.name
        rep.stats.setdefault("dispatch patterns", {})[name] = len(pats)
        for q in pats:
            try:
                t = list(sp.parse(*q))
            except Exception:
                continue
            full.append((("pack" if kind == "pack" else rank), name, q, t, names(t), (kind, x)))
    total = sum(len(e[4]) for e in full)
    for j, (r, name, q, t, ns, kx) in enumerate(full):
        for h in sorted(ns):
            bad = None
            for i in range(j):
                r2, n2, q2, t2, ns2, kx2 = full[i]
                if r2 == "pack" and r == "pack" and n2 != name:
                    continue
                how = hides(t2, h)
                if how is None or h in ns2:
                    continue
                bad = (n2, q2, how)
                break
            rep.check(bad is None, "not-hidden", f"{name}: {h}", f"{h} is handled by {name} (pattern {q[0][:60]!r}), but {bad[0] if bad else ''} is asked earlier and its pattern {bad[1][0][:80] if bad else ''!r} takes {h} as well ({'by a general construct' if bad and bad[2] == 'general' else 'stopping inside the name'})")
    rep.assumptions += ["two patterns that both name a command explicitly are not ranked", "a form that needs a second command further on (\\name ... \\endname) is not taken to hide the plain command",
                        "patterns built from user definitions come first by design and are not part of the pairs", "handlers of optional packages are not ranked among themselves"]
    rep.stats["dispatch order"] = [x.name if k != "f" else x.qual for k, x in seq]
    rep.stats["commands and environments named by patterns"] = total
    rep.stats["ordered pattern pairs"] = len(full) * (len(full) - 1) // 2
    if total < 200:
        raise AnalysisBroken(f"only {total} command names found in dispatch patterns")
