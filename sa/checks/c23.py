"""C23: TokenBuilder.organize_content is interpreted on one document element of each kind, from an arbitrary state of all counters
(every integer the builder keeps is a symbol); the effect on the counters and the number written must be the one of that kind. By
induction over the elements this fixes the numbering of every document."""
import itertools
from ..core import *
from ..fold import Fold
from ..num import *
from ..drive import build_pta
from .. import ai as A
from .c17 import TEXT, maymatch
import re as _re

NOTE = "abstract interpretation over affine counters: transfer function of every element kind, induction over the document"
SEQ = ["equation", "algorithm", "table", "figure"]
NAMES = {"equation": "equations", "algorithm": "algorithms", "table": "tables", "figure": "figures", "math_env": "theorems"}


def tok(kind, numbered=True, id=1, **kw):
    d = {"type": kind, "numbered": numbered, "id": id}
    if kind == "equation":
        d.update(content="a", display="block")
    elif kind == "math_env":
        d.update(name="theorem", content=[{"type": "text", "content": "x"}])
    elif kind == "section":
        d.update(title=[{"type": "text", "content": "x"}], level=kw.pop("level", 1))
    elif kind == "paragraph":
        d.update(title=[{"type": "text", "content": "x"}], level=1)
    else:
        d.update(content=[{"type": "caption", "content": [{"type": "text", "content": "x"}]}])
    d.update(kw)
    return d


def text():
    return {"type": "text", "content": "x"}


MARK = lambda: Marker(type="text", content="x")


class Star(A.Client):
    """a handler on text that starts with one literal command"""
    gens = True

    def __init__(self, lit):
        self.lit, self.seen = lit, set()

    def rematch(self, op, pats, subj, e, fr, ai):
        if subj == frozenset({TEXT}) and op in ("match", "fullmatch"):
            k = [(q, f) for q, f in pats if maymatch(q, f, _re.escape(self.lit))]
            self.seen |= set(k)
            return k

    def mgroup(self, pat, fl, g, e, fr):
        """a group that lies within the literal whatever follows it"""
        if (pat, fl) not in self.seen:
            return None
        vs = set()
        for tail in ("", "x}", "{", " a b", "}", "*"):
            try:
                m = _re.match(pat, self.lit + tail, fl)
            except (_re.error, RecursionError):
                return None
            vs.add(m.group(g) if m else "?")
        if len(vs) != 1 or "?" in vs:
            return None
        v = vs.pop()
        return A.VNONE if v is None else A.vstr(v)


def starred(prog, rep):
    rep.rule("starred: the token made for a starred sectioning command says it is not numbered, the one for the plain command that it is")
    p = build_pta(prog)
    done = und = 0
    cs = [c for c in prog.classes.values() if c.name == "ContentCommandHandler"]
    for c in cs:
        f = c.find_method("handle")
        objs = [o for o in p.objs.values() if o.kind == "inst" and o.key[0] is c]
        if f is None or not objs:
            continue
        for cmd in ("section", "subsection", "subsubsection", "chapter"):
            for star, gap in itertools.product(("", "*"), ("", " ", "\n")):
                lit = "\\" + cmd + star + gap + "{"
                ai = A.AI(p, Star(lit))
                pa = f.posargs
                args = {pa[0]: frozenset({("inst", objs[0])}), pa[1]: frozenset({TEXT})}
                if len(pa) > 2:
                    args[pa[2]] = A.VNONE
                for st, v in ai.run(f, p.ctx_for(f, objs[0]), args, A.S()):
                    for a in v:
                        for x in (a[1][0] if a[0] == "tup" and a[1] else ()):
                            d = st.heap.get(x) if x[0] == "ref" else None
                            if not d or d[0] != "dict" or dict(d[1]).get("type", (None,))[0] != A.vstr("section"):
                                continue
                            nb, must = dict(d[1]).get("numbered", (frozenset(), False))
                            if nb == A.VTRUE and must or not nb:
                                got = True
                            elif nb and all(y == ("bool", False) or y == A.NONE for y in nb) and must:
                                got = False
                            else:
                                und += 1
                                continue
                            done += 1
                            rep.check(got == (not star), "starred", repr(lit), f"{f.qual} ({loc(f.node)}): the token for {lit!r}.. {'is' if got else 'is not'} numbered")
    rep.stats["sectioning commands decided"] = done
    rep.stats["sectioning commands not decided"] = und


class World:
    def __init__(self, prog):
        self.prog = prog
        self.c = prog.need_class("TokenBuilder")
        self.f = prog.need_method(self.c, "organize_content")
        self.I = Interp(prog, Fold(prog))
        self.undecided = {}
        self.raised = []

    def run(self, doc, dirty=False):
        """[(tokens by id, counters before, counters after, intervals)] or None when something is not modelled"""
        I = self.I

        def go():
            I.roots = []
            I.globs = {}
            try:
                o = I.construct(self.c, [], {})
                I.roots = [o]
                if dirty:
                    I.havoc()
                r = I.invoke(Fn(self.f, None, o), [I.copy(doc)], {})
            except Raised as x:
                return x
            out = {}
            find(r, out, set())
            return out, I.snapshot(), bool(I.hv)
        try:
            res = []
            for r, iv in I.paths(go):
                if isinstance(r, Raised):
                    self.raised.append((r.name, doc))
                    continue
                out, snap, hv = r
                if not hv and not dirty and any(isinstance(x, Marker) for x in walk(doc)):
                    raise Undecided("the marker was not reached")
                res.append((out, snap, iv))
            return res
        except AnalysisBroken:
            raise
        except Exception as e:
            if not isinstance(e, (Undecided, RecursionError)):
                e = "internal: " + type(e).__name__
            self.undecided[str(e)] = self.undecided.get(str(e), 0) + 1
            return None


def walk(x):
    yield x
    if isinstance(x, dict):
        for v in x.values():
            yield from walk(v)
    elif isinstance(x, list):
        for v in x:
            yield from walk(v)


def find(x, out, seen):
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, dict):
        if "id" in x:
            out.setdefault(x["id"], []).append(x)
        for v in x.values():
            find(v, out, seen)
    elif isinstance(x, (list, tuple)):
        for v in x:
            find(v, out, seen)
    elif isinstance(x, Obj):
        pass


def pieces(v):
    """numbering -> [number pieces] or None; a number is ('n'|'l', base | None, k)"""
    if not isinstance(v, (str, SStr)):
        return None
    out = []
    for p in parts(v):
        if isinstance(p, str):
            for i, q in enumerate(p.split(".")):
                if i:
                    out.append(".")
                if q:
                    if q.isdigit():
                        out.append(("n", None, int(q)))
                    elif len(q) == 1 and q.isalpha():
                        out.append(("l", None, ord(q) - 64))
                    else:
                        return None
        elif p[0] == "n":
            out.append(("n", p[1], p[2]))
        elif p[0] == "c":
            out.append(("l", p[1], p[2] - 64))
        elif p[0] == "t":
            t = p[3]
            i = t.find("ABCDEFG")
            if i < 0:
                return None
            out.append(("l", p[1], p[2] + 1 - i))
    res = []
    for i, q in enumerate(out):
        if i % 2 == (q == "."):
            if (i % 2 == 0) == (q == "."):
                return None
        if i % 2 and q != "." or i % 2 == 0 and q == ".":
            return None
        if q != ".":
            res.append(q)
    return res


def changed(snap):
    """counters that do not hold their own symbol any more"""
    return {k: v for k, v in snap.items() if v != Sym(k)}


def run(prog, rep, tier):
    w = World(prog)
    rep.rule("own-counter: a numbered element writes its own counter plus one and raises that counter by exactly one, no other")
    rep.rule("unnumbered: an element that is not numbered gets no number and changes no counter")
    rep.rule("section: level n is numbered below the current numbers of the levels above; it restarts the levels below and (level 1) the theorems")
    rep.rule("independent: kinds do not share counters")
    rep.rule("nested: elements inside containers are numbered as at top level, outer before inner, in document order")
    rep.rule("fresh: numbering starts at 1 in every document, whatever was built before")
    rep.rule("appendix: sections restart and carry letters; theorem numbers follow")
    where = f"{w.f.qual} ({loc(w.f.node)})"
    roles = {}
    n = 0

    def get(doc, dirty=False, id=1):
        r = w.run(doc, dirty)
        return [] if r is None else [(out.get(id, []), snap, iv, out) for out, snap, iv in r]

    def one(toks):
        return toks[0] if toks else {}

    # plain counters
    for k in SEQ:
        for toks, snap, iv, _ in get([MARK(), tok(k)]):
            v = one(toks).get("numbering")
            p = pieces(v)
            ch = changed(snap)
            good = p is not None and len(p) == 1 and p[0][0] == "n" and p[0][1] and p[0][2] == 1 and ch == {p[0][1]: Sym(p[0][1], 1)}
            n += 1
            rep.check(good, "own-counter", k, f"{where}: from counters in any state, a numbered {k} gets the number {v!r} and leaves the counters changed as {ch}; expected: one counter c, number c+1, c raised by one")
            if good:
                roles.setdefault(k, p[0][1])
    # sections
    levels = {}
    for L in (1, 2, 3):
        for toks, snap, iv, _ in get([MARK(), tok("section", level=L)]):
            v = one(toks).get("numbering")
            p = pieces(v)
            ch = changed(snap)
            n += 1
            good = p is not None and len(p) == L and all(q[0] == "n" and q[1] for q in p) and p[-1][2] == 1 and all(q[2] == 0 for q in p[:-1])
            good = good and all(levels.get(i + 1) in (None, p[i][1]) for i in range(L)) and len({q[1] for q in p}) == L
            if good:
                for i in range(L):
                    levels[i + 1] = p[i][1]
                good = ch.get(p[-1][1]) == Sym(p[-1][1], 1) and not any(q[1] in ch for q in p[:-1])
            rep.check(good, "section", f"level {L}", f"{where}: from counters in any state, a numbered section of level {L} gets the number {v!r} (counters changed: {ch})")
            levels[("ch", L)] = ch
    for toks, snap, iv, _ in get([MARK(), tok("math_env")]):
        v = one(toks).get("numbering")
        p = pieces(v)
        ch = changed(snap)
        n += 1
        good = p is not None and len(p) == 2 and all(q[0] == "n" for q in p) and p[0][1] == levels.get(1, p[0][1]) and p[0][2] == 0 and p[1][1] and p[1][2] == 1 and ch == {p[1][1]: Sym(p[1][1], 1)}
        rep.check(good, "own-counter", "math_env", f"{where}: from counters in any state, a numbered theorem gets the number {v!r} and leaves the counters changed as {ch}; expected section.m+1 and m raised by one")
        if good:
            roles["math_env"] = p[1][1]
    secs = {L: levels[L] for L in (1, 2, 3) if L in levels}
    used = list(roles.values()) + list(secs.values())
    rep.check(len(set(used)) == len(used), "independent", "counters", f"{where}: kinds share a counter: {dict(roles, **{'section level %d' % k: v for k, v in secs.items()})}")
    m = roles.get("math_env")
    for L in (1, 2, 3):
        ch = levels.get(("ch", L))
        if ch is None or len(secs) < 3:
            continue
        want = {secs[L]: Sym(secs[L], 1)}
        want.update({secs[l]: 0 for l in secs if l > L})
        if L == 1 and m:
            want[m] = 0
        n += 1
        for c in sorted(set(want) | set(ch)):
            rep.check(ch.get(c, Sym(c)) == want.get(c, Sym(c)), "section", f"level {L}: {role(c, roles, secs)}", f"{where}: a numbered section of level {L} leaves the counter of {role(c, roles, secs)} at {ch.get(c, Sym(c))}, expected {want.get(c, Sym(c))}: " + ("numbers do not restart under a new parent" if c in want else "an unrelated counter changes"))
    # not numbered
    plain = [(k, tok(k, nb)) for k in SEQ + ["math_env"] for nb in (False, None)] + [(f"section level {L}", tok("section", False, level=L)) for L in (1, 2, 3)]
    for k in SEQ + ["math_env"]:
        t = tok(k)
        del t["numbered"]
        plain.append((k, t))
    plain += [(k, tok(k, None)) for k in ("paragraph", "list", "environment", "quote", "group", "abstract", "footnote", "bibliography", "item", "caption")] + [(f"section level {L}", tok("section", nb, level=L)) for L in (0, 4) for nb in (True, False)]
    for k, t in plain:
        for toks, snap, iv, _ in get([MARK(), t]):
            v = one(toks).get("numbering")
            ch = changed(snap)
            n += 1
            num = t.get("numbered") and t["type"] == "section"
            rep.check((v is None or num) and not ch, "unnumbered", k, f"{where}: a {k} that is not numbered gets the number {v!r} and changes the counters {ch}")
    # order and nesting
    def expect(k, before):
        """number and counters after an element of kind k"""
        if k == "math_env":
            return (("n", secs.get(1), 0), ("n",) + inc(before, roles[k]))
        return (("n",) + inc(before, roles[k]),)

    def inc(before, c):
        before[c] = before.get(c, 0) + 1
        return (c, before[c])
    kinds = [k for k in SEQ + ["math_env"] if k in roles]
    if len(kinds) == 5 and 1 in secs:
        cases = []
        for a, b in itertools.product(kinds, kinds):
            cases.append((f"{a} then {b}", [MARK(), tok(a, id=1), tok(b, id=2)], [(1, a), (2, b)]))
            if a != "equation":
                cases.append((f"{b} in {a}", [MARK(), tok(a, id=1, content=[text(), tok(b, id=2)])], [(1, a), (2, b)]))
                cases.append((f"{b} in unnumbered {a}", [MARK(), tok(a, False, id=1, content=[tok(b, id=2)]), tok(b, id=3)], [(2, b), (3, b)]))
        for cont in ("list", "environment", "quote", "group", "abstract", "footnote", "caption", "center"):
            for b in kinds:
                inner = [tok(b, id=1), tok(b, id=2)]
                if cont == "list":
                    inner = [{"type": "item", "content": [x]} for x in inner]
                cases.append((f"{b} in {cont}", [MARK(), {"type": cont, "content": inner, "name": cont}, tok(b, id=3)], [(1, b), (2, b), (3, b)]))
        for L in (1, 2, 3):
            for b in SEQ:
                cases.append((f"{b} after a section", [MARK(), tok("section", level=L, id=9), tok(b, id=1)], [(1, b)]))
        for name, doc, seq in cases:
            before = {}
            want = {i: expect(k, before) for i, k in seq}
            for toks, snap, iv, out in get(doc):
                n += 1
                for i, k in seq:
                    vs = [t.get("numbering") for t in out.get(i, [])]
                    ok = vs and all(pieces(v) is not None and tuple(pieces(v)) == want[i] for v in vs)
                    rep.check(ok, "nested", name, f"{where}: in a document part '{name}' the {k} gets the number {vs[0] if vs else 'of nothing (it is lost)'!r}, expected {show(want[i])}: numbers are skipped, repeated or out of order")
    # start
    for k in SEQ + ["section", "math_env"]:
        for toks, snap, iv, _ in get([tok(k)], dirty=True):
            v = one(toks).get("numbering")
            n += 1
            rep.check(v == ("0.1" if k == "math_env" else "1"), "fresh", k, f"{where}: the first {k} of a document gets the number {v!r} when the builder was used before (counters not reset)")
    # appendix
    if len(secs) == 3 and m:
        for nm, doc in (("declared", [{"type": "appendix"}, MARK(), None]), ("with content", [{"type": "appendix", "content": [MARK(), None]}])):
            for L in (1, 2, 3):
                for toks, snap, iv, _ in get(fill(doc, tok("section", level=L))):
                    v = one(toks).get("numbering")
                    p = pieces(v)
                    n += 1
                    want = [("l" if i == 0 else "n", secs[i + 1], int(i == L - 1)) for i in range(L)]
                    rep.check(p == want, "appendix", f"section level {L} ({nm})", f"{where}: in an appendix ({nm}) a section of level {L} gets the number {v!r}, expected {show(want)}")
            for toks, snap, iv, _ in get(fill(doc, tok("math_env"))):
                v = one(toks).get("numbering")
                p = pieces(v)
                n += 1
                if iv.get(secs[1], (0, None))[1] == 0:
                    continue        # before the first appendix section
                want = [("l", secs[1], 0), ("n", m, 1)]
                rep.check(p == want, "appendix", f"math_env ({nm})", f"{where}: in an appendix ({nm}) a theorem gets the number {v!r}, expected {show(want)}")
            for cont in ("list", "environment", "quote", "figure"):
                inner = [{"type": "item", "content": [tok("math_env")]}] if cont == "list" else [tok("math_env")]
                for toks, snap, iv, _ in get(fill(doc, {"type": cont, "name": cont, "content": inner})):
                    v = one(toks).get("numbering")
                    n += 1
                    if iv.get(secs[1], (0, None))[1] == 0:
                        continue
                    want = [("l", secs[1], 0), ("n", m, 1)]
                    rep.check(pieces(v) == want, "appendix", f"math_env in {cont} ({nm})", f"{where}: in an appendix ({nm}) a theorem inside a {cont} gets the number {v!r}, expected {show(want)}")
            for k in SEQ:
                for toks, snap, iv, _ in get(fill(doc, tok(k))):
                    v = one(toks).get("numbering")
                    n += 1
                    rep.check(k not in roles or pieces(v) == [("n", roles[k], 1)], "appendix", f"{k} ({nm})", f"{where}: in an appendix ({nm}) a {k} gets the number {v!r}")
        for toks, snap, iv, _ in get([MARK(), {"type": "appendix"}, tok("section", level=1)]):
            v = one(toks).get("numbering")
            n += 1
            rep.check(v == "A", "appendix", "restart", f"{where}: the first section of the appendix gets the number {v!r} instead of 'A': the section counter is not restarted")
    rep.rule("total: numbering no element fails")
    for x, doc in w.raised:
        t = next((y for y in walk(doc) if isinstance(y, dict) and "id" in y), {})
        rep.check(False, "total", f"{t.get('type')} level {t.get('level')}: {x}", f"{where}: numbering a {t.get('type')} {({k: t[k] for k in ('level', 'numbered') if k in t})} fails with {x}: the rest of the document is not numbered at all")
    rep.check(True, "total", "all", "")
    starred(prog, rep)
    rep.stats["element situations decided"] = n
    rep.stats["situations not decided"] = sum(w.undecided.values())
    if w.undecided:
        rep.stats["not modelled"] = "; ".join(sorted(w.undecided)[:5])
    rep.assumptions.append("an element is numbered when the parser says so (field numbered); counters never become negative")


def fill(doc, t):
    if isinstance(doc, dict) and not isinstance(doc, Marker):
        return {k: fill(v, t) for k, v in doc.items()}
    if isinstance(doc, list):
        return [t if x is None else fill(x, t) for x in doc]
    return doc


def show(ps):
    return ".".join((f"{b}+{k}" if b and k else b or str(k)) if t == "n" else f"letter({b}+{k})" for t, b, k in ps)


def role(c, roles, secs):
    for k, v in roles.items():
        if v == c:
            return NAMES[k]
    for k, v in secs.items():
        if v == c:
            return f"sections of level {k}"
    return c
