"""Shared by C07/C08/C09: what the parser emits, and what the output stage makes of it."""
from .core import *
from .drive import build_pta
from .tokshape import token_shapes, Stage2
from .tokout import Out, variants, shape_text


def analyse(prog):
    p = build_pta(prog)
    c, shapes = token_shapes(prog, p)
    return p, c, shapes, Out(prog, p)


def origin(c, shape, who):
    """where the token is made, in words that do not depend on line numbers"""
    names = sorted({o[0].key[0].name for o in who if o} or {"LatexParser"})
    n = c.site_node(shape[2]) if shape[0] == "dict" else None
    f = enclosing_func(c.prog, n) if n is not None else None
    where = f"{f.qual} ({loc(n)})" if f else ", ".join(names[:4])
    return (f.qual if f else "+".join(names[:3])), where


def nested(shape, path=()):
    """the token-like dicts inside a token: elements of lists (not what is inside a mapping)"""
    if shape[0] == "dict":
        for k, vs, m in shape[1]:
            for v in vs:
                yield from inner(v, path + (k,), 0)


def inner(x, path, d):
    if d > 6:
        return
    if x[0] == "list":
        for y in x[1]:
            yield from inner(y, path, d + 1)
    elif x[0] == "dict":
        if any(k == "type" for k, _, _ in x[1]):
            yield path, x
        for k, vs, m in x[1]:
            for v in vs:
                yield from inner(v, path + (k,), d + 1)


def all_shapes(c, shapes):
    """(shape, origin key, origin text): top-level tokens first, then the tokens nested in them, each once"""
    seen = set()
    out = []
    for x, who in sorted(shapes.items(), key=lambda t: str(t[0])):
        k, t = origin(c, x, who)
        out.append((x, k, t, True))
        seen.add(x)
    for x, who in sorted(shapes.items(), key=lambda t: str(t[0])):
        for path, y in nested(x):
            if y not in seen:
                seen.add(y)
                k, t = origin(c, y, who)
                out.append((y, k, t, False))
    return out


def field(shape, k):
    for kk, v, m in shape[1]:
        if kk == k:
            return v, m
    return frozenset(), False


def coverage(rep, c, shapes, o):
    rep.stats["token shapes the parser can emit"] = len(shapes)
    rep.stats["functions interpreted"] = len(c.ai.stats["functions"])
    rep.stats["handler answers fed to LatexParser.parse"] = len(c.todo)
    rep.stats["answers not reached in the time limit"] = c.skipped
    rep.assumptions += [
        "recursive LatexParser.parse calls return lists of tokens that were checked the same way (induction over nesting)",
        "values the interpreter cannot follow (marked ?) are not judged",
        "what is inside mappings (equation placeholders) is not judged",
    ]
    if len(shapes) < 30:
        raise AnalysisBroken(f"only {len(shapes)} token shapes found")
