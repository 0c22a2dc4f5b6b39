"""C07: abstract interpretation of every handler and of LatexParser.parse gives the shapes of all tokens that can be emitted;
each type must be a published TokenType or one registered with the factory."""
import ast
from ..core import *
from ..tokcheck import *
from ..slice import own_nodes

NOTE = "abstract interpretation (token shapes) + vocabulary inclusion"


def doc_typed(p, c, shape):
    """the value written for 'type' carries document text"""
    n = c.site_node(shape[2])
    v = None
    if isinstance(n, ast.Dict):
        v = next((v for k, v in zip(n.keys, n.values) if isinstance(k, ast.Constant) and k.value == "type"), None)
    if v is None:
        return False
    f = enclosing_func(c.prog, n)
    for ff, cx in p.done:
        if ff is f:
            for o in p.get(("E", id(v), cx)):
                if o.kind == "input":
                    return True
    return False


def run(prog, rep, tier):
    p, c, shapes, o = analyse(prog)
    rep.rule("type-known: every type a token can carry when it enters the parser's result (or is nested in such a token) is a published TokenType value or a type registered with TokenFactory")
    rep.rule("has-type: everything put into the parser's result is a dict with a 'type'")
    known = o.types | o.custom
    for x, key, where, top in all_shapes(c, shapes):
        if x[0] in ("tok", "top", "map", "dict"):
            rep.ok("has-type", key)
        else:
            rep.bad("has-type", f"{key}: {x[0]}", f"{where}: LatexParser.parse can return {shape_text(x)} among its tokens, which is not a token")
        if x[0] != "dict":
            continue
        ts, must = field(x, "type")
        rep.check(must and bool(ts), "has-type", f"{key}: {'type missing' if not ts else 'type only sometimes'}",
                  f"{where}: a token with the keys {sorted(k for k, _, _ in x[1])} can be emitted without a 'type'")
        for t in sorted(ts, key=str):
            if t[0] == "str" and t[1] is not None:
                rep.check(t[1] in known, "type-known", t[1], f"{where}: a token of type {t[1]!r} can reach the parser's result; it is neither a published TokenType nor registered with TokenFactory")
            elif t[0] in ("none", "int", "bool", "list"):
                rep.bad("type-known", f"{key}: {t[0]}", f"{where}: the type of an emitted token can be {shape_text(t)}")
            elif t[0] == "str" and doc_typed(p, c, x):
                rep.bad("type-known", f"{key}: document text", f"{where}: the type of an emitted token is text taken from the document")
            else:
                rep.stats["types not followed"] = rep.stats.get("types not followed", 0) + 1
    rep.stats["published types"] = len(o.types)
    rep.stats["registered custom types"] = sorted(o.custom)
    coverage(rep, c, shapes, o)
    if len(o.types) < 20:
        raise AnalysisBroken("TokenType vocabulary not found")
