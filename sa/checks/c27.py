"""C27 document text never becomes regular-expression syntax or a replacement template."""
import ast
from ..core import *
from ..drive import build_pta
from .c06 import labels

NOTE = ("Taint analysis over the points-to call graph: document text (and text derived from it) flowing into the pattern argument of a "
        "regular-expression call must pass re.escape, into a replacement template it must have its backslashes doubled or be supplied through a function.")

PATTERN_FNS = {"re." + n: 0 for n in ("compile", "match", "search", "fullmatch", "sub", "subn", "split", "findall", "finditer", "template")}


def run(prog, rep, tier):
    p = build_pta(prog, all_methods=True)
    rep.rule("pattern-untainted: pattern arguments carry no unescaped document text")
    rep.rule("template-untainted: replacement templates carry no document text with live backslashes")
    done = {}
    for e, f, ctx, d, args, kwargs, recv, mod in p.ext_calls:
        if not isinstance(e, ast.Call) or not isinstance(d, str):
            continue
        if d in PATTERN_FNS:
            a = args[0] if args else kwargs.get("pattern")
            l = labels(p, a)
            ok = not (l & {"DOC", "RESC"})
            note(done, "pattern-untainted", e, f, ok, f"pattern built from {sorted(l)}")
        name = d.split(".")[-1]
        if (d.startswith("re.") and name in ("sub", "subn", "expand")):
            off = 1 if d in PATTERN_FNS else 0
            a = args[off] if len(args) > off else kwargs.get("repl")
            l = labels(p, a)
            # function-valued replacements are not templates
            isf = a is not None and any(o.kind in ("func", "bound", "extbound", "ext") for o in p.get(a))
            lab = l - {"const", "RESC", "ESC", "STR"}
            ok = not (lab & {"DOC"})
            note(done, "template-untainted", e, f, ok, f"replacement template built from {sorted(l)}{' (function)' if isf else ''}")
    for (rule, _), (ok, e, f, msg) in done.items():
        fq = f.qual if f else "<module level>"
        rep.check(ok, rule, f"{(f.full if f else e._module.name)}: {src_of(e, 70)}", f"{loc(e)} in {fq}: {src_of(e)} — {msg}")
    npat = len([1 for k in done if k[0] == "pattern-untainted"])
    if npat < 50:
        raise AnalysisBroken(f"only {npat} pattern arguments found")
    rep.assumptions += ["re.escape makes any text literal", "integers and match positions carry no pattern syntax"]


def note(done, rule, e, f, ok, msg):
    k = (rule, id(e))
    if k not in done or (done[k][0] and not ok):
        done[k] = (ok, e, f, msg)
