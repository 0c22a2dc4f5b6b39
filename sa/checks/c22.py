"""C22: no regular expression has an exponentially ambiguous repetition."""
import ast
import re
from ..core import *
from ..fold import Fold, all_patterns, HOLE
from ..regex import exponential, TooBig

NOTE = ("Constant folding of every pattern the package builds (module tables, f-strings, joins, % formatting, parameters followed to call sites); each pattern is compiled to a position "
        "automaton and searched for a state with two different loops over the same word (exponential degree of ambiguity) that the matcher cannot leave with a match.")


def fragments(prog):
    """pattern pieces assembled piecewise: constants assigned or appended to variables named after patterns"""
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            t, v = None, None
            if isinstance(n, ast.AugAssign):
                t, v = n.target, n.value
            elif isinstance(n, ast.Assign) and len(n.targets) == 1:
                t, v = n.targets[0], n.value
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "insert", "extend") and n.args:
                t, v = n.func.value, n.args[-1]
            elif isinstance(n, ast.Return) and n.value is not None:
                f = enclosing_func(prog, n)
                if f is not None and ("pattern" in f.name or "regex" in f.name):
                    t, v = ast.Name(id="pattern"), n.value
            nm = t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else ""
            if "pattern" in nm.lower() or "regex" in nm.lower() or "sequence" in nm.lower():
                for c in ast.walk(v):
                    if isinstance(c, ast.Constant) and isinstance(c.value, str) and any(q in c.value for q in "*+{"):
                        yield c.value, c


def run(prog, rep, tier):
    rep.rule("no-exponential-ambiguity: no pattern has two different ways to match the same repeated text inside a loop that must later be undone")
    fold = Fold(prog)
    pats, unknown = all_patterns(prog, fold)
    if len(pats) < 100:
        raise AnalysisBroken(f"only {len(pats)} patterns found")
    big = 0
    memo = {}
    loops = 0
    for v, fl, n, f, how in pats:
        k = (v, fl, how == "fullmatch")
        if k not in memo:
            try:
                memo[k] = exponential(v, fl, how == "fullmatch")
            except TooBig:
                memo[k] = None
                big += 1
            except re.error:
                memo[k] = None
            except (RecursionError, OverflowError):
                memo[k] = None
                big += 1
        w = memo[k]
        where = f.qual if f else "module level"
        rep.check(not w, "no-exponential-ambiguity", f"{n._module.name}: {where}: {v[:70]!r}", f"{loc(n)} ({where}): pattern {v[:160]!r} takes exponential time on repetitions of {w}")
    nf = 0
    for v, c in fragments(prog):
        nf += 1
        try:
            w = exponential(v + "\x00", 16)
        except Exception:
            continue
        rep.check(not w, "no-exponential-ambiguity", f"{c._module.name}: fragment {v[:60]!r}", f"{loc(c)}: pattern fragment {v[:160]!r} takes exponential time on repetitions of {w}")
    rep.stats.update(patterns=len(memo), sites=len({id(p[2]) for p in pats}), not_folded=len({id(u[0]) for u in unknown}), too_big=big, fragments=nf)
    rep.assumptions += ["back-references and assertions are treated as matching anything of length zero", "finite repetition counts above 4 are cut to 4",
                        "patterns whose text could not be folded are not judged (their fragments are)"]
