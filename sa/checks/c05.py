"""C05 temporary directory lifecycle."""
import ast
from ..core import *
from ..drive import build_pta
from ..paths import *
from .c06 import labels

NOTE = ("Typestate analysis of the temporary directory along every path (normal, return, exception of any call, interrupt) of the public entry "
        "points, generator context managers inlined: created -> removed | handed to the returned result. A path that ends with a live directory nobody owns is a leak.")

LIVE, OWNED = ("live",), ("owned",)
NORAISE_METHODS = {"debug", "info", "warning", "error", "exception", "append", "endswith", "startswith", "lower", "exists", "isabs", "join", "strip", "is_dir", "abspath", "basename", "dirname"}


class C(Client):
    top = "BaseException"

    def __init__(self, p, rel):
        self.p, self.rel = p, rel
        self.sites = set()
        self.removals = set()

    def relevant(self, f):
        return f in self.rel

    def dotteds(self, e, fr):
        return {d for d in self.p.callees.get((id(e), fr.ctx), ()) if isinstance(d, str)}

    def on_call(self, e, fr, st, eng):
        ds = self.dotteds(e, fr)
        if "tempfile.mkdtemp" in ds:
            self.sites.add((id(e), e, fr.func))
            return [(NEXT, st.add(LIVE).drop(OWNED), None), ("raise", st, "OSError")]
        if ds & {"shutil.rmtree"}:
            l = labels(self.p, ("E", id(e.args[0]), fr.ctx)) if e.args else set()
            if "TMP" in l:
                self.removals.add((id(e), e, fr.func))
                return [(NEXT, st.drop(LIVE, OWNED), None)]
        return None

    def may_raise(self, e, fr, tg, eng):
        if isinstance(e.func, ast.Attribute) and e.func.attr in NORAISE_METHODS:
            return None
        if isinstance(e.func, ast.Name) and e.func.id in ("print", "str", "len", "isinstance"):
            return None
        return self.top

    def on_stmt(self, s, fr, st, eng):
        if isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Attribute) and "TMP" in labels(self.p, ("E", id(s.value), fr.ctx)):
                    base = {o for o in self.p.get(("E", id(t.value), fr.ctx)) if o.kind == "inst"}
                    if any(o.key[0].name == "ProcessingResult" for o in base):
                        return st.add(OWNED)
        return st

    def cond(self, e, fr, st, eng):
        # tests about the directory itself: it exists iff it is live
        x = e
        if isinstance(e, ast.Call) and e.args and (dotted(e.func) or "").split(".")[-1] in ("exists", "isdir", "lexists"):
            x = e.args[0]
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("exists", "is_dir"):
            x = e.func.value
        elif isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
            if "TMP" in labels(self.p, ("E", id(e.left), fr.ctx)) and LIVE in st.facts and not (isinstance(e.left, ast.Name)):
                return isinstance(e.ops[0], ast.IsNot)
            return None
        if isinstance(x, (ast.Name, ast.Attribute)) and LIVE in st.facts and "TMP" in labels(self.p, ("E", id(x), fr.ctx)):
            if x is e and isinstance(e, ast.Name) and eng.truth(st.get(e.id)) is not None:
                return None
            return True
        return None


def run(prog, rep, tier):
    p = build_pta(prog)
    rep.rule("no-leak-on-failure: on every exceptional exit of a public operation the temporary directory has been removed")
    rep.rule("owned-on-return: on every normal return the temporary directory has been removed or is recorded in the returned result")
    rep.rule("cleanup-honoured: with cleanup requested, no normal return leaves the directory behind")
    mk = lambda f: any(isinstance(n, ast.Call) and (dotted(n.func) or "").split(".")[-1] in ("mkdtemp", "rmtree") for s in f.body for n in [s] + list(walk_own(s)))
    rel = reaches(p, None, mk)
    # context managers / functions touching result.temp_dir
    prod = 0
    for name in ("process_compressed", "process", "process_folder", "process_file"):
        for cleanup in ("True", "False"):
            f, ctx = p.entry[name]
            if "cleanup" not in f.params and cleanup == "False":
                continue
            env = frozenset({("cleanup", cleanup)}) if "cleanup" in f.params else frozenset()
            c = C(p, rel)
            eng = Engine(p, c)
            outs = eng.run(f, ctx, State(frozenset(), env))
            if eng.overflow:
                raise AnalysisBroken("state explosion in C05")
            prod += len(c.sites)
            label = f"{name}({'cleanup=' + cleanup if env else ''})"
            for k, st, x in outs:
                live = LIVE in st.facts
                if k == "raise":
                    rep.check(not live, "no-leak-on-failure", f"{label} exit by {x}",
                              f"{f.where}: {label} can end with {x} while the temporary directory created at "
                              + ", ".join(sorted(loc(e) + " in " + g.qual for _, e, g in c.sites)) + " still exists and nobody owns it")
                else:
                    rep.check(not live or OWNED in st.facts, "owned-on-return", f"{label} return",
                              f"{f.where}: {label} can return while the temporary directory is neither removed nor recorded in the result")
                    if cleanup == "True" and env:
                        rep.check(not live, "cleanup-honoured", f"{label} return", f"{f.where}: {label} can return with the temporary directory still present")
            if name == "process_compressed" and not c.sites:
                raise AnalysisBroken("process_compressed no longer creates a temporary directory that the analysis sees")
            rep.stats[label] = f"{len(outs)} exits, {len(c.sites)} creation sites, {len(c.removals)} removal sites"
    # the result's own cleanup removes the directory
    pr = prog.need_class("ProcessingResult")
    m = prog.need_method(pr, "cleanup")
    n = 0
    for (f, ctx) in p.reach([(None, "<api>")] + p.roots):
        if f is m:
            c = C(p, rel)
            eng = Engine(p, c)
            for k, st, x in eng.run(f, ctx, State(frozenset({LIVE, OWNED}))):
                n += 1
                if k != "raise":
                    rep.check(LIVE not in st.facts, "cleanup-honoured", "ProcessingResult.cleanup", f"{m.where}: cleanup() can return without removing the directory")
    if not n:
        raise AnalysisBroken("ProcessingResult.cleanup not analysed")
    rep.assumptions += ["removal itself (shutil.rmtree) succeeds", "logging and str methods do not raise"]
