"""C12: error contract of the public API."""
import ast
from ..core import *
from ..drive import build_pta
from ..paths import *
from .c06 import labels

NOTE = ("Exceptional-path analysis: every structured path through the public reader methods, reader helpers and the extraction context managers inlined, every internal or I/O call "
        "allowed to fail with any Exception. The exception class of each exceptional exit, the cause of each translated exception, the absence of swallowed failures and the existence "
        "check in front of every use of the input path are obligations.")

FNF = "FileNotFoundError"
QUIET_EXT = ("os.path.", "logging.", "pathlib.", "str.", "list.", "dict.", "set.", "tuple.", "warnings.", "builtins.", "typing.", "functools.", "os.fspath", "os.sep", "contextlib.", "time.", "re.")
FAIL_EXT = ("builtins.open", "io.open", "json.", "shutil.", "zipfile.", "tarfile.", "gzip.", "tempfile.", "pydantic.", "os.listdir", "os.walk", "os.makedirs", "os.mkdir", "os.remove", "os.unlink", "os.rename", "os.replace")
FAIL_METHODS = {"write_text", "write_bytes", "read_text", "read_bytes", "mkdir", "open", "write", "read", "model_dump", "model_dump_json", "extract", "extractall", "unlink", "touch", "rename", "replace_", "namelist", "getmembers"}
EXISTS = {"exists", "isfile", "isdir", "lexists", "is_file", "is_dir"}
INPUT = ("input",)
FAILED, PRESENT, MISSING = ("failed",), ("present",), ("missing",)


class C(Client):
    top = "Exception"

    def __init__(self, p, inline, reader_mod, rep, entry):
        self.p, self.inline, self.mod, self.rep, self.entry = p, inline, reader_mod, rep, entry
        self.work = {}
        self.raises = {}
        self.handlers = set()

    def relevant(self, f):
        return f in self.inline

    def dotteds(self, e, fr):
        return {d for d in self.p.callees.get((id(e), fr.ctx), ()) if isinstance(d, str)}

    def is_exists(self, e, fr, st, eng):
        """exists-like test about the caller's input path"""
        if not isinstance(e, ast.Call):
            return False
        nm = (dotted(e.func) or (e.func.attr if isinstance(e.func, ast.Attribute) else "")).split(".")[-1]
        if nm not in EXISTS:
            return False
        x = e.args[0] if e.args else e.func.value if isinstance(e.func, ast.Attribute) else None
        return x is not None and eng.const(x, st, fr) == INPUT

    def value(self, e, st, fr, eng):
        if self.is_exists(e, fr, st, eng):
            return ("exists", (dotted(e.func) or e.func.attr).split(".")[-1])
        if isinstance(e, ast.Call) and len(e.args) == 1:
            nm = (dotted(e.func) or (e.func.attr if isinstance(e.func, ast.Attribute) else "")).split(".")[-1]
            if nm in ("Path", "str", "fspath", "abspath", "realpath", "PurePath", "expanduser", "normpath") and eng.const(e.args[0], st, fr) == INPUT:
                return INPUT
        if isinstance(e, ast.Call) and not e.args and isinstance(e.func, ast.Attribute) and e.func.attr in ("resolve", "absolute", "expanduser", "as_posix") and eng.const(e.func.value, st, fr) == INPUT:
            return INPUT
        if isinstance(e, ast.JoinedStr) and len(e.values) == 1 and isinstance(e.values[0], ast.FormattedValue) and eng.const(e.values[0].value, st, fr) == INPUT:
            return INPUT
        if isinstance(e, ast.Name) and e.id == st.get("<excname>") and st.get("<exc>"):
            return ("exc", st.get("<exc>"))
        return None

    def refine(self, test, fr, st, sense, eng):
        v = None
        if self.is_exists(test, fr, st, eng):
            v = self.value(test, st, fr, eng)
        elif isinstance(test, ast.Name) and isinstance(st.get(test.id), tuple) and not isinstance(st.get(test.id), FnVal):
            v = st.get(test.id)
        if v is None or v[0] != "exists":
            return st
        if sense:
            return None if MISSING in st.facts else st.add(PRESENT)
        if v[1] in ("exists", "lexists"):
            return None if PRESENT in st.facts else st.add(MISSING)
        return st

    def on_call(self, e, fr, st, eng):
        ts, ext = eng.targets(e, fr.ctx)
        inl = [t for t in ts if t[0] in self.inline]
        opaque = [t[0] for t in ts if t[0] not in self.inline]
        if fr.func.module is self.mod and (opaque or any(t[0].module is not self.mod for t in ts)):
            # work on the input: must know it exists
            for a in list(e.args) + [k.value for k in e.keywords]:
                if eng.const(a, st, fr) == INPUT:
                    k = (id(e), self.entry)
                    ok = PRESENT in st.facts or FAILED in st.facts
                    old = self.work.get(k)
                    self.work[k] = (ok and (old is None or old[0]), e, fr.func)
        return None

    def may_raise(self, e, fr, tg, eng):
        ts, ext = tg
        ds = self.dotteds(e, fr)
        nm = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ""
        if any(f not in self.inline and not _trivial(f) for f, c in ts):
            return self.top
        if any(d.startswith(FAIL_EXT) for d in ds) or nm in FAIL_METHODS:
            return self.top
        if nm == "replace" and any(d.startswith("pathlib.") for d in ds):
            return self.top
        return None

    def on_handler(self, h, fr, st, exc, eng):
        if fr.func.module is self.mod:
            self.handlers.add(id(h))
            return st.add(FAILED)
        return st

    def on_stmt(self, s, fr, st, eng):
        if isinstance(s, ast.Raise) and fr.func.module is self.mod and FAILED in st.facts and s.exc is not None:
            nm = s.exc.id if isinstance(s.exc, ast.Name) else None
            rer = nm is not None and (st.get("<excname>") == nm or isinstance(st.get(nm), tuple))
            cause = s.cause
            ok = rer or (cause is not None and not (isinstance(cause, ast.Constant) and cause.value is None)) or self.sets_cause(s, fr)
            old = self.raises.get(id(s))
            self.raises[id(s)] = (ok and (old is None or old[0]), s, fr.func)
        return st

    def sets_cause(self, s, fr):
        """err.__cause__ = e before raise err"""
        for n in walk_all(fr.func):
            if isinstance(n, ast.Attribute) and n.attr == "__cause__" and isinstance(n.ctx, ast.Store):
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "with_traceback":
                pass
        return False


def walk_all(f):
    for st in f.body:
        yield st
        yield from walk_own(st)


def always_raises(body):
    for s in body:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.If) and s.orelse and always_raises(s.body) and always_raises(s.orelse):
            return True
        if isinstance(s, (ast.Return, ast.Continue, ast.Break)):
            return False
    return False


def _trivial(f):
    return all(isinstance(s, (ast.Pass, ast.Return, ast.Expr)) and not any(isinstance(n, ast.Call) for n in ast.walk(s)) for s in f.body)


ALLOWED = {"process_file": (FNF, "TexProcessingError"), "process_folder": (FNF, "TexProcessingError"), "process": (FNF, "TexProcessingError"),
           "process_compressed": (FNF, "RuntimeError"), "to_json": (FNF, "TexProcessingError"), "save_to_json": (FNF, "TexProcessingError")}


def run(prog, rep, tier):
    p = build_pta(prog)
    rep.rule("documented-exceptions: every exceptional exit of a public method carries one of its documented exception classes")
    rep.rule("not-swallowed: no normal return after an exception was caught in the reader; handlers in building/conversion re-raise")
    rep.rule("cause-kept: an exception raised while handling another names it as its cause (or re-raises it)")
    rep.rule("missing-input: a missing input leads to FileNotFoundError, and no work on the input starts before its existence is known")
    reader = prog.need_class("TexReader")
    mod = reader.module
    exm = prog.need_class("TexFileExtractor").module
    inline = {f for f in prog.funcs.values() if f.module is mod or (f.module is exm and (f.is_ctx or f.is_gen))}
    tpe = next((c.full for c in prog.classes.values() if c.name == "TexProcessingError"), None)
    if tpe is None:
        raise AnalysisBroken("TexProcessingError is gone")
    raises, n_handlers = {}, set()
    for name, allowed in ALLOWED.items():
        f, ctx = p.entry[name]
        c = C(p, inline, mod, rep, name)
        eng = Engine(p, c)
        env = frozenset({(q, INPUT) for q in f.posargs[1:2]}) if name.startswith("process") else frozenset()
        outs = eng.run(f, ctx, State(frozenset(), env))
        if eng.overflow:
            raise AnalysisBroken("state explosion in C12")
        allowed = tuple(tpe if a == "TexProcessingError" else a for a in allowed)
        nr = 0
        for k, st, x in outs:
            if k == "raise":
                nr += 1
                rep.check(any(eng.exc.sub(x, a) for a in allowed), "documented-exceptions", f"{name} exit by {x}",
                          f"{f.where}: TexReader.{name} can end with {x}, documented are {', '.join(a.split('.')[-1] for a in allowed)}")
                if MISSING in st.facts:
                    rep.check(eng.exc.sub(x, FNF), "missing-input", f"{name} missing input -> {x}", f"{f.where}: TexReader.{name} reports a missing input as {x}")
            else:
                rep.check(FAILED not in st.facts, "not-swallowed", f"{name} return", f"{f.where}: TexReader.{name} can return normally after an exception was caught (failure swallowed)")
                if name.startswith("process"):
                    rep.check(MISSING not in st.facts, "missing-input", f"{name} return on missing input", f"{f.where}: TexReader.{name} can return normally although the input does not exist")
        if not nr:
            raise AnalysisBroken(f"no exceptional path found through {name}")
        for (i, en), (ok, e, g) in c.work.items():
            rep.check(ok, "missing-input", f"{en}: {src_of(e, 60)} in {g.qual}", f"{loc(e)} in {g.qual}: {src_of(e)} works on the input of {en} before its existence was checked: a missing input is not reported as FileNotFoundError")
        for i, (ok, s, g) in c.raises.items():
            old = raises.get(i)
            raises[i] = (ok and (old is None or old[0]), s, g)
        n_handlers |= c.handlers
        rep.stats[name] = f"{len(outs)} exits"
    for ok, s, g in raises.values():
        rep.check(ok, "cause-kept", f"{g.qual}: {src_of(s, 60)}", f"{loc(s)} in {g.qual}: {src_of(s)} drops the original error (no 'from' cause)")
    # ---- building and conversion do not absorb failures
    structure = {builder_mod.rsplit(".", 1)[0] for builder_mod in (prog.need_class("TokenBuilder").module.name,)}
    hs = 0
    for f in {g for g, c in p.reach([p.entry["build"], p.entry["to_json"]]) if g is not None and any(g.module.name.startswith(x) for x in structure)}:
        for t in [n for n in walk_all(f) if isinstance(n, ast.Try)]:
            inner = any(isinstance(x, ast.Call) and any(not isinstance(d, str) for cx in {c for g, c in p.reach([p.entry["build"], p.entry["to_json"]]) if g is f} for d in p.callees.get((id(x), cx), ()))
                        for s in t.body for x in ast.walk(s))
            for h in t.handlers:
                hs += 1
                names = eng.exc.handler_names(f.module, h)
                broad = any(n in ("Exception", "BaseException") for n in names)
                rep.check(not (broad or inner) or always_raises(h.body), "not-swallowed", f"{f.full}: except {','.join(names)}",
                          f"{loc(h)} in {f.qual}: this handler absorbs a failure of building or converting a token: the result looks successful but lacks content")
    rep.stats["handlers"] = len(n_handlers) + hs
    rep.assumptions += ["logging calls, path arithmetic and str()/format of values do not raise", "the parser's own tolerance (a file that cannot be parsed is logged and contributes no tokens) is not part of this contract"]
