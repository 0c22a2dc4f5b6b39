"""C21: saving never destroys the old output file before the conversion is complete."""
import ast
from ..core import *
from ..drive import build_pta
from ..paths import *
from .c06 import labels, mode_of, OPENERS

NOTE = ("Typestate analysis over every structured path of save_to_json (package callees inlined): once the output path has been opened for writing, truncated, removed or replaced, "
        "no conversion work (token serialisation, JSON encoding) may still have to run; every normal return has written the file.")

TOUCHED, WROTE, CONVERTED = ("touched",), ("wrote",), ("converted",)
CONVERT_METHODS = {"model_dump", "model_dump_json", "dumps", "iterencode", "to_json", "to_dict"}
DESTROY = {"write_text", "write_bytes", "unlink", "touch", "rmdir"}
DESTROY_FN = ("os.remove", "os.unlink", "shutil.rmtree", "os.truncate", "shutil.move", "shutil.copyfile", "shutil.copy", "os.rename")


class C(Client):
    top = "Exception"

    def __init__(self, p, inline):
        self.p, self.inline = p, inline
        self.sites = {}
        self.conv = {}

    def relevant(self, f):
        return f in self.inline

    def out(self, e, fr):
        return e is not None and "OUTPATH" in labels(self.p, ("E", id(e), fr.ctx))

    def on_call(self, e, fr, st, eng):
        ds = {d for d in self.p.callees.get((id(e), fr.ctx), ()) if isinstance(d, str)}
        nm = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ""
        recv = e.func.value if isinstance(e.func, ast.Attribute) else None
        ts, ext = eng.targets(e, fr.ctx)
        conv = (nm in CONVERT_METHODS or any(d in ("json.dump", "json.dumps", "json.JSONEncoder.encode") for d in ds)) and not any(t[0] in self.inline for t in ts)
        streams = "json.dump" in ds
        if conv:
            ok = TOUCHED not in st.facts and not streams
            old = self.conv.get(id(e))
            self.conv[id(e)] = (ok and (old is None or old[0]), e, fr.func)
            if streams:
                return [(NEXT, st.add(CONVERTED, WROTE), None), ("raise", st, "Exception")]
            return [(NEXT, st.add(CONVERTED), None), ("raise", st, "Exception")]
        touch = write = False
        if nm in DESTROY and self.out(recv, fr) and recv is not None:
            touch = True
            write = nm.startswith("write_")
        elif ds & set(DESTROY_FN) and e.args and any(self.out(a, fr) for a in e.args):
            touch = True
        elif nm in ("rename", "replace") and any(d.startswith("pathlib") for d in ds) and e.args and self.out(e.args[0], fr):
            touch = write = True
        elif "os.replace" in ds:
            touch = write = True
        elif ds & set(OPENERS) or nm == "open":
            pos = 1 if (ds & set(OPENERS)) or isinstance(e.func, ast.Name) else 0
            m = mode_of(e, pos)
            x = e.args[0] if pos == 1 and e.args else recv
            if (m is None or any(c in m for c in "wx+")) and self.out(x, fr):
                touch = True
        elif nm in ("write", "writelines"):
            write = True
        if touch or write:
            q = st
            if touch:
                self.sites[id(e)] = (e, fr.func)
                q = q.add(TOUCHED)
            if write:
                q = q.add(WROTE)
            return [(NEXT, q, None), ("raise", q if touch else st, "Exception")]
        return None

    def may_raise(self, e, fr, tg, eng):
        return self.top if not (isinstance(e.func, ast.Attribute) and e.func.attr in ("info", "error", "debug", "warning")) else None


def run(prog, rep, tier):
    p = build_pta(prog)
    rep.rule("convert-before-touch: no serialisation or JSON encoding runs after the output path was opened for writing, truncated or removed")
    rep.rule("written-on-return: every normal return of save_to_json has written the output")
    mod = prog.need_class("TexReader").module
    rm = {f for f in prog.funcs.values() if f.module is mod}
    conv = lambda f: any(isinstance(n, ast.Call) and (dotted(n.func) or "").split(".")[-1] in CONVERT_METHODS | {"dump"} | DESTROY | {"open"} for s in f.body for n in [s] + list(walk_own(s)))
    rel = reaches(p, None, conv)
    f, ctx = p.entry["save_to_json"]
    reached = {g for g, c in p.reach([p.entry["save_to_json"]])}
    inline = (rm | rel) & reached
    # serialisation of tokens itself (structure package) is one conversion step
    inline = {g for g in inline if not g.module.name.startswith("latex2json.structure")}
    c = C(p, inline)
    eng = Engine(p, c)
    outs = eng.run(f, ctx, State())
    if eng.overflow:
        raise AnalysisBroken("state explosion in C21")
    for ok, e, g in c.conv.values():
        rep.check(ok, "convert-before-touch", f"{g.qual}: {src_of(e, 60)}", f"{loc(e)} in {g.qual}: {src_of(e)} can fail after the output file was already opened/truncated at "
                  + ", ".join(sorted(loc(x) for x, _ in c.sites.values())))
    for k, st, x in outs:
        if k != "raise":
            rep.check(WROTE in st.facts and CONVERTED in st.facts, "written-on-return", "save_to_json return", f"{f.where}: save_to_json can return without having written the converted result")
        elif CONVERTED not in st.facts:
            rep.check(TOUCHED not in st.facts, "convert-before-touch", f"save_to_json exit by {x} before the conversion finished", f"{f.where}: the output file can be touched although the conversion did not complete")
    if not c.sites or not c.conv:
        raise AnalysisBroken("save_to_json: no conversion or no write of the output path found")
    rep.stats.update(conversion_sites=len(c.conv), write_sites=len(c.sites), exits=len(outs))
    rep.assumptions.append("a failure of the final write itself (disk full) is out of scope")
