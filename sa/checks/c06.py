"""C06 effects: every external call reachable from the public API is classified; writes/deletes must
target the extraction directory (or the requested output), nothing may run code or reach outside."""
import ast
from ..core import *
from ..drive import build_pta

NOTE = ("Effect analysis: every external call and every mode-carrying open() in the call graph reachable from the public API "
        "(points-to call graph) is classified. Process creation, code evaluation, network access and process-wide settings "
        "are violations wherever they occur; file-system writes and deletions must have a path whose points-to provenance is the "
        "temporary directory created by the package or the output path handed to the API.")

# process-level / code-execution effects: forbidden wherever they are reachable
FORBIDDEN_PREFIX = ("subprocess.", "socket.", "urllib.", "http.", "ftplib.", "smtplib.", "requests.", "ctypes.", "multiprocessing.",
                    "pickle.", "marshal.", "shelve.", "dbm.", "runpy.", "importlib.", "code.", "pty.", "webbrowser.", "telnetlib.",
                    "asyncio.", "ssl.", "xmlrpc.", "builtins.exec", "builtins.eval", "builtins.compile", "builtins.__import__",
                    "builtins.input", "builtins.breakpoint", "builtins.exit", "builtins.quit", "signal.", "sys.exit", "sys.setrecursionlimit",
                    "os.system", "os.popen", "os.exec", "os.spawn", "os.posix_spawn", "os.fork", "os.kill", "os._exit", "os.abort", "os.putenv",
                    "os.unsetenv", "os.chdir", "os.fchdir", "os.chroot", "os.umask", "os.setuid", "os.environ.", "os.startfile", "locale.setlocale",
                    "random.seed", "sys.settrace", "sys.setprofile", "gc.", "resource.", "faulthandler.", "os.nice")
# forms whose first/any path argument is written or removed
WRITES = {
    "os.remove": (0,), "os.unlink": (0,), "os.rmdir": (0,), "os.removedirs": (0,), "os.mkdir": (0,), "os.makedirs": (0,),
    "os.rename": (0, 1), "os.replace": (0, 1), "os.renames": (0, 1), "os.symlink": (1,), "os.link": (1,), "os.chmod": (0,), "os.chown": (0,),
    "os.truncate": (0,), "os.utime": (0,), "os.mkfifo": (0,), "os.mknod": (0,), "os.open": (0,), "os.lchown": (0,),
    "shutil.rmtree": (0,), "shutil.move": (0, 1), "shutil.copy": (1,), "shutil.copy2": (1,), "shutil.copyfile": (1,), "shutil.copytree": (1,),
    "shutil.copymode": (1,), "shutil.copystat": (1,), "shutil.chown": (0,), "shutil.unpack_archive": (1,), "shutil.make_archive": (0,),
    "tempfile.NamedTemporaryFile": (), "json.dump": (),
}
PATH_WRITES = {"write_text", "write_bytes", "mkdir", "unlink", "touch", "rename", "replace", "rmdir", "symlink_to", "hardlink_to", "chmod", "link_to", "lchmod"}
EXTRACT = {"extract": 1, "extractall": 0}
OPENERS = {"builtins.open": (0, 1), "open": (0, 1), "io.open": (0, 1), "codecs.open": (0, 1), "gzip.open": (0, 1), "bz2.open": (0, 1), "lzma.open": (0, 1),
           "tarfile.open": (0, 1), "zipfile.ZipFile": (0, 1), "gzip.GzipFile": (0, 1), "tarfile.TarFile": (0, 1), "os.fdopen": (0, 1)}
MODEPOS = {"tarfile.open": 1}
OK_LABELS = {"TMP", "OUTPATH"}


def labels(p, n, seen=None):
    """provenance labels of node n"""
    out = set()
    if n is None:
        return out
    for o in p.get(n):
        if o.kind == "lab":
            out.add(o.key[0])
        elif o.kind == "extinst":
            for x in p.get(p.fld(o, "labels")):
                if x.kind == "lab":
                    out.add(x.key[0])
        elif o.kind == "str":
            out.add("const")
        elif o.kind == "extbound":
            pass
    return out


def recv_labels(p, e, ctx):
    if isinstance(e.func, ast.Attribute):
        return labels(p, ("E", id(e.func.value), ctx))
    return set()


def mode_of(e, pos):
    m = None
    if len(e.args) > pos:
        m = e.args[pos]
    for k in e.keywords:
        if k.arg == "mode":
            m = k.value
    if m is None:
        return "r"
    if isinstance(m, ast.Constant) and isinstance(m.value, str):
        return m.value
    return None


def run(prog, rep, tier):
    p = build_pta(prog, all_methods=True)
    rep.rule("no-forbidden-effect: no reachable external call runs code or processes, opens the network or changes process-wide settings")
    rep.rule("write-confined: path of a reachable write/delete comes from the package's own temporary directory or the requested output path")
    rep.rule("delete-confined: path of a reachable deletion comes from the package's own temporary directory only")
    reach = {(f, c) for f, c in p.reach(p.roots + [(None, "<api>")])}
    reachf = {f for f, c in reach}
    calls = [x for x in p.ext_calls if x[1] is None or x[1] in reachf]
    rep.stats["external_calls"] = len({id(x[0]) for x in calls})
    rep.stats["functions_reached"] = len(reachf)
    seen = {}

    def note(rule, e, f, ok, msg):
        k = (rule, id(e))
        if k not in seen or (seen[k][0] and not ok):
            seen[k] = (ok, e, f, msg)

    writes = 0
    for e, f, ctx, d, args, kwargs, recv, mod in calls:
        if not isinstance(d, str) or not isinstance(e, ast.Call):
            continue
        fq = f.qual if f else "<module>"
        bad = any(d == x.rstrip(".") or d.startswith(x) for x in FORBIDDEN_PREFIX if not x.startswith("builtins.")) or \
            (d in FORBIDDEN_PREFIX)
        note("no-forbidden-effect", e, f, not bad, f"calls {d}")
        last = d.split(".")[-1]

        def arg(i, name=None):
            if i is not None and i < len(args):
                return args[i]
            for k in ((name,) if name else ()):
                if k in kwargs:
                    return kwargs[k]
            return None
        if d in OPENERS:
            pi, mi = OPENERS[d]
            m = mode_of(e, mi)
            w = m is None or any(c in m for c in "wax+")
            if w and (len(args) > pi or "file" in kwargs or "name" in kwargs):
                writes += 1
                l = labels(p, arg(pi, "file") or kwargs.get("name"))
                ok = bool(l & OK_LABELS) and not (l - OK_LABELS - {"STR", "const", "INP", "DOC"})
                # the path must be rooted at the directory, not merely mention it
                note("write-confined", e, f, ok and rooted(p, e.args[pi] if len(e.args) > pi else None, f, ctx),
                     f"opens a path for writing whose provenance is {sorted(l) or 'unknown'}")
            continue
        tgt = []
        if d in WRITES:
            tgt = [(labels(p, arg(i)), e.args[i] if i < len(e.args) else None) for i in WRITES[d]] or [(set(), None)]
        elif last in PATH_WRITES and isinstance(e.func, ast.Attribute) and d.split(".")[0] in ("pathlib", "str"):
            if last in ("replace",) and d.startswith("str."):
                continue
            if d.startswith("str.") and not (recv is not None and recv.kind == "lab" and recv.key[0] in ("INP", "OUTPATH")):
                continue
            tgt = [(recv_labels(p, e, ctx), e.func.value)]
        elif last in EXTRACT and ("tarfile" in d or "zipfile" in d):
            i = EXTRACT[last]
            a = arg(i, "path")
            tgt = [(labels(p, a), e.args[i] if i < len(e.args) else next((k.value for k in e.keywords if k.arg == "path"), None))]
        for l, ex in tgt:
            writes += 1
            dele = last in ("rmtree", "remove", "unlink", "rmdir", "removedirs", "move")
            allowed = {"TMP"} if dele else OK_LABELS
            ok = bool(l & allowed) and rooted(p, ex, f, ctx)
            if dele:
                ok = ok and not (l & {"INP", "OUTPATH", "DOC"})
            note("delete-confined" if dele else "write-confined", e, f, ok,
                 f"{d} on a path whose provenance is {sorted(l) or 'unknown'}")
    for (rule, _), (ok, e, f, msg) in seen.items():
        fq = f.qual if f else "<module level>"
        rep.check(ok, rule, f"{(f.full if f else e._module.name)}: {src_of(e, 70)}", f"{loc(e)} in {fq}: {src_of(e)} — {msg}")
    # statement forms with process-wide effect
    for f in reachf:
        if f is None or f.module.name.split(".")[-1].startswith("_"):
            continue
        for st in f.body:
            for n in [st] + list(walk_own(st)):
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
                    ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
                    for t in ts:
                        b = t.value if isinstance(t, (ast.Subscript, ast.Attribute)) else None
                        dn = dotted(b) if b is not None else None
                        if dn in ("os.environ", "sys.modules", "sys.path", "sys", "os", "builtins", "tempfile", "re", "json", "warnings"):
                            rep.bad("no-forbidden-effect", f"{f.full}: {src_of(n, 70)}", f"{loc(n)} in {f.qual}: {src_of(n)} changes process-wide state")
    if writes < 5:
        raise AnalysisBroken(f"only {writes} write sites found in the call graph")
    rep.stats["write_or_delete_sites"] = len([1 for k in seen if k[0] != "no-forbidden-effect"])
    rep.assumptions += ["external library functions have the effects their documentation states",
                        "file reads are not restricted (the include commands may name any readable file)"]


def rooted(p, ex, f, ctx, depth=0):
    """os.path.join(TMP, x): provenance must come from the first component of a join / concatenation"""
    if ex is None or depth > 6:
        return True
    if isinstance(ex, ast.Call):
        d = dotted(ex.func) or ""
        if d.endswith("path.join") and ex.args:
            l = labels(p, ("E", id(ex.args[0]), ctx))
            return bool(l & OK_LABELS) and rooted(p, ex.args[0], f, ctx, depth + 1)
        return True
    if isinstance(ex, ast.BinOp):
        l = labels(p, ("E", id(ex.left), ctx))
        return bool(l & OK_LABELS) and rooted(p, ex.left, f, ctx, depth + 1)
    if isinstance(ex, ast.Name) and f is not None and ex.id in f.locals:
        vals = [n.value for st in f.body for n in [st] + list(walk_own(st)) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == ex.id for t in n.targets)]
        return all(rooted(p, v, f, ctx, depth + 1) for v in vals)
    return True
