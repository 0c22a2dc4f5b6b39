"""C25: importing the package has no effect outside it."""
import ast
from ..core import *
from ..pta import PTA, Frame as PFrame
from .c06 import FORBIDDEN_PREFIX, WRITES, PATH_WRITES, OPENERS

NOTE = ("Effect analysis of import-time code: the module bodies (without the __main__ guard), class bodies, decorators, default arguments and every function they reach "
        "(points-to call graph). External calls with effects outside the package and stores into foreign objects are violations.")

EFFECTS = ("logging.basicConfig", "logging.disable", "logging.captureWarnings", "logging.setLoggerClass", "logging.config.", "logging.addLevelName", "logging.setLogRecordFactory",
           "logging.FileHandler", "logging.handlers.", "logging.warning", "logging.error", "logging.info", "logging.debug", "logging.critical", "logging.exception", "logging.log",
           "warnings.filterwarnings", "warnings.simplefilter", "warnings.resetwarnings", "warnings.warn", "sys.path.", "sys.setrecursionlimit", "sys.stdout.", "sys.stderr.",
           "sys.exit", "sys.set", "sys.excepthook", "sys.addaudithook", "os.chdir", "os.environ.", "os.putenv", "os.umask", "os.listdir", "os.walk", "os.scandir", "os.mkdir", "os.makedirs", "os.getcwd",
           "colorama.init", "colorama.just_fix_windows_console", "colorama.deinit", "atexit.register", "threading.", "_thread.", "concurrent.futures.", "asyncio.",
           "locale.setlocale", "random.seed", "signal.", "gc.", "tempfile.", "site.addsitedir", "builtins.open", "builtins.print", "builtins.input", "io.open", "codecs.register",
           "pathlib.Path.cwd", "time.sleep", "multiprocessing.", "socket.", "subprocess.", "importlib.reload", "importlib.invalidate_caches", "re.purge", "json.load", "pickle.",
           "mimetypes.init", "gettext.install", "faulthandler.", "resource.", "readline.")
PATH_READS = {"read_text", "read_bytes", "iterdir", "glob", "rglob", "open"}
LOGGER_METHODS = {"setLevel", "addHandler", "removeHandler", "addFilter", "removeFilter", "propagate"}
FOREIGN = ("sys", "os", "logging", "warnings", "builtins", "re", "json", "tempfile", "io", "locale", "random", "signal", "threading", "asyncio", "pydantic", "colorama", "shutil", "pathlib", "collections", "typing", "codecs")


def own_logger(call):
    """logging.getLogger(__name__) / getLogger('latex2json...')"""
    if isinstance(call, ast.Call) and len(call.args) == 1 and (dotted(call.func) or "").split(".")[-1] == "getLogger":
        a = call.args[0]
        if isinstance(a, ast.Name) and a.id == "__name__":
            return True
        return isinstance(a, ast.Constant) and isinstance(a.value, str) and a.value.split(".")[0] == "latex2json"
    return False


def import_time_nodes(m):
    """nodes executed when the module is imported (function bodies excluded)"""
    out = []

    def go(n):
        out.append(n)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                go(d)
            return
        if isinstance(n, ast.Lambda):
            return
        for c in ast.iter_child_nodes(n):
            go(c)
    for st in m.tree.body:
        if not is_main_guard(st):
            go(st)
    return out


def resolve(m, name):
    """dotted source name -> dotted external name through the module's imports"""
    head, _, rest = name.partition(".")
    al = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                al[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
            for a in n.names:
                al[a.asname or a.name] = n.module + "." + a.name
    if head in al:
        return al[head] + ("." + rest if rest else "")
    return name


def run(prog, rep, tier):
    rep.rule("no-import-effect: no call made by import-time code (module bodies and functions they reach) configures logging, warnings, paths, environment, streams, or touches files/processes/threads")
    rep.rule("no-foreign-store: import-time code stores nothing into objects of other packages")
    p = PTA(prog)
    for m in prog.modules.values():
        p.module_body(m)
    for c in prog.classes.values():
        p.class_body(c)
    for m in prog.modules.values():
        fr = PFrame(p, None, None, m)
        for n in import_time_nodes(m):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    if any(isinstance(x, ast.Call) for x in ast.walk(d)):
                        fr.ev(d)
    p.solve()
    reach = p.reach([(None, m) for m in prog.modules])
    reached = {f for f, c in reach if f is not None}
    rep.stats["import_time_functions"] = len(reached)
    sites = {}
    ext = {}
    for e, f, ctx, d, args, kwargs, recv, mod in p.ext_calls:
        if isinstance(d, str):
            ext.setdefault(id(e), set()).add(d)
    bodies = []
    for m in prog.modules.values():
        bodies.append((m, None, import_time_nodes(m)))
    for f in reached:
        bodies.append((f.module, f, [n for st in f.body for n in [st] + list(walk_own(st))]))
    calls = 0
    for m, f, nodes in bodies:
        where = f.full if f else m.name
        loggers = {}
        for n in nodes:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                loggers[n.targets[0].id] = n.value
        for n in nodes:
            if isinstance(n, ast.Call):
                calls += 1
                names = set(ext.get(id(n), ()))
                dn = dotted(n.func)
                if dn:
                    names.add(resolve(m, dn))
                    if "." not in dn and dn in ("open", "print", "input", "exec", "eval", "__import__"):
                        names.add("builtins." + dn)
                bad = sorted(d for d in names if any(d == x.rstrip(".") or (x.endswith(".") and d.startswith(x)) or d == x for x in EFFECTS + FORBIDDEN_PREFIX + tuple(WRITES))
                             or any(d.startswith(x) for x in ("sys.set", "logging.config.", "sys.path.")))
                last = n.func.attr if isinstance(n.func, ast.Attribute) else None
                if not bad and last in LOGGER_METHODS:
                    r = n.func.value
                    r = loggers.get(r.id, r) if isinstance(r, ast.Name) else r
                    if not own_logger(r):
                        bad = [src_of(n.func)]
                if not bad and last in (PATH_WRITES | PATH_READS) and any(d.split(".")[0] == "pathlib" for d in names):
                    bad = [src_of(n.func)]
                rep.check(not bad, "no-import-effect", f"{where}: {src_of(n, 70)}", f"{loc(n)} in {f.qual if f else 'module body of ' + m.name}: {src_of(n)} runs when the package is imported and calls {', '.join(bad)}")
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete, ast.AnnAssign)):
                ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
                for t in ts:
                    base = t.value if isinstance(t, (ast.Subscript, ast.Attribute)) else None
                    dn = dotted(base) if base is not None else None
                    if dn is None:
                        continue
                    r = resolve(m, dn)
                    own = r.split(".")[0] not in FOREIGN or r == dn and dn.split(".")[0] not in FOREIGN
                    rep.check(own, "no-foreign-store", f"{where}: {src_of(n, 70)}", f"{loc(n)} in {f.qual if f else m.name}: {src_of(n)} changes {r} when the package is imported")
            if isinstance(n, ast.With) or isinstance(n, ast.AsyncWith):
                pass
    rep.stats["import_time_calls"] = calls
    rep.assumptions.append("imports of third-party packages (pydantic, colorama, ...) are not followed; a name in the effect table is an effect, any other external call is taken as pure")
    if calls < 50:
        raise AnalysisBroken("fewer than 50 import-time calls found")
