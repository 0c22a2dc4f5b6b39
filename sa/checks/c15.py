"""C15: nothing in the output depends on set order, directory order, clocks, random numbers, process identity,
the environment or the name of the temporary directory."""
import ast
from ..core import *
from ..drive import build_pta
from ..slice import own_nodes, defs_of
from ..fold import Fold, Pat, UNK
from .. import regex

NOTE = ("Three rules over the points-to call graph of the public API: (1) every iteration, join, index, pop or serialisation of a value whose points-to set contains a set or an unsorted "
        "directory listing must be order-insensitive; (2) every reference to a clock, random, identity or environment source must only feed logging; (3) no string with the provenance of the "
        "temporary directory may be reachable from the returned tokens. Dictionaries are insertion-ordered and therefore deterministic.")

LISTING = ("os.listdir", "os.scandir", "glob.glob", "glob.iglob", "pathlib.Path.glob", "pathlib.Path.rglob", "pathlib.Path.iterdir", "pathlib.Path.walk", "os.fwalk",
           "concurrent.futures.as_completed")
LISTMETH = ("glob", "rglob", "iterdir", "imap_unordered")
AMBIENT = ("time.", "datetime.datetime.now", "datetime.datetime.today", "datetime.datetime.utcnow", "datetime.date.today", "datetime.datetime.fromtimestamp", "random.", "uuid.", "secrets.",
           "os.environ", "os.environb", "os.getenv", "os.getpid", "os.getppid", "os.getuid", "os.geteuid", "os.getgid", "os.getlogin", "os.uname", "os.urandom", "os.cpu_count", "os.getcwd", "os.getcwdb",
           "os.getloadavg", "os.times", "os.stat", "os.lstat", "os.path.getmtime", "os.path.getctime", "os.path.getatime", "os.name", "os.get_terminal_size", "platform.", "socket.", "getpass.", "locale.",
           "sys.platform", "sys.argv", "sys.flags", "sys.version", "sys.hexversion", "sys.executable", "sys.getrefcount", "sys.maxsize", "sys.getdefaultencoding", "sys.getfilesystemencoding",
           "threading.get_ident", "threading.current_thread", "threading.get_native_id", "tempfile.gettempdir", "tempfile.mktemp", "pathlib.Path.cwd", "pathlib.Path.home", "builtins.id", "builtins.hash",
           "numpy.random", "gc.", "resource.", "psutil.", "calendar.timegm", "tracemalloc.", "sys.getsizeof", "os.path.expanduser", "os.path.expandvars")
NOTAMBIENT = ("time.sleep", "time.strptime", "random.seed", "datetime.datetime.strptime", "locale.Error")
INSENS = {"sorted", "set", "frozenset", "any", "all", "len", "min", "max", "sum", "bool", "Counter", "fsum", "isinstance", "type", "id", "callable"}
SETMETH = {"add", "discard", "remove", "update", "difference", "union", "intersection", "issubset", "issuperset", "isdisjoint", "symmetric_difference", "difference_update", "intersection_update",
           "symmetric_difference_update", "clear", "copy", "__contains__"}
LOGM = {"debug", "info", "warning", "warn", "error", "exception", "critical", "log"}


def is_logging(call):
    if isinstance(call.func, ast.Attribute) and call.func.attr in LOGM:
        b = call.func.value
        nm = b.attr if isinstance(b, ast.Attribute) else b.id if isinstance(b, ast.Name) else ""
        return "log" in nm.lower() or nm in ("warnings", "logging")
    return isinstance(call.func, ast.Name) and call.func.id == "print"


def in_logging(n):
    """the value only ends up in a log record or an exception message"""
    while n is not None and not isinstance(n, ast.stmt):
        if isinstance(n, ast.Call) and is_logging(n):
            return True
        n = getattr(n, "_parent", None)
    return isinstance(n, ast.Raise)


class Order:
    def __init__(self, prog, p):
        self.prog, self.p = prog, p
        self.at = {}
        for k, s in p.pts.items():
            if k[0] == "E" and s:
                self.at.setdefault(k[1], set()).update(s)
        self.nodes = {}
        for m in prog.modules.values():
            for n in ast.walk(m.tree):
                self.nodes[id(n)] = n
        self.U = {}
        self.assume, self.props, self.F = False, {}, {}
        for (s, ctx), fs in p.callees.items():
            self.F.setdefault(s, set()).update(fs)
        self.exclusive_loops = []
        self.grow()

    def pts(self, e):
        return self.at.get(id(e), ())

    def base(self, o):
        if o.kind == "set":
            return "a set"
        if o.kind == "extinst":
            d = o.key[0]
            if d in LISTING or d.split(".")[-1] in LISTMETH and d.startswith(("pathlib", "multiprocessing", "concurrent")):
                return f"the result of {d}"
        return None

    def why(self, e):
        """reason why the value of e has no fixed order, or None"""
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)):
            for x in (e.left, e.right):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("keys", "items") and not x.args:
                    return "a set of keys"
        if isinstance(e, (ast.Set, ast.SetComp)):
            return "a set"
        for o in self.pts(e):
            w = self.base(o) or self.U.get(o)
            if w:
                return w
        if isinstance(e, ast.Name):
            f = enclosing_func(self.prog, e)
            if f is not None:
                for lp in own_nodes(f):
                    if isinstance(lp, ast.For) and isinstance(lp.target, ast.Tuple) and len(lp.target.elts) >= 3 and walks(self.prog, lp.iter) and any(isinstance(t, ast.Name) and t.id == e.id for t in lp.target.elts[1:]):
                        if not self.sorted_in_place(e.id, lp):
                            return "the file list of os.walk"
        return None

    def sorted_in_place(self, name, scope):
        for n in ast.walk(scope):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "sort" and isinstance(n.func.value, ast.Name) and n.func.value.id == name and total_key(n):
                return True
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "sorted" and total_key(n.value):
                for t in n.targets:
                    b = t.value if isinstance(t, ast.Subscript) else t
                    if isinstance(b, ast.Name) and b.id == name:
                        return True
        return False

    def grow(self):
        """lists, tuples and dictionaries filled by iterating over an unordered value"""
        p = self.p
        sites = {}
        sortedobjs = set()
        for o in p.objs.values():
            if o.kind in ("list", "tuple", "dict") and isinstance(o.site, ast.AST):
                sites.setdefault(id(o.site), []).append(o)
        for n in self.nodes.values():
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "sort" and total_key(n):
                sortedobjs |= set(self.pts(n.func.value))
        for _ in range(6):
            new = 0
            for sid, os_ in sites.items():
                n = self.nodes.get(sid)
                src = None
                if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
                    src = next((w for g in n.generators for w in [self.why(g.iter)] if w), None)
                elif isinstance(n, ast.Call):
                    nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ""
                    if nm in ("list", "tuple", "iter", "reversed", "enumerate", "map", "filter", "fromkeys", "OrderedDict", "deque", "dict", "chain", "zip") and n.args:
                        src = next((w for a in n.args for w in [self.why(a)] if w), None)
                    elif nm == "sorted" and n.args and not total_key(n):
                        w = self.why(n.args[0])
                        src = w and w + " sorted by a key that does not tell all elements apart"
                    elif nm in ("items", "keys", "values", "copy") and isinstance(n.func, ast.Attribute):
                        src = self.why(n.func.value)
                elif isinstance(n, (ast.List, ast.Tuple)) and any(isinstance(x, ast.Starred) for x in n.elts):
                    src = next((w for x in n.elts if isinstance(x, ast.Starred) for w in [self.why(x.value)] if w), None)
                elif isinstance(n, ast.Subscript):
                    src = self.why(n.value)
                elif isinstance(n, ast.BinOp):
                    src = self.why(n.left) or self.why(n.right)
                if src:
                    for o in os_:
                        if o not in self.U and o not in sortedobjs and o.kind != "set":
                            self.U[o] = src
                            new += 1
            # containers filled inside a loop over an unordered value, or from one
            for n in self.nodes.values():
                tg = []
                if isinstance(n, ast.For):
                    w = self.why(n.iter) or walks(self.prog, n.iter) and not self.walk_fixed(n) and "collected in the order of os.walk"
                    if w and self.propagates(n):
                        for x in ast.walk(n):
                            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "extend", "insert", "appendleft", "setdefault"):
                                tg.append((x.func.value, w))
                            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
                                tg.append((x.value, w))
                            elif isinstance(x, ast.AugAssign):
                                tg.append((x.target, w))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("extend", "extendleft", "update") and n.args:
                    w = self.why(n.args[0])
                    if w:
                        tg.append((n.func.value, w))
                elif isinstance(n, ast.AugAssign):
                    w = self.why(n.value)
                    if w:
                        tg.append((n.target, w))
                for e, w in tg:
                    for o in self.pts(e) or (self.pts_name(e) if isinstance(e, ast.Name) else ()):
                        if o.kind in ("list", "dict") and o not in self.U and o not in sortedobjs:
                            self.U[o] = "filled from " + w if not w.startswith("filled") else w
                            new += 1
            if not new:
                break

    def propagates(self, loop):
        """apart from filling containers, the loop does not depend on the order"""
        f = enclosing_func(self.prog, loop)
        if id(loop) not in self.props:
            self.assume = True
            self.props[id(loop)] = self.body_insensitive(loop.body, f, loop) and not self.exclusive(loop, f)
            self.assume = False
        return self.props[id(loop)]

    def pts_name(self, e):
        f = enclosing_func(self.prog, e)
        out = set()
        if f is not None:
            for n in own_nodes(f):
                if isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, ast.Load):
                    out |= set(self.pts(n))
        return out

    def walk_fixed(self, n):
        d = n.target.elts[1] if isinstance(n.target, ast.Tuple) and len(n.target.elts) >= 3 else None
        return isinstance(d, ast.Name) and self.sorted_in_place(d.id, n) or isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "sorted" and total_key(n.iter)

    # ---- consumption
    def body_insensitive(self, body, f, loop):
        """executing the statements for the elements in any order gives the same state"""
        outer = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and not inside(n, loop)} if f is not None else set()
        rets = set()

        def pure(e):
            for n in ast.walk(e):
                if isinstance(n, ast.Call) and not is_logging(n):
                    fs = [g for (s, c), gs in () for g in gs]
                    if isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert", "write", "pop", "popitem", "setdefault", "update", "send", "writelines"):
                        if n.func.attr == "update" and all(o.kind == "set" for o in self.pts(n.func.value)) and self.pts(n.func.value):
                            continue
                        return False
                elif isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                    return False
            return True

        def ok(s):
            if isinstance(s, (ast.Pass, ast.Continue)):
                return True
            if isinstance(s, ast.Expr):
                if isinstance(s.value, ast.Constant):
                    return True
                if isinstance(s.value, ast.Call) and (is_logging(s.value) or self.setop(s.value)):
                    return True
                if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ("append", "extend", "appendleft", "setdefault") and self.tracked(s.value.func.value):
                    return all(pure(a) for a in s.value.args)
                if isinstance(s.value, ast.Call) and any(isinstance(g, Func) for g in self.callees(s.value)):
                    return False
                return pure(s.value) and not isinstance(s.value, ast.Call)
            if isinstance(s, ast.If):
                return pure(s.test) and all(ok(x) for x in s.body + s.orelse)
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                if s.value is not None and not pure(s.value):
                    return False
                for t in ts:
                    if isinstance(t, ast.Name) and (t.id not in outer or isinstance(s.value, ast.Constant)):
                        continue
                    if isinstance(t, ast.Subscript) and self.tracked(t.value):
                        continue
                    return False
                return True
            if isinstance(s, ast.AugAssign):
                if self.tracked(s.target) and pure(s.value):
                    return True
                return isinstance(s.target, ast.Name) and isinstance(s.op, (ast.Add, ast.Sub, ast.BitOr, ast.BitAnd)) and (isinstance(s.value, ast.Constant) and isinstance(s.value.value, (int, bool)) or
                                                                                                             isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in ("len", "int") or self.why(s.value) is not None)
            if isinstance(s, ast.Delete):
                return True
            if isinstance(s, ast.Return):
                if s.value is None or isinstance(s.value, ast.Constant):
                    rets.add(ast.dump(s.value) if s.value is not None else "None")
                    return len(rets) == 1
                return False
            if isinstance(s, ast.Break):
                rets.add("break")
                return all(isinstance(x, (ast.Break, ast.Pass)) or constassign(x) for x in body_of(s))
            if isinstance(s, ast.Raise):
                return True
            if isinstance(s, ast.For):
                return pure(s.iter) and all(ok(x) for x in s.body + s.orelse)
            if isinstance(s, ast.Try):
                return all(ok(x) for x in s.body + s.orelse + s.finalbody) and all(ok(x) for h in s.handlers for x in h.body)
            if isinstance(s, ast.With):
                return all(pure(i.context_expr) for i in s.items) and all(ok(x) for x in s.body)
            return False
        return all(ok(s) for s in body)

    def exclusive(self, loop, f):
        """a loop over patterns that acts only for the pattern that matches, where patterns whose order varies never match the same text"""
        names = {n.id for n in ast.walk(loop.target) if isinstance(n, ast.Name)}
        body = [s for s in loop.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not isinstance(s, ast.Pass)]
        def is_match(e):
            return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("match", "fullmatch") and any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(e))
        if not body:
            return False
        i, mv = 0, None
        if isinstance(body[0], ast.Assign) and is_match(body[0].value) and isinstance(body[0].targets[0], ast.Name):
            mv, i = body[0].targets[0].id, 1
        if i >= len(body) or not isinstance(body[i], ast.If):
            return False
        t, neg = body[i].test, False
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t, neg = t.operand, True
        if isinstance(t, ast.Compare) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            neg = neg != isinstance(t.ops[0], ast.Is)
            t = t.left
        if isinstance(t, ast.NamedExpr):
            t = t.value
        if not (is_match(t) or isinstance(t, ast.Name) and t.id == mv):
            return False
        if neg:
            if not all(isinstance(s, (ast.Continue, ast.Pass)) for s in body[i].body):
                return False
        elif body[i].orelse or len(body) > i + 1:
            return False
        m = f.module if f is not None else loop._module
        vals = []
        for rev in (False, True):
            fo = Fold(self.prog, rev)
            vals.append([v for v in fo.at(loop.iter, f, m)])
        if len(vals[0]) != 1 or len(vals[1]) != 1:
            return False
        seqs = [[x for x in (list(v[0].items()) if isinstance(v[0], dict) else list(v[0]))] if isinstance(v[0], (list, tuple, dict, set)) else None for v in vals]
        if None in seqs or not seqs[0]:
            return False

        def pats(x):
            if isinstance(x, Pat):
                return [x]
            if isinstance(x, (tuple, list)):
                return [q for y in x for q in pats(y)]
            return []

        def key(x):
            return repr([(q.pattern, q.flags) for q in pats(x)])
        if any(len(pats(x)) != 1 or not isinstance(pats(x)[0].pattern, str) or not isinstance(pats(x)[0].flags, int) for s in seqs for x in s):
            return False
        pos = {key(x): k for k, x in enumerate(seqs[1])}
        for a in range(len(seqs[0])):
            for b in range(a + 1, len(seqs[0])):
                x, y = seqs[0][a], seqs[0][b]
                if pos.get(key(x), -1) > pos.get(key(y), -1) or key(x) not in pos or key(y) not in pos:
                    q, r = pats(x)[0], pats(y)[0]
                    try:
                        if regex.overlap(q.pattern, q.flags, r.pattern, r.flags):
                            return False
                    except regex.TooBig:
                        return False
        if loc(loop) not in self.exclusive_loops:
            self.exclusive_loops.append(loc(loop))
        return True

    def tracked(self, e):
        """a container known to be filled in arbitrary order: its uses are judged instead"""
        if self.assume:
            return True
        os_ = self.pts(e) or (self.pts_name(e) if isinstance(e, ast.Name) else ())
        return bool(os_) and all(o in self.U or o.kind == "set" for o in os_ if o.kind in ("list", "dict", "set", "tuple")) and any(o in self.U for o in os_)

    def callees(self, call):
        return self.F.get(id(call), ())

    def setop(self, call):
        return isinstance(call.func, ast.Attribute) and call.func.attr in SETMETH and self.pts(call.func.value) and all(o.kind == "set" for o in self.pts(call.func.value))

    def sensitive(self, e):
        """None when the parent uses e without regard to order, else a description"""
        par = getattr(e, "_parent", None)
        if isinstance(par, ast.For) and par.iter is e:
            f = enclosing_func(self.prog, par)
            if self.body_insensitive(par.body, f, par) or self.exclusive(par, f):
                return None
            return "the loop over it runs in arbitrary order"
        if isinstance(par, ast.Call):
            if is_logging(par):
                return None
            nm = par.func.id if isinstance(par.func, ast.Name) else par.func.attr if isinstance(par.func, ast.Attribute) else ""
            if e in par.args or any(k.value is e for k in par.keywords):
                if nm == "join":
                    return "its elements are joined in arbitrary order"
                if nm in ("next",):
                    return "an arbitrary element is taken"
                if nm in ("str", "repr", "format") and isinstance(par.func, ast.Name):
                    return None if in_logging(par) else "its text form has arbitrary order"
                if nm in ("extend", "extendleft") and isinstance(par.func, ast.Attribute) and self.tracked(par.func.value):
                    return None
                if nm in ("extend", "extendleft", "writelines", "fromkeys", "dumps", "dump"):
                    return f"{nm} takes its elements in arbitrary order"
                if nm == "update" and not self.setop(par) and not self.tracked(par.func.value) and any(o.kind == "dict" for o in self.pts(par.func.value) if isinstance(par.func, ast.Attribute)):
                    return "a dictionary is filled in arbitrary order"
                if nm in ("min", "max") and not total_key(par):
                    return "an arbitrary one of the elements with equal key is taken"
                return None
        if isinstance(par, ast.Attribute) and isinstance(getattr(par, "_parent", None), ast.Call) and par._parent.func is par:
            if par.attr == "pop" and not par._parent.args and any(o.kind == "set" for o in self.pts(e)):
                return None if isinstance(par._parent._parent, ast.Expr) else "an arbitrary element is taken"
            if par.attr in ("pop", "index", "popitem", "popleft") and not any(o.kind == "set" for o in self.pts(e)) and any(o in self.U for o in self.pts(e)):
                return "an arbitrary element is taken"
            return None
        if isinstance(par, ast.Subscript) and par.value is e and isinstance(par.ctx, ast.Load) and not isinstance(par.slice, ast.Slice):
            if any(o.kind in ("list", "tuple", "extinst") and (o in self.U or self.base(o)) for o in self.pts(e)):
                return "an arbitrary element is taken"
            return None
        if isinstance(par, ast.FormattedValue):
            return None if in_logging(par) else "its text form has arbitrary order"
        if isinstance(par, ast.Assign) and par.value is e and any(isinstance(t, (ast.Tuple, ast.List)) for t in par.targets):
            return "it is unpacked in arbitrary order"
        if isinstance(par, (ast.YieldFrom,)):
            return "its elements are yielded in arbitrary order"
        if isinstance(par, ast.AugAssign) and par.value is e and not self.why(par.target) and not self.tracked(par.target) and any(o.kind == "list" for o in self.pts(par.target)):
            return "a list is extended in arbitrary order"
        return None


def walks(prog, it):
    while isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("list", "iter", "sorted", "tuple", "enumerate") and it.args:
        it = it.args[0]
    m = getattr(it, "_module", None)
    if isinstance(it, ast.Call):
        d = prog.resolve_dotted(m, it.func) if m is not None else None
        return d in ("os.walk", "os.fwalk") or isinstance(it.func, ast.Attribute) and it.func.attr == "walk" and d is None and dotted(it.func) not in ("ast.walk",)
    return False


def inside(n, root):
    while n is not None:
        if n is root:
            return True
        n = getattr(n, "_parent", None)
    return False


def body_of(s):
    par = s._parent
    for b in ("body", "orelse"):
        if s in getattr(par, b, []) if isinstance(getattr(par, b, None), list) else False:
            return getattr(par, b)
    return [s]


def constassign(s):
    return isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant)


def total_key(call):
    """the sort key (if any) tells all elements apart"""
    k = next((k.value for k in call.keywords if k.arg == "key"), None)
    if k is None:
        return True
    if isinstance(k, ast.Name) and k.id in ("str", "repr"):
        return True
    if isinstance(k, ast.Lambda) and k.args.args:
        x = k.args.args[0].arg
        b = k.body
        parts = b.elts if isinstance(b, (ast.Tuple, ast.List)) else [b]
        for q in parts:
            if isinstance(q, ast.Name) and q.id == x:
                return True
            if isinstance(q, ast.Call) and isinstance(q.func, ast.Name) and q.func.id in ("str", "repr") and isinstance(q.args[0], ast.Name) and q.args[0].id == x:
                return True
            if isinstance(q, ast.Attribute) and isinstance(q.value, ast.Name) and q.value.id == x and q.attr in ("name", "path"):
                return True
    if isinstance(k, ast.Call) and dotted(k.func) in ("operator.attrgetter", "attrgetter") and k.args and isinstance(k.args[0], ast.Constant) and k.args[0].value in ("name", "path"):
        return True
    return False


def ambient(d):
    if not isinstance(d, str) or any(d == x or d.startswith(x + ".") for x in NOTAMBIENT):
        return False
    if d in ("id", "hash"):
        return True
    return any(d == x.rstrip(".") if not x.endswith(".") else d.startswith(x) and d != x for x in AMBIENT) or any(d.startswith(x + ".") for x in AMBIENT if not x.endswith("."))


def harmless(prog, e, seen=None):
    """the value of e only reaches log records or lookups by identity"""
    seen = set() if seen is None else seen
    if id(e) in seen:
        return True
    seen.add(id(e))
    n, par = e, getattr(e, "_parent", None)
    while par is not None:
        if isinstance(par, ast.Call):
            if is_logging(par):
                return True
            if isinstance(par.func, ast.Attribute) and par.func.attr in ("add", "discard", "get", "__contains__") and n in par.args[:1] and isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "id":
                return True
            if n is par.func:
                n, par = par, getattr(par, "_parent", None)
                continue
            if isinstance(par.func, ast.Name) and par.func.id in ("round", "str", "int", "float", "abs", "format", "max", "min", "len", "repr", "sum"):
                n, par = par, getattr(par, "_parent", None)
                continue
            return False
        if isinstance(par, ast.Raise):
            return True
        if isinstance(par, ast.Expr):
            return True
        if isinstance(par, ast.Subscript) and par.slice is n and isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "id":
            return True
        if isinstance(par, ast.Compare) and isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "id" and all(isinstance(o, (ast.In, ast.NotIn, ast.Eq, ast.NotEq)) for o in par.ops):
            return True
        if isinstance(par, (ast.Assign, ast.AnnAssign)):
            ts = par.targets if isinstance(par, ast.Assign) else [par.target]
            f = enclosing_func(prog, par)
            if f is None:
                return False
            for t in ts:
                if not isinstance(t, ast.Name):
                    return False
                for u in own_nodes(f):
                    if isinstance(u, ast.Name) and u.id == t.id and isinstance(u.ctx, ast.Load) and not harmless(prog, u, seen):
                        return False
            return True
        if isinstance(par, ast.AugAssign):
            return False
        if isinstance(par, (ast.BinOp, ast.UnaryOp, ast.FormattedValue, ast.JoinedStr, ast.Attribute, ast.keyword, ast.IfExp, ast.Starred, ast.Tuple)):
            n, par = par, getattr(par, "_parent", None)
            continue
        return False
    return False


def run(prog, rep, tier):
    p = build_pta(prog, all_methods=True)
    rep.rule("order-fixed: a set or an unsorted directory listing is never iterated, joined, indexed or serialised where the order matters")
    rep.rule("no-ambient-source: clocks, random numbers, process identity and environment only feed log records")
    rep.rule("no-location-leak: the name of the temporary directory is not in the returned tokens")
    reach = {f for f, c in p.reach(p.roots + [(None, "<api>")]) if isinstance(f, Func)}
    # validators and serializers are called by the model library
    reach |= {f for f in prog.by_node.values() if isinstance(f, Func) and (f.decorators or f.cls is not None and f.cls.ext_bases() or f.name.startswith("__"))}
    for _ in range(3):
        reach |= {f for f in prog.by_node.values() if isinstance(f, Func) and f.parent in reach}
    O = Order(prog, p)
    nsites = 0
    for m in prog.modules.values():
        if m.name.split(".")[-1].startswith("_") and m.name.split(".")[-1] != "__init__":
            continue
        for n in ast.walk(m.tree):
            if main_only(n):
                continue
            if isinstance(n, ast.expr) and isinstance(getattr(n, "ctx", ast.Load()), ast.Load):
                f = enclosing_func(prog, n)
                if f is not None and f not in reach:
                    continue
                w = O.why(n)
                if not w:
                    continue
                nsites += 1
                s = O.sensitive(n)
                where = f.qual if f else m.name
                rep.check(s is None, "order-fixed", f"{where}: {src_of(n, 60)}", f"{loc(n)} in {where}: {src_of(n)} is {w}; {s}")
            if isinstance(n, ast.For) and isinstance(n.target, ast.Tuple) and len(n.target.elts) >= 3 and walks(prog, n.iter):
                f = enclosing_func(prog, n)
                if f is not None and f not in reach:
                    continue
                nsites += 1
                fixed = O.walk_fixed(n) or O.body_insensitive(n.body, f, n)
                rep.check(fixed, "order-fixed", f"{f.qual if f else m.name}: {src_of(n.iter, 60)}",
                          f"{loc(n)} in {f.qual if f else m.name}: {src_of(n.iter)} visits directories in file-system order and the loop does not fix the order")
    # returned values
    names = 0
    for nm in ("process", "parse", "build", "to_json"):
        pass
    out = results(p)
    for o, via in out.items():
        w = O.base(o) or O.U.get(o)
        if w:
            site = o.site if isinstance(o.site, ast.AST) else None
            rep.check(False, "order-fixed", f"result: {src_of(site, 60) if site is not None else o}", f"{loc(site) if site is not None else '?'}: {src_of(site) if site is not None else o} is {w} and is reachable from the returned tokens")
    # ambient sources
    refs = 0
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if not isinstance(n, (ast.Name, ast.Attribute)) or isinstance(getattr(n, "_parent", None), ast.Attribute) or not isinstance(n.ctx, ast.Load) or main_only(n):
                continue
            f = enclosing_func(prog, n)
            if isinstance(n, ast.Name) and f is not None and n.id in f.locals and n.id not in f.limports:
                continue
            d = resolve(prog, m, n, f)
            if not ambient(d):
                continue
            if f is not None and (f.name in ("__hash__", "__eq__", "__repr__") or f not in reach):
                continue
            refs += 1
            tgt = n._parent if isinstance(n._parent, ast.Call) and n._parent.func is n else n
            where = f.qual if f else m.name
            rep.check(harmless(prog, tgt), "no-ambient-source", f"{where}: {src_of(tgt, 60)}", f"{loc(n)} in {where}: {src_of(tgt)} brings in {d}, which differs from run to run, and is not only logged")
    # temporary directory name
    leak = 0
    for o, via in out.items():
        if o.kind in ("dict", "inst", "list"):
            for fl, node in list(o.fields.items()):
                if fl == "keys" and False:
                    continue
                if o.kind == "inst" and fl in ("temp_dir", "main_tex_path") and getattr(o.key[0], "name", "") == "ProcessingResult":
                    continue
                for x in p.get(node):
                    if x.kind == "lab" and x.key[0] == "TMP":
                        leak += 1
                        rep.check(False, "no-location-leak", f"{o}.{fl}", f"{loc(o.site) if isinstance(o.site, ast.AST) else '?'}: field {fl} of {src_of(o.site, 60) if isinstance(o.site, ast.AST) else o}, reachable from the returned tokens, may contain the path of the temporary directory")
    rep.check(True, "no-location-leak", f"{len(out)} objects reachable from the results", "")
    rep.check(True, "no-ambient-source", f"{refs} references to ambient sources", "")
    if nsites < 4:
        raise AnalysisBroken(f"only {nsites} unordered values found")
    if len(out) < 100:
        raise AnalysisBroken(f"only {len(out)} objects reachable from the results")
    rep.stats.update(unordered_expressions=nsites, ambient_references=refs, result_objects=len(out), unordered_objects=len(O.U), first_match_loops_with_disjoint_patterns=O.exclusive_loops)
    rep.assumptions.append("dictionaries and library functions other than those listed are deterministic; two different encodings or library versions are a different configuration")


def main_only(n):
    while n is not None:
        if isinstance(n, ast.If) and is_main_guard(n):
            return True
        n = getattr(n, "_parent", None)
    return False


def resolve(prog, m, e, f):
    """dotted name of an expression, local imports included"""
    if isinstance(e, ast.Name):
        g = f
        while g is not None:
            if e.id in g.limports:
                r = prog._res_import(g.limports[e.id])
                return r
            if e.id in g.locals:
                return None
            g = g.parent
        return prog.resolve_dotted(m, e)
    if isinstance(e, ast.Attribute):
        r = resolve(prog, m, e.value, f)
        if isinstance(r, str):
            return r + "." + e.attr
        if isinstance(r, Module):
            return prog.resolve_global(r.name, e.attr)
    return None


def results(p):
    """objects reachable from what the API returns: {obj: parent}"""
    seen, todo = {}, []
    for n in [p.result_node, ("T", "api", "tokens")]:
        for o in p.get(n):
            if o not in seen:
                seen[o] = None
                todo.append(o)
    for k in ("build", "to_json", "parse", "process"):
        m, ctx = p.entry[k]
        for o in p.get(("R", m, ctx)):
            if o not in seen:
                seen[o] = None
                todo.append(o)
    while todo:
        o = todo.pop()
        if o.kind in ("func", "class", "module", "bound", "lab", "str"):
            continue
        for fl, node in list(o.fields.items()):
            if fl == "labels":
                continue
            for x in p.get(node):
                if x not in seen:
                    seen[x] = o
                    todo.append(x)
    return seen
