"""C16: reading text never fails because of its encoding, text is written as UTF-8 and never contains surrogates."""
import ast
from ..core import *
from ..drive import build_pta
from ..slice import own_nodes, defs_of
from ..fold import Fold, UNK, comp_values
from ..dom import conditions

NOTE = ("Every decode site (text-mode open and its reads, read_text, bytes.decode, str(bytes, ..)) of the functions reachable from the public API must be total: an error policy that replaces, an encoding "
        "every byte sequence can be decoded with, or a handler for UnicodeError (and LookupError when the encoding is computed) that goes on to a total decode. Text-mode writes name UTF-8. "
        "Characters computed with chr() are kept out of the surrogate range, which UTF-8 cannot encode.")

TOTAL_ERRORS = {"replace", "backslashreplace", "namereplace", "xmlcharrefreplace"}
LOSSY = {"ignore": "drops the bytes instead of replacing them", "surrogateescape": "produces surrogates, which cannot be written as UTF-8", "surrogatepass": "produces surrogates, which cannot be written as UTF-8"}
TOTAL_ENC = {"latin-1", "latin1", "latin_1", "iso-8859-1", "iso8859-1", "iso_8859_1", "l1", "cp437", "cp850", "cp866", "iso-8859-15", "iso-8859-5", "koi8-r", "mac-roman", "macroman", "mac_roman", "raw_unicode_escape0"}
OPEN = {"builtins.open": (1, 3, 4), "open": (1, 3, 4), "io.open": (1, 3, 4), "codecs.open": (1, 2, 3), "gzip.open": (1, 3, 4), "bz2.open": (1, 3, 4), "lzma.open": (1, None, None), "os.fdopen": (1, 3, 4), "zipfile.Path.open": (0, None, None)}
UERR = {"UnicodeDecodeError", "UnicodeError", "ValueError", "Exception", "BaseException"}
WERR = {"UnicodeEncodeError", "UnicodeError", "ValueError", "Exception", "BaseException"}
LERR = {"LookupError", "Exception", "BaseException"}


class Site:
    def __init__(self, node, f, m, enc, errors, what):
        self.node, self.f, self.m, self.enc, self.errors, self.what = node, f, m, enc, errors, what


def arg(call, i, name):
    for k in call.keywords:
        if k.arg == name:
            return k.value
    return call.args[i] if i is not None and len(call.args) > i and not any(isinstance(a, ast.Starred) for a in call.args[:i + 1]) else None


def ext_name(prog, m, e):
    r = prog.resolve_dotted(m, e)
    if r == "open":
        return "open"
    return r if isinstance(r, str) else None


def param_arg(f, name, call):
    """expression a call passes for a parameter (its default when none)"""
    for k in call.keywords:
        if k.arg == name:
            return k.value
    ps = list(f.posargs)
    if f.cls is not None and not f.is_static and ps[:1] in (["self"], ["cls"]) and isinstance(call.func, ast.Attribute):
        ps = ps[1:]
    i = ps.index(name) if name in ps else -1
    if 0 <= i < len(call.args):
        return call.args[i]
    return f.defaults.get(name)


def none(e):
    return None if isinstance(e, ast.Constant) and e.value is None else e


class C16:
    def __init__(self, prog, p, reach):
        self.prog, self.p, self.reach = prog, p, reach
        self.fold = Fold(prog)
        self.callees, self.callers = {}, {}
        nodes = {}
        for m in prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call):
                    nodes[id(n)] = n
        for (s, ctx), fs in p.callees.items():
            self.callees.setdefault(s, set()).update(fs)
        for s, fs in self.callees.items():
            for g in fs:
                if isinstance(g, Func) and s in nodes:
                    self.callers.setdefault(g, []).append(nodes[s])
        self.memo = {}

    def values(self, e, node, f, m):
        if e is None:
            return [None]
        return comp_values(self.fold, e, node, f, m) or [UNK]

    def find(self):
        """-> (reads, writes, encodes, chars)"""
        reads, writes, chars = [], [], []
        for m in self.prog.modules.values():
            for n in ast.walk(m.tree):
                if not isinstance(n, ast.Call):
                    continue
                f = enclosing_func(self.prog, n)
                if f is None or f not in self.reach:
                    continue
                d = ext_name(self.prog, m, n.func)
                last = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
                if d in OPEN or last == "open" and isinstance(n.func, ast.Attribute) and self.pathlike(n):
                    mi, ei, ri = OPEN.get(d, (0, 2, 3))
                    mode = arg(n, mi, "mode")
                    ms = self.values(mode, n, f, m) if mode is not None else ["r" if d not in ("gzip.open", "bz2.open", "lzma.open") else "rb"]
                    for md in ms:
                        md = md if isinstance(md, str) else "r"
                        if "b" in md or d in ("gzip.open", "bz2.open", "lzma.open") and "t" not in md:
                            continue
                        s = Site(n, f, m, arg(n, ei, "encoding"), arg(n, ri, "errors"), "open")
                        (writes if any(c in md for c in "wax") else reads).append(s)
                        if "+" in md:
                            reads.append(s)
                elif last == "read_text" and isinstance(n.func, ast.Attribute):
                    reads.append(Site(n, f, m, arg(n, 0, "encoding"), arg(n, 1, "errors"), "read_text"))
                elif last == "write_text" and isinstance(n.func, ast.Attribute):
                    writes.append(Site(n, f, m, arg(n, 1, "encoding"), arg(n, 2, "errors"), "write_text"))
                elif last == "TextIOWrapper":
                    reads.append(Site(n, f, m, arg(n, 1, "encoding"), arg(n, 2, "errors"), "open"))
                elif last == "decode" and isinstance(n.func, ast.Attribute) and not isinstance(self.prog.resolve_dotted(m, n.func), (Func, Class)):
                    if d in ("codecs.decode",):
                        reads.append(Site(n, f, m, arg(n, 1, "encoding") or ast.Constant("utf-8"), arg(n, 2, "errors"), "decode"))
                    elif not any(isinstance(g, Func) for g in self.callees.get(id(n), ())):
                        reads.append(Site(n, f, m, arg(n, 0, "encoding") or ast.Constant("utf-8"), arg(n, 1, "errors"), "decode"))
                elif last == "str" and isinstance(n.func, ast.Name) and (len(n.args) > 1 or any(k.arg in ("encoding", "errors") for k in n.keywords)):
                    reads.append(Site(n, f, m, arg(n, 1, "encoding") or ast.Constant("utf-8"), arg(n, 2, "errors"), "decode"))
                elif last == "encode" and isinstance(n.func, ast.Attribute) and not any(isinstance(g, Func) for g in self.callees.get(id(n), ())) and d is None:
                    writes.append(Site(n, f, m, arg(n, 0, "encoding") or ast.Constant("utf-8"), arg(n, 1, "errors"), "encode"))
                elif last == "chr" and isinstance(n.func, ast.Name) and d == "chr":
                    chars.append((n, f, m))
        return self.specialise(reads), self.specialise(writes), chars

    def specialise(self, sites, depth=0):
        """a helper that is handed the encoding or the error policy is judged per call"""
        out = []
        for s in sites:
            ps = {x.id for x in (s.enc, s.errors) if isinstance(x, ast.Name) and x.id in s.f.params and not [v for v, _ in defs_of(s.f, x.id)]}
            cs = [c for c in self.callers.get(s.f, ()) if enclosing_func(self.prog, c) in self.reach]
            if not ps or not cs or depth > 3:
                out.append(s)
                continue
            sub = lambda x, c: param_arg(s.f, x.id, c) if isinstance(x, ast.Name) and x.id in ps else x
            new = []
            for c in cs:
                g = enclosing_func(self.prog, c)
                new.append(Site(c, g, g.module, none(sub(s.enc, c)), none(sub(s.errors, c)), s.what))
            out += self.specialise(new, depth + 1)
        return out

    def pathlike(self, n):
        for (s, ctx), fs in ():
            pass
        return any(isinstance(d, str) and d.startswith("pathlib") for d in self.callees.get(id(n), ()))

    def lossy(self, s):
        for v in self.values(s.errors, s.node, s.f, s.m):
            if isinstance(v, str) and v in LOSSY:
                return LOSSY[v]
        return None

    def total(self, s):
        ers = self.values(s.errors, s.node, s.f, s.m)
        encs = self.values(s.enc, s.node, s.f, s.m)
        known = all(isinstance(v, str) for v in encs)
        if s.errors is not None and all(isinstance(v, str) and v in TOTAL_ERRORS for v in ers) and s.enc is not None and known:
            return True
        if s.enc is None:
            return False
        return known and all(v.lower().replace("_", "-") in TOTAL_ENC or v.lower() in TOTAL_ENC for v in encs)

    def eventually(self, s):
        """one of several encodings tried in turn decodes everything"""
        encs = self.values(s.enc, s.node, s.f, s.m) if s.enc is not None else []
        return any(isinstance(v, str) and v.lower() in TOTAL_ENC for v in encs)

    def needs(self, s):
        """exception groups that have to be handled"""
        out = []
        ers = self.values(s.errors, s.node, s.f, s.m)
        if not (s.errors is not None and all(isinstance(v, str) and v in TOTAL_ERRORS for v in ers)):
            out.append(("an undecodable byte", UERR))
        encs = self.values(s.enc, s.node, s.f, s.m)
        if s.enc is not None and not all(isinstance(v, str) for v in encs):
            out.append(("an encoding name Python does not know", LERR))
        return out

    def handlers(self, node, group):
        """innermost enclosing try whose handler catches the group -> (try, handler) or None"""
        child, n = node, getattr(node, "_parent", None)
        while n is not None and not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            if isinstance(n, ast.Try) and any(child is x for x in n.body):
                for h in n.handlers:
                    names = [dotted(t) for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])] if h.type is not None else ["BaseException"]
                    if any(x and x.split(".")[-1] in group for x in names):
                        return n, h
            if isinstance(n, (ast.With, ast.AsyncWith)):
                for it in n.items:
                    c = it.context_expr
                    if isinstance(c, ast.Call) and (dotted(c.func) or "").split(".")[-1] == "suppress" and any((dotted(a) or "").split(".")[-1] in group for a in c.args):
                        return n, None
            child, n = n, getattr(n, "_parent", None)
        return None

    def reading_nodes(self, s):
        """where the decoding of a site happens: the call itself, and for open() the uses of the file inside its with block / function"""
        return [s.node]

    def guarded(self, s, totals, depth=0):
        """every failure of the site is handled by going on to a total decode -> None or what is missing"""
        for what, group in self.needs(s):
            msg = self.recovers(s.node, s.f, group, what, totals, s, frozenset())
            if msg:
                return msg
        return None

    def recovers(self, node, f, group, what, totals, s, seen):
        h = self.handlers(node, group)
        if h is not None:
            t, hd = h
            scope = list(ast.walk(hd)) if hd is not None else []
            end = t.end_lineno
            if hd is not None and any(isinstance(x, ast.Raise) for x in hd.body):
                # re-raised as the last resort: look further out
                return self.recovers(t, f, group, what, totals, s, seen) if not isinstance(hd.body[-1], ast.Raise) or hd.body[-1].exc is None else f"{what} is turned into an error"
            for x in totals:
                if x.f is f and (any(x.node is y for y in scope) or x.node.lineno > end):
                    return None
            # a helper that decodes everything, called afterwards
            for y in own_nodes(f):
                if isinstance(y, ast.Call) and (y in scope or y.lineno > end):
                    for g in self.callees.get(id(y), ()):
                        if isinstance(g, Func) and any(x.f is g for x in totals):
                            return None
            if self.eventually(s):
                return None
            if any(isinstance(x, ast.Return) for x in scope) or hd is None:
                return f"after {what} nothing is read at all"
            return f"after {what} no decoding that cannot fail follows"
        cs = [c for c in self.callers.get(f, ()) if enclosing_func(self.prog, c) in self.reach]
        if f in seen or not cs or len(seen) > 3 or f in {r[0] for r in self.p.roots}:
            return f"{what} makes it fail"
        for c in cs:
            g = enclosing_func(self.prog, c)
            msg = self.recovers(c, g, group, what, totals, s, seen | {f})
            if msg:
                return msg
        return None


def surrogate_guarded(prog, n, f):
    """the result of chr() is compared with the surrogate range (or its code point is), or it cannot be one"""
    names = set()
    par = getattr(n, "_parent", None)
    if isinstance(par, ast.Assign):
        names |= {t.id for t in par.targets if isinstance(t, ast.Name)}
    if isinstance(par, ast.NamedExpr):
        names.add(par.target.id)
    for x in ast.walk(n.args[0]):
        if isinstance(x, ast.Name):
            names.add(x.id)
    for x in own_nodes(f):
        if isinstance(x, ast.Compare):
            cs = [c.value for c in ast.walk(x) if isinstance(c, ast.Constant)]
            vs = {v.id for v in ast.walk(x) if isinstance(v, ast.Name)}
            if vs & names and any(c in (0xD800, 0xDFFF, 0xE000, 0xD7FF) or isinstance(c, str) and len(c) == 1 and 0xD7FF <= ord(c) <= 0xE000 for c in cs):
                return True
            if vs & names and any(isinstance(c, str) and c in ("Cs", "C") for c in cs):
                return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "encode" and {v.id for v in ast.walk(x.func.value) if isinstance(v, ast.Name)} & names:
            return True
        if isinstance(x, ast.Call) and (dotted(x.func) or "").endswith("category") and {v.id for v in ast.walk(x) if isinstance(v, ast.Name)} & names:
            return True
    return False


def doc_number(prog, p, n, f, callers, depth=0, seen=None):
    """the argument of chr() is a number parsed from text (int(..)), not a counter or a table entry"""
    seen = set() if seen is None else seen
    if n is None or depth > 8 or id(n) in seen:
        return False
    seen.add(id(n))
    if isinstance(n, ast.Call):
        if isinstance(n.func, ast.Name) and n.func.id == "int":
            return not all(isinstance(a, ast.Constant) for a in n.args)
        if isinstance(n.func, ast.Name) and n.func.id in ("min", "max", "abs", "round"):
            return any(doc_number(prog, p, a, f, callers, depth + 1, seen) for a in n.args)
        for (s, c), fs in p.callees.items():
            if s == id(n):
                for g in fs:
                    if isinstance(g, Func) and any(doc_number(prog, p, r.value, g, callers, depth + 1, seen) for r in own_nodes(g) if isinstance(r, ast.Return)):
                        return True
        return False
    if isinstance(n, ast.Name):
        ds = [v for v, s in defs_of(f, n.id)] if f is not None else []
        if n.id in ("self", "cls"):
            return False
        if f is not None and n.id in f.params and not ds:
            cs = callers.get(f, ())
            if not cs:
                return True  # a parameter: unknown number
            return any(doc_number(prog, p, param_arg(f, n.id, c), enclosing_func(prog, c), callers, depth + 1, seen) for c in cs)
        return any(isinstance(v, ast.AST) and doc_number(prog, p, v, f, callers, depth + 1, seen) for v in ds)
    return any(doc_number(prog, p, c, f, callers, depth + 1, seen) for c in ast.iter_child_nodes(n) if isinstance(c, ast.expr))


def run(prog, rep, tier):
    p = build_pta(prog, all_methods=True)
    rep.rule("decode-total: no byte sequence and no detected encoding makes a reachable decode site fail or lose the text")
    rep.rule("write-utf8: text is written with an explicit UTF-8 encoding")
    rep.rule("no-surrogates: characters computed from numbers in the document are not surrogates")
    reach = {f for f, c in p.reach(p.roots + [(None, "<api>")]) if isinstance(f, Func)}
    C = C16(prog, p, reach)
    reads, writes, chars = C.find()
    totals = [s for s in reads if C.total(s) and not C.lossy(s)]
    for s in reads:
        where = f"{s.f.qual}: {src_of(s.node, 70)}"
        l = C.lossy(s)
        if l:
            rep.check(False, "decode-total", where, f"{loc(s.node)} in {s.f.qual}: {src_of(s.node)} {l}")
        elif s in totals:
            rep.ok("decode-total", where, "cannot fail")
        elif s.enc is None and s.what != "decode":
            msg = C.guarded(s, totals)
            rep.check(False, "decode-total", where, f"{loc(s.node)} in {s.f.qual}: {src_of(s.node)} decodes with the locale's encoding" + (f"; {msg}" if msg else ""))
        else:
            msg = C.guarded(s, totals)
            rep.check(msg is None, "decode-total", where, f"{loc(s.node)} in {s.f.qual}: {src_of(s.node)}: {msg}")
    for s in writes:
        where = f"{s.f.qual}: {src_of(s.node, 70)}"
        encs = C.values(s.enc, s.node, s.f, s.m)
        ok = s.enc is not None and all(isinstance(v, str) and v.lower().replace("_", "-") in ("utf-8", "utf8", "utf-8-sig", "utf-16", "utf-32") for v in encs)
        if not ok and s.what == "encode":
            ers = C.values(s.errors, s.node, s.f, s.m)
            ok = s.errors is not None and all(isinstance(v, str) and v != "strict" for v in ers) or C.handlers(s.node, WERR) is not None
        if s.enc is None:
            msg = "uses the locale's encoding"
        else:
            msg = "is not written as UTF-8, so characters outside the encoding make it fail"
        rep.check(ok, "write-utf8", where, f"{loc(s.node)} in {s.f.qual}: {src_of(s.node)} {msg}")
    for n, f, m in chars:
        if not n.args or not doc_number(prog, p, n.args[0], f, C.callers):
            rep.ok("no-surrogates", f"{f.qual}: {src_of(n, 60)}", "not a number from the document")
            continue
        rep.check(surrogate_guarded(prog, n, f), "no-surrogates", f"{f.qual}: {src_of(n, 60)}", f"{loc(n)} in {f.qual}: {src_of(n)} can produce a surrogate (U+D800-DFFF), which cannot be written as UTF-8")
    if not reads or not writes:
        raise AnalysisBroken(f"{len(reads)} decode sites and {len(writes)} text writes found")
    rep.stats.update(decode_sites=len(reads), total_decodes=len(totals), text_writes=len(writes), computed_characters=len(chars))
    rep.assumptions.append("chardet returns without raising; text handed over as str by the caller contains no surrogates")
