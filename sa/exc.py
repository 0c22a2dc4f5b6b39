"""Exception class relations (builtins, standard library, package classes)."""
import builtins
import importlib
from .core import *

ALIAS = {"IOError": "OSError", "EnvironmentError": "OSError", "error": "re.error"}
TOPS = ("BaseException", "Exception")


def _std(name):
    name = ALIAS.get(name, name)
    c = getattr(builtins, name, None)
    if isinstance(c, type) and issubclass(c, BaseException):
        return c
    if "." in name:
        mod, _, cl = name.rpartition(".")
        if mod.split(".")[0] in ("json", "tarfile", "zipfile", "gzip", "re", "zlib", "lzma", "bz2", "shutil", "subprocess", "socket", "struct", "codecs", "os", "io"):
            try:
                c = getattr(importlib.import_module(mod), cl, None)
            except Exception:
                return None
            if isinstance(c, type) and issubclass(c, BaseException):
                return c
    return None


class Exc:
    """name -> chain of superclass names"""

    def __init__(self, prog):
        self.prog = prog

    def name_of(self, module, e):
        """canonical name of an exception class expression"""
        r = self.prog.resolve_dotted(module, e) if isinstance(e, (ast.Name, ast.Attribute)) else None
        if isinstance(r, Class):
            return r.full
        if isinstance(r, str):
            r = ALIAS.get(r, r)
            return r[9:] if r.startswith("builtins.") else r
        return None

    def known(self, name):
        return name in self.prog.classes or _std(name) is not None

    def supers(self, name):
        c = self.prog.classes.get(name)
        if c is not None:
            out = [x.full if isinstance(x, Class) else ALIAS.get(x, x).replace("builtins.", "") for x in c.mro()]
            for x in list(out):
                s = _std(x)
                if s:
                    out += [b.__name__ if b.__module__ == "builtins" else b.__module__ + "." + b.__name__ for b in s.__mro__]
            return out
        s = _std(name)
        if s:
            return [name] + [b.__name__ if b.__module__ == "builtins" else b.__module__ + "." + b.__name__ for b in s.__mro__]
        return [name, "Exception", "BaseException"]

    def sub(self, a, b):
        return ALIAS.get(b, b) in self.supers(a) or a == b

    def match(self, exc, handler_names):
        """-> (caught exc or None, residual exc or None)"""
        for h in handler_names:
            if self.sub(exc, h):
                return exc, None
        caught = [h for h in handler_names if self.sub(h, exc)]
        if caught:
            if exc == "BaseException" and "Exception" in caught:
                return "Exception", "KeyboardInterrupt"
            return caught[0] if len(caught) == 1 else exc, exc
        return None, exc

    def handler_names(self, module, h):
        if h.type is None:
            return ["BaseException"]
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [self.name_of(module, t) or "?" for t in ts]
