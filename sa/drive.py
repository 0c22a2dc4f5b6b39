"""Entry points: the public API of the package, called with symbolic arguments."""
from .core import *
from .pta import PTA


def api_roots(prog):
    """public methods of the reader / parser / builder / extractor / token model"""
    reader = prog.need_class("TexReader")
    parser = prog.need_class("LatexParser")
    builder = prog.need_class("TokenBuilder")
    extractor = prog.need_class("TexFileExtractor")
    return reader, parser, builder, extractor


def build_pta(prog, include_parser=True, all_methods=False):
    p = PTA(prog)
    reader, parser, builder, extractor = api_roots(prog)
    inp, out = p.lab("INP"), p.lab("OUTPATH")

    class _Caller:
        func, ctx, module = None, None, type("M", (), {"name": "<api>"})
    caller = _Caller()

    def node(*objs):
        n = ("T", "api") + tuple(id(o) for o in objs)
        for o in objs:
            p.add(n, o)
        return n

    def new(cls):
        n = ("T", "apinew", cls.full)
        p.instantiate(cls, [], {}, cls.node, n, caller)
        return p.obj("inst", cls, id(cls.node), None, site=cls.node)

    r = new(reader)
    res = ("T", "api", "result")
    roots = []

    def call(cls, o, name, args, kwargs=None, ret=None):
        m = prog.need_method(cls, name)
        if m.is_static or m.is_classmethod:
            so = None if m.is_static else p.obj("class", cls)
        else:
            so = o
        ctx = p.invoke(m, so, args, kwargs or {}, None, ret, caller=caller)
        roots.append((m, ctx))
        return (m, ctx)
    p.entry = {}
    p.reader = r
    p.result_node = res
    for nm in ("process", "process_file", "process_folder", "process_compressed"):
        p.entry[nm] = call(reader, r, nm, [node(inp)], ret=res)
    p.entry["to_json"] = call(reader, r, "to_json", [res])
    p.entry["save_to_json"] = call(reader, r, "save_to_json", [res, node(out)])
    p.entry["clear"] = call(reader, r, "clear", [])
    pr = prog.need_class("ProcessingResult")
    p.on(res, lambda o: p.invoke(prog.need_method(pr, "cleanup"), o, [], {}, None, None, caller=caller) if o.kind == "inst" and o.key[0] is pr else None)
    if include_parser:
        p.solve()
        ps = [o for n in r.fields.values() for o in p.get(n) if o.kind == "inst" and o.key[0] is parser]
        bs = [o for n in r.fields.values() for o in p.get(n) if o.kind == "inst" and o.key[0] is builder]
        if not ps or not bs:
            raise AnalysisBroken("the reader no longer holds a parser and a builder")
        po, bo = ps[0], bs[0]
        p.parser, p.builder = po, bo
        toks = ("T", "api", "tokens")
        p.entry["parse"] = call(parser, po, "parse", [node(p.lab_doc)], ret=toks)
        p.entry["parse_file"] = call(parser, po, "parse_file", [node(inp)], ret=toks)
        p.entry["parser_clear"] = call(parser, po, "clear", [])
        call(parser, po, "get_colors", [])
        p.entry["build"] = call(builder, bo, "build", [toks])
        p.entry["from_folder"] = call(extractor, None, "from_folder", [node(inp)])
        p.entry["from_compressed"] = call(extractor, None, "from_compressed", [node(inp)], ret=("T", "api", "fc"))
    p.roots = roots
    p.solve()
    if all_methods:
        # public methods the entry points do not use, called with unknown arguments
        done = set()
        for _ in range(3):
            for o in [o for o in p.objs.values() if o.kind == "inst" and o not in done and isinstance(o.key[0], Class) and "deep" not in o.key]:
                done.add(o)
                for c in o.key[0].mro():
                    if isinstance(c, Class):
                        for m in c.methods.values():
                            if not m.name.startswith("__") and not m.is_static:
                                roots.append((m, p.invoke(m, o, [], {}, None, None, caller=caller)))
            p.solve()
    return p
