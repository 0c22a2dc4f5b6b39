"""C01 document independence: everything processing writes is re-established by clear(), and clear()
runs before each document."""
import ast
from ..core import *
from ..drive import build_pta
from ..state import *
from ..flow import FactFlow, reset_gen, reset_loopgen
from ..pta import CONTAINERS
from .c02 import shared_roots, constant_only

NOTE = ("Points-to + must-effect analysis: the set of (object, field) locations that clear() definitely re-establishes is "
        "computed; every mutation site reachable from parsing/building is an obligation: it may only touch objects that are "
        "not reachable from the reader once those locations are cut.")


def root_of(seen, o):
    while seen.get(o) is not None:
        o = seen[o][0]
    return o


def run(prog, rep, tier):
    p = build_pta(prog)
    rep.rule("reset-covers-writes: each state location written while processing is definitely re-established by clear()")
    rep.rule("reset-equals-initial: the value clear() establishes equals the constructor's")
    rep.rule("reset-before-parse: process_file reaches the parser only after clear()")
    clear_f, clear_ctx = p.entry["clear"]
    mr = MustReset(p)
    eff = mr.func(clear_f, clear_ctx)
    cut = frozenset(k for k in eff if k[0] == "attr")
    content = {o for k in eff if k[0] == "content" for o in p.get(k[1].fields.get(k[2], ("none",)))}
    contentkeys = {(k[1], k[2]) for k in eff if k[0] == "content"}
    shared = shared_roots(p, prog)
    seen = reachable(p, [p.reader] + list(shared), cut, content)
    reads = attr_reads(prog)
    # functions that run while a document is processed
    proc_roots = [p.entry[n] for n in ("process", "process_file", "process_folder", "process_compressed")]
    reach = p.reach(proc_roots)
    rep.stats.update(reset_locations=len(cut), reset_contents=len(contentkeys), persistent_objects=len(seen), contexts=len(reach))
    if len(cut) + len(contentkeys) < 5:
        raise AnalysisBroken("clear() resets fewer than 10 locations: reset path not understood")
    clear_reach = p.reach([p.entry["clear"]])
    done = {}
    for site, f, ctx, recv, field, op in p.mut:
        if f is None or (f, ctx) not in reach:
            continue
        objs = [recv] if not isinstance(recv, tuple) else list(p.get(recv))
        for o in objs:
            if o not in seen or constant_only(f, p):
                continue
            if op in ("attr", "augattr", "delattr"):
                if o.kind != "inst":
                    continue
                okk = ("attr", o, field) in cut or (o, field) in contentkeys or field not in reads
                name = f"{o.key[0].name}.{field}"
            elif o.kind in CONTAINERS and o.kind != "tuple":
                okk = o in content
                name = path_to(seen, o)
                if name.startswith(o.kind + ":"):
                    name = next((shared[x] for x in [root_of(seen, o)] if x in shared), name)
            else:
                continue
            key = name
            d = done.get(key)
            if d is None or (d[0] and not okk):
                done[key] = (okk, site, f, name)
    for okk, site, f, name in done.values():
        rep.check(okk, "reset-covers-writes", name,
                  f"{loc(site)} in {f.qual}: {src_of(site)} writes {name}, which clear() does not re-establish on every path: it survives into the next document")
    # locations that are written and cut: obligations discharged by the reset
    for k in sorted(cut, key=lambda k: (k[1].key[0].full, k[2]) if k[1].kind == "inst" else ("", k[2])):
        if k[1].kind == "inst":
            rep.ok("reset-covers-writes", f"{k[1].key[0].name}.{k[2]} re-established by clear()")
    # equality with the constructor's value
    mi = MustReset(p)
    for o in {k[1] for k in cut if k[1].kind == "inst"}:
        init = o.key[0].find_method("__init__")
        if init is None:
            continue
        mi.func(init, p.ctx_for(init, o))
    for k in cut:
        if k[1].kind != "inst":
            continue
        iv = [normalize_fresh(v) for _, v in mi.values.get(k, [])]
        cv = [normalize_fresh(v) for f, v in mr.values.get(k, [])]
        name = f"{k[1].key[0].name}.{k[2]}"
        if len(iv) >= 1 and len(cv) >= 1 and iv[-1] is not None and cv[-1] is not None:
            rep.check(iv[-1] == cv[-1], "reset-equals-initial", name,
                      f"constructor sets {name} to {iv[-1]}, clear() sets it to {cv[-1]}")
    for o, a in contentkeys:
        if o.kind != "inst":
            continue
        iv = [normalize_fresh(v) for _, v in mi.values.get(("attr", o, a), [])]
        if iv and iv[-1] is not None:
            rep.check(len(iv[-1]) == 1 or iv[-1][0] == "c", "reset-equals-initial", f"{o.key[0].name}.{a}",
                      f"constructor fills {o.key[0].name}.{a} with {iv[-1]}, clear() leaves it empty")
    # clear() before parse
    pf, pctx = p.entry["process_file"]
    parser_cls = prog.need_class("LatexParser")
    parse_fns = {prog.need_method(parser_cls, "parse_file"), prog.need_method(parser_cls, "parse")}

    need = {(k[1], k[2]) for k in cut} | contentkeys
    uses = {}

    def query(nd, f, ctx, facts):
        if isinstance(nd, ast.Call) and any(o.kind == "bound" and o.key[0] in parse_fns for o in p.get(("E", id(nd.func), ctx))):
            miss = need - facts
            if id(nd) not in uses or miss:
                uses[id(nd)] = (nd, f, miss)
    FactFlow(p, reset_gen(p, mr), query, skip=lambda f: f.cls is parser_cls and f in parse_fns, loopgen=reset_loopgen(p, mr)).run(pf, pctx)
    if not uses:
        raise AnalysisBroken("process_file no longer reaches the parser")
    for call, f, miss in uses.values():
        names = sorted({f"{o.key[0].name}.{a}" for o, a in miss if o.kind == "inst"})
        rep.check(not miss, "reset-before-parse", f"{f.full}: {src_of(call, 60)}",
                  f"{loc(call)}: {src_of(call)} is reached on a path on which {', '.join(names[:5])} has not been re-established")
    rep.assumptions += ["logging has no influence on output", "objects are not modified through __dict__"]
