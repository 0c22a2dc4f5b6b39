"""C03 building never alters the parsed tokens, and numbering restarts with each build."""
import ast
from ..core import *
from ..drive import build_pta
from ..state import *
from ..flow import FactFlow, reset_gen
from ..pta import PTA, CONTAINERS

NOTE = ("Points-to analysis of the builder on an opaque token tree: every mutation site reachable from build() is an obligation, its "
        "receiver may not be (part of) the caller's tree; must-assigned dataflow: every builder state location that a build writes is "
        "re-established by that build before it is read.")


def run(prog, rep, tier):
    rep.rule("input-not-mutated: no mutation reachable from build()/organize_content() has the caller's tree (outside deep copies) as receiver")
    rep.rule("state-reset-first: builder state written during a build is definitely assigned before its first read of that build")
    builder = prog.need_class("TokenBuilder")
    p = PTA(prog)

    class _Caller:
        func, ctx, module = None, None, type("M", (), {"name": "<api>"})
    caller = _Caller()
    p.instantiate(builder, [], {}, builder.node, ("T", "api", "b"), caller)
    b = p.obj("inst", builder, id(builder.node), None, site=builder.node)
    inp = p.obj("input", "tokens")
    n = ("T", "api", "in")
    p.add(n, inp)
    m = prog.need_method(builder, "build")
    entries = []
    for name in ("build", "organize_content"):
        m = builder.find_method(name)
        if m:
            entries.append((m, p.invoke(m, b, [n], {}, None, ("T", "api", "out", name), caller=caller)))
    p.solve()
    reach = p.reach(entries)
    rep.stats["functions_reached"] = len({f for f, c in reach})
    done = {}
    for site, f, ctx, recv, field, op in p.mut:
        if f is None or (f, ctx) not in reach:
            continue
        objs = [recv] if not isinstance(recv, tuple) else list(p.get(recv))
        bad = [o for o in objs if o.kind == "input" and not (o.key and o.key[0] == "deep")]
        k = (id(site), op)
        if k not in done or (done[k][0] and bad):
            done[k] = (not bad, site, f)
    for ok, site, f in done.values():
        rep.check(ok, "input-not-mutated", f"{f.full}: {src_of(site, 70)}",
                  f"{loc(site)} in {f.qual}: {src_of(site)} modifies the token tree the caller passed to the builder")
    if len(done) < 10:
        raise AnalysisBroken("fewer than 10 mutation sites in the builder's call graph")
    # ---- builder state
    written = set()
    for site, f, ctx, recv, field, op in p.mut:
        if f is None or (f, ctx) not in reach:
            continue
        objs = [recv] if not isinstance(recv, tuple) else list(p.get(recv))
        for o in objs:
            if op in ("attr", "augattr", "delattr") and o.kind == "inst" and o in _own(p, b):
                written.add((o, field))
            elif o.kind in CONTAINERS:
                for ow in _own(p, b):
                    for fl, nd in ow.fields.items():
                        if isinstance(fl, str) and o in p.get(nd):
                            written.add((ow, fl))
    mr = MustReset(p)
    reads = {}

    def query(nd, f, ctx, facts):
        if isinstance(nd, ast.Attribute):
            for o in p.get(("E", id(nd.value), ctx)):
                if (o, nd.attr) in written:
                    k = (o, nd.attr)
                    ok = k in facts
                    prev = reads.get((k, id(nd)))
                    if prev is None or (prev[0] and not ok):
                        reads[(k, id(nd))] = (ok, nd, f)
    for f, ctx in entries:
        FactFlow(p, reset_gen(p, mr), query).run(f, ctx)
    for (k, _), (ok, nd, f) in reads.items():
        rep.check(ok, "state-reset-first", f"{k[0].key[0].name}.{k[1]} read in {f.qual}",
                  f"{loc(nd)} in {f.qual}: {src_of(nd)} is read on a path of build() on which this build has not re-established it (a second build continues the first one's value)")
    rep.stats["builder_state_locations"] = len(written)
    if not reads:
        raise AnalysisBroken("no read of builder state was reached")
    rep.assumptions += ["copy.deepcopy copies the whole tree"]


def _own(p, b):
    if not hasattr(p, "_own_memo"):
        p._own_memo = {o for o in reachable(p, [b]) if o.kind == "inst"}
    return p._own_memo
