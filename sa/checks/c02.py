"""C02 instances are independent: nothing reachable from module globals, class attributes or default
arguments is mutated by any function of the public API's call graph."""
import ast
from ..core import *
from ..drive import build_pta
from ..state import *
from ..pta import CONTAINERS

NOTE = ("Points-to analysis of the whole package from its public entry points; every mutation site (attribute store, "
        "item store, mutating container method, del, global store) in a reachable function is an obligation: its receiver "
        "may not be an object reachable from a module global, a class attribute or a default argument.")


def constant_only(f, p):
    """function whose result cannot depend on a document or an instance: no parameter besides the class"""
    if f is None:
        return True
    return f.is_classmethod and len(f.params) == 1 or (f.cls is None and f.parent is None and not f.params) or (f.is_static and not f.params)


def shared_roots(p, prog):
    roots = {}
    for n, s in list(p.pts.items()):
        if n[0] == "G":
            for o in s:
                if o.kind in CONTAINERS or o.kind in ("inst",):
                    roots.setdefault(o, f"module global {n[1]}.{n[2]}")
        elif n[0] == "D":
            for o in s:
                if o.kind in CONTAINERS or o.kind == "inst":
                    roots.setdefault(o, f"default value of parameter {n[2]} of {n[1].qual}")
    for o in list(p.objs.values()):
        if o.kind == "class":
            for f, n in o.fields.items():
                for x in p.get(n):
                    if x.kind in CONTAINERS or x.kind == "inst":
                        roots.setdefault(x, f"class attribute {o.key[0].name}.{f}")
    # results of memoised functions are shared between all callers
    for f in [x for x in prog.by_node.values() if isinstance(x, Func)]:
        if any(d and d.split(".")[-1] in ("lru_cache", "cache", "cached") for d in f.decorators):
            for n, s in list(p.pts.items()):
                if n[0] == "R" and n[1] is f:
                    for o in s:
                        if o.kind in CONTAINERS or o.kind == "inst":
                            roots.setdefault(o, f"memoised result of {f.qual}")
    return roots


def run(prog, rep, tier):
    p = build_pta(prog, all_methods=True)
    rep.rule("no-shared-mutation: receiver of a mutation in an API-reachable function is never shared between instances")
    rep.rule("no-global-store: no global/class attribute is rebound at run time (constants-only caches excepted)")
    roots = shared_roots(p, prog)
    seen = reachable(p, roots)
    reach = {f for f, c in p.reach(p.roots + [(None, "<api>")]) if f is not None}
    rep.stats.update(points_to_nodes=len(p.pts), functions_reached=len(reach), shared_objects=len(seen), mutation_sites=len({id(m[0]) for m in p.mut}))
    done = {}
    for site, f, ctx, recv, field, op in p.mut:
        if f is None or f not in reach:
            continue
        key = (id(site), op)
        if op == "global":
            ok = constant_only(f, p)
            why = f"rebinds module global {field[0]}.{field[1]}"
            objs = []
        else:
            objs = [recv] if not isinstance(recv, tuple) else list(p.get(recv))
            ok, why = True, ""
            for o in objs:
                if op in ("attr", "augattr", "delattr"):
                    if o.kind == "class" and not constant_only(f, p):
                        ok, why = False, f"stores class attribute {o.key[0].name}.{field}"
                    elif o.kind == "inst" and o in seen and not is_ctor_self(site, f, o):
                        ok, why = False, f"stores attribute {field} of shared object {describe(seen, roots, o)}"
                    elif o.kind == "module":
                        ok, why = False, f"stores module attribute {field}"
                elif o in seen and (o.kind in CONTAINERS):
                    if op == "augcontainer" and o.kind == "tuple":
                        continue
                    if constant_only(f, p):
                        continue
                    ok, why = False, f"mutates shared object {describe(seen, roots, o)}"
        prev = done.get(key)
        if prev is None or (prev[0] and not ok):
            done[key] = (ok, why, site, f)
    for ok, why, site, f in done.values():
        rep.check(ok, "no-shared-mutation", f"{f.full}: {src_of(site, 70)}", f"{loc(site)} in {f.qual}: {src_of(site)} {why}")
    # positive control: the rule must see the class-level / global objects at all
    if len(seen) < 20:
        raise AnalysisBroken("fewer than 20 shared objects found")
    if len(done) < 100:
        raise AnalysisBroken("fewer than 100 mutation sites found")
    rep.assumptions += ["methods of external library objects do not mutate package objects they are not given",
                        "attributes are not accessed through __dict__ / exec"]


def is_ctor_self(site, f, o):
    return False


def describe(seen, roots, o):
    path = []
    x = o
    while seen.get(x) is not None:
        par, fl = seen[x]
        path.append(str(fl))
        x = par
    return roots.get(x, repr(x)) + ("[" + ".".join(reversed(path)) + "]" if path else "")
