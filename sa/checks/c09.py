"""C09: (1) every token shape, with labels and styles added, is pushed through the abstract interpretation of TokenBuilder.build:
the output model must get them, and the numbering / title / nested tokens it declares; (2) where two text tokens are merged the
labels of both are used; (3) the serialisers (model_dump overrides, serialize_value, the JSON call) drop nothing but None."""
import ast
from ..core import *
from ..tokcheck import *
from ..tokout import LABELS
from ..tokshape import freeze
from ..slice import own_nodes, defs_of
from ..dom import conditions
from ..model import is_model
from .. import ai as A

NOTE = "abstract interpretation (token -> model field flow) + serializer lint (dominance, access paths)"
BADKW = {"include", "exclude", "exclude_unset", "exclude_defaults", "by_alias_only"}


def withkeys(v):
    d = {k: (a, m) for k, a, m in v[1]}
    for k in ("labels", "styles"):
        d[k] = (frozenset({LABELS}), True)
    return ("dict", tuple(sorted(((k, a, m) for k, (a, m) in d.items()), key=lambda z: z[0])), v[2])


def hastok(vals):
    return any(x[0] == "tok" or x[0] == "dict" and any(k == "type" for k, _, _ in x[1]) or x[0] == "list" and hastok(x[1]) for x in vals)


def filled(vals):
    return any(x[0] != "none" and not (x[0] == "list" and (x[3] == 0 or not x[1])) for x in vals)


def keepsnested(vals):
    return any(x[0] in ("tok", "model", "top", "dict", "map") or x[0] == "str" and x[1] is None or x[0] == "list" and keepsnested(x[1]) for x in vals)


def carry(prog, rep, c, shapes, o):
    M = o.models
    rep.rule("labels-styles: every output model gets the labels and styles of its token")
    rep.rule("nested-kept: title, content and placeholders that the model declares are filled from the token")
    rep.rule("nested-converted: nested tokens are turned into their own models before they are given to the model that holds them")
    rep.rule("title-declared: a token type whose handler writes a title has a model that declares it")
    rep.rule("numbering-kept: numbering (and list depth) reaches the model of every type that declares it")
    sites, done, built, names = {}, set(), {}, {}
    for x, key, where, top in all_shapes(c, shapes):
        vs = [(t, n, v) for t, n, v in variants(x) if t in o.typemap]
        if any(k == "title" and filled(a) for k, a, m in (x[1] if x[0] == "dict" else ())):
            s = sites.setdefault(x[2], [set(), key, where])
            s[0].update(t for t, _, _ in vs)
        for ty, n, v in vs:
            if (ty, v[1]) in done:
                continue
            done.add((ty, v[1]))
            cls = o.typemap[ty]
            fs = M.fields(cls)
            made = [m for m in o.run(withkeys(v)) if m[0] is cls]
            d = {k: (a, m) for k, a, m in v[1]}
            for _, got, e, fu in made:
                for k, val in got.items():
                    built.setdefault((ty, k), [cls, False, where])[1] |= filled(val[0])
                for k in ("labels", "styles"):
                    g = got.get(k)
                    rep.check(k in fs and g is not None and g[1] and g[0] and all(s[0] in ("list", "top") and s[0:1] != ("none",) and s != ("list", frozenset(), 0, 0) for s in g[0]),
                              "labels-styles", f"{cls.name}.{k}", f"the {k} of a {ty!r} token ({where}) do not reach {cls.name} ({loc(e)} in {fu.qual}): "
                              + ("the model does not declare the field" if k not in fs else "not passed" if g is None else f"passed as {sorted(shape_text(s) for s in g[0])}"))
            for k in ("title", "content", "placeholders"):
                if k not in d or k not in fs or not made:
                    continue
                src = d[k][0]
                got = [m[1][k] for m in made if k in m[1]]
                if filled(src):
                    rep.check(any(filled(g[0]) for g in got), "nested-kept", f"{cls.name}.{k} from {key}",
                              f"{where}: the {k} of a {ty!r} token never reaches {cls.name}.{k} ({loc(made[0][2])} in {made[0][3].qual})")
                if holds(M.typ(fs[k][0], fs[k][1]), o.prog.need_class("BaseToken")):
                    for m in made:
                        raw = k in m[1] and hastok(m[1][k][0])
                        rep.check(not raw, "nested-converted", f"{cls.name}.{k}", f"{where}: {k} of a {ty!r} token is given to {cls.name} unconverted ({loc(m[2])} in {m[3].qual}): the model turns the nested tokens into plain {cls.name}.{k} elements of the declared type and the fields of their own types are lost")
                if hastok(src) and filled(src):
                    rep.check(any(keepsnested(g[0]) for g in got) or not any(filled(g[0]) for g in got), "nested-kept", f"{cls.name}.{k} elements",
                              f"{where}: no nested token of the {k} of a {ty!r} token survives in {cls.name}.{k} ({loc(made[0][2])} in {made[0][3].qual})")
    for site, (ts, key, where) in sorted(sites.items(), key=str):
        ok = any("title" in M.fields(o.typemap[t]) for t in ts)
        rep.check(ok or not ts, "title-declared", f"{'/'.join(sorted(ts)[:3])} from {key}", f"{where}: the title put on {sorted(ts)} tokens is declared by none of {sorted(o.typemap[t].name for t in ts)}: it is dropped from the output")
    for (ty, k), (cls, ok, where) in sorted(built.items(), key=lambda t: t[0]):
        if k in M.fields(cls):
            names.setdefault(k, []).append(ty)
    kinds = set()
    for ty, cls in sorted(o.typemap.items()):
        for k in ("numbering", "depth"):
            if k in cls.ann and any(t == ty for t, _ in built):
                kinds.add(k)
                b = built.get((ty, k))
                rep.check(b is not None and b[1], "numbering-kept", f"{cls.name}.{k}",
                          f"{cls.name} declares {k} but no {ty!r} token ever brings a value for it: TokenBuilder does not set it or the conversion drops it")
    # what the builder writes must be declared
    for f in prog.funcs.values():
        if f.cls is o.builder or f.parent is not None and f.parent.cls is o.builder:
            for n in own_nodes(f):
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str) and n.slice.value in ("numbering", "depth", "proof"):
                    k = n.slice.value
                    rep.check(any(k in M.fields(x) for x in set(o.typemap.values())), "numbering-kept", f"declared {k}", f"{loc(n)}: TokenBuilder writes {k!r}, which no output model declares")
    for ty, cls in sorted(o.typemap.items()):
        for k in ("numbering", "depth"):
            if (ty, k) in built and k not in M.fields(cls):
                rep.check(not built[ty, k][1], "numbering-kept", f"{cls.name}.{k}", f"a {ty!r} token gets {k} but {cls.name} does not declare it: it is dropped")
    return len(done)


def base_of(e):
    """(base expression, key) of X['key'] / X.get('key')"""
    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant):
        return ast.dump(strip(e.value)), e.slice.value
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("get", "pop", "setdefault") and e.args and isinstance(e.args[0], ast.Constant):
        return ast.dump(strip(e.func.value)), e.args[0].value
    return None


def strip(e):
    e = ast.parse(ast.unparse(e), mode="eval").body
    return e


def merges(rep, prog):
    rep.rule("merge-keeps-labels: where the text of one token is appended to another token's text, its labels are used there too")
    n_ = 0
    for f in prog.funcs.values():
        reads, defs, uses = {}, {}, []
        for n in own_nodes(f):
            if isinstance(n, (ast.Subscript, ast.Call)):
                b = base_of(n)
                if b:
                    reads.setdefault(b, []).append(n)
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                defs.setdefault(n.targets[0].id, []).append(n.value)
        for n in own_nodes(f):
            tgt = val = None
            if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add):
                tgt, val = n.target, n.value
            elif isinstance(n, ast.Assign) and len(n.targets) == 1:
                tgt, val = n.targets[0], n.value
            if tgt is None or not isinstance(tgt, ast.Subscript):
                continue
            t = base_of(tgt)
            if t is None or t[1] != "content":
                continue
            srcs, seen = set(), set()
            todo = [val]
            plus = isinstance(n, ast.AugAssign)
            while todo:
                v = todo.pop()
                for x in ast.walk(v):
                    b = base_of(x) if isinstance(x, (ast.Subscript, ast.Call)) else None
                    if b and b[1] == "content":
                        srcs.add(b[0])
                    if isinstance(x, ast.Name) and x.id not in seen and x.id in defs:
                        seen.add(x.id)
                        todo += defs[x.id]
            # both texts in the new text
            if not (srcs - {t[0]}) or not (plus or t[0] in srcs):
                continue
            for s in srcs - {t[0]}:
                n_ += 1
                src_names = {x.id for x in ast.walk(ast.parse(s) if False else n) if isinstance(x, ast.Name)}
                got = any((s, k) in reads for k in ("labels",))
                if not got:
                    # the source token handed to a function that reads the labels of that parameter
                    for c_ in own_nodes(f):
                        if isinstance(c_, ast.Call):
                            nm = c_.func.attr if isinstance(c_.func, ast.Attribute) else getattr(c_.func, "id", None)
                            if any(ast.dump(strip(a)) == s for a in c_.args):
                                for g in prog.funcs.values():
                                    if g.name == nm and any(isinstance(q, ast.Constant) and q.value == "labels" for q in own_nodes(g)):
                                        got = True
                rep.check(got, "merge-keeps-labels", f.qual, f"{loc(n)} in {f.qual}: {src_of(n, 90)} appends one token's text to another, but the labels of the appended token are not used in this function: they are lost")
    rep.stats["text merges"] = n_
    return n_


def nonefilter(gen, val):
    """comprehension filter that only leaves out None values"""
    for t in gen.ifs:
        ok = False
        for q, pol in ((t, True),):
            while isinstance(q, ast.UnaryOp) and isinstance(q.op, ast.Not):
                q, pol = q.operand, not pol
            if isinstance(q, ast.Compare) and len(q.ops) == 1 and isinstance(q.comparators[0], ast.Constant) and q.comparators[0].value is None and isinstance(q.left, ast.Name) and q.left.id in val:
                ok = isinstance(q.ops[0], (ast.IsNot, ast.NotEq)) == pol
        if not ok:
            return False
    return True


def serializers(rep, prog, o):
    rep.rule("dump-complete: with every field of a model set, model_dump (interpreted on top of the inherited dump) gives back every field, made from that same field")
    rep.rule("dump-nested: every field that can hold tokens is serialised through the tokens' own serializers")
    rep.rule("dump-args: no caller or override restricts the dump (include, exclude, exclude_unset, exclude_defaults)")
    rep.rule("no-filter: serializers and conversions do not filter nested lists except for None")
    models = [c for c in prog.classes.values() if is_model(c)]
    tokenbase = prog.need_class("BaseToken")
    dumps = {}
    for c in models:
        for nm, f in c.methods.items():
            deco = {str(dotted(d.func if isinstance(d, ast.Call) else d)).split(".")[-1] for d in f.node.decorator_list}
            if nm in ("model_dump", "model_dump_json", "dict", "json") or deco & {"model_serializer", "field_serializer"}:
                dumps[f] = c
    # calls of model_dump / super().model_dump everywhere
    for f in list(prog.funcs.values()):
        for n in own_nodes(f):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("model_dump", "model_dump_json"):
                bad = sorted({k.arg for k in n.keywords if k.arg in BADKW} - {k.arg for k in n.keywords if isinstance(k.value, ast.Constant) and not k.value.value})
                rep.check(not bad, "dump-args", f"{f.qual}: {', '.join(bad) or 'dump call'}", f"{loc(n)} in {f.qual}: {src_of(n)} restricts what is dumped with {bad}: fields equal to their default, e.g. the token type, or excluded fields disappear from the JSON")
    for f, c in dumps.items():
        me = f.posargs[0] if f.posargs else "self"
        R = set()
        mine = set(walk_own(f.node))
        kwn = f.node.args.kwarg.arg if f.node.args.kwarg else None
        for n in own_nodes(f):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                v = n.value
                if any(isinstance(q, ast.Call) and isinstance(q.func, ast.Attribute) and q.func.attr == f.name and isinstance(q.func.value, ast.Call) and getattr(q.func.value.func, "id", "") == "super" for q in ast.walk(v)):
                    R.add(n.targets[0].id)
        if not R:
            sup = [q for q in own_nodes(f) if isinstance(q, ast.Call) and isinstance(q.func, ast.Attribute) and q.func.attr == f.name and isinstance(q.func.value, ast.Call)]
            rep.check(bool(sup), "dump-complete", f"{f.qual}: super", f"{loc(f.node)}: {f.qual} does not start from the inherited dump, fields declared by the base models are not written")
            continue
        for n in own_nodes(f):
            if kwn and isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and isinstance(n.slice, ast.Constant):
                if n.slice.value in BADKW:
                    rep.bad("dump-args", f"{f.qual}: {n.slice.value}", f"{loc(n)} in {f.qual}: sets {n.slice.value!r} for the dump")
            if isinstance(n, ast.Assign) and len(n.targets) == 1:
                t, v = n.targets[0], n.value
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in R:
                    k = t.slice.value if isinstance(t.slice, ast.Constant) else None
                    fld = k in o.models.fields(c) if k else True
                    src = slice_mentions(f, v, me)
                    ok = not fld or (k in src if k else "*" in src)
                    rep.check(ok, "dump-complete", f"{f.qual}: {k or src_of(t.slice)} = ..", f"{loc(n)} in {f.qual}: {src_of(n, 90)} re-binds {k or src_of(t.slice)!r} to something that is not made from that field")
    # nested tokens
    for c in sorted(models, key=lambda c: c.name):
        if not c.subclass_of(tokenbase):
            continue
        chain = [k.methods["model_dump"] for k in c.mro() if isinstance(k, Class) and "model_dump" in k.methods]
        for name, (ann, mod, has, _) in o.models.fields(c).items():
            if not holds(o.models.typ(ann, mod), tokenbase):
                continue
            ok = any(rebinds(prog, f, name) for f in chain)
            rep.check(ok, "dump-nested", f"{c.name}.{name}", f"{c.name}.{name} can hold tokens of any type but no model_dump of {c.name} serialises it with the tokens' own serializer: the default dump keeps only the fields of the declared type ({src_of(ann)})")
    # filters in comprehensions of serializers, process functions and the JSON step
    reader = prog.need_class("TexReader")
    scope = [f for f in prog.funcs.values() if (f.cls and (is_model(f.cls) or f.cls is o.factory)) or f.name == "to_json" or f.parent is not None and (f.parent.name == "to_json" or f.parent.cls and is_model(f.parent.cls))]
    for f in scope:
        for n in own_nodes(f):
            if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
                for g in n.generators:
                    names = {q.id for q in ast.walk(g.target) if isinstance(q, ast.Name)} | {q.target.id for t in g.ifs for q in ast.walk(t) if isinstance(q, ast.NamedExpr)}
                    rep.check(not g.ifs or keys_only(n) or all(isinstance(t, ast.Call) and not (isinstance(t.func, ast.Name) and t.func.id in ('bool', 'len', 'any', 'all')) for t in g.ifs) or nonefilter(g, names) or walrus_none(g), "no-filter", f"{f.qual}: {src_of(n, 60)}", f"{loc(n)} in {f.qual}: {src_of(n, 90)} leaves out elements other than None")
    if len(dumps) < 1:
        raise AnalysisBroken("no model_dump override found")


def keys_only(c):
    """goes over names of fields or keys, not over values"""
    if isinstance(c, ast.DictComp) or len(c.generators) != 1:
        return False
    g = c.generators[0]
    if any(isinstance(q, ast.Attribute) and q.attr in ("model_fields", "keys", "__annotations__") for q in ast.walk(g.iter)):
        return isinstance(c.elt, ast.Name)
    return isinstance(g.target, ast.Tuple) and len(g.target.elts) == 2 and isinstance(c.elt, ast.Name) and isinstance(g.target.elts[0], ast.Name) and c.elt.id == g.target.elts[0].id and any(isinstance(q, ast.Attribute) and q.attr == "items" for q in ast.walk(g.iter))


def walrus_none(g):
    for t in g.ifs:
        if not (isinstance(t, ast.Compare) and isinstance(t.left, ast.NamedExpr) and isinstance(t.ops[0], ast.IsNot) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None):
            return False
    return True


def slice_mentions(f, v, me, depth=0):
    """fields of self the value is made from ('*': of a field chosen by a variable)"""
    out = set()
    for x in ast.walk(v):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me:
            out.add(x.attr)
        b = base_of(x) if isinstance(x, (ast.Subscript, ast.Call)) else None
        if b:
            out.add(b[1])
        if isinstance(x, ast.Call) and getattr(x.func, "id", "") == "getattr" and len(x.args) >= 2:
            out.add(x.args[1].value if isinstance(x.args[1], ast.Constant) else "*")
        if isinstance(x, ast.Subscript) and not isinstance(x.slice, ast.Constant):
            out.add("*")
        if isinstance(x, ast.Name) and depth < 6:
            for n in own_nodes(f):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.id for t in n.targets):
                    if n.value is not v:
                        out |= slice_mentions(f, n.value, me, depth + 1)
                elif isinstance(n, (ast.For, ast.comprehension)) and any(isinstance(q, ast.Name) and q.id == x.id for q in ast.walk(n.target)):
                    if depth < 3:
                        out |= slice_mentions(f, n.iter, me, depth + 2)
                        if "items" in ast.dump(n.iter) or "model_fields" in ast.dump(n.iter):
                            out.add("*")
                elif isinstance(n, ast.NamedExpr) and n.target.id == x.id:
                    out |= slice_mentions(f, n.value, me, depth + 1)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert") and isinstance(n.func.value, ast.Name) and n.func.value.id == x.id:
                    for a in n.args:
                        out |= slice_mentions(f, a, me, depth + 1)
    return out


def holds(t, base):
    """the type can hold tokens"""
    if t is None:
        return False
    if t[0] == "model":
        return t[1].subclass_of(base)
    return any(holds(x, base) for y in t[1:] for x in (y if isinstance(y, tuple) and y and isinstance(y[0], tuple) else [y]) if isinstance(x, tuple))


def rebinds(prog, f, name):
    """the serializer re-binds `name` with a value made by a token serializer, or delegates everything to a helper"""
    for n in own_nodes(f):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
            t = n.targets[0]
            calls = [q for q in ast.walk(n.value) if isinstance(q, ast.Call)]
            if isinstance(n.value, ast.Name):
                calls += [q for m in own_nodes(f) if isinstance(m, (ast.Assign, ast.Call)) for q in ast.walk(m) if isinstance(q, ast.Call)]
            if not calls:
                continue
            if isinstance(t.slice, ast.Constant):
                if t.slice.value == name:
                    return True
            else:
                v = ast.dump(t.slice).replace("Store()", "Load()")
                skip = False
                for test, pol, _ in conditions(n):
                    for q in ast.walk(test):
                        if isinstance(q, ast.Compare) and ast.dump(q.left) == v and any(isinstance(z, ast.Constant) and z.value == name for cc in q.comparators for z in ast.walk(cc)):
                            skip = True
                if not skip:
                    return True
    for n in own_nodes(f):
        if isinstance(n, ast.DictComp) and any(isinstance(q, ast.Call) for q in ast.walk(n.value)):
            return True
    return False


class Dump(A.Client):
    """super().model_dump() answered with every declared field, none of them None"""

    def __init__(self, fields):
        self.fields = fields

    def call(self, e, fr, st, ts, recv, args, kw, ai):
        fn = e.func
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and getattr(fn.value.func, "id", "") == "super" and fn.attr == fr.func.name:
            if not ts:
                st, r = A.alloc(st, (id(e), "dump"), A.dictcell({k: (frozenset({("pat", f"<f:{k}>", 0)}), True) for k in self.fields}))
                return [(st, frozenset({r}))]
            return None
        if isinstance(fn, ast.Attribute) and fn.attr in ("model_dump", "dict", "serialize_value"):
            return [(st, frozenset({("pat", "<dumped>", 0)}))]


def complete(rep, p, o, models):
    n = 0
    for c in sorted(models, key=lambda c: c.name):
        f = c.find_method("model_dump")
        if f is None:
            continue
        flds = o.models.fields(c)
        ai = A.AI(p, Dump(flds))
        args = {x: A.TOP for x in f.posargs}
        if f.node.args.kwarg:
            args[f.node.args.kwarg.arg] = A.TOP
        for st, v in ai.run(f, None, args, A.S()):
            for a in v:
                d = st.heap.get(a) if a[0] == "ref" else None
                if a == A.NONE or a[0] in ("str", "int", "bool"):
                    rep.bad("dump-complete", f"{f.qual} for {c.name}", f"{loc(f.node)}: {f.qual} of a {c.name} can give back {shape_text(a) if a[0] != 'int' else 'a number'} and not the dumped fields")
                if not d or d[0] != "dict":
                    rep.stats["dumps not decided"] = rep.stats.get("dumps not decided", 0) + (a[0] == "top")
                    continue
                n += 1
                have = dict(d[1])
                lost = sorted(k for k in flds if k not in have or not have[k][1])
                rep.check(not lost, "dump-complete", f"{f.qual}: {', '.join(lost) or 'all fields'}" + ("" if lost else f" of {c.name}"),
                          f"{loc(f.node)}: {f.qual} can leave out {', '.join(lost)} of a {c.name} although the value is not None")
                for k in flds:
                    if k in have:
                        wrong = sorted({x[1][3:-1] for x in have[k][0] if x[0] == "pat" and x[1].startswith("<f:")} - {k})
                        const = [x for x in have[k][0] if x == A.NONE or x[0] in ("str", "int", "bool")]
                        rep.check(not wrong and not const, "dump-complete", f"{f.qual}: {k} of {c.name}", f"{loc(f.node)}: {f.qual} writes {'the field ' + wrong[0] if wrong else 'a constant'} as {k} of a {c.name}")
    rep.stats["dump paths"] = n


class Ser(A.Client):
    def __init__(self, tokenbase, self_f):
        self.base, self.f = tokenbase, self_f

    def isinst(self, a, classes, names, node, fr):
        if a[0] == "pat" and a[1] == "<model>":
            if any(self.base.subclass_of(c) for c in classes):
                return True
            return None if classes else False
        return None

    def call(self, e, fr, st, ts, recv, args, kw, ai):
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("model_dump", "dict") and recv and all(a[0] == "pat" for a in recv):
            return [(st, frozenset({("pat", "<dumped>", 0)}))]
        if ts and all(t[0] is self.f for t in ts) and self.f in ai.stack and args:
            # induction over the nesting of the value
            return [self.assume(args[0], st, id(e))]

    def assume(self, v, st, site, d=0):
        out = set()
        for a in v:
            c = st.heap.get(a) if a[0] == "ref" else None
            if a[0] == "pat":
                out.add(("pat", "<dumped>", 0))
            elif c and c[0] == "list" and d < 4:
                st, w = self.assume(c[1], st, site, d + 1)
                st, r = A.alloc(st, (site, d), ("list", w, c[2], c[3]))
                out.add(r)
            else:
                out.add(a)
        return st, frozenset(out)


def values(rep, prog, p, o):
    """serialize_value, by interpretation: what it makes of each kind of value"""
    rep.rule("serialize-value: the value serializer keeps strings, numbers, None, lists, mappings and nested tokens")
    base = prog.need_class("BaseToken")
    f = base.find_method("serialize_value")
    if f is None:
        rep.stats["serialize_value"] = "absent"
        return
    cl = Ser(base, f)
    ai = A.AI(p, cl)
    par = [x for x in f.posargs if x not in ("self", "cls")][0]
    M = frozenset({("pat", "<model>", 0)})

    def go(v, st=None):
        ai.memo.clear()
        args = {x: A.TOP for x in f.posargs}
        args[par] = v
        if f.node.args.kwarg:
            args[f.node.args.kwarg.arg] = A.TOP
        return ai.run(f, None, args, st or A.S())

    def check(label, res, ok, want):
        res = list(res)
        good = bool(res) and all(v and all(ok(a, st) for a in v) for st, v in res)
        rep.check(good, "serialize-value", label, f"{loc(f.node)}: {f.qual} does not turn {label} into {want}")
    S_ = lambda a, st: a[0] in ("str", "str*")
    D_ = lambda a, st: a == ("pat", "<dumped>", 0)

    def L(inner):
        def ok(a, st):
            c = st.heap.get(a) if a[0] == "ref" else None
            if a[0] == "tup":
                return all(all(inner(x, st) for x in y) for y in a[1])
            return bool(c) and c[0] == "list" and c[3] != 0 and bool(c[1]) and all(inner(x, st) for x in c[1])
        return ok

    def Dd(inner):
        def ok(a, st):
            c = st.heap.get(a) if a[0] == "ref" else None
            if not c or c[0] != "dict":
                return False
            vals = [v for _, (v, m) in c[1]] + ([c[2]] if c[2] else [])
            return bool(vals) and all(v and all(inner(x, st) for x in v) for v in vals)
        return ok
    check("a string", go(A.VSTR), S_, "the same string")
    check("None", go(A.VNONE), lambda a, st: a == A.NONE, "None")
    check("a number", go(A.VINT), lambda a, st: a[0] == "int", "the same number")
    check("a token", go(M), D_, "its dump")
    st, l = A.alloc(A.S(), ("l",), ("list", A.VSTR, 1, None))
    check("a list of strings", go(frozenset({l}), st), L(S_), "a list of all of them")
    st, l = A.alloc(A.S(), ("l2",), ("list", M, 1, None))
    check("a list of tokens", go(frozenset({l}), st), L(D_), "a list of their dumps")
    st, l = A.alloc(A.S(), ("l3",), ("list", M, 1, None))
    st, k = A.alloc(st, ("l4",), ("list", frozenset({l}), 1, None))
    check("nested lists of tokens", go(frozenset({k}), st), L(L(D_)), "nested lists of their dumps")
    st, l = A.alloc(A.S(), ("l5",), ("list", M, 1, None))
    st, k = A.alloc(st, ("d1",), A.dictcell({"x": (frozenset({l}), True)}, None))
    check("a mapping of token lists", go(frozenset({k}), st), Dd(L(D_)), "a mapping of their dumps")


def run(prog, rep, tier):
    p, c, shapes, o = analyse(prog)
    n = carry(prog, rep, c, shapes, o)
    m = merges(rep, prog)
    serializers(rep, prog, o)
    values(rep, prog, p, o)
    complete(rep, p, o, [c for c in prog.classes.values() if is_model(c)])
    rep.stats["(type, fields) combinations built"] = n
    coverage(rep, c, shapes, o)
    if n < 30:
        raise AnalysisBroken(f"only {n} token variants reached the builder")
