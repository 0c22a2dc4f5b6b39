"""C08: every token shape the parser can emit is pushed through the abstract interpretation of TokenBuilder.build down to the
construction of its output model; required fields must be there and no possible value may contradict the declared type."""
from ..core import *
from ..tokcheck import *

NOTE = "abstract interpretation (token shapes -> output models) + schema type compatibility"


def run(prog, rep, tier):
    p, c, shapes, o = analyse(prog)
    M = o.models
    rep.rule("model-built: a token of a published type becomes the model declared for that type")
    rep.rule("required: a field without default is always passed to the model")
    rep.rule("field-type: no value a field can hold contradicts its declared type")
    done = set()
    for x, key, where, top in all_shapes(c, shapes):
        for ty, n, v in variants(x):
            if ty not in o.typemap:
                continue
            if (ty, v[1]) in done:
                continue
            done.add((ty, v[1]))
            made = o.run(v)
            cls = o.typemap[ty]
            rep.check(any(k is cls for k, *_ in made), "model-built", f"{ty} from {key}",
                      f"{where}: a token {shape_text(v)} with fields {sorted(k for k, _, _ in v[1])} never becomes a {cls.name} (builder, factory)")
            for k, d, e, fu in made:
                for name, (ann, mod, has, _) in M.fields(k).items():
                    got = d.get(name)
                    if got is None or not got[1]:
                        rep.check(has, "required", f"{k.name}.{name} from {key}",
                                  f"{where}: a {ty!r} token {'without' if got is None else 'that may lack'} {name!r} is turned into {k.name} ({loc(e)}), which requires it")
                    for s in sorted(got[0], key=str) if got else ():
                        r = M.accepts(M.typ(ann, mod), s, o.members)
                        rep.check(r is not False, "field-type", f"{k.name}.{name}: {shape_text(s)}",
                                  f"{where}: a {ty!r} token can carry {name} = {shape_text(s)}, which {k.name}.{name}: {src_of(ann)} rejects ({loc(e)})")
                        if r is None:
                            rep.stats["values not decided"] = rep.stats.get("values not decided", 0) + 1
    rep.stats["(type, fields) combinations built"] = len(done)
    coverage(rep, c, shapes, o)
    rep.assumptions.append("pydantic's documented validation rules (lax mode) as modelled in sa/model.py")
    if len(done) < 30:
        raise AnalysisBroken(f"only {len(done)} token variants reached the builder")
