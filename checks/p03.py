"""P03 field registration per configuration."""
import ast
from oasa import runner
from .common import *


def _extra(m):
    return sorted(f"{a}.{b}" for a, b in m.e.fieldcell), sorted(m.e.cats)


def work(pr, sc, spec):
    return reduce_run(pr, sc, spec, ("nofield", "latefield", "dim", "dupcat"), extra=_extra)


def output_names(pr, cats):
    """'category.field' strings in module-level tables of the output code"""
    pat = re.compile(r"^(%s)\.([a-z_0-9]+)$" % "|".join(map(re.escape, cats)))
    for m in pr.modules.values():
        if not m.name.startswith("openamundsen.fileio"):
            continue
        for st in m.tree.body:
            if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None:
                for n in ast.walk(st.value):
                    if isinstance(n, ast.Constant) and isinstance(n.value, str) and pat.match(n.value):
                        yield m, n.lineno, n.value


def run(ctx):
    ctx.rule("unregistered-field", "every state field accessed in a configuration is registered in it before allocation")
    ctx.rule("default-output", "every default output field is registered in every configuration")
    ctx.rule("field-rank", "fields are indexed with the number of dimensions they are registered with")
    pr, sc = ctx.project, ctx.schema
    specs = model_configs(ctx)
    results = runner.pmap(work, pr, sc, specs)
    ok, an = absorb(ctx, results)
    acc = 0
    fields = set()
    outs = None
    for r in ok:
        acc += r.counts.get("read", 0) + r.counts.get("write", 0)
        for kind, file, func, line, msg in r.events:
            ctx.violate("field-rank" if kind == "dim" else "unregistered-field", file, line, short(func), msg, msg, r.spec)
        if r.extra is None or r.error:
            continue
        fs, cats = r.extra
        fields |= set(fs)
        if outs is None:
            outs = list(output_names(pr, cats))
        for m, line, name in outs:
            if name not in fs:
                ctx.violate("default-output", m.rel, line, "<module>", name, f"default output field {name} is not registered", r.spec)
    ctx.cov["field_accesses_checked"] = acc
    ctx.cov["fields_registered"] = len(fields)
    ctx.cov["default_output_fields"] = len(outs or ())
    if not acc or not fields:
        raise AnalysisBroken("no field access seen")
    for o in (outs or ())[:10]:
        ctx.sample(o[2])
