"""P05 region-of-interest confinement: the abstract content outside the ROI of every field
is tracked through initialization and a generic step."""
from oasa import runner
from .common import *

# raster inputs and terrain cover the whole grid by design
EXEMPT = {"land_cover.land_cover", "evapotranspiration.soil_texture", "glaciers.glacier"}


def extra(m):
    return [(f"{k[0]}.{k[1]}", m.post_init[k].out, m.post[k].out if hasattr(m, "post") and k in m.post else None,
             m.e.fields[k]["dtype"]) for k in m.e.fieldcell]


def work(pr, sc, spec):
    return reduce_run(pr, sc, spec, ("roileak",), extra=extra)


def work_nan(pr, sc, spec):
    return reduce_run(pr, sc, spec, ("roileak",), extra=extra, nan_mode=True)


def run(ctx):
    ctx.rule("roi-leak", "no store to a simulated field reaches a pixel outside the region of interest with anything but the field's no-data value")
    pr, sc = ctx.project, ctx.schema
    specs = model_configs(ctx)
    results = runner.pmap(work, pr, sc, specs)
    if ctx.thorough:
        results += runner.pmap(work_nan, pr, sc, specs)
    ok, an = absorb(ctx, results)
    fields = set()
    writes = 0
    for r in ok:
        writes += r.counts.get("write", 0)
        leaks = {}
        for kind, file, func, line, msg in r.events:
            leaks.setdefault(msg.split(":")[0], []).append((file, func, line, msg))
        for name, o_init, o_post, dtype in r.extra or ():
            if name.startswith("base.") or name in EXEMPT:
                continue
            fields.add(name)
            want = {"nan"} if dtype.startswith("float") else {"zero", "false"}
            for phase, o in (("initialize", o_init), ("time step", o_post)):
                if o is None or o in want:
                    continue
                sites = leaks.get(name)
                if not sites:
                    ctx.und(f"content of {name} outside the region of interest after {phase} unknown ({o})")
                    continue
                for file, func, line, msg in sites:
                    ctx.violate("roi-leak", file, line, short(func), name, msg, r.spec)
    ctx.cov["fields_checked"] = len(fields)
    ctx.cov["field_stores_analysed"] = writes
    if not fields or not writes:
        raise AnalysisBroken("no field stores seen")
    for f in sorted(fields)[:20]:
        ctx.sample(f)
    ctx.assumptions += ["grid.roi is an arbitrary mask fixed before the first step",
                        "forcing callbacks supplied by the user stay inside the region of interest"]
