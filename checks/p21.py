"""P21 pixel independence: every array value carries the pixel set it ranges over; values
over different sets may not be combined or stored, and reductions over pixels are confined to
the spatial processes."""
from oasa import runner
from .common import *

SPATIAL_MODULES = ("openamundsen.meteo.interpolation", "openamundsen.interpolation", "openamundsen.terrain",
                   "openamundsen.modules.radiation", "openamundsen.modules.glacier", "openamundsen.meteo.precipcorr",
                   "openamundsen.forcing", "openamundsen.fileio")


def _extra(m):
    out = []
    for e in m.e.events:
        if e.kind == "spatial" and (m.e.phase != "init"):
            if any(q.split(":")[0] == s or q.split(":")[0].startswith(s + ".") for q in e.data["stack"] for s in SPATIAL_MODULES):
                continue
            if any(q.endswith("._calculate_terrain_parameters") or q.endswith("._read_input_data") for q in e.data["stack"]):
                continue
            out.append((e.file, e.func, e.line, e.msg))
    return out


def work(pr, sc, spec):
    return reduce_run(pr, sc, spec, ("pixmix",), extra=_extra)


def work_nan(pr, sc, spec):
    return reduce_run(pr, sc, spec, ("pixmix",), extra=_extra, nan_mode=True)


def run(ctx):
    ctx.rule("pixel-set", "operands of an elementwise operation, and value and target of a store, range over the same pixel set")
    ctx.rule("spatial-reduction", "no reduction over pixels outside interpolation, terrain, radiation, glacier geometry and rain/snow line enforcement")
    pr, sc = ctx.project, ctx.schema
    specs = model_configs(ctx)
    results = runner.pmap(work, pr, sc, specs)
    bases, _ = runner.all_specs(pr, sc, bases_only=True)
    # second pass: any field may contain missing values, so isfinite() masks are proper subsets
    nanspecs = specs if ctx.thorough else bases
    results += runner.pmap(work_nan, pr, sc, nanspecs)
    ctx.cov["configurations_with_missing_data"] = len(nanspecs)
    ok, an = absorb(ctx, results)
    n = 0
    for r in ok:
        n += r.counts.get("write", 0)
        for kind, file, func, line, msg in r.events:
            ctx.violate("pixel-set", file, line, short(func), re.sub(r"hv\S*|\d+", "", msg)[:160], msg[:400], r.spec)
        for file, func, line, msg in r.extra or ():
            if "enforce_no_snow_below_rain=True" in r.spec and "max" in msg:
                continue
            ctx.violate("spatial-reduction", file, line, short(func), msg, msg, r.spec)
    ctx.cov["field_stores_analysed"] = n
    if not n:
        raise AnalysisBroken("no field store seen")
    ctx.assumptions += ["data arriving from station files is per station, not per pixel"]
