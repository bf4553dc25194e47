"""P06-P09: water budgets of one generic step, decided on value numbers (see oasa/ledger.py, oasa/budget.py)."""
import traceback

from oasa import configs, runner
from oasa.budget import Budget
from oasa.project import AnalysisBroken
from .common import short

RELEVANT = (("snow",), ("meteo", "precipitation_phase"), ("meteo", "precipitation_correction"), ("canopy",), ("glaciers",), ("evapotranspiration",), ("soil",))
_SEEDS = (1,)
_PARTS = ()


def relevant(spec, bases):
    """the configuration differs from a base only in an option that reaches the water stores"""
    for path in spec:
        if path[-1] != "enabled" and not any(path[:len(r)] == r for r in RELEVANT):
            return False
    return True


def work(pr, sc, spec):
    out = []
    try:
        B = None
        for s in _SEEDS:
            B = Budget(pr, sc, spec, seed=s)
            if B.error:
                return configs.show(spec), None, {}, {}, str(B.error)[:200], (0, 0)
            for part in _PARTS:
                getattr(B, part)()
            out += B.res
        m = B.L.m
        return configs.show(spec), out, dict(B.tests), {"usable": float((B.ok & B.sane).mean()), "und": list(m.e.undecided)}, None, (m.e.nstmts, len(m.e.analysed))
    except AnalysisBroken:
        raise
    except Exception:
        return configs.show(spec), None, {}, {}, traceback.format_exc().strip().splitlines()[-1], (0, 0)


def check(ctx, parts, rules, need):
    """parts: Budget methods; rules: id -> text; need: rules that must have been tested somewhere"""
    global _SEEDS, _PARTS
    _PARTS = parts
    _SEEDS = (1, 2, 3) if ctx.thorough else (1,)
    for k, t in rules.items():
        ctx.rule(k, t)
    pr, sc = ctx.project, ctx.schema
    specs, rejected = runner.all_specs(pr, sc)
    if not specs:
        raise AnalysisBroken("no configuration passes validate_config in the analysis")
    if not ctx.thorough:
        specs = [s for s in specs if relevant(s, None)]
    specs.sort(key=lambda s: s.get(("snow", "model")) != "multilayer" and ("snow", "model") in s)
    ctx.cov["configurations_interpreted"] = len(specs)
    ctx.cov["configurations_rejected_by_validation"] = len(rejected)
    tested, ok, stm, usable = {}, 0, 0, []
    for show, res, tests, extra, err, (n, a) in runner.pmap(work, pr, sc, specs):
        if err:
            ctx.und(f"configuration {show}: analysis stopped: {err}")
            continue
        ok += 1
        stm += n
        usable.append(extra["usable"])
        for u in extra["und"]:
            ctx.und(u)
        for k, v in tests.items():
            if k in rules:
                tested[k] = tested.get(k, 0) + v
        for rule, field, q, file, line, share, note in res:
            if rule in rules:
                ctx.violate(rule, file or "openamundsen", line, short(q) if q else "", f"{field}: {note}", f"{note} ({field}; in {share:.1%} of the interpretations)", show)
    if not ok:
        raise AnalysisBroken("no configuration could be analysed")
    for k in need:
        if not tested.get(k):
            ctx.und(f"obligation {k} could not be stated: the fields it is about are not registered or never written")
    ctx.cov["statements_transferred"] = stm
    ctx.cov["identities_tested"] = sum(tested.values())
    for k, v in tested.items():
        ctx.cov[f"obligations_{k}"] = v
    ctx.cov["share_of_interpretations_usable_min"] = round(min(usable), 3)
    ctx.assumptions += [
        "identities are compared as value numbers under 1500 random admissible interpretations (per seed); an identity violated only on a set of measure below 0.2 % is not reported",
        "layer loops are unrolled for up to 3 snow layers; states with more layers behave like these",
        "missing values (NaN) do not occur in the forcing of the step",
        "forcing, radiation, turbulent fluxes, surface and soil temperatures are arbitrary admissible values, independent of each other",
    ]
