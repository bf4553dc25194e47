"""Shared whole-model machinery: interpret every configuration, reduce to plain events."""
import ast
import re
import traceback

from oasa import configs, runner
from oasa.model import ModelRun
from oasa.project import AnalysisBroken

KINDS = None


class Reduced:
    """picklable result of one interpreted configuration"""
    def __init__(self, spec):
        self.spec = configs.show(spec)
        self.crash = None
        self.error = None
        self.events = []
        self.undecided = []
        self.analysed = set()
        self.nstmts = 0
        self.counts = {}
        self.extra = None


def reduce_run(pr, sc, spec, kinds, nan_mode=False, setup=None, extra=None, step=True):
    r = Reduced(spec)
    try:
        m = ModelRun(pr, sc, spec, nan_mode=nan_mode, setup=setup, step=step)
        r.error = m.error
        for e in m.e.events:
            r.counts[e.kind] = r.counts.get(e.kind, 0) + 1
            if e.kind in kinds:
                r.events.append((e.kind, e.file, e.func, e.line, e.msg))
        r.undecided = list(m.e.undecided)
        r.analysed = set(m.e.analysed)
        r.nstmts = m.e.nstmts
        if extra:
            r.extra = extra(m)
    except AnalysisBroken:
        raise
    except RecursionError:
        r.crash = "RecursionError"
    except Exception:
        r.crash = traceback.format_exc().strip().splitlines()[-1] + " @ " + traceback.format_exc().strip().splitlines()[-3].strip()
    return r


def model_configs(ctx, bases_only=False, specs=None):
    """the validated configurations; registers coverage"""
    if specs is None:
        specs, rejected = runner.all_specs(ctx.project, ctx.schema, bases_only=bases_only)
    else:
        rejected = []
    ctx.cov["configurations_interpreted"] = len(specs)
    ctx.cov["configurations_rejected_by_validation"] = len(rejected)
    if not specs:
        raise AnalysisBroken("no configuration passes validate_config in the analysis")
    return specs


def absorb(ctx, results):
    """fold the bookkeeping of all results into the context"""
    an, st = set(), 0
    for r in results:
        if r.crash:
            ctx.und(f"configuration {r.spec}: analysis stopped: {r.crash}")
        for u in r.undecided:
            ctx.und(u)
        an |= r.analysed
        st += r.nstmts
    ctx.cov["functions_analysed"] = ctx.cov.get("functions_analysed", 0) + len(an)
    ctx.cov["statements_transferred"] = ctx.cov.get("statements_transferred", 0) + st
    ok = [r for r in results if not r.crash]
    if not ok:
        raise AnalysisBroken("no configuration could be analysed: " + str(results[0].crash))
    return ok, an


def short(func):
    return func.split(":", 1)[1] if ":" in func else func
