"""P04: clearing non-retained fields between steps is unobservable.  Non-interference of the
post-step value numbers from the previous content of non-retained fields."""
import ast

from oasa import noninterf, runner
from .common import *


def extra(m):
    if m.error or not hasattr(m, "post"):
        return None
    res, stat = noninterf.analyse(m, m.e.pr, m.e.schema)
    # reset happens before anything of the step is written
    first, reset = None, None
    for i, e in enumerate(m.step_events):
        if e.kind == "reset" and reset is None:
            reset = i
        if e.kind == "write" and first is None:
            first = (i, e.file, e.func, e.line, e.msg)
    late = first if reset is not None and first is not None and first[0] < reset else None
    where = {f"{k[0]}.{k[1]}": (v["where"], v["func"]) for k, v in m.e.fields.items()}
    return [(r, f, g, sh, where.get(g, where[f])) for r, f, g, sh in res], stat, late, reset is not None


def work(pr, sc, spec):
    return reduce_run(pr, sc, spec, (), extra=extra)


def run(ctx):
    ctx.rule("stale-read", "no post-step value of any field depends on the previous step's content of a field that is not marked as retained")
    ctx.rule("fill-once", "a field filled during initialization and not rewritten in a step is marked as retained")
    ctx.rule("left-over", "a non-retained field is rewritten on the same pixels in every step")
    ctx.rule("reset-first", "fields are cleared before the step writes anything, only when not retained, and to their initial no-data value")
    pr, sc = ctx.project, ctx.schema
    specs = model_configs(ctx, bases_only=not ctx.thorough)
    if not ctx.thorough:
        more, _ = runner.all_specs(pr, sc)
        keys = {repr(sorted(s.items(), key=repr)) for s in specs}
        extra_specs = [s for s in more if repr(sorted(s.items(), key=repr)) not in keys]
        specs = specs + extra_specs[::2]
        ctx.cov["configurations_interpreted"] = len(specs)
    # the fields a user-supplied forcing callback writes are not visible to the analysis
    specs = [s for s in specs if "callback" not in s.values()]
    ctx.cov["configurations_interpreted"] = len(specs)
    ok, an = absorb(ctx, runner.pmap(work, pr, sc, specs))
    nf = nn = 0
    seen_reset = False
    for r in ok:
        if not r.extra:
            ctx.und(f"{r.spec}: step not analysed ({r.error})")
            continue
        res, stat, late, reset = r.extra
        nf += stat["fields"]
        nn += stat["numeric"]
        seen_reset |= reset
        for rule, f, g, sh, (where, func) in res:
            file, _, line = where.partition(":")
            rid = {"filled once but not retained": "fill-once", "left over from an earlier step": "left-over"}.get(rule, "stale-read")
            msg = {"fill-once": f"{g} is filled during initialization, never rewritten in a step, and not marked as retained",
                   "left-over": f"{g} is not retained but keeps its previous value on pixels that vary from step to step",
                   "stale-read": f"{f} after a step depends on the content of {g} before the step, but {g} is not marked as retained"}[rid]
            ctx.violate(rid, file, int(line or 0), short(func), f"{f}<-{g}", msg, r.spec)
        if late:
            ctx.violate("reset-first", late[1], late[3], short(late[2]), late[4], f"{late[4]} is written before the non-retained fields are cleared", r.spec)
    ctx.cov["nonretained_fields_checked"] = nf
    ctx.cov["dependence_tests"] = nn
    if not nf:
        raise AnalysisBroken("no fields seen")
    check_reset(ctx, pr)
    ctx.assumptions += ["loop-carried values inside iterative solvers are treated as unknown inputs",
                        "forcing callbacks supplied by the user write every field they provide in every step"]


def check_reset(ctx, pr):
    m = pr.modules.get("openamundsen.statevars")
    cls = m.classes.get("StateVariableManager") if m else None
    f = pr.find_method(cls, "reset") if cls else None
    if f is None:
        ctx.und("StateVariableManager.reset not found")
        return
    # the table of initial values
    for s in m.tree.body:
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Dict) and any(isinstance(k, ast.Name) and k.id == "float" for k in s.value.keys):
            for k, v in zip(s.value.keys, s.value.values):
                if not isinstance(k, ast.Name):
                    continue
                t = ast.unparse(v)
                want = {"float": ("np.nan", "float('nan')", "numpy.nan", "math.nan", "nan"), "int": ("0",), "bool": ("False", "0")}.get(k.id)
                ctx.count("initial_values_checked")
                if want and t not in want and isinstance(v, (ast.Constant, ast.UnaryOp)):
                    ctx.violate("reset-first", m.rel, v.lineno, "<module>", f"{k.id}:{t}", f"no-data value of {k.id} fields is {t}")
    # polarity of the retain test
    for n in ast.walk(f.node):
        if isinstance(n, ast.If) and "retain" in ast.unparse(n.test):
            ctx.count("retain_tests_checked")
            neg = 0
            t = n.test
            while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                neg ^= 1
                t = t.operand
            if not (isinstance(t, ast.Attribute) and t.attr == "retain"):
                continue
            fills = lambda b: any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "fill" or
                                  isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Subscript) for s in b for x in ast.walk(s))
            if (not neg and fills(n.body)) or (neg and fills(n.orelse) and not fills(n.body)):
                ctx.violate("reset-first", m.rel, n.lineno, "StateVariableManager.reset", "retain", "retained fields are cleared")
