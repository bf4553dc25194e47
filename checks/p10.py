"""P10 unit consistency: unit inference over every interpreted configuration, plus every
documented function on its own."""
from oasa import poly as p, units as un, runner, configs
from oasa.engine import Engine
from oasa.model import _Root
from oasa.project import AnalysisBroken
from oasa.values import *
from .common import *

KINDS = ("unit",)


def work(pr, sc, spec):
    return reduce_run(pr, sc, spec, KINDS)


def standalone(pr, sc, f):
    e = Engine(pr, {}, sc)
    st = State({}, {})
    e.stack.append(_Root(f.mod))
    e.callnodes.append(None)
    docp, docr = e.doc_units(f)
    args = {}
    a = f.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.arg in ("self", "cls"):
            return None
        u = docp.get(x.arg)
        if u is not None:
            args[x.arg] = Num(p.sym("arg:" + x.arg), u, "S")
    names = [x.arg for x in a.posonlyargs + a.args]
    nd = len(a.defaults)
    required = names[: len(names) - nd] if nd else names
    kw = {}
    for n in names + [x.arg for x in a.kwonlyargs]:
        if n in args:
            kw[n] = args[n]
        elif n in required:
            kw[n] = Opq(("arg", f.qual, n))
    try:
        e.call_func(FnV(f, None), [], kw, st, f.node)
    except Dead:
        pass
    return e


def run(ctx):
    ctx.rule("unit-mix", "operands that are added, compared, limited or assigned have one dimension; declared field units, documented parameter/return units and constant units are the sources")
    pr, sc = ctx.project, ctx.schema
    specs = model_configs(ctx)
    results = runner.pmap(work, pr, sc, specs)
    ok, an = absorb(ctx, results)
    n = 0
    for r in ok:
        n += r.counts.get("write", 0) + r.counts.get("arg", 0)
        for kind, file, func, line, msg in r.events:
            ctx.violate("unit-mix", file, line, short(func), msg, msg, r.spec)
    ctx.cov["field_stores_and_arguments_checked"] = n
    if n == 0:
        raise AnalysisBroken("no field store seen")
    done = 0
    for f in pr.all_funcs():
        if f.qual in an and not f.mod.name.endswith("atmosphere"):
            continue
        d = un.doc_units(f.doc)
        if not d[0] and not any(u is not None for _, u in d[1]):
            continue
        try:
            e = standalone(pr, sc, f)
        except AnalysisBroken:
            raise
        except Exception as ex:
            ctx.und(f"{f.qual} standalone: {type(ex).__name__}: {ex}")
            continue
        if e is None:
            continue
        done += 1
        ctx.sample(f"documented units of {f.qual}")
        for ev in e.events:
            if ev.kind == "unit":
                ctx.violate("unit-mix", ev.file, ev.line, short(ev.func), ev.msg, ev.msg, f"{f.name}() called with its documented units")
    ctx.cov["documented_functions_checked_standalone"] = done
    ctx.assumptions += ["units written in docstrings, constant comments and field registrations are the intended ones",
                        "empirical formulas with bare numeric coefficients get a soft dimension that is not compared"]
