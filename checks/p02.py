"""P02 every accepted choice of an enumerated option is implemented."""
import ast

from oasa import configs, runner
from oasa.project import AnalysisBroken
from .common import short
from .cfgcommon import *

RULES = {
    "accepted-but-failing": "no accepted configuration certainly fails in initialization, a time step or an output update",
    "not-implemented": "no not-implemented error is reachable under an accepted choice",
    "choice-fails": "no built-in error is raised, and no undefined name used, only because of one accepted choice",
    "fall-through": "a dispatch on an option has no branch for a value no option accepts while an accepted value matches none",
    "missing-value": "no accepted configuration computes with an option that has no value",
    "parameter-ignored": "a parameter that an accepted choice requires is read by the run that selects the choice",
    "identical-choices": "two accepted choices of an option never compute the same values in every field",
    "choice-without-effect": "a choice writes every field that all other choices of the option write",
}
SCHEMA = "openamundsen/data/configschema.yml"


def run(ctx):
    for k, t in RULES.items():
        ctx.rule(k, t)
    pr, sc = ctx.project, ctx.schema
    its, rejected = items(pr, sc, ctx.thorough)
    recs = runner.pmap(census, pr, sc, its)
    for r in recs:
        if r.crash:
            ctx.und(f"{r.label}: analysis stopped: {r.crash}")
        for u in r.und:
            ctx.und(u)
    if all(r.crash for r in recs):
        raise AnalysisBroken("no configuration could be analysed: " + str(recs[0].crash))
    ours = error_classes(pr)
    L = dict(configs.leaves(sc))
    enums = [set(x for x in c if isinstance(x, str)) for c in (configs.choices(n) for n in L.values()) if c]
    for r in recs:
        if r.error and not (r.error[1] and str(r.error[1]).split(".")[-1].split("(")[0] in ours):
            ctx.violate("accepted-but-failing", SCHEMA, 0, r.error[0], f"{r.error[0]}: {r.error[1]}",
                        f"an accepted configuration always fails in {r.error[0]}() with {r.error[1] or 'an exception'}", r.label)
        for ev in r.events:
            k, file, line, func, msg = ev[:5]
            if k == "raise" and msg.split(".")[-1] == "NotImplementedError":
                spans = tried(pr, file, line)
                if spans and not any(e[0] == "nokey" and e[1] == file and any(lo <= e[2] <= hi for lo, hi in spans) for e in r.events):
                    continue        # only reached when the guarded lookup fails
                ctx.violate("not-implemented", file, line, short(func), msg, f"{msg} is reachable under an accepted configuration", r.label)
            elif k == "nonearith":
                ctx.violate("missing-value", file, line, short(func), msg, f"{msg} under an accepted configuration", r.label)
            elif k == "fallthrough":
                v, arms = ev[5], ev[6]
                acc = set().union(*[e for e in enums if v in e]) if any(v in e for e in enums) else None
                if acc is not None and any(a not in acc for a in arms):
                    ctx.violate("fall-through", file, line, short(func), f"{v} vs {sorted(arms)}",
                                f"accepted value '{v}' matches no branch; the branches test {sorted(set(arms))}, of which {sorted(set(arms) - acc)} is never accepted", r.label)
    for (kind, spec, case), r in zip(its, recs):
        if kind != "model" or case is not None or r.crash:
            continue
        for q, v in spec.items():
            n = L.get(q)
            if v == "$sym" and n is not None and n.get("nullable") and n.get("default", 0) is None and q not in r.reads:
                ctx.violate("parameter-ignored", SCHEMA, 0, ".".join(q), ".".join(q),
                            f"{'.'.join(q)} is given but never read in this accepted configuration, so the choice it belongs to is not in effect", r.label)
    S, _ = siblings(sc, [(k, s) for k, s, c in its if c is None])
    idx = [i for i, x in enumerate(its) if x[2] is None]
    same, pairs = [], 0
    nchoice = set()
    for q, rest, d in S:
        ks = sorted(d)
        strs = [k for k in ks if isinstance(ast.literal_eval(k) if k[0] in "'\"" else None, str)]
        R = {k: recs[idx[d[k]]] for k in ks}
        if any(r.crash for r in R.values()):
            continue
        for k in ks:
            others = [R[x] for x in ks if x != k]
            nchoice.add((q, k))
            for ev in R[k].events if k in strs and len(strs) > 1 else ():
                if ev[0] not in ("raise", "unbound", "nokey") or (ev[0] == "raise" and ev[4].split(".")[-1] in ours):
                    continue
                if not any(e[:5] == ev[:5] for o in others for e in o.events):
                    ctx.violate("choice-fails", ev[1], ev[2], short(ev[3]), f"{'.'.join(q)}={k}: {ev[4]}",
                                f"{'.'.join(q)} = {k}: " + (f"{ev[4]} can be raised" if ev[0] == "raise" else ev[4]) + ", which happens with no other accepted value", R[k].label)
            if len(ks) > 2 and not R[k].callback:
                f = set.intersection(*[set(o.written) for o in others]) - R[k].written
                f &= R[k].fields
                for x in sorted(f):
                    ctx.violate("choice-without-effect", SCHEMA, 0, ".".join(q), f"{k}: {x}",
                                f"{'.'.join(q)} = {k}: field {x} is not computed in a step, although every other accepted value computes it", R[k].label)
        for a in range(len(strs)):
            for b in range(a):
                pairs += 1
                i, j = d[strs[a]], d[strs[b]]
                if recs[idx[i]].sig == recs[idx[j]].sig and applicable(q, rest, L):
                    same.append((q, strs[b], strs[a], its[idx[j]], its[idx[i]]))
    res = runner.pmap(same_values, pr, sc, [(x[3][0], x[3][1], x[4][1]) for x in same]) if same else []
    for (q, v, w, x, y), r in zip(same, res):
        if r is None:
            ctx.und(f"{'.'.join(q)}: {v} and {w} not compared")
        elif r:
            ctx.violate("identical-choices", SCHEMA, 0, ".".join(q), f"{v} {w}",
                        f"{'.'.join(q)} = {v} and {w} are both accepted but compute exactly the same", configs.show(x[1]))
    ctx.cov["configurations_interpreted"] = sum(k == "model" for k, *_ in its)
    ctx.cov["forcing_input_configurations"] = sum(k == "input" for k, *_ in its)
    ctx.cov["output_configurations"] = sum(k == "out" for k, *_ in its)
    ctx.cov["configurations_rejected_by_validation"] = len(rejected)
    ctx.cov["choices_checked"] = len(nchoice)
    ctx.cov["choice_pairs_compared"] = pairs
    ctx.cov["choice_pairs_compared_by_value"] = len(same)
    ctx.cov["statements_transferred"] = sum(r.nstmts for r in recs)
    for q, k in sorted(nchoice)[:30]:
        ctx.sample(f"{'.'.join(q)}={k}")
    if not pairs:
        raise AnalysisBroken("no enumerated option found in the schema")


def error_classes(pr):
    out = set()
    for m in pr.modules.values():
        if ".errors" in m.name:
            out |= set(m.classes)
    return out | {"FileNotFoundError"}


def tried(pr, file, line):
    """line spans guarded by the handlers the line is part of"""
    out = []
    for m in pr.modules.values():
        if m.rel == file:
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Try) and any(h.lineno <= line <= h.end_lineno for h in n.handlers):
                    out.append((n.body[0].lineno, n.body[-1].end_lineno))
    return out
