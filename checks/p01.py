"""P01 every accepted option is declared once and takes effect."""
import ast
import json
import os

from oasa import configs, runner
from oasa.project import AnalysisBroken, land_cover_schema
from .common import short
from .cfgcommon import *

RULES = {
    "option-unread": "every option of the schema is read by validation, initialization, a time step, forcing input or an output",
    "option-unused": "the value of an option that is read into a local variable is used there",
    "option-undeclared": "every option the package reads is declared in the schema",
    "option-without-default": "every option read unconditionally has a default or is required",
    "option-overwritten": "no accepted option is overwritten after validation, and validation overwrites options only with values derived from options or under a choice",
    "option-ineffective": "switching a two-valued option changes the executed statements or the computed values",
    "option-not-applied": "an option is read in every module combination that its description says it applies to",
}
SCHEMA = "openamundsen/data/configschema.yml"
TABLE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "option_scope.json")


def run(ctx):
    for k, t in RULES.items():
        ctx.rule(k, t)
    pr, sc = ctx.project, ctx.schema
    its, rejected = items(pr, sc, ctx.thorough)
    recs = runner.pmap(census, pr, sc, its)
    if all(r.crash for r in recs):
        raise AnalysisBroken("no configuration could be analysed: " + str(recs[0].crash))
    val = validation(pr, sc)
    for r in recs + val:
        if r.crash:
            ctx.und(f"{r.label}: analysis stopped: {r.crash}")
    reads, absent, vreads, vwrites = {}, {}, {}, {}
    for r in recs:
        for q, x in r.reads.items():
            if q not in reads or (reads[q][3] and not x[3]):
                reads[q] = x
        absent.update(r.absent)
    for r in val:
        wl = {(f, l) for _, f, l, _ in r.cfgw}
        for q, x in r.reads.items():
            if (x[0], x[1]) in wl or q not in vreads:
                vreads.setdefault(q, []).append((x, (x[0], x[1]) in wl))
        for q, f, l, fn in r.cfgw:
            vwrites.setdefault(q, []).append((f, l, fn))
    wlines = {(f, l) for xs in vwrites.values() for f, l, _ in xs}
    steer = steering(pr, wlines)
    for q, xs in vreads.items():
        vreads[q] = [(x, w or (x[0], x[1]) in steer) for x, w in xs]
    deriving = {q for q, xs in vreads.items() if any(w for _, w in xs)}
    names = words(pr)
    leaves = list(configs.leaves(sc))
    nleaf = 0
    star = {tuple(p for p in q) for q in reads}
    for q, n in leaves:
        t = n.get("type")
        if isinstance(n.get("schema"), dict) and t == "dict":
            continue
        c = configs.choices(n)
        if c is not None and len(c) == 1 and n.get("default") == c[0]:
            continue        # nothing to choose
        nleaf += 1
        if "[]" in q:
            ok = q[-1] in names
        else:
            ok = q in star or q in deriving or any(x[:len(q)] == q for x in star)
            if not ok and q in vreads and not outside_validation(q, leaves):
                ok = True
        if not ok:
            ctx.violate("option-unread", SCHEMA, 0, ".".join(q), ".".join(q), f"option {'.'.join(q)} is accepted but no analysed path of the package reads it")
        else:
            ctx.sample(".".join(q))
    # land cover classes
    lcs = land_cover_schema(pr)
    got = {q[3:] for q in star if len(q) > 3 and q[:2] == ("land_cover", "classes")}
    for q, n in configs.leaves(lcs):
        if isinstance(n.get("schema"), dict) and n.get("type") == "dict":
            continue
        nleaf += 1
        if q not in got and not any(x[:len(q)] == q for x in got):
            ctx.violate("option-unread", "openamundsen/data/land_cover_class_schema.yml", 0, ".".join(q), "land_cover." + ".".join(q),
                        f"land cover parameter {'.'.join(q)} is accepted but no analysed path of the package reads it")
    # declared
    nread = 0
    sites_ok = {(x[0], x[1]) for q, x in reads.items() if find_schema(pr, sc, q) is not None}
    for q, (f, l, fn, soft) in sorted(reads.items()):
        if q[:2] == ("land_cover", "classes") and len(q) <= 3:
            continue
        nread += 1
        n = find_schema(pr, sc, q)
        if n is None:
            if soft and (f, l) in sites_ok or inner(q, sc, pr):
                continue
            ctx.violate("option-undeclared", f, l, short(fn), ".".join(q), f"reads option {'.'.join(q)}, which the schema does not declare")
        elif not soft and not n.get("required") and "default" not in n and not ("land_cover" == q[0]) and not isinstance(n.get("schema"), dict):
            ctx.violate("option-without-default", f, l, ".".join(q), ".".join(q),
                        f"reads option {'.'.join(q)}, which has neither a default nor is required: a validated configuration without it fails here")
    for q, (f, l, fn) in sorted(absent.items()):
        if (f, l) not in sites_ok and find_schema(pr, sc, q) is None:
            ctx.violate("option-undeclared", f, l, short(fn), ".".join(q), f"looks up option {'.'.join(q)}, which the schema does not declare; the fallback is always used")
    # overwritten
    for r in recs:
        for q, f, l, fn in r.cfgw:
            if q is None:
                continue
            ctx.violate("option-overwritten", f, l, short(fn), ".".join(q), f"option {'.'.join(q)} is overwritten during the run", r.label)
    every = set.intersection(*[{q for q, *_ in r.cfgw} for r in val if not r.error]) if any(not r.error for r in val) else set()
    for q in sorted(x for x in every if x):
        f, l, fn = vwrites[q][0]
        if (f, l) in augmented(pr):
            continue
        if q not in deriving or not same_line(vreads.get(q, []), f, l):
            ctx.violate("option-overwritten", f, l, short(fn), ".".join(q), f"validation replaces option {'.'.join(q)} in every configuration")
    # dead reads
    fns = {f.qual: f for m in pr.modules.values() for f in all_funcs(m)}
    for q, (f, l, fn, soft) in sorted(reads.items()):
        fu = fns.get(fn)
        for nm in dead_target(fu.node, l) if fu is not None else ():
            ctx.violate("option-unused", f, l, short(fn), f"{'.'.join(q)} -> {nm}", f"option {'.'.join(q)} is read into '{nm}', which is never used")
    # two-valued options
    S, L = siblings(sc, [(k, s) for k, s, c in its if c is None])
    idx = [i for i, x in enumerate(its) if x[2] is None]
    cand, effective = {}, set()
    for q, rest, d in S:
        if set(d) != {"True", "False"} or q not in L:
            continue
        a, b = recs[idx[d["True"]]], recs[idx[d["False"]]]
        if a.crash or b.crash:
            effective.add(q)
        elif a.sig != b.sig or a.error != b.error:
            effective.add(q)
        else:
            cand.setdefault(q, []).append((its[idx[d["True"]]], its[idx[d["False"]]]))
    todo = [(q, x) for q, xs in sorted(cand.items()) if q not in effective for x in xs]
    res = runner.pmap(same_values, pr, sc, [(x[0][0], x[0][1], x[1][1]) for _, x in todo]) if todo else []
    bad = {}
    for (q, x), r in zip(todo, res):
        bad.setdefault(q, []).append(r)
    for q, rs in bad.items():
        if all(r is True for r in rs) and not opaque_use(pr, q):
            ctx.violate("option-ineffective", SCHEMA, 0, ".".join(q), ".".join(q), f"setting {'.'.join(q)} to true or false makes no difference to any analysed run")
    # scope table
    tab = scope(recs, its)
    npair = 0
    try:
        t = json.load(open(TABLE))
        want = {o: [t["runs"][i] for i in ix] for o, ix in t["options"].items()}
    except OSError:
        want = {}
    declared = {".".join(q) for q, _ in leaves}
    for o, labs in sorted(want.items()):
        if o not in declared:
            continue
        for lab in labs:
            npair += 1
            if lab in tab["__analysed__"] and lab not in tab.get(o, ()):
                ctx.violate("option-not-applied", SCHEMA, 0, o, o, f"option {o} is not read in a run with {lab}, where it applies", lab)
                break
    ctx.cov["options_declared"] = nleaf
    ctx.cov["options_read"] = nread
    ctx.cov["configurations_interpreted"] = len(its)
    ctx.cov["validation_runs"] = len(val)
    ctx.cov["option_scope_pairs"] = npair
    ctx.cov["statements_transferred"] = sum(r.nstmts for r in recs)
    if not nread or not nleaf:
        raise AnalysisBroken("no option read found")


def scope(recs, its):
    """option -> module combinations in which it is read"""
    out = {"__analysed__": set()}
    for r, (kind, spec, case) in zip(recs, its):
        if kind != "model" or r.crash or r.error or set(spec) - BASE:
            continue
        lab = r.label
        out["__analysed__"].add(lab)
        for q in r.reads:
            out.setdefault(".".join(q), set()).add(lab)
    return out


BASE = {("snow", "model"), ("snow", "melt", "method"), ("canopy", "enabled"), ("evapotranspiration", "enabled"),
        ("glaciers", "enabled"), ("snow", "melt", "degree_day_factor"), ("snow", "melt", "albedo_factor")}


def outside_validation(q, leaves):
    """options that describe the run itself (dates, CRS) may be consumed by validation alone"""
    return q not in (("start_date",), ("end_date",), ("timestep",))


def steering(pr, wlines):
    """lines of the conditions under which validation rewrites options"""
    out = set()
    for m in pr.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.If) and any(f == m.rel and n.body[0].lineno <= l <= n.body[-1].end_lineno for f, l in wlines):
                out |= {(m.rel, l) for l in range(n.test.lineno, n.test.end_lineno + 1)}
    return out


def augmented(pr):
    return {(m.rel, n.lineno) for m in pr.modules.values() for n in ast.walk(m.tree) if isinstance(n, ast.AugAssign)}


def same_line(xs, f, l):
    return any((x[0], x[1]) == (f, l) for x, _ in xs)


def words(pr):
    """every string constant and attribute name of the package"""
    out = set()
    for m in pr.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                out.add(n.value)
            elif isinstance(n, ast.Attribute):
                out.add(n.attr)
            elif isinstance(n, ast.keyword) and n.arg:
                out.add(n.arg)
            elif isinstance(n, ast.arg):
                out.add(n.arg)
    return out


def inner(q, sc, pr):
    """below a list or free-form option"""
    for i in range(1, len(q)):
        n = find_schema(pr, sc, q[:i])
        if n is not None and not isinstance(n.get("schema"), dict):
            return True
        if n is not None and n.get("type") == "list":
            return True
    return False


def all_funcs(m):
    for f in m.funcs.values():
        yield f
    for c in m.classes.values():
        yield from c.methods.values()


def dead_target(fn, line):
    for s in ast.walk(fn):
        if isinstance(s, ast.Assign) and s.lineno <= line <= s.end_lineno and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            nm = s.targets[0].id
            if not any(isinstance(n, ast.Name) and n.id == nm and isinstance(n.ctx, ast.Load) for n in ast.walk(fn)):
                yield nm


def opaque_use(pr, q):
    """the option is handed to code the analysis does not model"""
    for m in pr.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                for a in list(n.args) + [k.value for k in n.keywords]:
                    if isinstance(a, ast.Attribute) and a.attr == q[-1]:
                        return True
                    if isinstance(a, ast.Subscript) and isinstance(a.slice, ast.Constant) and a.slice.value == q[-1]:
                        return True
    return False
