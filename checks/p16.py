"""P16 time stepping: abstract histories of run()/run_single() calls, and the order of events within a generic step."""
import traceback

from oasa import configs, runner, poly as p
from oasa.model import ModelRun
from oasa.project import AnalysisBroken
from oasa.values import *
from .common import short

OUT_MODS = ("openamundsen.fileio", "openamundsen.liveview")
HIST = (("run",), ("run", "run"), ("run", "run_single"), ("run_single",) * 4, ("run_single", "run"), ("run_single", "run_single", "run_single", "run"))


class Rec:
    """records every event of the interpretation in order, with the path condition under which it happens"""

    def __init__(self, e):
        self.e, self.log = e, []
        inner = e.ev

        def ev(kind, node, msg, **data):
            if not e.quiet:
                f = e.stack[-1] if e.stack else None
                self.log.append((kind, f, getattr(node, "lineno", 0), msg, data, e.pathcond[-1], list(e.stack)))
            return inner(kind, node, msg, **data)
        e.ev = ev


def output_of(ev):
    """class of the output object a call is made on"""
    if ev[0] == "opqcall":
        m = ev[3]
        for x in OUT_MODS:
            i = m.find("('inst', '" + x)
            if i >= 0:
                return m[i + 10:].split("'")[0], m.rsplit("'", 2)[1]
    if ev[0] == "call" and ev[3].startswith(OUT_MODS) and "Manager" in ev[3]:
        q, n = ev[3].rsplit(".", 1)
        return q, n
    return None


def histories(pr, sc, spec):
    """outcome of each call of each history, for runs of 1 to 3 dates"""
    res = []
    for n in (1, 2, 3):
        for h in HIST:
            if len(h) > 2 and n == 1 and h[-1] == "run":
                continue
            seen = []            # (date, process)
            m = ModelRun(pr, sc, spec, step=False)
            if m.error:
                return None, str(m.error)
            e, st, obj = m.e, m.st, m.obj
            rec = Rec(e)
            e.phase = "step"
            dates = Tup(tuple(Opq(("date", i)) for i in range(n)))
            s = st.heap[obj.a[0]]
            a = dict(s.attrs)
            a["dates"] = dates
            st.heap[obj.a[0]] = ObjS(s.cls, a)
            e.symbolic_fields(st)

            def hook(en, f, st2, node):
                o = st2.heap[obj.a[0]]
                rec.log.append(("$proc", f, getattr(node, "lineno", 0), f.qual, {"date": o.attrs.get("date"), "idx": o.attrs.get("date_idx")}, en.pathcond[-1], []))
                en.symbolic_fields(st2)
            e.proc_hook = hook
            calls = []
            for c in h:
                f = pr.find_method(pr.mod("openamundsen.model").classes["OpenAmundsen"], c)
                if f is None:
                    raise AnalysisBroken(f"OpenAmundsen.{c} not found")
                k = len(rec.log)
                before = dict(st.heap[obj.a[0]].attrs)
                try:
                    e.call_func(FnV(f, obj), [], {}, st, f.node)
                    dead = False
                except Dead:
                    dead = True
                ev = rec.log[k:]
                proc = [(x[4]["date"], x[3]) for x in ev if x[0] == "$proc"]
                outs = [(output_of(x)[0], x[1], x[2]) for x in ev if output_of(x) and output_of(x)[1] == "update"]
                raised = [x for x in ev if x[0] == "raise"]
                wr = [x for x in ev if x[0] == "write" and "." in x[3] or x[0] == "setattr" and x[3].split(".")[-1] in ("date", "date_idx")]
                ds = []
                per = {}
                for x in ev:
                    if x[0] == "$proc":
                        d = x[4]["date"]
                        if not ds or ds[-1] != d:
                            ds.append(d)
                    elif output_of(x) and output_of(x)[1] == "update" and ds:
                        per.setdefault(output_of(x)[0], []).append(len(ds))
                calls.append(dict(call=c, dead=dead, dates=[num_of(d, dates) for d in ds], outs=per, exc=[x[3] for x in raised][-1:], line=f.node.lineno,
                                  changed=[(x[3], x[1].qual if x[1] else "", x[2]) for x in wr][:1], file=f.mod.rel, qual=f.qual,
                                  rline=[x[2] for x in raised][-1:]))
                if dead:
                    break
            res.append((n, h, calls))
    return res, None


def num_of(d, dates):
    for i, x in enumerate(dates.a[0]):
        if d == x:
            return i
    return repr(d)[:40]


def is_runtime_error(pr, nm):
    nm = (nm or "").split(".")[-1]
    m = pr.modules.get("openamundsen.errors")
    seen = set()
    while nm and nm not in seen:
        if nm in ("OpenAmundsenRuntimeError", "RuntimeError"):
            return True
        seen.add(nm)
        c = m.classes.get(nm) if m else None
        nm = None
        if c is not None and c.node.bases:
            import ast
            nm = ast.unparse(c.node.bases[0]).split(".")[-1]
    return False


def judge(ctx, pr, show, res):
    for n, h, calls in res:
        done, started, by = 0, False, None
        for c in calls:
            ctx.cov["history_calls_checked"] = ctx.cov.get("history_calls_checked", 0) + 1
            hs = "+".join(h) + f" over {n} date{'s' if n > 1 else ''}"
            bad = lambda rule, what: ctx.violate(rule, c["file"], c["line"], short(c["qual"]), f"{c['call']}: {what}", f"{what} (history: {hs})", show)
            if c["call"] == "run":
                if started:
                    refuse(pr, c, bad, "run() after the run was started")
                else:
                    visits(c, list(range(n)), bad)
                    done = n
            else:
                if done >= n:
                    refuse(pr, c, bad, "run_single() after the last date")
                elif by == "run":
                    pass
                else:
                    visits(c, [done], bad)
                    done += 1
            started, by = True, c["call"]


def refuse(pr, c, bad, what):
    if not c["dead"]:
        bad("refuse-restart", f"{what} is not refused; it processes {c['dates']}")
    elif not is_runtime_error(pr, (c["exc"] or [None])[0]):
        bad("refuse-restart", f"{what} fails with {(c['exc'] or ['an unrelated error'])[0]} instead of a runtime error")
    elif c["changed"]:
        bad("refuse-restart", f"{what} changes {c['changed'][0][0]} before it is refused")


def visits(c, want, bad):
    if c["dead"]:
        bad("visit-dates", f"{c['call']}() stops with {(c['exc'] or ['an error'])[0]} instead of processing dates {want}")
        return
    if c["dates"] != want:
        bad("visit-dates", f"{c['call']}() processes dates {c['dates']} instead of {want}")
        return
    for cls, at in c["outs"].items():
        if at != list(range(1, len(want) + 1)):
            bad("outputs-once", f"{cls.split(':')[-1]} is updated after steps {at} of {len(want)}")


def work(pr, sc, spec):
    try:
        return configs.show(spec), step(pr, sc, spec), None
    except AnalysisBroken:
        raise
    except Exception:
        return configs.show(spec), None, traceback.format_exc().strip().splitlines()[-1]


def process(stack):
    for f in stack:
        if f.mod.name != "openamundsen.model" and not f.name.startswith("<"):
            return f.qual
    return None


def step(pr, sc, spec):
    box = {}

    def setup(e):
        box["rec"] = Rec(e)
        e.proc_hook = lambda en, f, st, node: en.symbolic_fields(st) if en.phase == "step" else None
    m = ModelRun(pr, sc, spec, setup=setup)
    if m.error:
        return "error", str(m.error)
    names = {f"{a}.{b}" for a, b in m.e.fieldcell}
    log = box["rec"].log
    start = max((i for i, x in enumerate(log) if x[0] == "call" and x[3].endswith("OpenAmundsen.run_single")), default=None)
    if start is None:
        return "error", "run_single not interpreted"
    log = log[start:]
    # outputs
    ups = [(i, x) for i, x in enumerate(log) if output_of(x) and output_of(x)[1] == "update" and "liveview" not in output_of(x)[0].lower()]
    bad, counts = [], {}
    for i, x in ups:
        counts.setdefault(output_of(x)[0], []).append(x)
    for cls, xs in counts.items():
        if len(xs) > 1:
            bad.append(("outputs-once", xs[1][1].mod.rel, xs[1][2], xs[1][1].qual, f"{cls.split(':')[-1]} is updated {len(xs)} times in a step"))
        elif xs[0][5] != p.ONE:
            bad.append(("outputs-once", xs[0][1].mod.rel, xs[0][2], xs[0][1].qual, f"{cls.split(':')[-1]} is updated only under a condition"))
    nout = len(counts)
    created = {output_of_new(x) for x in box["rec"].log} - {None}
    for c in sorted(created):
        if c not in counts and "liveview" not in c.lower():
            f = pr.find_method(pr.mod("openamundsen.model").classes["OpenAmundsen"], "run_single")
            bad.append(("outputs-once", f.mod.rel, f.node.lineno, f.qual, f"{c.split(':')[-1]} is never updated in a step"))
    if ups:
        i0 = ups[0][0]
        for x in log[i0:]:
            if x[0] == "write" and x[3] in names:
                bad.append(("outputs-last", x[1].mod.rel, x[2], x[1].qual, f"{x[3]} is written after the outputs of the step have been updated"))
                break
            if x[0] == "setattr" and any(f.mod.name.startswith("openamundsen.modules") for f in x[6]):
                bad.append(("outputs-last", x[1].mod.rel, x[2], x[1].qual, f"{process(x[6])} runs after the outputs of the step have been updated"))
                break
            if x[0] in ("reset", "callback"):
                bad.append(("outputs-last", x[1].mod.rel, x[2], x[1].qual, f"{x[3]} after the outputs of the step have been updated"))
                break
    # date fixed before the first process, and only once
    dset = [i for i, x in enumerate(log) if x[0] == "setattr" and x[3] == "OpenAmundsen.date"]
    first = next((i for i, x in enumerate(log) if x[0] in ("write", "reset", "callback") and (x[0] != "write" or x[3] in names)), None)
    if dset and first is not None and dset[-1] > first:
        x = log[dset[-1]]
        bad.append(("date-first", x[1].mod.rel, x[2], x[1].qual, "the date of the step is set after processing of the step has started"))
    rs = [i for i, x in enumerate(log) if x[0] == "reset"]
    if rs and first is not None and rs[0] > first:
        x = log[rs[0]]
        bad.append(("date-first", x[1].mod.rel, x[2], x[1].qual, "the state is reset after processing of the step has started"))
    # forcing before derived meteorology before processes
    fw = {}
    for i, x in enumerate(log):
        if x[0] == "write" and x[3] in names and x[3].startswith("meteo.") and x[3] not in fw:
            fw[x[3]] = (i, process(x[6]))
    cb = next((i for i, x in enumerate(log) if x[0] == "callback"), None)
    nread = 0
    for i, x in enumerate(log):
        if x[0] == "read" and x[3] in fw:
            nread += 1
            j, pw = fw[x[3]]
            if i < j and process(x[6]) not in (None, pw) and (cb is None or i < cb):
                bad.append(("forcing-first", x[1].mod.rel, x[2], x[1].qual, f"{x[3]} is used before it is prepared for the step"))
    if cb is not None:
        for i, x in enumerate(log[:cb]):
            if x[0] == "write" and x[3] in names and x[3].startswith("meteo."):
                bad.append(("forcing-first", x[1].mod.rel, x[2], x[1].qual, f"{x[3]} is derived before the caller's forcing callback"))
                break
    return "ok", bad, nout, nread, len(log), m.e.nstmts


def output_of_new(x):
    if x[0] == "new" and x[3].startswith(OUT_MODS) and "Manager" in x[3]:
        return x[3]
    return None


RULES = {
    "visit-dates": "run() processes every date once in ascending order, run_single() the next one",
    "refuse-restart": "starting a finished or started run again raises a runtime error and changes nothing",
    "outputs-once": "every output manager is updated exactly once, unconditionally, in every step",
    "outputs-last": "no field changes after the outputs of a step have been updated",
    "date-first": "the date of the step (and the optional reset) is set before anything is processed",
    "forcing-first": "meteorological fields are prepared before any other process of the step uses them",
}


def hwork(pr, sc, spec):
    try:
        return (configs.show(spec),) + histories(pr, sc, spec)
    except AnalysisBroken:
        raise
    except Exception:
        return configs.show(spec), None, traceback.format_exc().strip().splitlines()[-1]


def run(ctx):
    for k, t in RULES.items():
        ctx.rule(k, t)
    pr, sc = ctx.project, ctx.schema
    specs, rejected = runner.all_specs(pr, sc)
    if not specs:
        raise AnalysisBroken("no configuration passes validate_config in the analysis")
    bases = runner.all_specs(pr, sc, bases_only=True)[0]
    small = [s for s in bases if not s[("canopy", "enabled")] and not s[("evapotranspiration", "enabled")] and not s[("glaciers", "enabled")]]
    small = (small if ctx.thorough else [s for s in small if s[("snow", "melt", "method")] != "enhanced_temperature_index"]) or bases[:1]
    ok = 0
    for show, res, err in runner.pmap(hwork, pr, sc, small):
        if res is None:
            ctx.und(f"histories of {show}: {err}")
            continue
        ok += 1
        ctx.cov["histories"] = ctx.cov.get("histories", 0) + len(res)
        judge(ctx, pr, show, res)
    ctx.cov["configurations_interpreted"] = len(specs)
    for show, r, err in runner.pmap(work, pr, sc, specs):
        if r is None or r[0] == "error":
            ctx.und(f"step of {show}: {err or r[1]}")
            continue
        ok += 1
        _, bad, nout, nread, nlog, ns = r
        for k, v in (("output_updates_checked", nout), ("meteo_reads_ordered", nread), ("events_ordered", nlog), ("statements_transferred", ns)):
            ctx.cov[k] = ctx.cov.get(k, 0) + v
        if not nout:
            ctx.und(f"step of {show}: no output manager update seen")
        for rule, file, line, qual, msg in bad:
            ctx.violate(rule, file, line, short(qual), msg, msg, show)
    if not ok:
        raise AnalysisBroken("no configuration could be analysed")
    ctx.assumptions += ["runs of 1 to 3 dates stand for runs of any length", "dates produced by pandas.date_range are ascending and distinct"]
