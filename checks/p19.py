"""P19 outputs cover exactly their interval: the output managers are interpreted over histories of time steps."""
from fractions import Fraction

from oasa import runner, poly as p
from oasa.outsim import Dates, DsV
from oasa.project import AnalysisBroken
from oasa.values import *
from .common import short
from .outcommon import *

RULES = {
    "agg-interval": "the value written for an aggregated field is the sum or mean of every step since the previous write, each once",
    "inst-value": "the value written for an instantaneous field is the value of the written step",
    "write-dates": "a field is written at each of its write dates, at that date's position, and at no other",
    "time-axis": "time coordinate and bounds of a field are its write dates and the intervals between them",
    "point-value": "every step stores the current value of every variable of all points at that step's position",
    "point-once": "the point output files hold every date exactly once, in order, after the run",
    "point-kept": "in-memory point outputs are complete and still available after the run",
    "no-failure": "updating the outputs fails on no step",
}


def linear(t, var):
    """{step: coefficient} when the value is a linear combination of the field's values in individual steps"""
    t = at_roi(t, 1)
    if isinstance(t, Lay):
        if t.ov:
            return None
        t = t.base
    res, keys = {}, set()
    for mono, c in t.m.items():
        if len(mono) != 1 or mono[0][1] != 1:
            return None
        a = p.get_atom(mono[0][0])
        if a.kind == "sym" and isinstance(a.key[0], str) and "@" in a.key[0]:
            nm = a.key[0]
        elif a.kind == "fn" and a.key[0] == "L" and isinstance(a.key[1], str) and "@" in a.key[1]:
            nm = a.key[1]
            keys.add(a.key[3])
        else:
            return None
        f, k = nm.rsplit("@", 1)
        if f != var:
            return f
        res[int(k)] = res.get(int(k), 0) + c
    return res if len(keys) <= 1 else None


def grids(pr, sc, spec, case):
    _, fmt, lay, app, fs = case
    r = open_case(pr, sc, spec, case)
    if r.error:
        return dict(und=[f"model initialization: {r.error}"], bad=[], n=0)
    bad, und, n = [], [], 0
    fn = r.up
    loc = (fn.mod.rel, fn.node.lineno, fn.qual)
    if r.failed:
        return dict(bad=[("no-failure",) + loc + (f"creating the gridded outputs fails with {r.failed[1] or 'an exception'}",)], und=[], n=1)
    wd = {f["name"]: [d for d in f["dates"] if 0 <= d < N] for f in fs}
    last = {f["name"]: -1 for f in fs}
    for k in range(N):
        ops, evs, dead = r.step(k)
        if dead:
            bad.append(("no-failure",) + loc + (f"update() fails with {dead}",))
            break
        stores = {}
        for o in ops:
            if o[-1] != p.ONE:
                und.append(f"{o[0]} at {o[-4]}:{o[-3]} happens under a condition")
            if o[0] == "store":
                stores.setdefault(o[2], []).append(o)
            elif o[0] == "raster":
                stores.setdefault(fs[0]["name"], []).append(o)
        for f in fs:
            nm = f["name"]
            n += 1
            got = stores.get(nm, [])
            if k not in wd[nm]:
                if got:
                    bad.append(("write-dates",) + got[0][-4:-1] + (f"a field ({f['agg'] or 'instantaneous'}) is written at a date which is not one of its write dates",))
                continue
            if not got:
                bad.append(("write-dates",) + loc + (f"a field ({f['agg'] or 'instantaneous'}) is not written at one of its write dates",))
                continue
            o = got[-1]
            v = o[4]
            if o[0] == "store":
                i = o[3][0] if o[3] else None
                if isinstance(i, PC) and i.v != wd[nm].index(k) and i.v != wd[nm].index(k) - len(wd[nm]):
                    bad.append(("write-dates",) + o[-4:-1] + (f"the value is stored at position {i.v} instead of {wd[nm].index(k)}",))
                elif not isinstance(i, PC):
                    und.append(f"position of the store at {o[-4]}:{o[-3]} not modelled")
            if not isinstance(v, Num):
                und.append(f"value stored at {o[-4]}:{o[-3]} not modelled")
                continue
            c = linear(v.t, f["var"])
            if c is None:
                und.append(f"value stored at {o[-4]}:{o[-3]} is not a linear combination")
                continue
            steps = list(range(last[nm] + 1, k + 1))
            want = {k: 1} if f["agg"] is None else {j: Fraction(1, len(steps) if f["agg"] == "mean" else 1) for j in steps}
            last[nm] = k
            if isinstance(c, str):
                bad.append(("inst-value" if f["agg"] is None else "agg-interval",) + o[-4:-1] + (f"the output of one field contains values of another",))
            elif {a: b for a, b in c.items() if b} != want:
                d = {a: str(b) for a, b in sorted(c.items())}
                bad.append(("inst-value" if f["agg"] is None else "agg-interval",) + o[-4:-1] +
                           (f"the written {f['agg'] or 'instantaneous'} value has step weights {d} instead of {({a: str(b) for a, b in want.items()})}",))
    else:
        axis(r, fs, wd, bad, und, app)
    und += [f"{q}:{l} {t}" for q, l, t in dict.fromkeys(r.undecided) if q.endswith(".update")]
    return dict(bad=bad, und=und, n=n)


def axis(r, fs, wd, bad, und, app):
    """time coordinates of the created dataset"""
    f0 = r.pr_create
    e = r.e
    made = [d for d in e.ds if getattr(d, "raw", None)]
    if not made:
        return
    d = made[0]
    for f in fs:
        dims = d.dims.get(f["name"])
        if not dims:
            und.append(f"dimensions of {f['name']} not modelled")
            continue
        t = d.coords.get(dims[0])
        if not isinstance(t, Dates):
            und.append("time coordinate not modelled")
            continue
        if list(t.a[0]) != wd[f["name"]]:
            bad.append(("time-axis",) + f0 + (f"the time coordinate of a field is {list(t.a[0])} instead of its write dates",))
            continue
        b = d.coords.get(dims[0] + "_bounds")
        s = r.st.heap.get(b.a[0]) if isinstance(b, Ref) else None
        if f["agg"] is not None and b is None and not any(str(x).endswith("bounds") for x in d.coords):
            bad.append(("time-axis",) + f0 + ("an aggregated field has a time coordinate without bounds",))
        elif f["agg"] is None and b is not None:
            bad.append(("time-axis",) + f0 + ("an instantaneous field has a time coordinate with interval bounds",))
        elif f["agg"] is not None and s is None:
            und.append("time bounds not modelled")
        elif f["agg"] is not None:
            w = wd[f["name"]]
            want = tuple((w[i - 1] if i else 0, w[i]) for i in range(len(w)))
            if s.rows != want:
                bad.append(("time-axis",) + f0 + (f"the time bounds of an aggregated field are {s.rows} instead of {want}",))
    if app:
        for o in e.ops:
            if o[0] == "store" and o[2] in d.coords and isinstance(o[3][0], PC):
                ref = d.coords[o[2]]
                if isinstance(ref, Dates) and isinstance(o[4], PC):
                    if o[3][0].v >= len(ref.a[0]) or ref.a[0][o[3][0].v] != o[4].v:
                        bad.append(("time-axis",) + o[-4:-1] + ("a wrong time value is appended",))
                s = r.st.heap.get(ref.a[0]) if isinstance(ref, Ref) else None
                if s is not None and isinstance(o[4], Dates) and s.rows[o[3][0].v] != o[4].a[0]:
                    bad.append(("time-axis",) + o[-4:-1] + ("wrong time bounds are appended",))
        for f in fs:
            tv = d.dims.get(f["name"], (None,))[0]
            for i in range(len(wd[f["name"]])):
                if tv in d.coords and not any(o[0] == "store" and o[2] == tv and o[3][0] == PC(i) for o in e.ops):
                    bad.append(("time-axis",) + f0 + ("the time of a written field is never appended to its time coordinate",))
                    break


def points(pr, sc, spec, case):
    _, fmt, freq = case
    r = open_case(pr, sc, spec, case)
    if r.error:
        return dict(und=[f"model initialization: {r.error}"], bad=[], n=0)
    bad, und, n = [], [], 0
    fn = r.up
    loc = (fn.mod.rel, fn.node.lineno, fn.qual)
    e = r.e
    if r.failed:
        return dict(bad=[("no-failure",) + loc + (f"creating the point outputs fails with {r.failed[1] or 'an exception'}",)], und=[], n=1)
    files, done, where = {}, set(), {}
    for k in range(N):
        ops, evs, dead = r.step(k)
        if dead:
            bad.append(("no-failure",) + loc + (f"update() fails with {dead}",))
            break
        got = {}
        for o in ops:
            if o[-1] != p.ONE:
                und.append(f"{o[0]} at {o[-4]}:{o[-3]} happens under a condition")
            if o[0] == "store" and o[2] in ("va", "vb"):
                n += 1
                got[o[2]] = o
                t = e.ds[o[1]].times.get("time")
                i = o[3][0] if o[3] else None
                if isinstance(t, Dates) and isinstance(i, PC):
                    if not -len(t.a[0]) <= i.v < len(t.a[0]) or t.a[0][i.v] != k:
                        bad.append(("point-value",) + o[-4:-1] + (f"the value of a step is stored at position {i.v} of a dataset covering {list(t.a[0])}",))
                    else:
                        done.add((o[2], k))
                        where[(o[2], k)] = o[1]
                else:
                    und.append(f"position of the store at {o[-4]}:{o[-3]} not modelled")
                v = o[4]
                c = linear(v.t, {"va": "meteo.temp", "vb": "snow.temp"}[o[2]]) if isinstance(v, Num) else None
                if c is None:
                    und.append(f"value stored at {o[-4]}:{o[-3]} not modelled")
                elif isinstance(c, str) or c != {k: 1}:
                    bad.append(("point-value",) + o[-4:-1] + ("the value stored for a step is not the current value of the variable",))
                elif isinstance(v.sp, tuple) and v.sp[0] == "pts":
                    rc = [axis_of(r, x) for x in v.sp[1:]]
                    if rc == ["1", "0"]:
                        bad.append(("point-value",) + o[-4:-1] + ("row and column positions of the points are interchanged",))
            elif o[0] == "file":
                t = dict(o[3]).get("time")
                if not isinstance(t, Dates):
                    und.append(f"dates written at {o[-4]}:{o[-3]} not modelled")
                    continue
                n += 1
                files[o[2]] = (files.get(o[2], ()) if o[1] == "a" else ()) + t.a[0]
                miss = [d for d in t.a[0] if ("va", d) not in done]
                if miss:
                    bad.append(("point-once",) + o[-4:-1] + ("dates are written to file before their values have been stored",))
                if o[1] == "a" and len(o) > 8 and isinstance(o[4], PC) and o[4].v:
                    bad.append(("point-once",) + o[-4:-1] + ("a header line is written again between the dates of a file",))
        for v in ("va", "vb"):
            if v not in got:
                bad.append(("point-value",) + loc + (f"a step does not store the value of every variable",))
    else:
        if fmt == "memory":
            s = r.st.heap[r.self.a[0]].attrs.get("data")
            if isinstance(s, DsV):
                t = e.ds[s.a[0]].times.get("time")
                if isinstance(t, Dates) and (list(t.a[0]) != list(range(N)) or any(where.get((v, k)) != s.a[0] for v in ("va", "vb") for k in range(N))):
                    bad.append(("point-kept",) + loc + ("the in-memory dataset does not hold all dates after the run",))
            elif isinstance(s, PC) and s.v is None:
                bad.append(("point-kept",) + loc + ("the in-memory dataset is dropped during the run",))
            else:
                und.append("in-memory dataset not modelled")
        else:
            if not files and not und:
                bad.append(("point-once",) + loc + ("no file is written in the whole run",))
            for f, ts in files.items():
                if list(ts) != list(range(N)):
                    bad.append(("point-once",) + loc + (f"after a run over dates 0..{N - 1} a {fmt} file holds the dates {list(ts)}",))
            if fmt == "csv" and files and len(files) != 2 and not und:
                bad.append(("point-once",) + loc + (f"{len(files)} files are written for 2 points",))
    und += [f"{q}:{l} {t}" for q, l, t in dict.fromkeys(r.undecided) if q.endswith(".update") and "dim3" not in t]
    return dict(bad=bad, und=und, n=n)


def axis_of(r, cells):
    """'0' when the positions come from the first element of rowcol(), '1' from the second"""
    for c in cells:
        i = int("".join(x for x in c if x.isdigit()) or -1)
        v = r.st.heap.get(i)
        s = repr(v.t) if isinstance(v, Num) else repr(v)
        if "rowcol" in s:
            j = s.rfind("'unpack'")
            for q in ("), 0)", "), 1)"):
                if q in s[s.find("rowcol"):]:
                    return q[3]
    return None


def _one(pr, sc, spec, case):
    r = grids(pr, sc, spec, case) if case[0] == "grid" else points(pr, sc, spec, case)
    return r


def work(pr, sc, item):
    return guarded(_one, pr, sc, item)


def run(ctx):
    for k, t in RULES.items():
        ctx.rule(k, t)
    pr, sc = ctx.project, ctx.schema
    spec = base(pr, sc)
    cases = grid_cases(ctx.thorough) + point_cases(ctx.thorough)
    ok = 0
    for show_, res, err in runner.pmap(work, pr, sc, [(spec, c) for c in cases]):
        if res is None:
            ctx.und(f"{show_}: {err}")
            continue
        ok += 1
        ctx.cov["histories"] = ctx.cov.get("histories", 0) + 1
        ctx.cov["stores_and_writes_checked"] = ctx.cov.get("stores_and_writes_checked", 0) + res["n"]
        for u in res["und"]:
            ctx.und(f"{u} ({show_[:60]})")
        for rule, file, line, qual, msg in res["bad"]:
            ctx.violate(rule, file, line, short(qual), msg, msg, show_)
    if not ok:
        raise AnalysisBroken("no output history could be analysed")
    ctx.assumptions += ["dates are abstracted to their position in the period; histories of 6 steps with several write patterns stand for runs of any length",
                        "xarray, pandas and netCDF4 operations behave as documented"]
