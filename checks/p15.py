"""P15 outputs only observe: frame analysis of everything that existed before the output code ran."""
from oasa import runner, poly as p
from oasa.interp import MUTATORS
from oasa.outsim import OutRun, DsV, DsVar
from oasa.project import AnalysisBroken
from oasa.values import *
from .common import short
from .outcommon import *

RULES = {
    "frame-field": "no output code stores to a state field or to the region of interest",
    "frame-object": "no output code changes an attribute, list or mapping that existed before the outputs were created",
    "frame-config": "no output code changes the configuration",
    "frame-forcing": "no output code changes the forcing dataset or another object held by the model",
    "frame-global": "no output code changes a module-level table",
    "stored-copies": "datasets handed out by outputs share no memory with state fields",
}
LIVE = [dict(var="meteo.temp", min=0, max=1), dict(var="snow.num_layers", min=0, max=1), dict(var="snow.albedo", min=0, max=1)]


def root_in(tag, known):
    """is the object an alias of (a part of) an object in `known`?"""
    for _ in range(60):
        try:
            if tag in known:
                return True
        except TypeError:
            pass
        if not isinstance(tag, tuple) or len(tag) < 2:
            return False
        if tag[0] in ("constdict", "cfg", "caller"):
            return True
        if tag[0] in ("attr", "item"):
            tag = tag[1]
            if isinstance(tag, Opq):
                tag = tag.a[0]
        else:
            return False
    return False


def preexisting(r):
    """opaque objects held by the model"""
    known, seen, todo = set(), set(), [r.before.get(r.model.a[0])]
    while todo:
        v = todo.pop()
        if isinstance(v, ObjS):
            todo += list(v.attrs.values())
        elif isinstance(v, Ref):
            if v.a[0] not in seen:
                seen.add(v.a[0])
                todo.append(r.before.get(v.a[0]))
        elif isinstance(v, Tup):
            todo += list(v.a[0])
        elif isinstance(v, ListS):
            todo += list(v.items)
        elif isinstance(v, DictS):
            todo += list(v.items.values())
        elif isinstance(v, Opq) and not (isinstance(v.a[0], tuple) and v.a[0][0] == "inst"):
            try:
                known.add(v.a[0])
            except TypeError:
                pass
    return known


def frame(r, bad, known, evs, own):
    e, st = r.e, r.st
    fcell = {c: f"{a}.{b}" for (a, b), c in e.fieldcell.items()}
    hit = set()
    n = 0
    for v in evs:
        n += 1
        at = (v.file, v.line, v.func)
        if v.kind == "write" and (v.data["cid"] in fcell or v.data["cid"] in r.before and v.data["cid"] not in own):
            hit.add(v.data["cid"])
            nm = fcell.get(v.data["cid"])
            bad.append(("frame-field",) + at + (f"output code stores to the state field {nm}" if nm else f"output code stores to the model's array {v.data['field'] or ''}",))
        elif v.kind == "rebind":
            bad.append(("frame-field",) + at + (f"output code replaces the state field {v.msg}",))
        elif v.kind == "reset":
            bad.append(("frame-field",) + at + ("output code resets the state fields",))
        elif v.kind == "cfgwrite":
            bad.append(("frame-config",) + at + (f"output code changes the configuration ({v.msg[:60]})",))
        elif v.kind == "globalwrite":
            bad.append(("frame-global",) + at + (f"output code changes the module-level table {v.msg}",))
        elif v.kind == "opqwrite" and root_in(v.data["tag"], known):
            t = v.data["tag"]
            while isinstance(t, tuple) and len(t) > 1 and t[0] in ("attr", "item"):
                t = t[1] if not isinstance(t[1], Opq) else t[1].a[0]
            cfg = isinstance(t, tuple) and t[0] in ("constdict", "cfg")
            bad.append(("frame-config" if cfg else "frame-forcing",) + at + ("output code changes an entry of the configuration" if cfg else "output code stores to the forcing dataset or another object held by the model",))
        elif v.kind == "opqcall" and isinstance(v.data["tag"], tuple) and v.data["tag"][0] == "attr" and v.data["tag"][-1] in MUTATORS and root_in(v.data["tag"][1], known):
            bad.append(("frame-forcing",) + at + (f"output code calls {v.data['tag'][-1]}() on an object held by the model",))
        elif v.kind == "listwrite" and v.data["cid"] in r.before and v.data["cid"] not in own:
            bad.append(("frame-object",) + at + (f"output code calls {v.msg}() on a container held by the model",))
    for c, old in r.before.items():
        if c in own or c in hit or c in r.fresh:
            continue
        new = st.heap.get(c)
        if isinstance(old, ObjS) and isinstance(new, ObjS):
            for k in set(old.attrs) | set(new.attrs):
                if (c, k) in r.allowed or old.attrs.get(k) == new.attrs.get(k):
                    continue
                w = [v for v in evs if v.kind == "setattr" and v.data["attr"] == k]
                if not w:
                    continue
                at = (w[-1].file, w[-1].line, w[-1].func)
                bad.append(("frame-object",) + at + (f"output code changes the attribute {k} of {old.cls.name if old.cls else 'an object'}",))
                r.allowed.add((c, k))
    return n


def aliases(r, bad):
    e, st = r.e, r.st
    fcell = {c: f"{a}.{b}" for (a, b), c in e.fieldcell.items()}

    def cells(v, d=0):
        if d > 6:
            return
        if isinstance(v, (Ref, View, Flat)):
            c = v.a[0]
            if isinstance(c, (Ref, View)):
                c = c.a[0]
            if c in fcell:
                yield fcell[c]
            s = st.heap.get(c) if not isinstance(c, (Ref, View)) else None
            if isinstance(s, DictS):
                for x in s.items.values():
                    yield from cells(x, d + 1)
            elif isinstance(s, ListS):
                for x in s.items:
                    yield from cells(x, d + 1)
        elif isinstance(v, Tup):
            for x in v.a[0]:
                yield from cells(x, d + 1)
    n = 0
    for d in e.ds:
        for v in getattr(d, "raw", None) or ():
            n += 1
            for f in cells(v) if v is not None else ():
                bad.append(("stored-copies",) + r.pr_create + (f"the output dataset contains the array of the state field {f} itself",))
        for v, line, fn in d.set_later:
            n += 1
            for f in cells(v):
                bad.append(("stored-copies", fn.mod.rel, line, fn.qual, f"the output dataset contains the array of the state field {f} itself"))
    return n


def one(pr, sc, spec, case):
    bad, und, n = [], [], 0
    if case[0] == "live":
        spec = {**spec, ("liveview", "variables"): LIVE, ("liveview", "blit"): case[1]}
        cls = pr.mod("openamundsen.liveview").classes.get("LiveView")
        if cls is None:
            raise AnalysisBroken("class LiveView not found")

        def args(e, st, obj):
            g = st.heap[obj.a[0]].attrs["grid"]
            return [CfgV(("liveview",)), StateV(), e.getattr(g, "roi", st, cls.node)]
        r = OutRun(pr, sc, spec, cls, 2, None, rasters=True, args=args)
        calls = [("create_window", []), ("update", [Opq(("date",))]), ("update", [Opq(("date",))]), ("close", [])]
    else:
        r = open_case(pr, sc, spec, case, rasters=True)
        calls = None
    if r.error:
        return dict(bad=[], und=[f"model initialization: {r.error}"], n=0)
    known = preexisting(r)
    r.allowed = {(r.model.a[0], "date"), (r.model.a[0], "date_idx")}
    r.fresh = set(r.e.fieldcell.values())
    own = {r.self.a[0]}
    n += frame(r, bad, known, r.init_events, own)
    if r.failed:
        return dict(bad=bad, und=[f"{r.cls.name}(): {r.failed}"], n=n)
    if calls is None:
        for k in range(4):
            ops, evs, dead = r.step(k)
            n += frame(r, bad, known, evs, own)
            if dead:
                und.append(f"update() ends with {dead}")
                break
    else:
        for nm, a in calls:
            f = pr.find_method(r.cls, nm)
            if f is None:
                continue
            k0 = len(r.e.events)
            r.e._evkeys = set()
            try:
                r.e.call_func(FnV(f, r.self), a, {}, r.st, f.node)
            except Dead as d:
                und.append(f"{nm}() ends with {d.what}")
            n += frame(r, bad, known, r.e.events[k0:], own)
    n += aliases(r, bad)
    return dict(bad=bad, und=und, n=n)


def work(pr, sc, item):
    return guarded(one, pr, sc, item)


def run(ctx):
    for k, t in RULES.items():
        ctx.rule(k, t)
    pr, sc = ctx.project, ctx.schema
    specs = [base(pr, sc)] + ([base(pr, sc, "cryolayers")] if ctx.thorough else [])
    gc = grid_cases(ctx.thorough)
    cases = (gc if ctx.thorough else gc[::2]) + point_cases(ctx.thorough) + [("point", "netcdf", (0, 2, 4), True), ("point", "memory", (0, 2), True), ("live", True), ("live", False)]
    ok = 0
    for name, res, err in runner.pmap(work, pr, sc, [(s, c) for s in specs for c in cases]):
        if res is None:
            ctx.und(f"{name}: {err}")
            continue
        ok += 1
        ctx.cov["output_histories"] = ctx.cov.get("output_histories", 0) + 1
        ctx.cov["effects_examined"] = ctx.cov.get("effects_examined", 0) + res["n"]
        for u in res["und"]:
            ctx.und(f"{u} ({name[:60]})")
        for rule, file, line, qual, msg in res["bad"]:
            ctx.violate(rule, file, line, short(qual), msg, msg, name)
    if not ok:
        raise AnalysisBroken("no output code could be analysed")
    ctx.assumptions += ["libraries (xarray, netCDF4, rasterio, matplotlib) do not modify arrays they are given for writing or plotting",
                        "fancy and boolean indexing, arithmetic and astype return copies; basic indexing, view() and astype(copy=False) return views"]
