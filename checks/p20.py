"""P20 compact output expands back: named-axis typing of the converter on the dataset the writer creates."""
from oasa import runner, poly as p
from oasa.convsim import ConvEngine, AxS, AxFlat, PixPart, Confused, ROWS, COLS
from oasa.outsim import Dates, DsV
from oasa.project import AnalysisBroken
from oasa.values import *
from .common import short
from .outcommon import *

RULES = {
    "writer-pixels": "the writer numbers the pixels of a compact dataset in row-major order of the region of interest and stores values in that order",
    "writer-axes": "the full-grid writer labels rows with y and columns with x coordinates of the grid",
    "converter-attrs": "the converter reads only attributes which the writer stores",
    "converter-rejects": "the converter accepts the layout marker the writer stores",
    "pixel-position": "pixel k of every variable is put at row k // columns, column k % columns",
    "axis-names": "every dimension name of an expanded variable belongs to the axis it names",
    "coordinates": "expanded x and y coordinates are those of the model grid",
    "fill-value": "pixels outside the region of interest hold the no-data value of the variable as it was opened",
    "kept": "every variable and every other coordinate of the compact dataset is kept",
}
FIELDS = [dict(var="meteo.temp", name="va", agg=None, freq="D", dates=(0, 2)), dict(var="snow.temp", name="vb", agg="mean", freq="D", dates=(1, 2)),
          dict(var="snow.num_layers", name="vc", agg=None, freq="D", dates=(0, 2)), dict(var="snow.num_layers", name="vd", agg="sum", freq="D", dates=(1, 2))]


def same(a, b):
    """True / False / None (not decided)"""
    d = p.sub(a, b)
    if d.is_zero():
        return True
    for i in d.atoms():
        x = p.get_atom(i)
        if x.kind != "sym" and not (x.kind == "fn" and x.key[0] == "arange"):
            return None
    return False


def one(pr, sc, spec, case):
    bad, und, n = [], [], 0
    r = open_case(pr, sc, spec, case, engine=ConvEngine)
    if r.error or r.failed:
        return dict(bad=[], und=[f"{r.error or r.failed}"], n=0)
    e, st = r.e, r.st
    stores = []
    for k in range(3):
        ops, _, dead = r.step(k)
        if dead:
            return dict(bad=[], und=[f"update() ends with {dead}"], n=0)
        stores += [o for o in ops if o[0] == "store"]
    made = [(i, d) for i, d in enumerate(e.ds) if getattr(d, "raw", None)]
    if not made:
        return dict(bad=[], und=["no dataset is created"], n=0)
    i, d = made[0]
    fmt, lay = case[1], case[2]
    if lay == "grid":
        for c, q, nm in (("x", "X", "columns"), ("y", "Y", "rows")):
            v = d.coords.get(c)
            n += 1
            t = numterm(e, st, v)
            if not isinstance(t, p.Poly):
                und.append(f"coordinate {c} not modelled")
            elif any(p.get_atom(j).key and str(p.get_atom(j).key[0]) in ("grid." + ("Y" if q == "X" else "X"),) for j in all_atoms(t)):
                bad.append(("writer-axes",) + r.pr_create + (f"the {c} coordinate is taken from the {'y' if c == 'x' else 'x'} coordinates of the grid",))
        for f in case[4]:
            dims = d.dims.get(f["name"])
            n += 1
            if dims and tuple(dims[-2:]) != ("y", "x"):
                bad.append(("writer-axes",) + r.pr_create + (f"a gridded variable is stored with the dimensions {dims}",))
        return dict(bad=bad, und=und, n=n)
    px = d.coords.get("pixel")
    n += 1
    if isinstance(px, RangeV) or not isinstance(px, FlatIdx) and "arange" in repr(e.key(px, st)) + (repr(st.heap.get(px.a[0])) if isinstance(px, Ref) else ""):
        bad.append(("writer-pixels",) + r.pr_create + ("the pixel coordinate is a running number, not the position in the grid",))
    elif not isinstance(px, FlatIdx):
        und.append("pixel coordinate not modelled")
    elif px.a[0] != ROI:
        bad.append(("writer-pixels",) + r.pr_create + ("the pixel coordinate does not number the pixels of the region of interest",))
    for o in stores:
        v = o[4]
        if o[2] in d.dims and "pixel" in d.dims[o[2]] and isinstance(v, Num):
            n += 1
            if isinstance(v.sp, tuple) and v.sp[0] == "P" and v.sp[1] != ROI or v.sp in ("G",):
                bad.append(("writer-pixels",) + o[-4:-1] + ("the values stored are not those of the pixels of the region of interest",))
            elif not isinstance(v.sp, tuple):
                und.append(f"pixel order of the store at {o[-4]}:{o[-3]} not modelled")
    # ---- converter
    f = pr.mod("openamundsen.util").funcs.get("convert_roi_pixel_dataset_to_grid")
    if f is None:
        raise AnalysisBroken("util.convert_roi_pixel_dataset_to_grid not found")
    loc = (f.mod.rel, f.node.lineno, f.qual)
    fills = {}
    for v in d.dims:
        fv = d.vattrs.get(v, {}).get("_FillValue")
        fills[v] = fv
        d.vdtype[v] = "float32" if isinstance(fv, PC) and fv.v != fv.v or isinstance(fv, Num) and fv.t == NANT else "int32"
    for decoded in ((True, False) if fmt == "netcdf" else (False,)):
        e.conv, e.decoded, e.result, e.problems, e.sizes = True, decoded, None, [], {}
        for dims in d.dims.values():
            for x in dims:
                e.sizes[e.axkey(e.dimsize(x), st)] = e.dimsize(x)
        try:
            res = e.call_func(FnV(f, None), [DsV(i)], {}, st, f.node)
        except Dead as x:
            if e.problems:
                bad += e.problems
            else:
                bad.append(("converter-rejects",) + loc + ("the converter rejects or fails on every dataset the writer creates",))
            continue
        except Confused as x:
            und.append(f"converter: {x}")
            continue
        finally:
            e.conv = False
        bad += e.problems
        if not isinstance(res, DsV):
            und.append("result of the converter not modelled")
            continue
        o = e.ds[res.a[0]]
        sizes = {e.axkey(e.dimsize(x), st): x for dims in d.dims.values() for x in dims}
        sizes[e.axkey(ROWS, st)] = "y"
        sizes[e.axkey(COLS, st)] = "x"
        a = {k: v[0] for k, v in d.attrs.items()}
        for v in d.dims:
            n += 1
            if v == "pixel":
                continue
            if v not in o.dims:
                bad.append(("kept",) + loc + ("a variable or coordinate is missing from the expanded dataset",))
                continue
            if v in d.coords:
                if o.dims[v] != d.dims[v]:
                    bad.append(("axis-names",) + loc + ("a coordinate changes its dimensions",))
                continue
            s = e.ax(o.vals.get(v), st) if v in o.vals else None
            if s is None:
                und.append(f"values of {v} not modelled")
                continue
            names = tuple(sizes.get(x) for x in s.axes)
            if None in names:
                und.append(f"axes of {v} not modelled")
            elif names != tuple(o.dims[v]):
                bad.append(("axis-names",) + loc + (f"a variable whose axes are {names} gets the dimensions {tuple(o.dims[v])}",))
            want = tuple(y for x in d.dims[v] for y in (("y", "x") if x == "pixel" else (x,)))
            if set(o.dims[v]) != set(want):
                bad.append(("axis-names",) + loc + (f"a variable gets the dimensions {tuple(o.dims[v])} instead of {want}",))
            if len(s.puts) != 1:
                und.append(f"{len(s.puts)} stores into {v}")
                continue
            tail, how, idx, w, lead, line = s.puts[0]
            at = (f.mod.rel, line, f.qual)
            tn = tuple(sizes.get(x) for x in tail)
            if isinstance(how, tuple):
                parts = how
                if any(x.a[1] != FlatIdx(ROI) for x in parts):
                    und.append("pixel index not modelled")
                elif tuple(x.a[0] for x in parts) != tuple({"y": "row", "x": "col"}.get(t) for t in tn) or any(sizes.get(x.a[2]) != "x" for x in parts):
                    bad.append(("pixel-position",) + at + ("pixels are not put at row k // columns, column k % columns",))
            else:
                if idx != FlatIdx(ROI):
                    und.append("pixel index not modelled")
                elif tn != ("y", "x") or how != "C":
                    bad.append(("pixel-position",) + at + (f"pixel numbers are taken as positions in {'column' if how == 'F' else 'row'}-major order of {tn}",))
            if tuple(sizes.get(x) for x in w.axes) != tuple(sizes.get(x) for x in lead) + ("pixel",):
                bad.append(("axis-names",) + at + (f"values with axes {tuple(sizes.get(x) for x in w.axes)} are stored into axes {tuple(sizes.get(x) for x in lead) + ('pixel',)}",))
            if w.content != ("var", v):
                bad.append(("kept",) + at + ("a variable receives the values of another variable",))
            fv, fl = s.fill or (None, 0)
            nan = isinstance(fv, PC) and fv.v != fv.v or isinstance(fv, Num) and fv.t == NANT or isinstance(fv, Ext) and fv.a[0].endswith(".nan")
            if decoded and not nan:
                if isinstance(fv, (PC, Num)) or fv == fills[v] and fv is not None:
                    bad.append(("fill-value", f.mod.rel, fl, f.qual, "integer variables of a decoded dataset (missing values are NaN) are filled with the undecoded fill value outside the region of interest"))
                else:
                    und.append("fill value not modelled")
            elif not decoded and fv != fills[v] and not (nan and d.vdtype[v].startswith("float")):
                if nan or isinstance(fv, PC) and isinstance(fills[v], (PC, Opq)):
                    bad.append(("fill-value", f.mod.rel, fl, f.qual, "pixels outside the region of interest do not get the fill value of the variable"))
                else:
                    und.append("fill value not modelled")
        g = lambda v: e.num(v, st).t
        tr = e.getattr(st.heap[r.model.a[0]].attrs["grid"], "transform", st, f.node)
        xo, yo = g(e.getattr(tr, "xoff", st, f.node)), g(e.getattr(tr, "yoff", st, f.node))
        res_ = p.sym("grid.resolution")
        half = p.C(p.Fraction(1, 2))
        for c, w in (("x", p.add(xo, p.mul(res_, p.add(p.fn("arange", g(COLS)), half)))), ("y", p.sub(yo, p.mul(res_, p.add(p.fn("arange", g(ROWS)), half))))):
            n += 1
            v = o.vals.get(c)
            if v is None and c not in o.dims:
                bad.append(("coordinates",) + loc + (f"the expanded dataset has no {c} coordinate",))
                continue
            t = numterm(e, st, v)
            ok = same(t, w) if isinstance(t, p.Poly) else None
            if ok is None:
                und.append(f"{c} coordinate not modelled")
            elif not ok:
                bad.append(("coordinates",) + loc + (f"the {c} coordinates of the expanded dataset differ from those of the model grid",))
            elif o.dims.get(c) != (c,):
                bad.append(("coordinates",) + loc + (f"the {c} coordinate gets the dimension {o.dims.get(c)}",))
    und += [f"{q}:{l} {t}" for q, l, t in dict.fromkeys(r.undecided) if "convert_roi" in q]
    return dict(bad=bad, und=und, n=n)


def numterm(e, st, v):
    if isinstance(v, Ref) and isinstance(st.heap.get(v.a[0]), Num) or isinstance(v, Num):
        return e.num(v, st).t
    return None


def all_atoms(t, seen=None):
    for i in t.atoms():
        yield i
        for k in p.get_atom(i).key:
            if isinstance(k, p.Poly):
                yield from all_atoms(k)


def work(pr, sc, item):
    return guarded(one, pr, sc, item)


def run(ctx):
    for k, t in RULES.items():
        ctx.rule(k, t)
    pr, sc = ctx.project, ctx.schema
    specs = [base(pr, sc)] + ([base(pr, sc, "cryolayers")] if ctx.thorough else [])
    cases = [("grid", f, l, a, FIELDS[:k]) for f, l, a in (("memory", "roi_pixel", None), ("netcdf", "roi_pixel", False), ("netcdf", "roi_pixel", True), ("memory", "grid", None), ("netcdf", "grid", False)) for k in (4, 1)]
    ok = 0
    for name, res, err in runner.pmap(work, pr, sc, [(s, c) for s in specs for c in cases]):
        if res is None:
            ctx.und(f"{name}: {err}")
            continue
        ok += 1
        ctx.cov["writer_converter_pairs"] = ctx.cov.get("writer_converter_pairs", 0) + 1
        ctx.cov["obligations"] = ctx.cov.get("obligations", 0) + res["n"]
        for u in res["und"]:
            ctx.und(f"{u} ({name[:60]})")
        for rule, file, line, qual, msg in res["bad"]:
            ctx.violate(rule, file, line, short(qual), msg, msg, name)
    if not ok:
        raise AnalysisBroken("neither writer nor converter could be analysed")
    ctx.assumptions += ["raster transforms are north-up with square pixels (prepare_coordinates rejects others)", "xarray moves _FillValue from attrs to encoding and decodes it to NaN on reading unless mask_and_scale=False"]
