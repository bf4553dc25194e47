"""Scenarios in which the output managers are interpreted."""
import traceback

from oasa import runner, poly as p
from oasa.outsim import OutRun, OutEngine, Dates, Mask, DsV, DsVar
from oasa.project import AnalysisBroken
from oasa.values import *

G = ("output_data", "grids")
T = ("output_data", "timeseries")
N = 6


def base(pr, sc, model="multilayer"):
    specs = [s for s in runner.all_specs(pr, sc, bases_only=True)[0] if s.get(("snow", "model")) == model]
    if not specs:
        raise AnalysisBroken(f"no accepted configuration with the {model} snow model")
    return dict(min(specs, key=lambda s: sum(v is True for v in s.values())))


def grid_fields(pat):
    a, b, c = pat[:3]
    fs = [dict(var="meteo.precip", name="va", agg="sum", freq="D", dates=a), dict(var="snow.temp", name="vb", agg="mean", freq="D", dates=b),
            dict(var="meteo.temp", name="vc", agg=None, freq="D", dates=c), dict(var="snow.density", name="vd", agg=None, freq="D", dates=a),
            dict(var="meteo.rel_hum", name="ve", agg="mean", freq="D", dates=a), dict(var="snow.ice_content", name="vf", agg="sum", freq="D", dates=c)]
    return fs[::-1] if len(pat) > 3 else fs


PATTERNS = [((2, 4, 5), (1, 5), (0, 3)), ((5,), (0, 1, 2, 3, 4, 5), (-4, 2, 11)), ((0, 2, 5), (0, 3, 5), (0, 4, 5), "reversed"), ((2, 4, 5), (1, 5), (2, 4, 5), "reversed")]
MORE = [((0, 5), (3,), (4, 5)), ((1, 2), (4,), (0,))]
POINTS = [(0, 2, 4), (1, 3), (5,), (2, 3), (0, 1, 2, 3, 4, 5)]


def grid_cases(thorough):
    out = []
    for fmt, lay, app in (("memory", "grid", None), ("memory", "roi_pixel", None), ("netcdf", "grid", False), ("netcdf", "grid", True),
                          ("netcdf", "roi_pixel", False), ("netcdf", "roi_pixel", True), ("ascii", "grid", None), ("geotiff", "grid", None)):
        for pat in PATTERNS + (MORE if thorough else []):
            fs = grid_fields(pat)
            if fmt in ("ascii", "geotiff"):
                out += [("grid", fmt, lay, app, [f]) for f in (fs if thorough else fs[:3] if len(pat) < 4 else fs[3:])]
            else:
                out.append(("grid", fmt, lay, app, fs))
    return out


def point_cases(thorough):
    return [("point", f, x) for f in ("netcdf", "csv") for x in POINTS] + [("point", "memory", (2, 3))]


def open_case(pr, sc, spec, case, rasters=False, engine=OutEngine):
    spec = dict(spec)
    if case[0] == "grid":
        _, fmt, lay, app, fs = case
        spec[G + ("format",)] = fmt
        spec[G + ("layout",)] = lay
        spec[G + ("variables",)] = [{k: list(v) if isinstance(v, tuple) else v for k, v in f.items()} for f in fs]
        if app is not None:
            spec[G + ("append",)] = app
        cls = pr.mod("openamundsen.fileio.griddedoutput").classes.get("GriddedOutputManager")
        freq = None
    else:
        _, fmt, freq = case[:3]
        dflt = len(case) > 3
        spec[T + ("format",)] = fmt
        spec[T + ("variables",)] = [dict(var="meteo.temp", name="va"), dict(var="snow.temp", name="vb")]
        spec[T + ("add_default_variables",)] = dflt
        spec[T + ("add_default_points",)] = dflt
        spec[T + ("points",)] = [dict(x=1, y=2, name="q1"), dict(x=3, y=4)]
        cls = pr.mod("openamundsen.fileio.pointoutput").classes.get("PointOutputManager")
    if cls is None:
        raise AnalysisBroken("output manager class not found")
    return OutRun(pr, sc, spec, cls, N, None, freq, rasters, engine=engine)


def show(case):
    if case[0] == "grid":
        return f"grids: format {case[1]}, layout {case[2]}" + (f", append {case[3]}" if case[3] is not None else "") + "; " + ", ".join(f"{f['var']}:{f['agg']}@{list(f['dates'])}" for f in case[4])
    if case[0] == "live":
        return f"live view, blit {case[1]}"
    return f"timeseries: format {case[1]}, write dates {list(case[2])}"


def guarded(fn, pr, sc, item):
    spec, case = item
    try:
        return show(case), fn(pr, sc, spec, case), None
    except AnalysisBroken:
        raise
    except Exception:
        return show(case), None, traceback.format_exc().strip().splitlines()[-1]


def at_roi(t, v):
    """value inside (v=1) or outside (v=0) the region of interest"""
    one = lambda q: p.subst(q, lambda a: p.C(v) if p.P(a) == ROI else None)
    return lift(one, t)


def atoms_of(t):
    xs = [t.base] + [b for kv in t.ov for b in kv] if isinstance(t, Lay) else [t]
    for x in xs:
        for i in x.atoms():
            yield p.get_atom(i)
