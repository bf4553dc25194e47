"""Builds a small synthetic model domain in a scratch directory (used by the demonstrations)."""
import atexit
import copy
import os
import shutil
import sys
import tempfile
import warnings

_SCRATCH = tempfile.mkdtemp(prefix="oademo")
atexit.register(shutil.rmtree, _SCRATCH, True)
os.environ["NUMBA_CACHE_DIR"] = os.path.join(_SCRATCH, "numba")
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
warnings.filterwarnings("ignore")

import numpy as np
import pandas as pd

import openamundsen as oa

N, M = 5, 6
RES = 100.0


def _asc(path, arr, nodata=-9999):
    with open(path, "w") as f:
        f.write(f"ncols {arr.shape[1]}\nnrows {arr.shape[0]}\nxllcorner 600000\nyllcorner 5200000\ncellsize {RES:g}\nNODATA_value {nodata}\n")
        for r in arr:
            f.write(" ".join(str(x) for x in r) + "\n")


def domain(tmp, dates, meteo=None, lc=None, soil=None, roi=None, dem=None, srf=None, extra_grids=None, stations=2):
    """write grids and station files; meteo: dict of column -> array/scalar"""
    g = os.path.join(tmp, "grids")
    m = os.path.join(tmp, "meteo")
    os.makedirs(g, exist_ok=True)
    os.makedirs(m, exist_ok=True)
    if dem is None:
        yy, xx = np.mgrid[0:N, 0:M]
        dem = 2000.0 + 40 * xx + 25 * yy + 10 * np.sin(xx * yy)
    _asc(os.path.join(g, "dem_x_100.asc"), np.round(dem, 2))
    if roi is None:
        roi = np.ones((N, M), int)
        roi[0, :] = 0
        roi[:, 0] = 0
    _asc(os.path.join(g, "roi_x_100.asc"), roi)
    for nm, a in (("lc", lc), ("soil", soil), ("srf", srf), *((extra_grids or {}).items())):
        if a is not None:
            _asc(os.path.join(g, f"{nm}_x_100.asc"), a)
    cols = dict(temp=275.0, precip=1.0, rel_hum=70.0, sw_in=300.0, wind_speed=2.0)
    cols.update(meteo or {})
    st = []
    for i in range(stations):
        df = pd.DataFrame({k: (np.asarray(v[i]) if isinstance(v, (list, tuple)) else v) for k, v in cols.items()}, index=dates)
        df.index.name = "date"
        df.to_csv(os.path.join(m, f"s{i}.csv"))
        st.append((f"s{i}", f"station {i}", 600150 + 250 * i, 5200150 + 150 * i, 2000 + 150 * i))
    pd.DataFrame(st, columns=["id", "name", "x", "y", "alt"]).to_csv(os.path.join(m, "stations.csv"), index=False)
    return g, m


def config(tmp, dates, overrides=None, timestep="h"):
    c = dict(domain="x", start_date=str(dates[0]), end_date=str(dates[-1]), resolution=100, timestep=timestep,
             crs="epsg:32632", timezone=1, enable_default_logging=False,
             input_data=dict(grids=dict(dir=os.path.join(tmp, "grids")),
                             meteo=dict(dir=os.path.join(tmp, "meteo"), format="csv", crs="epsg:32632")),
             output_data=dict(timeseries=dict(format="memory"), grids=dict(format="memory")))

    def upd(a, b):
        for k, v in b.items():
            if isinstance(v, dict) and isinstance(a.get(k), dict):
                upd(a[k], v)
            else:
                a[k] = v

    upd(c, copy.deepcopy(overrides or {}))
    return c


def build(dates=None, overrides=None, timestep="h", init=True, **kw):
    """-> (initialized model, tmp dir)"""
    if dates is None:
        dates = pd.date_range("2020-01-15 00:00", periods=24, freq="h")
    tmp = tempfile.mkdtemp(dir=_SCRATCH)
    domain(tmp, dates, **kw)
    model = oa.OpenAmundsen(oa.Configuration.fromDict(config(tmp, dates, overrides, timestep)))
    if init:
        model.initialize()
    return model, tmp


def dates(start="2020-01-15 00:00", n=24, freq="h"):
    return pd.date_range(start, periods=n, freq=freq)
