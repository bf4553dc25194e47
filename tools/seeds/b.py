CRYO = "openamundsen/modules/snow/cryolayermodel.py"
CAN = "openamundsen/modules/canopy/canopy.py"
ET = "openamundsen/modules/evapotranspiration/evapotranspiration.py"
MODEL = "openamundsen/model.py"
GO = "openamundsen/fileio/griddedoutput.py"
PO = "openamundsen/fileio/pointoutput.py"
SEEDS = [
 dict(id="b05_merge_drops_water", property="P06",
  edits=[(CRYO, "        s.liquid_water_content[dst_layer, pos_merge] += s.liquid_water_content[src_layer, pos_merge]\n",
                "        s.liquid_water_content[dst_layer, pos_merge] = s.liquid_water_content[src_layer, pos_merge]\n")],
  needs="cryolayer model, a new-snow layer that becomes old snow on top of wet old snow",
  what="the liquid water of the old snow layer is lost when the new snow layer is merged into it",
  demo='''from demo_lib import *
m, tmp = build(overrides=dict(snow=dict(model="cryolayers")))
s = m.state.snow
roi = m.grid.roi
s.ice_content[:2, roi] = 100.0
s.liquid_water_content[0, roi] = 1.0
s.liquid_water_content[1, roi] = 5.0
s.density[:2, roi] = 300.0
s.thickness[:2, roi] = 1 / 3
s.layer_albedo[:2, roi] = 0.7
before = (s.ice_content + s.liquid_water_content).sum(axis=0)[roi]
m.date_idx = 0
m.date = m.dates[0]
m.snow.update_layers()
after = (s.ice_content + s.liquid_water_content).sum(axis=0)[roi]
assert np.allclose(before, after), (before[0], after[0])
'''),
 dict(id="b06_stale_total_precip", property="P07",
  edits=[(CAN, "        s.meteo.precip[pos] = s.meteo.snowfall[pos] + s.meteo.rainfall[pos]\n", "        s.meteo.precip[pos] = np.maximum(s.meteo.precip[pos], s.meteo.snowfall[pos] + s.meteo.rainfall[pos])\n")],
  needs="forest pixels that intercept snowfall",
  what="total precipitation no longer equals snowfall plus rainfall below the canopy",
  demo='''from demo_lib import *
m, tmp = build(overrides=dict(canopy=dict(enabled=True), snow=dict(model="cryolayers")), lc=np.full((5, 6), 5), meteo=dict(temp=263.15, precip=2.0))
for _ in range(3):
    m.run_single()
    s = m.state.meteo
    roi = m.grid.roi
    assert np.allclose(s.precip[roi], s.snowfall[roi] + s.rainfall[roi])
'''),
 dict(id="b07_sealed_capacity", property="P09",
  edits=[(ET, """            s_et.sealed_interception[pos_dry],
        )
        s_et.sealed_interception[pos_dry] -=""", """            max_interception,
        )
        s_et.sealed_interception[pos_dry] -=""")],
  needs="sealed land cover, dry step with strong evaporation and a partly filled interception store",
  what="evaporation from sealed surfaces exceeds the water stored there",
  demo='''from demo_lib import *
ov = dict(evapotranspiration=dict(enabled=True), snow=dict(model="cryolayers"))
m, tmp = build(overrides=ov, lc=np.full((5, 6), 2), soil=np.full((5, 6), 3), dates=dates("2020-07-15 00:00", 24),
               meteo=dict(temp=295.15, precip=0.0, rel_hum=20.0, sw_in=900.0, wind_speed=6.0))
se = m.state.evapotranspiration
se.sealed_interception[m.grid.roi] = 0.05
for _ in range(16):
    m.run_single()
    v = se.sealed_interception[m.grid.roi]
    assert (v >= -1e-12).all(), v.min()
'''),
 dict(id="b08_sealed_lost_water", property="P08",
  edits=[(ET, "        s_et.sealed_interception[pos_dry] -= s_et.evaporation[pos_dry]\n",
              "        s_et.sealed_interception[pos_dry] = (\n            s_et.sealed_interception[pos_dry] - s_et.evaporation[pos_dry]\n        ).clip(max=0.1)\n")],
  needs="sealed land cover and a dry step after rain that left more than 0.1 mm on the surface",
  what="water stored on sealed surfaces disappears without evaporating",
  demo='''from demo_lib import *
ov = dict(evapotranspiration=dict(enabled=True), snow=dict(model="cryolayers"))
m, tmp = build(overrides=ov, lc=np.full((5, 6), 2), soil=np.full((5, 6), 3), dates=dates("2020-07-15 00:00", 24),
               meteo=dict(temp=290.15, precip=0.0, rel_hum=90.0, sw_in=50.0, wind_speed=1.0))
se = m.state.evapotranspiration
roi = m.grid.roi
se.sealed_interception[roi] = 0.6
for _ in range(6):
    old = se.sealed_interception[roi].copy()
    m.run_single()
    new = se.sealed_interception[roi]
    assert np.allclose(old - new, se.evaporation[roi], atol=1e-9), (old[0], new[0], se.evaporation[roi][0])
'''),
 dict(id="b09_resume_restarts", property="P16",
  edits=[(MODEL, """        elif self._run_method == "run_single":
            raise errors.OpenAmundsenRuntimeError(
                "run() cannot be called after run_single() has been called"
            )
""", """        elif self._run_method == "run_single":
            logger.warning("Continuing a stepwise model run")
""")],
  needs="run() called on a model that was advanced with run_single() before",
  what="a partly stepped model run is continued past its last date instead of being refused",
  demo='''from demo_lib import *
from openamundsen import errors
m, tmp = build(dates=dates(n=4))
m.run_single()
seen = []
orig = m.run_single
try:
    m.run()
except errors.OpenAmundsenRuntimeError:
    assert m.date_idx == 0, m.date_idx
else:
    raise AssertionError("run() continued")
'''),
 dict(id="b10_pixel_accumulation", property="P19",
  edits=[(GO, """                field.data = None
                field.num_aggregations = 0
""", """                if self.layout == "grid":
                    field.data = None
                    field.num_aggregations = 0
""")],
  needs="ROI-pixel output layout, a summed field and at least two write dates",
  what="sums of one output interval continue into the next",
  demo='''from demo_lib import *
ov = dict(output_data=dict(grids=dict(format="memory", layout="roi_pixel", variables=[dict(var="meteo.precip", freq="6h", agg="sum")])))
m, tmp = build(dates=dates(n=24), overrides=ov, meteo=dict(precip=1.0))
m.run()
ds = m.gridded_output.data
v = [x for x in ds.data_vars if x.startswith("precip")][0]
a = ds[v].values
assert np.allclose(a[1], a[2]) and np.allclose(a[2], a[3]), a[:, 0]
'''),
 dict(id="b11_point_extends_roi", property="P15",
  edits=[(PO, """                logger.warning(f"Output point is outside of the ROI: {dict(point)}")
""", """                logger.warning(f"Output point is outside of the ROI: {dict(point)}")
                model.grid.roi[row, col] = True
""")],
  needs="an output point outside of the region of interest",
  what="adding an output point changes the region of interest of the simulation",
  demo='''from demo_lib import *
a, tmp = build()
ov = dict(output_data=dict(timeseries=dict(format="memory", points=[dict(x=600050, y=5200450, name="p")])))
b, tmp = build(overrides=ov)
assert (a.grid.roi == b.grid.roi).all()
'''),
 dict(id="b12_file_order", property="P13",
  edits=[("openamundsen/fileio/meteo.py", 'sorted(meteo_data_dir.glob("*.nc"))', 'list(meteo_data_dir.glob("*.nc"))')],
  needs="NetCDF forcing in a directory listed in another order",
  what="the order of the stations depends on the order in which the file system lists the files",
  demo='''from demo_lib import *
import pathlib
import tempfile
import xarray as xr
import openamundsen.fileio.meteo as M
import demo_lib
d = tempfile.mkdtemp(dir=demo_lib._SCRATCH)
t = dates(n=4)
for i in range(4):
    xr.Dataset(dict(tas=("time", np.full(4, 270.0), dict(standard_name="air_temperature", units="K")), lon=11.0 + i, lat=47.0, alt=1000.0),
               coords=dict(time=t), attrs=dict(station_name=f"s{i}")).to_netcdf(f"{d}/s{i}.nc")
orig = pathlib.Path.glob
res = []
for rev in (False, True):
    def glob(self, *a, **k):
        return iter(sorted(orig(self, *a, **k), reverse=rev))
    pathlib.Path.glob = glob
    try:
        meta = M._read_meteo_metadata("netcdf", pathlib.Path(d), "epsg:4326", "epsg:32632")
        res.append([str(x) for x in meta.index])
    finally:
        pathlib.Path.glob = orig
assert len(res[0]) == 4, res
assert res[0] == res[1], res
'''),
 dict(id="b13_flow_index_ignored", property="P01",
  edits=[(CAN, "model.config.canopy.canopy_flow_index_coefficient", "0.9")],
  needs="a forest and a canopy flow index coefficient other than the default",
  what="the canopy flow index coefficient option has no effect",
  demo='''from demo_lib import *
res = []
for k in (0.9, 0.5):
    m, tmp = build(overrides=dict(canopy=dict(enabled=True, canopy_flow_index_coefficient=k), snow=dict(model="cryolayers")), lc=np.full((5, 6), 5))
    m.run_single()
    res.append(np.nanmean(m.state.meteo.wind_speed[m.grid.roi]))
assert abs(res[0] - res[1]) > 1e-6, res
'''),
 dict(id="b14_liston_branch", property="P02",
  edits=[("openamundsen/meteo/interpolation.py", 'elif wind_config["method"] == "liston"', 'elif wind_config["method"] == "micromet"')],
  needs="wind interpolation method liston",
  what="the accepted wind interpolation method liston is not implemented",
  demo='''from demo_lib import *
m, tmp = build(overrides=dict(meteo=dict(interpolation=dict(wind=dict(method="liston")))), meteo=dict(wind_dir=225.0))
m.run_single()
w = m.state.meteo.wind_speed[m.grid.roi]
assert np.isfinite(w).all() and w.std() > 0, w
'''),
 dict(id="b15_coords_swapped", property="P20",
  edits=[("openamundsen/util.py", "y_coords = yllcorner + resolution * (nrows - np.arange(nrows) - 0.5)", "y_coords = yllcorner + resolution * (ncols - np.arange(nrows) - 0.5)")],
  needs="a grid that is not square",
  what="expanded ROI-pixel output gets shifted y coordinates",
  demo='''from demo_lib import *
from openamundsen.util import convert_roi_pixel_dataset_to_grid
res = []
for lay in ("grid", "roi_pixel"):
    ov = dict(output_data=dict(grids=dict(format="memory", layout=lay, variables=[dict(var="meteo.temp", freq="h")])))
    m, tmp = build(dates=dates(n=3), overrides=ov)
    m.run()
    res.append(m.gridded_output.data)
full = convert_roi_pixel_dataset_to_grid(res[1])
assert np.allclose(full.y.values, res[0].y.values) and np.allclose(full.x.values, res[0].x.values), (full.y.values, res[0].y.values)
'''),
 dict(id="b16_forgotten_store", property="P04",
  edits=[(ET, """            "sealed_interception",
            "kg m-2",
            "Interception for sealed surfaces",
            retain=True,
""", """            "sealed_interception",
            "kg m-2",
            "Interception for sealed surfaces",
""")],
  needs="sealed land cover and a wet step followed by others",
  what="water stored on sealed surfaces is reset at every step",
  demo='''from demo_lib import *
ov = dict(evapotranspiration=dict(enabled=True), snow=dict(model="cryolayers"))
m, tmp = build(overrides=ov, lc=np.full((5, 6), 2), soil=np.full((5, 6), 3), dates=dates("2020-07-15 00:00", 24), meteo=dict(temp=290.15, precip=0.0, rel_hum=90.0))
se = m.state.evapotranspiration
se.sealed_interception[m.grid.roi] = 0.6
m.run_single()
assert np.isfinite(se.sealed_interception[m.grid.roi]).all() and (se.sealed_interception[m.grid.roi] > 0.2).all()
'''),
]
