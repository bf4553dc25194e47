CRYO = "openamundsen/modules/snow/cryolayermodel.py"
SEEDS = [
 dict(id="b01_firn_rate", property="P10",
  edits=[(CRYO, """            s.snow.density[CryoLayerID.FIRN, firnies] += densification_rate * (
                model.timestep / constants.SECONDS_PER_HOUR
            )
""", """            s.snow.density[CryoLayerID.FIRN, firnies] += densification_rate * (
                model.timestep / constants.HOURS_PER_DAY
            )
""")],
  needs="cryolayer model with glaciers enabled and a pixel with a firn layer",
  what="an hourly densification rate is multiplied by a duration that is not in hours",
  demo='''from demo_lib import *
m, tmp = build(overrides=dict(snow=dict(model="cryolayers"), glaciers=dict(enabled=True)),
               extra_grids=dict(glaciers=np.ones((5, 6), int), glacierice=np.full((5, 6), 1000.0)))
s = m.state.snow
roi = m.grid.roi
s.ice_content[2, roi] = 500.0
s.density[2, roi] = 550.0
s.thickness[2, roi] = 500.0 / 550.0
m.snow.compaction()
ice = m.config.snow.cryolayers.transition.ice
want = 550.0 + (ice - 500.0) / (24 * 365 * 10)
got = s.density[2, roi]
assert np.allclose(got, want, rtol=0, atol=2e-5), (got.mean(), want)
'''),
 dict(id="b02_melt_outside_roi", property="P05",
  edits=[(CRYO, "        s.snow.melt[model.grid.roi] = 0.0\n", "        s.snow.melt[:] = 0.0\n")],
  needs="a temperature index melt method and pixels outside the region of interest",
  what="the melt field gets values on pixels outside the region of interest",
  demo='''from demo_lib import *
m, tmp = build(overrides=dict(snow=dict(model="cryolayers", melt=dict(method="temperature_index", degree_day_factor=5.0, threshold_temp=273.15))))
for _ in range(3):
    m.run_single()
out = ~m.grid.roi
for cat in ("snow", "meteo", "surface"):
    c = m.state[cat]
    for nm, v in c._meta.items():
        a = c[nm]
        if a.dtype.kind == "f":
            assert np.isnan(a[..., out]).all(), (cat, nm)
'''),
 dict(id="b03_mean_degree_days", property="P21",
  edits=[(CRYO, "            melt[degree_days <= 0.0] = 0.0\n", "            if np.nanmean(degree_days) <= 0.0:\n                melt[:] = 0.0\n")],
  needs="enhanced temperature index melt and snow pixels on both sides of the threshold temperature",
  what="whether a pixel melts depends on the mean temperature of the other snow pixels",
  demo='''from demo_lib import *
ov = dict(snow=dict(model="cryolayers", melt=dict(method="enhanced_temperature_index", degree_day_factor=5.0, albedo_factor=1.0, threshold_temp=273.15)))
m, tmp = build(overrides=ov)
s = m.state
roi = m.grid.roi
pix = np.argwhere(roi)
a, b = tuple(pix[0]), tuple(pix[1])


def melt(temp_b):
    s.snow.thickness[:, roi] = 0
    s.snow.ice_content[:, roi] = 0
    for q in (a, b):
        s.snow.thickness[1][q] = 1.0
        s.snow.ice_content[1][q] = 300.0
    s.meteo.temp[roi] = 270.0
    s.meteo.temp[b] = temp_b
    s.surface.albedo[roi] = 0.7
    s.meteo.sw_in[roi] = 400.0
    m.snow.temperature_index()
    return s.snow.melt[a]


assert melt(268.0) == melt(285.0), (melt(268.0), melt(285.0))
'''),
 dict(id="b04_degree_hours", property="P10",
  edits=[("openamundsen/modules/canopy/canopy.py", """                / (c.SECONDS_PER_HOUR * c.HOURS_PER_DAY)
""", """                / c.SECONDS_PER_HOUR
""")],
  needs="forest pixels with intercepted snow and above-zero temperatures",
  what="melt of canopy-intercepted snow multiplies a daily degree-day factor by a number of hours",
  demo='''from demo_lib import *
m, tmp = build(overrides=dict(canopy=dict(enabled=True)), lc=np.full((5, 6), 5),
               meteo=dict(temp=277.15, rel_hum=99.0, precip=0.0))
fp = m.canopy.forest_pos
assert fp.any()
m.run_single()
load = 3.0
m.state.snow.canopy_intercepted_load[fp] = load
m.state.meteo.temp[fp] = 274.15
m.state.meteo.snowfall[fp] = 0.0
m.state.meteo.precip[fp] = 0.0
m.state.meteo.rainfall[fp] = 0.0
m.canopy.snow()
got = np.nanmax(m.state.snow.canopy_melt[fp])
assert got <= m.config.canopy.degree_day_factor * 1.0 / 24 + 1e-9, got
'''),
]
