From 6298bfa8a436364dda338aca45d28f6027f8f2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:52 +0000
Subject: [PATCH 01/23] fix: WMO precipitation correction raised
 NotImplementedError for all gauges except hellmann

---
 openamundsen/meteo/precipcorr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/meteo/precipcorr.py b/openamundsen/meteo/precipcorr.py
index 7a83ff5..1c2a738 100644
--- a/openamundsen/meteo/precipcorr.py
+++ b/openamundsen/meteo/precipcorr.py
@@ -180,7 +180,7 @@ def correct_station_precipitation(model):
             elif gauge == "us_unsh":
                 cr[pos_snow] = np.exp(4.61 - 0.16 * wind_speeds_2m[pos_snow] ** 1.28)
                 cr[pos_mixed] = 100.77 - 8.34 * wind_speeds_2m[pos_mixed]
-            if gauge == "hellmann":
+            elif gauge == "hellmann":
                 cr[pos_snow] = (
                     100 + 1.13 * wind_speeds_2m[pos_snow] ** 2 - 19.45 * wind_speeds_2m[pos_snow]
                 )
-- 
2.43.0


From f9f8901f61aac6988fcc93a3ff2d829b8807f409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:07 +0000
Subject: [PATCH 02/23] fix: dry air density multiplied by instead of divided
 by R*T

---
 openamundsen/meteo/atmosphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/meteo/atmosphere.py b/openamundsen/meteo/atmosphere.py
index 2d76a1a..4caa8c5 100644
--- a/openamundsen/meteo/atmosphere.py
+++ b/openamundsen/meteo/atmosphere.py
@@ -71,7 +71,7 @@ def dry_air_density(temp, pressure):
     density : numeric
         Dry air density (kg m-3).
     """
-    return pressure * (c.GAS_CONSTANT_DRY_AIR * temp)
+    return pressure / (c.GAS_CONSTANT_DRY_AIR * temp)
 
 
 def latent_heat_of_vaporization(temp):
-- 
2.43.0


From 8b0830290402d7af676c82e498c33a634b03a52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:07 +0000
Subject: [PATCH 03/23] fix: air density for sealed surface evaporation must be
 p / (R * Tv)

---
 openamundsen/modules/evapotranspiration/evapotranspiration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/evapotranspiration/evapotranspiration.py b/openamundsen/modules/evapotranspiration/evapotranspiration.py
index aeb9bc6..3f51d70 100644
--- a/openamundsen/modules/evapotranspiration/evapotranspiration.py
+++ b/openamundsen/modules/evapotranspiration/evapotranspiration.py
@@ -579,7 +579,7 @@ class EvapotranspirationModel:
         ea = s.meteo.vap_press[pos_dry]  # actual vapor pressure (Pa)
 
         Tv = 1.01 * s.meteo.top_canopy_temp[pos_dry]  # virtual temperature (K)
-        rhoa = s.meteo.atmos_press[pos_dry] / c.GAS_CONSTANT_DRY_AIR * Tv  # air density at constant pressure (kg m-3) # fmt: skip # noqa: E501
+        rhoa = s.meteo.atmos_press[pos_dry] / (c.GAS_CONSTANT_DRY_AIR * Tv)  # air density at constant pressure (kg m-3) # fmt: skip # noqa: E501
         cp = (  # specific heat at constant pressure (J kg-1 K-1) (p. 26)
             gamma * 0.622 * c.LATENT_HEAT_OF_VAPORIZATION / s.meteo.atmos_press[pos_dry]
         )
-- 
2.43.0


From a6bb8a450a9c25131cd71e55efab6e0619e64358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:07 +0000
Subject: [PATCH 04/23] fix: wind diverting factor (radians) was added to a
 wind direction in degrees

---
 openamundsen/meteo/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/meteo/interpolation.py b/openamundsen/meteo/interpolation.py
index 6cc252e..06ddf44 100644
--- a/openamundsen/meteo/interpolation.py
+++ b/openamundsen/meteo/interpolation.py
@@ -586,6 +586,6 @@ def _liston_wind_correction(
         -0.5 * wind_slope_scaled * np.sin(-2 * wind_dir_minus_aspect)
     )
     wind_speed_corr = wind_speed_roi * wind_weighting_factor
-    wind_dir_corr = (wind_dir_roi + wind_dir_diverting_factor) % 360
+    wind_dir_corr = (wind_dir_roi + np.rad2deg(wind_dir_diverting_factor)) % 360
 
     return wind_speed_corr, wind_dir_corr
-- 
2.43.0


From 80fbf29204757d8813b9275213f3fd319095aad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:07 +0000
Subject: [PATCH 05/23] fix: retain the glacier ID field when state variables
 are reset

---
 openamundsen/modules/glacier/glaciermodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/glacier/glaciermodel.py b/openamundsen/modules/glacier/glaciermodel.py
index e83ffe5..e274eae 100644
--- a/openamundsen/modules/glacier/glaciermodel.py
+++ b/openamundsen/modules/glacier/glaciermodel.py
@@ -28,7 +28,7 @@ class GlacierModel:
         self.model = model
         s = model.state
         sg = s.add_category("glaciers")
-        sg.add_variable("glacier", long_name="Glacier ID", dtype=int)
+        sg.add_variable("glacier", long_name="Glacier ID", dtype=int, retain=True)
         self.mass_balance_start_we = None
 
     def initialize(self):
-- 
2.43.0


From c11ea11e3788aeae47ff4a5aebed95c769960a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:07 +0000
Subject: [PATCH 06/23] fix: meteo.radiation emissivity options were ignored

---
 openamundsen/modules/radiation/irradiance.py | 4 ++--
 openamundsen/surface.py                      | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/openamundsen/modules/radiation/irradiance.py b/openamundsen/modules/radiation/irradiance.py
index edbb57a..d768a7f 100644
--- a/openamundsen/modules/radiation/irradiance.py
+++ b/openamundsen/modules/radiation/irradiance.py
@@ -290,8 +290,8 @@ def longwave_irradiance(model):
     clear_sky_emissivity = meteo.clear_sky_emissivity(m.precipitable_water[roi])
 
     # TODO these should be parameters
-    cloud_emissivity = 0.976  # emissivity of totally overcast skies (Greuell et al., 1997) # noqa: E501 # fmt: skip
-    rock_emission_factor = 0.01  # (K W-1 m2) temperature of emitting rocks during daytime is assumed to be higher than the air temperature by this factor multiplied by the incoming shortwave radiation (Greuell et al., 1997) # noqa: E501
+    cloud_emissivity = model.config.meteo.radiation.cloud_emissivity
+    rock_emission_factor = model.config.meteo.radiation.rock_emission_factor
 
     # Incoming longwave radiation from the clear sky
     lw_in_clearsky = (
diff --git a/openamundsen/surface.py b/openamundsen/surface.py
index 952212e..089a34f 100644
--- a/openamundsen/surface.py
+++ b/openamundsen/surface.py
@@ -509,8 +509,7 @@ def calc_radiation_balance(model, pos):
     """
     s = model.state
 
-    # TODO this should be a parameter
-    snow_emissivity = 0.99
+    snow_emissivity = model.config.meteo.radiation.snow_emissivity
 
     s.meteo.sw_out[pos] = s.surface.albedo[pos] * s.meteo.sw_in[pos]
     s.meteo.lw_out[pos] = snow_emissivity * constants.STEFAN_BOLTZMANN * s.surface.temp[pos] ** 4
-- 
2.43.0


From e9aba7267d6e05ccd5516b5897d0f9b1670231aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:07 +0000
Subject: [PATCH 07/23] fix: canopy temperature modification mixed pixel sets
 when temperatures are missing

---
 openamundsen/modules/canopy/canopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/canopy/canopy.py b/openamundsen/modules/canopy/canopy.py
index 49fd295..fd74e93 100644
--- a/openamundsen/modules/canopy/canopy.py
+++ b/openamundsen/modules/canopy/canopy.py
@@ -91,7 +91,7 @@ class CanopyModel:
         pos_finite_temp = pos & np.isfinite(mean_24h_temp)
         delta_t = ((mean_24h_temp[pos_finite_temp] - c.T0) / 3).clip(-2, 2)  # eq. (5)
         s.meteo.temp[pos_finite_temp] -= (  # eq. (4)
-            canopy_frac
+            canopy_frac[pos_finite_temp[pos]]
             * (
                 s.meteo.temp[pos_finite_temp]
                 - (
-- 
2.43.0


From 43244e194f9e47ff8e526225fdc17ceaf0613538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:07 +0000
Subject: [PATCH 08/23] fix: deep percolation from the evaporation layer must
 consider the soil surface depletion

---
 openamundsen/modules/evapotranspiration/evapotranspiration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/evapotranspiration/evapotranspiration.py b/openamundsen/modules/evapotranspiration/evapotranspiration.py
index 3f51d70..935e70d 100644
--- a/openamundsen/modules/evapotranspiration/evapotranspiration.py
+++ b/openamundsen/modules/evapotranspiration/evapotranspiration.py
@@ -480,7 +480,7 @@ class EvapotranspirationModel:
             precip
             - precip_runoff
             + irrigation / wetted_frac
-            - s_et.deep_percolation_evaporation_layer[pos]
+            - s_et.cum_soil_surface_depletion[pos]
         ).clip(min=0)
         s_et.cum_soil_surface_depletion[pos] = (  # eq. (77)
             s_et.cum_soil_surface_depletion[pos]
-- 
2.43.0


From 4de88eb2875d67475921c9a9481fcbd8ae34620d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:07 +0000
Subject: [PATCH 09/23] fix: do not modify the caller's configuration dict when
 renaming deprecated options

---
 openamundsen/conf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openamundsen/conf.py b/openamundsen/conf.py
index 96ed4c6..a85bf9c 100644
--- a/openamundsen/conf.py
+++ b/openamundsen/conf.py
@@ -55,6 +55,8 @@ class ConfigurationValidator(cerberus.Validator):
         return model
 
     def _normalize_coerce_meteo_interpolation(self, d: dict[str, Any]) -> dict[str, Any]:
+        d = dict(d)
+
         # 'wind_speed' is deprecated -> change to 'wind'
         if "wind_speed" in d:
             d["wind"] = d.pop("wind_speed")
@@ -62,6 +64,8 @@ class ConfigurationValidator(cerberus.Validator):
         return d
 
     def _normalize_coerce_cloudiness(self, d: dict[str, Any]) -> dict[str, Any]:
+        d = dict(d)
+
         # 'day_method' is deprecated -> change to 'method'
         if "day_method" in d:
             if "method" not in d:
-- 
2.43.0


From dc5ae7cfa9d456aa7680fa8bff14020422948e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:07 +0000
Subject: [PATCH 10/23] fix: race condition in parallel openness calculation

---
 openamundsen/terrain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openamundsen/terrain.py b/openamundsen/terrain.py
index 0a215b1..ee200bb 100644
--- a/openamundsen/terrain.py
+++ b/openamundsen/terrain.py
@@ -1,7 +1,7 @@
 import logging
 
 import numpy as np
-from numba import njit, prange
+from numba import njit
 
 from openamundsen.modules.radiation import shadows
 
@@ -360,7 +360,7 @@ def _openness_dir(dem, res, L, dir):  # noqa: A002
     """
     opn_dir = np.full(dem.shape, np.inf)
 
-    for i in prange(int(np.ceil(L / res))):
+    for i in range(int(np.ceil(L / res))):
         dist = res * (i + 1) * [1, np.sqrt(2)][dir % 2]
         Z_shift = _shift_arr_retain(dem, dir, i)
         angle = np.pi / 2 - np.arctan2(Z_shift - dem, dist)
-- 
2.43.0


From b84825534df52bb9024a57ec27f312e0e6e295ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:07 +0000
Subject: [PATCH 11/23] fix: do not write to pixels outside of the region of
 interest

---
 .../modules/evapotranspiration/evapotranspiration.py   |  2 +-
 openamundsen/modules/snow/cryolayermodel.py            |  2 +-
 openamundsen/modules/snow/snow.py                      |  3 ++-
 openamundsen/surface.py                                | 10 ++++++----
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/openamundsen/modules/evapotranspiration/evapotranspiration.py b/openamundsen/modules/evapotranspiration/evapotranspiration.py
index 935e70d..eea7aed 100644
--- a/openamundsen/modules/evapotranspiration/evapotranspiration.py
+++ b/openamundsen/modules/evapotranspiration/evapotranspiration.py
@@ -165,7 +165,7 @@ class EvapotranspirationModel:
         stcs = np.unique(s_et.soil_texture[roi])
         stcs = stcs[stcs > 0]
         for stc in stcs:
-            pos = s_et.soil_texture == stc
+            pos = (s_et.soil_texture == stc) & roi
             swc_field_cap = DEFAULT_SOIL_WATER_CONTENTS_AT_FIELD_CAPACITY[stc]
             swc_wilting_point = DEFAULT_SOIL_WATER_CONTENTS_AT_WILTING_POINT[stc]
 
diff --git a/openamundsen/modules/snow/cryolayermodel.py b/openamundsen/modules/snow/cryolayermodel.py
index 16d3453..35e2bc1 100644
--- a/openamundsen/modules/snow/cryolayermodel.py
+++ b/openamundsen/modules/snow/cryolayermodel.py
@@ -294,7 +294,7 @@ class CryoLayerSnowModel(SnowModel):
             runoff[pos] = runoff_cur
             s.snow.liquid_water_content[i, pos] -= runoff_cur
 
-        s.snow.runoff[:] = runoff
+        s.snow.runoff[model.grid.roi] = runoff[model.grid.roi]
 
     def update_layers(self):
         model = self.model
diff --git a/openamundsen/modules/snow/snow.py b/openamundsen/modules/snow/snow.py
index fa7ad21..d5c6a5d 100644
--- a/openamundsen/modules/snow/snow.py
+++ b/openamundsen/modules/snow/snow.py
@@ -348,6 +348,7 @@ def snow_properties(model):
        https://doi.org/10.5194/gmd-8-3867-2015
     """
     snow = model.state.snow
+    roi = model.grid.roi
 
     snow.depth[:] = snow.thickness.sum(axis=0)
     snow.swe[:] = (snow.ice_content + snow.liquid_water_content).sum(axis=0)
@@ -358,7 +359,7 @@ def snow_properties(model):
             snow.depth[:] / model.config.snow.snow_cover_fraction_depth_scale
         )
     else:
-        snow.area_fraction[:] = (snow.depth[:] > 0) * 1.0
+        snow.area_fraction[roi] = (snow.depth[roi] > 0) * 1.0
 
     # Areal heat capacity of snow (eq. (9))
     snow.heat_cap[:] = (
diff --git a/openamundsen/surface.py b/openamundsen/surface.py
index 089a34f..f3a86f1 100644
--- a/openamundsen/surface.py
+++ b/openamundsen/surface.py
@@ -25,11 +25,13 @@ def surface_properties(model):
     """
     s = model.state
 
-    s.surface.albedo[:] = np.where(
-        s.snow.area_fraction > 0,
+    roi = model.grid.roi
+
+    s.surface.albedo[roi] = np.where(
+        s.snow.area_fraction[roi] > 0,
         (
-            s.snow.area_fraction * s.snow.albedo
-            + (1 - s.snow.area_fraction) * model.config.soil.albedo
+            s.snow.area_fraction[roi] * s.snow.albedo[roi]
+            + (1 - s.snow.area_fraction[roi]) * model.config.soil.albedo
         ),
         model.config.soil.albedo,
     )
-- 
2.43.0


From 6bcfd6664d6299ed3fdf7ae6b81dbed3d35a9922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:07 +0000
Subject: [PATCH 12/23] fix: reject compaction method "empirical" for the
 cryolayers snow model

---
 openamundsen/conf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openamundsen/conf.py b/openamundsen/conf.py
index a85bf9c..2b7db15 100644
--- a/openamundsen/conf.py
+++ b/openamundsen/conf.py
@@ -277,6 +277,12 @@ def validate_config(config):
             + f'snow model "{config.snow.model}"'
         )
 
+    if config.snow.model == "cryolayers" and config.snow.compaction.method != "anderson":
+        raise ConfigurationError(
+            f'Compaction method "{config.snow.compaction.method}" not supported for the '
+            + f'snow model "{config.snow.model}"'
+        )
+
     if config.snow.melt.method == "temperature_index":
         if config.snow.melt.degree_day_factor is None:
             raise ConfigurationError("Missing field: snow.melt.degree_day_factor")
-- 
2.43.0


From 04d5afb3819f6d3910fa9e866bd61d53294143dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:07 +0000
Subject: [PATCH 13/23] fix: canopy interception must not remove intercepted
 snow above the maximum storage

---
 openamundsen/modules/canopy/canopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/canopy/canopy.py b/openamundsen/modules/canopy/canopy.py
index fd74e93..f03d9cb 100644
--- a/openamundsen/modules/canopy/canopy.py
+++ b/openamundsen/modules/canopy/canopy.py
@@ -189,7 +189,7 @@ class CanopyModel:
         )
         new_canopy_intercepted_load = s.snow.canopy_intercepted_load[pos] + 0.7 * (
             max_interception_storage - s.snow.canopy_intercepted_load[pos]
-        ) * (1 - np.exp(-s.meteo.snowfall[pos] / max_interception_storage))
+        ).clip(min=0) * (1 - np.exp(-s.meteo.snowfall[pos] / max_interception_storage))
         s.snow.canopy_intercepted_snowfall[pos] = (
             new_canopy_intercepted_load - s.snow.canopy_intercepted_load[pos]
         ).clip(min=0)
-- 
2.43.0


From 6ff7682fd6a0c42275c157c76e3ecf5fef5a1657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:07 +0000
Subject: [PATCH 14/23] fix: restrict interpolated humidity to the station
 humidity range instead of the dew point range

---
 openamundsen/meteo/interpolation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openamundsen/meteo/interpolation.py b/openamundsen/meteo/interpolation.py
index 06ddf44..5d606e1 100644
--- a/openamundsen/meteo/interpolation.py
+++ b/openamundsen/meteo/interpolation.py
@@ -514,6 +514,7 @@ def interpolate_param(
         vapor_press = meteo.saturation_vapor_pressure(target_dew_point_temps, "water")
         sat_vapor_press = meteo.saturation_vapor_pressure(target_temps, "water")
         data_interpol = 100 * vapor_press / sat_vapor_press
+        data = rel_hums
 
     # Restrict interpolated values to the range of the point values if extrapolation is disabled in
     # the parameter config
-- 
2.43.0


From 24e37bb0a323745d7f1a1442779e9b78da75d402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:58 +0000
Subject: [PATCH 15/23] fix: snow heat conduction used the snow temperature as
 lower boundary instead of the soil temperature

---
 openamundsen/modules/snow/multilayermodel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openamundsen/modules/snow/multilayermodel.py b/openamundsen/modules/snow/multilayermodel.py
index 9d04ccf..5c009ef 100644
--- a/openamundsen/modules/snow/multilayermodel.py
+++ b/openamundsen/modules/snow/multilayermodel.py
@@ -84,6 +84,7 @@ class MultilayerSnowModel(SnowModel):
             s.soil.thickness,
             model.timestep,
             s.snow.temp,
+            s.soil.temp,
             s.snow.therm_cond,
             s.soil.therm_cond,
             s.surface.heat_flux,
@@ -447,6 +448,7 @@ def _heat_conduction(
     soil_thickness,
     timestep,
     temp,
+    soil_temp,
     therm_cond_snow,
     therm_cond_soil,
     heat_flux,
@@ -476,6 +478,9 @@ def _heat_conduction(
     temp : ndarray(float, ndim=3)
         Snow temperature (K).
 
+    soil_temp : ndarray(float, ndim=3)
+        Soil temperature (K).
+
     therm_cond_snow : ndarray(float, ndim=3)
         Snow thermal conductivity (W m-1 K-1).
 
@@ -506,7 +511,7 @@ def _heat_conduction(
                 timestep,
                 temp[:ns, i, j],
                 therm_cond_snow[:ns, i, j],
-                temp[-1, i, j],
+                soil_temp[0, i, j],
                 soil_thickness[0, i, j],
                 therm_cond_soil[0, i, j],
                 heat_flux[i, j],
-- 
2.43.0


From db680cef866e6c4235d2c08ea021f2373c5eab76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:58 +0000
Subject: [PATCH 16/23] fix: wrong sign of turbulent flux changes in the
 multilayer energy balance

---
 openamundsen/surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openamundsen/surface.py b/openamundsen/surface.py
index f3a86f1..d6efa3b 100644
--- a/openamundsen/surface.py
+++ b/openamundsen/surface.py
@@ -764,7 +764,7 @@ def solve_energy_balance(model, pos):
     )
 
     surf_moisture_flux_change = (  # eq. (33) (kg m-2 s-1)
-        s.surface.moisture_availability[pos] * rhoa_CH_Ua * dQsat_by_dTs * surf_temp_change
+        -s.surface.moisture_availability[pos] * rhoa_CH_Ua * dQsat_by_dTs * surf_temp_change
     )
 
     surf_heat_flux_change = (  # eq. (34) (W m-2)
@@ -772,7 +772,7 @@ def solve_energy_balance(model, pos):
     )
 
     sens_heat_flux_change = (  # eq. (35) (W m-2)
-        constants.SPEC_HEAT_CAP_DRY_AIR * rhoa_CH_Ua * surf_temp_change
+        -constants.SPEC_HEAT_CAP_DRY_AIR * rhoa_CH_Ua * surf_temp_change
     )
 
     surf_temp_change[np.isnan(surf_temp_change)] = 0.0
-- 
2.43.0


From 89aa7241493060079407b519853e45317c3863a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:58 +0000
Subject: [PATCH 17/23] fix: final latent heat flux used the saturation
 humidity of the previous surface temperature

---
 openamundsen/surface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openamundsen/surface.py b/openamundsen/surface.py
index d6efa3b..073f8fb 100644
--- a/openamundsen/surface.py
+++ b/openamundsen/surface.py
@@ -201,6 +201,7 @@ def multilayer_energy_balance(model):
     s.surface.sens_heat_flux[roi] += sens_heat_flux_change
     calc_radiation_balance(model, roi)
     calc_latent_heat(model, roi)
+    calc_saturation_specific_humidity(model, roi)
     calc_turbulent_fluxes(model, roi, sensible=False)
 
 
-- 
2.43.0


From 1956f66f6eb1dd5e11db2c710b14ad62bc966b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:58 +0000
Subject: [PATCH 18/23] fix: glacier geometry update changed the ice mass of
 pixels which were not updated

---
 openamundsen/modules/glacier/glaciermodel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openamundsen/modules/glacier/glaciermodel.py b/openamundsen/modules/glacier/glaciermodel.py
index e274eae..dd23125 100644
--- a/openamundsen/modules/glacier/glaciermodel.py
+++ b/openamundsen/modules/glacier/glaciermodel.py
@@ -66,6 +66,7 @@ class GlacierModel:
         mb = ice_mb + firn_mb
         old_ice_thickness = self.mass_balance_start_we[CryoLayerID.ICE, :] / c.ICE_DENSITY
         new_ice_thickness = s.snow.thickness[CryoLayerID.ICE, :].copy()
+        updated = np.zeros(model.grid.shape, dtype=bool)
 
         for gid in self.glacier_ids:
             gpos = (s.glaciers.glacier == gid) & (old_ice_thickness > 0.0)
@@ -124,9 +125,10 @@ class GlacierModel:
             new_ice_thickness[update_pos] = (
                 old_ice_thickness[update_pos] + (mass_change - firn_mb[update_pos]) / c.ICE_DENSITY
             ).clip(min=0.0)
+            updated |= update_pos
 
-        s.snow.thickness[CryoLayerID.ICE, :] = new_ice_thickness
-        s.snow.ice_content[CryoLayerID.ICE, :] = new_ice_thickness * c.ICE_DENSITY
+        s.snow.thickness[CryoLayerID.ICE, updated] = new_ice_thickness[updated]
+        s.snow.ice_content[CryoLayerID.ICE, updated] = new_ice_thickness[updated] * c.ICE_DENSITY
 
         model.snow.update_layers()
 
-- 
2.43.0


From 923ad50a696c8a305671c5aeb75815e098feb9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:18 +0000
Subject: [PATCH 19/23] fix: restore the numba thread count if a time step
 fails

---
 openamundsen/model.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/openamundsen/model.py b/openamundsen/model.py
index 1fe1f64..9b34698 100644
--- a/openamundsen/model.py
+++ b/openamundsen/model.py
@@ -248,10 +248,19 @@ class OpenAmundsen:
         self._ensure_logger_configured()
 
         # Set numba thread count for this timestep (and restore afterwards)
-        if self._numba_threads is not None:
-            prev_num_threads = numba.get_num_threads()
-            numba.set_num_threads(self._numba_threads)
+        prev_num_threads = numba.get_num_threads()
+        try:
+            if self._numba_threads is not None:
+                numba.set_num_threads(self._numba_threads)
 
+            self._run_single()
+        finally:
+            numba.set_num_threads(prev_num_threads)
+
+    def _run_single(self):
+        """
+        Advance the date counter and process the resulting time step.
+        """
         if self.date_idx is None:
             self.date_idx = 0
         elif self.date_idx == len(self.dates) - 1:
@@ -281,9 +290,6 @@ class OpenAmundsen:
             logger.debug("Updating live view window")
             self.liveview.update(self.date)
 
-        if self._numba_threads is not None:
-            numba.set_num_threads(prev_num_threads)
-
     def global_mask(self, mask, global_mask=None, global_idxs=None):
         if global_idxs is None:
             if global_mask is None:
-- 
2.43.0


From d62172479b5c107363aaeee09ed557cf0cf75a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:06 +0000
Subject: [PATCH 20/23] fix: live view overwrote state variables outside the
 ROI with NaN

---
 openamundsen/liveview.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openamundsen/liveview.py b/openamundsen/liveview.py
index c2fd5ca..03f6431 100644
--- a/openamundsen/liveview.py
+++ b/openamundsen/liveview.py
@@ -153,8 +153,9 @@ class LiveView:
         for field, ax, img in zip(self.fields, self.axarr.flat, self.imgs):
             data = self.state[field]
 
-            # Hide non-ROI pixels (conversion to float is required for integer fields)
-            data = data.astype(float, copy=False)
+            # Hide non-ROI pixels (conversion to float is required for integer fields; a copy is
+            # required in order not to overwrite the state variable itself)
+            data = data.astype(float)
             data[~self.roi] = np.nan
 
             # Perform downsampling
-- 
2.43.0


From 3dae9424ed6522a33c5abbd0efed6b5a4bce53f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:08 +0000
Subject: [PATCH 21/23] fix: point outputs were lost if the first write date is
 not a model date

---
 openamundsen/fileio/pointoutput.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/openamundsen/fileio/pointoutput.py b/openamundsen/fileio/pointoutput.py
index fcd44ca..1a6c049 100644
--- a/openamundsen/fileio/pointoutput.py
+++ b/openamundsen/fileio/pointoutput.py
@@ -401,15 +401,17 @@ class PointOutputManager:
                 ds_var.values[date_idx, :, :] = var_data[:, self.point_rows, self.point_cols]
 
         # Write data to file
-        # If we are at the first write date, simple write the file (i.e. overwrite possibly
-        # existing files), otherwise merge the already written dataset with the in-memory one.
+        # If this is the first chunk, simply write the file (i.e. overwrite possibly existing files),
+        # otherwise merge the already written dataset with the in-memory one.
+        # (do not compare with the first write date because this is not necessarily a model date)
         if self.format != "memory" and date == ds.indexes["time"][-1]:
             logger.debug("Writing point outputs")
+            first_chunk = ds.indexes["time"][0] == self.model.dates[0]
 
             if self.format == "netcdf":
                 filename = self.model.config.results_dir / "output_timeseries.nc"
 
-                if date == self.write_dates[0]:
+                if first_chunk:
                     ds.to_netcdf(filename, engine=constants.NETCDF_ENGINE)
                 else:
                     with xr.open_dataset(filename) as old_ds:
@@ -448,7 +450,7 @@ class PointOutputManager:
 
                     df = ds_out_point.to_dataframe()
 
-                    if date == self.write_dates[0]:
+                    if first_chunk:
                         df.to_csv(filename)
                     else:
                         df.to_csv(filename, mode="a", header=False)
-- 
2.43.0


From b45f10d446107001a79034dd3f360f044d599d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:53 +0000
Subject: [PATCH 22/23] fix: undecoded integer fill value was used outside the
 ROI when converting decoded roi_pixel datasets

---
 openamundsen/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openamundsen/util.py b/openamundsen/util.py
index 0a40726..c95b262 100644
--- a/openamundsen/util.py
+++ b/openamundsen/util.py
@@ -156,7 +156,8 @@ def convert_roi_pixel_dataset_to_grid(ds: xr.Dataset) -> xr.Dataset:
 
         pixel_axis = da.get_axis_num("pixel")
         values = np.moveaxis(da.values, pixel_axis, -1)
-        fill_value = da.encoding.get("_FillValue", da.attrs.get("_FillValue", np.nan))
+        # (in decoded datasets missing values are NaN and the fill value is not an attribute anymore)
+        fill_value = da.attrs.get("_FillValue", np.nan)
         full_values = np.full((*values.shape[:-1], nrows, ncols), fill_value, dtype=da.dtype)
         full_values.reshape(*values.shape[:-1], -1)[..., pixel_idxs] = values
 
-- 
2.43.0


From 30ba2ffeec04646ab4fc8acc4da07f2bdb1f858b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:04 +0000
Subject: [PATCH 23/23] fix: interpolation failed for non-regression trend
 methods if max_segments is larger than 1

---
 openamundsen/meteo/interpolation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openamundsen/meteo/interpolation.py b/openamundsen/meteo/interpolation.py
index 5d606e1..dd8bb68 100644
--- a/openamundsen/meteo/interpolation.py
+++ b/openamundsen/meteo/interpolation.py
@@ -435,8 +435,10 @@ def interpolate_param(
     regression_params = param_config.get("regression_params", {})
     max_segments = regression_params.get("max_segments", 1)
 
-    if trend_method in ("regression", "fixed", "fractional") and max_segments == 1:
-        # Use simple linear regression
+    if trend_method in ("fixed", "fractional") or (
+        trend_method == "regression" and max_segments == 1
+    ):
+        # Use a linear trend
         if trend_method == "regression":
             # When using the regression method, the passed lapse rate is overwritten
             lapse_rate, _ = _linear_fit(zs, data)
-- 
2.43.0

