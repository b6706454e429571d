From 2c9a092aefd8d30705b06c40cc86054330d17e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:10 +0000
Subject: [PATCH 01/41] fix: splitting a layer keeps its liquid water (the
 content is volumetric)

---
 cosipy/cpkernel/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosipy/cpkernel/grid.py b/cosipy/cpkernel/grid.py
index 94072a1..a8124d0 100644
--- a/cosipy/cpkernel/grid.py
+++ b/cosipy/cpkernel/grid.py
@@ -502,7 +502,7 @@ class Grid:
                 self.get_node_height(pos) / 2.0,
                 self.get_node_density(pos),
                 self.get_node_temperature(pos),
-                self.get_node_liquid_water_content(pos) / 2.0,
+                self.get_node_liquid_water_content(pos),
                 self.get_node_ice_fraction(pos),
             ),
         )
@@ -511,7 +511,7 @@ class Grid:
             self.get_node_height(pos) / 2.0,
             self.get_node_temperature(pos),
             self.get_node_ice_fraction(pos),
-            self.get_node_liquid_water_content(pos) / 2.0,
+            self.get_node_liquid_water_content(pos),
         )
 
         self.number_nodes += 1
-- 
2.43.0


From 20ead71a541ab4d165d5024b4f711b739d02e9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:10 +0000
Subject: [PATCH 02/41] fix: surface melt reduces the tracked fresh snow height

The loop has already used up `melt` when the tracker is updated.
---
 cosipy/cpkernel/grid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cosipy/cpkernel/grid.py b/cosipy/cpkernel/grid.py
index a8124d0..add86cd 100644
--- a/cosipy/cpkernel/grid.py
+++ b/cosipy/cpkernel/grid.py
@@ -633,6 +633,7 @@ class Grid:
             Liquid water content from removed layers.
         """
         lwc_from_layers = 0.0
+        total_melt = melt
 
         while melt > 0.0 and idx < self.number_nodes:
             # Get SWE of layer
@@ -659,7 +660,9 @@ class Grid:
 
         # Keep track of the fresh snow layer
         if idx == 0:
-            self.set_fresh_snow_props_height(self.new_snow_height - melt)
+            self.set_fresh_snow_props_height(
+                self.new_snow_height - total_melt
+            )
 
         return lwc_from_layers
 
-- 
2.43.0


From 4ca9c7fad79309c6a89648d788a812771ca9b087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:10 +0000
Subject: [PATCH 03/41] fix: Bougamont albedo decays by dt/t* per time step

Dividing by t* times dt made the snow albedo leave its bounds and diverge
for sub-daily time steps.
---
 cosipy/modules/albedo.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cosipy/modules/albedo.py b/cosipy/modules/albedo.py
index 2e6afd3..2767f73 100644
--- a/cosipy/modules/albedo.py
+++ b/cosipy/modules/albedo.py
@@ -242,9 +242,8 @@ def method_Bougamont(GRID, surface_temperature: float, albedo_snow: float):
         temperature-dependant decay timescales."""
 
         # slightly faster than one-liner
-        t_star_days = float(t_star) * float(dt_days)
         delta_albedo = albedo_snow - albedo_firn
-        albedo_snow -= delta_albedo / t_star_days
+        albedo_snow -= delta_albedo * float(dt_days) / float(t_star)
 
         # Reset if snowfall in current timestep
         if hours_since_snowfall == 0:
-- 
2.43.0


From be32b05f6a62a01ed7701c40c3ae024fedc9bb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:10 +0000
Subject: [PATCH 04/41] fix: report subsurface melt with the height the layer
 had when it melted

---
 cosipy/modules/penetratingRadiation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cosipy/modules/penetratingRadiation.py b/cosipy/modules/penetratingRadiation.py
index 0ce21f2..0c69d26 100644
--- a/cosipy/modules/penetratingRadiation.py
+++ b/cosipy/modules/penetratingRadiation.py
@@ -91,6 +91,7 @@ def method_Bintanja(GRID, SWnet: float, dt: int) -> tuple:
             * dtheta_i: change in ice fraction
             """
             dtheta_w = A * dT * GRID.get_node_ice_fraction(idxNode)
+            layer_melt = dtheta_w * GRID.get_node_height(idxNode)
             dtheta_i = (water_density / ice_density) * -dtheta_w
             dh = -dtheta_i / GRID.get_node_ice_fraction(idxNode)
 
@@ -112,9 +113,7 @@ def method_Bintanja(GRID, SWnet: float, dt: int) -> tuple:
                     idxNode, LWC_temp / GRID.get_node_height(idxNode)
                 )
 
-            subsurface_melt = subsurface_melt + dtheta_w * GRID.get_node_height(
-                idxNode
-            )
+            subsurface_melt = subsurface_melt + layer_melt
         else:
             GRID.set_node_temperature(idxNode, T_rad)
 
-- 
2.43.0


From fe14e3a6a816b70cb5f6f98e95413eaa6e9f451c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:10 +0000
Subject: [PATCH 05/41] fix: Vionnet densification takes the slope in degrees

---
 cosipy/modules/densification.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosipy/modules/densification.py b/cosipy/modules/densification.py
index 0189c0f..eab30a6 100644
--- a/cosipy/modules/densification.py
+++ b/cosipy/modules/densification.py
@@ -204,10 +204,10 @@ def method_Vionnet(GRID, SLOPE, dt):
 
             # Vertical stress
             if idxNode>0:
-                sigma = sigma + 9.81*np.cos(SLOPE)*rho[idxNode-1]*height[idxNode-1]
+                sigma = sigma + 9.81*np.cos(np.radians(SLOPE))*rho[idxNode-1]*height[idxNode-1]
             elif idxNode==0:
                 # Take only half layer height of the first layer
-                sigma = sigma + 9.81*np.cos(SLOPE)*rho[0]*(height[0]/2.0)
+                sigma = sigma + 9.81*np.cos(np.radians(SLOPE))*rho[0]*(height[0]/2.0)
 
             # Rate of change for the layer height
             dD = (-sigma/eta)*dt 
-- 
2.43.0


From 58896127abd189834a00e6bc5261ac44c73959a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:11 +0000
Subject: [PATCH 06/41] fix: forcing with snowfall but no total precipitation
 means no rain

RAIN stayed None and the threshold comparison raised a TypeError.
---
 cosipy/cpkernel/cosipy_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/cpkernel/cosipy_core.py b/cosipy/cpkernel/cosipy_core.py
index b4aa2fb..ca95395 100644
--- a/cosipy/cpkernel/cosipy_core.py
+++ b/cosipy/cpkernel/cosipy_core.py
@@ -182,7 +182,7 @@ def cosipy_core(DATA, indY, indX, GRID_RESTART=None, stake_names=None, stake_dat
     elif 'SNOWFALL' in DATA:
         SNOWF = DATA.SNOWFALL.values * mult_factor_RRR
         RRR = None
-        RAIN = None
+        RAIN = 0.0
     else:
         SNOWF = None
         RRR = DATA.RRR.values * mult_factor_RRR
-- 
2.43.0


From ea875db3ba3062e4168278e4755cbb1157e00ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:11 +0000
Subject: [PATCH 07/41] fix: sort the forcing records together with their time
 stamps

---
 cosipy/cpkernel/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/cpkernel/io.py b/cosipy/cpkernel/io.py
index 302df91..fc85c8f 100644
--- a/cosipy/cpkernel/io.py
+++ b/cosipy/cpkernel/io.py
@@ -281,7 +281,7 @@ class IOClass:
             raise SystemExit(f"Input file not found at: {input_path}")
 
 
-        self.DATA["time"] = np.sort(self.DATA["time"].values)
+        self.DATA = self.DATA.sortby("time")
         minimum_time = str(self.DATA.time.values[0])[0:16]
         maximum_time = str(self.DATA.time.values[-1])[0:16]
         start_interval = self.get_datetime(minimum_time)
-- 
2.43.0


From 60ee6c94ee1ba0c44674defbd3ef2520d8374711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:11 +0000
Subject: [PATCH 08/41] fix: a run can be restarted from a restart file again

The start time was formatted with a method numpy datetimes do not have, and
the fresh snow properties were read under names the file does not contain.
---
 cosipy/cpkernel/init.py | 11 ++++++++---
 cosipy/cpkernel/io.py   |  4 +++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/cosipy/cpkernel/init.py b/cosipy/cpkernel/init.py
index 264b5ec..deb1140 100644
--- a/cosipy/cpkernel/init.py
+++ b/cosipy/cpkernel/init.py
@@ -129,9 +129,14 @@ def load_snowpack(GRID_RESTART):
     layer_LWC = GRID_RESTART.LAYER_LWC.values[0:num_layers]
     layer_IF = GRID_RESTART.LAYER_IF.values[0:num_layers]
 
-    new_snow_height = np.float64(GRID_RESTART.new_snow_height.values)
-    new_snow_timestamp = np.float64(GRID_RESTART.new_snow_timestamp.values)
-    old_snow_timestamp = np.float64(GRID_RESTART.old_snow_timestamp.values)
+    if hasattr(GRID_RESTART, "NEWSNOWHEIGHT"):  # names in the restart file
+        new_snow_height = np.float64(GRID_RESTART.NEWSNOWHEIGHT.values)
+        new_snow_timestamp = np.float64(GRID_RESTART.NEWSNOWTIMESTAMP.values)
+        old_snow_timestamp = np.float64(GRID_RESTART.OLDSNOWTIMESTAMP.values)
+    else:
+        new_snow_height = np.float64(GRID_RESTART.new_snow_height.values)
+        new_snow_timestamp = np.float64(GRID_RESTART.new_snow_timestamp.values)
+        old_snow_timestamp = np.float64(GRID_RESTART.old_snow_timestamp.values)
 
     GRID = create_grid_jitted(
         layer_heights,
diff --git a/cosipy/cpkernel/io.py b/cosipy/cpkernel/io.py
index fc85c8f..b7f1665 100644
--- a/cosipy/cpkernel/io.py
+++ b/cosipy/cpkernel/io.py
@@ -137,7 +137,9 @@ class IOClass:
             time_end = Config.time_end
             start_timestamp = self.get_datetime(time_start)
             end_timestamp = self.get_datetime(time_end)
-            timestamp = start_timestamp.strftime("%Y-%m-%dT%H-%M")
+            timestamp = self.get_datetime(time_start, use_np=False).strftime(
+                "%Y-%m-%dT%H-%M"
+            )
             restart_path = os.path.join(
                 Config.data_path, "restart", f"restart_{timestamp}.nc"
             )
-- 
2.43.0


From 9ca120e3d58bc19b33d7d96c656b2063288627bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:11 +0000
Subject: [PATCH 09/41] fix: bounds of the slope in the input check were
 swapped

---
 cosipy/cpkernel/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/cpkernel/io.py b/cosipy/cpkernel/io.py
index b7f1665..385b997 100644
--- a/cosipy/cpkernel/io.py
+++ b/cosipy/cpkernel/io.py
@@ -251,7 +251,7 @@ class IOClass:
             "PRES": (1080.0, 400.0),
             "LWin": (400.0, 200.0),
             "SNOWFALL": (0.1, 0.0),
-            "SLOPE": (0.0, 90.0),
+            "SLOPE": (90.0, 0.0),
         }
 
         for key, bounds in data_bounds.items():
-- 
2.43.0


From 80ee4df7f589f76ef9766ea4027f9ff09252a576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:23 +0000
Subject: [PATCH 10/41] fix: clipping negative radiation no longer overwrites
 the caller's forcing

---
 cosipy/cpkernel/cosipy_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/cpkernel/cosipy_core.py b/cosipy/cpkernel/cosipy_core.py
index ca95395..390fb4d 100644
--- a/cosipy/cpkernel/cosipy_core.py
+++ b/cosipy/cpkernel/cosipy_core.py
@@ -170,7 +170,7 @@ def cosipy_core(DATA, indY, indX, GRID_RESTART=None, stake_names=None, stake_dat
     T2 = DATA.T2.values
     RH2 = DATA.RH2.values
     PRES = DATA.PRES.values
-    G = DATA.G.values
+    G = np.array(DATA.G.values)  # clipped below: keep the caller's data
     U2 = DATA.U2.values
 
     #--------------------------------------------
-- 
2.43.0


From fe1d1c88ac47bb645e3e4e9e344db2cfd5682fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:23 +0000
Subject: [PATCH 11/41] fix: import logging.config, which start_logging uses
 when cosipy.yaml exists

---
 COSIPY.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/COSIPY.py b/COSIPY.py
index bf02ce8..f080f7d 100644
--- a/COSIPY.py
+++ b/COSIPY.py
@@ -24,6 +24,7 @@ Correspondence: tobias.sauter@fau.de
 """
 import cProfile
 import logging
+import logging.config
 import os
 from datetime import datetime
 from itertools import product
-- 
2.43.0


From e6ed5b205312ea3c14ab6964c37b78021f165afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:23 +0000
Subject: [PATCH 12/41] fix: shipped configuration requested a layer variable
 that does not exist

With full_field = true the run ended in a KeyError for LAYER_LW.
---
 config.toml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config.toml b/config.toml
index eaf9009..d3820f5 100644
--- a/config.toml
+++ b/config.toml
@@ -60,4 +60,4 @@ yend = 40
 # Select which output variables are written to disk. Comma-separated. Edit with caution.
 output_atm = "T2,RH2,U2,RAIN,SNOWFALL,RRR,PRES,N,G,LWin,LWout,H,LE,B,QRR,Z0,ALBEDO,TS"
 output_internal = "ME,MB,surfMB,intMB,EVAPORATION,SUBLIMATION,CONDENSATION,DEPOSITION,surfM,subM,Q,REFREEZE,SNOWHEIGHT,TOTALHEIGHT,LAYERS"
-output_full = "HEIGHT,RHO,T,LWC,CC,POROSITY,LW,ICE_FRACTION,IRREDUCIBLE_WATER,REFREEZE"
+output_full = "HEIGHT,RHO,T,LWC,CC,POROSITY,ICE_FRACTION,IRREDUCIBLE_WATER,REFREEZE"
-- 
2.43.0


From 6f3291ab451f0005f514045718d69c06b9774cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:01 +0000
Subject: [PATCH 13/41] fix: units and long name of absent RRR and N were
 swapped in the result

---
 cosipy/cpkernel/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosipy/cpkernel/io.py b/cosipy/cpkernel/io.py
index 385b997..8268cfb 100644
--- a/cosipy/cpkernel/io.py
+++ b/cosipy/cpkernel/io.py
@@ -550,16 +550,16 @@ class IOClass:
                 self.RESULT,
                 np.full_like(self.DATA.T2, np.nan),
                 "RRR",
-                spatiotemporal["RRR"][1],
                 spatiotemporal["RRR"][0],
+                spatiotemporal["RRR"][1],
             )
         if "N" not in self.DATA:
             self.add_variable_along_latlontime(
                 self.RESULT,
                 np.full_like(self.DATA.T2, np.nan),
                 "N",
-                spatiotemporal["N"][1],
                 spatiotemporal["N"][0],
+                spatiotemporal["N"][1],
             )
 
         print(f"\nOutput dataset ... ok")
-- 
2.43.0


From 631bd0ba7d08b598e79a7f0aece94c84e9419212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:20 +0000
Subject: [PATCH 14/41] fix: cutting a layer keeps its liquid water content
 within the pore space

The upper part received the retained water of the whole layer, so that a
thick wet layer cut to the first layer height held more water than its
volume and the refreezing check ended the run.
---
 cosipy/cpkernel/grid.py | 34 +++++-----------------------------
 1 file changed, 5 insertions(+), 29 deletions(-)

diff --git a/cosipy/cpkernel/grid.py b/cosipy/cpkernel/grid.py
index add86cd..1379fc6 100644
--- a/cosipy/cpkernel/grid.py
+++ b/cosipy/cpkernel/grid.py
@@ -297,35 +297,11 @@ class Grid:
             h0 = min_height
             h1 = total_height - min_height
 
-            """Update liquid water content.
-            Fills the upper layer with water until maximum retention.
-            The remaining water is assigned to the second layer.
-            If LWC exceeds the irreducible water content of the first
-            layer, then the first layer is filled and the rest assigned
-            to the second layer.
-            """
-            if (
-                self.get_node_liquid_water_content(idx)
-                - self.get_node_irreducible_water_content(idx)
-            ) > 0:
-                lw0 = self.get_node_irreducible_water_content(
-                    idx
-                ) * self.get_node_height(idx)
-                lw1 = self.get_node_liquid_water_content(
-                    idx
-                ) * self.get_node_height(
-                    idx
-                ) - self.get_node_irreducible_water_content(
-                    idx
-                ) * self.get_node_height(
-                    idx
-                )
-            # if LWC<WC_irr, then assign all water to the first layer
-            else:
-                lw0 = self.get_node_liquid_water_content(
-                    idx
-                ) * self.get_node_height(idx)
-                lw1 = 0.0
+            # Both parts keep the liquid water content of the layer, which
+            # is volumetric. Filling the thinner part with the water of the
+            # whole layer can exceed its pore space.
+            lw0 = self.get_node_liquid_water_content(idx) * h0
+            lw1 = self.get_node_liquid_water_content(idx) * h1
 
             # Update ice fraction
             if0 = self.get_node_ice_fraction(idx)
-- 
2.43.0


From 86ee493d3833d4b8e1c81dfb657f367d8b078fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:18 +0000
Subject: [PATCH 15/41] fix: surface temperature when the secant iteration does
 not converge

The iteration returned its last guess after 50 steps without notice, and
the fallback minimised the signed energy balance, which always ends at
the melting point. Both cases now solve within the bounds.
---
 cosipy/modules/secant.py             |  2 +-
 cosipy/modules/surfaceTemperature.py | 36 ++++++++++++++++++++++------
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/cosipy/modules/secant.py b/cosipy/modules/secant.py
index f399886..82f0e83 100644
--- a/cosipy/modules/secant.py
+++ b/cosipy/modules/secant.py
@@ -49,7 +49,7 @@ def secant(func, x0, args=(), tol=1.48e-8, maxiter=50, x1=None, rtol=0.0):
         q1 = func(p1, *args)
         funcalls += 1
 
-    return p
+    raise RuntimeError("Secant method failed to converge")
 
 
 # EC2021: to be removed when numba supports np.isclose (next release)
diff --git a/cosipy/modules/surfaceTemperature.py b/cosipy/modules/surfaceTemperature.py
index f952c0f..c2e5345 100644
--- a/cosipy/modules/surfaceTemperature.py
+++ b/cosipy/modules/surfaceTemperature.py
@@ -1,6 +1,6 @@
 import numpy as np
 from numba import njit
-from scipy.optimize import minimize, newton
+from scipy.optimize import brentq, minimize, newton
 
 from cosipy.config import Config
 from cosipy.constants import Constants
@@ -91,9 +91,9 @@ def update_surface_temperature(GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLO
 
         except (RuntimeError,ValueError):
              # Workaround for non-convergence and unboundedness
-             res = minimize(eb_optim, initial_guess, method='SLSQP',
-                       bounds=((lower_bnd_ts, upper_bnd_ts),),tol=1e-2,
-                       args=(GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLOPE, B_Ts, LWin, N))
+             res = solve_bracketed(
+                 lower_bnd_ts, zero_temperature,
+                 args=(GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLOPE, B_Ts, LWin, N))
     elif sfc_temperature_method == 'Secant':
         try:
             res = call_secant_jitted(
@@ -103,9 +103,9 @@ def update_surface_temperature(GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLO
 
         except (RuntimeError, ValueError):
             # Workaround for non-convergence and unboundedness
-            res = minimize(eb_optim, initial_guess, method='SLSQP',
-                           bounds=((lower_bnd_ts, zero_temperature),), tol=1e-2,
-                           args=(GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLOPE, B_Ts, LWin, N))
+            res = solve_bracketed(
+                lower_bnd_ts, zero_temperature,
+                args=(GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLOPE, B_Ts, LWin, N))
     else:
         raise NotImplementedError('Invalid method for minimizing the residual.')
 
@@ -128,6 +128,28 @@ def update_surface_temperature(GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLO
     return minimisation_function, surface_temperature, Li, Lo, H, L, B, Qrr, rho, Lv, MOL, Cs_t, Cs_q, q0, q2
 
 
+def solve_bracketed(lower_bound: float, upper_bound: float, args: tuple) -> np.ndarray:
+    """Solve the surface temperature within fixed bounds.
+
+    Args:
+        lower_bound: Minimum allowable surface temperature.
+        upper_bound: Maximum allowable surface temperature.
+        args: Arguments of ``eb_optim``.
+
+    Returns:
+        Balanced surface temperature, or the bound nearest to it.
+    """
+
+    def residual(temperature: float) -> float:
+        return float(eb_optim(np.array([temperature]), *args))
+
+    if residual(lower_bound) <= 0.0:
+        return np.array([lower_bound])
+    if residual(upper_bound) >= 0.0:
+        return np.array([upper_bound])
+    return np.array([brentq(residual, lower_bound, upper_bound, xtol=1e-2)])
+
+
 @njit
 def check_residual_clip(residual, lower_bound: float) -> bool:
     """Raise error if the surface temperature is out of bounds.
-- 
2.43.0


From 4f129c0fc30c351357fe5cdc193bf25c43f808f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:46 +0000
Subject: [PATCH 16/41] fix: do not accept a surface temperature that leaves
 the energy balance open

Both iterations stop when their steps become small, which also happens
far away from the balance in strongly stable Monin-Obukhov conditions.
---
 cosipy/modules/surfaceTemperature.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/cosipy/modules/surfaceTemperature.py b/cosipy/modules/surfaceTemperature.py
index c2e5345..04d5fcd 100644
--- a/cosipy/modules/surfaceTemperature.py
+++ b/cosipy/modules/surfaceTemperature.py
@@ -88,6 +88,7 @@ def update_surface_temperature(GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLO
             res = newton(eb_optim, np.array([initial_guess]), tol=1e-2, maxiter=50,
                         args=(GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLOPE, B_Ts, LWin, N))
             check_residual_clip(residual=res, lower_bound=lower_bnd_ts)
+            check_balance(res, args=(GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLOPE, B_Ts, LWin, N))
 
         except (RuntimeError,ValueError):
              # Workaround for non-convergence and unboundedness
@@ -100,6 +101,7 @@ def update_surface_temperature(GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLO
                 GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLOPE, B_Ts, lower_bnd_ts, LWin, N, 
             )
             check_residual_clip(residual=res, lower_bound=lower_bnd_ts)
+            check_balance(res, args=(GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLOPE, B_Ts, LWin, N))
 
         except (RuntimeError, ValueError):
             # Workaround for non-convergence and unboundedness
@@ -128,6 +130,32 @@ def update_surface_temperature(GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLO
     return minimisation_function, surface_temperature, Li, Lo, H, L, B, Qrr, rho, Lv, MOL, Cs_t, Cs_q, q0, q2
 
 
+def check_balance(temperature: np.ndarray, args: tuple, tol: float = 2e-2) -> bool:
+    """Raise error if the solver stopped away from the energy balance.
+
+    Args:
+        temperature: Solution for the surface temperature.
+        args: Arguments of ``eb_optim``.
+        tol: Accepted distance to the balance [K].
+
+    Returns:
+        True if the fluxes balance within ``tol``, or if there is a
+        surplus at the melting point for warmer solutions.
+
+    Raises:
+        ValueError: The fluxes are not balanced.
+    """
+    if np.min(temperature) >= zero_temperature:
+        balanced = eb_optim(np.array([zero_temperature]), *args) >= 0.0
+    else:
+        balanced = (eb_optim(temperature - tol, *args) >= 0.0) and (
+            eb_optim(temperature + tol, *args) <= 0.0
+        )
+    if not balanced:
+        raise ValueError("TS solution does not close the energy balance.")
+    return True
+
+
 def solve_bracketed(lower_bound: float, upper_bound: float, args: tuple) -> np.ndarray:
     """Solve the surface temperature within fixed bounds.
 
-- 
2.43.0


From d7e73c9cba112a44fbf92cf17fef391fd6ca9a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:18 +0000
Subject: [PATCH 17/41] fix: Vionnet viscosity takes the volumetric water
 content, not content per layer height

---
 cosipy/modules/densification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/modules/densification.py b/cosipy/modules/densification.py
index eab30a6..33946e1 100644
--- a/cosipy/modules/densification.py
+++ b/cosipy/modules/densification.py
@@ -197,7 +197,7 @@ def method_Vionnet(GRID, SLOPE, dt):
         if (rho[idxNode] < snow_ice_threshold) & (height[idxNode] > minimum_snow_layer_height):
 
             # Parameter f1
-            f1 = 1 / (1+60.0*(lwc[idxNode]/height[idxNode]))
+            f1 = 1 / (1+60.0*lwc[idxNode])  # volumetric, W / (rho_w D)
           
             # Snow viscosity
             eta = f1*f2*eta0*(rho[idxNode]/c)*np.exp(a*(273.14-t[idxNode])+b*rho[idxNode])
-- 
2.43.0


From 7d39983236bc87d0f8b5235081a2fda5765f845f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:17 +0000
Subject: [PATCH 18/41] fix: restart with a single remaining time step was
 refused

---
 cosipy/cpkernel/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosipy/cpkernel/io.py b/cosipy/cpkernel/io.py
index 8268cfb..e6e46a9 100644
--- a/cosipy/cpkernel/io.py
+++ b/cosipy/cpkernel/io.py
@@ -316,8 +316,8 @@ class IOClass:
             )
             self.DATA = self.DATA.sel(time=slice(time_start, time_end))
         else:
-            # There is nothing to do if the dates are equal
-            if self.restart_date == end_time:
+            # There is nothing to do if no time step is left
+            if self.restart_date > end_time:
                 raise SystemExit("Start date equals end date ... no new data ... EXIT")
             else:
                 # otherwise, run the model from the restart date to the defined end date
-- 
2.43.0


From fa432e297fab81f280e6d5950f8ca0fc1400c6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:17 +0000
Subject: [PATCH 19/41] fix: restart of a tile used the saved state of other
 grid cells

---
 cosipy/cpkernel/io.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/cosipy/cpkernel/io.py b/cosipy/cpkernel/io.py
index e6e46a9..c723e13 100644
--- a/cosipy/cpkernel/io.py
+++ b/cosipy/cpkernel/io.py
@@ -184,8 +184,34 @@ class IOClass:
         self.nx = self.DATA.sizes[Config.easting]
         self.time = self.DATA.sizes["time"]
 
+        if Config.restart:
+            self.select_restart_region()
+
         return self.DATA
 
+    def select_restart_region(self):
+        """Select the restart state of the grid cells in the input data.
+
+        The restart file may cover a larger region than the input data,
+        e.g. when only a tile of the domain is continued.
+        """
+
+        def get_grid(dataset):
+            lat, lon = dataset.lat.values, dataset.lon.values
+            return (lat, lon) if lat.ndim == 2 else np.meshgrid(lat, lon, indexing="ij")
+
+        saved = get_grid(self.GRID_RESTART)
+        wanted = get_grid(self.DATA)
+        origins = (saved[0] == wanted[0][0, 0]) & (saved[1] == wanted[1][0, 0])
+        for y, x in np.argwhere(origins):
+            region = (slice(y, y + self.ny), slice(x, x + self.nx))
+            if all(np.array_equal(s[region], w) for s, w in zip(saved, wanted)):
+                self.GRID_RESTART = self.GRID_RESTART.isel(
+                    {Config.northing: region[0], Config.easting: region[1]}
+                )
+                return
+        raise SystemExit("The restart file does not cover the grid of the input data.")
+
     def create_result_file(self) -> xr.Dataset:
         """Create and initialise the RESULT dataset."""
         self.init_result_dataset()
-- 
2.43.0


From e88db06eefe7b643a203aa3e851af29aab686ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:28 +0000
Subject: [PATCH 20/41] fix: restart lost the snow albedo and surface
 temperature the Bougamont albedo depends on

---
 cosipy/cpkernel/cosipy_core.py |  5 +++++
 cosipy/cpkernel/io.py          | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/cosipy/cpkernel/cosipy_core.py b/cosipy/cpkernel/cosipy_core.py
index 390fb4d..8b5ba2c 100644
--- a/cosipy/cpkernel/cosipy_core.py
+++ b/cosipy/cpkernel/cosipy_core.py
@@ -218,6 +218,9 @@ def cosipy_core(DATA, indY, indX, GRID_RESTART=None, stake_names=None, stake_dat
     albedo_snow = albedo_fresh_snow
     if WRF_X_CSPY:
         albedo_snow = albedo_firn
+    elif GRID_RESTART is not None and "ALBEDOSNOW" in GRID_RESTART:
+        surface_temperature = float(GRID_RESTART.SURFACETEMPERATURE.values)
+        albedo_snow = float(GRID_RESTART.ALBEDOSNOW.values)
 
     if Config.stake_evaluation:
         # Create pandas dataframe for stake evaluation
@@ -497,6 +500,8 @@ def cosipy_core(DATA, indY, indX, GRID_RESTART=None, stake_names=None, stake_dat
         RESTART.NEWSNOWHEIGHT.values[:] = _new_snow_height[t]
         RESTART.NEWSNOWTIMESTAMP.values[:] = _new_snow_timestamp[t]
         RESTART.OLDSNOWTIMESTAMP.values[:] = _old_snow_timestamp[t]
+        RESTART.SURFACETEMPERATURE.values[:] = surface_temperature
+        RESTART.ALBEDOSNOW.values[:] = albedo_snow
         RESTART.LAYER_HEIGHT[0:GRID.get_number_layers()] = GRID.get_height()
         RESTART.LAYER_RHO[0:GRID.get_number_layers()] = GRID.get_density()
         RESTART.LAYER_T[0:GRID.get_number_layers()] = GRID.get_temperature()
diff --git a/cosipy/cpkernel/io.py b/cosipy/cpkernel/io.py
index c723e13..9ca127a 100644
--- a/cosipy/cpkernel/io.py
+++ b/cosipy/cpkernel/io.py
@@ -416,6 +416,8 @@ class IOClass:
             "NEWSNOWHEIGHT": ("m .w.e", "New snow height"),
             "NEWSNOWTIMESTAMP": ("s", "New snow timestamp"),
             "OLDSNOWTIMESTAMP": ("s", "Old snow timestamp"),
+            "SURFACETEMPERATURE": ("K", "Surface temperature"),
+            "ALBEDOSNOW": ("-", "Albedo of the ageing snow"),
         }
         metadata = restart_metadata | field_metadata
 
@@ -775,6 +777,8 @@ class IOClass:
             "NEWSNOWHEIGHT",
             "NEWSNOWTIMESTAMP",
             "OLDSNOWTIMESTAMP",
+            "SURFACETEMPERATURE",
+            "ALBEDOSNOW",
         ]:
             setattr(self, f"RES_{name}", np.full((self.ny, self.nx), np.nan))
 
@@ -800,6 +804,8 @@ class IOClass:
             "NEWSNOWHEIGHT",
             "NEWSNOWTIMESTAMP",
             "OLDSNOWTIMESTAMP",
+            "SURFACETEMPERATURE",
+            "ALBEDOSNOW",
         ]:
             self.add_variable_along_scalar(
                 self.RESTART,
@@ -835,6 +841,8 @@ class IOClass:
             "NEWSNOWHEIGHT",
             "NEWSNOWTIMESTAMP",
             "OLDSNOWTIMESTAMP",
+            "SURFACETEMPERATURE",
+            "ALBEDOSNOW",
         ]:
             getattr(self, f"RES_{name}")[y, x] = getattr(local_restart, name)
 
@@ -852,6 +860,8 @@ class IOClass:
             "NEWSNOWHEIGHT",
             "NEWSNOWTIMESTAMP",
             "OLDSNOWTIMESTAMP",
+            "SURFACETEMPERATURE",
+            "ALBEDOSNOW",
         ]:
             keyname = f"RES_{name}"
             self.add_variable_along_latlon(
-- 
2.43.0


From 17cff928175df88d8631590a82954078e601679e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:17 +0000
Subject: [PATCH 21/41] fix: solar position ignored the longitude and mixed up
 morning and afternoon

---
 cosipy/modules/radCor.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/cosipy/modules/radCor.py b/cosipy/modules/radCor.py
index ff81a0c..0284e29 100644
--- a/cosipy/modules/radCor.py
+++ b/cosipy/modules/radCor.py
@@ -44,8 +44,8 @@ def solarFParallel(lat:float, lon:float, timezone_lon:float, day:int, hour:float
     LC = (timezone_lon - lon) / 15.0
 
     # Solar noon (hours) / solar time (hours)
-    solarnoon = 12.0 - LC - timeEq 
-    solartime = hour - LC - timeEq
+    solarnoon = 12.0
+    solartime = hour - LC + timeEq
 
     # Solar elevation
     beta = math.asin(math.sin(lat * FAC) * math.sin(dec) + math.cos(lat * FAC) * 
@@ -54,11 +54,13 @@ def solarFParallel(lat:float, lon:float, timezone_lon:float, day:int, hour:float
     # Zenith angle (radians)
     zeni = math.pi/2.0 - beta
     
-    # Azimuth angle (radians)
-    azi = math.acos((math.sin(lat * FAC) * math.cos(zeni) - math.sin(dec)))/math.cos(lat*FAC)*math.sin(zeni)
-    
-    if solartime < solarnoon:
-        azi = azi * -1.0
+    # Azimuth angle (radians) from south, positive towards west
+    hour_angle = 15.0 * FAC * (solartime - solarnoon)
+    azi = math.atan2(
+        math.cos(dec) * math.sin(hour_angle),
+        math.sin(lat * FAC) * math.cos(dec) * math.cos(hour_angle)
+        - math.cos(lat * FAC) * math.sin(dec),
+    )
 
     return beta, zeni, azi
 
-- 
2.43.0


From ddf6d19da4cc66b8e84a9d7b5014756cf33a3d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:17 +0000
Subject: [PATCH 22/41] fix: slopes facing away from the sun reduced the
 diffuse radiation

---
 cosipy/modules/radCor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/modules/radCor.py b/cosipy/modules/radCor.py
index 0284e29..0b5a64f 100644
--- a/cosipy/modules/radCor.py
+++ b/cosipy/modules/radCor.py
@@ -153,7 +153,7 @@ def radCor2D(doy, zeni, azi, angslo, azislo, Rm, zeni_thld):
         * math.cos(azi - (azislo * FAC))
     ) / math.cos(zeni)
 
-    Rc = Rb * cf + Rd
+    Rc = Rb * max(cf, 0.0) + Rd  # no beam if the sun is behind the pixel
     
     return Rc
 
-- 
2.43.0


From 47a1c3abab71c3df8550360b6ba89d82170e80f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:17 +0000
Subject: [PATCH 23/41] fix: arguments of the mixing ratio were in the wrong
 order, Moelg2009 always failed

---
 cosipy/modules/radCor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/modules/radCor.py b/cosipy/modules/radCor.py
index 0b5a64f..b3dc31d 100644
--- a/cosipy/modules/radCor.py
+++ b/cosipy/modules/radCor.py
@@ -463,7 +463,7 @@ def calcRad(solPars, timecorr, doy, hour, lat, tempgrid, pgrid, rhgrid, cldgrid,
     swidiff = np.full_like(elvgrid, np.nan)
 
     # Mixing ratio from RH and Pres
-    mixing_interp = metpy.calc.mixing_ratio_from_relative_humidity(rhgrid * units.percent, tempgrid * units.kelvin, pgrid * units.hPa)
+    mixing_interp = metpy.calc.mixing_ratio_from_relative_humidity(pgrid * units.hPa, tempgrid * units.kelvin, rhgrid * units.percent)
     vp_interp = np.array(metpy.calc.vapor_pressure(pgrid * units.hPa, mixing_interp))
 
     # Solar geometries
-- 
2.43.0


From f54c2e73b29de27824b68a818cf43ea0d88f094d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:17 +0000
Subject: [PATCH 24/41] fix: station pressure changed although the height did
 not

---
 cosipy/utilities/aws2cosipy/aws2cosipy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/utilities/aws2cosipy/aws2cosipy.py b/cosipy/utilities/aws2cosipy/aws2cosipy.py
index e2c4208..25999a1 100644
--- a/cosipy/utilities/aws2cosipy/aws2cosipy.py
+++ b/cosipy/utilities/aws2cosipy/aws2cosipy.py
@@ -233,7 +233,7 @@ def get_pressure_bias(data, height):
     slp = data / np.power(
         (1 - (0.0065 * _cfg.station["stationAlt"]) / (288.15)), 5.255
     )
-    pressure = slp * np.power((1 - (0.0065 * height) / (288.15)), 5.22)
+    pressure = slp * np.power((1 - (0.0065 * height) / (288.15)), 5.255)
 
     return pressure
 
-- 
2.43.0


From 05f74fee126e113dc5ee7941f7f4067f7903493f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:17 +0000
Subject: [PATCH 25/41] fix: point input with WRF layout had swapped
 coordinates and wrong dimensions

---
 cosipy/utilities/aws2cosipy/aws2cosipy.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/cosipy/utilities/aws2cosipy/aws2cosipy.py b/cosipy/utilities/aws2cosipy/aws2cosipy.py
index 25999a1..6d342a2 100644
--- a/cosipy/utilities/aws2cosipy/aws2cosipy.py
+++ b/cosipy/utilities/aws2cosipy/aws2cosipy.py
@@ -305,8 +305,8 @@ def create_1D_input(cs_file, cosipy_file, static_file, start_date, end_date):
     if _cfg.coords["WRF"]:
         ds = xr.Dataset()
         lon, lat = np.meshgrid(_cfg.points["plon"], _cfg.points["plat"])
-        ds.coords["lat"] = (("south_north", "west_east"), lon)
-        ds.coords["lon"] = (("south_north", "west_east"), lat)
+        ds.coords["lat"] = (("south_north", "west_east"), lat)
+        ds.coords["lon"] = (("south_north", "west_east"), lon)
 
     else:
         if static_file:
@@ -814,7 +814,11 @@ def add_variable_along_latlon(ds, var, name, units, long_name):
 
 def add_variable_along_timelatlon_point(ds, var, name, units, long_name):
     """Add spatiotemporal point data to a dataset."""
-    ds[name] = (("time", "lat", "lon"), np.reshape(var, (len(var), 1, 1)))
+    if _cfg.coords["WRF"]:
+        dims = ("time", "south_north", "west_east")
+    else:
+        dims = ("time", "lat", "lon")
+    ds[name] = (dims, np.reshape(var, (len(var), 1, 1)))
     ds[name].attrs["units"] = units
     ds[name].attrs["long_name"] = long_name
     return ds
@@ -822,7 +826,11 @@ def add_variable_along_timelatlon_point(ds, var, name, units, long_name):
 
 def add_variable_along_point(ds, var, name, units, long_name):
     """Add point data to a dataset."""
-    ds[name] = (("lat", "lon"), np.reshape(var, (1, 1)))
+    if _cfg.coords["WRF"]:
+        dims = ("south_north", "west_east")
+    else:
+        dims = ("lat", "lon")
+    ds[name] = (dims, np.reshape(var, (1, 1)))
     ds[name].attrs["units"] = units
     ds[name].attrs["long_name"] = long_name
     return ds
-- 
2.43.0


From 85fa49a6eec25cca644ff9376b301bd7193d878d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:18 +0000
Subject: [PATCH 26/41] fix: radiation correction ignored the minutes of the
 time stamp

---
 cosipy/utilities/aws2cosipy/aws2cosipy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/utilities/aws2cosipy/aws2cosipy.py b/cosipy/utilities/aws2cosipy/aws2cosipy.py
index 6d342a2..a6ebd3d 100644
--- a/cosipy/utilities/aws2cosipy/aws2cosipy.py
+++ b/cosipy/utilities/aws2cosipy/aws2cosipy.py
@@ -622,7 +622,7 @@ def create_2D_input(
 
         for t in range(time_index):
             doy = df.index[t].dayofyear
-            hour = df.index[t].hour
+            hour = df.index[t].hour + df.index[t].minute / 60.0
             for i in range(lat_index):
                 for j in range(lon_index):
                     if mask[i, j] == 1:
-- 
2.43.0


From e5b976323b29c619eb785f5118e6b27a0d5dc8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:18 +0000
Subject: [PATCH 27/41] fix: static WRF fields could not be written

---
 cosipy/utilities/wrf2cosipy/wrf2cosipy.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
index 67bfef4..759d292 100644
--- a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
+++ b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
@@ -72,11 +72,11 @@ def create_input(wrf_file, cosipy_file, start_date, end_date):
     dso = add_variable_along_timelatlon(dso, ds.SWDOWN.values, 'G', 'W m^-2', 'Incoming shortwave radiation')
     dso = add_variable_along_timelatlon(dso, ds.GLW.values, 'LWin', 'W m^-2', 'Incoming longwave radiation')
     dso = add_variable_along_timelatlon(dso, ds.PSFC.values/100.0, 'PRES', 'hPa', 'Atmospheric Pressure')
-    dso = add_variable_along_latlon(dso, ds.SNOWH[0], 'SNOWHEIGHT', 'm', 'Initial snowheight')
-    dso = add_variable_along_latlon(dso, ds.SNOW[0], 'SWE', 'kg m^-2', 'Snow Water Equivalent')
-    dso = add_variable_along_latlon(dso, ds.SNOWC[0], 'SNOWC', '-', 'Flag indicating snow coverage (1 for snow cover)')
-    dso = add_variable_along_latlon(dso, ds.LU_INDEX[0], 'LU_INDEX', '-', 'Land use category')
-    dso = add_variable_along_latlon(dso, ds.TSK[0], 'TSK', 'K', 'Skin temperature')
+    dso = add_variable_along_latlon(dso, ds.SNOWH[0].values, 'SNOWHEIGHT', 'm', 'Initial snowheight')
+    dso = add_variable_along_latlon(dso, ds.SNOW[0].values, 'SWE', 'kg m^-2', 'Snow Water Equivalent')
+    dso = add_variable_along_latlon(dso, ds.SNOWC[0].values, 'SNOWC', '-', 'Flag indicating snow coverage (1 for snow cover)')
+    dso = add_variable_along_latlon(dso, ds.LU_INDEX[0].values, 'LU_INDEX', '-', 'Land use category')
+    dso = add_variable_along_latlon(dso, ds.TSK[0].values, 'TSK', 'K', 'Skin temperature')
     
     # Wind velocity at 2 m (assuming neutral stratification)
     z  = _cfg.constants["hu"]     # Height of measurement
@@ -117,8 +117,8 @@ def create_input(wrf_file, cosipy_file, start_date, end_date):
     HGT.attrs['res'] = (DX,DY)
     slope = xrs.slope(HGT)
     aspect = xrs.aspect(HGT)
-    dso = add_variable_along_latlon(dso, slope, 'SLOPE', 'degrees', 'Slope')
-    dso = add_variable_along_latlon(dso, aspect, 'ASPECT', 'degrees', 'Aspect')
+    dso = add_variable_along_latlon(dso, slope.values, 'SLOPE', 'degrees', 'Slope')
+    dso = add_variable_along_latlon(dso, aspect.values, 'ASPECT', 'degrees', 'Aspect')
 
     # Write file
     dso.to_netcdf(cosipy_file)
-- 
2.43.0


From 41063245dc525ae2ba89abf25d2bdba4fd0fc638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:18 +0000
Subject: [PATCH 28/41] fix: time stamps of converted WRF data were text the
 model cannot read

---
 cosipy/utilities/wrf2cosipy/wrf2cosipy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
index 759d292..c9a69a7 100644
--- a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
+++ b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
@@ -53,7 +53,7 @@ def create_input(wrf_file, cosipy_file, start_date, end_date):
     ds = ds.rename({'XTIME':'Time'})
     
     # Re-format timestamp (only hour and minutes, no seconds)
-    ds = ds.assign_coords(Time=pd.to_datetime(ds['Time'].values).strftime('%Y-%m-%dT%H-%M'))
+    ds = ds.assign_coords(Time=pd.to_datetime(ds['Time'].values).floor('min'))
 
     # Select the specified period
     if ((start_date!=None) & (end_date!=None)):
-- 
2.43.0


From 9666945ab16064097338824ddfd8255e7b357c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:18 +0000
Subject: [PATCH 29/41] fix: WRF wind speed ignored the configured height of
 measurement

---
 cosipy/utilities/wrf2cosipy/wrf2cosipy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
index c9a69a7..bf4cd08 100644
--- a/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
+++ b/cosipy/utilities/wrf2cosipy/wrf2cosipy.py
@@ -82,7 +82,7 @@ def create_input(wrf_file, cosipy_file, start_date, end_date):
     z  = _cfg.constants["hu"]     # Height of measurement
     z0 = 0.0040 # Roughness length for momentum
     umag = np.sqrt(ds.V10.values**2+ds.U10.values**2)   # Mean wind velocity
-    U2 = umag * (np.log(2 / z0) / np.log(10 / z0))
+    U2 = umag * (np.log(2 / z0) / np.log(z / z0))
     dso = add_variable_along_timelatlon(dso, U2, 'U2', 'm s^-1', 'Wind velocity at 2 m')
 
     # Add glacier mask to file (derived from the land use category)
-- 
2.43.0


From 7526c2ce7de8131b6f5eec60a859eb50784ba8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:18 +0000
Subject: [PATCH 30/41] fix: stakes on cells without simulation were evaluated
 against themselves

---
 COSIPY.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/COSIPY.py b/COSIPY.py
index f080f7d..d5607e4 100644
--- a/COSIPY.py
+++ b/COSIPY.py
@@ -184,7 +184,9 @@ def run_cosipy(cluster, IO, DATA, RESULT, RESTART, futures):
 
             # Init dataframes to store evaluation statistics
             df_stat = pd.DataFrame()
-            df_val = df_stakes_data.copy()
+            df_val = pd.DataFrame(
+                np.nan, index=df_stakes_data.index, columns=df_stakes_data.columns
+            )
 
             # reshape and stack coordinates
             if Config.WRF:
-- 
2.43.0


From 5fa3616bba9b96e4907ccfde17eba13085c8a182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:06 +0000
Subject: [PATCH 31/41] fix: glacier cells at or below sea level were left out
 of the static mask

---
 cosipy/utilities/createStatic/create_static_file.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cosipy/utilities/createStatic/create_static_file.py b/cosipy/utilities/createStatic/create_static_file.py
index 6ee3823..ca03527 100644
--- a/cosipy/utilities/createStatic/create_static_file.py
+++ b/cosipy/utilities/createStatic/create_static_file.py
@@ -147,7 +147,7 @@ def main():
     # calculate mask as NetCDF with DEM and shapefile
     os.system(
         f"gdalwarp -of NETCDF --config GDALWARP_IGNORE_BAD_CUTLINE YES "
-        + f"-cutline {shape_path} {dem_path_tif} {mask_path}"
+        + f"-dstnodata -9999 -cutline {shape_path} {dem_path_tif} {mask_path}"
     )
 
     # open intermediate netcdf files
@@ -157,8 +157,7 @@ def main():
 
     # set NaNs in mask to -9999 and elevation within the shape to 1
     mask=mask.Band1.values
-    mask[np.isnan(mask)]=-9999
-    mask[mask>0]=1
+    mask=np.where(np.isnan(mask)|(mask==-9999),-9999.0,1.0)
     print(mask)
 
     ## create output dataset
-- 
2.43.0


From e73df7637205d8dfdc47f90ebc81e5e2fd9a1b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:42 +0000
Subject: [PATCH 32/41] fix: the cosipy-plot-profile entry point had no main

---
 cosipy/postprocessing/profile_plots/plot_profiles.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cosipy/postprocessing/profile_plots/plot_profiles.py b/cosipy/postprocessing/profile_plots/plot_profiles.py
index d18473f..ab1d076 100644
--- a/cosipy/postprocessing/profile_plots/plot_profiles.py
+++ b/cosipy/postprocessing/profile_plots/plot_profiles.py
@@ -239,7 +239,7 @@ def naive_fast(latvar,lonvar,lat0,lon0):
     return iy_min,ix_min
     
 
-if __name__ == "__main__":
+def main():
    
     parser = argparse.ArgumentParser(description='Quick plot of the results file.')
     parser.add_argument('-f', '--file', dest='file', help='Path to the result file')
@@ -258,4 +258,8 @@ if __name__ == "__main__":
     if (args.pdate is None):
         plot_profile_1D_timeseries(args.file, args.var, args.d, args.start, args.end, stake_file=args.stake_file, pit_name=args.pit_name)
     else:
-        plot_profile_1D(args.file, args.pdate, args.d, args.lat, args.lon) 
+        plot_profile_1D(args.file, args.pdate, args.d, args.lat, args.lon)
+
+
+if __name__ == "__main__":
+    main()
-- 
2.43.0


From 2a49f4ca9c512298c6fad084dafb560c8a23e588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:42 +0000
Subject: [PATCH 33/41] fix: profiles over time could not be drawn

---
 cosipy/postprocessing/profile_plots/plot_profiles.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cosipy/postprocessing/profile_plots/plot_profiles.py b/cosipy/postprocessing/profile_plots/plot_profiles.py
index ab1d076..397db05 100644
--- a/cosipy/postprocessing/profile_plots/plot_profiles.py
+++ b/cosipy/postprocessing/profile_plots/plot_profiles.py
@@ -118,7 +118,7 @@ def plot_profile_1D_timeseries(filename, var, domainy=None, start=None, end=None
         depth = ds.SNOWHEIGHT[:].values
     
     # Calc plotting domain height
-    Dn = (np.int(np.floor(ds.SNOWHEIGHT.max()))+1)
+    Dn = (int(np.floor(ds.SNOWHEIGHT.max()))+1)
     
     ## Create new grid
     xi = time
@@ -179,7 +179,6 @@ def plot_profile_1D_timeseries(filename, var, domainy=None, start=None, end=None
     # Make a colorbar for the ContourSet returned by the contourf call.
     cbar = plt.colorbar(CS)
     cbar.ax.set_ylabel(barLabel,fontsize=16,fontname = "Helvetica", weight='normal')
-    cbar.ax.set_yticks(barLabel,fontname = "Helvetica", weight='normal')
 
     plt.show()
 
-- 
2.43.0


From 90bc5072fc19ea200681b46dcfb97793fc01982f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:42 +0000
Subject: [PATCH 34/41] fix: profiles over time ignored the given latitude and
 longitude

---
 cosipy/postprocessing/profile_plots/plot_profiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/postprocessing/profile_plots/plot_profiles.py b/cosipy/postprocessing/profile_plots/plot_profiles.py
index 397db05..ab5c032 100644
--- a/cosipy/postprocessing/profile_plots/plot_profiles.py
+++ b/cosipy/postprocessing/profile_plots/plot_profiles.py
@@ -255,7 +255,7 @@ def main():
     args = parser.parse_args()
    
     if (args.pdate is None):
-        plot_profile_1D_timeseries(args.file, args.var, args.d, args.start, args.end, stake_file=args.stake_file, pit_name=args.pit_name)
+        plot_profile_1D_timeseries(args.file, args.var, args.d, args.start, args.end, args.lat, args.lon, stake_file=args.stake_file, pit_name=args.pit_name)
     else:
         plot_profile_1D(args.file, args.pdate, args.d, args.lat, args.lon)
 
-- 
2.43.0


From d1f75cab37a05eb905c6d0f7df83b764431d5458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:42 +0000
Subject: [PATCH 35/41] fix: measured heights and dates in profiles over time
 assumed hourly results

---
 cosipy/postprocessing/profile_plots/plot_profiles.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/cosipy/postprocessing/profile_plots/plot_profiles.py b/cosipy/postprocessing/profile_plots/plot_profiles.py
index ab5c032..7b5196b 100644
--- a/cosipy/postprocessing/profile_plots/plot_profiles.py
+++ b/cosipy/postprocessing/profile_plots/plot_profiles.py
@@ -153,22 +153,21 @@ def plot_profile_1D_timeseries(filename, var, domainy=None, start=None, end=None
     #CS = ax.pcolormesh(X,Y,data, vmin=0, vmax=0.1)
     
     N = pd.date_range(ds.time[0].values, ds.time[-1].values, freq='m')
-    M = pd.date_range(ds.time[0].values, ds.time[-1].values, freq='H')
+    M = pd.DatetimeIndex(ds.time.values)
 
     if ((stake_file!=None) & (pit_name!=None)):
         df = pd.read_csv(stake_file, sep='\t',index_col='TIMESTAMP')
         df = df[df[pit_name]!=-9999]
     
         for index, row in df.iterrows():
-            res = (M == pd.Timestamp(index)).argmax() 
-            if res!=0:
-                plt.scatter(res,row[pit_name])
+            res = np.where(M == pd.Timestamp(index))[0]
+            if res.size > 0:
+                plt.scatter(res[0],row[pit_name])
 
     labIdx = []
     label = []
     for q in N:
-        o = np.where(M==q)
-        labIdx.append(o[0][0])
+        labIdx.append(np.abs(M-q).argmin())
         label.append(q.strftime('%Y-%m-%d'))
     
     plt.xticks(labIdx, label,rotation=45,fontsize=16,weight='normal')
-- 
2.43.0


From 2817606c80f68ebfc542b0c64069b9cc3d993ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:43 +0000
Subject: [PATCH 36/41] fix: the daily mean of a time in the afternoon was that
 of the next day

---
 cosipy/postprocessing/field_plots/plot_cosipy_fields.py   | 3 ++-
 cosipy/postprocessing/vtk_plots/plot_cosipy_fields_vtk.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cosipy/postprocessing/field_plots/plot_cosipy_fields.py b/cosipy/postprocessing/field_plots/plot_cosipy_fields.py
index aadbfbe..9305648 100644
--- a/cosipy/postprocessing/field_plots/plot_cosipy_fields.py
+++ b/cosipy/postprocessing/field_plots/plot_cosipy_fields.py
@@ -9,6 +9,7 @@ import cartopy.crs as ccrs
 import matplotlib
 import matplotlib.pyplot as plt
 import numpy as np
+import pandas as pd
 import xarray as xr
 
 # matplotlib.use("TkAgg")
@@ -58,7 +59,7 @@ def get_selection(
         data = (
             array.resample(time="1D", skipna=True)
             .mean()
-            .sel(time=timestamp, method="nearest")
+            .sel(time=pd.Timestamp(timestamp).normalize(), method="nearest")
         )
 
     return data
diff --git a/cosipy/postprocessing/vtk_plots/plot_cosipy_fields_vtk.py b/cosipy/postprocessing/vtk_plots/plot_cosipy_fields_vtk.py
index a9265fb..18d2a95 100644
--- a/cosipy/postprocessing/vtk_plots/plot_cosipy_fields_vtk.py
+++ b/cosipy/postprocessing/vtk_plots/plot_cosipy_fields_vtk.py
@@ -4,6 +4,7 @@ import warnings
 from itertools import product
 
 import numpy as np
+import pandas as pd
 import vtk
 import xarray as xr
 from vtk.util import numpy_support
@@ -56,7 +57,7 @@ def get_selection(
         data = (
             array.resample(time="1D", skipna=True)
             .mean()
-            .sel(time=timestamp, method="nearest")
+            .sel(time=pd.Timestamp(timestamp).normalize(), method="nearest")
         )
 
     return data
-- 
2.43.0


From c0fc98e3c463f6cb1125e45e382102e59c44da50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:43 +0000
Subject: [PATCH 37/41] fix: Moelg2009 radiation failed at polar latitudes

---
 cosipy/modules/radCor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/modules/radCor.py b/cosipy/modules/radCor.py
index b3dc31d..6d077fc 100644
--- a/cosipy/modules/radCor.py
+++ b/cosipy/modules/radCor.py
@@ -214,7 +214,7 @@ def solpars(lat):
         solparam[j, 2] = 1.00011 + 0.034221 * math.cos(tau) + 0.00128 * math.sin(tau) + 0.000719 * math.cos(2*tau) + 0.000077 * math.sin(2 * tau)
         solparam[j, 3] = 0.006918 - 0.399912 * math.cos(tau) + 0.070257 * math.sin(tau) - 0.006758 * math.cos(2*tau) + 0.000907 * math.sin(2 * tau) - 0.002697 * math.cos(3 * tau) + 0.00148 * math.sin(3 * tau)
         solparam[j, 4] = solparam[j, 3] * 180 / math.pi
-        solparam[j, 5] = math.acos(-math.tan(lat * math.pi / 180) * math.tan(solparam[j, 3])) * 180 / math.pi
+        solparam[j, 5] = math.acos(min(1.0, max(-1.0, -math.tan(lat * math.pi / 180) * math.tan(solparam[j, 3])))) * 180 / math.pi  # polar day/night
         solparam[j, 6] = 2 / 15 * solparam[j, 5]
 
     # Duplicate line 365 for years with 366 days
-- 
2.43.0


From 9a9bd7d076db6feae51e3724a1426be6b5b40f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:43 +0000
Subject: [PATCH 38/41] fix: shading failed for glacier cells next to the
 border

---
 cosipy/modules/radCor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/modules/radCor.py b/cosipy/modules/radCor.py
index 6d077fc..f5661d1 100644
--- a/cosipy/modules/radCor.py
+++ b/cosipy/modules/radCor.py
@@ -310,7 +310,7 @@ def relshad(dem, mask, lats, lons, solh, sdirfn):
                 # Topography angle
                 Hang = np.degrees(np.arctan((zi[1:len(zi)] - zi[0]) / distance[1:len(distance)]))
 
-                if np.max(Hang) > solh:
+                if np.max(Hang, initial=-90.0) > solh:
                     illu[idy[0], idx[0]] = 0
                 else:
                     illu[idy[0], idx[0]] = 1
-- 
2.43.0


From 24e62c27d86ab4efd29dac43be0b78ce6c354d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:43 +0000
Subject: [PATCH 39/41] fix: shading used another sun position than the
 radiation for steps other than an hour

---
 cosipy/modules/radCor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/modules/radCor.py b/cosipy/modules/radCor.py
index f5661d1..c8e58c6 100644
--- a/cosipy/modules/radCor.py
+++ b/cosipy/modules/radCor.py
@@ -353,7 +353,7 @@ def LUTshad(solpars, timecorr, lat, elvgrid, maskgrid, lats, lons, STEP, TCART):
         for hod in np.arange(0, 24, int(STEP / 3600)):
 
             # calculate solar geometries
-            stime = 180 + (15 / 2) - hod * 15 - tcorr + TCART
+            stime = 180 + (STEP / 3600 * 15 / 2) - hod * 15 - tcorr + TCART
             sin_h = math.sin(soldec) * math.sin(lat * math.pi / 180) + math.cos(soldec) * math.cos(lat * math.pi / 180) * \
                     math.cos(stime * math.pi / 180)
             cos_sol_azi = (sin_h * math.sin(lat * math.pi / 180) - math.sin(soldec)) / math.cos(math.asin(sin_h)) / \
-- 
2.43.0


From eb8f2a46fd0174207d4b255194ff9bbc437caeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:43 +0000
Subject: [PATCH 40/41] fix: the sun's side was mixed up when the hour angle
 exceeds half a turn

---
 cosipy/modules/radCor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/modules/radCor.py b/cosipy/modules/radCor.py
index c8e58c6..14a7d3e 100644
--- a/cosipy/modules/radCor.py
+++ b/cosipy/modules/radCor.py
@@ -359,7 +359,7 @@ def LUTshad(solpars, timecorr, lat, elvgrid, maskgrid, lats, lons, STEP, TCART):
             cos_sol_azi = (sin_h * math.sin(lat * math.pi / 180) - math.sin(soldec)) / math.cos(math.asin(sin_h)) / \
                     math.cos(lat * math.pi / 180)
 
-            if stime > 0:
+            if math.sin(stime * math.pi / 180) > 0:  # sun in the east
                 solar_az = math.acos(cos_sol_azi) * 180 / math.pi
             else:
                 solar_az = math.acos(cos_sol_azi) * 180 / math.pi * (-1)
-- 
2.43.0


From a09cc254aa9de4b1a92d578933fa11eaebb0c73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:43 +0000
Subject: [PATCH 41/41] fix: stored look-up tables had their latitudes upside
 down

---
 cosipy/utilities/aws2cosipy/aws2cosipy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosipy/utilities/aws2cosipy/aws2cosipy.py b/cosipy/utilities/aws2cosipy/aws2cosipy.py
index a6ebd3d..46e43ed 100644
--- a/cosipy/utilities/aws2cosipy/aws2cosipy.py
+++ b/cosipy/utilities/aws2cosipy/aws2cosipy.py
@@ -701,7 +701,7 @@ def create_2D_input(
             LONS = f.createVariable("lon", "f4", ("lon",))
             LONS.units = "degree"
 
-            LATS[:] = lats
+            LATS[:] = lats[::-1]  # tables are stored north to south
             LONS[:] = lons
 
             shad = f.createVariable("SHADING", float, ("time", "lat", "lon"))
-- 
2.43.0

