From c13f46590539641a8fb0dba41c31139b588482b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:37 +0000
Subject: [PATCH 01/75] fix: wind conversion no longer overwrites the caller's
 wind angles

---
 hrosailing/core/computing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/computing.py b/hrosailing/core/computing.py
index 0a09ac7..2c7ab04 100644
--- a/hrosailing/core/computing.py
+++ b/hrosailing/core/computing.py
@@ -26,7 +26,7 @@ class _Wind(enum.Enum):
         if np.any((ws < 0)):
             raise TypeError("`wind` has negative wind speeds")
 
-        wa %= 360  # normalize wind angles
+        wa = wa % 360  # normalize wind angles
         wa_above_180 = wa > 180
         wa = np.deg2rad(wa)
 
-- 
2.43.0


From 641d1a065fa171d9ca0c0855a295a3e4e0993e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:37 +0000
Subject: [PATCH 02/75] fix: point cloud call no longer overwrites the caller's
 wind angles

---
 hrosailing/polardiagram/_polardiagrampointcloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagrampointcloud.py b/hrosailing/polardiagram/_polardiagrampointcloud.py
index a03ea19..be863d1 100644
--- a/hrosailing/polardiagram/_polardiagrampointcloud.py
+++ b/hrosailing/polardiagram/_polardiagrampointcloud.py
@@ -198,7 +198,7 @@ class PolarDiagramPointcloud(PolarDiagram):
         if np.any((ws <= 0)):
             raise ValueError("`ws` is non-positive")
 
-        wa %= 360
+        wa = wa % 360
 
         cloud = self.points
         point = cloud[np.logical_and(cloud[:, 0] == ws, cloud[:, 1] == wa)]
-- 
2.43.0


From 58f3711823c2dc7fcb86c4a67e155d174b9f3ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:37 +0000
Subject: [PATCH 03/75] fix: add_points no longer normalizes the caller's array
 in place

---
 hrosailing/polardiagram/_polardiagrampointcloud.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hrosailing/polardiagram/_polardiagrampointcloud.py b/hrosailing/polardiagram/_polardiagrampointcloud.py
index be863d1..5bfc578 100644
--- a/hrosailing/polardiagram/_polardiagrampointcloud.py
+++ b/hrosailing/polardiagram/_polardiagrampointcloud.py
@@ -321,6 +321,7 @@ class PolarDiagramPointcloud(PolarDiagram):
             new_pts = np.asarray_chkfinite(new_pts)
             if np.any((new_pts[:, 0] <= 0)):
                 raise ValueError("`new_pts` has non-positive wind speeds")
+            new_pts = new_pts.copy()
             new_pts[:, 1] %= 360
 
         self._points = np.row_stack((self._points, new_pts))
-- 
2.43.0


From aaa4d7546e6169f05e70a0b8f4918b3701470189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:37 +0000
Subject: [PATCH 04/75] fix: wind angle resolution is normalized on a copy

---
 hrosailing/polardiagram/_polardiagramtable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagramtable.py b/hrosailing/polardiagram/_polardiagramtable.py
index ba0b0a3..886daca 100644
--- a/hrosailing/polardiagram/_polardiagramtable.py
+++ b/hrosailing/polardiagram/_polardiagramtable.py
@@ -750,7 +750,7 @@ class _Resolution_helper:
                 raise ValueError("`res` contains negative entries")
 
         if resolution_type == _Resolution_type.WIND_ANGLE:
-            res %= 360
+            res = res % 360
 
         return res
 
-- 
2.43.0


From d9425fcc5e12e0a295cb2e870bd3b5fbe4b5f798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:37 +0000
Subject: [PATCH 05/75] fix: normalizing wind angles for a lookup leaves the
 caller's array alone

---
 hrosailing/polardiagram/_polardiagramtable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagramtable.py b/hrosailing/polardiagram/_polardiagramtable.py
index 886daca..407306d 100644
--- a/hrosailing/polardiagram/_polardiagramtable.py
+++ b/hrosailing/polardiagram/_polardiagramtable.py
@@ -778,7 +778,7 @@ class _Resolution_helper:
                 raise ValueError("`wind` is negative")
 
         if resolution_type == _Resolution_type.WIND_ANGLE:
-            wind %= 360
+            wind = wind % 360
 
         return set(wind)
 
-- 
2.43.0


From c2cfc690067e228496d1e234ecb8de93f60bd6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:37 +0000
Subject: [PATCH 06/75] fix: cruise no longer writes into the caller's
 influence_data

---
 hrosailing/cruising/basics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index eb5d2f6..a158da0 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -235,8 +235,9 @@ def cruise(
     _, slices, _ = pd.get_slices(ws, full_info=True)
     ws, wa, bsp = slices[0]
     if im:
-        for key, val in influence_data.items():
-            influence_data[key] = [val] * len(wa)
+        influence_data = {
+            key: [val] * len(wa) for key, val in influence_data.items()
+        }
         influence_data["TWS"] = [ws] * len(wa)
         influence_data["TWA"] = wa
         bsp = im.add_influence(pd, influence_data)
-- 
2.43.0


From f995ace18eefd9baed248fc39abcc6102f5eb19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:37 +0000
Subject: [PATCH 07/75] fix: CurveExtension converts to radians on a copy of
 the points

---
 hrosailing/pipeline/extensions.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hrosailing/pipeline/extensions.py b/hrosailing/pipeline/extensions.py
index 7ca6d7c..ca0bf19 100644
--- a/hrosailing/pipeline/extensions.py
+++ b/hrosailing/pipeline/extensions.py
@@ -233,10 +233,11 @@ class CurveExtension(PipelineExtension):
         --------
         `PipelineExtension.process`
         """
+        data = weighted_points.data
         if self._use_radians():
-            _convert_angles_to_radians(weighted_points)
+            data = _convert_angles_to_radians(data)
 
-        self.regressor.fit(weighted_points.data)
+        self.regressor.fit(data)
 
         return pol.PolarDiagramCurve(
             self.regressor.model_func,
@@ -248,8 +249,10 @@ class CurveExtension(PipelineExtension):
         return self.radians
 
 
-def _convert_angles_to_radians(weighted_points):
-    weighted_points.data[:, 1] = np.deg2rad(weighted_points.data[:, 1])
+def _convert_angles_to_radians(data):
+    converted = np.array(data, dtype=float)
+    converted[:, 1] = np.deg2rad(converted[:, 1])
+    return converted
 
 
 class PointcloudExtension(PipelineExtension):
-- 
2.43.0


From ccfc20f902ffcfe045b1024bb42bb9d203d4586d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:37 +0000
Subject: [PATCH 08/75] fix: weighers no longer remove entries of the caller's
 dimensions list

---
 hrosailing/processing/weigher.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 7487dd0..96b7b87 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -556,6 +556,8 @@ def _set_points_from_data(data, attributes, reduce=True):
 
     if attributes is None:
         attributes = list(data.keys()) or list(data.keys)
+    else:
+        attributes = list(attributes)
 
     if reduce:
         if "BSP" in attributes:
-- 
2.43.0


From 757ad4711ff79d492af4511c74d2f35ef0f22abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:37 +0000
Subject: [PATCH 09/75] fix: Data keeps its own copy of new columns

---
 hrosailing/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 9cb05b0..6b57adf 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -172,7 +172,7 @@ class Data:
         else:
             # self.fill(self._max_len - len(data), [key])
             # self._data[key].extend(data)
-            self._data[key] = data
+            self._data[key] = list(data)
             self._types[key] = data_type
             self._max_len = max(self._max_len, len(self._data[key]))
 
-- 
2.43.0


From 2fda7900a976826dc284203323b7446ce35c4d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 10/75] fix: Data.data and Data.get_slice hand out copies of
 the columns

---
 hrosailing/core/data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 6b57adf..9b8c9d4 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -76,7 +76,7 @@ class Data:
         """
         A 'read-only' version of the dictionary of columns.
         """
-        return self._data.copy()
+        return {key: list(value) for key, value in self._data.items()}
 
     def rows(self, keys=None, return_type=dict):
         """
@@ -504,7 +504,9 @@ class Data:
         """
 
         data = {
-            key: value for key, value in self._data.items() if key in slice_
+            key: list(value)
+            for key, value in self._data.items()
+            if key in slice_
         }
         types = {
             key: value for key, value in self._types.items() if key in slice_
-- 
2.43.0


From c15099c404707592136f8d6c38e074957077c7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 11/75] fix: GriddedWeatherModel neither keeps nor exposes the
 caller's lists

---
 hrosailing/models/weather_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index 01b4f3a..67b1f75 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -84,10 +84,10 @@ class GriddedWeatherModel(WeatherModel):
     """
 
     def __init__(self, data, times, lats, lons, attrs):
-        self._times = times
+        self._times = list(times)
         self._lats = np.array(lats)
         self._lons = np.array(lons)
-        self._attrs = attrs
+        self._attrs = list(attrs)
         self._data = np.array(data)
 
     @property
@@ -97,7 +97,7 @@ class GriddedWeatherModel(WeatherModel):
         a `numpy.ndarray` containing the latitudes and a `numpy.ndarray`
         containing the longitudes.
         """
-        return self._times, self._lats.copy(), self._lons.copy()
+        return self._times.copy(), self._lats.copy(), self._lons.copy()
 
     @property
     def data(self):
@@ -113,7 +113,7 @@ class GriddedWeatherModel(WeatherModel):
         The attributes of the weather model. Each attribute corresponds to
         a column of `self.data`.
         """
-        return self._attrs
+        return self._attrs.copy()
 
     def get_weather(self, point):
         """Given a space-time point, uses the available weather model
-- 
2.43.0


From 36b5374f6b7bc0d327e3e2bb9639b56ed5545043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 12/75] fix: sails and diagrams of a multi sail diagram are
 returned as copies

---
 hrosailing/polardiagram/_polardiagrammultisails.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagrammultisails.py b/hrosailing/polardiagram/_polardiagrammultisails.py
index b48504c..b8d68bc 100644
--- a/hrosailing/polardiagram/_polardiagrammultisails.py
+++ b/hrosailing/polardiagram/_polardiagrammultisails.py
@@ -63,11 +63,11 @@ class PolarDiagramMultiSails(PolarDiagram):
 
     @property
     def sails(self):
-        return self._sails
+        return list(self._sails)
 
     @property
     def diagrams(self):
-        return self._diagrams
+        return list(self._diagrams)
 
     def __getitem__(self, item) -> PolarDiagramTable:
         """"""
-- 
2.43.0


From f569f22cf7f9b338aab9607a741f86da661e715f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:21 +0000
Subject: [PATCH 13/75] fix: regressors copy start values and return a copy of
 the optimal parameters

---
 hrosailing/processing/regressor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hrosailing/processing/regressor.py b/hrosailing/processing/regressor.py
index 8964949..8a86d2c 100644
--- a/hrosailing/processing/regressor.py
+++ b/hrosailing/processing/regressor.py
@@ -83,7 +83,7 @@ class ODRegressor(Regressor):
 
         self._func = model_func
         self._model = Model(odr_model_func)
-        self._init_vals = init_values
+        self._init_vals = np.array(init_values)
         # self._weights_X = None
         # self._weights_y = None
         self._maxit = max_it
@@ -105,7 +105,7 @@ class ODRegressor(Regressor):
         See also
         ----------
         `Regressor.optimal_params`"""
-        return self._popt
+        return None if self._popt is None else self._popt.copy()
 
     def fit(self, data):
         """Fits the model function to the given data, i.e. calculates
@@ -187,7 +187,7 @@ class LeastSquareRegressor(Regressor):
             init_vals = tuple(1 for _ in range(len(args)))
 
         self._fitting_func = fitting_func
-        self._init_vals = init_vals
+        self._init_vals = np.array(init_vals)
         self._popt = None
 
     @property
@@ -208,7 +208,7 @@ class LeastSquareRegressor(Regressor):
         ----------
         `Regressor.optimal_params`
         """
-        return self._popt
+        return None if self._popt is None else self._popt.copy()
 
     def fit(self, data):
         """Fits the model function to the given data, i.e. calculates
-- 
2.43.0


From 7f39bdb8a7542b42aeb3403c7ed1c28f4caffae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:44 +0000
Subject: [PATCH 14/75] fix: courses are computed from and returned in degrees

---
 hrosailing/cruising/basics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index a158da0..7d222af 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -243,7 +243,8 @@ def cruise(
         bsp = im.add_influence(pd, influence_data)
     bsp = np.array(bsp).ravel()
 
-    rhc = _right_handing_course(start, end)
+    rhc = np.deg2rad(_right_handing_course(start, end))
+    wdir = np.deg2rad(wdir)
 
     heading = np.arccos(
         np.cos(rhc) * np.cos(wdir) + np.sin(rhc) * np.sin(wdir)
@@ -527,6 +528,7 @@ def _right_handing_course(a, b):
     """Calculates course between two points on the surface of the earth
     relative to true north.
     """
+    a, b = np.deg2rad(a), np.deg2rad(b)
     numerator = np.cos(a[1]) * np.sin(b[1]) - np.cos(a[0] - b[0]) * np.cos(
         b[1]
     ) * np.sin(a[1])
@@ -534,7 +536,7 @@ def _right_handing_course(a, b):
         a[1]
     ) * np.cos(b[1])
 
-    return np.arccos(numerator / np.sqrt(1 - denominator**2))
+    return np.rad2deg(np.arccos(numerator / np.sqrt(1 - denominator**2)))
 
 
 def _wind_relative_to_north(wind, wind_fmt):
-- 
2.43.0


From a4f99a57c43a151b6984734327b5805d919485e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:44 +0000
Subject: [PATCH 15/75] fix: great circle distance converts its coordinates to
 radians

---
 hrosailing/cruising/basics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index 7d222af..4bc80ac 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -608,6 +608,7 @@ def _great_earth_ellipsoid_distance(a, b):
     """Calculates the distance on the surface for two points on the
     earth surface.
     """
+    a, b = np.deg2rad(a), np.deg2rad(b)
     f = (a[1] + b[1]) / 2
     g = (a[1] - b[1]) / 2
     lat = (a[0] - b[0]) / 2
@@ -615,7 +616,7 @@ def _great_earth_ellipsoid_distance(a, b):
     s = (np.sin(g) * np.cos(lat)) ** 2 + (np.cos(f) * np.sin(lat)) ** 2
     c = (np.cos(g) * np.cos(lat)) ** 2 + (np.sin(f) * np.sin(lat)) ** 2
 
-    omega = np.deg2rad(np.arctan(np.sqrt(s / c)))
+    omega = np.arctan(np.sqrt(s / c))
     d = EQUATOR_CIRCUMFERENCE * omega / np.pi
 
     t = np.sqrt(s * c) / omega
-- 
2.43.0


From ff371759589fafdc3b5212845e3789e8c04e59be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:44 +0000
Subject: [PATCH 16/75] fix: curves in radians are sliced, sampled and mirrored
 in radians

---
 hrosailing/polardiagram/_polardiagramcurve.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagramcurve.py b/hrosailing/polardiagram/_polardiagramcurve.py
index 351ac05..841ffb8 100644
--- a/hrosailing/polardiagram/_polardiagramcurve.py
+++ b/hrosailing/polardiagram/_polardiagramcurve.py
@@ -73,7 +73,9 @@ class PolarDiagramCurve(PolarDiagram):
         wa = np.linspace(5, 355, 144)
         ws, wa = np.meshgrid(ws, wa)
         ws, wa = ws.ravel(), wa.ravel()
-        bsp = np.array([self(ws_, wa_) for ws_, wa_ in zip(ws, wa)])
+        bsp = np.array(
+            [self(ws_, self._unit(wa_)) for ws_, wa_ in zip(ws, wa)]
+        )
         return np.column_stack([ws, wa, bsp])
 
     def get_slices(
@@ -109,10 +111,16 @@ class PolarDiagramCurve(PolarDiagram):
         """
         wa_ls = np.linspace(0, 360, wa_resolution)
         return [
-            np.row_stack([[ws_] * len(wa_ls), wa_ls, self(ws_, wa_ls)])
+            np.row_stack(
+                [[ws_] * len(wa_ls), wa_ls, self(ws_, self._unit(wa_ls))]
+            )
             for ws_ in ws
         ]
 
+    def _unit(self, wa):
+        """converts degrees to the unit of the curve"""
+        return np.deg2rad(wa) if self.radians else wa
+
     @staticmethod
     def _check_enough_params(func, params):
         try:
@@ -206,9 +214,11 @@ class PolarDiagramCurve(PolarDiagram):
         by mirroring it at the 0° - 180° axis and returning a new instance.
         """
 
+        full_circle = 2 * np.pi if self.radians else 360
+
         def sym_func(ws, wa, *params):
             y = self._f(ws, wa, *params)
-            y_symm = self._f(ws, (360 - wa), *params)
+            y_symm = self._f(ws, (full_circle - wa), *params)
             return 0.5 * (y + y_symm)
 
         return PolarDiagramCurve(
-- 
2.43.0


From f723b54cba69daaef190931db104185723b468e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:30 +0000
Subject: [PATCH 17/75] fix: CylindricMeanWeigher determines its default norm
 per call

---
 hrosailing/processing/weigher.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 96b7b87..4b6b0b3 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -316,9 +316,10 @@ class CylindricMeanWeigher(Weigher):
         return np.abs(mean - bsp) / std
 
     def _determine_points_in_cylinder(self, point, points, bsps, dimensions):
-        if self._norm is None:
-            self._norm = hrosailing_standard_scaled_euclidean_norm(dimensions)
-        in_cylinder = self._norm(points - point) <= self._radius
+        norm = self._norm
+        if norm is None:
+            norm = hrosailing_standard_scaled_euclidean_norm(dimensions)
+        in_cylinder = norm(points - point) <= self._radius
         return bsps[in_cylinder]
 
 
-- 
2.43.0


From 9dda81771807fd341523567759963e8ef704e2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:30 +0000
Subject: [PATCH 18/75] fix: CylindricMemberWeigher keeps its configured
 dimensions

---
 hrosailing/processing/weigher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 4b6b0b3..5a1db47 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -428,7 +428,7 @@ class CylindricMemberWeigher(Weigher):
         if isinstance(points, Data) and points.n_rows == 0:
             return []
 
-        self._dimensions, points = _set_points_from_data(
+        _, points = _set_points_from_data(
             points, self._dimensions, reduce=False
         )
 
-- 
2.43.0


From 2362d62d2b0a7c2d8ffb43b57a0eeeb627cbdf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:30 +0000
Subject: [PATCH 19/75] fix: composed weighers return weights and report
 statistics on them

---
 hrosailing/processing/weigher.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 5a1db47..efa91db 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -169,9 +169,9 @@ class _UnaryMapWeigher(Weigher):
         self._map = map_
 
     def weigh(self, points) -> (np.ndarray, dict):
-        weights, _ = self._sub_weigher.weigh(points)
+        weights = self._map(np.asarray(self._sub_weigher.weigh(points)))
         self.set_statistics(weights)
-        return self._map(weights)
+        return weights
 
 
 class _BinaryMapWeigher(Weigher):
@@ -182,8 +182,8 @@ class _BinaryMapWeigher(Weigher):
         self._map = map_
 
     def weigh(self, points) -> (np.ndarray, dict):
-        weights, _ = self._sub_weigher.weigh(points)
-        other_weights, _ = self._other_sub_weigher.weigh(points)
+        weights = np.asarray(self._sub_weigher.weigh(points))
+        other_weights = np.asarray(self._other_sub_weigher.weigh(points))
         new_weights = self._map(weights, other_weights)
         self.set_statistics(new_weights)
         return new_weights
-- 
2.43.0


From 15c10eb53d243bd5e7a2e83140c727159e0846cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:30 +0000
Subject: [PATCH 20/75] fix: weighers support subtraction of and division of
 numbers as documented

---
 hrosailing/processing/weigher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index efa91db..c808eb4 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -79,7 +79,7 @@ class Weigher(ComponentWithStatistics, ABC):
     def __sub__(self, other):
         if isinstance(other, Weigher):
             return _BinaryMapWeigher(self, other, lambda x, y: x - y)
-        if isinstance(other, np.ndarray):
+        if isinstance(other, (int, float, np.ndarray)):
             return _UnaryMapWeigher(self, lambda x: x - other)
         raise TypeError(
             f"Invalid type for subtraction with Weigher."
@@ -103,7 +103,7 @@ class Weigher(ComponentWithStatistics, ABC):
     def __rtruediv__(self, other):
         if isinstance(other, Weigher):
             return _BinaryMapWeigher(self, other, lambda x, y: y / x)
-        if isinstance(other, np.ndarray):
+        if isinstance(other, (int, float, np.ndarray)):
             return _UnaryMapWeigher(self, lambda x: other / x)
         raise TypeError(
             f"Invalid type for division with Weigher."
-- 
2.43.0


From a74334b814300e81710d068870eaab2201c4d406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:30 +0000
Subject: [PATCH 21/75] fix: statistics are refreshed when weighers and filters
 get no points

---
 hrosailing/processing/filter.py  | 1 +
 hrosailing/processing/weigher.py | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/hrosailing/processing/filter.py b/hrosailing/processing/filter.py
index 4e0a549..bef3eeb 100644
--- a/hrosailing/processing/filter.py
+++ b/hrosailing/processing/filter.py
@@ -92,6 +92,7 @@ class QuantileFilter(Filter):
         `Filter.filter`
         """
         if len(wts) == 0:
+            self.set_statistics([])
             return []
         filtered_points = self._calculate_quantile(wts)
 
diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index c808eb4..0fcc639 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -286,8 +286,10 @@ class CylindricMeanWeigher(Weigher):
         `Weigher.weigh`
         """
         if isinstance(points, np.ndarray) and len(points) == 0:
+            self.set_statistics([])
             return []
         if isinstance(points, Data) and points.n_rows == 0:
+            self.set_statistics([])
             return []
         dimensions, points, bsps = _set_points_from_data(
             points, self._dimensions
@@ -424,8 +426,10 @@ class CylindricMemberWeigher(Weigher):
         """
 
         if isinstance(points, np.ndarray) and len(points) == 0:
+            self.set_statistics([])
             return []
         if isinstance(points, Data) and points.n_rows == 0:
+            self.set_statistics([])
             return []
 
         _, points = _set_points_from_data(
-- 
2.43.0


From 88fd53fe1bf96af8b67bd91352732795d47aabed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 22/75] fix: pipeline reports the statistics of the pre
 expanding filter

---
 hrosailing/pipeline/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/pipeline/pipeline.py b/hrosailing/pipeline/pipeline.py
index 7d78236..cbeafbf 100644
--- a/hrosailing/pipeline/pipeline.py
+++ b/hrosailing/pipeline/pipeline.py
@@ -365,7 +365,7 @@ class PolarPipeline:
             pp_training_statistics.imputator,
             pp_training_statistics.smoother,
             pp_training_statistics.pre_expanding_weigher,
-            pp_training_statistics.pre_influence_filter,
+            pp_training_statistics.pre_expanding_filter,
             pp_training_statistics.expander,
             pp_training_statistics.pre_influence_weigher,
             pp_training_statistics.pre_influence_filter,
-- 
2.43.0


From 11fc3ed46166240aa39da6639e482db44630887c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:28 +0000
Subject: [PATCH 23/75] fix: tables interpolate at the normalized wind angle

The lookup reduces the wind angle to [0, 360), the interpolation did not, so
angles differing by a full turn gave different boat speeds.
---
 hrosailing/polardiagram/_polardiagramtable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagramtable.py b/hrosailing/polardiagram/_polardiagramtable.py
index 407306d..bb8a407 100644
--- a/hrosailing/polardiagram/_polardiagramtable.py
+++ b/hrosailing/polardiagram/_polardiagramtable.py
@@ -284,7 +284,7 @@ class PolarDiagramTable(PolarDiagram):
         try:
             return self[ws, wa]
         except (TypeError, ValueError):
-            point = np.array([ws, wa])
+            point = np.array([ws, wa % 360])
             ws, wa = np.meshgrid(self.wind_speeds, self.wind_angles)
             points = np.column_stack(
                 (ws.ravel(), wa.ravel(), self.boat_speeds.ravel())
-- 
2.43.0


From f7f73b47e14deeb04c2fa423df4a21a087bac7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:29 +0000
Subject: [PATCH 24/75] fix: Shepard's direction weights compare wind angles
 with wind angles

The second summand of the cosine subtracted the wind speeds of the other
points from the wind angle of the interpolated point.
---
 hrosailing/processing/interpolator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/processing/interpolator.py b/hrosailing/processing/interpolator.py
index ecdd25d..812bd8f 100644
--- a/hrosailing/processing/interpolator.py
+++ b/hrosailing/processing/interpolator.py
@@ -450,7 +450,7 @@ def _include_direction(pts, grid_pt, dist, wts):
         cosine = (grid_pt[0] - pt[0]) * (
             grid_pt[0] - np.delete(pts, i, axis=0)[:, 0]
         ) + (grid_pt[1] - pt[1]) * (
-            grid_pt[1] - np.delete(pts, i, axis=0)[:, 0]
+            grid_pt[1] - np.delete(pts, i, axis=0)[:, 1]
         )
         cosine /= dist[i] * np.delete(dist, i)
         t[i] = np.sum(np.delete(wts, i) * (1 - cosine))
-- 
2.43.0


From 4238e0b082e28ee750d489700198597876589b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:03 +0000
Subject: [PATCH 25/75] fix: weather model files keep fractions of seconds

---
 hrosailing/models/weather_model.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index 67b1f75..24e41a1 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -224,10 +224,18 @@ class GriddedWeatherModel(WeatherModel):
         """
         with open(path, "r", encoding="utf-8") as file:
             data, times, *rest = json.loads(file.read())
-            times = [datetime.strptime(t, "%d.%m.%Y:%X") for t in times]
+            times = [_parse_time(t) for t in times]
             return cls(data, times, *rest)
 
 
+def _parse_time(text):
+    try:
+        return datetime.fromisoformat(text)
+    except ValueError:
+        # written by an earlier version
+        return datetime.strptime(text, "%d.%m.%Y:%X")
+
+
 class _GriddedWeatherModelEncoder(json.JSONEncoder):
     def default(self, o):
         if isinstance(o, GriddedWeatherModel):
@@ -237,10 +245,9 @@ class _GriddedWeatherModelEncoder(json.JSONEncoder):
             return [data, times, lats, lons, attrs]
         if isinstance(o, np.ndarray):
             return o.tolist()
-        if installed_pandas and isinstance(o, pd.Timestamp):
-            return o.strftime("%d.%m.%Y:%X")
         if isinstance(o, datetime):
-            return o.strftime("%d.%m.%Y:%X")
+            # includes `pandas.Timestamp`
+            return o.isoformat()
         raise TypeError(
             f"Object of type {type(o)} is not JSON serializable :("
         )
-- 
2.43.0


From 1a017c1056cb3746c081fc61728dd894a8b80673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:39 +0000
Subject: [PATCH 26/75] fix: files of multiple sails stay next to the main file

---
 hrosailing/polardiagram/_polardiagrammultisails.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagrammultisails.py b/hrosailing/polardiagram/_polardiagrammultisails.py
index b8d68bc..19e7281 100644
--- a/hrosailing/polardiagram/_polardiagrammultisails.py
+++ b/hrosailing/polardiagram/_polardiagrammultisails.py
@@ -1,6 +1,7 @@
 # pylint: disable=missing-module-docstring
 
 import csv
+import os
 
 import numpy as np
 
@@ -189,8 +190,9 @@ class PolarDiagramMultiSails(PolarDiagram):
 
     @staticmethod
     def _get_sub_csv_path(path, i):
-        path = "_".join([path.split(".")[0], "sail", str(i)])
-        return f"{path}.csv"
+        directory, name = os.path.split(path)
+        name = "_".join([name.split(".", maxsplit=1)[0], "sail", str(i)])
+        return os.path.join(directory, f"{name}.csv")
 
     @classmethod
     def __from_csv__(cls, file):
-- 
2.43.0


From 4c51efcc4f8a4ec27261e7b37b032b83d547e13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:02 +0000
Subject: [PATCH 27/75] fix: Data.strip copes with rows consisting only of None
 and keeps n_rows and types in step

---
 hrosailing/core/data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 9b8c9d4..cd8e596 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -344,17 +344,18 @@ class Data:
                 for key, value in self._data.items()
                 if not all(v is None for v in value)
             }
+            self._types = {key: self._types[key] for key in self._data}
         elif mode == "rows":
             end_leading_nones = 0  # first index AFTER leading None rows
             start_tailing_nones = (
                 self._max_len - 1
             )  # first index BEFORE tailing None rows
-            while all(
+            while end_leading_nones < self._max_len and all(
                 value[end_leading_nones] is None
                 for key, value in self._data.items()
             ):
                 end_leading_nones += 1
-            while all(
+            while start_tailing_nones >= end_leading_nones and all(
                 value[start_tailing_nones] is None
                 for key, value in self._data.items()
             ):
@@ -363,6 +364,7 @@ class Data:
                 key: value[end_leading_nones : start_tailing_nones + 1]
                 for key, value in self._data.items()
             }
+            self._max_len = start_tailing_nones + 1 - end_leading_nones
         elif mode == "all":
             self.strip("cols")
             self.strip("rows")
-- 
2.43.0


From b649f0c5deab20abf1e46bf0b55ffb297be28d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:02 +0000
Subject: [PATCH 28/75] fix: Data.fill beyond the current length updates the
 number of rows

---
 hrosailing/core/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index cd8e596..b73a3ff 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -260,6 +260,7 @@ class Data:
             fill_len = max(0, (len_ - curr_len))
             self._data[key].extend([None] * fill_len)
             self._types[key] = self._get_type(self._data[key])
+            self._max_len = max(self._max_len, len(self._data[key]))
 
     def filter_types(self, type_list):
         """
-- 
2.43.0


From 699c1146b0909cf1fa960e4164b4a186021868d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:02 +0000
Subject: [PATCH 29/75] fix: Data.delete counts a repeated row index once

---
 hrosailing/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index b73a3ff..1efbfbe 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -325,7 +325,7 @@ class Data:
                     k: [v for i, v in enumerate(value) if i not in key]
                     for k, value in self._data.items()
                 }
-                self._max_len -= len(key)
+                self._max_len -= len(set(key))
 
     def strip(self, mode="all"):
         """
-- 
2.43.0


From 959250a62bf267a30e63ca5a2053a18ca08e51a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:02 +0000
Subject: [PATCH 30/75] fix: Data.rows yields tuples for return_type tuple

---
 hrosailing/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 1efbfbe..a3598a1 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -106,7 +106,7 @@ class Data:
             if return_type is dict:
                 yield {key: self._data[key][i] for key in keys}
             elif return_type is tuple:
-                yield (self._data[key][i] for key in keys)
+                yield tuple(self._data[key][i] for key in keys)
             elif return_type is list:
                 yield [self._data[key][i] for key in keys]
             else:
-- 
2.43.0


From b243980e5ee666a640b80dcd70833640895b6293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:02 +0000
Subject: [PATCH 31/75] fix: Data.update passes `compress` on when given a Data
 object

---
 hrosailing/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index a3598a1..3fa8b1f 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -191,7 +191,7 @@ class Data:
             `None`, the last entries will be replaced.
         """
         if isinstance(data_dict, Data):
-            self.update(data_dict.data)
+            self.update(data_dict.data, compress)
             return
         if not isinstance(data_dict, dict):
             raise TypeError("`data_dict` has to be of type `Data` or `dict`")
-- 
2.43.0


From 1180ed6f470a1531e0eb756f2432a3c7834a9376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:02 +0000
Subject: [PATCH 32/75] fix: WeightedPoints accepts a scalar weight for Data

---
 hrosailing/core/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 3fa8b1f..9dd7899 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -625,6 +625,8 @@ class WeightedPoints:
         if isinstance(weights, (float, int)):
             if isinstance(data, dict):
                 length = len(list(data.values())[0])
+            elif isinstance(data, Data):
+                length = data.n_rows
             else:
                 length = len(data)
             self.weights = weights * np.ones(length)
-- 
2.43.0


From f50cd0bc7b39646359fe31fd54bd4033407fe5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:53 +0000
Subject: [PATCH 33/75] fix: WeatherExpander puts the weather next to the rows
 it belongs to

---
 hrosailing/pipeline/expander.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrosailing/pipeline/expander.py b/hrosailing/pipeline/expander.py
index 74fe6f8..8075fe8 100644
--- a/hrosailing/pipeline/expander.py
+++ b/hrosailing/pipeline/expander.py
@@ -96,7 +96,8 @@ class WeatherExpander(Expander):
         weather_data.hrosailing_standard_format()
         weather_data = self._mark_duplicate_keys(weather_data, data)
 
-        data.update(weather_data)
+        for key in weather_data.keys():
+            data.extend(key, weather_data[key])
         data.hrosailing_standard_format()
         self.set_statistics(data)
         return data
-- 
2.43.0


From 85ba7092c5d75ac9ad8180c10bb04cda394ca47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:53 +0000
Subject: [PATCH 34/75] fix: WeatherExpander ignores exceptions even if all
 rows raise one

---
 hrosailing/pipeline/expander.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/pipeline/expander.py b/hrosailing/pipeline/expander.py
index 8075fe8..70edeca 100644
--- a/hrosailing/pipeline/expander.py
+++ b/hrosailing/pipeline/expander.py
@@ -123,7 +123,7 @@ class WeatherExpander(Expander):
             data.delete(none_idxs)
         else:
             for idx in none_idxs:
-                weather_list[idx] = {key: None for key in weather_keys}
+                weather_list[idx] = {key: None for key in weather_keys or ()}
 
         return Data.concatenate(weather_list)
 
-- 
2.43.0


From 1c151b97d69b69f31093df3102f1c318af6f7a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:53 +0000
Subject: [PATCH 35/75] fix: RemoveOnlyImputator reports the number of removed
 rows

---
 hrosailing/processing/imputator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hrosailing/processing/imputator.py b/hrosailing/processing/imputator.py
index 6e779a4..b91ec90 100644
--- a/hrosailing/processing/imputator.py
+++ b/hrosailing/processing/imputator.py
@@ -53,7 +53,6 @@ class RemoveOnlyImputator(Imputator):
         --------
         `Imputator.impute`
         """
-        n_rows = data.n_rows
         remove_rows = [
             idx
             for idx, row in enumerate(data.rows(return_type=list))
@@ -61,7 +60,7 @@ class RemoveOnlyImputator(Imputator):
         ]
         data.delete(remove_rows)
 
-        self.set_statistics(0, n_rows - len(remove_rows), 0, data)
+        self.set_statistics(0, len(remove_rows), 0, data)
 
         return data
 
-- 
2.43.0


From 0d8d09ef46db45cd43da14b42bf7fa508d9e4d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:02 +0000
Subject: [PATCH 36/75] fix: zero tables hold their winds as arrays

---
 hrosailing/polardiagram/_polardiagramtable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagramtable.py b/hrosailing/polardiagram/_polardiagramtable.py
index bb8a407..935c3ab 100644
--- a/hrosailing/polardiagram/_polardiagramtable.py
+++ b/hrosailing/polardiagram/_polardiagramtable.py
@@ -169,8 +169,8 @@ class PolarDiagramTable(PolarDiagram):
     def _create_zero_table(self, ws_resolution, wa_resolution):
         rows, cols = len(wa_resolution), len(ws_resolution)
         self._boat_speeds = np.zeros((rows, cols))
-        self._ws_resolution = sorted(ws_resolution)
-        self._wa_resolution = sorted(wa_resolution)
+        self._ws_resolution = np.array(sorted(ws_resolution), float)
+        self._wa_resolution = np.array(sorted(wa_resolution), float)
 
     def __str__(self):
         table = ["  TWA / TWS"]
-- 
2.43.0


From 97d5d12d5a37530f9e11fa7fc33a3b6946275065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:03 +0000
Subject: [PATCH 37/75] fix: change_entries keeps new boat speeds with the wind
 they are given for

---
 hrosailing/polardiagram/_polardiagramtable.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagramtable.py b/hrosailing/polardiagram/_polardiagramtable.py
index 935c3ab..de6af9c 100644
--- a/hrosailing/polardiagram/_polardiagramtable.py
+++ b/hrosailing/polardiagram/_polardiagramtable.py
@@ -324,10 +324,11 @@ class PolarDiagramTable(PolarDiagram):
         if not wind:
             raise ValueError("empty slice-list was passed")
 
-        if not wind.issubset(set(res)):
+        if not set(wind).issubset(set(res)):
             raise ValueError(f"{wind} is not contained in {res}")
 
-        return [i for i, w in enumerate(res) if w in wind]
+        # keep the order in which the winds were given
+        return [i for w_ in wind for i, w in enumerate(res) if w == w_]
 
     @property
     def wind_angles(self):
@@ -653,12 +654,10 @@ class PolarDiagramTable(PolarDiagram):
         if not correct_shape:
             raise ValueError("`new_bsps` has wrong shape")
 
-        mask = np.zeros(self.boat_speeds.shape, dtype=bool)
-        for i in wa:
-            for j in ws:
-                mask[i, j] = True
-
-        self._boat_speeds[mask] = new_bsps.flat
+        new_bsps = new_bsps.reshape(len(wa), len(ws))
+        for i, row in zip(wa, new_bsps):
+            for j, bsp in zip(ws, row):
+                self._boat_speeds[i, j] = bsp
 
 
 class _Resolution_type(enum.Enum):
@@ -780,7 +779,7 @@ class _Resolution_helper:
         if resolution_type == _Resolution_type.WIND_ANGLE:
             wind = wind % 360
 
-        return set(wind)
+        return list(dict.fromkeys(wind))
 
 
 def _incompatible_shapes(bsps, ws_resolution, wa_resolution):
-- 
2.43.0


From 643bda88170f0d56a2824eed1ca1d6a9f176b17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:46 +0000
Subject: [PATCH 38/75] fix: combining date and time keeps a given datetime
 column

---
 hrosailing/core/data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 9dd7899..e0b1948 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -405,7 +405,11 @@ class Data:
                 new_key = f"{standard_key}(Control value {i})"
             self.rename(key, new_key)
 
-        if "time" in self and "date" in self:
+        if (
+            "time" in self
+            and "date" in self
+            and "datetime" not in self
+        ):
 
             def combine(date, time):
                 if date is None or time is None:
-- 
2.43.0


From 0728fe61238285f7eabd905f16dcf271929a9856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:32 +0000
Subject: [PATCH 39/75] fix: weather at grid points is taken from the point
 itself

---
 hrosailing/models/weather_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index 24e41a1..cab5b47 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -299,7 +299,7 @@ def _recursive_affine_interpolation(point, grid, get_data):
 
         if comp in cuboid_vals[dim]:
             j = cuboid_vals[dim].index(point_[dim])
-            return recursion(point_, completed + [j])
+            return recursion(point_, completed + [cuboid[dim][j]])
 
         idx0 = cuboid[dim][0]
         idx1 = cuboid[dim][1]
-- 
2.43.0


From ef6693820a410466aeefce27d045e419ad5c7a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:10 +0000
Subject: [PATCH 40/75] fix: MultiWeatherModel ignores NotImplementedError as
 documented

---
 hrosailing/models/weather_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index cab5b47..b7069a8 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -502,6 +502,7 @@ class MultiWeatherModel(WeatherModel):
                 ValueError,
                 TypeError,
                 KeyError,
+                NotImplementedError,
             ) as e:
                 if self._exception_sensitive:
                     raise e
-- 
2.43.0


From 02733c70c74e8729cb28f9b15dcafeb43f66f5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:04 +0000
Subject: [PATCH 41/75] fix: from_meteostat copes with several keys and places
 without data

---
 hrosailing/models/weather_model.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index b7069a8..0f21ed3 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -174,26 +174,33 @@ class GriddedWeatherModel(WeatherModel):
             )
 
         # fetch data
+        times = []
         lat_datas = []
         for lat in lats:
             lon_data = []
             for lon in lons:
                 loc = meteostat.Point(lat, lon, 0)
                 data = meteostat.Hourly(loc, start_time, end_time).fetch()
-                times = data.index.values
+                if len(data.index.values) > len(times):
+                    times = data.index.values
                 np_data = data[keys].to_numpy()
                 if np_data.shape[0] == 0:
                     np_data = []
                 lon_data.append(np_data)
-            max_len = max(len(d) for d in lon_data)
-            lon_data = [
-                np.zeros((max_len, len(keys))) if d == [] else d
-                for d in lon_data
-            ]
-            lat_datas.append(np.stack(lon_data, axis=0))
+            lat_datas.append(lon_data)
+
+        lat_datas = [
+            np.stack(
+                [
+                    np.zeros((len(times), len(keys))) if len(d) == 0 else d
+                    for d in lon_data
+                ],
+                axis=0,
+            )
+            for lon_data in lat_datas
+        ]
 
         times = [pd.to_datetime(t) for t in times]
-        data = np.stack(lat_datas, axis=0)
         data = np.transpose(np.stack(lat_datas, axis=0), axes=(2, 0, 1, 3))
 
         return cls(data, times, lats, lons, keys)
-- 
2.43.0


From 3ad26fd820972914cb86947a7f0f042ed9f862ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 42/75] fix: times after a gap too large to bridge are
 interpolated

---
 hrosailing/processing/imputator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/processing/imputator.py b/hrosailing/processing/imputator.py
index b91ec90..f67b0bf 100644
--- a/hrosailing/processing/imputator.py
+++ b/hrosailing/processing/imputator.py
@@ -194,7 +194,7 @@ class FillLocalImputator(Imputator):
             if last_dt is None:
                 pass
             elif abs(dt - last_dt) > self._max_time_diff:
-                continue
+                pass
             else:
                 # linear approximation of time in between
                 for j in range(last_i + 1, i):
-- 
2.43.0


From a4f859cf7d4aac8b315ef3667a318e0ccd637fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 43/75] fix: wind angle correction applies to single points

---
 hrosailing/models/influencemodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/models/influencemodel.py b/hrosailing/models/influencemodel.py
index d0d07ff..1add038 100644
--- a/hrosailing/models/influencemodel.py
+++ b/hrosailing/models/influencemodel.py
@@ -192,7 +192,7 @@ class WindAngleCorrectingInfluenceModel(InfluenceModel):
             speed = [pd(ws, (wa + self._wa_shift) % 360) for ws, wa in wind]
         else:
             ws, wa = influence_data["TWS"], influence_data["TWA"]
-            speed = pd(ws, wa)
+            speed = pd(ws, (wa + self._wa_shift) % 360)
         return speed
 
     def fit(self, training_data):
-- 
2.43.0


From 5263fa49d19d0acb235174641121fd36ca3b6071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 44/75] fix: fractions of seconds in NMEA times

---
 hrosailing/processing/datahandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index 3693ee6..ebe1436 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -367,7 +367,7 @@ class NMEAFileHandler(DataHandler):
         hours = int(timestr[0:2])
         minutes = int(timestr[2:4])
         seconds = int(timestr[4:6])
-        microseconds = int(timestr.split(".")[1])
+        microseconds = int(timestr.partition(".")[2][:6].ljust(6, "0"))
         if seconds >= 60:
             minutes += seconds // 60
             seconds %= 60
-- 
2.43.0


From 43f8efdbe3753e791ba36fe267f617174280dc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:54 +0000
Subject: [PATCH 45/75] fix: wind of NMEA sentences without its other half
 keeps its reference

---
 hrosailing/processing/datahandler.py | 29 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index ebe1436..dbdb4c8 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -322,23 +322,22 @@ class NMEAFileHandler(DataHandler):
         return comp_data
 
     def _postprocess(self, parsed_sentence):
-        if (
-            "Wind angle" in parsed_sentence
-            and "Reference" in parsed_sentence
-            and "Wind speed" in parsed_sentence
-        ):
-            wind_angle = parsed_sentence["Wind angle"]
-            wind_speed = parsed_sentence["Wind speed"]
+        wind_keys = [
+            key
+            for key in ("Wind angle", "Wind speed")
+            if key in parsed_sentence
+        ]
+        if wind_keys and "Reference" in parsed_sentence:
             reference = parsed_sentence["Reference"]
-            if reference == "R":
-                parsed_sentence["AWA"] = wind_angle
-                parsed_sentence["AWS"] = wind_speed
-            elif reference == "T":
-                parsed_sentence["TWA"] = wind_angle
-                parsed_sentence["TWS"] = wind_speed
+            for key in wind_keys:
+                value = parsed_sentence[key]
+                suffix = "WA" if key == "Wind angle" else "WS"
+                if reference == "R":
+                    parsed_sentence["A" + suffix] = value
+                elif reference == "T":
+                    parsed_sentence["T" + suffix] = value
+                del parsed_sentence[key]
             del parsed_sentence["Reference"]
-            del parsed_sentence["Wind angle"]
-            del parsed_sentence["Wind speed"]
         if "Latitude" in parsed_sentence:
             parsed_sentence["lat"] = self._from_nmea_format(
                 parsed_sentence["Latitude"]
-- 
2.43.0


From 38b54dbd57c23bc513fe11a74918b081d231fe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:54 +0000
Subject: [PATCH 46/75] fix: southern and western NMEA positions are negative

---
 hrosailing/processing/datahandler.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hrosailing/processing/datahandler.py b/hrosailing/processing/datahandler.py
index dbdb4c8..37b5013 100644
--- a/hrosailing/processing/datahandler.py
+++ b/hrosailing/processing/datahandler.py
@@ -309,6 +309,10 @@ class NMEAFileHandler(DataHandler):
                 }
 
                 processed_dict = self._postprocess(parsed_dict)
+                if getattr(parsed_sentence, "lat_dir", "N") == "S":
+                    self._change_sign(processed_dict, "lat")
+                if getattr(parsed_sentence, "lon_dir", "E") == "W":
+                    self._change_sign(processed_dict, "lon")
 
                 comp_data.update(processed_dict, compress=True)
 
@@ -356,6 +360,10 @@ class NMEAFileHandler(DataHandler):
                 )
         return parsed_sentence
 
+    def _change_sign(self, parsed_sentence, key):
+        if key in parsed_sentence:
+            parsed_sentence[key] = -parsed_sentence[key]
+
     def _from_nmea_format(self, value):
         value = float(value)
         degrees = int(value / 100)
-- 
2.43.0


From 1592f30f9d9748b74d92d585836eef61a2cb1e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:53 +0000
Subject: [PATCH 47/75] fix: default interpolator of point clouds scaled
 results by 50

---
 hrosailing/polardiagram/_polardiagrampointcloud.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagrampointcloud.py b/hrosailing/polardiagram/_polardiagrampointcloud.py
index 5bfc578..091c818 100644
--- a/hrosailing/polardiagram/_polardiagrampointcloud.py
+++ b/hrosailing/polardiagram/_polardiagrampointcloud.py
@@ -162,7 +162,7 @@ class PolarDiagramPointcloud(PolarDiagram):
         self,
         ws,
         wa,
-        interpolator=ArithmeticMeanInterpolator(50),
+        interpolator=ArithmeticMeanInterpolator(params=(50,)),
         neighbourhood=Ball(radius=1),
     ):
         """Returns the value of the polar diagram at a given `ws-wa` point.
@@ -182,7 +182,7 @@ class PolarDiagramPointcloud(PolarDiagram):
             Interpolator subclass that determines the interpolation
             method used to determine the value at the `ws-wa` point.
 
-            Defaults to `ArithmeticMeanInterpolator(50)`.
+            Defaults to `ArithmeticMeanInterpolator(params=(50,))`.
 
         neighbourhood : Neighbourhood, optional
             Neighbourhood subclass used to determine the points in
-- 
2.43.0


From abc0c7129415893a9848b719fe3e036165cfc839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:07 +0000
Subject: [PATCH 48/75] fix: ImprovedIDWInterpolator returned nan for equally
 distant points

---
 hrosailing/processing/interpolator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hrosailing/processing/interpolator.py b/hrosailing/processing/interpolator.py
index 812bd8f..a3e3383 100644
--- a/hrosailing/processing/interpolator.py
+++ b/hrosailing/processing/interpolator.py
@@ -313,6 +313,9 @@ class ImprovedIDWInterpolator(Interpolator):
             return pts[mask][0, 2]
 
         wts = _set_weights(pts, dist)
+        if not np.any(wts):
+            # all points are equally distant
+            wts = np.ones(len(pts))
         wts = np.square(wts)
         wts /= np.sum(wts)
 
-- 
2.43.0


From 36fcd712b733d857873d8ccb2b43179819ad7e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:09 +0000
Subject: [PATCH 49/75] fix: FluctuationWeigher paired upper bounds with the
 wrong attributes

---
 hrosailing/processing/weigher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index 0fcc639..eb33796 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -522,7 +522,7 @@ class FluctuationWeigher(Weigher):
             points, self._attributes, False
         )
         upper_bounds = self._upper_bounds[
-            [i for i, key in enumerate(self._attributes) if key in dimensions]
+            [list(self._attributes).index(key) for key in dimensions]
         ]
 
         weights = [1] * len(points)
-- 
2.43.0


From ea51a00aac79eac7970079a720893f89dafeeaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:09 +0000
Subject: [PATCH 50/75] fix: CylindricMemberWeigher failed for given dimensions
 and wide data

---
 hrosailing/processing/weigher.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index eb33796..eccd51a 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -394,6 +394,7 @@ class CylindricMemberWeigher(Weigher):
 
         self._radius = radius
         self._length = length
+        self._has_default_norm = norm is None
 
         if norm is None:
             self._norm = hrosailing_standard_scaled_euclidean_norm(dimensions)
@@ -432,24 +433,34 @@ class CylindricMemberWeigher(Weigher):
             self.set_statistics([])
             return []
 
-        _, points = _set_points_from_data(
+        dimensions, points = _set_points_from_data(
             points, self._dimensions, reduce=False
         )
+        norm = self._norm
+        if self._has_default_norm and dimensions is not None:
+            norm = hrosailing_standard_scaled_euclidean_norm(
+                dimensions[: points.shape[1] - 1]
+            )
 
-        weights = [self._calculate_weight(point, points) for point in points]
+        weights = [
+            self._calculate_weight(point, points, norm) for point in points
+        ]
         weights = np.array(weights)
         weights = _normalize(weights, np.max)
 
         self.set_statistics(weights)
         return weights
 
-    def _calculate_weight(self, point, points):
-        n_points_in_cylinder = self._count_points_in_cylinder(point, points)
+    def _calculate_weight(self, point, points, norm=None):
+        n_points_in_cylinder = self._count_points_in_cylinder(
+            point, points, norm
+        )
         return n_points_in_cylinder - 1
 
-    def _count_points_in_cylinder(self, point, points):
+    def _count_points_in_cylinder(self, point, points, norm=None):
+        norm = norm or self._norm
         height = np.abs(points[:, -1] - point[-1]) <= self._length
-        radius = self._norm(points[:, :-1] - point[:-1]) <= self._radius
+        radius = norm(points[:, :-1] - point[:-1]) <= self._radius
 
         cylinder = height & radius
         points_in_cylinder = cylinder[cylinder]
-- 
2.43.0


From 17b1da5353247ed252066b44c0cd6a064c9ffbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:09 +0000
Subject: [PATCH 51/75] fix: == of fuzzy variables used the given sharpness for
 one side only

---
 hrosailing/processing/weigher.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hrosailing/processing/weigher.py b/hrosailing/processing/weigher.py
index eccd51a..a361308 100644
--- a/hrosailing/processing/weigher.py
+++ b/hrosailing/processing/weigher.py
@@ -853,7 +853,10 @@ class FuzzyVariable:
         return self < other
 
     def __eq__(self, other):
-        new = FuzzyBool.fuzzy_and(self < other, self > other)
+        sharpness = self.sharpness
+        new = FuzzyBool.fuzzy_and(
+            self(sharpness) < other, self(sharpness) > other
+        )
         new.repr = f"{self} == {other}"
         return new
 
-- 
2.43.0


From be6452669e073055399701157e32d910ff476232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:51 +0000
Subject: [PATCH 52/75] fix: interpolated slices of point clouds could not be
 computed

---
 hrosailing/polardiagram/_polardiagrampointcloud.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hrosailing/polardiagram/_polardiagrampointcloud.py b/hrosailing/polardiagram/_polardiagrampointcloud.py
index 091c818..06a3012 100644
--- a/hrosailing/polardiagram/_polardiagrampointcloud.py
+++ b/hrosailing/polardiagram/_polardiagrampointcloud.py
@@ -119,7 +119,14 @@ class PolarDiagramPointcloud(PolarDiagram):
             default_wind_angles = np.linspace(0, 360, wa_resolution)
             return [
                 np.row_stack(
-                    self(ws_, wa, interpolator) for wa in default_wind_angles
+                    [
+                        [ws_] * len(default_wind_angles),
+                        default_wind_angles,
+                        [
+                            self(ws_, wa, interpolator)
+                            for wa in default_wind_angles
+                        ],
+                    ]
                 )
                 for ws_ in ws
             ]
-- 
2.43.0


From 5f3a5e3356d3b557fd072023c8db9205987d5c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:51 +0000
Subject: [PATCH 53/75] fix: point clouds can be evaluated at wind speed 0

---
 hrosailing/polardiagram/_polardiagrampointcloud.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/polardiagram/_polardiagrampointcloud.py b/hrosailing/polardiagram/_polardiagrampointcloud.py
index 06a3012..30b019f 100644
--- a/hrosailing/polardiagram/_polardiagrampointcloud.py
+++ b/hrosailing/polardiagram/_polardiagrampointcloud.py
@@ -202,8 +202,8 @@ class PolarDiagramPointcloud(PolarDiagram):
         bsp : scalar
             Boat speed value as determined above.
         """
-        if np.any((ws <= 0)):
-            raise ValueError("`ws` is non-positive")
+        if np.any((ws < 0)):
+            raise ValueError("`ws` is negative")
 
         wa = wa % 360
 
-- 
2.43.0


From 2cc1ef52183a6d916f2294f2be2370583f06a8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:32 +0000
Subject: [PATCH 54/75] fix: ws_s_wa_gauss models its documented nine parameter
 function

---
 hrosailing/core/modelfunctions/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hrosailing/core/modelfunctions/__init__.py b/hrosailing/core/modelfunctions/__init__.py
index 4331cab..eda5eca 100644
--- a/hrosailing/core/modelfunctions/__init__.py
+++ b/hrosailing/core/modelfunctions/__init__.py
@@ -141,9 +141,9 @@ def ws_s_wa_gauss(ws, wa, *params):
     wa = np.asarray(wa)
 
     return (
-        s_shaped(ws, *params[0:4])
-        + gaussian_model(wa, *params[4:8])
-        + gaussian_model(360 - wa, *params[8:12])
+        s_shaped(ws, *params[0:3], downturn=False)
+        + gaussian_model(wa, *params[3:6])
+        + gaussian_model(360 - wa, *params[6:9])
     )
 
 
-- 
2.43.0


From eb8b00568b62a377f9faf79117e5d34287c85751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:52 +0000
Subject: [PATCH 55/75] fix: a rejected Data.update left a part of the new data
 in the container

---
 hrosailing/core/data.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index e0b1948..04ecfa7 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -195,6 +195,10 @@ class Data:
             return
         if not isinstance(data_dict, dict):
             raise TypeError("`data_dict` has to be of type `Data` or `dict`")
+        # data of inconsistent type is rejected before anything is stored
+        for key, val in data_dict.items():
+            new_vals = val if isinstance(val, list) else [val]
+            self._get_type(self._data.get(key, []) + new_vals)
         self.fill(
             self._max_len, itertools.chain(data_dict.keys(), self.keys())
         )
-- 
2.43.0


From f35f8eb4d661328df6a69d9c5564b486f5796a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:52 +0000
Subject: [PATCH 56/75] fix: Data.delete removed columns before it raised a
 KeyError for an unknown one

---
 hrosailing/core/data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 04ecfa7..756ba7b 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -322,6 +322,9 @@ class Data:
             if len(key) == 0:
                 return
             if isinstance(key[0], str):
+                for k in key:
+                    if k not in self._data:
+                        raise KeyError(k)
                 for k in key:
                     self.delete(k)
             if isinstance(key[0], int):
-- 
2.43.0


From d3a36993d3f2fca6d0ae74b94358efc4997534d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:45 +0000
Subject: [PATCH 57/75] fix: netCDF times at fractions of hours or seconds were
 cut to whole ones

---
 hrosailing/models/weather_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/models/weather_model.py b/hrosailing/models/weather_model.py
index 0f21ed3..20dfc9c 100644
--- a/hrosailing/models/weather_model.py
+++ b/hrosailing/models/weather_model.py
@@ -413,7 +413,7 @@ class NetCDFWeatherModel(GriddedWeatherModel):
             )
 
         times = [
-            starting_time + int(plain_time) * timestep
+            starting_time + float(plain_time) * timestep
             for plain_time in plain_times
         ]
 
-- 
2.43.0


From d507b9a49ce579362ba89057904f9ea6ad9eb78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:03 +0000
Subject: [PATCH 58/75] fix: outputs of a pipeline without tests shared the
 dictionaries of their test statistics

---
 hrosailing/pipeline/pipeline.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/hrosailing/pipeline/pipeline.py b/hrosailing/pipeline/pipeline.py
index cbeafbf..17eb19a 100644
--- a/hrosailing/pipeline/pipeline.py
+++ b/hrosailing/pipeline/pipeline.py
@@ -44,11 +44,6 @@ class Statistics(NamedTuple):
     quality_assurance: dict
 
 
-_EMPTY_STATISTIC = Statistics(
-    {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}
-)
-
-
 class PipelineOutput(NamedTuple):
     """
     Organizes the output of a `PolarPipeline` call.
@@ -353,7 +348,7 @@ class PolarPipeline:
                 polar_diagram, preproc_test_data.data
             )
         else:
-            test_statistics = _EMPTY_STATISTIC
+            test_statistics = Statistics(*({} for _ in Statistics._fields))
             quality_assurance_statistics = {}
 
         quality_assurance_statistics["execution time"] = (
-- 
2.43.0


From bac64baaa98b5ea11f3c211ac3ec194a018936c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:54 +0000
Subject: [PATCH 59/75] fix: rounding made distances of equal places and paths
 to the poles nan

---
 hrosailing/models/globe_model.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hrosailing/models/globe_model.py b/hrosailing/models/globe_model.py
index 939f589..8436314 100644
--- a/hrosailing/models/globe_model.py
+++ b/hrosailing/models/globe_model.py
@@ -316,6 +316,8 @@ def _on_ball(pts):
 
 def _on_lat_lon(pts):
     x, y, z = pts.transpose()
+    # account for floating point errors
+    z = np.clip(z, -1, 1)
     latlon = np.column_stack([np.arcsin(z), np.arctan2(y, x)])
     return np.rad2deg(latlon)
 
@@ -324,6 +326,6 @@ def _angle(pt1, pt2):
     """Computes angles in radians between points."""
     pt1 = pt1.ravel()
     pt2 = pt2.ravel()
-    return np.arccos(
-        np.dot(pt1, pt2) / np.linalg.norm(pt1) / np.linalg.norm(pt2)
-    )
+    cosine = np.dot(pt1, pt2) / np.linalg.norm(pt1) / np.linalg.norm(pt2)
+    # account for floating point errors
+    return np.arccos(np.clip(cosine, -1, 1))
-- 
2.43.0


From f5d8586b37609bebfed299834f476df8c7bfc42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:54 +0000
Subject: [PATCH 60/75] fix: SphericalGlobe.shortest_path failed for equal
 places

---
 hrosailing/models/globe_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hrosailing/models/globe_model.py b/hrosailing/models/globe_model.py
index 8436314..7a3ab98 100644
--- a/hrosailing/models/globe_model.py
+++ b/hrosailing/models/globe_model.py
@@ -280,6 +280,8 @@ class SphericalGlobe(GlobeModel):
         """
         start, end = _ensure_2d(start, end)
         angle = _angle(start, end)
+        if angle == 0:
+            return np.repeat(start, res, axis=0)
 
         angles = np.linspace(0, angle, res)
 
-- 
2.43.0


From cbbeacac73ea6172dd9811cdb1f30064b8281664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:36 +0000
Subject: [PATCH 61/75] fix: lines of different sails were mixed up when a
 slice was not sorted

---
 hrosailing/plotting/projections.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index 70b3afe..490945f 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -456,7 +456,10 @@ def _plot(
         return
 
     for slice_, info_ in safe_zip(slices, info):
-        slice_ = slice_[:, np.argsort(slice_[1])]
+        order = np.argsort(slice_[1])
+        slice_ = slice_[:, order]
+        if info_ is not None:
+            info_ = [info_[i] for i in order]
         if use_convex_hull:
             ws, wa, bsp, info_ = _get_convex_hull(slice_, info_)
         else:
-- 
2.43.0


From f5d485e57d04312e22fe7dc069e8e2a3efc6f73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:36 +0000
Subject: [PATCH 62/75] fix: convex hulls were closed at a wrong point at 0
 degrees

---
 hrosailing/plotting/projections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index 490945f..9b188da 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -545,7 +545,7 @@ def _get_convex_hull(slice_, info_):
     x1 = slice_[2, -1] * np.sin(np.deg2rad(slice_[1, -1]))
     y0 = slice_[2, 0] * np.cos(np.deg2rad(slice_[1, 0]))
     y1 = slice_[2, -1] * np.cos(np.deg2rad(slice_[1, -1]))
-    lamb = x0 / (x0 - x1)
+    lamb = 1 - x0 / (x0 - x1)
     approx_ws = lamb * slice_[0, 0] + (1 - lamb) * slice_[0, -1]
     approx_bsp = lamb * y0 + (1 - lamb) * y1
 
-- 
2.43.0


From 645f5beb738818e197130362745c19e89e285d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:36 +0000
Subject: [PATCH 63/75] fix: a legend could not be shown with a single colour

---
 hrosailing/plotting/projections.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index 9b188da..53401fb 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -800,6 +800,8 @@ def _set_legend_without_wind_speeds(ax, colors, legend_kw):
 
 
 def _set_legend_with_wind_speeds(ax, colors, ws, legend_kw):
+    if _only_one_color(colors):
+        colors = itertools.repeat(colors)
     slices = zip(ws, colors)
 
     ax.legend(
-- 
2.43.0


From 4db6cee61fee4a1912402874962a9741eaa24f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:36 +0000
Subject: [PATCH 64/75] fix: single colours given as tuples of floats were not
 recognised

---
 hrosailing/plotting/projections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/plotting/projections.py b/hrosailing/plotting/projections.py
index 53401fb..716694b 100644
--- a/hrosailing/plotting/projections.py
+++ b/hrosailing/plotting/projections.py
@@ -693,7 +693,7 @@ def _only_one_color(colors):
         return is_color_like(colors)
 
     if isinstance(colors, tuple) and len(colors) in {3, 4}:
-        if isinstance(colors[0], int):
+        if isinstance(colors[0], (int, float)):
             return is_color_like(colors)
 
     return False
-- 
2.43.0


From 9cf51abf90b3301bbc445a2a0a515b68f590f3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:26 +0000
Subject: [PATCH 65/75] fix: Data.delete counted rows it did not have

---
 hrosailing/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/core/data.py b/hrosailing/core/data.py
index 756ba7b..bc8d667 100644
--- a/hrosailing/core/data.py
+++ b/hrosailing/core/data.py
@@ -332,7 +332,7 @@ class Data:
                     k: [v for i, v in enumerate(value) if i not in key]
                     for k, value in self._data.items()
                 }
-                self._max_len -= len(set(key))
+                self._max_len -= len(set(key) & set(range(self._max_len)))
 
     def strip(self, mode="all"):
         """
-- 
2.43.0


From ae6670a4399aaeaafa5964b9625d06763d36d975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:26 +0000
Subject: [PATCH 66/75] fix: wind of dictionaries of arrays was returned
 transposed

---
 hrosailing/models/influencemodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrosailing/models/influencemodel.py b/hrosailing/models/influencemodel.py
index 1add038..a9646d0 100644
--- a/hrosailing/models/influencemodel.py
+++ b/hrosailing/models/influencemodel.py
@@ -230,7 +230,7 @@ class WindAngleCorrectingInfluenceModel(InfluenceModel):
 def _get_true_wind_data(data: dict):
     speed = "BSP" if "BSP" in data else "SOG"
     if "TWA" in data and "TWS" in data:
-        if isinstance(data["TWS"], list):
+        if isinstance(data["TWS"], (list, np.ndarray)):
             return data_dict_to_numpy(data, ["TWS", "TWA", speed])
 
         return np.array([data["TWS"], data["TWA"], data[speed]])
-- 
2.43.0


From 99d9a0166413f2995760285449e97afced0de8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:45 +0000
Subject: [PATCH 67/75] fix: course between two points was wrong away from the
 equator and to the west

---
 hrosailing/cruising/basics.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index 4bc80ac..6b5efb7 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -529,14 +529,12 @@ def _right_handing_course(a, b):
     relative to true north.
     """
     a, b = np.deg2rad(a), np.deg2rad(b)
-    numerator = np.cos(a[1]) * np.sin(b[1]) - np.cos(a[0] - b[0]) * np.cos(
+    north = np.cos(a[1]) * np.sin(b[1]) - np.cos(a[0] - b[0]) * np.cos(
         b[1]
     ) * np.sin(a[1])
-    denominator = np.cos(a[0] - b[0]) * np.cos(a[1]) * np.cos(b[1]) + np.sin(
-        a[1]
-    ) * np.cos(b[1])
+    east = np.sin(b[0] - a[0]) * np.cos(b[1])
 
-    return np.rad2deg(np.arccos(numerator / np.sqrt(1 - denominator**2)))
+    return np.rad2deg(np.arctan2(east, north)) % 360
 
 
 def _wind_relative_to_north(wind, wind_fmt):
-- 
2.43.0


From 5883dd2ec27a4ac87bb74f1a4dab035d01dc099b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:45 +0000
Subject: [PATCH 68/75] fix: cruise used distances in kilometers instead of
 nautical miles

---
 hrosailing/cruising/basics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index 6b5efb7..75f828b 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -599,7 +599,8 @@ def _uvgrid_to_tw(ugrid, vgrid, hdt):
 
 
 EARTH_FLATTENING = 1 / 298.257223563
-EQUATOR_CIRCUMFERENCE = 40075.017
+# in nautical miles
+EQUATOR_CIRCUMFERENCE = 40075.017 / 1.852
 
 
 def _great_earth_ellipsoid_distance(a, b):
-- 
2.43.0


From dc0950a69f5047bee21fd98e3cd407c4d6417254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:45 +0000
Subject: [PATCH 69/75] fix: wind given by true wind angle or by grid
 components had the wrong direction in cruise

---
 hrosailing/cruising/basics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index 75f828b..3024a36 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -574,12 +574,12 @@ def _wind_relative_to_north(wind, wind_fmt):
 
     if wind_fmt == "ws_wa_hdt":
         ws, wa, hdt = wind
-        return ws, (hdt - wa) % 360
+        return ws, (hdt - wa + 180) % 360
 
     if wind_fmt == "uv_grd":
         wind = np.array(wind)
         u, v = wind
-        return np.linalg.norm(wind), 180 / np.pi * np.arctan2(v, u)
+        return np.linalg.norm(wind), 180 / np.pi * np.arctan2(u, v) % 360
 
     raise AttributeError(f"wind_fmt '{wind_fmt}' is not supported")
 
-- 
2.43.0


From c0dfbff6edd12a76c38a05a54f44b631abbf0c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:45 +0000
Subject: [PATCH 70/75] fix: convex_direction returned a neighbouring angle
 instead of the given direction

---
 hrosailing/cruising/basics.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index 3024a36..b6de45f 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -129,15 +129,15 @@ def convex_direction(
         edge[0].sail = info[0][i1]
         edge[1].sail = info[0][i2]
 
-    if edge[0] == direction:
+    if edge[0].angle == direction:
         return [edge[0]]
 
-    if edge[1] == direction:
+    if edge[1].angle == direction:
         return [edge[1]]
 
     # direction lies on a common edge of polar diagram and convex hull
     if abs(i1 - i2) == 1 and edge[0].sail == edge[1].sail:
-        return [edge[0]]
+        return [Direction(direction, 1, edge[0].sail)]
 
     lambda_ = _get_first_proportion(
         conv.points[i1], conv.points[i2], direction
@@ -254,12 +254,12 @@ def cruise(
 
     dist = _great_earth_ellipsoid_distance(start, end)
 
-    bsp1 = bsp[np.where(wa == d1.angle)[0]]
+    bsp1 = np.interp(d1.angle, wa, bsp)
     if not d2:
         return [(d1.angle, float(dist / bsp1))]
 
     d2 = d2[0]
-    bsp2 = bsp[np.where(wa == d2.angle)[0]]
+    bsp2 = np.interp(d2.angle, wa, bsp)
 
     t = dist / (d1.proportion * bsp1 + d2.proportion * bsp2)
     t1, t2 = d1.proportion * t, d2.proportion * t
-- 
2.43.0


From 301739fb87146bd606b6a2727a1fa5a3698a6e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:45 +0000
Subject: [PATCH 71/75] fix: cruise overestimated the speed made good with two
 directions

---
 hrosailing/cruising/basics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index b6de45f..c1fe12f 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -261,7 +261,11 @@ def cruise(
     d2 = d2[0]
     bsp2 = np.interp(d2.angle, wa, bsp)
 
-    t = dist / (d1.proportion * bsp1 + d2.proportion * bsp2)
+    a1, a2 = np.deg2rad(d1.angle), np.deg2rad(d2.angle)
+    v1, v2 = d1.proportion * bsp1, d2.proportion * bsp2
+    t = dist / np.hypot(
+        v1 * np.cos(a1) + v2 * np.cos(a2), v1 * np.sin(a1) + v2 * np.sin(a2)
+    )
     t1, t2 = d1.proportion * t, d2.proportion * t
 
     return [(d1.angle, float(t1)), (d2.angle, float(t2))]
-- 
2.43.0


From 12ab2645cf058cbab18277c7f567fbd7cf7181a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:45 +0000
Subject: [PATCH 72/75] fix: cruise chose its directions without the influences

---
 hrosailing/cruising/basics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index c1fe12f..a7c45eb 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -250,7 +250,9 @@ def cruise(
         np.cos(rhc) * np.cos(wdir) + np.sin(rhc) * np.sin(wdir)
     )
     heading = 180 - np.rad2deg(heading)
-    d1, *d2 = convex_direction(pd, ws, heading)
+    d1, *d2 = convex_direction(
+        pd, ws, heading, im=im, influence_data=influence_data
+    )
 
     dist = _great_earth_ellipsoid_distance(start, end)
 
-- 
2.43.0


From 0fc36d7b57510acd5124c12091f9d75a66d0febf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:02 +0000
Subject: [PATCH 73/75] fix: cruise gave influence models nested wind speeds
 and failed without influence data

---
 hrosailing/cruising/basics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index a7c45eb..13b9bcb 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -236,10 +236,11 @@ def cruise(
     ws, wa, bsp = slices[0]
     if im:
         influence_data = {
-            key: [val] * len(wa) for key, val in influence_data.items()
+            key: [val] * len(wa)
+            for key, val in (influence_data or {}).items()
         }
-        influence_data["TWS"] = [ws] * len(wa)
-        influence_data["TWA"] = wa
+        influence_data["TWS"] = list(ws)
+        influence_data["TWA"] = list(wa)
         bsp = im.add_influence(pd, influence_data)
     bsp = np.array(bsp).ravel()
 
-- 
2.43.0


From acb14c66c2b1df5fcd228403b0250eb54cddd8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:02 +0000
Subject: [PATCH 74/75] fix: cruise straight up or down the wind could have no
 heading

---
 hrosailing/cruising/basics.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index 13b9bcb..488e332 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -244,13 +244,9 @@ def cruise(
         bsp = im.add_influence(pd, influence_data)
     bsp = np.array(bsp).ravel()
 
-    rhc = np.deg2rad(_right_handing_course(start, end))
-    wdir = np.deg2rad(wdir)
+    rhc = _right_handing_course(start, end)
 
-    heading = np.arccos(
-        np.cos(rhc) * np.cos(wdir) + np.sin(rhc) * np.sin(wdir)
-    )
-    heading = 180 - np.rad2deg(heading)
+    heading = np.abs((rhc - wdir) % 360 - 180)
     d1, *d2 = convex_direction(
         pd, ws, heading, im=im, influence_data=influence_data
     )
-- 
2.43.0


From 726fb233ded6adc9ed1bef4bf48190db7dde09c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:14 +0000
Subject: [PATCH 75/75] fix: directions of diagrams with several sails were
 wrong in convex_direction and cruise

---
 hrosailing/cruising/basics.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/hrosailing/cruising/basics.py b/hrosailing/cruising/basics.py
index 488e332..0327d7f 100644
--- a/hrosailing/cruising/basics.py
+++ b/hrosailing/cruising/basics.py
@@ -107,10 +107,10 @@ def convex_direction(
         (bsp * np.cos(wa).ravel(), bsp * np.sin(wa).ravel())
     )
     conv = ConvexHull(polar_pts)
-    vert = sorted(conv.vertices)
-
     wa = np.rad2deg(wa)
 
+    vert = sorted(conv.vertices, key=lambda i: wa[i])
+
     for left, right in zip(vert, vert[1:]):
         if wa[left] <= direction <= wa[right]:
             i1, i2 = left, right
@@ -232,7 +232,7 @@ def cruise(
 
     ws, wdir = _wind_relative_to_north(wind, wind_fmt)
 
-    _, slices, _ = pd.get_slices(ws, full_info=True)
+    _, slices, info = pd.get_slices(ws, full_info=True)
     ws, wa, bsp = slices[0]
     if im:
         influence_data = {
@@ -253,12 +253,13 @@ def cruise(
 
     dist = _great_earth_ellipsoid_distance(start, end)
 
-    bsp1 = np.interp(d1.angle, wa, bsp)
+    sails = info[0] if info else None
+    bsp1 = _speed_in_direction(d1, wa, bsp, sails)
     if not d2:
         return [(d1.angle, float(dist / bsp1))]
 
     d2 = d2[0]
-    bsp2 = np.interp(d2.angle, wa, bsp)
+    bsp2 = _speed_in_direction(d2, wa, bsp, sails)
 
     a1, a2 = np.deg2rad(d1.angle), np.deg2rad(d2.angle)
     v1, v2 = d1.proportion * bsp1, d2.proportion * bsp2
@@ -270,6 +271,15 @@ def cruise(
     return [(d1.angle, float(t1)), (d2.angle, float(t2))]
 
 
+def _speed_in_direction(direction, wa, bsp, sails):
+    """Interpolates the boat speed (of the respective sail) in a direction."""
+    if sails is not None:
+        keep = [sail == direction.sail for sail in sails]
+        wa, bsp = wa[keep], bsp[keep]
+    order = np.argsort(wa)
+    return np.interp(direction.angle, wa[order], bsp[order])
+
+
 def cost_cruise(
     pd,
     start,
-- 
2.43.0

