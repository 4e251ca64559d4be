From 632d0f7d5e74a72b7c2c3c5c360474e63750e697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 01/31] fix: derive soil and load positions from the slope's
 own current boundary

Positions were cached on the Material, Udl and LineLoad objects when they
were set. Changing the boundary afterwards left soil levels stale, and adding
an object to a second slope moved it in the first.
---
 pyslope/pyslope.py | 107 ++++++++++++++++++++++-----------------------
 1 file changed, 52 insertions(+), 55 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 5cc610d..b992c50 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -395,11 +395,6 @@ class Slope:
         self._external_length = tot_l
         self._external_height = tot_h
 
-        # udl coordinates can be effected by external boundary modification
-        # need to update coordinates.
-        self._update_udl_coordinates()
-        self._update_ll_coordinates()
-
         # reset limits
         self.remove_analysis_limits()
 
@@ -478,29 +473,25 @@ class Slope:
                     if self._MIN_EXT_L < min_length:
                         self.update_boundary_options(MIN_EXT_L=min_length)
 
-        self._update_udl_coordinates()
-
         if self._udls:
             self._udl_max = max(udl.magnitude for udl in self._udls)
 
         # reset results
         self._reset_results()
 
-    # dont need to reset results since this only should be called
-    # as a part of resetting
-    def _update_udl_coordinates(self):
-        """Update coordinates for left and right of udl based on
+    # derived on demand as a load may be shared between slopes and the
+    # external boundary may be modified after the load has been set.
+    def _get_udl_coordinates(self, udl):
+        """Return left and right x coordinates of udl based on
         external boundary and Udl object"""
 
-        for udl in self._udls:
-            right_x = self._top_coord[0] - udl.offset
-            if udl.length:
-                left_x = max(0, right_x - udl.length)
-            else:
-                left_x = 0
+        right_x = self._top_coord[0] - udl.offset
+        if udl.length:
+            left_x = max(0, right_x - udl.length)
+        else:
+            left_x = 0
 
-            udl.left = left_x
-            udl.right = right_x
+        return left_x, right_x
 
     def remove_udls(self, *udls, remove_all=False):
         """Remove udl from model if associated with model.
@@ -573,21 +564,14 @@ class Slope:
                     if self._MIN_EXT_L < min_length:
                         self.update_boundary_options(MIN_EXT_L=min_length)
 
-        self._update_ll_coordinates()
-
         # reset results
         self._reset_results()
 
-    # dont need to reset results since this only should be called
-    # as a part of resetting
-    def _update_ll_coordinates(self):
-        """Update coordinates for point load based on external
+    def _get_ll_coordinate(self, ll):
+        """Return x coordinate of point load based on external
         boundary and LineLoad object"""
 
-        for ll in self._lls:
-            coord = max(0, self._top_coord[0] - ll.offset)
-
-            ll.coord = coord
+        return max(0, self._top_coord[0] - ll.offset)
 
     def remove_lls(self, *lls, remove_all=False):
         """Remove udl from model if associated with model.
@@ -692,8 +676,6 @@ class Slope:
         material_refined = []
         # define RL for each material and color for each material
         for i, material in enumerate(materials):
-            material.RL = self._external_height - material.depth_to_bottom
-
             if (
                 utilities.is_color(material.user_defined_color)
                 and material.user_defined_color != ""
@@ -709,6 +691,12 @@ class Slope:
         # reset results
         self._reset_results()
 
+    def _get_material_RL(self, material):
+        """Return level of the bottom of a material based on external
+        boundary and Material object"""
+
+        return self._external_height - material.depth_to_bottom
+
     def remove_material(
         self, material: Material = None, depth: float = None, remove_all=False
     ):
@@ -1064,10 +1052,11 @@ class Slope:
 
         # add in coordinates directly adjacent to loads
         for ll in self._lls:
-            left_coords += [(ll.coord - 0.001, self._top_coord[1])]
+            left_coords += [(self._get_ll_coordinate(ll) - 0.001, self._top_coord[1])]
 
         for udl in self._udls:
-            left_coords += [(udl.left - 0.001, self._top_coord[1])]
+            left_x, _ = self._get_udl_coordinates(udl)
+            left_coords += [(left_x - 0.001, self._top_coord[1])]
 
         # loop through left and right points to generate coordinates
         for l_c in left_coords:
@@ -1420,12 +1409,13 @@ class Slope:
         xr = slice_x + half_width
 
         for udl in self._udls:
+            udl_left, udl_right = self._get_udl_coordinates(udl)
             overlap = np.minimum(
                 xr,
-                udl.right,
+                udl_right,
             ) - np.maximum(
                 xl,
-                udl.left,
+                udl_left,
             )
             W += (
                 np.clip(
@@ -1437,7 +1427,8 @@ class Slope:
             )
 
         for ll in self._lls:
-            mask = (xl <= ll.coord) & (ll.coord < xr)
+            coord = self._get_ll_coordinate(ll)
+            mask = (xl <= coord) & (coord < xr)
             W[mask] += ll.magnitude
 
         # --- Water uplift ---
@@ -1482,7 +1473,7 @@ class Slope:
         tan_phi[:] = last.tan_friction_angle
 
         for m in self._materials:
-            mask = (~assigned) & (m.RL < slice_yb)
+            mask = (~assigned) & (self._get_material_RL(m) < slice_yb)
             cohesion[mask] = m.cohesion
             tan_phi[mask] = m.tan_friction_angle
             assigned[mask] = True
@@ -1638,12 +1629,13 @@ class Slope:
         x_left = slice_x - half_slice
         x_right = slice_x + half_slice
         for udl in self._udls:
+            udl_left, udl_right = self._get_udl_coordinates(udl)
             overlap = np.minimum(
                 x_right,
-                udl.right,
+                udl_right,
             ) - np.maximum(
                 x_left,
-                udl.left,
+                udl_left,
             )
             overlap = np.clip(
                 overlap,
@@ -1654,7 +1646,8 @@ class Slope:
 
         # --- Add line loads (LLs) ---
         for ll in self._lls:
-            mask = (x_left <= ll.coord) & (ll.coord < x_right)
+            coord = self._get_ll_coordinate(ll)
+            mask = (x_left <= coord) & (coord < x_right)
             if np.any(mask):
                 W[mask] += ll.magnitude
 
@@ -1700,7 +1693,7 @@ class Slope:
         tan_phi[:] = last_mat.tan_friction_angle
 
         for mat in self._materials:
-            mask = (~assigned) & (mat.RL < slice_y_bottom)
+            mask = (~assigned) & (self._get_material_RL(mat) < slice_y_bottom)
             if np.any(mask):
                 cohesion[mask] = mat.cohesion
                 tan_phi[mask] = mat.tan_friction_angle
@@ -1963,7 +1956,7 @@ class Slope:
 
         # build layer tops and bottoms (materials are sorted top -> bottom)
         bottoms = np.array(
-            [m.RL for m in self._materials],
+            [self._get_material_RL(m) for m in self._materials],
             dtype=float,
         )
         # last material extends downwards indefinitely: set its bottom to -inf
@@ -2008,7 +2001,7 @@ class Slope:
 
         # loop through all materials, if we have passed the bottom take the previous
         for m in self._materials:
-            if m.RL < s_yb:
+            if self._get_material_RL(m) < s_yb:
                 return m
 
         return self._materials[-1]
@@ -2164,7 +2157,7 @@ class Slope:
         # loop through materials
         for i, m in enumerate(self._materials):
             # get reference level (y coordinate) for material
-            y = m.RL
+            y = self._get_material_RL(m)
             x = self.get_external_x_intersection(y)
 
             line = [(0, y), (x, y)]
@@ -2492,11 +2485,13 @@ class Slope:
     def _plot_ll(self, fig, ll):
         """Add pointload to plot"""
 
+        coord = self._get_ll_coordinate(ll)
+
         fig = utilities.draw_arrow(
             fig,
             angle=-90,
             force=ll.magnitude,
-            x_sup=ll.coord,
+            x_sup=coord,
             y_sup=self._top_coord[1],
             color="black",
             arrowlength=150,
@@ -2510,7 +2505,7 @@ class Slope:
             fig,
             angle=-90,
             force=ll.magnitude,
-            x_sup=ll.coord,
+            x_sup=coord,
             y_sup=self._top_coord[1],
             color=ll.color,
             arrowlength=150,
@@ -2524,11 +2519,13 @@ class Slope:
     def _plot_udl(self, fig, udl):
         """Add Uniform load to plot"""
 
+        left, right = self._get_udl_coordinates(udl)
+
         fig = utilities.draw_arrow(
             fig,
             angle=-90,
             force=udl.magnitude,
-            x_sup=udl.left,
+            x_sup=left,
             y_sup=self._top_coord[1],
             color=udl.color,
             arrowlength=100 * (udl.magnitude / self._udl_max),
@@ -2542,7 +2539,7 @@ class Slope:
             fig,
             angle=-90,
             force=udl.magnitude,
-            x_sup=(udl.left + udl.right) / 2,
+            x_sup=(left + right) / 2,
             y_sup=self._top_coord[1],
             color="black",
             arrowlength=100 * (udl.magnitude / self._udl_max) + 10,
@@ -2557,7 +2554,7 @@ class Slope:
             fig,
             angle=-90,
             force=udl.magnitude,
-            x_sup=udl.right,
+            x_sup=right,
             y_sup=self._top_coord[1],
             color=udl.color,
             arrowlength=100 * (udl.magnitude / self._udl_max),
@@ -2573,14 +2570,14 @@ class Slope:
             type="line",
             xref="x",
             yref="y",
-            x0=udl.left,
+            x0=left,
             y0=y0,
-            x1=udl.right,
+            x1=right,
             y1=y0,
             line_color=udl.color,
             line_width=2,
             ysizemode="pixel",
-            xanchor=udl.left,
+            xanchor=left,
             yanchor=self._top_coord[1],
         )
 
@@ -2591,15 +2588,15 @@ class Slope:
             type="rect",
             xref="x",
             yref="y",
-            x0=udl.left,
+            x0=left,
             y0=0,
-            x1=udl.right,
+            x1=right,
             y1=y0,
             fillcolor=udl.color,
             opacity=0.2,
             line_width=2,
             ysizemode="pixel",
-            xanchor=udl.left,
+            xanchor=left,
             yanchor=self._top_coord[1],
         )
 
-- 
2.43.0


From 735b87b93809b8f45a28b72608c4392a50e3a0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:01 +0000
Subject: [PATCH 02/31] fix: keep the water level and automatic water factor in
 step with the boundary

Both were computed once from the geometry at the time they were set.
---
 pyslope/pyslope.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index b992c50..d39f2c6 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -271,6 +271,8 @@ class Slope:
         # initialise empty properties used in other components of class
         self._materials = []
         self._water_RL = None
+        self._water_depth = None
+        self._water_analysis_auto = True
         self._udls = []
         self._lls = []
 
@@ -395,6 +397,12 @@ class Slope:
         self._external_length = tot_l
         self._external_height = tot_h
 
+        # water level and automatic water factor depend on the boundary
+        if self._water_depth is not None:
+            self._water_RL = max(0, top[1] - self._water_depth)
+        if self._water_analysis_auto:
+            self._water_analysis_H = cos(atan(self._gradient)) ** 2
+
         # reset limits
         self.remove_analysis_limits()
 
@@ -792,6 +800,7 @@ class Slope:
             elif H < 0:
                 H = 0
 
+        self._water_analysis_auto = bool(auto)
         self._water_analysis_H = H
 
         # reset results
-- 
2.43.0


From bfaff972f87a535fde503ebd5fc08dea82879f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:21 +0000
Subject: [PATCH 03/31] fix: do not leave half analysed planes behind when an
 analysis is interrupted

analyse_slope wrote factors of safety into the published result list (and the
stored individual planes) one by one, so after an interrupt get_min_FOS gave
the first, unsorted plane.
---
 pyslope/pyslope.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index d39f2c6..01882a0 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1009,7 +1009,7 @@ class Slope:
         # reset results
         self._reset_results()
 
-    def _set_entry_exit_planes(self):
+    def _get_entry_exit_planes(self):
         """Function to generate search planes based on a method
         of predetermining where the failure plane will enter and
         exit the model."""
@@ -1076,7 +1076,7 @@ class Slope:
                 ):
                     search += self._generate_planes(l_c, r_c, num_circles)
 
-        self._search = search
+        return search
 
     def _generate_planes(self, l_c, r_c, num_circles=5):
         """Generate failure plane circle coordinates with entry and exit point.
@@ -1233,23 +1233,26 @@ class Slope:
 
         # if individual failure planes set only analyse them
         if self._individual_planes != []:
-            self._search = self._individual_planes
+            planes = self._individual_planes
 
         # otherwise generate planes across the entire slope
         else:
-            self._set_entry_exit_planes()
-
-        # go through each assumed plane and calculate the FOS
-        for i, search in enumerate(tqdm(self._search)):
-            self._search[i]["FOS"] = self._analyse_circular_failure_bishop(
-                c_x=search["c_x"],
-                c_y=search["c_y"],
-                radius=search["radius"],
+            planes = self._get_entry_exit_planes()
+
+        # go through each assumed plane and calculate the FOS. Results are only
+        # stored once complete so an interrupted analysis leaves none behind.
+        search = []
+        for plane in tqdm(planes):
+            FOS = self._analyse_circular_failure_bishop(
+                c_x=plane["c_x"],
+                c_y=plane["c_y"],
+                radius=plane["radius"],
             )
+            search.append({**plane, "FOS": FOS})
 
         # tidy the information to remove anything that didnt run and
         # to be sorted from lowest FOS to highest FOS
-        search = list(filter((lambda x: x["FOS"] is not None), self._search))
+        search = list(filter((lambda x: x["FOS"] is not None), search))
         search.sort(key=lambda x: x["FOS"])
         if max_fos:
             search = list(filter(lambda x: (x["FOS"] <= max_fos), search))
-- 
2.43.0


From 27d6d14b20e159f67ffe8a005802cdcf8bd8a3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:22 +0000
Subject: [PATCH 04/31] fix: report end points of individual planes on the
 current boundary

They were computed when the plane was added and not updated when the
boundary changed.
---
 pyslope/pyslope.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 01882a0..f890b1b 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1227,13 +1227,27 @@ class Slope:
         # reset results
         self._reset_results()
 
+    def _get_individual_planes(self):
+        """Return individual planes with end points on the current external
+        boundary, which may have been modified since they were added."""
+        planes = []
+
+        for plane in self._individual_planes:
+            i_list = self._get_circle_external_intersection(
+                plane["c_x"], plane["c_y"], plane["radius"]
+            )
+            if len(set(i_list)) >= 2:
+                planes.append({**plane, "l_c": i_list[0], "r_c": i_list[1]})
+
+        return planes
+
     def analyse_slope(self, max_fos=None):
         """Analyse many possible failure planes for a slope OR
         indivually added failure planes if added to slope."""
 
         # if individual failure planes set only analyse them
         if self._individual_planes != []:
-            planes = self._individual_planes
+            planes = self._get_individual_planes()
 
         # otherwise generate planes across the entire slope
         else:
-- 
2.43.0


From 436f518b47bb04d3b0a107f531cf42786921aede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 05/31] fix: remove every matching load in remove_udls and
 remove_lls

Removing from the list being iterated skipped the element after each match,
so only some of several equal loads were removed.
---
 pyslope/pyslope.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index f890b1b..76be22b 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -525,7 +525,8 @@ class Slope:
         """
 
         for udl in udls:
-            for check_udl in self._udls:
+            # iterate over a copy as matching loads are removed on the way
+            for check_udl in list(self._udls):
                 if (
                     check_udl.offset == udl.offset
                     and check_udl.magnitude == udl.magnitude
@@ -607,7 +608,8 @@ class Slope:
 
         # can probably write this as O(n) rather than O(n^2)
         for ll in lls:
-            for check_ll in self._lls:
+            # iterate over a copy as matching loads are removed on the way
+            for check_ll in list(self._lls):
                 if (
                     check_ll.offset == ll.offset
                     and check_ll.magnitude == ll.magnitude
-- 
2.43.0


From 2d30107b3452a7a56c8e8f38eee6da70051db5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 06/31] fix: slope can be drawn after removing one of several
 udls

remove_udls stored a Udl object where the greatest magnitude is expected, so
plotting raised a TypeError.
---
 pyslope/pyslope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 76be22b..5938456 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -539,7 +539,7 @@ class Slope:
             self._udl_max = 0
 
         if self._udls:
-            self._udl_max = max(self._udls, key=lambda x: x.magnitude)
+            self._udl_max = max(udl.magnitude for udl in self._udls)
 
         # reset results
         self._reset_results()
-- 
2.43.0


From a58afb6cd70bc7d90e47d8df97d5b4ae40328e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:52 +0000
Subject: [PATCH 07/31] fix: validate right_x and right_x_left each against its
 own value

The two checks were swapped, so giving only right_x_left was always refused
and right_x was never checked.
---
 pyslope/pyslope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 5938456..93e410d 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -975,14 +975,14 @@ class Slope:
             right_x_left = self._limits[2]
         else:
             data_validation.assert_strictly_positive_number(
-                right_x, "right_x_limit"
+                right_x_left, "right_x left coordinate"
             )
 
         if right_x is None:
             right_x = self._limits[3]
         else:
             data_validation.assert_strictly_positive_number(
-                right_x_left, "right_x left coordinate"
+                right_x, "right_x limit"
             )
 
         # if only one of the double parameters is defined
-- 
2.43.0


From 106a2cab45c44e6fcd32da02e67000effe4bcada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:45 +0000
Subject: [PATCH 08/31] fix: a refused edit leaves the slope unchanged

set_materials extended the boundary before refusing a duplicate depth (and
failed when given nothing); update_analysis_options and
update_boundary_options applied the valid arguments before refusing others.
---
 pyslope/pyslope.py | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 93e410d..06fb32b 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -283,6 +283,10 @@ class Slope:
 
         self._external_boundary = None
 
+        self._slices = None
+        self._iterations = None
+        self._min_failure_distance = None
+
         # intialise options
         self.update_boundary_options(MIN_EXT_H=6, MIN_EXT_L=10)
         self.set_external_boundary(height=height, angle=angle, length=length)
@@ -675,14 +679,14 @@ class Slope:
 
         depths = [material.depth_to_bottom for material in materials]
 
-        # if geological unit deeper than model than extend model to fit materials
-        if depths[-1] > self._external_height:
-            self.update_boundary_options(MIN_EXT_H=depths[-1])
-
         # check material depth unique
         if len(depths) > len(set(depths)):
             raise ValueError("The same material depth has been input twice")
 
+        # if geological unit deeper than model than extend model to fit materials
+        if depths and depths[-1] > self._external_height:
+            self.update_boundary_options(MIN_EXT_H=depths[-1])
+
         material_refined = []
         # define RL for each material and color for each material
         for i, material in enumerate(materials):
@@ -854,17 +858,26 @@ class Slope:
         ...     max_iterations=50,
         ... )
         """
+        # determine all values before changing any option
+        new_slices = self._slices
+        new_iterations = self._iterations
+        new_min_failure_distance = self._min_failure_distance
+
         if slices:
-            self._slices = max(min(500, slices), 10)
+            new_slices = max(min(500, slices), 10)
 
         if iterations:
-            self._iterations = max(min(iterations, 100000), 500)
+            new_iterations = max(min(iterations, 100000), 500)
 
         if min_failure_dist is not None:
-            self._min_failure_distance = min(
+            new_min_failure_distance = min(
                 min_failure_dist, self._external_length * 0.9
             )
 
+        self._slices = new_slices
+        self._iterations = new_iterations
+        self._min_failure_distance = new_min_failure_distance
+
         if tolerance is not None:
             self._tolerance = tolerance
 
@@ -901,15 +914,19 @@ class Slope:
         True
         """
 
+        # check all values before changing any option
         if MIN_EXT_H:
             data_validation.assert_strictly_positive_number(
                 MIN_EXT_H, "Minimum external model height (MIN_EXT_H)"
             )
-            self._MIN_EXT_H = MIN_EXT_H
         if MIN_EXT_L:
             data_validation.assert_strictly_positive_number(
-                MIN_EXT_L, "Minimum external model length (MIN_EXT_H)"
+                MIN_EXT_L, "Minimum external model length (MIN_EXT_L)"
             )
+
+        if MIN_EXT_H:
+            self._MIN_EXT_H = MIN_EXT_H
+        if MIN_EXT_L:
             self._MIN_EXT_L = MIN_EXT_L
 
         # if the external boundary has been set this call is after init.
-- 
2.43.0


From 2bb900b111df3f1086ccbac0a0b82990f5848648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:01 +0000
Subject: [PATCH 09/31] fix: limit the minimum failure distance by the current
 model length

It was limited by the length at the time it was set, so the result depended
on whether the boundary was changed before or after.
---
 pyslope/pyslope.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 06fb32b..93f561c 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -870,9 +870,10 @@ class Slope:
             new_iterations = max(min(iterations, 100000), 500)
 
         if min_failure_dist is not None:
-            new_min_failure_distance = min(
-                min_failure_dist, self._external_length * 0.9
+            data_validation.assert_positive_number(
+                min_failure_dist, "min_failure_dist"
             )
+            new_min_failure_distance = min_failure_dist
 
         self._slices = new_slices
         self._iterations = new_iterations
@@ -1086,13 +1087,15 @@ class Slope:
             left_x, _ = self._get_udl_coordinates(udl)
             left_coords += [(left_x - 0.001, self._top_coord[1])]
 
+        # no plane can be longer than the model, so limit the minimum distance
+        min_failure_distance = min(
+            self._min_failure_distance, self._external_length * 0.9
+        )
+
         # loop through left and right points to generate coordinates
         for l_c in left_coords:
             for r_c in right_coords:
-                if (
-                    utilities.dist_points(l_c, r_c)
-                    > self._min_failure_distance
-                ):
+                if utilities.dist_points(l_c, r_c) > min_failure_distance:
                     search += self._generate_planes(l_c, r_c, num_circles)
 
         return search
-- 
2.43.0


From 7cd18cd2e3db75a9661a473c5f87810041cfdad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:01 +0000
Subject: [PATCH 10/31] fix: slope with many loads can be analysed

Each load takes one of the entry points of the search; with as many loads as
points less one this divided by zero, with more no limit point was tried.
---
 pyslope/pyslope.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 93f561c..9ead5a6 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1051,7 +1051,10 @@ class Slope:
 
         # remove number of points on top to be spread to allow for specific
         # points next to the edge of loads
-        num_points_top = num_points_top - len(self._lls) - len(self._udls)
+        # at least both limits are needed, however many loads there are
+        num_points_top = max(
+            2, num_points_top - len(self._lls) - len(self._udls)
+        )
 
         # get limits on bounds of slope
         # not some limits might still stretch off slope
-- 
2.43.0


From 2f538acf94f63834f183fef99d6ce4ca5d3ff1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:22 +0000
Subject: [PATCH 11/31] fix: refuse a slope of zero height

assert_strictly_positive_number let zero pass.
---
 pyslope/data_validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslope/data_validation.py b/pyslope/data_validation.py
index 742c577..61edad1 100644
--- a/pyslope/data_validation.py
+++ b/pyslope/data_validation.py
@@ -27,7 +27,7 @@ def assert_strictly_positive_number(n, name):
             f"The value for '{name}' should be an int or float, not a "
             f"{type(n).__name__}."
         )
-    if n < 0:
+    if n <= 0:
         raise ValueError(f"The value for '{name}' should be > 0, not {n}")
 
 
-- 
2.43.0


From 26f2a3e6f6bee0bb61dce265fb659495c135e831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:04 +0000
Subject: [PATCH 12/31] fix: rounding no longer puts the last exit point
 outside the model

For some geometries, e.g. Slope(height=5.79, angle=15), the last exit point
came out just beyond the model boundary, where there is no ground level, and
analyse_slope raised a TypeError.
---
 pyslope/pyslope.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 9ead5a6..41315d8 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1071,8 +1071,9 @@ class Slope:
         # coodinates for the bottom of the failure plane
         # can be at bottom or on slope, so y is function of x and
         # needs to be determined for different points
+        # (rounding must not carry the last point over the model boundary)
         right_coords_x = [
-            x3 + (n / (num_points_bot)) * (x4 - x3)
+            min(x4, x3 + (n / (num_points_bot)) * (x4 - x3))
             for n in range(1, num_points_bot + 1)
         ]
 
-- 
2.43.0


From 71c26b1e7427db9662cd8348396b46612691ad17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:03 +0000
Subject: [PATCH 13/31] fix: dynamic analysis accepts a udl that runs to the
 end of the model

---
 pyslope/pyslope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 41315d8..fe1708c 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1793,7 +1793,7 @@ class Slope:
         left = self._length
         for udl in self._udls:
             if udl.dynamic_offset:
-                left = max(left, self._top_coord[0] - udl.length)
+                left = max(left, self._top_coord[0] - (udl.length or 0))
 
         left -= 0.01
 
-- 
2.43.0


From 7434638d11db1a18fcf31391d45b3058c9f2245f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:11 +0000
Subject: [PATCH 14/31] fix: an interrupted dynamic analysis does not lose
 loads

---
 pyslope/pyslope.py | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index fe1708c..16a479b 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -480,10 +480,7 @@ class Slope:
                 if udl.magnitude > 0:
                     self._udls.append(udl)
 
-                    # update to make sure full load is included
-                    min_length = (udl.offset + (udl.length or 3)) * 2.5
-                    if self._MIN_EXT_L < min_length:
-                        self.update_boundary_options(MIN_EXT_L=min_length)
+                    self._include_udl(udl)
 
         if self._udls:
             self._udl_max = max(udl.magnitude for udl in self._udls)
@@ -491,6 +488,13 @@ class Slope:
         # reset results
         self._reset_results()
 
+    def _include_udl(self, udl):
+        """update boundary to make sure full load is included"""
+
+        min_length = (udl.offset + (udl.length or 3)) * 2.5
+        if self._MIN_EXT_L < min_length:
+            self.update_boundary_options(MIN_EXT_L=min_length)
+
     # derived on demand as a load may be shared between slopes and the
     # external boundary may be modified after the load has been set.
     def _get_udl_coordinates(self, udl):
@@ -572,14 +576,18 @@ class Slope:
                 if ll.magnitude > 0:
                     self._lls.append(ll)
 
-                    # update to make sure full load is included
-                    min_length = ll.offset * 3
-                    if self._MIN_EXT_L < min_length:
-                        self.update_boundary_options(MIN_EXT_L=min_length)
+                    self._include_ll(ll)
 
         # reset results
         self._reset_results()
 
+    def _include_ll(self, ll):
+        """update boundary to make sure full load is included"""
+
+        min_length = ll.offset * 3
+        if self._MIN_EXT_L < min_length:
+            self.update_boundary_options(MIN_EXT_L=min_length)
+
     def _get_ll_coordinate(self, ll):
         """Return x coordinate of point load based on external
         boundary and LineLoad object"""
@@ -1867,23 +1875,20 @@ class Slope:
 
     def _set_dynamic_offset(self, offset):
         # remember default values?
-        udls = self._udls
-        lls = self._lls
-
-        # remove loads
-        self.remove_udls(remove_all=True)
-        self.remove_lls(remove_all=True)
+        # results no longer valid once the first load is moved
+        self._reset_results()
 
-        # update loads
-        for udl in udls:
+        # loads are moved in place, to take them out and put them back would
+        # lose loads when the analysis is interrupted in between
+        for udl in self._udls:
             if udl.dynamic_offset:
                 udl.offset = offset
-            self.set_udls(udl)
+            self._include_udl(udl)
 
-        for ll in lls:
+        for ll in self._lls:
             if ll.dynamic_offset:
                 ll.offset = offset
-            self.set_lls(ll)
+            self._include_ll(ll)
 
     def _get_circle_external_intersection(
         self, c_x: float, c_y: float, radius: float
-- 
2.43.0


From 1f3d4494353eb74ae46694fe0e69551d6fc4912d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:30 +0000
Subject: [PATCH 15/31] fix: dynamic analysis never moves a load over the crest

---
 pyslope/pyslope.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 16a479b..f0d11ef 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1803,7 +1803,8 @@ class Slope:
             if udl.dynamic_offset:
                 left = max(left, self._top_coord[0] - (udl.length or 0))
 
-        left -= 0.01
+        # an offset is never negative (load longer than the top)
+        left = max(left - 0.01, right)
 
         # check for extreme case with loads at crest (right)
         # if slope is safe (FOS high) then return
-- 
2.43.0


From f04e4ea2173192f581053c7afa68be1547ceae06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:30 +0000
Subject: [PATCH 16/31] fix: dynamic analysis of a slope exactly at the
 required factor of safety

---
 pyslope/pyslope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index f0d11ef..0414144 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1812,7 +1812,7 @@ class Slope:
         self.analyse_slope()
         fos = self.get_min_FOS()
         self._dynamic_results[right] = fos
-        if fos > critical_fos:
+        if fos >= critical_fos:
             return 0
 
         # check for extreme case with loads at end of slope as far
-- 
2.43.0


From b43135c0d1fb371af1bea4be40933e0e4f9a0f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:28 +0000
Subject: [PATCH 17/31] fix: very short critical planes can be drawn

---
 pyslope/pyslope.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 0414144..093da56 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -2952,8 +2952,10 @@ class Slope:
                 y_.append(y[i])
 
         if show_center:
-            x_ += [r_c[0], c_x, l_c[0], x_[0]]
-            y_ += [r_c[1], c_y, l_c[1], y_[0]]
+            # a very short plane may not include any of the circle points
+            x_start, y_start = (x_ + [r_c[0]])[0], (y_ + [r_c[1]])[0]
+            x_ += [r_c[0], c_x, l_c[0], x_start]
+            y_ += [r_c[1], c_y, l_c[1], y_start]
         else:
             x_ = [l_c[0]] + x_ + [r_c[0]]
             y_ = [l_c[1]] + y_ + [r_c[1]]
-- 
2.43.0


From c5bf4b488f9a62a032e37f49ffd8191fd79bfd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:03 +0000
Subject: [PATCH 18/31] fix: a submission the library refuses is no server
 error

The forms accept values the library does not (zero height, limits out of
order, ...); the ValueError ended in a 500 answer.  Treat it like an invalid
form.
---
 slope/views.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/slope/views.py b/slope/views.py
index 1606e98..fd1ee99 100644
--- a/slope/views.py
+++ b/slope/views.py
@@ -276,7 +276,11 @@ def index(request):
         # if form is valid
         if valid:
 
-            slope = create_slope(*form_list)
+            # values the library refuses are treated like an invalid form
+            try:
+                slope = create_slope(*form_list)
+            except ValueError:
+                return redirect("reset")
 
             # return color_dictionary
             # add coordinates of failure planes to information that gets passed back.
-- 
2.43.0


From 7f9091fe6c64e990c485b71ca560e38f9aab84de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:03 +0000
Subject: [PATCH 19/31] fix: dynamic analysis on the web uses the critical FOS
 of the form

The form gives a Decimal, interpolating with it raised a TypeError which was
swallowed, and the planes of a static analysis were shown instead.
---
 slope/views.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/slope/views.py b/slope/views.py
index fd1ee99..7a3e56f 100644
--- a/slope/views.py
+++ b/slope/views.py
@@ -482,12 +482,12 @@ def create_slope(
         slope.analyse_slope(max_fos=5)
     else:
 
-        # might fail if no dynamic loads set up
+        # might fail if there is no failure plane or loads make no difference
         try:
             slope.analyse_dynamic(
-                critical_fos=options_form.cleaned_data["critical_FOS"]
+                critical_fos=float(options_form.cleaned_data["critical_FOS"])
             )
-        except Exception:
+        except (IndexError, ZeroDivisionError):
             slope.analyse_slope(max_fos=5)
 
     return slope
-- 
2.43.0


From 2ad3b0c9f0fe39afff92ddbe62b2828b0108d5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:03 +0000
Subject: [PATCH 20/31] fix: a slope without failure planes is no server error

plot_critical raised an IndexError when no plane has a FOS below 5; show the
slope alone.
---
 slope/views.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/slope/views.py b/slope/views.py
index 7a3e56f..58edf53 100644
--- a/slope/views.py
+++ b/slope/views.py
@@ -312,7 +312,11 @@ def index(request):
                 s["x"] = [l_c[0]] + x_ + [r_c[0]]
                 s["y"] = [l_c[1]] + y_ + [r_c[1]]
 
-            plot = slope.plot_critical(material_table=True, legend=True)
+            # a strong slope can have no failure plane to show
+            if slope._search:
+                plot = slope.plot_critical(material_table=True, legend=True)
+            else:
+                plot = slope.plot_boundary(material_table=True, legend=True)
             plot_json = plot.update_layout(autosize=True).to_json()
 
             search = slope._search
-- 
2.43.0


From dc2212a3ab8be2a3ae0b1f5554f75a93abf61810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:03 +0000
Subject: [PATCH 21/31] fix: a saved analysis without failure planes is not
 forgotten

The page load took an empty list of planes for a session without an analysis
and replaced it with the example.
---
 slope/views.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/slope/views.py b/slope/views.py
index 58edf53..21f37f3 100644
--- a/slope/views.py
+++ b/slope/views.py
@@ -136,13 +136,10 @@ def index(request):
     if request.method == "GET":
         # if forms have been saved initialise with previous data, otherwise reset.
         # if clear form button has been called then also dont use previous and use default.
-        if (
-            request.session.get("forms")
-            and request.session.get("search")
-            and request.session.get("plot_json")
-        ):
+        # note a saved analysis can have no failure planes (search is empty).
+        if request.session.get("forms") and request.session.get("plot_json"):
             previous_forms = request.session.get("forms")
-            search = request.session.get("search")
+            search = request.session.get("search", [])
             plot_json = request.session.get("plot_json")
             # try load up the previous form information
             # if there is an error it is probably due to a version change.
-- 
2.43.0


From f6e8013d6894e5a8164cc267ccabbd7cde3e8d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:03 +0000
Subject: [PATCH 22/31] fix: PDF of a session without an analysis or without
 failure planes

Without a saved analysis the request ended in a KeyError instead of going to
the main page; an analysis without planes could not be exported.
---
 slope/views.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slope/views.py b/slope/views.py
index 21f37f3..a5395e7 100644
--- a/slope/views.py
+++ b/slope/views.py
@@ -52,10 +52,10 @@ def reset(request):
 
 def pdf(request, max_fos=5):
     # get saved data, still taking forever.
-    if request.session["plot_json"] == [] or request.session["search"] == []:
+    if not request.session.get("plot_json"):
         return redirect("index")
     plot = from_json(request.session["plot_json"])
-    search = list(eval(str(request.session["search"])))
+    search = list(eval(str(request.session.get("search", []))))
 
     max_fos = float(max_fos)
 
-- 
2.43.0


From 3b526f39b631d1ff6c32dbbcae0056766c0f665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:53 +0000
Subject: [PATCH 23/31] fix: migration 0009 gives stored materials an empty
 color

Altering the nullable color column to NOT NULL failed on any database that
held a material.
---
 slope/migrations/0009_auto_20220415_1142.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/slope/migrations/0009_auto_20220415_1142.py b/slope/migrations/0009_auto_20220415_1142.py
index f0fdf68..85f0061 100644
--- a/slope/migrations/0009_auto_20220415_1142.py
+++ b/slope/migrations/0009_auto_20220415_1142.py
@@ -10,6 +10,12 @@ class Migration(migrations.Migration):
     ]
 
     operations = [
+        # materials stored so far have no color: give them an empty one
+        migrations.AlterField(
+            model_name="materialmodel",
+            name="color",
+            field=models.CharField(blank=True, default="", max_length=20),
+        ),
         migrations.AlterField(
             model_name="materialmodel",
             name="color",
-- 
2.43.0


From 241b6b3b82792e093afdfec4e1c508772e1efdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:58 +0000
Subject: [PATCH 24/31] fix: rows beyond the tenth keep their own numbers

---
 static/slope/add_rows.js | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/static/slope/add_rows.js b/static/slope/add_rows.js
index f967fd1..140d175 100644
--- a/static/slope/add_rows.js
+++ b/static/slope/add_rows.js
@@ -35,7 +35,7 @@ document.addEventListener("DOMContentLoaded", () => {
         const materialEnd = document.querySelector('#end-row-Materials');
 
         materialFormCount++;
-        const materialFormRegex = RegExp(`material-(\\d){1}-`, 'g');
+        const materialFormRegex = RegExp(`material-\\d+-`, 'g');
 
         newMaterialForm.innerHTML = newMaterialForm.innerHTML.replace(materialFormRegex, `material-${materialFormCount}-`)
 
@@ -57,7 +57,7 @@ document.addEventListener("DOMContentLoaded", () => {
         const lineLoadEnd = document.querySelector('#end-row-LineLoads');
 
         lineLoadFormCount++;
-        const lineLoadFormRegex = RegExp(`lineload-(\\d){1}-`, 'g');
+        const lineLoadFormRegex = RegExp(`lineload-\\d+-`, 'g');
 
         newLineLoadForm.innerHTML = newLineLoadForm.innerHTML.replace(lineLoadFormRegex, `lineload-${lineLoadFormCount}-`)
 
@@ -78,7 +78,7 @@ document.addEventListener("DOMContentLoaded", () => {
         const udlEnd = document.querySelector('#end-row-Udls');
 
         udlFormCount++;
-        const udlFormRegex = RegExp(`udl-(\\d){1}-`, 'g');
+        const udlFormRegex = RegExp(`udl-\\d+-`, 'g');
 
         newUdlForm.innerHTML = newUdlForm.innerHTML.replace(udlFormRegex, `udl-${udlFormCount}-`)
 
@@ -92,7 +92,7 @@ document.addEventListener("DOMContentLoaded", () => {
     function updateForms(event) {
         //material
         let count = 0;
-        const materialFormRegex = RegExp(`material-(\\d){1}-`, 'g');
+        const materialFormRegex = RegExp(`material-\\d+-`, 'g');
         for (let form of materialForm) {
             for (let cell of form.children) {
                 for (let input of cell.children){
@@ -105,7 +105,7 @@ document.addEventListener("DOMContentLoaded", () => {
         
         //line loads
         count = 0;
-        const lineLoadFormRegex = RegExp(`lineload-(\\d){1}-`, 'g');
+        const lineLoadFormRegex = RegExp(`lineload-\\d+-`, 'g');
         for (let form of lineLoadForm) {
             for (let cell of form.children) {
                 for (let input of cell.children){
@@ -118,7 +118,7 @@ document.addEventListener("DOMContentLoaded", () => {
 
         // distributed loads
         count = 0;
-        const udlFormRegex = RegExp(`udl-(\\d){1}-`, 'g');
+        const udlFormRegex = RegExp(`udl-\\d+-`, 'g');
         for (let form of udlForm) {
             for (let cell of form.children) {
                 for (let input of cell.children){
-- 
2.43.0


From 1c728234aabc8461adc0e3e2d816512044154cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:58 +0000
Subject: [PATCH 25/31] fix: slider no longer offers the PDF of an outdated
 analysis

---
 static/slope/update_pdf_link.js | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/static/slope/update_pdf_link.js b/static/slope/update_pdf_link.js
index ff6ab89..c333385 100644
--- a/static/slope/update_pdf_link.js
+++ b/static/slope/update_pdf_link.js
@@ -5,9 +5,7 @@ function update_pdf_link() {
     // if href = '' something has already changed in the inputs
     // the user isnt allowed to request pdf and as such the 
     // href shal remain '' unless form is the same.
-    if (link.href = '') {
-        pass;
-    } else {
+    if (link.getAttribute('href') !== '') {
         link.href = `pdf/${fos}`;
     }
 
-- 
2.43.0


From 85680a154e42cc8ea35188bc81480020cdb0ae63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:58 +0000
Subject: [PATCH 26/31] fix: changed selects and added or deleted rows count as
 changed inputs

---
 static/slope/button_control.js | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/static/slope/button_control.js b/static/slope/button_control.js
index aa56da0..672d28d 100644
--- a/static/slope/button_control.js
+++ b/static/slope/button_control.js
@@ -8,21 +8,31 @@ document.addEventListener("DOMContentLoaded", () => {
 
 
 
-    inputs = document.getElementsByTagName('input');
-    for (var i = 0; i < inputs.length; i++) {
-        if (inputs[i].id != 'id_options-max_display_FOS') {
-            inputs[i].addEventListener('change', () => {
-                document.getElementById('analysis_button').disabled = false
-
-                // for pdf_button it has been changed to a link so need 
-                document.getElementById('pdf_button').classList.add('disabled');
-                document.getElementById('pdf_button').href = '';
-            });
+    // listen on the form, so that selects and rows added later count as well
+    let form = document.getElementById('mainform');
+    form.addEventListener('change', (event) => {
+        if (event.target.id != 'id_options-max_display_FOS') {
+            inputs_changed();
         }
+    });
 
-    }
+    // adding or deleting a row is a change of the inputs
+    form.addEventListener('click', (event) => {
+        let button = event.target.closest('button');
+        if (button && (/^add-/.test(button.id) || /\bdelete-/.test(button.className))) {
+            inputs_changed();
+        }
+    });
 });
 
+function inputs_changed() {
+    document.getElementById('analysis_button').disabled = false
+
+    // for pdf_button it has been changed to a link so need 
+    document.getElementById('pdf_button').classList.add('disabled');
+    document.getElementById('pdf_button').href = '';
+}
+
 function trigger_spinner() {
 
     document.getElementById('loading-spinner').style = "display:inline-block";
-- 
2.43.0


From 0a66c1f69924e1e4114f12b4b579a01e5c6c6f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:58 +0000
Subject: [PATCH 27/31] fix: small windows draw the chart and list the analysed
 soils

---
 static/slope/charting.js | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/static/slope/charting.js b/static/slope/charting.js
index ec45b87..e315138 100644
--- a/static/slope/charting.js
+++ b/static/slope/charting.js
@@ -30,19 +30,21 @@ function createPlot(max_display_fos) {
 
         if (document.getElementById('mobile_soil_table').childElementCount == 0) {
 
-            soils = document.getElementsByClassName('formset-row-Materials')
-            soils_count = soils.length
+            // the soils as analysed: the form may list them in another order or
+            // have been changed since
+            let soils = plot.data.filter((trace) => trace.fill === 'toself')
 
-            for (var i = 0; i < soils_count; i += 1) {
+            for (let soil of soils) {
                 // creating the table of soil properties
-                weight = document.getElementById('id_material-' + i + '-unit_weight').value
-                friction = document.getElementById('id_material-' + i + '-friction_angle').value
-                cohesion = document.getElementById('id_material-' + i + '-cohesion').value
-                soil_name = document.getElementById('id_material-' + i + '-name').value
-                colour = plot.data[i + 1].fillcolor
+                let [weight, cohesion, friction, soil_name] = soil.meta
                 var objTo = document.getElementById('mobile_soil_table');
                 var tr = document.createElement("tr");
-                tr.innerHTML = '<td>' + soil_name + '</td><td style="background-color:' + colour + ';"></td><td>' + weight + '</td><td>' + cohesion + '</td><td>' + friction + '</td>';
+                for (let text of [soil_name, '', weight, cohesion, friction]) {
+                    let td = document.createElement("td");
+                    td.textContent = text
+                    tr.appendChild(td)
+                }
+                tr.children[1].style.backgroundColor = soil.fillcolor
                 objTo.appendChild(tr)
             }
 
@@ -55,15 +57,15 @@ function createPlot(max_display_fos) {
                 objTo.appendChild(td)
             }
         }
-        Plotly.update('plotly_js', plot.data, plot.layout)
     }
     else {
         //if not a mobile screen hide the extra html elements
         document.getElementById("mobile_screen_menus").style.display = "none"
-        // create a new plot
-        Plotly.newPlot('plotly_js', plot.data, plot.layout)
     }
 
+    // create a new plot
+    Plotly.newPlot('plotly_js', plot.data, plot.layout)
+
     updateFOS(max_display_fos);
 
 }
-- 
2.43.0


From 3121779035bff78b1d61d391c04e501e3d86531e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:58 +0000
Subject: [PATCH 28/31] fix: dynamic analysis that does not converge rests at a
 safe offset

---
 pyslope/pyslope.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 093da56..e1d0e88 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1870,6 +1870,11 @@ class Slope:
 
             previous_fos = fos
 
+        # did not converge, rest at the closest offset known to be enough
+        if round(fos, 3) < critical_fos and fos < critical_fos:
+            self._set_dynamic_offset(left)
+            self.analyse_slope()
+
         self._dynamic_results = dict(
             sorted(self._dynamic_results.items(), key=lambda item: item[1])
         )
-- 
2.43.0


From fd270170289f8d7cc5435d1298fdaf704c7ebcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:56 +0000
Subject: [PATCH 29/31] fix: planes of one entry and exit all pass through
 these two points

---
 pyslope/pyslope.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index e1d0e88..98f28b3 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1185,13 +1185,10 @@ class Slope:
             if len(set(i_list)) < 2:
                 continue
 
-            l_c = i_list[0]
-            r_c = i_list[1]
-
             search += [
                 {
-                    "l_c": l_c,
-                    "r_c": r_c,
+                    "l_c": i_list[0],
+                    "r_c": i_list[1],
                     "c_x": c_x,
                     "c_y": c_y,
                     "radius": radius,
-- 
2.43.0


From fea691e9131ad542292a61f38922c0c6d59216c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:56 +0000
Subject: [PATCH 30/31] fix: planes outside the analysis limits or shorter than
 the minimum distance are not searched

---
 pyslope/pyslope.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 98f28b3..71dab5e 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1110,7 +1110,17 @@ class Slope:
                 if utilities.dist_points(l_c, r_c) > min_failure_distance:
                     search += self._generate_planes(l_c, r_c, num_circles)
 
-        return search
+        # a load can lie outside the limits, and a circle can meet the ground
+        # elsewhere than at the two points it was generated for
+        tol = 1e-6
+        return [
+            plane
+            for plane in search
+            if x1 - tol <= plane["l_c"][0] <= x2 + tol
+            and x3 - tol <= plane["r_c"][0] <= x4 + tol
+            and utilities.dist_points(plane["l_c"], plane["r_c"])
+            > min_failure_distance - tol
+        ]
 
     def _generate_planes(self, l_c, r_c, num_circles=5):
         """Generate failure plane circle coordinates with entry and exit point.
-- 
2.43.0


From 123866518bf18d6b432409cc6a79a77ef1aef50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:10 +0000
Subject: [PATCH 31/31] fix: a line load on the edge between two slices counts
 exactly once

---
 pyslope/pyslope.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 71dab5e..1fdca23 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1472,8 +1472,10 @@ class Slope:
         )
 
         # --- Add distributed and line loads ---
-        xl = slice_x - half_width
-        xr = slice_x + half_width
+        # (neighbouring slices share an edge, so that a line load counts once)
+        edges = np.linspace(x_left, x_right, num_slices + 1)
+        xl = edges[:-1]
+        xr = edges[1:]
 
         for udl in self._udls:
             udl_left, udl_right = self._get_udl_coordinates(udl)
@@ -1693,8 +1695,14 @@ class Slope:
         )
 
         # --- Add uniformly distributed loads (UDLs) ---
-        x_left = slice_x - half_slice
-        x_right = slice_x + half_slice
+        # (neighbouring slices share an edge, so that a line load counts once)
+        edges = np.linspace(
+            intersections[0][0],
+            intersections[1][0],
+            num_slices + 1,
+        )
+        x_left = edges[:-1]
+        x_right = edges[1:]
         for udl in self._udls:
             udl_left, udl_right = self._get_udl_coordinates(udl)
             overlap = np.minimum(
-- 
2.43.0

