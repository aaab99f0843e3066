From d80e81181871321ba3252b3e1160e8f4d7d17101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:33 +0000
Subject: [PATCH 01/66] fix: give Ellipse.copy and StarshapedPolygon.copy the
 defaults of Obstacle.copy

---
 obstacles/ellipse.py            | 2 +-
 obstacles/starshaped_polygon.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index 17f216e..c83d46e 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -17,7 +17,7 @@ class Ellipse(StarshapedObstacle):
         super().__init__(xr=xr, **kwargs)
         self.enclosing_ball_diameter = max(2*self._a[0], 2*self._a[1])
 
-    def copy(self, id, name):
+    def copy(self, id='temporary', name=None):
         if (id == 'duplicate' or id == 'd'):
             id = self.id()
         return Ellipse(id=id, name=name, a=self._a, xr=self._xr, n_pol=self._n_pol, motion_model=self._motion_model)
diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index 85eba3c..518d32a 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -21,7 +21,7 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
         self._update_vertex_angles()
         self.enclosing_ball_diameter = self._polygon.bounds[2]-self._polygon.bounds[0] + self._polygon.bounds[3]-self._polygon.bounds[1]
 
-    def copy(self, id, name):
+    def copy(self, id='temporary', name=None):
         if (id == 'duplicate' or id == 'd'):
             id = self.id()
         return StarshapedPolygon(id=id, name=name, polygon=self._polygon, xr=self._xr, motion_model=self._motion_model)
-- 
2.43.0


From c840a2568bdf82a21e51009e34b7cad45ae21cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:33 +0000
Subject: [PATCH 02/66] fix: Ellipse.kernel before the polygon representation
 exists

---
 obstacles/ellipse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index c83d46e..7c1f5cb 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -207,7 +207,7 @@ class Ellipse(StarshapedObstacle):
         self._is_convex = True
 
     def _compute_kernel(self):
-        self._kernel = self._polygon
+        self._kernel = self.polygon(Frame.OBSTACLE)
 
     def _compute_polygon_representation(self):
         # logprint(str(self) + ": " + str(self._polygon), 0)
-- 
2.43.0


From d0b0e8b8ee9bb61c9af1d798842c41b84f74be1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:33 +0000
Subject: [PATCH 03/66] fix: motion models must not alias positions given to
 set_pos or handed out by pos

---
 obstacles/motion_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obstacles/motion_model.py b/obstacles/motion_model.py
index 64e4746..f916418 100644
--- a/obstacles/motion_model.py
+++ b/obstacles/motion_model.py
@@ -13,12 +13,12 @@ class MotionModel(ABC):
         xy_vel = np.array(self.lin_vel())
         rot_vel = self.rot_vel()
         prev_pos, prev_rot = self._pos.copy(), self._rot
-        self._pos += xy_vel * dt
+        self._pos = self._pos + xy_vel * dt
         self._rot += rot_vel * dt
         self._t += dt
 
     def set_pos(self, pos):
-        self._pos = pos
+        self._pos = np.array(pos, dtype='float64')
 
     def set_rot(self, rot):
         self._rot = rot
-- 
2.43.0


From 8e879903d35f2b733a565d5633b865e598ba86f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:33 +0000
Subject: [PATCH 04/66] fix: intersection of an ellipse with a (nearly)
 vertical line off the axis

---
 obstacles/ellipse.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index 7c1f5cb..adb5fb3 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -109,19 +109,30 @@ class Ellipse(StarshapedObstacle):
 
         # Special case with vertical line
         if vertical_line:
-            if l_right_obstacle[0] < -self._a[0] or l_right_obstacle[0] > self._a[0]:
-                return []
-
             l_top_obstacle = l_right_obstacle if l_right_obstacle[1] > l_left_obstacle[1] else l_left_obstacle
             l_bottom_obstacle = l_left_obstacle if l_right_obstacle[1] > l_left_obstacle[1] else l_right_obstacle
-            x_intersect_top_obstacle, x_intersect_bottom_obstacle = np.array([0, self._a[1]]), np.array([0, -self._a[1]])
+            # Solve for y with the line expressed as x = k*y + d
+            dy = l_top_obstacle[1] - l_bottom_obstacle[1]
+            k = (l_top_obstacle[0] - l_bottom_obstacle[0]) / dy if dy > 0 else 0.
+            d = l_bottom_obstacle[0] - k * l_bottom_obstacle[1]
+            ky2 = self._a2[1] * k**2 + self._a2[0]
+            discriminant = ky2 - d**2
+            if discriminant < 0:
+                return []
+            y_mid = -self._a2[1] * k * d / ky2
+            y_diff = self._a[0] * self._a[1] * np.sqrt(discriminant) / ky2
+            y_top, y_bottom = y_mid + y_diff, y_mid - y_diff
+            x_intersect_top_obstacle = np.array([k * y_top + d, y_top])
+            x_intersect_bottom_obstacle = np.array([k * y_bottom + d, y_bottom])
             x_intersect_top = self.transform(x_intersect_top_obstacle, Frame.OBSTACLE, output_frame)
             x_intersect_bottom = self.transform(x_intersect_bottom_obstacle, Frame.OBSTACLE, output_frame)
-            if l_top_obstacle[1] >= self._a[1] and l_bottom_obstacle[1] <= -self._a[1]:
+            intersects_top = l_bottom_obstacle[1] <= y_top <= l_top_obstacle[1]
+            intersects_bottom = l_bottom_obstacle[1] <= y_bottom <= l_top_obstacle[1]
+            if intersects_top and intersects_bottom:
                 return [x_intersect_top, x_intersect_bottom]
-            elif l_top_obstacle[1] >= self._a[1] and l_bottom_obstacle[1] <= self._a[1]:
+            elif intersects_top:
                 return [x_intersect_top]
-            elif l_top_obstacle[1] >= -self._a[1] and l_bottom_obstacle[1] <= -self._a[1]:
+            elif intersects_bottom:
                 return [x_intersect_bottom]
             else:
                 return []
-- 
2.43.0


From 0442ee45c5cbb5f660b33f32949bcdc6b1697b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:33 +0000
Subject: [PATCH 05/66] fix: order ellipse tangent points in one common frame

---
 obstacles/ellipse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index adb5fb3..b0fb990 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -205,7 +205,7 @@ class Ellipse(StarshapedObstacle):
         tp1 = self.transform(tp1_obstacle, Frame.OBSTACLE, output_frame)
         tp2 = self.transform(tp2_obstacle, Frame.OBSTACLE, output_frame)
 
-        if is_ccw(x, tp1, tp2):
+        if is_ccw(x_obstacle, tp1_obstacle, tp2_obstacle):
             tp1, tp2 = tp2, tp1
 
         return [tp1, tp2]
-- 
2.43.0


From e322150a911a8bc145ae9db6c7225281bac6d2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:33 +0000
Subject: [PATCH 06/66] fix: polygon boundary points on the bounding box are
 boundary points

---
 obstacles/polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/polygon.py b/obstacles/polygon.py
index d8ec63a..0efa34b 100644
--- a/obstacles/polygon.py
+++ b/obstacles/polygon.py
@@ -61,7 +61,7 @@ class Polygon(Obstacle):
     def point_location(self, x, input_frame=Frame.GLOBAL):
         x_obstacle = self.transform(x, input_frame, Frame.OBSTACLE)
         xmin, ymin, xmax, ymax = self._pol_bounds
-        if not (xmin < x_obstacle[0] < xmax and ymin < x_obstacle[1] < ymax):
+        if not (xmin <= x_obstacle[0] <= xmax and ymin <= x_obstacle[1] <= ymax):
             return 1
         x_sh = shapely.geometry.Point(x_obstacle)
         if self._polygon.contains(x_sh):
-- 
2.43.0


From 61300621134eb7fba2ef63ab31fda69963959b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 07/66] fix: line intersection both along an edge and across
 another one

---
 obstacles/polygon.py                          | 2 +-
 obstacles/starshaped_primitive_combination.py | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/obstacles/polygon.py b/obstacles/polygon.py
index 0efa34b..94d0f25 100644
--- a/obstacles/polygon.py
+++ b/obstacles/polygon.py
@@ -85,7 +85,7 @@ class Polygon(Obstacle):
         elif intersection_points_shapely.geom_type == 'MultiLineString':
             intersection_points_obstacle = [np.array([ip[0], ip[1]]) for line in intersection_points_shapely.geoms for ip in line.coords]
         else:
-            print(intersection_points_shapely)
+            intersection_points_obstacle = [np.array([ip[0], ip[1]]) for g in intersection_points_shapely.geoms for ip in g.coords]
         return [self.transform(ip, Frame.OBSTACLE, output_frame) for ip in intersection_points_obstacle]
 
     def tangent_points(self, x, input_frame=Frame.GLOBAL, output_frame=Frame.GLOBAL):
diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index 6fdf2cd..75ee12b 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -206,8 +206,7 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
             return [np.array([l[0], l[1]]) for line in intersection_points_shapely.geoms for
                                             l in line.coords]
         else:
-            print("[_hull_cluster_line_intersections]: Shapely geom_type not covered!")
-            print(intersection_points_shapely)
+            return [np.array([ip[0], ip[1]]) for g in intersection_points_shapely.geoms for ip in g.coords]
 
     def _update_vertex_angles(self):
         self.vertices = np.array(self._polygon.exterior.coords[:-1])
-- 
2.43.0


From d9c3002cb6777a14afa6f76712f9c660c7d752eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 08/66] fix: normal and set_xr of a combination before its
 polygon is computed

---
 obstacles/starshaped_primitive_combination.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index 75ee12b..79b02b7 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -209,8 +209,9 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
             return [np.array([ip[0], ip[1]]) for g in intersection_points_shapely.geoms for ip in g.coords]
 
     def _update_vertex_angles(self):
-        self.vertices = np.array(self._polygon.exterior.coords[:-1])
-        self.circular_vertices = np.array(self._polygon.exterior.coords)
+        polygon = self.polygon()
+        self.vertices = np.array(polygon.exterior.coords[:-1])
+        self.circular_vertices = np.array(polygon.exterior.coords)
         self.vertex_angles = np.arctan2(self.vertices[:, 1] - self._xr[1], self.vertices[:, 0] - self._xr[0])
         idcs = np.argsort(self.vertex_angles)
         self.vertex_angles = self.vertex_angles[idcs]
-- 
2.43.0


From bda1e0d1a03a0278ce9005f79f40cc08b2cc2262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 09/66] fix: boundary mapping of a combination for points close
 to its reference point

---
 obstacles/starshaped_primitive_combination.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index 79b02b7..835b2a1 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -62,12 +62,18 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
 
     def boundary_mapping(self, x, input_frame=Frame.GLOBAL, output_frame=Frame.GLOBAL):
         # intersection_points = [p for ps in self.line_intersection([self._xr, self._xr+10*(x-self._xr)]) for p in ps]
-        intersection_points = self.line_intersection([self._xr, self._xr+10*(x-self._xr)])
+        intersection_points = self.line_intersection(self._reference_line(x))
         if not intersection_points:
             return None
         dist_intersection_points = [np.linalg.norm(ip - self._xr) for ip in intersection_points]
         return intersection_points[np.argmax(dist_intersection_points)]
 
+    # Line segment from xr in direction of x, reaching outside of the obstacle
+    def _reference_line(self, x):
+        b = self.polygon().bounds
+        enclosing_length = b[2] - b[0] + b[3] - b[1]
+        return [self._xr, self._xr + 1.1 * enclosing_length * self.reference_direction(x)]
+
     def vel_intertial_frame(self, x):
         boundary_obs_idx = 0
         max_dist = -1
@@ -84,7 +90,7 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
         if type == 'sub_normal':
             boundary_obs_idx = 0
             max_dist = -1
-            line = [self._xr, self._xr+10*(x-self._xr)]
+            line = self._reference_line(x)
             for i, o in enumerate(self._obstacle_cluster):
                 intersection_points = o.line_intersection(line, Frame.GLOBAL, Frame.GLOBAL)
                 for p in intersection_points:
-- 
2.43.0


From d5d9228ad77d666d555382f12bddbcd6a090d5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 10/66] fix: velocity of a combination is that of the obstacle
 forming its boundary

---
 obstacles/starshaped_primitive_combination.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index 835b2a1..51770fe 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -77,13 +77,13 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
     def vel_intertial_frame(self, x):
         boundary_obs_idx = 0
         max_dist = -1
-        for i, ps in enumerate(self.line_intersection([self._xr, self._xr+10*(x-self._xr)])):
+        line = self._reference_line(x)
+        for i, o in enumerate(self._obstacle_cluster):
+            ps = o.line_intersection(line, Frame.GLOBAL, Frame.GLOBAL)
             o_intersection_dist = max([np.linalg.norm(p-self._xr) for p in ps] + [-1])
             if o_intersection_dist > max_dist:
                 boundary_obs_idx = i
                 max_dist = o_intersection_dist
-        if boundary_obs_idx >= len(self._obstacle_cluster):
-            boundary_obs_idx -= len(self._obstacle_cluster)
         return self._obstacle_cluster[boundary_obs_idx].vel_intertial_frame(x)
 
     def normal(self, x, input_frame=Frame.GLOBAL, output_frame=Frame.GLOBAL, x_is_boundary=False, type='weigthed_polygon_approx'):
-- 
2.43.0


From 67d0869e5d96ea26f904f8934314c1872f3ed4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 11/66] fix: rigid body velocity uses the lever arm from the
 center of rotation

---
 obstacles/starshaped_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/starshaped_obstacle.py b/obstacles/starshaped_obstacle.py
index 122ab8f..df15099 100644
--- a/obstacles/starshaped_obstacle.py
+++ b/obstacles/starshaped_obstacle.py
@@ -64,7 +64,7 @@ class StarshapedObstacle(Obstacle):
         if self._motion_model is None:
             return np.zeros(2)
         omega = self._motion_model.rot_vel()
-        lin_vel_omega = np.cross(np.hstack(([0, 0], omega)), np.hstack((self.reference_direction(x), 0)))[:2]
+        lin_vel_omega = np.cross(np.hstack(([0, 0], omega)), np.hstack((x - self.pos(), 0)))[:2]
         return self._motion_model.lin_vel() + lin_vel_omega
 
     # ------------ Abstract methods ------------ #
-- 
2.43.0


From e3942dcae935ec5b03d918a30e63421ae01dea9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 12/66] fix: weighted edge normal has unit length

---
 obstacles/starshaped_polygon.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index 518d32a..df73238 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -87,6 +87,7 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
             w = np.array([1/(d+1e-6) for d in dist])
             w /= sum(w)
             n_obstacle = edge_neighbors_normal.T.dot(w)
+            n_obstacle /= np.linalg.norm(n_obstacle)
         return self.rotate(n_obstacle, Frame.OBSTACLE, output_frame)
 
 
-- 
2.43.0


From da007ad2c19511533450ad7c431be1066a6785e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 13/66] fix: safe set_xr accepts a reference point only in the
 kernel

---
 obstacles/starshaped_obstacle.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/obstacles/starshaped_obstacle.py b/obstacles/starshaped_obstacle.py
index df15099..5828c7a 100644
--- a/obstacles/starshaped_obstacle.py
+++ b/obstacles/starshaped_obstacle.py
@@ -1,5 +1,6 @@
 from abc import abstractmethod
 import numpy as np
+import shapely
 from obstacles import Obstacle, Frame
 from shapely import affinity as sh_affinity
 
@@ -19,8 +20,8 @@ class StarshapedObstacle(Obstacle):
     def set_xr(self, xr, input_frame=Frame.OBSTACLE, safe_set=False):
         new_xr = self.transform(xr, input_frame, Frame.OBSTACLE)
         if safe_set:
-            k = self.kernel()
-            if not k.exterior_point(new_xr, Frame.OBSTACLE):
+            k = self.kernel(Frame.OBSTACLE)
+            if k.covers(shapely.geometry.Point(new_xr)):
                 self._xr = new_xr
         else:
             self._xr = new_xr
-- 
2.43.0


From 331c7578ba59cfcfd13011815f1919b8b6cbe7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 14/66] fix: kernel of star-shaped polygons as the intersection
 of the edge half-planes

The incremental computation returned invalid, too large or no kernels for
about one polygon out of ten (near-duplicate vertices, collinear edges,
clockwise polygons from dilation).
---
 obstacles/starshaped_polygon.py | 704 ++------------------------------
 1 file changed, 25 insertions(+), 679 deletions(-)

diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index df73238..6c58c77 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -2,7 +2,6 @@ from obstacles import Frame, StarshapedObstacle, Polygon
 import matplotlib.pyplot as plt
 import numpy as np
 import shapely
-from utils import is_cw, is_ccw, is_collinear, orientation_val, get_intersection, is_between, tic, toc
 
 
 class StarshapedPolygon(Polygon, StarshapedObstacle):
@@ -183,685 +182,32 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
         self.circular_vertices = np.vstack((self.vertices, self.vertices[0, :]))
         self.vertex_angles = np.hstack((self.vertex_angles, self.vertex_angles[0] + 2 * np.pi))
 
-    def _compute_kernel(self, verbose=False, debug=False):
+    # The kernel is the intersection of the half-planes to the left of all (CCW) edges
+    def _compute_kernel(self):
         if self.is_convex():
             self._kernel = self._polygon
             return
 
-        # Returns true if vertex v[i, :] is reflex
-        def is_reflex(i):
-            return is_cw(v[i - 1, :], v[i, :], v[(i + 1) % v.shape[0], :])
-
-        # Show polygon
-        def draw(xk, F1_idx, L1_idx, i, xk_bounded):
-            v_ext = np.vstack((v, v[0, :]))
-            xk_ext = np.vstack((xk, xk[0, :])) if xk_bounded else xk
-            plt.plot(v_ext[:, 0], v_ext[:, 1], label='v', marker='.')
-            # plt.plot(v_ext[:, 0], v_ext[:, 1], label='v')
-            # plt.text(v_ext[0, 0], v_ext[0, 1], 'v0')
-            plt.text(xk[0, 0], xk[0, 1], 'xk0')
-            axes = plt.gca()
-            xlim, ylim = axes.get_xlim(), axes.get_ylim()
-            plt.plot(xk_ext[:, 0], xk_ext[:, 1], label='xk')
-            plt.plot(xk[F1_idx, 0], xk[F1_idx, 1], marker='o', c='c', label='F1')
-            end_point = v[i, :] + INF_VAL * (xk[F1_idx, :] - v[i, :]) / np.linalg.norm(xk[F1_idx, :] - v[i, :])
-            plt.plot([v[i, 0], end_point[0]], [v[i, 1], end_point[1]], 'c--')
-            plt.plot(xk[L1_idx, 0], xk[L1_idx, 1], marker='o', c='b', label='L1')
-            end_point = v[i, :] + INF_VAL * (xk[L1_idx, :] - v[i, :]) / np.linalg.norm(xk[L1_idx, :] - v[i, :])
-            plt.plot([v[i, 0], end_point[0]], [v[i, 1], end_point[1]], 'b--')
-            plt.plot(v[i, 0], v[i, 1], marker='x', c='r', ms=12, label='v{}'.format(i))
-            axes.set_xlim(xlim)
-            axes.set_ylim(ylim)
-
-        def point_left_of_line(point, line_head, line_tail):
-            return is_ccw(line_head, line_tail, point)
-
-        def point_right_of_line(point, line_head, line_tail):
-            return is_cw(line_head, line_tail, point)
-
-        pol = shapely.ops.orient(self._polygon)
-        v = np.asarray(pol.exterior.coords)[:-1, :]
-
-        # Remove points in line
-        v_idcs = np.arange(v.shape[0])
-        for i in range(v.shape[0]):
-            if is_collinear(v[v_idcs[i - 2], :], v[v_idcs[i - 1], :], v[v_idcs[i], :]):
-                v_idcs[i - 1] = v_idcs[i - 2]
-        v_idcs = np.unique(v_idcs)
-        v = v[v_idcs, :]
-        if is_collinear(v[-2, :], v[-1, :], v[0, :]):
-            v = v[:-1]
-
-        N = v.shape[0]
-        for i in range(N):
-            # Order v to have v[:, 0] as reflex vertex
-            if is_reflex(i):
-                v = np.vstack((v[i:, :], v[:i, :]))
-                break
-
-        INF_VAL = 300.
-        # Initial step
-        F1 = v[0, :] + INF_VAL * (v[0, :] - v[1, :]) / np.linalg.norm(v[0, :] - v[1, :])
-        L1 = v[0, :] + INF_VAL * (v[0, :] - v[-1, :]) / np.linalg.norm(v[0, :] - v[-1, :])
-        xk = np.vstack((F1, v[0, :], L1))
-        F1_idx = 0  # Index of point F1 in xk
-        L1_idx = 2  # Index of point L1 in xk
-        xk_bounded = False
-
-        if verbose:
-            print("------")
-            print(0)
-            print("F1:", end=" ")
-            print(F1)
-            print("L1:", end=" ")
-            print(L1)
-        if debug:
-            draw(xk, F1_idx, L1_idx, 0, xk_bounded)
-            plt.show()
-
-        for i in range(1, N):
-
-            if verbose:
-                print("------")
-                print(i)
-                print("F1 index: {}".format(F1_idx))
-                print("L1 index: {}".format(L1_idx))
-
-            L1 = xk[L1_idx, :]
-            F1 = xk[F1_idx, :]
-            vi = v[i, :]
-            vi_1 = v[(i + 1) % N, :]
-
-            # (1) vi is reflex
-            if is_reflex(i):
-                # (1.2) F1 lies to the left of line ->(vi->vi+1)->vi+1
-                start_point = vi - INF_VAL * (vi_1 - vi) / np.linalg.norm(vi_1 - vi)
-                if point_left_of_line(F1, start_point, vi_1):
-                    case = 2
-                    if debug:
-                        draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                        plt.plot([start_point[0], vi_1[0]], [start_point[1], vi_1[1]], marker='*', color='y',
-                                 label="->(v{}->v{})->v{}".format(i, i + 1, i + 1))
-                        plt.title("F1 lies to the left of line ->(v{}->v{})->v{}".format(i, i + 1, i + 1))
-                        plt.show()
-                    if verbose:
-                        print("(1.2) - F1 ({},{}) lies to the left of line ->(v{}->v{})->v{}".format(F1[0], F1[0], i,
-                                                                                                     i + 1, i + 1))
-                # (1.1) F1 lies on or to the right of line ->(vi->vi+1)->vi+1
-                else:
-                    case = 1
-                    if verbose:
-                        print(
-                            "(1.1) - F1 ({},{}) lies on or to the right of line ->(v{}->v{})->v{}".format(F1[0], F1[0],
-                                                                                                          i, i + 1,
-                                                                                                          i + 1))
-                        print("Scan xk ccw from F1 until we reach edge intersecting line ->(v{}->v{})->v{}".format(i,
-                                                                                                                   i + 1,
-                                                                                                                   i + 1))
-                    # Scan xk ccw from F1 to L1 until we reach edge intersecting line ->(vi->vi+1)->vi+1
-                    w1 = None
-                    idx_offsets = range(1, xk.shape[0] + 1)
-                    for off in idx_offsets:
-                        t = (F1_idx + off) % xk.shape[0]
-                        if not xk_bounded and t == 0:
-                            break
-                        # Get intersection w1 of current edge and line ->(vi->vi+1)->vi+1
-                        wt_prev = xk[t - 1, :]
-                        wt = xk[t, :]
-                        w1 = get_intersection(wt_prev, wt, start_point, vi_1)
-                        if debug:
-                            draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                            col = 'r' if w1 is None else 'g'
-                            plt.plot([wt_prev[0], wt[0]], [wt_prev[1], wt[1]], marker='*', color=col, label="edge")
-                            plt.plot([start_point[0], vi_1[0]], [start_point[1], vi_1[1]], marker='*', color='y',
-                                     label="->(v{}->v{})->v{}".format(i, i + 1, i + 1))
-                            plt.title(
-                                "Scan xk ccw from F1 until we reach edge intersecting line ->(v{}->v{})->v{}".format(i,
-                                                                                                                     i + 1,
-                                                                                                                     i + 1))
-                        if w1 is not None:
-                            if debug:
-                                plt.plot(w1[0], w1[1], 's', label="w1", color='g')
-                                plt.legend()
-                                plt.show()
-                            break
-                        if debug:
-                            plt.legend()
-                            plt.show()
-
-                        if t == L1_idx:
-                            break
-                    # If no intersecting line is reached no kernel exists
-                    if w1 is None:
-                        # if debug:
-                        draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                        plt.title('No kernel found.. Polygon not starshaped.')
-                        plt.legend()
-                        plt.show()
-                        return False
-                    if verbose:
-                        print("Found intersection ({},{}) at line ->(v{}->v{})->v{}".format(w1[0], w1[1], i, i + 1,
-                                                                                            i + 1))
-                        print("Scan xk cw from F1 until we reach edge intersecting line ->(v{}->v{})->v{}".format(i,
-                                                                                                                  i + 1,
-                                                                                                                  i + 1))
-                    # Scan xk cw from F1 until we reach edge intersecting line ->(vi->vi+1)->vi+1
-                    w2 = None
-                    idcs_list = np.flip(np.roll(np.arange(xk.shape[0]), -F1_idx - 1)) if xk_bounded else range(F1_idx,
-                                                                                                               0, -1)
-                    # for s in range(F1_idx, 0, -1):
-                    for s in idcs_list:
-                        ws = xk[s, :]
-                        ws_prev = xk[s - 1, :]
-                        # Get intersection w2 of edge and line ->(vi->vi+1)->vi+1
-                        w2 = get_intersection(ws_prev, ws, start_point, vi_1)
-
-                        if debug:
-                            draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                            plt.plot(w1[0], w1[1], 's', label="w1", color='g')
-                            col = 'r' if w2 is None else 'g'
-                            plt.plot([ws_prev[0], ws[0]], [ws_prev[1], ws[1]], marker='*', color=col, label="edge")
-                            plt.plot([start_point[0], vi_1[0]], [start_point[1], vi_1[1]], marker='*', color='y',
-                                     label="->(v{}->v{})->v{}".format(i, i + 1, i + 1))
-                            plt.title(
-                                "Scan xk cw from F1 until we reach edge intersecting line ->(v{}->v{})->v{}".format(i,
-                                                                                                                    i + 1,
-                                                                                                                    i + 1))
-
-                        if w2 is not None:
-                            if xk_bounded and s > t:
-                                alpha = xk[xk.shape[0]:, :]  # Empty array
-                                beta = xk[t:s, :]
-                                L1_idx = L1_idx - t + 2
-                            else:
-                                alpha = xk[:s, :]
-                                beta = xk[t:, :]
-                                L1_idx = L1_idx - t + s + 2
-                            if debug:
-                                print("xk: ", end=" ")
-                                print(xk)
-                                print("alpha: ", end=" ")
-                                print(alpha)
-                                print("beta: ", end=" ")
-                                print(beta)
-                                print("w1: ", end=" ")
-                                print(w1)
-                                print("w2: ", end=" ")
-                                print(w2)
-                                plt.plot(w1[0], w1[1], 's', label="w1", color='k')
-                                plt.plot(w2[0], w2[1], 's', label="w2", color='g')
-                                plt.plot(alpha[:, 0], alpha[:, 1], 'r--', label="alpha")
-                                plt.plot(beta[:, 0], beta[:, 1], 'k--', label="beta")
-                                plt.legend()
-                                plt.show()
-                            xk = np.vstack((alpha, w2, w1, beta))
-                            w1_idx = alpha.shape[0] + 1
-                            w2_idx = alpha.shape[0]
-                            ####### F1 index reassignment should not be necessary for this case
-                            F1_idx = w2_idx
-                            # L1_idx = L1_idx - t + s + 2
-
-                            if verbose:
-                                print("Update 1")
-                                print("Found intersection ({},{}) at line ->(v{}->v{})->v{}".format(w2[0], w2[1], i,
-                                                                                                    i + 1, i + 1))
-                            break
-                        if debug:
-                            plt.legend()
-                            plt.show()
-                    # If no intersecting line is reached
-                    if w2 is None:
-                        # Test if xk+1 is bounded
-                        # If slope ->(vi->vi+1)->vi+1 is comprised between the slopes of initial and final half lines of xk,
-                        if (orientation_val(xk[-2, :], xk[-1, :], start_point) * orientation_val(vi_1, start_point,
-                                                                                                 xk[0, :])) > 0:
-                            beta = xk[t:, :]
-                            if debug:
-                                draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                                plt.plot(w1[0], w1[1], 's', label="w1", color='g')
-                                plt.plot(xk[:2, 0], xk[:2, 1], '--c', label="initial half line")
-                                plt.plot(xk[-2:, 0], xk[-2:, 1], '--m', label="final half line")
-                                plt.plot([start_point[0], vi_1[0]], [start_point[1], vi_1[1]], marker='*', color='y',
-                                         label="->(v{}->v{})->v{}".format(i, i + 1, i + 1))
-                                plt.title(
-                                    "->(v{}->v{})->v{} between initial and finial half lines of xk".format(
-                                        i, i + 1, i + 1))
-                                plt.plot(beta[:, 0], beta[:, 1], 'k--', label="beta")
-                                plt.legend()
-                                plt.show()
-                            if verbose:
-                                print("Update 2 - xk still unbounded")
-                            # then xk+1= ->(vi->vi+1)->w1->beta is also unbounded.
-                            xk = np.vstack((start_point, w1, beta))
-                            w1_idx = 1
-                            # xk_bounded = False
-                            F1_idx = 0
-                            L1_idx -= t - 1
-
-
-                        else:
-                            # otherwise scan xk cw from xk[-1,:] until we reach edge intersecting line ->(vi->vi+1)->vi+1
-                            if verbose:
-                                print(
-                                    "Scan xk cw from end until we reach edge intersecting line ->(v{}->v{})->v{}".format(
-                                        i, i + 1, i + 1))
-                            w2 = None
-                            if xk_bounded:
-                                r = xk.shape[0]
-                                w2 = get_intersection(xk[0, :], xk[r - 1, :], start_point, vi_1)
-                                if debug:
-                                    draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                                    plt.plot(w1[0], w1[1], 's', label="w1", color='g')
-                                    col = 'r' if w2 is None else 'g'
-                                    plt.plot([xk[r - 1, 0], xk[0, 0]], [xk[r - 1, 1], xk[0, 1]], marker='*', color=col,
-                                             label="edge")
-                                    plt.plot([start_point[0], vi_1[0]], [start_point[1], vi_1[1]], marker='*',
-                                             color='y',
-                                             label="->(v{}->v{})->v{}".format(i, i + 1, i + 1))
-                                    plt.title(
-                                        "Scan xk cw from xk[-1, :] until we reach edge intersecting line ->(v{}->v{})->v{}".format(
-                                            i, i + 1, i + 1))
-                                    if w2 is not None:
-                                        delta = xk[t:r, :]
-                                        if debug:
-                                            print(t, r)
-                                            plt.plot(delta[:, 0], delta[:, 1], 'k--', label="delta")
-                                            plt.plot(w1[0], w1[1], 's', label="w1", color='k')
-                                            plt.plot(w2[0], w2[1], 's', label="w2", color='g')
-                                            plt.legend()
-                                            plt.show()
-                                    if debug:
-                                        plt.legend()
-                                        plt.show()
-                            if w2 is None:
-                                for r in range(xk.shape[0] - 1, 0, -1):
-                                    # Get intersection w2 of edge and line ->(vi->vi+1)->vi+1
-                                    w2 = get_intersection(xk[r, :], xk[r - 1, :], start_point, vi_1)
-                                    if debug:
-                                        draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                                        plt.plot(w1[0], w1[1], 's', label="w1", color='g')
-                                        col = 'r' if w2 is None else 'g'
-                                        plt.plot([xk[r - 1, 0], xk[r, 0]], [xk[r - 1, 1], xk[r, 1]], marker='*',
-                                                 color=col, label="edge")
-                                        plt.plot([start_point[0], vi_1[0]], [start_point[1], vi_1[1]], marker='*',
-                                                 color='y', label="->(v{}->v{})->v{}".format(i, i + 1, i + 1))
-                                        plt.title(
-                                            "Scan xk cw from xk[-1, :] until we reach edge intersecting line ->(v{}->v{})->v{}".format(
-                                                i, i + 1, i + 1))
-                                    if w2 is not None:
-                                        delta = xk[t:r, :]
-                                        if debug:
-                                            print(t, r)
-                                            plt.plot(delta[:, 0], delta[:, 1], 'k--', label="delta")
-                                            plt.plot(w1[0], w1[1], 's', label="w1", color='k')
-                                            plt.plot(w2[0], w2[1], 's', label="w2", color='g')
-                                            plt.legend()
-                                            plt.show()
-                                        break
-                                    if debug:
-                                        plt.legend()
-                                        plt.show()
-                            if verbose:
-                                print("Update 3")
-                                print("Found intersection ({},{}) at line ->(v{}->v{})->v{}".format(w2[0], w2[1], i,
-                                                                                                    i + 1, i + 1))
-                            # Set xk as delta-w2-w1
-                            xk = np.vstack((delta, w2, w1))
-                            w1_idx = delta.shape[0] + 1
-                            w2_idx = delta.shape[0]
-                            xk_bounded = True
-
-                            F1_idx = 0
-                            L1_idx = min(L1_idx - t, xk.shape[0] - 1)
-
-                # F1 update
-                if case == 1:
-                    # If ->(vi->vi+1)->vi+1 has just one intersection with xk F1 = startpoint
-                    if w2 is None:
-                        F1_idx = 0
-                    # Otherwise F1 = w2
-                    else:
-                        F1_idx = w2_idx
-                if case == 2:
-                    # Scan xk ccw from F1 until find vertex wt s.t. wt+1 lies to the
-                    # right of vi+1->(vi+1->wt)->. Let F1 = wt.
-                    idx_offsets = range(xk.shape[0])
-                    for off in idx_offsets:
-                        t = (F1_idx + off) % xk.shape[0]
-                        w_next = xk[(t + 1) % xk.shape[0], :]
-                        line_end_point = vi_1 + INF_VAL * (xk[t, :] - vi_1)
-                        if point_right_of_line(w_next, vi_1, line_end_point):
-                            F1_idx = t
-                            break
-
-                # Check update of previous L1 index for new xk
-                # if not np.isclose(np.linalg.norm(L1 - xk[L1_idx, :]), 0):
-                # print("BAD L1 update [{},{}] -> [{},{}]".format(xk[L1_idx, 0], xk[L1_idx, 1], L1[0], L1[1]))
-                # plt.figure(2)
-                # draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                # plt.show()
-
-                # L1 update
-                # scan xk ccw from L1 until find vertex wu s.t. wu+1 lies to the
-                # left of vi+1->(vi+1->wu)->. Let L1 = wu.
-                idx_offsets = range(xk.shape[0])
-                for off in idx_offsets:
-                    u = (L1_idx + off) % xk.shape[0]
-                    w_next = xk[(u + 1) % xk.shape[0], :]
-                    line_end_point = vi_1 + INF_VAL * (xk[u, :] - vi_1)
-                    if point_left_of_line(w_next, vi_1, line_end_point):
-                        L1_idx = u
-                        break
-
-            else:
-                if verbose:
-                    print("(2)")
-                # Endpoint for line vi->(vi->vi+1)->
-                end_point = vi + INF_VAL * (vi_1 - vi) / np.linalg.norm(vi_1 - vi)
-
-                # (2.2) L1 lies to the left of line vi->(vi->vi+1)->
-                if point_left_of_line(L1, vi, end_point):
-                    case = 2
-                    if verbose:
-                        print("(2.2) - L1 ({},{}) lies to the left of line v{}->(v{}->v{})->".format(L1[0], L1[1], i, i,
-                                                                                                     i + 1))
-                    # xk stays the same
-
-                    if debug:
-                        draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                        plt.plot([end_point[0], vi[0]], [end_point[1], vi[1]], marker='*', color='y',
-                                 label="v{}->(v{}->v{})->".format(i, i, i + 1))
-                        plt.title("L1 lies to the left of line v{}->(v{}->v{})->".format(i, i, i + 1))
-                        plt.show()
-
-                # (2.1) L1 lies on or to the right of line vi->(vi->vi+1)->
-                else:
-                    case = 1
-                    if verbose:
-                        print(
-                            "(2.1) - L1 ({},{}) lies on or to the right of line v{}->(v{}->v{})->".format(L1[0], L1[1],
-                                                                                                          i, i, i + 1))
-                        print(
-                            "Scan xk cw from L1 until we reach F1 or an edge intersecting line v{}->(v{}->v{})->".format(
-                                i, i, i + 1))
-                    # Scan xk cw from L1 until we reach F1 or an edge intersecting line vi->(vi->vi+1)->
-                    idx_offsets = range(xk.shape[0])
-                    w1 = None
-                    for off in idx_offsets:
-                        t = L1_idx - off
-                        # If circular
-                        if t < 0:
-                            t += xk.shape[0]
-                        if t == F1_idx:
-                            break
-                        # Get intersection w1 of edge and line vi->(vi->vi+1)->
-                        w1 = get_intersection(xk[t, :], xk[t - 1, :], vi, end_point)
-                        if debug:
-                            draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                            col = 'r' if w1 is None else 'g'
-                            plt.plot([xk[t - 1, 0], xk[t, 0]], [xk[t - 1, 1], xk[t, 1]], marker='*', color=col,
-                                     label="edge")
-                            plt.plot([end_point[0], v[i, 0]], [end_point[1], v[i, 1]], marker='*', color='y',
-                                     label="v{}->(v{}->v{})->".format(i, i, i + 1))
-                            plt.title(
-                                "Scan xk cw from L1 until we reach F1 or an edge intersecting line v{}->(v{}->v{})->".format(
-                                    i,
-                                    i,
-                                    i + 1))
-                        if w1 is not None:
-                            if debug:
-                                plt.plot(w1[0], w1[1], 's', label="w1", color='g')
-                                plt.legend()
-                                plt.show()
-                            break
-                        if debug:
-                            plt.legend()
-                            plt.show()
-                    # If no intersecting line is reached no kernel exists
-                    if w1 is None:
-                        # if debug:
-                        draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                        plt.title('No kernel found. Polygon not starshaped.')
-                        plt.show()
-                        return False
-
-                    if verbose:
-                        print("Found intersection ({},{}) at line v{}->(v{}->v{})-> for edge ({},{})-({},{})".format(
-                            w1[0], w1[1], i, i, i + 1, xk[t - 1, 0], xk[t - 1, 1], xk[t, 0], xk[t, 1]))
-                        print("Scan xk ccw from L1 until we reach edge intersecting line v{}->(v{}->v{})->".format(i,
-                                                                                                                   i,
-                                                                                                                   i + 1))
-                    # Scan xk ccw from L1 until we reach edge w2 intersecting line vi->(vi->vi+1)->
-                    w2 = None
-                    idx_offsets = range(1, xk.shape[0] + 1)
-                    for off in idx_offsets:
-                        s = (L1_idx + off) % xk.shape[0]
-                        if not xk_bounded and s == 0:
-                            break
-                        # Get intersection w2 of edge and line vi->(vi->vi+1)->
-                        w2 = get_intersection(xk[s - 1, :], xk[s, :], vi, end_point)
-                        if debug:
-                            draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                            col = 'r' if w2 is None else 'g'
-                            plt.plot([xk[s - 1, 0], xk[s, 0]], [xk[s - 1, 1], xk[s, 1]], marker='*', color=col,
-                                     label="edge")
-                            plt.plot([end_point[0], v[i, 0]], [end_point[1], v[i, 1]], marker='*', color='y',
-                                     label="v{}->(v{}->v{})->".format(i, i, i + 1))
-                            plt.title(
-                                "Scan xk ccw from L1 until we reach edge intersecting line v{}->(v{}->v{})->".format(i,
-                                                                                                                     i,
-                                                                                                                     i + 1))
-                        if w2 is not None:
-                            if xk_bounded and t > s:
-                                alpha = xk[xk.shape[0]:, :]  # Empty array
-                                beta = xk[s:t, :]
-                            else:
-                                alpha = xk[:t, :]
-                                beta = xk[s:, :]
-                            if debug:
-                                print("xk: ", end=" ")
-                                print(xk)
-                                print("alpha: ", end=" ")
-                                print(alpha)
-                                print("beta: ", end=" ")
-                                print(beta)
-                                print("w1: ", end=" ")
-                                print(w1)
-                                print("w2: ", end=" ")
-                                print(w2)
-                                plt.plot(w1[0], w1[1], 's', label="w1", color='k')
-                                plt.plot(w2[0], w2[1], 's', label="w2", color='g')
-                                plt.plot(alpha[:, 0], alpha[:, 1], 'r--', label="alpha")
-                                plt.plot(beta[:, 0], beta[:, 1], 'k--', label="beta")
-                                plt.legend()
-                                plt.show()
-                            if verbose:
-                                print("Update 1")
-                                print(
-                                    "Found intersection ({},{}) at line v{}->(v{}->v{})-> for edge ({},{})-({},{})".format(
-                                        w2[0], w2[1], i, i, i + 1, xk[s, 0], xk[s, 1], xk[(s + 1) % xk.shape[0], 0],
-                                        xk[(s + 1) % xk.shape[0], 1]))
-
-                            xk = np.vstack((alpha, w1, w2, beta))
-                            w1_idx = alpha.shape[0]
-                            w2_idx = alpha.shape[0] + 1
-                            break
-                        if debug:
-                            plt.legend()
-                            plt.show()
-                    # If no intersecting line is reached
-                    if w2 is None:
-                        # Test if xk+1 is bounded
-                        # If slope vi->(vi->vi+1)-> is comprised between the slopes of initial and final half lines of xk,
-                        if not xk_bounded and ((orientation_val(xk[-2, :], xk[-1, :], end_point) * orientation_val(vi,
-                                                                                                                   end_point,
-                                                                                                                   xk[0,
-                                                                                                                   :])) > 0):
-                            alpha = xk[:t, :]
-                            if debug:
-                                draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                                plt.plot(w1[0], w1[1], 's', label="w1", color='g')
-                                plt.plot(xk[:2, 0], xk[:2, 1], '--c', label="initial half line")
-                                plt.plot(xk[-2:, 0], xk[-2:, 1], '--m', label="final half line")
-                                plt.plot([end_point[0], v[i, 0]], [end_point[1], v[i, 1]], marker='*', color='y',
-                                         label="v{}->(v{}->v{})->".format(i, i, i + 1))
-                                plt.title(
-                                    "v{}->(v{}->v{})-> between initial and final half lines of xk".format(
-                                        i, i, i + 1))
-                                plt.plot(alpha[:, 0], alpha[:, 1], 'r--', label="alpha")
-                                plt.legend()
-                                plt.show()
-                            if verbose:
-                                print("Update 2 - xk still unbounded")
-                            # then xk+1= alpha->w1->(vi->vi+1)-> is also unbounded.
-                            xk = np.vstack((alpha, w1, end_point))
-                            w1_idx = alpha.shape[0]
-                            L1_idx = xk.shape[0] - 1
-                            F1_idx = 0
-                        else:
-                            if verbose:
-                                print(
-                                    "Scan xk ccw from start until we reach edge intersecting line v{}->(v{}->v{})->".format(
-                                        i,
-                                        i,
-                                        i + 1))
-                            # otherwise scan xk ccw from xk[0,:] until we reach edge intersecting line vi->(vi->vi+1)->
-                            w2 = None
-                            for r in range(1, xk.shape[0] + 1):
-                                # Get intersection w2 of edge and line vi->(vi->vi+1)->
-                                w2 = get_intersection(xk[r - 1, :], xk[r % xk.shape[0], :], vi, end_point)
-                                if debug:
-                                    draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                                    col = 'r' if w2 is None else 'g'
-                                    plt.plot([xk[r - 1, 0], xk[r % xk.shape[0], 0]],
-                                             [xk[r - 1, 1], xk[r % xk.shape[0], 1]], marker='*', color=col,
-                                             label="edge")
-                                    plt.plot([end_point[0], v[i, 0]], [end_point[1], v[i, 1]], marker='*', color='y',
-                                             label="v{}->(v{}->v{})->".format(i, i, i + 1))
-                                    plt.title(
-                                        "Scan xk ccw from xk[0,:] until we reach edge intersecting line v{}->(v{}->v{})->".format(
-                                            i,
-                                            i,
-                                            i + 1))
-                                if w2 is not None:
-                                    delta = xk[r:t, :]
-                                    if debug:
-                                        plt.plot(w2[0], w2[1], 's', label="w2", color='g')
-                                        plt.legend()
-                                        plt.show()
-                                    break
-                                if debug:
-                                    plt.legend()
-                                    plt.show()
-                            if verbose:
-                                print("Update 3")
-                                print("Found intersection ({},{}) at line v{}->(v{}->v{})->".format(w2[0], w2[1], i, i,
-                                                                                                    i + 1))
-                            # Set xk as delta-w1-vi-vi+1-w2
-                            xk = np.vstack((delta, w1, w2))
-                            w1_idx = delta.shape[0]
-                            w2_idx = delta.shape[0] + 1
-                            xk_bounded = True
-                            F1_idx = 0
-                            L1_idx = min(L1_idx - t, xk.shape[0] - 1)
-
-                # F1 update
-
-                # If vi+1 in vi->(vi->vi+1)->w1,
-                if case == 2 or is_between(vi, vi_1, w1):
-                    # scan xk ccw from F1 until find vertex wt s.t. wt+1 lies to the
-                    # right of vi+1->(vi+1->wt)->. Let F1 = wt.
-                    idx_offsets = range(xk.shape[0])
-                    for off in idx_offsets:
-                        t = (F1_idx + off) % xk.shape[0]
-                        w_next = xk[(t + 1) % xk.shape[0], :]
-                        line_end_point = vi_1 + INF_VAL * (xk[t, :] - vi_1)
-                        if debug:
-                            draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                            plt.plot([vi_1[0], line_end_point[0]], [vi_1[1], line_end_point[1]], '--',
-                                     label='v{}->(v{}->wt)'.format(i + 1, i + 1))
-                            c = 'g' if point_right_of_line(w_next, vi_1, line_end_point) else 'r'
-                            plt.plot(w_next[0], w_next[1], color=c, marker='s', label='w_t+1')
-                            plt.title(
-                                "Update F1\n scan xk ccw from F1 until find vertex wt s.t. wt+1 lies to the right of v{}->(v{}->wt)->.".format(
-                                    i + 1, i + 1))
-                            plt.legend()
-                            plt.show()
-                        if point_right_of_line(w_next, vi_1, line_end_point):
-                            F1_idx = t
-                            break
-                else:
-                    F1_idx = w1_idx
-
-                # L1 update
-                if case == 1:
-                    if w2 is not None:
-                        # If vi+1 in vi->(vi->vi+1)->w2
-                        if is_between(vi, vi_1, w2):
-                            L1_idx = w2_idx
-                        else:
-                            # scan xk ccw from w2 until find vertex wu s.t. wu+1 lies to the
-                            # left of vi+1->(vi+1->wu)->. Let L1 = wu.
-                            idx_offsets = range(xk.shape[0])
-                            for off in idx_offsets:
-                                u = (w2_idx + off) % xk.shape[0]
-                                w_next = xk[(u + 1) % xk.shape[0], :]
-                                line_end_point = vi_1 + INF_VAL * (xk[u, :] - vi_1)
-                                if debug:
-                                    draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                                    plt.plot([vi_1[0], line_end_point[0]], [vi_1[1], line_end_point[1]], '--',
-                                             label='v{}->(v{}->wt)'.format(i + 1, i + 1))
-                                    c = 'g' if point_left_of_line(w_next, vi_1, line_end_point) else 'r'
-                                    plt.plot(w_next[0], w_next[1], color=c, marker='s', label='w_t+1')
-                                    plt.title(
-                                        "Update L1\n scan xk ccw from w2 until find vertex wu s.t. wu+1 lies to the left of v{}->(v{}->wt)->.".format(
-                                            i + 1, i + 1))
-                                    plt.legend()
-                                    plt.show()
-                                if point_left_of_line(w_next, vi_1, line_end_point):
-                                    L1_idx = u
-                                    break
-
-                    # (2.1.2) line vi->(vi->vi+1)-> intersects xk just in w1
-                    else:
-                        L1_idx = xk.shape[0] - 1
-                if case == 2:
-                    # print("(2.1.2)")
-                    if xk_bounded:
-                        # scan xk ccw from w2 until find vertex wu s.t. wu+1 lies to the
-                        # left of vi+1->(vi+1->wu)->. Let L1 = wu.
-                        idcs_list = np.roll(np.arange(xk.shape[0]), -L1_idx) if xk_bounded else range(L1_idx,
-                                                                                                      xk.shape[0] - 1)
-                        for u in idcs_list:
-                            w_next = xk[(u + 1) % xk.shape[0], :]
-                            line_end_point = vi_1 + INF_VAL * (xk[u, :] - vi_1)
-                            if debug:
-                                draw(xk, F1_idx, L1_idx, i, xk_bounded)
-                                plt.plot([vi_1[0], line_end_point[0]], [vi_1[1], line_end_point[1]], '--',
-                                         label='v{}->(v{}->wt)'.format(i + 1, i + 1))
-                                c = 'g' if point_left_of_line(w_next, vi_1, line_end_point) else 'r'
-                                plt.plot(w_next[0], w_next[1], color=c, marker='s', label='w_t+1')
-                                plt.title(
-                                    "Update L1\n scan xk ccw from w2 until find vertex wu s.t. wu+1 lies to the left of v{}->(v{}->wt)->.".format(
-                                        i + 1, i + 1))
-                                plt.legend()
-                                plt.show()
-                            if point_left_of_line(w_next, vi_1, line_end_point):
-                                L1_idx = u
-                                break
-
-            if verbose:
-                print("F1:", end=" ")
-                print(F1)
-                print("L1:", end=" ")
-                print(L1)
-                print("xk:", end=" ")
-                print(xk)
-        if debug or verbose:
-            draw(xk, F1_idx, L1_idx, 0, xk_bounded)
-            plt.show()
-        _, idx = np.unique(xk, axis=0, return_index=True)
-        xk = xk[np.sort(idx), :]
-        self._kernel = shapely.geometry.Polygon(xk)
-
-
+        v = np.asarray(shapely.ops.orient(self._polygon).exterior.coords)
+        kernel = np.asarray(shapely.geometry.box(*self._polygon.bounds).exterior.coords)[:-1, :]
+        tol = 1e-12 * max(np.ptp(v, axis=0))
+        for a, b in zip(v[:-1], v[1:]):
+            if np.array_equal(a, b):
+                continue
+            n = np.array([a[1] - b[1], b[0] - a[0]]) / np.linalg.norm(b - a)
+            # Signed distance to edge, positive to the left
+            dist = (kernel - a).dot(n)
+            dist[abs(dist) < tol] = 0
+            clipped = []
+            for i in range(kernel.shape[0]):
+                if dist[i-1] * dist[i] < 0:
+                    clipped += [kernel[i-1] + dist[i-1] / (dist[i-1] - dist[i]) * (kernel[i] - kernel[i-1])]
+                if dist[i] >= 0:
+                    clipped += [kernel[i]]
+            kernel = np.array(clipped).reshape(-1, 2)
+
+        kernel = shapely.geometry.Polygon(kernel) if kernel.shape[0] > 2 else shapely.geometry.Polygon()
+        # No interior
+        if kernel.area < tol ** 2:
+            kernel = shapely.geometry.Polygon()
+        self._kernel = kernel
-- 
2.43.0


From 69c5b00e9c4dee8c0e431843888ec7c451b62852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 15/66] fix: convexity of polygons with repeated vertices

---
 obstacles/polygon.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/obstacles/polygon.py b/obstacles/polygon.py
index 94d0f25..ed7c1f5 100644
--- a/obstacles/polygon.py
+++ b/obstacles/polygon.py
@@ -140,6 +140,7 @@ class Polygon(Obstacle):
     # ------------ Private methods ------------ #
     def _check_convexity(self):
         v = np.asarray(self._polygon.exterior.coords)[:-1, :]
+        v = v[np.any(v != np.roll(v, 1, axis=0), axis=1), :]  # Repeated vertices
         i = 0
         N = v.shape[0]
         # Make sure first vertice is not collinear
-- 
2.43.0


From c23ddf0e799e72fe9b7fe7de9855038c413b6a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 16/66] fix: Frame.InvalidFrameError is an exception, not a
 frame

---
 obstacles/obstacle.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/obstacles/obstacle.py b/obstacles/obstacle.py
index 7789611..a64c479 100644
--- a/obstacles/obstacle.py
+++ b/obstacles/obstacle.py
@@ -7,12 +7,17 @@ from copy import deepcopy
 from enum import Enum
 
 
+class InvalidFrameError(Exception):
+    pass
+
+
 class Frame(Enum):
     GLOBAL = 1
     OBSTACLE = 2
 
-    class InvalidFrameError(Exception):
-        pass
+
+# Not a member of the enumeration
+Frame.InvalidFrameError = InvalidFrameError
 
 
 class Obstacle(ABC):
-- 
2.43.0


From 05a4640f02c9417cb8dea02fc25c1b665208e91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 17/66] fix: generate_convex_polygon respects the height of the
 box

---
 utils/cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/cg.py b/utils/cg.py
index bb7525d..f05fb91 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -424,7 +424,7 @@ def generate_convex_polygon(n, box=None):
 
     # Generate two lists of random X and Y coordinates
     xPool = [box[0]*np.random.uniform() for i in range(n)]
-    yPool = [box[0]*np.random.uniform() for i in range(n)]
+    yPool = [box[1]*np.random.uniform() for i in range(n)]
 
     # Sort them
     xPool = np.sort(xPool)
-- 
2.43.0


From 60dc2109486d60b56cc5eb41c1452e811a4046f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 18/66] fix: Line.intersects compares with both points of the
 other line

---
 utils/cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/cg.py b/utils/cg.py
index f05fb91..c3a4cc7 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -122,7 +122,7 @@ class Line:
         return Point(ip_x, ip_y)
 
     def intersects(self, other):
-        return (is_ccw(self.p1, other.p1, other.p1) != is_ccw(self.p2, other.p1, other.p1) and is_ccw(self.p1, self.p2, other.p1) != is_ccw(self.p1, self.p2, other.p2))
+        return (is_ccw(self.p1, other.p1, other.p2) != is_ccw(self.p2, other.p1, other.p2) and is_ccw(self.p1, self.p2, other.p1) != is_ccw(self.p1, self.p2, other.p2))
 
 
 class LineSegment(Line):
-- 
2.43.0


From c01cd63cdd9404c7fd76f09c01d5eebf9f1b4f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 19/66] fix: convex_hull terminates when the start point is
 repeated

---
 utils/cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/cg.py b/utils/cg.py
index c3a4cc7..4dcfab2 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -261,7 +261,7 @@ def convex_hull(points):
         p = q
 
         # While we don't come to first point
-        if (p == l):
+        if p == l or np.linalg.norm(np.subtract(points[p], points[l])) < COLLINEAR_THRESHOLD:
             break
 
     return hull
-- 
2.43.0


From d04f8159018176a2a9f8c9975b9bd8f4bdbf9439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 20/66] fix: Interval velocity at the end of the last interval

---
 obstacles/motion_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/motion_model.py b/obstacles/motion_model.py
index f916418..ecbd6d8 100644
--- a/obstacles/motion_model.py
+++ b/obstacles/motion_model.py
@@ -82,7 +82,7 @@ class Interval(MotionModel):
         super().__init__(init_pos, 0)
 
     def lin_vel(self):
-        if self._t > self.time_point[-1]:
+        if self._t >= self.time_point[-1]:
             vel_norm = np.linalg.norm((self.pos_point[-1] - self.pos_point[-2]) / (self.time_point[-1] - self.time_point[-2]))
             dir = self.pos_point[-1] - self.pos()
             if np.linalg.norm(dir) > vel_norm:
-- 
2.43.0


From 66e2d36ef91e99d1b1c1a6647d8d50ba8d053ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 21/66] fix: ObstacleCluster.draw passes the axes on

---
 starshaped_hull/cluster_and_starify.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 2e825e8..92b106b 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -35,10 +35,10 @@ class ObstacleCluster:
 
     def draw(self, ax=None):
         if self.cluster_obstacle is not None:
-            ax, _ = self.cluster_obstacle.draw(ax=ax, fc="green")
+            _, ax = self.cluster_obstacle.draw(ax=ax, fc="green")
         for obs in self.obstacles:
-            ax, _ = obs.draw(ax=ax)
-        return ax, _
+            handles, ax = obs.draw(ax=ax)
+        return handles, ax
 
 
 def get_intersection_clusters(clusters):
-- 
2.43.0


From eba87e5a5263d6b5a3a6cccb78f24adcf89a7172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 22/66] fix: cluster name is independent of the merge order

---
 starshaped_hull/cluster_and_starify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 92b106b..d744b61 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -69,7 +69,7 @@ def get_intersection_clusters(clusters):
                     found = True
                     break
             if found:
-                intersection_idcs[j] = list(set(intersection_idcs[j] + intersection_idcs[i]))
+                intersection_idcs[j] = sorted(set(intersection_idcs[j] + intersection_idcs[i]))
                 intersection_idcs[i] = []
                 break
 
-- 
2.43.0


From 7f7f9ae90185c9689b4baeacb950d8c16e9f3019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 23/66] fix: reaching max_iterations with intersecting
 obstacles is an incomplete result

---
 starshaped_hull/cluster_and_starify.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index d744b61..4b8f9cf 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -309,6 +309,13 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
     # -- End first iteration -- #
 
     while intersection_exists:
+        # Check number of iterations
+        if n_iter >= max_iterations:
+            if verbose:
+                print("[Cluster and Starify]: Max iterations.")
+            cluster_iterations += [clusters]
+            return default_result()
+
         kernel_time += [0.]
         hull_time += [0.]
         cluster_time += [0.]
@@ -407,9 +414,6 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
 
         n_iter += 1
 
-        if n_iter >= max_iterations:
-            break
-
     # ----------- Make Convex ----------- #
 
     if make_convex:
-- 
2.43.0


From d8ea8635558615c32b24ac065d1607b2fccf1469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 24/66] fix: return the history also when the compute time is
 exceeded in the convex hull step

---
 starshaped_hull/cluster_and_starify.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 4b8f9cf..5a51185 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -425,7 +425,10 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
                 if max_compute_time < toc(t0):
                     if verbose:
                         print("[Cluster and Starify]: Max compute time in convex hull.")
-                    return clusters, [sum(cluster_time), init_kernel_time+sum(kernel_time), sum(hull_time), toc(t1)], MAX_COMPUTE_TIME_CONVEX_HULL, n_iter
+                    timing_vec = [sum(cluster_time), init_kernel_time+sum(kernel_time), sum(hull_time), toc(t1)]
+                    if return_history:
+                        return clusters, timing_vec, MAX_COMPUTE_TIME_CONVEX_HULL, n_iter, cluster_iterations
+                    return clusters, timing_vec, MAX_COMPUTE_TIME_CONVEX_HULL, n_iter
 
                 v = np.array(cl.polygon().exterior.coords)[:-1, :]
                 hull = ConvexHull(v)
-- 
2.43.0


From abb089080f70a30d8e8279a48dfcc397269d6edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 25/66] fix: no convex hull with the robot or goal position on
 its boundary

---
 starshaped_hull/cluster_and_starify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 5a51185..e6ddd29 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -433,7 +433,7 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
                 v = np.array(cl.polygon().exterior.coords)[:-1, :]
                 hull = ConvexHull(v)
                 hull_polygon = shapely.geometry.Polygon(v[hull.vertices, :])
-                if not any([hull_polygon.contains(shapely.geometry.Point(x_ex)) for x_ex in [x, xg]]) and not any(
+                if not any([hull_polygon.intersects(shapely.geometry.Point(x_ex)) for x_ex in [x, xg]]) and not any(
                         [hull_polygon.intersects(clusters[k].polygon()) for k in range(len(clusters)) if k != j]):
                     # clusters[j].cluster_obstacle = StarshapedPrimitiveCombination(cl.obstacles, hull_polygon, cl.cluster_obstacle.xr(Frame.GLOBAL))
                     clusters[j].cluster_obstacle = StarshapedPolygon(hull_polygon, xr=cl.cluster_obstacle.xr(Frame.GLOBAL))
-- 
2.43.0


From b50243fa0ee2aa07d3ee53bea1a7a3fd143a047f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 26/66] fix: check convex hulls against the convex hulls
 already made

---
 starshaped_hull/cluster_and_starify.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index e6ddd29..04a9ab7 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -437,6 +437,7 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
                         [hull_polygon.intersects(clusters[k].polygon()) for k in range(len(clusters)) if k != j]):
                     # clusters[j].cluster_obstacle = StarshapedPrimitiveCombination(cl.obstacles, hull_polygon, cl.cluster_obstacle.xr(Frame.GLOBAL))
                     clusters[j].cluster_obstacle = StarshapedPolygon(hull_polygon, xr=cl.cluster_obstacle.xr(Frame.GLOBAL))
+                    clusters[j]._polygon = clusters[j].cluster_obstacle.polygon()
 
         convex_time = toc(t1)
     # ----------- End Make Convex ----------- #
-- 
2.43.0


From 3d72c1879870810f063386b4e5308dde964a5be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 27/66] fix: accept previous clusters of an incomplete result

---
 starshaped_hull/cluster_and_starify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 04a9ab7..351243b 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -84,7 +84,7 @@ def get_intersection_clusters(clusters):
 
 
 def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
-    triangle_center_prev = np.mean(cl_prev.kernel_points, axis=0) if cl_prev else None
+    triangle_center_prev = np.mean(cl_prev.kernel_points, axis=0) if cl_prev and cl_prev.kernel_points is not None else None
 
     t0 = tic()
     ts = {}
-- 
2.43.0


From 4b2f0ffd117d1e4f570c6aba6499c3d4f7e0d19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 28/66] fix: kernel point selection for convex obstacles which
 are not StarshapedObstacle

---
 starshaped_hull/cluster_and_starify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 351243b..75e56fb 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -101,7 +101,7 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     # Try to use intersection of all obstacle kernels in cluster if all starshaped
     if all([o.is_starshaped() for o in cl.obstacles]):
         for o in cl.obstacles:
-            tcss_tmp = tcss_tmp.intersection(o.kernel())
+            tcss_tmp = tcss_tmp.intersection(o.polygon() if o.is_convex() else o.kernel())
     ts['kernel intersection'] = toc(t0)-list(ts.values())[-1]
     # Else, try to use union of all obstacles in cluster
     if tcss_tmp.area < 1e-6:
-- 
2.43.0


From 6ff18fbb5a41184130ab59cf61d3f920c85d8814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 29/66] fix: select kernel points in the cluster when it has
 obstacles which are not star-shaped

---
 starshaped_hull/cluster_and_starify.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 75e56fb..c09de50 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -102,6 +102,8 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     if all([o.is_starshaped() for o in cl.obstacles]):
         for o in cl.obstacles:
             tcss_tmp = tcss_tmp.intersection(o.polygon() if o.is_convex() else o.kernel())
+    else:
+        tcss_tmp = shapely.geometry.Polygon([])
     ts['kernel intersection'] = toc(t0)-list(ts.values())[-1]
     # Else, try to use union of all obstacles in cluster
     if tcss_tmp.area < 1e-6:
-- 
2.43.0


From a4c92c083d42a108daea59d06c78844b3578776a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 30/66] fix: star-shaped representation of a convex polygon
 which is not a StarshapedObstacle

---
 starshaped_hull/cluster_and_starify.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index c09de50..668d540 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -1,6 +1,6 @@
 import shapely
 import numpy as np
-from obstacles import Frame, StarshapedPrimitiveCombination, Ellipse, StarshapedPolygon
+from obstacles import Frame, StarshapedObstacle, StarshapedPrimitiveCombination, Ellipse, StarshapedPolygon
 from utils import is_ccw, is_collinear, equilateral_triangle, Cone, tic, toc, draw_shapely_polygon
 from scipy.spatial import ConvexHull
 import starshaped_hull as sh
@@ -259,7 +259,8 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
         t1 = tic()
         k_centroid = np.mean(cl.kernel_points, axis=0)
         if cluster_hull_extensions is None:
-            cl.cluster_obstacle = o
+            # Convex polygons have no reference point on their own
+            cl.cluster_obstacle = o if isinstance(o, StarshapedObstacle) else StarshapedPolygon(o.polygon(), id=o.id())
             cl.cluster_obstacle.set_xr(k_centroid, input_frame=Frame.GLOBAL)
         else:
         # Non-starshaped polygons are included in the cluster hull
-- 
2.43.0


From b4243ca25fae98b9a1de92b60abaec74314ffba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 31/66] fix: incomplete result when the admissible kernel of a
 single obstacle is empty

---
 starshaped_hull/cluster_and_starify.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 668d540..56105c9 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -244,6 +244,11 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
         cl.admissible_kernel = adm_ker_robot_cones[o.id()].intersection(adm_ker_goal_cones[o.id()])
         kernel_time[0] += toc(t1)
 
+        if cl.admissible_kernel.is_empty or cl.admissible_kernel.area < 1e-6:
+            if verbose:
+                print("[Cluster and Starify]: Could not find disjoint starshaped obstacles. Admissible kernel empty for the obstacle " + cl.name)
+            return default_result()
+
         t1 = tic()
         cl_prev = extract_cluster(cl, previous_clusters)
         # if cl_prev is None:
-- 
2.43.0


From e6b95e7555f24bd072e8880ca76dc1f356aba582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 32/66] fix: exclude_obstacles with ellipses and with extreme
 points enclosed by the obstacle

---
 obstacles/ellipse.py                   | 4 ++++
 starshaped_hull/cluster_and_starify.py | 9 +++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index b0fb990..5146aba 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -210,6 +210,10 @@ class Ellipse(StarshapedObstacle):
 
         return [tp1, tp2]
 
+    def extreme_points(self, frame=Frame.GLOBAL):
+        vertices = np.asarray(self.polygon(frame).exterior.coords)[:-1, :]
+        return [vertices[i] for i in range(vertices.shape[0])]
+
     # def area(self):
     #     return self._area
 
diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 56105c9..82ce22f 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -222,10 +222,11 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
                 if not all([o.exterior_point(x_ex) for x_ex in o_x_exclude]):
                     adm_ker_obstacles[o.id()][o_ex.id()] = None
                     continue
-                adm_ker_obstacles[o.id()][o_ex.id()] = sh.admissible_kernel(o, o_x_exclude[0]).polygon()
-                for v in o_x_exclude[1:]:
-                    adm_ker_obstacles[o.id()][o_ex.id()] = adm_ker_obstacles[o.id()][o_ex.id()].intersection(
-                        sh.admissible_kernel(o, v).polygon())
+                adm_ker_o_ex = [sh.admissible_kernel(o, v) for v in o_x_exclude]
+                if any([ak is None for ak in adm_ker_o_ex]):
+                    adm_ker_obstacles[o.id()][o_ex.id()] = None
+                    continue
+                adm_ker_obstacles[o.id()][o_ex.id()] = Cone.list_intersection(adm_ker_o_ex)
     init_kernel_time = toc(t0)
 
     # -- First iteration -- #
-- 
2.43.0


From 27ee596a969079570814c6aca8313d6409ba47a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:55 +0000
Subject: [PATCH 33/66] fix: star-shaped hull of non-convex polygons

The vertex walk lost parts of the hull (result not star-shaped or not valid)
when kernel points are outside of the polygon or vertices are collinear with
kernel points. Build it from its definition as the union of the convex hulls
of the kernel points and each edge.
---
 starshaped_hull/starshaped_hull.py | 173 ++---------------------------
 1 file changed, 11 insertions(+), 162 deletions(-)

diff --git a/starshaped_hull/starshaped_hull.py b/starshaped_hull/starshaped_hull.py
index 8fde482..aa73001 100644
--- a/starshaped_hull/starshaped_hull.py
+++ b/starshaped_hull/starshaped_hull.py
@@ -1,8 +1,7 @@
 import shapely
 import numpy as np
 from obstacles import Polygon
-from utils import is_ccw, is_cw, line, ray, Cone, convex_hull
-import matplotlib.pyplot as plt
+from utils import Cone, convex_hull
 
 
 def admissible_kernel(obstacle, x):
@@ -45,163 +44,13 @@ def convex_kernel_starshaped_hull(convex_obstacle, kernel_points):
     return shapely.geometry.Polygon(pol)
 
 
-# TODO: Improve computational consideration
-def polygon_kernel_starshaped_hull(polygon, kernel_points, debug=0):
-    kernel_points = kernel_points.reshape((kernel_points.size//2, 2))
-
-    if kernel_points.shape[0] > 2:
-        # NOTE: Assumes kernel points convex
-        # convex_kernel_subset = shapely.geometry.Polygon(kernel_points[ConvexHull(kernel_points).vertices, :])
-        convex_kernel_subset = shapely.geometry.Polygon(kernel_points)
-
-    # polygon_sh = polygon.polygon()  # Shapely represenation of polygon
-    # vertices = np.asarray(polygon_sh.exterior.coords)[:-1, :]  # Vertices of polygon
-    vertices = np.asarray(polygon.exterior.coords)[:-1, :]  # Vertices of polygon
-    star_vertices = []  # Vertices of starshaped hull polygon
-    v_bar = kernel_points[0].copy() # Last vertex of starshaped hull polygon
-    e1_idx = 0
-    e2_idx = 0
-    k_centroid = np.mean(kernel_points, axis=0)
-    k_included = [False] * kernel_points.shape[0]
-
-    # Arrange vertices such that v_1 is the one with largest x-value and vendv1v2 is CCW, (assumes no collinear vertices in P)
-    start_idx = np.argmax(vertices[:, 0])
-    vertices = np.roll(vertices, -start_idx, axis=0)
-    if is_cw(vertices[-1], vertices[0], vertices[1]):
-        vertices = np.flip(vertices, axis=0)
-        vertices = np.roll(vertices, 1, axis=0)
-    # print("Initial sort: {:.1f}".format(toc(t0)))
-
-    # Iterate through all vertices
-    for v_idx, v in enumerate(vertices):
-        adjust_e1 = False
-        # Check if no ray r(v,kv) intersects with interior of polygon
-        if all([ray(v, k, v).disjoint(polygon) for k in kernel_points]):
-            # Add current vertex
-            if kernel_points.shape[0] < 3 or not convex_kernel_subset.contains(shapely.geometry.Point(v)):
-                star_vertices += [v]
-            if star_vertices:
-                # Intersections of lines l(k,v) and l(e1,e2)
-                e1, e2 = star_vertices[e1_idx], star_vertices[e2_idx]
-                e1_e2 = line(e1, e2)
-
-                for k in kernel_points:
-                    kv_e1e2_intersect = line(k,v).intersection(e1_e2)
-                    # Adjust to closest intersection to e2
-                    if not kv_e1e2_intersect.is_empty:
-                        adjust_e1 = True
-                        e1_candidate = np.array([kv_e1e2_intersect.x, kv_e1e2_intersect.y])
-                        if np.linalg.norm(e2 - e1_candidate) < np.linalg.norm(e2 - star_vertices[e1_idx]):
-                            star_vertices[e1_idx] = e1_candidate
-
-            if not adjust_e1:
-                for k_idx, k in enumerate(kernel_points):
-                    kps = [kp for kp in kernel_points if not np.array_equal(kp, k)]
-                    kv_P_intersect = line(k, v).intersection(polygon)
-
-                    # If l(k,v) intersects interior of P
-                    if not kv_P_intersect.is_empty:
-                        # Find last intersection of l(k,v) and polygon boundary
-                        if kv_P_intersect.geom_type == 'LineString':
-                            intersection_points = [np.array([ip[0], ip[1]]) for ip in kv_P_intersect.coords]
-                        elif kv_P_intersect.geom_type == 'MultiLineString':
-                            intersection_points = [np.array([ip[0], ip[1]]) for l in kv_P_intersect.geoms for ip in
-                                                   l.coords]
-                        elif kv_P_intersect.geom_type == 'GeometryCollection':
-                            intersection_points = []
-                            for g in kv_P_intersect.geoms:
-                                if g.geom_type == 'Point':
-                                    intersection_points += [np.array(g.coords[0])]
-                                if kv_P_intersect.geom_type == 'LineString':
-                                    intersection_points += [np.array([ip[0], ip[1]]) for ip in g.coords]
-                        else:
-                            intersection_points = []
-
-                        u = None
-                        u_v = None
-                        for u_candidate in intersection_points:
-                            u_v = line(u_candidate, v)
-                            if u_v.disjoint(polygon):
-                                u = u_candidate
-                                break
-                        if u is None:
-                            continue
-
-                        # If no ray r(u,k'v) intersect with interior of polygon
-                        if not any([ray(u, kp, v).intersects(polygon) for kp in kps]):
-                            # Adjust u if l(k',v_bar) intersects l(u,v)
-                            for kp in kps:
-                                kpvb_uv_intersect = line(kp, v_bar).intersection(u_v)
-                                if not kpvb_uv_intersect.is_empty:
-                                    u = np.array([kpvb_uv_intersect.x, kpvb_uv_intersect.y])
-                            # Append u to P*
-                            star_vertices += [u]
-                            # Update last augmented edge
-                            e1_idx, e2_idx = len(star_vertices)-1, len(star_vertices)-2
-                            # Swap last vertices if not CCW
-                            if is_ccw(u, v, vertices[v_idx-1]):
-                            # if is_ccw(v_bar, v, u):
-                            # if is_cw(k_centroid, v, u):
-                                star_vertices[-2], star_vertices[-1] = star_vertices[-1], star_vertices[-2]
-                                e1_idx, e2_idx = e2_idx, e1_idx
-                            adjust_e1 = True
-                    else:
-                        # Check if no ray r(k,k'v) intersect with interior of polygon
-                        if (not k_included[k_idx]) and (not any([ray(k, kp, v).intersects(polygon) for kp in kps])):
-                            k_included[k_idx] = True
-                            # Append k to P*
-                            star_vertices += [k]
-                            # Update last augmented edge
-                            e1_idx, e2_idx = len(star_vertices)-1, len(star_vertices)-2
-                            # Swap last vertices if not CCW
-                            if is_ccw(k, v, vertices[v_idx-1]):
-                            # if is_cw(k_centroid, v, k):
-                                star_vertices[-2], star_vertices[-1] = star_vertices[-1], star_vertices[-2]
-                                e1_idx, e2_idx = e2_idx, e1_idx
-                            adjust_e1 = True
-            # Update v_bar
-            v_bar = star_vertices[-1]
-
-            # Visualize debug information
-            if debug == 1:
-                plt.plot(*k_centroid, 'ko')
-                plt.plot(*polygon.exterior.xy, 'k')
-                plt.plot([p[0] for p in star_vertices], [p[1] for p in star_vertices], 'g-o', linewidth=2)
-                [plt.plot(*k, 'kx') for k in kernel_points]
-                [plt.plot(*line(k,v).xy, 'k--') for k in kernel_points]
-                if adjust_e1:
-                    plt.plot(*star_vertices[e1_idx], 'ys')
-                plt.show()
-
-    # Check not added kernel points if they should be included
-    for j in range(len(star_vertices)):
-        v, vp = star_vertices[j - 1], star_vertices[j]
-        for k_idx, k in enumerate(kernel_points):
-            if (not k_included[k_idx]) and is_cw(k, v, vp):
-                k_included[k_idx] = True
-                # Insert k
-                star_vertices = star_vertices[:j] + [k] + star_vertices[j:]
-                # Visualize debug information
-                if debug == 1:
-                    plt.plot(*k_centroid, 'ko')
-                    plt.plot(*polygon.exterior.xy, 'k')
-                    plt.plot([p[0] for p in star_vertices], [p[1] for p in star_vertices], 'g-o', linewidth=2)
-                    [plt.plot(*ki, 'kx') for ki in kernel_points]
-                    plt.plot(*line(k, v).xy, 'r--*')
-                    plt.plot(*line(k, vp).xy, 'r--*')
-                    plt.plot(*k, 'go')
-                    plt.show()
-    # print("Final kernel check: {:.1f}".format(toc(t0)))
-
-    if debug:
-        ax = plt.gca()
-        ax.plot(*polygon.exterior.xy, 'k')
-        ax.plot([p[0] for p in star_vertices] + [star_vertices[0][0]],
-                [p[1] for p in star_vertices] + [star_vertices[0][1]], 'g-o', linewidth=2)
-        # [ax.plot(star_vertices[i][0], star_vertices[i][1], 'r*') for i in augmented_vertex_idcs]
-        [ax.plot(*zip(k, sv), 'y--') for sv in star_vertices for k in kernel_points]
-        ax.plot(*k_centroid, 'bs')
-        plt.show()
-
-    return shapely.geometry.Polygon(star_vertices)
-
+# The hull is the union of all line segments from the convex hull of the kernel points to the polygon, i.e. the union of
+# the polygon and the convex hulls of the kernel points and each of its edges
+def polygon_kernel_starshaped_hull(polygon, kernel_points):
+    kernel_points = np.reshape(kernel_points, (-1, 2))
+    vertices = np.asarray(polygon.exterior.coords)
+    edge_hulls = [shapely.geometry.MultiPoint(np.vstack((kernel_points, vertices[i:i+2]))).convex_hull
+                  for i in range(vertices.shape[0] - 1)]
+    # Edges collinear with a single kernel point yield no area
+    edge_hulls = [h for h in edge_hulls if h.geom_type == 'Polygon']
+    return shapely.ops.unary_union([polygon] + edge_hulls)
-- 
2.43.0


From 7c9b6e0db4833644f9f95613a44a1545aca290f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 34/66] fix: intersection of cones with common boundary
 directions

Cones sharing boundary directions (e.g. identical convex cones) gave an empty
intersection or, through zero width cones, the whole plane.
---
 utils/cg.py | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/utils/cg.py b/utils/cg.py
index 4dcfab2..8e511d1 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -363,25 +363,27 @@ class Cone:
             return self.polygon().intersection(other.polygon())
 
     def intersection_same_apex(self, other: 'Cone') -> List['Cone']:
-        other_dir1_in_self = self.point_in_cone(other.apex+other.dir1)
-        other_dir2_in_self = self.point_in_cone(other.apex+other.dir2)
-        self_dir1_in_other = other.point_in_cone(self.apex+self.dir1)
-
-        if other_dir1_in_self and other_dir2_in_self:
-            # Check several cones
-            if self_dir1_in_other:
-                return [Cone(self.apex, self.dir1, other.dir2),
-                        Cone(self.apex, other.dir1, self.dir2)]
-            else:
-                return [other]
-        elif other_dir1_in_self:
-            return [Cone(self.apex, other.dir1, self.dir2)]
-        elif other_dir2_in_self:
-            return [Cone(self.apex, self.dir1, other.dir2)]
-        elif self_dir1_in_other:
-            return [self]
+        # Angle from self.dir1 in [0, 2*pi)
+        def angle(d):
+            a = np.arctan2(self.dir1[0]*d[1] - self.dir1[1]*d[0], self.dir1[0]*d[0] + self.dir1[1]*d[1]) % (2*np.pi)
+            return 0. if 2*np.pi - a < COLLINEAR_THRESHOLD else a
+
+        # Self is the arc [0, end], other is one or two arcs
+        end = angle(self.dir2) or 2*np.pi
+        start_other, end_other = angle(other.dir1), angle(other.dir2)
+        if end_other - start_other > COLLINEAR_THRESHOLD:
+            arcs = [(start_other, other.dir1, end_other, other.dir2)]
         else:
-            return []
+            arcs = [(0., self.dir1, end_other, other.dir2), (start_other, other.dir1, end, self.dir2)]
+
+        cones = []
+        for a1, d1, a2, d2 in arcs:
+            if a2 > end:
+                a2, d2 = end, self.dir2
+            # No cones without interior
+            if a2 - a1 > np.pi/2 or (a2 > a1 and is_ccw([0, 0], d1, d2)):
+                cones.append(Cone(self.apex, d1, d2))
+        return cones
 
     @staticmethod
     def list_intersection(cones: List['Cone'], same_apex=False) -> shapely.geometry.Polygon:
-- 
2.43.0


From 3980691ee7241f233fecde89b06a17de2ac749bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:36 +0000
Subject: [PATCH 35/66] fix: cone polygon when a ray leaves the bounding box
 close to a corner

The edge was selected from the direction alone, giving self-intersecting
polygons for diagonal directions with the apex off the diagonal.
---
 utils/cg.py | 54 ++++++++++++-----------------------------------------
 1 file changed, 12 insertions(+), 42 deletions(-)

diff --git a/utils/cg.py b/utils/cg.py
index 8e511d1..0cde3c2 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -294,47 +294,17 @@ class Cone:
 
     def polygon(self) -> shapely.geometry.Polygon:
 
-        angle1 = np.arctan2(self.dir1[1], self.dir1[0]) + np.pi
-        angle2 = np.arctan2(self.dir2[1], self.dir2[0]) + np.pi
-
-        if Cone.bb_corner_angles[0] <= angle1 < Cone.bb_corner_angles[1]:
-            ray1_intersection_idx = 0
-        elif  Cone.bb_corner_angles[1] <= angle1 < Cone.bb_corner_angles[2]:
-            ray1_intersection_idx = 1
-        elif  Cone.bb_corner_angles[2] <= angle1 < Cone.bb_corner_angles[3]:
-            ray1_intersection_idx = 2
-        else:
-            ray1_intersection_idx = 3
-
-        if Cone.bb_corner_angles[0] <= angle2 < Cone.bb_corner_angles[1]:
-            ray2_intersection_idx = 0
-        elif  Cone.bb_corner_angles[1] <= angle2 < Cone.bb_corner_angles[2]:
-            ray2_intersection_idx = 1
-        elif  Cone.bb_corner_angles[2] <= angle2 < Cone.bb_corner_angles[3]:
-            ray2_intersection_idx = 2
-        else:
-            ray2_intersection_idx = 3
-
-        r1_border = self.ray1.ray_intersection(Cone.bb_edges[ray1_intersection_idx])
-        r2_border = self.ray2.ray_intersection(Cone.bb_edges[ray2_intersection_idx])
-        if r1_border is None:
-            ray1_intersection_idx = (ray1_intersection_idx + 1) % 4
-            r1_border = self.ray1.ray_intersection(Cone.bb_edges[ray1_intersection_idx])
-            if r1_border is None:
-                ray1_intersection_idx = (ray1_intersection_idx + 2) % 4
-                r1_border = self.ray1.ray_intersection(Cone.bb_edges[ray1_intersection_idx])
-                if r1_border is None:
-                    print("SOMETHING WRONG!")
-        if r2_border is None:
-            ray2_intersection_idx = (ray2_intersection_idx + 1) % 4
-            r2_border = self.ray2.ray_intersection(Cone.bb_edges[ray2_intersection_idx])
-            if r2_border is None:
-                ray2_intersection_idx = (ray2_intersection_idx + 2) % 4
-                r2_border = self.ray2.ray_intersection(Cone.bb_edges[ray2_intersection_idx])
-                if r2_border is None:
-                    print("SOMETHING WRONG!")
-
-        vertices = [self.apex, r1_border.xy]
+        # Point and edge index where a ray leaves the bounding box
+        def border(direction):
+            with np.errstate(divide='ignore'):
+                t = (np.copysign(Cone.bb_width, direction) - self.apex) / direction
+            idx = (1 if direction[0] > 0 else 3) if abs(t[0]) < abs(t[1]) else (2 if direction[1] > 0 else 0)
+            return np.clip(self.apex + min(abs(t)) * direction, -Cone.bb_width, Cone.bb_width), idx
+
+        r1_border, ray1_intersection_idx = border(self.dir1)
+        r2_border, ray2_intersection_idx = border(self.dir2)
+
+        vertices = [self.apex, r1_border]
         c_idx = ray1_intersection_idx
         if not (self.is_convex and (ray1_intersection_idx == ray2_intersection_idx)):
             while True:
@@ -342,7 +312,7 @@ class Cone:
                 c_idx = (c_idx + 1) % 4
                 if c_idx == ray2_intersection_idx:
                     break
-        vertices += [r2_border.xy]
+        vertices += [r2_border]
 
         return shapely.geometry.Polygon(vertices)
 
-- 
2.43.0


From 39cfc1637990473470e4f09223c6cfb96fa271ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:17 +0000
Subject: [PATCH 36/66] fix: kernel point selection terminates when the robot
 is at the goal

---
 starshaped_hull/cluster_and_starify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 82ce22f..508c167 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -116,7 +116,7 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     if triangle_center_prev is None:
         tc, _ = shapely.ops.nearest_points(cl.admissible_kernel, tcss.centroid)
         triangle_center = np.array(tc.coords[0])
-        while is_collinear(x, xg, triangle_center):
+        while np.linalg.norm(np.subtract(x, xg)) > 1e-6 and is_collinear(x, xg, triangle_center):
             triangle_center += np.random.uniform(-1e-4, 1e-4, 2)
     # Else, use previous triangle center if still in selection set
     elif tcss.contains(shapely.geometry.Point(triangle_center_prev))\
-- 
2.43.0


From 0acaa56ffb0101d6fbad6d77fda8a1d13229c6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:17 +0000
Subject: [PATCH 37/66] fix: unions of overlapping polygons are single polygons

---
 obstacles/starshaped_primitive_combination.py | 4 ++++
 starshaped_hull/starshaped_hull.py            | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index 51770fe..878dcd9 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -230,3 +230,7 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
         if self._hull_cluster is not None:
             obs_pol += [self._hull_cluster]
         self._polygon = shapely.ops.unary_union(obs_pol)
+        # The union of overlapping polygons may come as a collection with a single polygon
+        if self._polygon.geom_type == 'MultiPolygon' and len(self._polygon.geoms) == 1:
+            self._polygon = self._polygon.geoms[0]
+
diff --git a/starshaped_hull/starshaped_hull.py b/starshaped_hull/starshaped_hull.py
index aa73001..941693d 100644
--- a/starshaped_hull/starshaped_hull.py
+++ b/starshaped_hull/starshaped_hull.py
@@ -28,6 +28,9 @@ def kernel_starshaped_hull(obstacles, kernel_points):
     hull_polygon = shapely.ops.unary_union(sub_pols)
     if hull_polygon.is_empty:
         return None
+    # The union of overlapping polygons may come as a collection with a single polygon
+    if hull_polygon.geom_type == 'MultiPolygon' and len(hull_polygon.geoms) == 1:
+        hull_polygon = hull_polygon.geoms[0]
     return hull_polygon
 
 
-- 
2.43.0


From b5bfa7523b02c85ff78e6613f03905c121987ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:16 +0000
Subject: [PATCH 38/66] fix: kernel point selection faster than the clock
 resolution

---
 starshaped_hull/cluster_and_starify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 508c167..7bf1fe8 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -152,7 +152,7 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     triangle_length = min(epsilon, 0.9 * dist)
     kernel_points = equilateral_triangle(triangle_center, triangle_length)
     ts['triangle generation'] = toc(t0)-list(ts.values())[-1]
-    tot_time = sum(ts.values())
+    tot_time = sum(ts.values()) or 1.
     for k in ts.keys():
         ts[k] = int(ts[k] / tot_time * 100)
     # print(ts)
-- 
2.43.0


From c1d883c44b0a68db381e152de5324befaba3848d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:16 +0000
Subject: [PATCH 39/66] fix: kernel selection from intersections with isolated
 points and lines

---
 starshaped_hull/cluster_and_starify.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 7bf1fe8..c8b510f 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -83,6 +83,13 @@ def get_intersection_clusters(clusters):
     return new_clusters, intersections_exist
 
 
+# Intersections may contain points and lines in addition to polygons
+def polygonal_part(geometry):
+    if geometry.geom_type == 'GeometryCollection':
+        return shapely.ops.unary_union([g for g in geometry.geoms if g.geom_type in ('Polygon', 'MultiPolygon')])
+    return geometry
+
+
 def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     triangle_center_prev = np.mean(cl_prev.kernel_points, axis=0) if cl_prev and cl_prev.kernel_points is not None else None
 
@@ -93,15 +100,15 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     # If obstacle is in exterior of workspace limit TCSS to workspace exterior
     if not cl.polygon_excluding_hull().within(workspace.polygon()):
         tcss_tmp = tcss.difference(workspace.polygon())
-        tcss_tmp = tcss_tmp.intersection(cl.polygon_excluding_hull()) # NOTE: Added for exlcluding undesired extremas in other workspace exterior than close to obstacles
+        tcss_tmp = polygonal_part(tcss_tmp).intersection(cl.polygon_excluding_hull()) # NOTE: Added for exlcluding undesired extremas in other workspace exterior than close to obstacles
         if tcss_tmp.area > 1e-6:
-            tcss = tcss_tmp
+            tcss = polygonal_part(tcss_tmp)
     tcss_tmp = tcss
     ts['ws check'] = toc(t0)
     # Try to use intersection of all obstacle kernels in cluster if all starshaped
     if all([o.is_starshaped() for o in cl.obstacles]):
         for o in cl.obstacles:
-            tcss_tmp = tcss_tmp.intersection(o.polygon() if o.is_convex() else o.kernel())
+            tcss_tmp = polygonal_part(tcss_tmp.intersection(o.polygon() if o.is_convex() else o.kernel()))
     else:
         tcss_tmp = shapely.geometry.Polygon([])
     ts['kernel intersection'] = toc(t0)-list(ts.values())[-1]
@@ -110,7 +117,7 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
         tcss_tmp = tcss.intersection(cl.polygon_excluding_hull())
     ts['cluster intersection'] = toc(t0)-list(ts.values())[-1]
     if tcss_tmp.area > 1e-6:
-        tcss = tcss_tmp
+        tcss = polygonal_part(tcss_tmp)
 
     # If not tc from previous iteraion, use closest point to TCSS in ad ker as triangle center
     if triangle_center_prev is None:
@@ -226,7 +233,10 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
                 if any([ak is None for ak in adm_ker_o_ex]):
                     adm_ker_obstacles[o.id()][o_ex.id()] = None
                     continue
-                adm_ker_obstacles[o.id()][o_ex.id()] = Cone.list_intersection(adm_ker_o_ex)
+                adm_ker_obstacles[o.id()][o_ex.id()] = adm_ker_o_ex[0].polygon()
+                for ak in adm_ker_o_ex[1:]:
+                    adm_ker_obstacles[o.id()][o_ex.id()] = polygonal_part(
+                        adm_ker_obstacles[o.id()][o_ex.id()].intersection(ak.polygon()))
     init_kernel_time = toc(t0)
 
     # -- First iteration -- #
@@ -242,7 +252,7 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
 
         # New---
         t1 = tic()
-        cl.admissible_kernel = adm_ker_robot_cones[o.id()].intersection(adm_ker_goal_cones[o.id()])
+        cl.admissible_kernel = polygonal_part(adm_ker_robot_cones[o.id()].intersection(adm_ker_goal_cones[o.id()]))
         kernel_time[0] += toc(t1)
 
         if cl.admissible_kernel.is_empty or cl.admissible_kernel.area < 1e-6:
@@ -355,7 +365,7 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
             # else:
             adm_ker_robot = Cone.list_intersection([adm_ker_robot_cones[o.id()] for o in cl.obstacles], same_apex=True)
             adm_ker_goal = Cone.list_intersection([adm_ker_goal_cones[o.id()] for o in cl.obstacles], same_apex=True)
-            cl.admissible_kernel = adm_ker_robot.intersection(adm_ker_goal)
+            cl.admissible_kernel = polygonal_part(adm_ker_robot.intersection(adm_ker_goal))
 
             if cl.admissible_kernel.is_empty or cl.admissible_kernel.area < 1e-6:
                 if verbose:
@@ -370,7 +380,7 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
                     for o_ex in obstacles:
                         if o_ex.id() == o.id() or adm_ker_obstacles[o.id()][o_ex.id()] is None:
                             continue
-                        adm_ker_o_ex = adm_ker_o_ex.intersection(adm_ker_obstacles[o.id()][o_ex.id()])
+                        adm_ker_o_ex = polygonal_part(adm_ker_o_ex.intersection(adm_ker_obstacles[o.id()][o_ex.id()]))
                 if not (adm_ker_o_ex.is_empty or adm_ker_o_ex.area < 1e-6):
                     cl.admissible_kernel = adm_ker_o_ex
 
-- 
2.43.0


From 6d80a15ca25e21342ee4ceedffcb715afa4b85f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:58 +0000
Subject: [PATCH 40/66] fix: no admissible kernel for a point at a vertex of
 the obstacle

---
 starshaped_hull/starshaped_hull.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starshaped_hull/starshaped_hull.py b/starshaped_hull/starshaped_hull.py
index 941693d..90f5dfa 100644
--- a/starshaped_hull/starshaped_hull.py
+++ b/starshaped_hull/starshaped_hull.py
@@ -10,6 +10,9 @@ def admissible_kernel(obstacle, x):
     if not tps:
         # Interior point
         return None
+    if any(np.linalg.norm(np.subtract(x, tp)) < 1e-10 for tp in tps):
+        # Boundary point
+        return None
     return Cone(x, x-tps[0], x-tps[1])
 
 
-- 
2.43.0


From 42a98f825dd102432bd4ab1898861edc2035a702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:58 +0000
Subject: [PATCH 41/66] fix: select the kernel points in the interior of the
 selection set

The centroid of a non-convex selection set may be outside of it or on its
boundary, giving degenerate kernel triangles or kernel points outside of the
admissible kernel.
---
 starshaped_hull/cluster_and_starify.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index c8b510f..e197543 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -90,6 +90,14 @@ def polygonal_part(geometry):
     return geometry
 
 
+# Centroid if it is an interior point
+def interior_point(polygon):
+    point = polygon.centroid
+    if not polygon.contains(point):
+        point = polygon.representative_point()
+    return np.array(point.coords[0])
+
+
 def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     triangle_center_prev = np.mean(cl_prev.kernel_points, axis=0) if cl_prev and cl_prev.kernel_points is not None else None
 
@@ -119,10 +127,9 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     if tcss_tmp.area > 1e-6:
         tcss = polygonal_part(tcss_tmp)
 
-    # If not tc from previous iteraion, use closest point to TCSS in ad ker as triangle center
+    # If not tc from previous iteraion, use center of TCSS as triangle center
     if triangle_center_prev is None:
-        tc, _ = shapely.ops.nearest_points(cl.admissible_kernel, tcss.centroid)
-        triangle_center = np.array(tc.coords[0])
+        triangle_center = interior_point(tcss)
         while np.linalg.norm(np.subtract(x, xg)) > 1e-6 and is_collinear(x, xg, triangle_center):
             triangle_center += np.random.uniform(-1e-4, 1e-4, 2)
     # Else, use previous triangle center if still in selection set
@@ -139,8 +146,7 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
                 if is_ccw(x, xg, splitted_tcss[i].centroid.coords[0]) == is_ccw(x, xg, triangle_center_prev):
                     triangle_center_selection_set = splitted_tcss[i]
                     break
-        tc, _ = shapely.ops.nearest_points(cl.admissible_kernel, triangle_center_selection_set.centroid)
-        triangle_center = np.array(tc.coords[0])
+        triangle_center = interior_point(triangle_center_selection_set)
 
     ts['tc selection'] = toc(t0)-list(ts.values())[-1]
 
@@ -151,11 +157,7 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
     #     [h.remove() for h in hs]
 
     # Select kernel points as largest equilateral triangle in TCSS (with maximum side length epsilon)
-    if tcss.geom_type == 'Polygon':
-        dist = tcss.exterior.distance(shapely.geometry.Point(triangle_center))
-    else:
-        tc = shapely.geometry.Point(triangle_center)
-        dist = min([p.exterior.distance(tc) for p in tcss.geoms])
+    dist = tcss.boundary.distance(shapely.geometry.Point(triangle_center))
     triangle_length = min(epsilon, 0.9 * dist)
     kernel_points = equilateral_triangle(triangle_center, triangle_length)
     ts['triangle generation'] = toc(t0)-list(ts.values())[-1]
-- 
2.43.0


From 9a4f0179f3fe268b522326941e880a777262c2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 42/66] fix: tangent lines touch an ellipse only if the tangent
 point is on the segment

---
 obstacles/ellipse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index 5146aba..1ce692a 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -148,6 +148,8 @@ class Ellipse(StarshapedObstacle):
             return []
         elif discriminant == 0:
             tmp_x = -kx / (2 * kx2)
+            if not l_left_obstacle[0] <= tmp_x <= l_right_obstacle[0]:
+                return []
             x_intersect_obstacle = np.array([tmp_x, m * tmp_x + c])
             return [self.transform(x_intersect_obstacle, Frame.OBSTACLE, output_frame)]
         else:
-- 
2.43.0


From 6e731a0f7fa4be65831ef7512fd6384f0849861b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:52 +0000
Subject: [PATCH 43/66] fix: vertex order of a star-shaped polygon with the
 reference point on the boundary of its kernel

---
 obstacles/starshaped_polygon.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index 6c58c77..d81ed20 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -175,10 +175,17 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
             line_handles[2].set_data(*self.xr(frame))
 
     def _update_vertex_angles(self):
-        self.vertex_angles = np.arctan2(self.vertices[:, 1] - self._xr[1], self.vertices[:, 0] - self._xr[0])
-        idcs = np.argsort(self.vertex_angles)
-        self.vertex_angles = self.vertex_angles[idcs]
-        self.vertices = self.vertices[idcs, :]
+        # Counter-clockwise boundary order, starting at the smallest angle. Vertices may have equal angles, or be at the
+        # reference point, when the reference point is on the boundary of the kernel.
+        vertices = np.asarray(shapely.ops.orient(self._polygon).exterior.coords)[:-1, :]
+        angles = np.arctan2(vertices[:, 1] - self._xr[1], vertices[:, 0] - self._xr[0])
+        for i in np.tile(np.flatnonzero((vertices == self._xr).all(axis=1)), 2):
+            angles[i] = angles[i-1]
+        start = np.argmin(angles)
+        angle_diffs = np.diff(np.roll(angles, -start)) % (2 * np.pi)
+        angle_diffs[angle_diffs > 2 * np.pi - 1e-9] = 0
+        self.vertex_angles = angles[start] + np.hstack((0, np.cumsum(angle_diffs)))
+        self.vertices = np.roll(vertices, -start, axis=0)
         self.circular_vertices = np.vstack((self.vertices, self.vertices[0, :]))
         self.vertex_angles = np.hstack((self.vertex_angles, self.vertex_angles[0] + 2 * np.pi))
 
-- 
2.43.0


From 2c3d543323fab0c508d9b665946980d26a917908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:17 +0000
Subject: [PATCH 44/66] fix: no admissible kernel for points on the boundary of
 an obstacle, wherever it is

---
 starshaped_hull/starshaped_hull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starshaped_hull/starshaped_hull.py b/starshaped_hull/starshaped_hull.py
index 90f5dfa..4424afe 100644
--- a/starshaped_hull/starshaped_hull.py
+++ b/starshaped_hull/starshaped_hull.py
@@ -10,7 +10,7 @@ def admissible_kernel(obstacle, x):
     if not tps:
         # Interior point
         return None
-    if any(np.linalg.norm(np.subtract(x, tp)) < 1e-10 for tp in tps):
+    if obstacle.point_location(x) < 1e-10 or obstacle.polygon().distance(shapely.geometry.Point(x)) < 1e-10:
         # Boundary point
         return None
     return Cone(x, x-tps[0], x-tps[1])
-- 
2.43.0


From 9239ece33545a0fc099fe288196e16117be77d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:37 +0000
Subject: [PATCH 45/66] fix: kernel triangle centre keeps some distance to the
 boundary of its selection set

---
 starshaped_hull/cluster_and_starify.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index e197543..77d9f99 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -90,10 +90,15 @@ def polygonal_part(geometry):
     return geometry
 
 
+# Interior point with some distance to the boundary
+def has_interior_point(polygon, point):
+    return polygon.contains(point) and polygon.boundary.distance(point) > 1e-6
+
+
 # Centroid if it is an interior point
 def interior_point(polygon):
     point = polygon.centroid
-    if not polygon.contains(point):
+    if not has_interior_point(polygon, point):
         point = polygon.representative_point()
     return np.array(point.coords[0])
 
@@ -133,7 +138,7 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
         while np.linalg.norm(np.subtract(x, xg)) > 1e-6 and is_collinear(x, xg, triangle_center):
             triangle_center += np.random.uniform(-1e-4, 1e-4, 2)
     # Else, use previous triangle center if still in selection set
-    elif tcss.contains(shapely.geometry.Point(triangle_center_prev))\
+    elif has_interior_point(tcss, shapely.geometry.Point(triangle_center_prev))\
             and not is_collinear(x, xg, triangle_center_prev):
         triangle_center = triangle_center_prev
     # Else, try to maintain triangle center on same side of l(x,xg) as previous time step
-- 
2.43.0


From 195c71f17525f1db8a5dfad6ebb6c8e39955fba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:06 +0000
Subject: [PATCH 46/66] fix: interior point of a selection set with spurious
 boundary parts is the one furthest from the boundary

---
 starshaped_hull/cluster_and_starify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 77d9f99..345eca6 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -95,11 +95,11 @@ def has_interior_point(polygon, point):
     return polygon.contains(point) and polygon.boundary.distance(point) > 1e-6
 
 
-# Centroid if it is an interior point
+# Centroid if it is an interior point, otherwise the interior point furthest from the boundary
 def interior_point(polygon):
     point = polygon.centroid
     if not has_interior_point(polygon, point):
-        point = polygon.representative_point()
+        point = shapely.get_point(shapely.maximum_inscribed_circle(polygon), 0)
     return np.array(point.coords[0])
 
 
-- 
2.43.0


From 34152400e6e6a1dfe281ffa7114613f3990b924d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:06 +0000
Subject: [PATCH 47/66] fix: cluster of the same obstacles has the same name
 whatever the order they have been merged in

---
 starshaped_hull/cluster_and_starify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 345eca6..95fe0fa 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -9,7 +9,8 @@ import matplotlib.pyplot as plt
 
 class ObstacleCluster:
     def __init__(self, obstacles):
-        self.name = '_'.join([str(o.id()) for o in obstacles])
+        # Independent of the order in which the obstacles have been merged
+        self.name = '_'.join(sorted([str(o.id()) for o in obstacles]))
         self.obstacles = obstacles
         self.cluster_obstacle = None if len(obstacles) > 1 else obstacles[0]
         self.kernel_points = None
-- 
2.43.0


From 2b0dee60e5a1d43625534285f8629abed9a75c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:06 +0000
Subject: [PATCH 48/66] fix: previous kernel triangle centre is kept with the
 robot at the goal

---
 starshaped_hull/cluster_and_starify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 95fe0fa..4a3d4e7 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -140,7 +140,7 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
             triangle_center += np.random.uniform(-1e-4, 1e-4, 2)
     # Else, use previous triangle center if still in selection set
     elif has_interior_point(tcss, shapely.geometry.Point(triangle_center_prev))\
-            and not is_collinear(x, xg, triangle_center_prev):
+            and (np.linalg.norm(np.subtract(x, xg)) <= 1e-6 or not is_collinear(x, xg, triangle_center_prev)):
         triangle_center = triangle_center_prev
     # Else, try to maintain triangle center on same side of l(x,xg) as previous time step
     else:
-- 
2.43.0


From 062719e6b210bc191e5d4dc676b6c1a0c8c4d12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:44 +0000
Subject: [PATCH 49/66] fix: no gaps of polygon approximations as holes in a
 combined obstacle

---
 obstacles/starshaped_primitive_combination.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index 878dcd9..18285d4 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -233,4 +233,7 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
         # The union of overlapping polygons may come as a collection with a single polygon
         if self._polygon.geom_type == 'MultiPolygon' and len(self._polygon.geoms) == 1:
             self._polygon = self._polygon.geoms[0]
+        # A starshaped region has no holes, but polygon approximations may leave gaps to the hull
+        if self._polygon.geom_type == 'Polygon':
+            self._polygon = shapely.geometry.Polygon(self._polygon.exterior)
 
-- 
2.43.0


From 77f987be623fb4512d7d1eaf2b48ecad5941049c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:20 +0000
Subject: [PATCH 50/66] fix: convexity of polygons with almost repeated
 vertices

---
 obstacles/polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/polygon.py b/obstacles/polygon.py
index ed7c1f5..d66fa05 100644
--- a/obstacles/polygon.py
+++ b/obstacles/polygon.py
@@ -140,7 +140,7 @@ class Polygon(Obstacle):
     # ------------ Private methods ------------ #
     def _check_convexity(self):
         v = np.asarray(self._polygon.exterior.coords)[:-1, :]
-        v = v[np.any(v != np.roll(v, 1, axis=0), axis=1), :]  # Repeated vertices
+        v = v[np.linalg.norm(v - np.roll(v, 1, axis=0), axis=1) > 1e-10, :]  # Repeated vertices
         i = 0
         N = v.shape[0]
         # Make sure first vertice is not collinear
-- 
2.43.0


From 1f1115eeeed18c0893bcd4ce38f45037e25885c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:11 +0000
Subject: [PATCH 51/66] fix: kernel triangle centre stays on its side of the
 line from robot to goal wherever the line cuts the selection set

---
 starshaped_hull/cluster_and_starify.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 4a3d4e7..088900b 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -91,6 +91,13 @@ def polygonal_part(geometry):
     return geometry
 
 
+# Points to the left, or right, of the line from a to b
+def half_plane(a, b, left):
+    d = 4 * Cone.bb_width * np.subtract(b, a) / np.linalg.norm(np.subtract(b, a))
+    n = np.array([-d[1], d[0]]) if left else np.array([d[1], -d[0]])
+    return shapely.geometry.Polygon([a - d, a + d, a + d + n, a - d + n])
+
+
 # Interior point with some distance to the boundary
 def has_interior_point(polygon, point):
     return polygon.contains(point) and polygon.boundary.distance(point) > 1e-6
@@ -144,14 +151,11 @@ def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
         triangle_center = triangle_center_prev
     # Else, try to maintain triangle center on same side of l(x,xg) as previous time step
     else:
-        x_xg_line = shapely.geometry.LineString([x, xg])
-        splitted_tcss = shapely.ops.split(tcss, x_xg_line).geoms
-        triangle_center_selection_set = splitted_tcss[0]
-        if len(splitted_tcss) > 1:
-            for i in range(1, len(splitted_tcss)):
-                if is_ccw(x, xg, splitted_tcss[i].centroid.coords[0]) == is_ccw(x, xg, triangle_center_prev):
-                    triangle_center_selection_set = splitted_tcss[i]
-                    break
+        triangle_center_selection_set = tcss
+        if np.linalg.norm(np.subtract(x, xg)) > 1e-6:
+            tcss_tmp = polygonal_part(tcss.intersection(half_plane(x, xg, is_ccw(x, xg, triangle_center_prev))))
+            if tcss_tmp.area > 1e-6:
+                triangle_center_selection_set = tcss_tmp
         triangle_center = interior_point(triangle_center_selection_set)
 
     ts['tc selection'] = toc(t0)-list(ts.values())[-1]
-- 
2.43.0


From 9bf409b2c0f582fe1e2646419a862055e708df95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:29 +0000
Subject: [PATCH 52/66] fix: union of polygons with almost coinciding edges
 loses no part

---
 obstacles/starshaped_primitive_combination.py | 4 ++--
 starshaped_hull/cluster_and_starify.py        | 4 ++--
 starshaped_hull/starshaped_hull.py            | 6 +++---
 utils/cg.py                                   | 5 +++++
 4 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index 18285d4..130a782 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -1,7 +1,7 @@
 import shapely
 import numpy as np
 from obstacles import Frame, StarshapedObstacle, StarshapedPolygon
-from utils import is_ccw, is_cw, draw_shapely_polygon
+from utils import is_ccw, is_cw, draw_shapely_polygon, polygon_union
 import matplotlib.pyplot as plt
 
 # Note: Local == Global frame
@@ -229,7 +229,7 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
         obs_pol = [obs.polygon() for obs in self._obstacle_cluster]
         if self._hull_cluster is not None:
             obs_pol += [self._hull_cluster]
-        self._polygon = shapely.ops.unary_union(obs_pol)
+        self._polygon = polygon_union(obs_pol)
         # The union of overlapping polygons may come as a collection with a single polygon
         if self._polygon.geom_type == 'MultiPolygon' and len(self._polygon.geoms) == 1:
             self._polygon = self._polygon.geoms[0]
diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 088900b..bb1b4ef 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -1,7 +1,7 @@
 import shapely
 import numpy as np
 from obstacles import Frame, StarshapedObstacle, StarshapedPrimitiveCombination, Ellipse, StarshapedPolygon
-from utils import is_ccw, is_collinear, equilateral_triangle, Cone, tic, toc, draw_shapely_polygon
+from utils import is_ccw, is_collinear, equilateral_triangle, Cone, tic, toc, draw_shapely_polygon, polygon_union
 from scipy.spatial import ConvexHull
 import starshaped_hull as sh
 import matplotlib.pyplot as plt
@@ -31,7 +31,7 @@ class ObstacleCluster:
 
     def polygon_excluding_hull(self):
         if self._polygon_excluding_hull is None:
-            self._polygon_excluding_hull = shapely.ops.unary_union([o.polygon() for o in self.obstacles])
+            self._polygon_excluding_hull = polygon_union([o.polygon() for o in self.obstacles])
         return self._polygon_excluding_hull
 
     def draw(self, ax=None):
diff --git a/starshaped_hull/starshaped_hull.py b/starshaped_hull/starshaped_hull.py
index 4424afe..77ca92d 100644
--- a/starshaped_hull/starshaped_hull.py
+++ b/starshaped_hull/starshaped_hull.py
@@ -1,7 +1,7 @@
 import shapely
 import numpy as np
 from obstacles import Polygon
-from utils import Cone, convex_hull
+from utils import Cone, convex_hull, polygon_union
 
 
 def admissible_kernel(obstacle, x):
@@ -28,7 +28,7 @@ def kernel_starshaped_hull(obstacles, kernel_points):
             print(obstacles)
 
     sub_pols = [kernel_starshaped_hull(o, kernel_points) for o in obstacles]
-    hull_polygon = shapely.ops.unary_union(sub_pols)
+    hull_polygon = polygon_union(sub_pols)
     if hull_polygon.is_empty:
         return None
     # The union of overlapping polygons may come as a collection with a single polygon
@@ -59,4 +59,4 @@ def polygon_kernel_starshaped_hull(polygon, kernel_points):
                   for i in range(vertices.shape[0] - 1)]
     # Edges collinear with a single kernel point yield no area
     edge_hulls = [h for h in edge_hulls if h.geom_type == 'Polygon']
-    return shapely.ops.unary_union([polygon] + edge_hulls)
+    return polygon_union([polygon] + edge_hulls)
diff --git a/utils/cg.py b/utils/cg.py
index 0cde3c2..04a060b 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -267,6 +267,11 @@ def convex_hull(points):
     return hull
 
 
+# Union on a fine grid. The floating point union may lose entire parts of polygons with almost coinciding edges
+def polygon_union(polygons):
+    return shapely.union_all(polygons, grid_size=1e-9)
+
+
 class Cone:
     bb_width = 1e6
     bottom_right = Point(bb_width, -bb_width)
-- 
2.43.0


From 1174c91b560469423a18ca70d0470bb3582bf891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:29 +0000
Subject: [PATCH 53/66] fix: rotated equilateral triangle has the given
 centroid

---
 utils/cg.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/utils/cg.py b/utils/cg.py
index 04a060b..acaeef9 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -204,13 +204,13 @@ def get_intersection(a1, a2, b1, b2):
 
 
 def equilateral_triangle(centroid, side_length, rot=0):
-    triangle = np.array(centroid) + np.array([[0, 1 / np.sqrt(3) * side_length],
-                                               [1 / 2 * side_length, -1 / (2*np.sqrt(3)) * side_length],
-                                               [-1 / 2 * side_length, -1 / (2*np.sqrt(3)) * side_length]])
+    triangle = np.array([[0, 1 / np.sqrt(3) * side_length],
+                         [1 / 2 * side_length, -1 / (2*np.sqrt(3)) * side_length],
+                         [-1 / 2 * side_length, -1 / (2*np.sqrt(3)) * side_length]])
     if not rot:
-        return triangle
+        return np.array(centroid) + triangle
     c,s = np.cos(rot), np.sin(rot)
-    return np.array([[c * triangle[0, 0] - s * triangle[0, 1], s * triangle[0, 0] + c * triangle[0, 1]],
+    return np.array(centroid) + np.array([[c * triangle[0, 0] - s * triangle[0, 1], s * triangle[0, 0] + c * triangle[0, 1]],
                      [c * triangle[1, 0] - s * triangle[1, 1], s * triangle[1, 0] + c * triangle[1, 1]],
                      [c * triangle[2, 0] - s * triangle[2, 1], s * triangle[2, 0] + c * triangle[2, 1]]])
 
-- 
2.43.0


From b9cf8d173350649601cd3ff5e4f2eb78651e0684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:29 +0000
Subject: [PATCH 54/66] fix: convex hull of points with repetitions or
 collinear boundary points loses no extreme point

---
 utils/cg.py | 65 +++++++++++++----------------------------------------
 1 file changed, 16 insertions(+), 49 deletions(-)

diff --git a/utils/cg.py b/utils/cg.py
index acaeef9..7f7ff74 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -216,55 +216,22 @@ def equilateral_triangle(centroid, side_length, rot=0):
 
 
 def convex_hull(points):
-    n = len(points)
-
-    # Find the leftmost point
-    l = 0
-    for i in range(1, n):
-        if points[i][0] < points[l][0]:
-            l = i
-        elif points[i][0] == points[l][0]:
-            if points[i][1] > points[l][1]:
-                l = i
-
-    hull = []
-    '''
-    Start from leftmost point, keep moving counterclockwise
-    until reach the start point again. This loop runs O(h)
-    times where h is number of points in result or output.
-    '''
-    p = l
-    while (True):
-        # Add current point to result
-        hull.append([points[p][0], points[p][1]])
-
-        '''
-        Search for a point 'q' such that orientation(p, q,
-        x) is counterclockwise for all points 'x'. The idea
-        is to keep track of last visited most counterclock-
-        wise point in q. If any point 'i' is more counterclock-
-        wise than q, then update q.
-        '''
-        q = (p + 1) % n
-
-        for i in range(n):
-
-            # If i is more counterclockwise
-            # than current q, then update q
-            if is_ccw(points[p], points[i], points[q]):
-                q = i
-        '''
-        Now q is the most counterclockwise with respect to p
-        Set p as q for next iteration, so that q is added to
-        result 'hull'
-        '''
-        p = q
-
-        # While we don't come to first point
-        if p == l or np.linalg.norm(np.subtract(points[p], points[l])) < COLLINEAR_THRESHOLD:
-            break
-
-    return hull
+    # Distinct points, starting from the leftmost
+    points = sorted({(p[0], p[1]) for p in points}, key=lambda p: (p[0], -p[1]))
+    if len(points) == 1:
+        return [list(points[0])]
+
+    # Chain of left turns through sorted points, excluding the last one
+    def chain(pts):
+        c = []
+        for p in pts:
+            while len(c) > 1 and orientation_val(c[-2], c[-1], p) >= 0:
+                c.pop()
+            c.append(p)
+        return c[:-1]
+
+    # Lower chain from left to right and upper chain from right to left
+    return [list(p) for p in chain(points) + chain(points[::-1])]
 
 
 # Union on a fine grid. The floating point union may lose entire parts of polygons with almost coinciding edges
-- 
2.43.0


From d54553c96b48570813c13d334906903eb2ee8ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:59 +0000
Subject: [PATCH 55/66] fix: star-shaped hull of a convex polygon with the
 kernel point on an edge

---
 starshaped_hull/starshaped_hull.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starshaped_hull/starshaped_hull.py b/starshaped_hull/starshaped_hull.py
index 77ca92d..4c39f4e 100644
--- a/starshaped_hull/starshaped_hull.py
+++ b/starshaped_hull/starshaped_hull.py
@@ -47,6 +47,9 @@ def convex_kernel_starshaped_hull(convex_obstacle, kernel_points):
     tps = np.unique(tps,axis=0)
     ch_points = np.vstack((tps, kernel_points))
     pol = convex_hull(ch_points)
+    if len(pol) < 3:
+        # Kernel point on an edge
+        return shapely.geometry.Polygon([])
     return shapely.geometry.Polygon(pol)
 
 
-- 
2.43.0


From 5b2c980537f3951a2ba2a87cb35846c83030dc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 56/66] fix: drawing of a polygon clipped to several, or no,
 polygons

---
 utils/misc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/utils/misc.py b/utils/misc.py
index 05e09b0..10d3966 100644
--- a/utils/misc.py
+++ b/utils/misc.py
@@ -30,8 +30,11 @@ def draw_shapely_polygon(pol, ax=None, xlim=None, ylim=None, **kwargs):
             pol_plot = p.intersection(shapely.geometry.box(xlim[0] - 1, ylim[0] - 1, xlim[1] + 1, ylim[1] + 1))
         else:
             pol_plot = p
-        handles += [patches.Polygon(xy=np.vstack((pol_plot.exterior.xy[0], pol_plot.exterior.xy[1])).T, **kwargs)]
-        ax.add_patch(handles[-1])
+        # Clipping may leave no, or several, polygons, as well as points and lines
+        for part in getattr(pol_plot, 'geoms', [pol_plot]):
+            if part.geom_type == 'Polygon' and not part.is_empty:
+                handles += [patches.Polygon(xy=np.vstack((part.exterior.xy[0], part.exterior.xy[1])).T, **kwargs)]
+                ax.add_patch(handles[-1])
         if xlim is not None:
             ax.set_xlim(xlim)
         if ylim is not None:
-- 
2.43.0


From 705c2b05d1d8f8f29cf695552098786602cdd1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:33 +0000
Subject: [PATCH 57/66] fix: sub_normal of combined obstacles at the boundary
 point, also for polygons without own normal

---
 obstacles/starshaped_primitive_combination.py | 33 ++++++++-----------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index 130a782..04accc6 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -98,6 +98,7 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
                     if p_dist > max_dist:
                         max_dist = p_dist
                         boundary_obs_idx = i
+                        b = p
 
             hull_ip = self._hull_cluster_line_intersections(line)
             if hull_ip:
@@ -106,27 +107,21 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
                     if p_dist > max_dist:
                         max_dist = p_dist
                         boundary_obs_idx = len(self._obstacle_cluster)
+                        b = p
             if boundary_obs_idx < len(self._obstacle_cluster):
-                return self._obstacle_cluster[boundary_obs_idx].normal(x, input_frame=Frame.GLOBAL, output_frame=Frame.GLOBAL)
+                boundary_obs = self._obstacle_cluster[boundary_obs_idx]
+                if isinstance(boundary_obs, StarshapedObstacle):
+                    return boundary_obs.normal(b, input_frame=Frame.GLOBAL, output_frame=Frame.GLOBAL)
+                boundary_polygon = boundary_obs.polygon()
             else:
-                boundary_obs_idx -= len(self._obstacle_cluster)
-                hull_vertices = np.array(self._hull_cluster.exterior.coords[:-1])
-                vertex_angles = np.array([np.arctan2(v[1] - self._xr[1], v[0] - self._xr[0]) for v in hull_vertices]).flatten()
-                idcs = np.argsort(vertex_angles)
-                vertex_angles = vertex_angles[idcs]
-                hull_vertices = hull_vertices[idcs, :]
-                vertex_angles = np.hstack((vertex_angles, vertex_angles[0] + 2 * np.pi))
-                hull_vertices = np.vstack((hull_vertices, hull_vertices[0, :]))
-
-                angle = np.arctan2(x[1] - self._xr[1], x[0] - self._xr[0])
-                v_idx = np.argmax(vertex_angles > angle)
-                # Adjust for circular self.vertices (self.vertices[0] == self.vertices[-1])
-                if v_idx == 0:
-                    v_idx = -1
-                n = np.array([hull_vertices[v_idx, 1] - hull_vertices[v_idx - 1, 1],
-                              hull_vertices[v_idx - 1, 0] - hull_vertices[v_idx, 0]])
-                n /= np.linalg.norm(n)
-                return n
+                boundary_polygon = self._hull_cluster
+            # Normal of the (CCW) polygon edge at the boundary point
+            v = np.array(shapely.ops.orient(boundary_polygon).exterior.coords)
+            v_idx = np.argmin([shapely.geometry.LineString(v[i:i + 2]).distance(shapely.geometry.Point(b))
+                               for i in range(v.shape[0] - 1)])
+            n = np.array([v[v_idx + 1, 1] - v[v_idx, 1], v[v_idx, 0] - v[v_idx + 1, 0]])
+            n /= np.linalg.norm(n)
+            return n
         elif type == 'polygon_approx' or type == 'weigthed_polygon_approx':
             if self.vertices is None:
                 self._update_vertex_angles()
-- 
2.43.0


From a1a019a90cceaf17457d999928f7dcf771f29ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:40 +0000
Subject: [PATCH 58/66] fix: kernel of polygons with tiny edges left by
 rounding

---
 obstacles/starshaped_polygon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index d81ed20..f4f7c16 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -199,7 +199,8 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
         kernel = np.asarray(shapely.geometry.box(*self._polygon.bounds).exterior.coords)[:-1, :]
         tol = 1e-12 * max(np.ptp(v, axis=0))
         for a, b in zip(v[:-1], v[1:]):
-            if np.array_equal(a, b):
+            # Direction of edges that short is rounding
+            if np.linalg.norm(b - a) < 1e5 * tol:
                 continue
             n = np.array([a[1] - b[1], b[0] - a[0]]) / np.linalg.norm(b - a)
             # Signed distance to edge, positive to the left
-- 
2.43.0


From afa1f57b40f753227f42c39d25e345fe97acd87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:38 +0000
Subject: [PATCH 59/66] fix: combined obstacles have no boundary points where
 two of their polygons meet

---
 obstacles/starshaped_primitive_combination.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index 04accc6..444a235 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -1,6 +1,6 @@
 import shapely
 import numpy as np
-from obstacles import Frame, StarshapedObstacle, StarshapedPolygon
+from obstacles import Frame, StarshapedObstacle, StarshapedPolygon, Ellipse
 from utils import is_ccw, is_cw, draw_shapely_polygon, polygon_union
 import matplotlib.pyplot as plt
 
@@ -30,6 +30,11 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
         if any([l < 0 for l in locs]):
             # Interior point
             return -1
+        # Common boundaries of the polygons are in the interior of their union
+        if not any([isinstance(obs, Ellipse) for obs in self._obstacle_cluster]):
+            x_sh = shapely.geometry.Point(x)
+            if self.polygon().contains(x_sh) and self.polygon().exterior.distance(x_sh) > 1e-6:
+                return -1
         if any([l == 0 for l in locs]):
             # Boundary point
             return 0
-- 
2.43.0


From b1b4b5808da198817d29cad24591afa55b49fe73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:38 +0000
Subject: [PATCH 60/66] fix: convexity of polygons with tiny edges left by
 rounding

---
 obstacles/polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/polygon.py b/obstacles/polygon.py
index d66fa05..68a1946 100644
--- a/obstacles/polygon.py
+++ b/obstacles/polygon.py
@@ -140,7 +140,7 @@ class Polygon(Obstacle):
     # ------------ Private methods ------------ #
     def _check_convexity(self):
         v = np.asarray(self._polygon.exterior.coords)[:-1, :]
-        v = v[np.linalg.norm(v - np.roll(v, 1, axis=0), axis=1) > 1e-10, :]  # Repeated vertices
+        v = v[np.linalg.norm(v - np.roll(v, 1, axis=0), axis=1) > 1e-8, :]  # Repeated vertices
         i = 0
         N = v.shape[0]
         # Make sure first vertice is not collinear
-- 
2.43.0


From 3b9f47fe7f212894b5eca10c0c17ac9ac098fb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:18 +0000
Subject: [PATCH 61/66] fix: velocity of polygons, also as part of combined
 obstacles

---
 obstacles/obstacle.py            | 7 +++++++
 obstacles/starshaped_obstacle.py | 7 -------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/obstacles/obstacle.py b/obstacles/obstacle.py
index a64c479..0dcc0d3 100644
--- a/obstacles/obstacle.py
+++ b/obstacles/obstacle.py
@@ -131,6 +131,13 @@ class Obstacle(ABC):
                 self._is_starshaped = False
         return self._is_starshaped
 
+    def vel_intertial_frame(self, x):
+        if self._motion_model is None:
+            return np.zeros(2)
+        omega = self._motion_model.rot_vel()
+        lin_vel_omega = np.cross(np.hstack(([0, 0], omega)), np.hstack((x - self.pos(), 0)))[:2]
+        return self._motion_model.lin_vel() + lin_vel_omega
+
     def set_motion_model(self, motion_model):
         self._motion_model = motion_model
 
diff --git a/obstacles/starshaped_obstacle.py b/obstacles/starshaped_obstacle.py
index 5828c7a..3a2c151 100644
--- a/obstacles/starshaped_obstacle.py
+++ b/obstacles/starshaped_obstacle.py
@@ -61,13 +61,6 @@ class StarshapedObstacle(Obstacle):
         else:
             raise Frame.InvalidFrameError
 
-    def vel_intertial_frame(self, x):
-        if self._motion_model is None:
-            return np.zeros(2)
-        omega = self._motion_model.rot_vel()
-        lin_vel_omega = np.cross(np.hstack(([0, 0], omega)), np.hstack((x - self.pos(), 0)))[:2]
-        return self._motion_model.lin_vel() + lin_vel_omega
-
     # ------------ Abstract methods ------------ #
     @abstractmethod
     def normal(self, x, input_frame=Frame.GLOBAL, output_frame=Frame.GLOBAL, x_is_boundary=False):
-- 
2.43.0


From 11bd40c11e42ab505604e8c0683f709e72d4a2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:05 +0000
Subject: [PATCH 62/66] fix: obstacles with a temporary or shared identity
 number are told apart when clustering

---
 starshaped_hull/cluster_and_starify.py | 51 ++++++++++++++------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index bb1b4ef..120a0d7 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -10,7 +10,8 @@ import matplotlib.pyplot as plt
 class ObstacleCluster:
     def __init__(self, obstacles):
         # Independent of the order in which the obstacles have been merged
-        self.name = '_'.join(sorted([str(o.id()) for o in obstacles]))
+        # (temporary obstacles have no identity number)
+        self.name = '_'.join(sorted([str(o.id()) if o.id() is not None else 'temp' + str(id(o)) for o in obstacles]))
         self.obstacles = obstacles
         self.cluster_obstacle = None if len(obstacles) > 1 else obstacles[0]
         self.kernel_points = None
@@ -201,9 +202,10 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
 
     # Variable initialization
     kernel_time, hull_time, cluster_time, convex_time = [0.], [0.], [0.], 0.
-    adm_ker_robot_cones = {obs.id(): None for obs in obstacles}
-    adm_ker_goal_cones = {obs.id(): None for obs in obstacles}
-    adm_ker_obstacles = {obs.id(): {} for obs in obstacles}
+    # Identity numbers are not necessarily unique
+    adm_ker_robot_cones = {id(obs): None for obs in obstacles}
+    adm_ker_goal_cones = {id(obs): None for obs in obstacles}
+    adm_ker_obstacles = {id(obs): {} for obs in obstacles}
     cluster_iterations = []
     n_iter = 0
 
@@ -219,15 +221,15 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
         if max_compute_time < toc(t0):
             return default_result()
         # Find admissible kernel
-        adm_ker_robot_cones[o.id()] = sh.admissible_kernel(o, x)
-        adm_ker_goal_cones[o.id()] = sh.admissible_kernel(o, xg)
+        adm_ker_robot_cones[id(o)] = sh.admissible_kernel(o, x)
+        adm_ker_goal_cones[id(o)] = sh.admissible_kernel(o, xg)
 
-        if adm_ker_robot_cones[o.id()] is None:
+        if adm_ker_robot_cones[id(o)] is None:
             if verbose:
                 print("[Cluster and Starify]: Robot position is not a free exterior point of obstacle " + str(o.id()))
             return default_result()
 
-        if adm_ker_goal_cones[o.id()] is None:
+        if adm_ker_goal_cones[id(o)] is None:
             if verbose:
                 print("[Cluster and Starify]: Goal position is not a free exterior point of obstacle " + str(o.id()))
             return default_result()
@@ -235,20 +237,20 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
         # Admissible kernel when excluding points of other obstacles
         if exclude_obstacles:
             for o_ex in obstacles:
-                if o_ex.id() == o.id():
+                if o_ex is o:
                     continue
                 o_x_exclude = o_ex.extreme_points()
                 if not all([o.exterior_point(x_ex) for x_ex in o_x_exclude]):
-                    adm_ker_obstacles[o.id()][o_ex.id()] = None
+                    adm_ker_obstacles[id(o)][id(o_ex)] = None
                     continue
                 adm_ker_o_ex = [sh.admissible_kernel(o, v) for v in o_x_exclude]
                 if any([ak is None for ak in adm_ker_o_ex]):
-                    adm_ker_obstacles[o.id()][o_ex.id()] = None
+                    adm_ker_obstacles[id(o)][id(o_ex)] = None
                     continue
-                adm_ker_obstacles[o.id()][o_ex.id()] = adm_ker_o_ex[0].polygon()
+                adm_ker_obstacles[id(o)][id(o_ex)] = adm_ker_o_ex[0].polygon()
                 for ak in adm_ker_o_ex[1:]:
-                    adm_ker_obstacles[o.id()][o_ex.id()] = polygonal_part(
-                        adm_ker_obstacles[o.id()][o_ex.id()].intersection(ak.polygon()))
+                    adm_ker_obstacles[id(o)][id(o_ex)] = polygonal_part(
+                        adm_ker_obstacles[id(o)][id(o_ex)].intersection(ak.polygon()))
     init_kernel_time = toc(t0)
 
     # -- First iteration -- #
@@ -264,7 +266,7 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
 
         # New---
         t1 = tic()
-        cl.admissible_kernel = polygonal_part(adm_ker_robot_cones[o.id()].intersection(adm_ker_goal_cones[o.id()]))
+        cl.admissible_kernel = polygonal_part(adm_ker_robot_cones[id(o)].intersection(adm_ker_goal_cones[id(o)]))
         kernel_time[0] += toc(t1)
 
         if cl.admissible_kernel.is_empty or cl.admissible_kernel.area < 1e-6:
@@ -309,7 +311,7 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
         # if not o.is_starshaped():
         #     cl = clusters[-1]
         #     t1 = tic()
-        #     cl.admissible_kernel = adm_ker_robot_cones[o.id()].intersection(adm_ker_goal_cones[o.id()])
+        #     cl.admissible_kernel = adm_ker_robot_cones[id(o)].intersection(adm_ker_goal_cones[id(o)])
         #     kernel_time[0] += toc(t1)
         #
         #     t1 = tic()
@@ -327,7 +329,8 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
     hull_time[0] = ker_sel_time[0] + hull_compute_time[0] + star_obj_time[0]
 
     # Set cluster history
-    cluster_history = {cl.name: cl for cl in clusters}
+    cluster_key = lambda cl: frozenset(id(o) for o in cl.obstacles)
+    cluster_history = {cluster_key(cl): cl for cl in clusters}
     if return_history:
         cluster_iterations += [clusters]
 
@@ -364,8 +367,8 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
         # Find starshaped obstacle representation for each cluster
         for i, cl in enumerate(clusters):
             # If cluster already calculated keep it
-            if cl.name in cluster_history:
-                clusters[i] = cluster_history[cl.name]
+            if cluster_key(cl) in cluster_history:
+                clusters[i] = cluster_history[cluster_key(cl)]
                 continue
 
             # ----------- Admissible Kernel ----------- #
@@ -375,8 +378,8 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
             # if len(cl.obstacles) == 2 and cl.obstacles[0].is_convex() and cl.obstacles[1].is_convex():
             #     cl.admissible_kernel = cl.obstacles[0].polygon().intersection(cl.obstacles[1].polygon()).buffer(0.01)
             # else:
-            adm_ker_robot = Cone.list_intersection([adm_ker_robot_cones[o.id()] for o in cl.obstacles], same_apex=True)
-            adm_ker_goal = Cone.list_intersection([adm_ker_goal_cones[o.id()] for o in cl.obstacles], same_apex=True)
+            adm_ker_robot = Cone.list_intersection([adm_ker_robot_cones[id(o)] for o in cl.obstacles], same_apex=True)
+            adm_ker_goal = Cone.list_intersection([adm_ker_goal_cones[id(o)] for o in cl.obstacles], same_apex=True)
             cl.admissible_kernel = polygonal_part(adm_ker_robot.intersection(adm_ker_goal))
 
             if cl.admissible_kernel.is_empty or cl.admissible_kernel.area < 1e-6:
@@ -390,9 +393,9 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
             if exclude_obstacles:
                 for o in cl.obstacles:
                     for o_ex in obstacles:
-                        if o_ex.id() == o.id() or adm_ker_obstacles[o.id()][o_ex.id()] is None:
+                        if o_ex is o or adm_ker_obstacles[id(o)][id(o_ex)] is None:
                             continue
-                        adm_ker_o_ex = polygonal_part(adm_ker_o_ex.intersection(adm_ker_obstacles[o.id()][o_ex.id()]))
+                        adm_ker_o_ex = polygonal_part(adm_ker_o_ex.intersection(adm_ker_obstacles[id(o)][id(o_ex)]))
                 if not (adm_ker_o_ex.is_empty or adm_ker_o_ex.area < 1e-6):
                     cl.admissible_kernel = adm_ker_o_ex
 
@@ -429,7 +432,7 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
             # ----------- End Starshaped Hull ----------- #
 
             # -- Add cluster to history
-            cluster_history[cl.name] = cl
+            cluster_history[cluster_key(cl)] = cl
 
         hull_time[n_iter] = ker_sel_time[n_iter] + hull_compute_time[n_iter] + star_obj_time[n_iter]
 
-- 
2.43.0


From 9bc237501cbb10a09e6c7a7a18a89b5e16b4d608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:41 +0000
Subject: [PATCH 63/66] fix: rays inside dilated star polygons reach their
 boundary from any reference point

---
 obstacles/starshaped_polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index f4f7c16..6c5a13e 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -30,7 +30,7 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
         cp = self.copy(id, name)
         cp._polygon = cp._polygon.buffer(padding, cap_style=1, join_style=1)
         cp._pol_bounds = cp._polygon.bounds
-        cp.enclosing_ball_diameter = max(cp._polygon.bounds[2]-cp._polygon.bounds[0], cp._polygon.bounds[3]-cp._polygon.bounds[1])
+        cp.enclosing_ball_diameter = cp._polygon.bounds[2]-cp._polygon.bounds[0] + cp._polygon.bounds[3]-cp._polygon.bounds[1]
         cp.vertices = np.array(cp._polygon.exterior.coords[:-1])
         cp.circular_vertices = np.array(cp._polygon.exterior.coords)
         cp._polygon_global_pose = None
-- 
2.43.0


From 10565a2dd9bceeb810e52d8b270875ef1e7afe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 64/66] fix: polygons accept the option compute_polygon of
 obstacles

---
 obstacles/polygon.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/obstacles/polygon.py b/obstacles/polygon.py
index 68a1946..2f20745 100644
--- a/obstacles/polygon.py
+++ b/obstacles/polygon.py
@@ -9,6 +9,7 @@ import matplotlib.patches as patches
 class Polygon(Obstacle):
 
     def __init__(self, polygon, **kwargs):
+        kwargs.pop('compute_polygon', None)  # Always computed
         super().__init__(**kwargs)
         self._polygon = shapely.geometry.Polygon(polygon)
         self._polygon = shapely.ops.orient(self._polygon)
-- 
2.43.0


From 5e5989c7f1109f3024dc1a36ab3330a6293d3cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 65/66] fix: common boundaries of polygon parts are interior
 points of combined obstacles with ellipses too

---
 obstacles/starshaped_primitive_combination.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index 444a235..a987935 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -14,6 +14,7 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
         self.vertices = None
         self.circular_vertices = None
         self.vertex_angles = None
+        self._polygon_union = None  # Union of all parts but ellipses
 
     def obstacle_cluster(self):
         return self._obstacle_cluster
@@ -31,10 +32,10 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
             # Interior point
             return -1
         # Common boundaries of the polygons are in the interior of their union
-        if not any([isinstance(obs, Ellipse) for obs in self._obstacle_cluster]):
-            x_sh = shapely.geometry.Point(x)
-            if self.polygon().contains(x_sh) and self.polygon().exterior.distance(x_sh) > 1e-6:
-                return -1
+        x_sh = shapely.geometry.Point(x)
+        union = self._union_of_polygons()
+        if union.contains(x_sh) and union.boundary.distance(x_sh) > 1e-6:
+            return -1
         if any([l == 0 for l in locs]):
             # Boundary point
             return 0
@@ -185,6 +186,15 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
         self.update_plot(line_handles)
         return line_handles, ax
 
+    # Without ellipses, as their polygons are approximations
+    def _union_of_polygons(self):
+        if not any([isinstance(obs, Ellipse) for obs in self._obstacle_cluster]):
+            return self.polygon()
+        if self._polygon_union is None:
+            polygons = [obs.polygon() for obs in self._obstacle_cluster if not isinstance(obs, Ellipse)]
+            self._polygon_union = polygon_union(polygons + ([] if self._hull_cluster is None else [self._hull_cluster]))
+        return self._polygon_union
+
     def _hull_cluster_point_location(self, x):
         if self._hull_cluster is None:
             return 1
-- 
2.43.0


From 399e94c0da2236708b7a05bc6add69e1dfd9d79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:12 +0000
Subject: [PATCH 66/66] fix: tangent points of combined obstacles are those of
 the region with its hull, left one first

---
 obstacles/starshaped_primitive_combination.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index a987935..a91d20c 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -1,7 +1,7 @@
 import shapely
 import numpy as np
-from obstacles import Frame, StarshapedObstacle, StarshapedPolygon, Ellipse
-from utils import is_ccw, is_cw, draw_shapely_polygon, polygon_union
+from obstacles import Frame, StarshapedObstacle, StarshapedPolygon, Polygon, Ellipse
+from utils import draw_shapely_polygon, polygon_union
 import matplotlib.pyplot as plt
 
 # Note: Local == Global frame
@@ -49,16 +49,8 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
         intersection_points += self._hull_cluster_line_intersections(line)
         return intersection_points
 
-    # TODO: Fix if needed. Currently not considering hull.
     def tangent_points(self, x, input_frame=Frame.GLOBAL, output_frame=Frame.GLOBAL):
-        tp, tp_candidates = [], []
-        for obs in self._obstacle_cluster:
-            tp_candidates += obs.tangent_points(x, Frame.GLOBAL, Frame.GLOBAL)
-        for i in range(len(tp_candidates)):
-            if all([is_ccw(x, tp_candidates[i], tp_candidates[j]) for j in range(len(tp_candidates)) if j is not i]) or \
-                    all([is_cw(x, tp_candidates[i], tp_candidates[j]) for j in range(len(tp_candidates)) if j is not i]):
-                tp += [tp_candidates[i]]
-        return tp
+        return Polygon(self.polygon(), id="temp").tangent_points(x)
 
     def _compute_kernel(self):
         self._kernel = StarshapedPolygon(self.polygon(), xr=self.xr(), id="temp").kernel()
-- 
2.43.0

