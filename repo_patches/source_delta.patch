From 5ad1d479447e5b7371b35e3550c1e0f4f8c71c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:29 +0000
Subject: [PATCH 01/35] fix: close mesh output files so that failed writes are
 reported

---
 meshiphi/cli.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/meshiphi/cli.py b/meshiphi/cli.py
index 43f48bf..bf77040 100644
--- a/meshiphi/cli.py
+++ b/meshiphi/cli.py
@@ -91,7 +91,8 @@ def rebuild_mesh_cli():
 
     logging.info("Saving mesh to {}".format(args.output))
     
-    json.dump(rebuilt_mesh_json, open(args.output, "w"), indent=4)
+    with open(args.output, "w") as f:
+        json.dump(rebuilt_mesh_json, f, indent=4)
 
 
 
@@ -112,7 +113,8 @@ def create_mesh_cli():
 
     logging.info("Saving mesh to {}".format(args.output))
     info = cg.to_json()
-    json.dump(info, open(args.output, "w"), indent=4)
+    with open(args.output, "w") as f:
+        json.dump(info, f, indent=4)
     
 
 @timed_call
@@ -195,7 +197,8 @@ def merge_mesh_cli():
     merged_mesh_json = env_mesh1.to_json()
 
     logging.info("Saving merged mesh to {}".format(args.output))
-    json.dump(merged_mesh_json, open(args.output, "w"), indent=4)
+    with open(args.output, "w") as f:
+        json.dump(merged_mesh_json, f, indent=4)
 
 
 
-- 
2.43.0


From 69450d1914b81a7bbf7ad16535b1d1a9861eab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:34 +0000
Subject: [PATCH 02/35] fix: let a freshly built mesh be split and merged
 without a JSON round trip

---
 meshiphi/mesh_generation/mesh_builder.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/mesh_builder.py b/meshiphi/mesh_generation/mesh_builder.py
index ca03886..fdecde8 100644
--- a/meshiphi/mesh_generation/mesh_builder.py
+++ b/meshiphi/mesh_generation/mesh_builder.py
@@ -620,8 +620,14 @@ class MeshBuilder:
                 logging.debug(f'aggregating cellbox ({agg_cell_count}/{len(self.mesh.cellboxes)})')
                 agg_cellboxes.append(cellbox.aggregate())
 
+        # EnvironmentMesh addresses its neighbour graph with string keys, as when loaded from JSON
+        neighbour_graph = NeighbourGraph.from_json(
+            {str(index): {str(direction): list(neighbours)
+                          for direction, neighbours in neighbour_map.items()}
+             for index, neighbour_map in self.neighbour_graph.get_graph().items()})
+
         env_mesh = EnvironmentMesh(self.mesh.get_bounds(
-        ), agg_cellboxes, self.neighbour_graph, self.get_config())
+        ), agg_cellboxes, neighbour_graph, self.get_config())
 
         return env_mesh
 
-- 
2.43.0


From 7ffa18de411dd3d38a6dfcbd919ec2d7fe0d08fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:34 +0000
Subject: [PATCH 03/35] fix: stop splitting around a point that falls on a
 cellbox border

---
 meshiphi/mesh_generation/environment_mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 1bda9a6..cec93e4 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -190,9 +190,9 @@ class EnvironmentMesh:
         """
         for point in points:
             splitting_waypoint = True
-            if self.query_inside_mesh(point):
-                while splitting_waypoint:
-                    splitting_waypoint = self._split_loc(point)
+            # a split may leave the point on the border of the new cellboxes
+            while splitting_waypoint and self.query_inside_mesh(point):
+                splitting_waypoint = self._split_loc(point)
 
     def get_cellbox(self, cellbox_id):
         """
-- 
2.43.0


From 61194044f38fe232fddebd919f5e88e0b6ec2700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:34 +0000
Subject: [PATCH 04/35] fix: split boundaries that cross the antimeridian

---
 meshiphi/mesh_generation/boundary.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/boundary.py b/meshiphi/mesh_generation/boundary.py
index 8d16204..eb9c038 100644
--- a/meshiphi/mesh_generation/boundary.py
+++ b/meshiphi/mesh_generation/boundary.py
@@ -4,6 +4,8 @@ from datetime import timedelta
 from math import cos, sin, asin, sqrt, radians
 from shapely import wkt, MultiPolygon
 
+from meshiphi.utils import longitude_domain
+
 class Boundary:
     """
     A Boundary is a class that defines the geo-spatial/temporal
@@ -414,7 +416,7 @@ class Boundary:
                 original boundary.
         """
         lat_mid = self.get_lat_min() + (self.get_height() / 2)
-        long_mid = self.get_long_min() + (self.get_width() / 2)
+        long_mid = longitude_domain(self.get_long_min() + (self.get_width() / 2))
 
         # 0 = south_west, 1 = north_west, 2 = south_east, 3 = north_east
         bounds = [
-- 
2.43.0


From 144724da00785fbef65407c0af57e4943d4b90d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:15 +0000
Subject: [PATCH 05/35] fix: keep neighbours across the antimeridian when
 cellboxes are split

---
 meshiphi/mesh_generation/neighbour_graph.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/meshiphi/mesh_generation/neighbour_graph.py b/meshiphi/mesh_generation/neighbour_graph.py
index 1b75732..e00caf6 100644
--- a/meshiphi/mesh_generation/neighbour_graph.py
+++ b/meshiphi/mesh_generation/neighbour_graph.py
@@ -230,6 +230,8 @@ class NeighbourGraph:
         lat_a = bounds_a.get_lat_min()
         long_b = bounds_b.get_long_min()
         lat_b = bounds_b.get_lat_min()
+        # Longitude is periodic, compare bounds_a with the closest image of bounds_b
+        long_b -= 360 * round(((long_b + bounds_b.getdcx()) - (long_a + bounds_a.getdcx())) / 360)
 
         if (long_a + bounds_a.get_width()) == long_b and (
                 lat_a + bounds_a.get_height()) == lat_b:
@@ -314,6 +316,10 @@ class NeighbourGraph:
         if self.is_global_mesh() and on_global_bound (cellbox_a , cellbox_b) :
             return self.get_global_mesh_neighbour_case(cellbox_a, cellbox_b)
         
+        # Longitude is periodic, compare cellbox_a with the closest image of cellbox_b
+        long_b -= 360 * round(((long_b + cellbox_b.get_bounds().getdcx()) -
+                               (long_a + cellbox_a.get_bounds().getdcx())) / 360)
+
         if (long_a + cellbox_a.get_bounds().get_width()) == long_b and (
                 lat_a + cellbox_a.get_bounds().get_height()) == lat_b:
             return Direction.north_east
-- 
2.43.0


From 6fc4d024781bd39d796be92c635c28483ea34a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:15 +0000
Subject: [PATCH 06/35] fix: leave the given mesh unmodified when merging

---
 meshiphi/mesh_generation/environment_mesh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index cec93e4..ea870ae 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1,3 +1,4 @@
+import copy
 import json
 import logging
 import geopandas as gpd
@@ -218,6 +219,9 @@ class EnvironmentMesh:
 
         assert self.validate_merge_compatibility(mesh2), "The given mesh is not compatible with merging with this mesh" 
 
+        # work on a copy, as ids and neighbour maps change when added to this mesh
+        mesh2 = copy.deepcopy(mesh2)
+
         # append config files
         if "merged" not in self.config.keys():
             self.config["merged"] = []
-- 
2.43.0


From d6c5201445b9a1def616972b3dc1b83ff0a7af59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:15 +0000
Subject: [PATCH 07/35] fix: replace cellboxes of a merged mesh that crosses
 the antimeridian

---
 meshiphi/mesh_generation/environment_mesh.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index ea870ae..989b253 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -590,8 +590,10 @@ class EnvironmentMesh:
         for cellbox in self.agg_cellboxes:
             cb_bounds = cellbox.get_bounds()
 
-            if (cb_bounds.get_long_min() >= bounds.get_long_min() and 
-                cb_bounds.get_long_max() <= bounds.get_long_max() and 
+            # longitude relative to the western edge, as bounds may cross the antimeridian
+            long_offset = (cb_bounds.get_long_min() - bounds.get_long_min()) % 360
+
+            if (long_offset + cb_bounds.get_width() <= bounds.get_width() and 
                 cb_bounds.get_lat_min() >= bounds.get_lat_min() and 
                 cb_bounds.get_lat_max() <= bounds.get_lat_max()):
             
-- 
2.43.0


From 62b2dd592661179af940451912e980a3d8b90717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:15 +0000
Subject: [PATCH 08/35] fix: connect all cellboxes along the seam of a merged
 mesh

---
 meshiphi/mesh_generation/environment_mesh.py | 21 +++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 989b253..f8c9ce0 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -14,6 +14,7 @@ from shapely import wkt
 from meshiphi.mesh_generation.boundary import Boundary
 from meshiphi.mesh_generation.aggregated_cellbox import AggregatedCellBox
 from meshiphi.mesh_generation.neighbour_graph import NeighbourGraph
+from meshiphi.mesh_generation.direction import Direction
 
 
 from meshiphi.mesh_validation.sampler import Sampler
@@ -617,9 +618,8 @@ class EnvironmentMesh:
         north_cellboxes = []
 
         for cellbox in self.agg_cellboxes:
-            if (cellbox.get_bounds().get_lat_min() == bounds.get_lat_max() and
-                cellbox.get_bounds().get_long_max() >= bounds.get_long_min() and
-                cellbox.get_bounds().get_long_min() <= bounds.get_long_max()):
+            if self.neighbour_graph.get_neighbour_case_bounds(bounds, cellbox.get_bounds()) in [
+                    Direction.north, Direction.north_east, Direction.north_west]:
             
                 north_cellboxes.append(cellbox)
             
@@ -630,9 +630,8 @@ class EnvironmentMesh:
         south_cellboxes = []
 
         for cellbox in self.agg_cellboxes:
-            if (cellbox.get_bounds().get_lat_max() == bounds.get_lat_min() and
-                cellbox.get_bounds().get_long_max() >= bounds.get_long_min() and
-                cellbox.get_bounds().get_long_min() <= bounds.get_long_max()):
+            if self.neighbour_graph.get_neighbour_case_bounds(bounds, cellbox.get_bounds()) in [
+                    Direction.south, Direction.south_east, Direction.south_west]:
             
                 south_cellboxes.append(cellbox)
             
@@ -643,9 +642,8 @@ class EnvironmentMesh:
         east_cellboxes = []
 
         for cellbox in self.agg_cellboxes:
-            if (cellbox.get_bounds().get_long_min() == bounds.get_long_max() and
-                cellbox.get_bounds().get_lat_min() >= bounds.get_lat_min() and
-                cellbox.get_bounds().get_lat_max() <= bounds.get_lat_max()):
+            if self.neighbour_graph.get_neighbour_case_bounds(
+                    bounds, cellbox.get_bounds()) == Direction.east:
             
                 east_cellboxes.append(cellbox)
             
@@ -656,9 +654,8 @@ class EnvironmentMesh:
             west_cellboxes = []
     
             for cellbox in self.agg_cellboxes:
-                if (cellbox.get_bounds().get_long_max() == bounds.get_long_min() and
-                    cellbox.get_bounds().get_lat_min() >= bounds.get_lat_min() and
-                    cellbox.get_bounds().get_lat_max() <= bounds.get_lat_max()):
+                if self.neighbour_graph.get_neighbour_case_bounds(
+                        bounds, cellbox.get_bounds()) == Direction.west:
                 
                     west_cellboxes.append(cellbox)
                 
-- 
2.43.0


From 954daa8756489a311b4efbacd478d95627b923c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:26 +0000
Subject: [PATCH 09/35] fix: reject cellbox updates with an index outside the
 mesh

---
 meshiphi/mesh_generation/environment_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index f8c9ce0..3f96d9b 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1464,7 +1464,7 @@ class EnvironmentMesh:
               index (int): the index of the cellbox to be updated
               values (dict): a dict contains perf. metrics names and values
         """
-        if index > -1 or index < len(self.agg_cellboxes):
+        if index > -1 and index < len(self.agg_cellboxes):
             self.agg_cellboxes[index].agg_data.update(values)
         else:
             raise ValueError('Invalid cellbox index')
-- 
2.43.0


From fb728afb4b2cc715e3511efb5008bd5628173664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:26 +0000
Subject: [PATCH 10/35] fix: merge the meshes of a directory in file-name order

---
 meshiphi/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/cli.py b/meshiphi/cli.py
index bf77040..da51ee9 100644
--- a/meshiphi/cli.py
+++ b/meshiphi/cli.py
@@ -177,7 +177,7 @@ def merge_mesh_cli():
         logging.debug("Merging multiple meshes from directory {} with input mesh".format(args.merge))
 
         merge_dir = args.merge
-        merge_meshes = [f for f in listdir(merge_dir) if isfile(join(merge_dir, f))]
+        merge_meshes = sorted(f for f in listdir(merge_dir) if isfile(join(merge_dir, f)))
 
         for mesh in merge_meshes:
             path = join(merge_dir, mesh)
-- 
2.43.0


From 86258001cf069cee7d63cc3f6d4ea9d5d453b6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:26 +0000
Subject: [PATCH 11/35] fix: convert a mesh before opening the file it is saved
 to

---
 meshiphi/mesh_generation/environment_mesh.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 3f96d9b..c79e1aa 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1487,12 +1487,15 @@ class EnvironmentMesh:
             self.to_tif(format_params, path)
 
         elif format.upper() == "JSON":
+            # Convert before opening, so a failure leaves an existing file as it is
+            output = json.dumps(self.to_json(), indent=4)
             with open(path, 'w') as path:
-                json.dump(self.to_json(), path, indent=4)
+                path.write(output)
            
         elif format.upper() == "GEOJSON":
+            output = json.dumps(self.to_geojson(format_params), indent=4)
             with open(path, 'w') as path:
-                json.dump(self.to_geojson(format_params), path, indent=4)
+                path.write(output)
 
         elif format.upper() == "PNG":
             self.to_png(format_params, path)
-- 
2.43.0


From 5c1363f8cfed2533aa0e8956903dbf68c2dc573a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:41 +0000
Subject: [PATCH 12/35] fix: resolve both ends of a relative time range from
 one clock reading

---
 meshiphi/mesh_generation/boundary.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/meshiphi/mesh_generation/boundary.py b/meshiphi/mesh_generation/boundary.py
index eb9c038..e418bd5 100644
--- a/meshiphi/mesh_generation/boundary.py
+++ b/meshiphi/mesh_generation/boundary.py
@@ -115,8 +115,10 @@ class Boundary:
         if time_range is None:
             time_range=[]
         elif time_range != []: 
-             time_range[0] = self.parse_datetime(time_range[0])
-             time_range[1] = self.parse_datetime(time_range[1])
+             # Both ends refer to the same instant, even if midnight passes in between
+             today = datetime.today()
+             time_range[0] = self.parse_datetime(time_range[0], today)
+             time_range[1] = self.parse_datetime(time_range[1], today)
 
         self.validate_bounds(lat_range , long_range , time_range)
         # Boundary information 
@@ -125,7 +127,7 @@ class Boundary:
         self.time_range = time_range
 
     @staticmethod
-    def parse_datetime(datetime_str):
+    def parse_datetime(datetime_str, today=None):
         """
             Attempts to parse a string containing reference to system time into datetime format.
             If given the string 'TODAY', will return system time.
@@ -135,6 +137,8 @@ class Boundary:
             Args:
                 datetime_str (String): String attempted to be parsed to datetime format. 
                     Expected input format is '%Y-%m-%d', or 'TODAY +- n'
+                today (datetime) (optional): System time to use. Read from the
+                    clock if not given.
             Returns:
                 date (String): date in a String format, '%Y-%m-%d'.
             Raises:
@@ -143,6 +147,8 @@ class Boundary:
         DATE_FORMAT = "%Y-%m-%d"
         
         datetime_str = datetime_str.upper()
+        if today is None:
+            today = datetime.today()
 
         # check if datetime_str is valid datetime format.
         try:
@@ -151,7 +157,6 @@ class Boundary:
         except ValueError:
             # check if datetime_str contains reference to system-time.
             if datetime_str.strip() == "TODAY":
-                today = datetime.today()
                 return today.strftime(DATE_FORMAT)
             elif "TODAY" not in datetime_str:
                 raise ValueError(f'Incorrect date format given. Cannot convert "{datetime_str}" to date.')
@@ -161,7 +166,7 @@ class Boundary:
                 increment = datetime_str.split("+")[1].strip()
                 try:
                     increment = float(increment)
-                    datetime_object = datetime.today() + timedelta(days = increment)
+                    datetime_object = today + timedelta(days = increment)
                     return datetime_object.strftime(DATE_FORMAT)
                 except ValueError:
                     raise ValueError(f'Incorrect date format given. Cannot convert "{datetime_str}" to date. ' + \
@@ -172,7 +177,7 @@ class Boundary:
                 decrement = datetime_str.split("-")[1].strip()
                 try:
                     decrement = float(decrement)
-                    datetime_object = datetime.today() - timedelta(days = decrement)
+                    datetime_object = today - timedelta(days = decrement)
                     return datetime_object.strftime(DATE_FORMAT)
                 except ValueError:
                     raise ValueError(f'Incorrect date format given. Cannot convert "{datetime_str}" to date. ' + \
-- 
2.43.0


From ccc13deb2959e5d71d3d7c7def6d8427dc9413f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:57 +0000
Subject: [PATCH 13/35] fix: give each random field loader its own random
 generator

---
 meshiphi/dataloaders/scalar/scalar_grf.py | 5 +++--
 meshiphi/dataloaders/vector/vector_grf.py | 7 ++++---
 meshiphi/utils.py                         | 9 ++++++---
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/scalar_grf.py b/meshiphi/dataloaders/scalar/scalar_grf.py
index 74640e5..be85464 100644
--- a/meshiphi/dataloaders/scalar/scalar_grf.py
+++ b/meshiphi/dataloaders/scalar/scalar_grf.py
@@ -102,10 +102,11 @@ class ScalarGRFDataLoader(ScalarDataLoader):
             return grf
         
         # Set seed for generation. If not specified, will be 'random'
-        np.random.seed(self.seed)
+        # Own generator, so as not to share state with the rest of the process
+        rng = np.random.RandomState(self.seed)
         
         # Create a GRF
-        grf = gaussian_random_field(self.size, self.alpha)
+        grf = gaussian_random_field(self.size, self.alpha, rng)
         
         # Set it to a binary mask if chosen in config
         if self.binary == True:
diff --git a/meshiphi/dataloaders/vector/vector_grf.py b/meshiphi/dataloaders/vector/vector_grf.py
index 68648af..48420b8 100644
--- a/meshiphi/dataloaders/vector/vector_grf.py
+++ b/meshiphi/dataloaders/vector/vector_grf.py
@@ -73,11 +73,12 @@ class VectorGRFDataLoader(VectorDataLoader):
             return dx, dy
         
         # Set seed for generation. If not specified, will be 'random'
-        np.random.seed(self.seed)
+        # Own generator, so as not to share state with the rest of the process
+        rng = np.random.RandomState(self.seed)
         
         # Create a GRF of magnitudes and angles
-        magnitudes = gaussian_random_field(self.size, self.alpha)
-        directions = gaussian_random_field(self.size, self.alpha)
+        magnitudes = gaussian_random_field(self.size, self.alpha, rng)
+        directions = gaussian_random_field(self.size, self.alpha, rng)
         directions = np.radians(360*directions)
         
         vec_x, vec_y = grf_to_vector(magnitudes, directions, self.min, self.max)
diff --git a/meshiphi/utils.py b/meshiphi/utils.py
index 5ddb0d6..2012248 100644
--- a/meshiphi/utils.py
+++ b/meshiphi/utils.py
@@ -196,7 +196,7 @@ def fftind(size):
     return k_ind
 
 
-def gaussian_random_field(size, alpha):
+def gaussian_random_field(size, alpha, rng=np.random):
     """
     Creates a gaussian random field with normal (circular) distribution
     Code from https://github.com/bsciolla/gaussian-random-fields/blob/master/gaussian_random_fields.py
@@ -208,6 +208,9 @@ def gaussian_random_field(size, alpha):
         alpha (float):
             Default = 3.0;
             The power of the power-law momentum distribution
+        rng (np.random.RandomState):
+            Default = np.random;
+            Random number generator to draw from
 
     Returns:
         np.array:
@@ -223,8 +226,8 @@ def gaussian_random_field(size, alpha):
 
     # Draws a complex gaussian random noise with normal
     # (circular) distribution
-    noise = np.random.normal(size = (size, size)) \
-        + 1j * np.random.normal(size = (size, size))
+    noise = rng.normal(size = (size, size)) \
+        + 1j * rng.normal(size = (size, size))
 
     # To real space
     grf = np.fft.ifft2(noise * amplitude).real
-- 
2.43.0


From a28710f61c52775b0024ba4096693a6c4a619ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:57 +0000
Subject: [PATCH 14/35] fix: keep the datapoints of regions that cross the
 antimeridian

---
 meshiphi/dataloaders/scalar/abstract_scalar.py | 4 ++--
 meshiphi/dataloaders/vector/abstract_vector.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/abstract_scalar.py b/meshiphi/dataloaders/scalar/abstract_scalar.py
index 36cb389..826b09b 100644
--- a/meshiphi/dataloaders/scalar/abstract_scalar.py
+++ b/meshiphi/dataloaders/scalar/abstract_scalar.py
@@ -272,8 +272,8 @@ class ScalarDataLoader(DataLoaderInterface):
             else:
                 mask = (data['lat']  > bounds.get_lat_min())  & \
                     (data['lat']  <= bounds.get_lat_max())  & \
-                    (data['long'] <= bounds.get_long_min()) & \
-                    (data['long'] > bounds.get_long_max())
+                    ((data['long'] > bounds.get_long_min()) | \
+                    (data['long'] <= bounds.get_long_max()))
             # Mask with time if time column exists
             if 'time' in data.columns:
                 mask &= (data['time'] >= bounds.get_time_min()) & \
diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 26cc222..6c67881 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -327,8 +327,8 @@ class VectorDataLoader(DataLoaderInterface):
             else:
                 mask = (data['lat']  > bounds.get_lat_min())  & \
                     (data['lat']  <= bounds.get_lat_max())  & \
-                    (data['long'] <= bounds.get_long_min()) & \
-                    (data['long'] > bounds.get_long_max())
+                    ((data['long'] > bounds.get_long_min()) | \
+                    (data['long'] <= bounds.get_long_max()))
             # Mask with time if time column exists
             if 'time' in data.columns:
                 mask &= (data['time'] >= bounds.get_time_min()) & \
-- 
2.43.0


From a6eebd93a34f095daa114dee2104316d57f33c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:11 +0000
Subject: [PATCH 15/35] fix: fill the components of empty vector cells with the
 configured value

---
 meshiphi/mesh_generation/cellbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/cellbox.py b/meshiphi/mesh_generation/cellbox.py
index c2bab10..11e957a 100644
--- a/meshiphi/mesh_generation/cellbox.py
+++ b/meshiphi/mesh_generation/cellbox.py
@@ -377,7 +377,7 @@ class CellBox:
                         agg_value[name] = loader.get_value(parent.bounds, data=parent_data_subset)[name]
                         parent = parent.get_parent()
                 else:  # not parent, so either float or Nan so set the agg_Data to value_fill_type
-                    agg_value[data_name] = source.get_value_fill_type()
+                    agg_value[name] = source.get_value_fill_type()
         return agg_value
 
     def deallocate_cellbox(self):
-- 
2.43.0


From b18183aed48115f849d5020d79b464500d3adc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:11 +0000
Subject: [PATCH 16/35] fix: number the records of several CSV files
 consecutively

---
 meshiphi/dataloaders/scalar/scalar_csv.py | 2 +-
 meshiphi/dataloaders/vector/vector_csv.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/scalar_csv.py b/meshiphi/dataloaders/scalar/scalar_csv.py
index 743d389..56a3050 100644
--- a/meshiphi/dataloaders/scalar/scalar_csv.py
+++ b/meshiphi/dataloaders/scalar/scalar_csv.py
@@ -21,7 +21,7 @@ class ScalarCSVDataLoader(ScalarDataLoader):
         # NOTE: All csv files must have same columns for this to work
         for file in self.files:
             df_list += [pd.read_csv(file)]
-        data = pd.concat(df_list)
+        data = pd.concat(df_list, ignore_index=True)
         # Trim to initial datapoints
         data = self.trim_datapoints(bounds, data=data)
         
diff --git a/meshiphi/dataloaders/vector/vector_csv.py b/meshiphi/dataloaders/vector/vector_csv.py
index fe53b5e..976989a 100644
--- a/meshiphi/dataloaders/vector/vector_csv.py
+++ b/meshiphi/dataloaders/vector/vector_csv.py
@@ -21,7 +21,7 @@ class VectorCSVDataLoader(VectorDataLoader):
         # NOTE: All csv files must have same columns for this to work
         for file in self.files:
             df_list += [pd.read_csv(file)]
-        data = pd.concat(df_list)
+        data = pd.concat(df_list, ignore_index=True)
         # Trim to initial datapoints
         data = self.trim_datapoints(bounds, data=data)
         
-- 
2.43.0


From 0d1023979ef766c82f4f7014f5941ffa9e2bbcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:09 +0000
Subject: [PATCH 17/35] fix: report a data folder that cannot be listed
 completely

---
 meshiphi/dataloaders/factory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/meshiphi/dataloaders/factory.py b/meshiphi/dataloaders/factory.py
index 87dee3a..7761cf1 100644
--- a/meshiphi/dataloaders/factory.py
+++ b/meshiphi/dataloaders/factory.py
@@ -35,7 +35,6 @@ from meshiphi.dataloaders.lut.lut_csv import LutCSV
 from meshiphi.dataloaders.lut.lut_geojson import LutGeoJSON
 from meshiphi.dataloaders.lut.lut_shapefile import LutShapefile
 
-from glob import glob
 import os
 
 
@@ -155,6 +154,8 @@ class DataLoaderFactory:
             del params['file']
         elif 'folder' in params:
             folder = os.path.join(params['folder'], '')  # Adds trailing slash if non-existent
-            params['files'] = sorted(glob(folder+'*'))
+            # NOTE: Unlike glob(), listdir() reports a folder it can't read completely
+            params['files'] = sorted(folder + file for file in os.listdir(folder)
+                                     if not file.startswith('.'))
             del params['folder']
         return params
-- 
2.43.0


From 54160c7b777473dc886d0ca8b14754227d972b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:09 +0000
Subject: [PATCH 18/35] fix: report unreadable entries of a directory of meshes
 to merge

---
 meshiphi/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshiphi/cli.py b/meshiphi/cli.py
index da51ee9..afd0aa2 100644
--- a/meshiphi/cli.py
+++ b/meshiphi/cli.py
@@ -163,7 +163,7 @@ def merge_mesh_cli():
     """
 
     from os import listdir 
-    from os.path import isfile, join
+    from os.path import isdir, join
 
     default_output = "merged_mesh.output.json"
     args = get_args(default_output, config_arg = False, mesh_arg=True, merge_arg=True)
@@ -177,7 +177,7 @@ def merge_mesh_cli():
         logging.debug("Merging multiple meshes from directory {} with input mesh".format(args.merge))
 
         merge_dir = args.merge
-        merge_meshes = sorted(f for f in listdir(merge_dir) if isfile(join(merge_dir, f)))
+        merge_meshes = sorted(f for f in listdir(merge_dir) if not isdir(join(merge_dir, f)))
 
         for mesh in merge_meshes:
             path = join(merge_dir, mesh)
-- 
2.43.0


From 3e78f3bf1e6e6162b48311460adc12ef0b4ea766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:51 +0000
Subject: [PATCH 19/35] fix: take the date of an IceNet forecast from its file
 name, not its path

---
 meshiphi/dataloaders/scalar/icenet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/scalar/icenet.py b/meshiphi/dataloaders/scalar/icenet.py
index 596f639..7cf224f 100644
--- a/meshiphi/dataloaders/scalar/icenet.py
+++ b/meshiphi/dataloaders/scalar/icenet.py
@@ -3,6 +3,7 @@ from meshiphi.dataloaders.scalar.abstract_scalar import ScalarDataLoader
 import logging
 
 from datetime import datetime, timedelta
+from os.path import basename
 
 import xarray as xr
 from pandas import to_timedelta
@@ -30,7 +31,7 @@ class IceNetDataLoader(ScalarDataLoader):
             Assumes file names are in the format 
             <hemisphere>_daily_forecast.<YYYY-MM-DD>.nc
             '''
-            return datetime.strptime(filename.split('.')[1], '%Y-%m-%d')
+            return datetime.strptime(basename(filename).split('.')[1], '%Y-%m-%d')
         
         # Convert temporal boundary to datetime objects for comparison
         max_time = datetime.strptime(bounds.get_time_max(), '%Y-%m-%d')
-- 
2.43.0


From 95cd41eea79f2a6d620572d712290dd914b848e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:11 +0000
Subject: [PATCH 20/35] fix: order ECMWF forecasts by time rather than by file
 name

---
 meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py b/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py
index 4e3d895..14dd20f 100644
--- a/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py
+++ b/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py
@@ -83,6 +83,8 @@ class ECMWFSigWaveHeightDataLoader(ScalarDataLoader):
                          f'[ {bounds.get_time_min()} : {bounds.get_time_max()} ]')
             raise FileNotFoundError('No ECMWF Wave files found within specified time range!')
         data = xr.concat(data_array,'time')
+        # Files are in alphabetical order, so sort for sel() to work
+        data = data.sortby('time')
         
         # Extract just SWH
         data = data['swh'].to_dataset()
-- 
2.43.0


From 85a781f444976401bf75db1e60a457f113893b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:15 +0000
Subject: [PATCH 21/35] fix: return plain numbers for the MIN and MAX of vector
 records, so the mesh can be saved

---
 meshiphi/dataloaders/vector/abstract_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 6c67881..aaaa3c4 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -423,13 +423,13 @@ class VectorDataLoader(DataLoaderInterface):
             elif agg_type == 'MIN':
                 index = dps['_magnitude'].idxmin(skipna=skipna)
                 if ~np.isnan(index):
-                    values = [dps[name][index] for name in variable_names]
+                    values = [dps[name][index].item() for name in variable_names]
                 else:
                     values = [np.nan for name in variable_names]
             elif agg_type == 'MAX':
                 index = dps['_magnitude'].idxmax(skipna=skipna)
                 if ~np.isnan(index):
-                    values = [dps[name][index] for name in variable_names]
+                    values = [dps[name][index].item() for name in variable_names]
                 else:
                     values = [np.nan for name in variable_names]
             elif agg_type == 'MEAN':
-- 
2.43.0


From 16011dec105246123f9f247386e93fce770064df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:02 +0000
Subject: [PATCH 22/35] fix: refuse to save a mesh in an unknown format instead
 of only logging it

---
 meshiphi/mesh_generation/environment_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index c79e1aa..ca1e72f 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1501,5 +1501,5 @@ class EnvironmentMesh:
             self.to_png(format_params, path)
 
         else:
-            logging.warning(f"Cannot save mesh in a {format} format")
+            raise ValueError(f"Cannot save mesh in a {format} format")
 
-- 
2.43.0


From b5c9273792d3c6883cb719efc194b7ef1d3cdd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:26 +0000
Subject: [PATCH 23/35] fix: GeoTIFF pixels are sampled by line and column,
 also over the antimeridian

---
 meshiphi/mesh_generation/environment_mesh.py | 26 +++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index ca1e72f..55635f4 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1233,18 +1233,20 @@ class EnvironmentMesh:
                     samples([[lat,long],..]): an array of samples, each item in the array is a 2d array that contains each sample lat and long.\n
 
             """
-            mesh_height = self.bounds.get_lat_max() - self.bounds.get_lat_min()
-            mesh_width = self.bounds.get_long_max() - self.bounds.get_long_min()
-            pixel_height = mesh_height / ncols
-            pixel_width = mesh_width / nlines
+            mesh_height = self.bounds.get_height()
+            mesh_width = self.bounds.get_width()
+            pixel_height = mesh_height / nlines
+            pixel_width = mesh_width / ncols
             samples = []
             # has to move in this direction as we start rendering from the upper left pixel
-            for lat in np.arange(self.bounds.get_lat_max(), self.bounds.get_lat_min(), -1*pixel_height):
-                for long in np.arange(self.bounds.get_long_min(), self.bounds.get_long_max(), pixel_width):
-                    pixel_lat = lat - 0.5 * pixel_height   # centeralize the pixel lat value
-                    pixel_long = long + 0.5*pixel_width   # centeralize the pixel long value
-                    samples = np.append(samples, pixel_lat)
-                    samples = np.append(samples, pixel_long)
+            for line in range(nlines):
+                for col in range(ncols):
+                    # centeralize the pixel lat and long values
+                    pixel_lat = self.bounds.get_lat_max() - (line + 0.5) * pixel_height
+                    pixel_long = self.bounds.get_long_min() + (col + 0.5) * pixel_width
+                    if pixel_long > 180:    # mesh crosses the antimeridian
+                        pixel_long -= 360
+                    samples.append([pixel_lat, pixel_long])
             # shape the samples in 2d array (each entry in the array holds sample lat and long
             samples = np.reshape(samples, (nlines * ncols, 2))
             return samples
@@ -1394,8 +1396,8 @@ class EnvironmentMesh:
         ncols = params["sampling_resolution"][1]
 
         # define image extent based on mesh bounds
-        extent = [self.bounds.get_long_min(), self.bounds.get_lat_min(
-        ), self.bounds.get_long_max(), self.bounds.get_lat_max()]
+        extent = [self.bounds.get_long_min(), self.bounds.get_lat_min(),
+                  self.bounds.get_long_min() + self.bounds.get_width(), self.bounds.get_lat_max()]
 
         logging.info("Generating the tif image ...")
         samples = generate_samples()
-- 
2.43.0


From d7082ccc74971f2b5de7549720db97bd69b8be4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:50 +0000
Subject: [PATCH 24/35] fix: build GeoTIFF exports in memory and report a
 failed write, leaving no scratch files

---
 meshiphi/mesh_generation/environment_mesh.py | 96 ++++++++++++--------
 1 file changed, 58 insertions(+), 38 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 55635f4..286346d 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -5,10 +5,9 @@ import geopandas as gpd
 import pandas as pd
 from shapely import wkt
 import numpy as np
-import subprocess
 import sys
 import os
-import tempfile
+import uuid
 from shapely import wkt
 
 from meshiphi.mesh_generation.boundary import Boundary
@@ -1326,62 +1325,81 @@ class EnvironmentMesh:
                         params["colour_conf"] = input_params["colour_conf"]
             return params
 
-        def transform_proj(path, params, default_proj):
+        def check_gdal(dataset):
             """
-                  method that transforms the generated tif into another projection
+                  GDAL reports errors by its return values and error state, unless told to raise exceptions
 
                   Args:
-                        path(string): the path of the generated tif
+                        dataset: the result of a GDAL call
+                  Returns:
+                        dataset: the given result
+            """
+            if dataset is None or gdal.GetLastErrorType() >= gdal.CE_Failure:
+                raise OSError(f'Cannot generate GeoTIFF: {gdal.GetLastErrorMsg()}')
+            return dataset
+
+        def transform_proj(grid_data, params, default_proj):
+            """
+                  method that transforms the generated grid into another projection
+
+                  Args:
+                        grid_data: the generated grid, a GDAL dataset
                         params (dict): a dict that contains the export parametrs
                         default_proj (stirng): a string represents the default projection (EPSG:4326).\n
 
+                  Returns:
+                        grid_data: the grid in the requested projection
+
             """
             if params["projection"] != str(default_proj):
                 dest = osr.SpatialReference()
                 dest.ImportFromEPSG(int(params["projection"]))
-                # transform to target proj and save
-                gdal.Warp(str(path),  str(path), dstSRS=dest.ExportToWkt())
+                # transform to target proj
+                return check_gdal(gdal.Warp('', grid_data, format='MEM', dstSRS=dest.ExportToWkt()))
+            return grid_data
         
-        def set_colour(data, input_file, params):
+        def set_colour(data, grid_data, params):
             """
                   method that changes the color of the generated tif instead of using the default greyscale.
                   It defines a scale of RGB colors based on the range of data values(an example file is in unit_tests/resources/colour_conf.txt).\n
 
                   Args:
                         data ([float]): an array conatins the values of the 'data_name'
-                        input_path(string): the path of the generated grey tif
+                        grid_data: the generated grid, a GDAL dataset
                         params (dict): a dict that contains the export parametrs.\n
 
+                  Returns:
+                        image (bytes): the content of the coloured tif
+
             """
-            fp, color_file = tempfile.mkstemp(suffix='.txt')
             data = data[~np.isnan(data)]  # get rid of the nans before calculating range
             _max = np.nanmax(data)
             _min = np.nanmin(data)
             _range = _max-_min
             inf_color = '255 0 0' # red color for inf value
             colors = ['255 255 255', '173 216 230', '0 0 128', '0 0 139']  # default color
-            with open(color_file, 'w') as f:
-                for i, c in enumerate(colors[:-1]):
-                    f.write(str(int(_min + (i + 1)*_range/len(colors))) +
-                            ' ' + c + '\n')
-                f.write(str(int(_max - _range/len(colors))) +
-                        ' ' + colors[-1] + '\n')
-                f.write (str(np.nan) +
-                        ' ' + inf_color + '\n') # render nans in red
-            os.close(fp)
-            if "colour_conf" in params.keys():
-                color_file = params["colour_conf"]
-            cmd = "gdaldem color-relief " + input_file \
-                + ' ' + color_file + ' ' + input_file
-            subprocess.check_call(cmd, shell=True)
-            # remove additional files created while generating the tif
-            file_path = os.path.abspath(input_file)
-            dir_path = os.path.split(file_path)[0]
-            additional_files = ["grid_data" , "grid_data.aux.xml"]
-            for file in additional_files: 
-                file_path = Path(dir_path +"/"+ file)
-                if os.path.isfile (file_path):
-                     os.remove(file_path)
+            colour_map = ''
+            for i, c in enumerate(colors[:-1]):
+                colour_map += str(int(_min + (i + 1)*_range/len(colors))) + ' ' + c + '\n'
+            colour_map += str(int(_max - _range/len(colors))) + ' ' + colors[-1] + '\n'
+            colour_map += str(np.nan) + ' ' + inf_color + '\n' # render nans in red
+
+            # GDAL's in-memory files
+            color_file = f'/vsimem/{uuid.uuid4()}.txt'
+            tif_file = f'/vsimem/{uuid.uuid4()}.tif'
+            try:
+                gdal.FileFromMemBuffer(color_file, colour_map.encode())
+                dataset = check_gdal(gdal.DEMProcessing(tif_file, grid_data, 'color-relief', format='GTiff',
+                                                        colorFilename=params.get("colour_conf", color_file)))
+                dataset = None # complete the file
+                size = gdal.VSIStatL(tif_file).size
+                tif = gdal.VSIFOpenL(tif_file, 'rb')
+                image = gdal.VSIFReadL(1, size, tif)
+                gdal.VSIFCloseL(tif)
+            finally:
+                gdal.Unlink(color_file)
+                gdal.Unlink(tif_file)
+            return image
 
         # Only import if we need GDAL, to avoid having it as a requirement
         from osgeo import gdal, ogr, osr
@@ -1402,14 +1420,14 @@ class EnvironmentMesh:
         logging.info("Generating the tif image ...")
         samples = generate_samples()
         # create raster band and populate with sampled data of image_size (sampling_resolution)
-        driver = gdal.GetDriverByName('GTiff')
+        driver = gdal.GetDriverByName('MEM')
         # reading the samples value
         data = []
         data = np.reshape(np.asarray([get_sample_value(
             sample) for sample in samples], dtype=np.float32), (nlines, ncols))
         # create a temp grid
         grid_data = driver.Create(
-            'grid_data', ncols, nlines, 1, gdal.GDT_Float32)
+            '', ncols, nlines, 1, gdal.GDT_Float32)
         # setup geo-transform
         grid_data.SetGeoTransform(get_geo_transform(extent, nlines, ncols))
         # Write data
@@ -1419,10 +1437,12 @@ class EnvironmentMesh:
         grid_data.GetRasterBand(1).WriteArray(data)
     
 
-        # Save the file
-        driver.CreateCopy(path, grid_data, 0)
-        transform_proj(path, params, DEFAULT_PROJ)
-        set_colour(data, path, params)
+        gdal.ErrorReset()
+        # Save the file, built in memory so that only the finished image is written
+        grid_data = transform_proj(grid_data, params, DEFAULT_PROJ)
+        image = set_colour(data, grid_data, params)
+        with open(path, 'wb') as f:
+            f.write(image)
         logging.info(f'Generated GeoTIFF: {path}')
 
     def cellboxes_to_json(self):
-- 
2.43.0


From fe81ff858e5d2b47611c4ec40b019bc98b24acd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:51 +0000
Subject: [PATCH 25/35] fix: a mesh plot is drawn on and saved from its own
 figure

---
 meshiphi/mesh_plotting/mesh_plotter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshiphi/mesh_plotting/mesh_plotter.py b/meshiphi/mesh_plotting/mesh_plotter.py
index 4635489..c35585d 100644
--- a/meshiphi/mesh_plotting/mesh_plotter.py
+++ b/meshiphi/mesh_plotting/mesh_plotter.py
@@ -28,7 +28,7 @@ class MeshPlotter:
 
         self.fig = plt.figure(figsize=(self.figscale * self.aspect_ratio, self.figscale))
 
-        self.plot = plt.axes(projection=ccrs.PlateCarree())
+        self.plot = self.fig.add_subplot(projection=ccrs.PlateCarree())
         self.plot.set_extent([self.long_min, self.long_max, self.lat_min, self.lat_max])
 
 
@@ -72,4 +72,4 @@ class MeshPlotter:
         Args:
             filename (str): The name of the file to save the plot to.
         """
-        plt.savefig(filename)
\ No newline at end of file
+        self.fig.savefig(filename)
\ No newline at end of file
-- 
2.43.0


From 915d3140949832bef574da7457978758cb8fb19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:44 +0000
Subject: [PATCH 26/35] fix: add_dataloader gives every cell its part of the
 added data

The documented way to add a source to a builder handed all cells one metadata
object without data, so building the mesh failed; it also failed when the
first cell had been split by an earlier build, and returned nothing although
its documentation says it returns the builder.
---
 meshiphi/mesh_generation/mesh_builder.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/meshiphi/mesh_generation/mesh_builder.py b/meshiphi/mesh_generation/mesh_builder.py
index fdecde8..a6d1293 100644
--- a/meshiphi/mesh_generation/mesh_builder.py
+++ b/meshiphi/mesh_generation/mesh_builder.py
@@ -304,15 +304,23 @@ class MeshBuilder:
         value_fill_type = self.check_value_fill_type(data_source)
         
         meta_data_obj = Metadata(
-            dataloader, updated_splitting_cond,  value_fill_type)
+            dataloader, updated_splitting_cond,  value_fill_type, dataloader.data)
         
+        updated_cellboxes = set()
         for cellbox in self.mesh.cellboxes:
-            if isinstance(cellbox, CellBox):
+            # Parents (split by an earlier build) need it too, to fill their empty children
+            while isinstance(cellbox, CellBox) and cellbox not in updated_cellboxes:
                 cellbox.set_minimum_datapoints(min_dp)
                 # Add new meta data to list of data sources per cellbox
+                # with the subset of the data that lies within the cellbox
                 cellbox.set_data_source(
-                    cellbox.get_data_source() + [meta_data_obj]
+                    cellbox.get_data_source() +
+                    self.initialize_meta_data_subsets(cellbox.bounds, [meta_data_obj])
                 )
+                updated_cellboxes.add(cellbox)
+                cellbox = cellbox.get_parent()
+
+        return self
 
         
 
@@ -567,7 +575,9 @@ class MeshBuilder:
         logging.info ("Splitting cellboxes...")
         # loop over the data_sources then cellboxes to implement depth-first splitting. should be simpler and loop over cellboxes only once we switch to breadth-first splitting
         # this impl assumws all the cellboxes have the same data sources. should not be the caase once we switch to breadth-first splitting.
-        data_sources = self.mesh.cellboxes[0].get_data_source()
+        # cellboxes that have been split already (by an earlier build) have been replaced by None
+        data_sources = next(cellbox for cellbox in self.mesh.cellboxes
+                            if isinstance(cellbox, CellBox)).get_data_source()
         
         # Set up data_source progress bar
         ds_pbar = tqdm(range(0, len(data_sources)), position=0, 
-- 
2.43.0


From 45cf55dfc84791f9a3419ded116faf697fedcbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:19 +0000
Subject: [PATCH 27/35] fix: MODIS loader read an attribute that is never set
 and kept the cloud mask as a second variable

---
 meshiphi/dataloaders/scalar/modis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/modis.py b/meshiphi/dataloaders/scalar/modis.py
index 4f0fe82..166ad6a 100644
--- a/meshiphi/dataloaders/scalar/modis.py
+++ b/meshiphi/dataloaders/scalar/modis.py
@@ -18,7 +18,7 @@ class MODISDataLoader(ScalarDataLoader):
                 MODIS dataset within limits of bounds. 
                 Dataset has coordinates 'lat', 'long', and variable 'SIC'
         '''
-        logging.info(f"- Opening file {self.file}")
+        logging.info(f"- Opening files {self.files}")
         # Open Dataset
         if len(self.files) == 1:    data = xr.open_dataset(self.files[0])
         else:                       data = xr.open_mfdataset(self.files)
@@ -26,7 +26,9 @@ class MODISDataLoader(ScalarDataLoader):
         data = data.rename({'iceArea': 'SIC'})
 
         # Set areas obscured by cloud to NaN values
-        data = data.where(data.cloud != 1, drop=True)
+        data = data.where((data.cloud != 1).compute(), drop=True)
+        # Limit to just SIC data
+        data = data['SIC'].to_dataset()
         # Trim to initial datapoints
         data = self.trim_datapoints(bounds, data=data)
         
-- 
2.43.0


From 3108e2fee95d904a6e1e71b569d91e664652b39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:37 +0000
Subject: [PATCH 28/35] fix: vector values couldn't be aggregated from gridded
 data given as several files

---
 meshiphi/dataloaders/vector/abstract_vector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index aaaa3c4..3937b44 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -463,6 +463,9 @@ class VectorDataLoader(DataLoaderInterface):
                 dict:
                     {variable_name: np.float64}: Aggregated value in a dictionary
             '''
+            # Data opened from several files is lazy, and can't be indexed or
+            # cast to single values until it's been loaded
+            dps = dps.compute()
             # Info on size of array
             data_count = dps._magnitude.size 
             logging.debug(f"\t{data_count} datapoints found for attribute '{self.data_name}' within bounds '{bounds}'")
-- 
2.43.0


From e42b94bba4a68b90df77dd392b1722a57f3079af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:29 +0000
Subject: [PATCH 29/35] fix: look-up tables split every cell at the poles and
 the antimeridian as if a polygon ended there

---
 meshiphi/dataloaders/lut/abstract_lut.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index ec8f987..4827687 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -10,6 +10,7 @@ from shapely.geometry import MultiPolygon, Point, LineString
 from shapely.strtree import STRtree
 from shapely.ops import unary_union
 
+from meshiphi.mesh_generation.boundary import Boundary
 from meshiphi.utils import round_to_sigfig
 
 class LutDataLoader(DataLoaderInterface):
@@ -341,7 +342,11 @@ class LutDataLoader(DataLoaderInterface):
                 hom_type = "HOM"
         # If we want to split on the boundary
         elif splitting_conds['boundary']:
-            if any(p.boundary.intersects(bounds_polygon) for p in polygons):
+            # NOTE: The poles and the antimeridian bound every polygon that 
+            #       reaches them, but nothing changes there
+            world_edge = Boundary([-90, 90], [-180, 180]).to_polygon().boundary
+            if any(p.boundary.difference(world_edge).intersects(bounds_polygon) 
+                   for p in polygons):
                 hom_type = 'HET'
             
         # Otherwise no boundaries intersected bounds
-- 
2.43.0


From 636bd892995f69f57ea42eeb2f51a1f79fc8c965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:37 +0000
Subject: [PATCH 30/35] fix: the latest ECMWF wave forecast was chosen by path
 instead of file name

---
 meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py b/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py
index 14dd20f..ee21ce6 100644
--- a/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py
+++ b/meshiphi/dataloaders/scalar/ecmwf_sig_wave_height.py
@@ -55,7 +55,8 @@ class ECMWFSigWaveHeightDataLoader(ScalarDataLoader):
         end_time   = datetime.strptime(bounds.get_time_max(), '%Y-%m-%d')
         
         # Go through reverse alphabetical list until date < start_date found 
-        self.files = sorted(self.files, reverse=True)
+        # (by file name only, as files may lie in different folders)
+        self.files = sorted(self.files, key=os.path.basename, reverse=True)
         for file in self.files:
             base_date = extract_base_date(file)
             if  base_date < start_time:
-- 
2.43.0


From b05fe137d9b62b0c6f1a7f3303984d162eac674f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:37 +0000
Subject: [PATCH 31/35] fix: fill values given as text were stored as text, and
 the documented 'zero' not at all

---
 meshiphi/mesh_generation/mesh_builder.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/meshiphi/mesh_generation/mesh_builder.py b/meshiphi/mesh_generation/mesh_builder.py
index a6d1293..4c7321a 100644
--- a/meshiphi/mesh_generation/mesh_builder.py
+++ b/meshiphi/mesh_generation/mesh_builder.py
@@ -228,9 +228,12 @@ class MeshBuilder:
                     return False
         value_fill_type = "parent"
         if 'value_fill_types' in data_source['params']:
-            if is_float (data_source  ['params']['value_fill_types']) or   data_source['params']['value_fill_types'] in ["parent" ,"Nan"]:
-                value_fill_type = data_source  ['params']['value_fill_types']
-            else:
+            # a fill value may be given as a string (e.g. "0.0", "nan"), but cellboxes hold numbers
+            if is_float (data_source  ['params']['value_fill_types']):
+                value_fill_type = float(data_source  ['params']['value_fill_types'])
+            elif data_source['params']['value_fill_types'] == "zero":
+                value_fill_type = 0.0
+            elif data_source['params']['value_fill_types'] != "parent":
                 logging.warning("Invalid value for value_fill_types, setting to the default(parent) instead.")
         return value_fill_type
 
-- 
2.43.0


From 57403436457479e16bf67d45ebe019683f671df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:37 +0000
Subject: [PATCH 32/35] fix: a mesh over the antimeridian could not be plotted

---
 meshiphi/mesh_plotting/mesh_plotter.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/meshiphi/mesh_plotting/mesh_plotter.py b/meshiphi/mesh_plotting/mesh_plotter.py
index c35585d..39b620d 100644
--- a/meshiphi/mesh_plotting/mesh_plotter.py
+++ b/meshiphi/mesh_plotting/mesh_plotter.py
@@ -24,12 +24,17 @@ class MeshPlotter:
 
         self.figscale = figscale
         
-        self.aspect_ratio = (self.long_max - self.long_min) / (self.lat_max - self.lat_min)
+        # A region over the antimeridian is drawn around it
+        self.central_long = 180 if self.long_max < self.long_min else 0
+        self.width = (self.long_max - self.long_min) % 360 or 360
+
+        self.aspect_ratio = self.width / (self.lat_max - self.lat_min)
 
         self.fig = plt.figure(figsize=(self.figscale * self.aspect_ratio, self.figscale))
 
-        self.plot = self.fig.add_subplot(projection=ccrs.PlateCarree())
-        self.plot.set_extent([self.long_min, self.long_max, self.lat_min, self.lat_max])
+        self.plot = self.fig.add_subplot(projection=ccrs.PlateCarree(self.central_long))
+        west = self.long_min - self.central_long
+        self.plot.set_extent([west, west + self.width, self.lat_min, self.lat_max], self.plot.projection)
 
 
     def plot_bool(self, value_name, colour):
-- 
2.43.0


From 0f271bf19ab0277bef99489f43e5099c51736094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:49 +0000
Subject: [PATCH 33/35] fix: look-up tables weighted every polygon alike and
 returned a whole row as their median

---
 meshiphi/dataloaders/lut/abstract_lut.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index 4827687..41e5fd5 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -274,15 +274,20 @@ class LutDataLoader(DataLoaderInterface):
             # Skipna not easily parsed to remaining calculations, so force it here
             if skipna: polygons = polygons.dropna()
             # Mean, median, and std dev need to be weighted by size of polygons
-            polygons = polygons.assign(weights=lambda row: 
-                                        self.calculate_coverage(bounds, 
-                                                                row['geometry']))
-            if agg_type == 'MEAN':
+            polygons = polygons.assign(
+                weights=[self.calculate_coverage(bounds, pd.Series([polygon])) 
+                         for polygon in polygons['geometry']])
+            # If polygons only touch bounds, none of it is covered
+            if polygons['weights'].sum() == 0:
+                ret_val = np.nan
+            
+            elif agg_type == 'MEAN':
                 ret_val = np.average(polygons[self.data_name], 
                                 weights=polygons['weights'])
             
             elif agg_type == 'MEDIAN':
-                # Chunk by cumulative weight
+                # Chunk by cumulative weight, from lowest to highest value
+                polygons = polygons.sort_values(self.data_name)
                 polygons['cumulative_weights'] = polygons['weights'].cumsum(
                                                                     skipna=skipna)
                 # Find middle of cumulative weight
@@ -290,7 +295,8 @@ class LutDataLoader(DataLoaderInterface):
                 median_pos = total_weight/2
                 # Extract top half and return lowest value (value closest to halfway)
                 top_half = polygons.loc[polygons['cumulative_weights'] >= median_pos]
-                ret_val = top_half.iloc[0]
+                if not polygons[self.data_name].isna().any():
+                    ret_val = top_half.iloc[0][self.data_name]
             
             elif agg_type == 'STD':
                 # Calculate std dev manually to account for weight
-- 
2.43.0


From a22f96d5a8b387699e965dfdd18b37a34e4d53f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:49 +0000
Subject: [PATCH 34/35] fix: ERA5 wind at longitudes west of Greenwich was left
 out

---
 meshiphi/dataloaders/vector/era5_wind.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/meshiphi/dataloaders/vector/era5_wind.py b/meshiphi/dataloaders/vector/era5_wind.py
index a075775..19f809d 100644
--- a/meshiphi/dataloaders/vector/era5_wind.py
+++ b/meshiphi/dataloaders/vector/era5_wind.py
@@ -35,6 +35,11 @@ class ERA5WindDataLoader(VectorDataLoader):
         data = data.rename({'latitude': 'lat',
                             'longitude': 'long'})
 
+        # Change domain of dataset from [0:360) to [-180:180)
+        data = data.assign_coords(long=((data.long + 180) % 360) - 180)
+        # Sort the 'long' axis so that sel() will work
+        data = data.sortby('long')
+
         # Set min time to start of month to ensure we include data as we only have a
         # monthly cadence. Assuming time is in str format
         time_min = datetime.strptime(bounds.get_time_min(), '%Y-%m-%d')
-- 
2.43.0


From 8ae4f5d5ffbb698d282b5bb8da31f8a439aeda4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:25 +0000
Subject: [PATCH 35/35] fix: shapes missing from a truncated shapefile were
 silently left out

---
 meshiphi/dataloaders/lut/lut_shapefile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/meshiphi/dataloaders/lut/lut_shapefile.py b/meshiphi/dataloaders/lut/lut_shapefile.py
index 852e5b2..8b18bde 100644
--- a/meshiphi/dataloaders/lut/lut_shapefile.py
+++ b/meshiphi/dataloaders/lut/lut_shapefile.py
@@ -51,6 +51,9 @@ class LutShapefile(LutDataLoader):
         # Read in all files specified and extract geometry of shapes
         gdf_list = [gpd.read_file(file) for file in self.files]
         shape_df = gpd.GeoDataFrame(pd.concat(gdf_list, ignore_index=True))
+        # A shape that could not be read (e.g. file is truncated) is left empty
+        if shape_df.geometry.isna().any():
+            raise ValueError(f'Shapes without geometry in {self.files}')
         # Give shapes a value defined in config
         shape_df[self.data_name] = self.value
         shape_df = pd.DataFrame(shape_df[['geometry',self.data_name]])
-- 
2.43.0

