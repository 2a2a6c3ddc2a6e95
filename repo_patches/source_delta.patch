From fe87313ca2aa299957fbe34225ecc5d2a63c55f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:52 +0000
Subject: [PATCH 01/25] fix: keep the points inside, not outside, an
 antimeridian-crossing boundary

---
 meshiphi/dataloaders/scalar/abstract_scalar.py | 4 ++--
 meshiphi/dataloaders/vector/abstract_vector.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/abstract_scalar.py b/meshiphi/dataloaders/scalar/abstract_scalar.py
index 36cb389..826b09b 100644
--- a/meshiphi/dataloaders/scalar/abstract_scalar.py
+++ b/meshiphi/dataloaders/scalar/abstract_scalar.py
@@ -272,8 +272,8 @@ class ScalarDataLoader(DataLoaderInterface):
             else:
                 mask = (data['lat']  > bounds.get_lat_min())  & \
                     (data['lat']  <= bounds.get_lat_max())  & \
-                    (data['long'] <= bounds.get_long_min()) & \
-                    (data['long'] > bounds.get_long_max())
+                    ((data['long'] > bounds.get_long_min()) | \
+                    (data['long'] <= bounds.get_long_max()))
             # Mask with time if time column exists
             if 'time' in data.columns:
                 mask &= (data['time'] >= bounds.get_time_min()) & \
diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 26cc222..6c67881 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -327,8 +327,8 @@ class VectorDataLoader(DataLoaderInterface):
             else:
                 mask = (data['lat']  > bounds.get_lat_min())  & \
                     (data['lat']  <= bounds.get_lat_max())  & \
-                    (data['long'] <= bounds.get_long_min()) & \
-                    (data['long'] > bounds.get_long_max())
+                    ((data['long'] > bounds.get_long_min()) | \
+                    (data['long'] <= bounds.get_long_max()))
             # Mask with time if time column exists
             if 'time' in data.columns:
                 mask &= (data['time'] >= bounds.get_time_min()) & \
-- 
2.43.0


From 1e278ce6b3672ddc898c0dac3eecc7be8e918263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:52 +0000
Subject: [PATCH 02/25] fix: wrap the middle longitude when splitting an
 antimeridian-crossing boundary

---
 meshiphi/mesh_generation/boundary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/boundary.py b/meshiphi/mesh_generation/boundary.py
index 8d16204..f9f9e42 100644
--- a/meshiphi/mesh_generation/boundary.py
+++ b/meshiphi/mesh_generation/boundary.py
@@ -414,7 +414,8 @@ class Boundary:
                 original boundary.
         """
         lat_mid = self.get_lat_min() + (self.get_height() / 2)
-        long_mid = self.get_long_min() + (self.get_width() / 2)
+        # Wraps back into -180:180 if over the antimeridian
+        long_mid = self.getcx()
 
         # 0 = south_west, 1 = north_west, 2 = south_east, 3 = north_east
         bounds = [
-- 
2.43.0


From 608a90aa8311cb9d2c6c6ee845618dabaa43fa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:52 +0000
Subject: [PATCH 03/25] fix: check both ends of the longitude range against
 both limits

---
 meshiphi/mesh_generation/boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/boundary.py b/meshiphi/mesh_generation/boundary.py
index f9f9e42..4133b4a 100644
--- a/meshiphi/mesh_generation/boundary.py
+++ b/meshiphi/mesh_generation/boundary.py
@@ -192,7 +192,7 @@ class Boundary:
             raise ValueError('Boundary: range should contain two values')
         if lat_range[0] > lat_range [1]:
              raise ValueError(f'Boundary: Latitude start range {lat_range[0]} should be smaller than range end {lat_range[1]}')
-        if long_range[0] < -180 or long_range[1] > 180:
+        if min(long_range) < -180 or max(long_range) > 180:
             raise ValueError('Boundary: Longtitude range should be within -180:180')
         if time_range != []:
             if len(time_range) == 2:
-- 
2.43.0


From 8c3c277384950ccba0f668134a6f0ec027b41d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:52 +0000
Subject: [PATCH 04/25] fix: fill the missing vector component, not a key named
 after both components

---
 meshiphi/mesh_generation/cellbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/cellbox.py b/meshiphi/mesh_generation/cellbox.py
index c2bab10..11e957a 100644
--- a/meshiphi/mesh_generation/cellbox.py
+++ b/meshiphi/mesh_generation/cellbox.py
@@ -377,7 +377,7 @@ class CellBox:
                         agg_value[name] = loader.get_value(parent.bounds, data=parent_data_subset)[name]
                         parent = parent.get_parent()
                 else:  # not parent, so either float or Nan so set the agg_Data to value_fill_type
-                    agg_value[data_name] = source.get_value_fill_type()
+                    agg_value[name] = source.get_value_fill_type()
         return agg_value
 
     def deallocate_cellbox(self):
-- 
2.43.0


From 1e636a34568d4e50ba7b920fa213b9765166826b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:52 +0000
Subject: [PATCH 05/25] fix: increment the id kept in agg_data once, not twice

---
 meshiphi/mesh_generation/environment_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 1bda9a6..a0e214d 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -758,7 +758,7 @@ class EnvironmentMesh:
 
         for cellbox in self.agg_cellboxes:
             cellbox.set_id(str(int(cellbox.get_id()) + increment))
-            cellbox.agg_data['id'] = str(int(cellbox.get_id()) + increment)
+            cellbox.agg_data['id'] = cellbox.get_id()
 
         self.neighbour_graph.increment_ids(increment)
         
-- 
2.43.0


From 32b27efe8c2514688eaa76f82980bdfbc933bb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:52 +0000
Subject: [PATCH 06/25] fix: reject out of range cellbox indices in
 update_cellbox

---
 meshiphi/mesh_generation/environment_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index a0e214d..1df1b61 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1461,7 +1461,7 @@ class EnvironmentMesh:
               index (int): the index of the cellbox to be updated
               values (dict): a dict contains perf. metrics names and values
         """
-        if index > -1 or index < len(self.agg_cellboxes):
+        if index > -1 and index < len(self.agg_cellboxes):
             self.agg_cellboxes[index].agg_data.update(values)
         else:
             raise ValueError('Invalid cellbox index')
-- 
2.43.0


From b8b8ce8c5eddacdd95b61643ac5e688d72a417ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:52 +0000
Subject: [PATCH 07/25] fix: do not modify the given mesh in merge_mesh

---
 meshiphi/mesh_generation/environment_mesh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 1df1b61..834b946 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1,3 +1,4 @@
+import copy
 import json
 import logging
 import geopandas as gpd
@@ -218,6 +219,9 @@ class EnvironmentMesh:
 
         assert self.validate_merge_compatibility(mesh2), "The given mesh is not compatible with merging with this mesh" 
 
+        # work on a copy, as ids are changed below and the given mesh must not be
+        mesh2 = copy.deepcopy(mesh2)
+
         # append config files
         if "merged" not in self.config.keys():
             self.config["merged"] = []
-- 
2.43.0


From 0bf02eae3f55907587df39d6df60ff97ab675e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:52 +0000
Subject: [PATCH 08/25] fix: stop splitting around a point that falls on a cell
 edge

---
 meshiphi/mesh_generation/environment_mesh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index 834b946..ce26794 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -192,7 +192,8 @@ class EnvironmentMesh:
         for point in points:
             splitting_waypoint = True
             if self.query_inside_mesh(point):
-                while splitting_waypoint:
+                # a point on the edge of the new cells is not inside any of them
+                while splitting_waypoint and self.query_inside_mesh(point):
                     splitting_waypoint = self._split_loc(point)
 
     def get_cellbox(self, cellbox_id):
-- 
2.43.0


From da23ee418eaab73be18937d1f6e3de9ce5f415a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:52 +0000
Subject: [PATCH 09/25] fix: require the cell width to divide a global region
 too

---
 meshiphi/mesh_generation/mesh_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/mesh_builder.py b/meshiphi/mesh_generation/mesh_builder.py
index ca03886..c663dda 100644
--- a/meshiphi/mesh_generation/mesh_builder.py
+++ b/meshiphi/mesh_generation/mesh_builder.py
@@ -317,7 +317,7 @@ class MeshBuilder:
         
 
     def validate_bounds(self, bounds, cell_width, cell_height):
-        assert (bounds.get_long_max() - bounds.get_long_min()) % 360 % cell_width == 0, \
+        assert bounds.get_width() % cell_width == 0, \
             f"""The defined longitude region <{bounds.get_long_min()} :{bounds.get_long_max()}>
             is not divisable by the initial cell width <{cell_width}>"""
 
-- 
2.43.0


From 785ca4fe42993cfe002b4f8544e44a5917abb440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:13 +0000
Subject: [PATCH 10/25] fix: recognise cells touching across the antimeridian
 as neighbours

---
 meshiphi/mesh_generation/neighbour_graph.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/meshiphi/mesh_generation/neighbour_graph.py b/meshiphi/mesh_generation/neighbour_graph.py
index 1b75732..33ddf22 100644
--- a/meshiphi/mesh_generation/neighbour_graph.py
+++ b/meshiphi/mesh_generation/neighbour_graph.py
@@ -231,6 +231,12 @@ class NeighbourGraph:
         long_b = bounds_b.get_long_min()
         lat_b = bounds_b.get_lat_min()
 
+        # Compare longitudes on the same side of the antimeridian
+        if long_b - long_a > 180:
+            long_b -= 360
+        elif long_b - long_a < -180:
+            long_b += 360
+
         if (long_a + bounds_a.get_width()) == long_b and (
                 lat_a + bounds_a.get_height()) == lat_b:
             return Direction.north_east
@@ -314,6 +320,12 @@ class NeighbourGraph:
         if self.is_global_mesh() and on_global_bound (cellbox_a , cellbox_b) :
             return self.get_global_mesh_neighbour_case(cellbox_a, cellbox_b)
         
+        # Compare longitudes on the same side of the antimeridian
+        if long_b - long_a > 180:
+            long_b -= 360
+        elif long_b - long_a < -180:
+            long_b += 360
+
         if (long_a + cellbox_a.get_bounds().get_width()) == long_b and (
                 lat_a + cellbox_a.get_bounds().get_height()) == lat_b:
             return Direction.north_east
-- 
2.43.0


From 25172bd24a404c2aa25c69d73f130c3eef96ea08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:31 +0000
Subject: [PATCH 11/25] fix: a cell crossing the antimeridian contains the
 points on the antimeridian

---
 meshiphi/mesh_generation/aggregated_cellbox.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/aggregated_cellbox.py b/meshiphi/mesh_generation/aggregated_cellbox.py
index 23377d4..6c5f9d5 100644
--- a/meshiphi/mesh_generation/aggregated_cellbox.py
+++ b/meshiphi/mesh_generation/aggregated_cellbox.py
@@ -165,7 +165,13 @@ class AggregatedCellBox:
                 contains_points (bool): True if this CellBox contains a point given by
                     parameters (lat, long)
         """
-        shapely_boundary = self.boundary.to_polygon()
+        bounds = self.boundary
+        # The antimeridian is interior to a cellbox crossing it, but an edge of
+        # both of the polygons such a cellbox is made of
+        if abs(long) == 180 and bounds.get_long_min() > bounds.get_long_max() \
+                and bounds.get_long_min() < 180 and bounds.get_long_max() > -180:
+            return bounds.get_lat_min() < lat < bounds.get_lat_max()
+        shapely_boundary = bounds.to_polygon()
         point = Point(long, lat)
         return shapely_boundary.contains(point)
     
-- 
2.43.0


From c7e3a30c2899649e89254853d6474f3cfb17a034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:08 +0000
Subject: [PATCH 12/25] fix: weight look-up-table polygons by their own share
 of the boundary

---
 meshiphi/dataloaders/lut/abstract_lut.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index ec8f987..f8cafef 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -273,10 +273,13 @@ class LutDataLoader(DataLoaderInterface):
             # Skipna not easily parsed to remaining calculations, so force it here
             if skipna: polygons = polygons.dropna()
             # Mean, median, and std dev need to be weighted by size of polygons
-            polygons = polygons.assign(weights=lambda row: 
-                                        self.calculate_coverage(bounds, 
-                                                                row['geometry']))
-            if agg_type == 'MEAN':
+            polygons = polygons.assign(weights=polygons['geometry'].apply(
+                lambda geometry: self.calculate_coverage(bounds, pd.Series([geometry]))))
+            # If polygons only touch the edge of the boundary
+            if polygons['weights'].sum() == 0:
+                ret_val = np.nan
+
+            elif agg_type == 'MEAN':
                 ret_val = np.average(polygons[self.data_name], 
                                 weights=polygons['weights'])
             
-- 
2.43.0


From 2c2bae78a5501e24d22a70e608693af2a28deead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:08 +0000
Subject: [PATCH 13/25] fix: return the weighted median value of look-up-table
 polygons, not a table row

---
 meshiphi/dataloaders/lut/abstract_lut.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index f8cafef..0d5c326 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -284,7 +284,8 @@ class LutDataLoader(DataLoaderInterface):
                                 weights=polygons['weights'])
             
             elif agg_type == 'MEDIAN':
-                # Chunk by cumulative weight
+                # Chunk by cumulative weight, in order of value
+                polygons = polygons.sort_values(self.data_name)
                 polygons['cumulative_weights'] = polygons['weights'].cumsum(
                                                                     skipna=skipna)
                 # Find middle of cumulative weight
@@ -292,7 +293,7 @@ class LutDataLoader(DataLoaderInterface):
                 median_pos = total_weight/2
                 # Extract top half and return lowest value (value closest to halfway)
                 top_half = polygons.loc[polygons['cumulative_weights'] >= median_pos]
-                ret_val = top_half.iloc[0]
+                ret_val = top_half[self.data_name].iloc[0]
             
             elif agg_type == 'STD':
                 # Calculate std dev manually to account for weight
-- 
2.43.0


From 5e65ee0c6ecdc673fadcea7c12fe63329f85ac45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:08 +0000
Subject: [PATCH 14/25] fix: rename the data column, not the index, of look-up
 tables

---
 meshiphi/dataloaders/lut/abstract_lut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index 0d5c326..c127a40 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -402,7 +402,7 @@ class LutDataLoader(DataLoaderInterface):
         old_name = self.get_data_col_name()
         if old_name != new_name:
             logging.info(f"\tChanging data name from {old_name} to {new_name}")
-            return self.data.rename({old_name:new_name})
+            return self.data.rename(columns={old_name:new_name})
         else:
             logging.info(f"\tData is already labelled '{new_name}'")
             return self.data
-- 
2.43.0


From 076de6c604c2a2458da883680ab5b3f3fb7a0a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:08 +0000
Subject: [PATCH 15/25] fix: split_lock of look-up-table splitting conditions
 defaults to False

---
 meshiphi/dataloaders/lut/abstract_lut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/lut/abstract_lut.py b/meshiphi/dataloaders/lut/abstract_lut.py
index c127a40..6ee4aaf 100644
--- a/meshiphi/dataloaders/lut/abstract_lut.py
+++ b/meshiphi/dataloaders/lut/abstract_lut.py
@@ -341,7 +341,7 @@ class LutDataLoader(DataLoaderInterface):
         hom_type = 'CLR'
         # If there's no polygon that overlaps with bounds        
         if not any([polygon.intersects(bounds_polygon) for polygon in polygons]):
-            if splitting_conds['split_lock'] == True: 
+            if splitting_conds.get('split_lock', False) == True: 
                 hom_type = "HOM"
         # If we want to split on the boundary
         elif splitting_conds['boundary']:
-- 
2.43.0


From e43f3e9a2df262d99b1a60ee0adc27de5a4b94d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:22 +0000
Subject: [PATCH 16/25] fix: sample GeoTIFF pixels line by line and column by
 column

Pixel height and width were swapped between lines and columns, scrambling every
image whose resolution is not square; float steps could add a sample.
---
 meshiphi/mesh_generation/environment_mesh.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index ce26794..d3afd6a 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -1237,18 +1237,16 @@ class EnvironmentMesh:
             """
             mesh_height = self.bounds.get_lat_max() - self.bounds.get_lat_min()
             mesh_width = self.bounds.get_long_max() - self.bounds.get_long_min()
-            pixel_height = mesh_height / ncols
-            pixel_width = mesh_width / nlines
+            pixel_height = mesh_height / nlines
+            pixel_width = mesh_width / ncols
+            # each entry holds sample lat and long
             samples = []
             # has to move in this direction as we start rendering from the upper left pixel
-            for lat in np.arange(self.bounds.get_lat_max(), self.bounds.get_lat_min(), -1*pixel_height):
-                for long in np.arange(self.bounds.get_long_min(), self.bounds.get_long_max(), pixel_width):
-                    pixel_lat = lat - 0.5 * pixel_height   # centeralize the pixel lat value
-                    pixel_long = long + 0.5*pixel_width   # centeralize the pixel long value
-                    samples = np.append(samples, pixel_lat)
-                    samples = np.append(samples, pixel_long)
-            # shape the samples in 2d array (each entry in the array holds sample lat and long
-            samples = np.reshape(samples, (nlines * ncols, 2))
+            for line in range(nlines):
+                for col in range(ncols):
+                    pixel_lat = self.bounds.get_lat_max() - (line + 0.5) * pixel_height   # centeralize the pixel lat value
+                    pixel_long = self.bounds.get_long_min() + (col + 0.5) * pixel_width   # centeralize the pixel long value
+                    samples.append([pixel_lat, pixel_long])
             return samples
 
         def get_sample_value(sample):
-- 
2.43.0


From 219d747da629c8a02dc9038e326b337cf217e4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:38 +0000
Subject: [PATCH 17/25] fix: export GeoTIFFs of meshes that cross the
 antimeridian

The width of such a mesh came out negative, so no sample was generated and the
export failed.
---
 meshiphi/mesh_generation/environment_mesh.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/meshiphi/mesh_generation/environment_mesh.py b/meshiphi/mesh_generation/environment_mesh.py
index d3afd6a..836bbb8 100644
--- a/meshiphi/mesh_generation/environment_mesh.py
+++ b/meshiphi/mesh_generation/environment_mesh.py
@@ -17,6 +17,7 @@ from meshiphi.mesh_generation.neighbour_graph import NeighbourGraph
 
 
 from meshiphi.mesh_validation.sampler import Sampler
+from meshiphi.utils import longitude_domain
 import collections.abc
 import math
 from pathlib import Path
@@ -1236,7 +1237,7 @@ class EnvironmentMesh:
 
             """
             mesh_height = self.bounds.get_lat_max() - self.bounds.get_lat_min()
-            mesh_width = self.bounds.get_long_max() - self.bounds.get_long_min()
+            mesh_width = self.bounds.get_width()
             pixel_height = mesh_height / nlines
             pixel_width = mesh_width / ncols
             # each entry holds sample lat and long
@@ -1246,7 +1247,7 @@ class EnvironmentMesh:
                 for col in range(ncols):
                     pixel_lat = self.bounds.get_lat_max() - (line + 0.5) * pixel_height   # centeralize the pixel lat value
                     pixel_long = self.bounds.get_long_min() + (col + 0.5) * pixel_width   # centeralize the pixel long value
-                    samples.append([pixel_lat, pixel_long])
+                    samples.append([pixel_lat, longitude_domain(pixel_long)])
             return samples
 
         def get_sample_value(sample):
@@ -1395,7 +1396,7 @@ class EnvironmentMesh:
 
         # define image extent based on mesh bounds
         extent = [self.bounds.get_long_min(), self.bounds.get_lat_min(
-        ), self.bounds.get_long_max(), self.bounds.get_lat_max()]
+        ), self.bounds.get_long_min() + self.bounds.get_width(), self.bounds.get_lat_max()]
 
         logging.info("Generating the tif image ...")
         samples = generate_samples()
-- 
2.43.0


From eae6f367e8463b6ab20502dcc78e47d5520a148c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:16 +0000
Subject: [PATCH 18/25] fix: a data loader added to a mesh gives every cell its
 own share of the data

---
 meshiphi/mesh_generation/mesh_builder.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/meshiphi/mesh_generation/mesh_builder.py b/meshiphi/mesh_generation/mesh_builder.py
index c663dda..a5cd1e2 100644
--- a/meshiphi/mesh_generation/mesh_builder.py
+++ b/meshiphi/mesh_generation/mesh_builder.py
@@ -304,14 +304,16 @@ class MeshBuilder:
         value_fill_type = self.check_value_fill_type(data_source)
         
         meta_data_obj = Metadata(
-            dataloader, updated_splitting_cond,  value_fill_type)
+            dataloader, updated_splitting_cond,  value_fill_type, dataloader.data)
         
         for cellbox in self.mesh.cellboxes:
             if isinstance(cellbox, CellBox):
                 cellbox.set_minimum_datapoints(min_dp)
-                # Add new meta data to list of data sources per cellbox
+                # Add new meta data, limited to the data within the cellbox,
+                # to list of data sources per cellbox
                 cellbox.set_data_source(
-                    cellbox.get_data_source() + [meta_data_obj]
+                    cellbox.get_data_source()
+                    + self.initialize_meta_data_subsets(cellbox.bounds, [meta_data_obj])
                 )
 
         
-- 
2.43.0


From 557873551596a4dde188f0a6ac877131b432cf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:16 +0000
Subject: [PATCH 19/25] fix: add_dataloader returns the mesh builder, as
 documented

---
 meshiphi/mesh_generation/mesh_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/mesh_generation/mesh_builder.py b/meshiphi/mesh_generation/mesh_builder.py
index a5cd1e2..f8c39c3 100644
--- a/meshiphi/mesh_generation/mesh_builder.py
+++ b/meshiphi/mesh_generation/mesh_builder.py
@@ -316,7 +316,7 @@ class MeshBuilder:
                     + self.initialize_meta_data_subsets(cellbox.bounds, [meta_data_obj])
                 )
 
-        
+        return self
 
     def validate_bounds(self, bounds, cell_width, cell_height):
         assert bounds.get_width() % cell_width == 0, \
-- 
2.43.0


From 111051b68c1704ab5714c5e2195e9bc3beb67410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:22 +0000
Subject: [PATCH 20/25] fix: curl of gridded vector data differentiates along
 the right axes

---
 meshiphi/dataloaders/vector/abstract_vector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 6c67881..fbb6d9b 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -1064,7 +1064,8 @@ class VectorDataLoader(DataLoaderInterface):
         
         def meshgrid_from_xr(data, data_name_list):
             # Extract out each variable and combine as tuple
-            data_arrays = [data[name].values 
+            # with the same order of axes (long, lat) as for a pd.DataFrame
+            data_arrays = [data[name].transpose('long', 'lat', ...).values 
                                 for name in data_name_list]
             # Zip them together to make 2D array of n-dimensional vectors
             return np.dstack(data_arrays)
-- 
2.43.0


From e92b77c338158e63011fb026a6df7dee8222a67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:22 +0000
Subject: [PATCH 21/25] fix: calc_dmag works on gridded vector data

---
 meshiphi/dataloaders/vector/abstract_vector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index fbb6d9b..f5755fb 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -1010,6 +1010,10 @@ class VectorDataLoader(DataLoaderInterface):
         if data is None:    dps = self.trim_datapoints(bounds, data=data)
         else:               dps = data
             
+        # One row per vector, also for gridded data
+        if type(dps) == xr.core.dataset.Dataset:
+            dps = dps.to_dataframe()
+
         data_names = self.data_name_list
         each_vector = dps[data_names].to_numpy()
         ave_vector = list(self.get_value(bounds, agg_type=agg_type).values())
-- 
2.43.0


From 4a95e6b7be8066079928e794dfaf76df6979ed10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:23 +0000
Subject: [PATCH 22/25] fix: curl of a cell without data is not a number
 instead of an error

---
 meshiphi/dataloaders/vector/abstract_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index f5755fb..456b2a9 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -956,7 +956,7 @@ class VectorDataLoader(DataLoaderInterface):
         # Get component values for each vector
         fx, fy = vector_field[:, :, 0], vector_field[:, :, 1]
         # If not enough datapoints to compute gradient
-        if 1 in fx.shape or 1 in fy.shape:
+        if min(fx.shape) < 2 or min(fy.shape) < 2:
             logging.debug('\tUnable to compute gradient across cell for curl calculation')
             curl = np.nan
         else:
-- 
2.43.0


From 009704c98cfd0521a904b9accb0d05f2061a4831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:23 +0000
Subject: [PATCH 23/25] fix: add_mag_dir uses the data names it is given

---
 meshiphi/dataloaders/vector/abstract_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 456b2a9..20cf058 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -221,7 +221,7 @@ class VectorDataLoader(DataLoaderInterface):
         
         # Set defaults if not passed to method
         if data is None:        data = self.data
-        if data_names is None:  names = self.data_name_list
+        names = self.data_name_list if data_names is None else data_names
         
         # Perform operation on appropriate datatype
         if type(data) == pd.core.frame.DataFrame:
-- 
2.43.0


From d641692a3fe4d971ceb3099476cf35b388362a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:03 +0000
Subject: [PATCH 24/25] fix: dmag is relative to the mean vector whichever way
 it is collapsed

---
 meshiphi/dataloaders/vector/abstract_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 20cf058..4e93726 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -1016,7 +1016,7 @@ class VectorDataLoader(DataLoaderInterface):
 
         data_names = self.data_name_list
         each_vector = dps[data_names].to_numpy()
-        ave_vector = list(self.get_value(bounds, agg_type=agg_type).values())
+        ave_vector = list(self.get_value(bounds, agg_type='MEAN').values())
         
         delta_vector = each_vector - ave_vector
         
-- 
2.43.0


From f2207a474035a2e2feeb29e3304fb1c0dc7b6764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:16 +0000
Subject: [PATCH 25/25] fix: downsampling gives the mean, median and deviation
 of all values in a bin

---
 meshiphi/dataloaders/scalar/abstract_scalar.py | 9 +++------
 meshiphi/dataloaders/vector/abstract_vector.py | 9 +++------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/meshiphi/dataloaders/scalar/abstract_scalar.py b/meshiphi/dataloaders/scalar/abstract_scalar.py
index 826b09b..e030c8e 100644
--- a/meshiphi/dataloaders/scalar/abstract_scalar.py
+++ b/meshiphi/dataloaders/scalar/abstract_scalar.py
@@ -766,16 +766,13 @@ class ScalarDataLoader(DataLoaderInterface):
                 data = data.coarsen(long=ds[0],boundary='pad').max()
             elif agg_type == 'MEAN':
                 # Returns mean of bin
-                data = data.coarsen(lat=ds[1],boundary='pad').mean()
-                data = data.coarsen(long=ds[0],boundary='pad').mean()
+                data = data.coarsen(lat=ds[1],long=ds[0],boundary='pad').mean()
             elif agg_type == 'MEDIAN':
                 # Returns median of bin
-                data = data.coarsen(lat=ds[1],boundary='pad').median()
-                data = data.coarsen(long=ds[0],boundary='pad').median()
+                data = data.coarsen(lat=ds[1],long=ds[0],boundary='pad').median()
             elif agg_type == 'STD':
                 # Returns std_dev of range
-                data = data.coarsen(lat=ds[1],boundary='pad').std()
-                data = data.coarsen(long=ds[0],boundary='pad').std()
+                data = data.coarsen(lat=ds[1],long=ds[0],boundary='pad').std()
             elif agg_type =='COUNT': 
                 # Returns every first element in bin
                 data = data.thin(lat=ds[1])
diff --git a/meshiphi/dataloaders/vector/abstract_vector.py b/meshiphi/dataloaders/vector/abstract_vector.py
index 4e93726..418af93 100644
--- a/meshiphi/dataloaders/vector/abstract_vector.py
+++ b/meshiphi/dataloaders/vector/abstract_vector.py
@@ -766,16 +766,13 @@ class VectorDataLoader(DataLoaderInterface):
                 data = data.coarsen(long=ds[0],boundary='pad').max()
             elif agg_type == 'MEAN':
                 # Returns mean of bin
-                data = data.coarsen(lat=ds[1],boundary='pad').mean()
-                data = data.coarsen(long=ds[0],boundary='pad').mean()
+                data = data.coarsen(lat=ds[1],long=ds[0],boundary='pad').mean()
             elif agg_type == 'MEDIAN':
                 # Returns median of bin
-                data = data.coarsen(lat=ds[1],boundary='pad').median()
-                data = data.coarsen(long=ds[0],boundary='pad').median()
+                data = data.coarsen(lat=ds[1],long=ds[0],boundary='pad').median()
             elif agg_type == 'STD':
                 # Returns std_dev of range
-                data = data.coarsen(lat=ds[1],boundary='pad').std()
-                data = data.coarsen(long=ds[0],boundary='pad').std()
+                data = data.coarsen(lat=ds[1],long=ds[0],boundary='pad').std()
             elif agg_type =='COUNT': 
                 # Returns every first element in bin
                 data = data.thin(lat=ds[1])
-- 
2.43.0

