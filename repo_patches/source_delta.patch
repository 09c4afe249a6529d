From 4695a0d7d174ab08f0d17e4160cc3c0e87e00b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 01/59] verify hook: constructors for Timestep and GlobalStats
 under cfg(up4_verify)

---
 src/datamanager.rs | 55 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/src/datamanager.rs b/src/datamanager.rs
index d4f93a5..10b74b1 100644
--- a/src/datamanager.rs
+++ b/src/datamanager.rs
@@ -105,3 +105,58 @@ impl GlobalStats {
         Ok(mid)
     }
 }
+
+/// Constructors for out-of-tree verification harnesses (built with `--cfg up4_verify`).
+#[cfg(up4_verify)]
+impl Timestep {
+    #[allow(clippy::too_many_arguments)]
+    pub fn verify_new(
+        time: f64,
+        position: Array1<Position>,
+        velocity: Array2<f64>,
+        radius: Array1<f64>,
+        particleid: Array1<f64>,
+        clouds: Array1<f64>,
+        density: Array1<f64>,
+        ptype: Array1<f64>,
+    ) -> Self {
+        Timestep {
+            time,
+            position,
+            velocity,
+            radius,
+            particleid,
+            clouds,
+            density,
+            ptype,
+        }
+    }
+}
+
+#[cfg(up4_verify)]
+impl GlobalStats {
+    #[allow(clippy::too_many_arguments)]
+    pub fn verify_new(
+        dimensions: Array2<f64>,
+        nparticles: usize,
+        ntimesteps: usize,
+        min_time: f64,
+        max_time: f64,
+        sample_rate: f64,
+        velocity: Array2<f64>,
+        velocity_mag: Array1<f64>,
+        time_array: Array1<f64>,
+    ) -> Self {
+        GlobalStats {
+            dimensions,
+            nparticles,
+            ntimesteps,
+            min_time,
+            max_time,
+            sample_rate,
+            velocity,
+            velocity_mag,
+            time_array,
+        }
+    }
+}
-- 
2.43.0


From c1526cfc57ac2f64e3ea5d28a8f219b61bc52256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:36 +0000
Subject: [PATCH 02/59] fix: cartesian cell lookup used one cell too few per
 axis

---
 src/grid/cartesian_grid.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/grid/cartesian_grid.rs b/src/grid/cartesian_grid.rs
index 254e5b3..ab9b097 100644
--- a/src/grid/cartesian_grid.rs
+++ b/src/grid/cartesian_grid.rs
@@ -135,13 +135,18 @@ impl GridFunctions3D for CartesianGrid3D {
             ));
         }
         let cell_idx = ((pos[0] - self.limits[0][0]) / (self.limits[0][1] - self.limits[0][0])
-            * (self.cells[0] - 1) as f64) as usize;
+            * self.cells[0] as f64) as usize;
         let cell_idy = ((pos[1] - self.limits[1][0]) / (self.limits[1][1] - self.limits[1][0])
-            * (self.cells[1] - 1) as f64) as usize;
+            * self.cells[1] as f64) as usize;
         let cell_idz = ((pos[2] - self.limits[2][0]) / (self.limits[2][1] - self.limits[2][0])
-            * (self.cells[2] - 1) as f64) as usize;
-
-        Ok([cell_idx, cell_idy, cell_idz])
+            * self.cells[2] as f64) as usize;
+
+        // the upper limits belong to the last cells
+        Ok([
+            cell_idx.min(self.cells[0] - 1),
+            cell_idy.min(self.cells[1] - 1),
+            cell_idz.min(self.cells[2] - 1),
+        ])
     }
     #[allow(dead_code, unused_variables, unreachable_code)]
     fn cell_ids_in_trajectory(
-- 
2.43.0


From 656af02502346af29450dd6914e68118609cbef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:36 +0000
Subject: [PATCH 03/59] fix: slice panicked at the upper limit and ignored the
 ring widths

---
 src/grid/cartesian_grid.rs   |  1 +
 src/grid/cylindrical_grid.rs | 14 +++++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/grid/cartesian_grid.rs b/src/grid/cartesian_grid.rs
index ab9b097..7f0ec04 100644
--- a/src/grid/cartesian_grid.rs
+++ b/src/grid/cartesian_grid.rs
@@ -418,6 +418,7 @@ impl GridFunctions3D for CartesianGrid3D {
         let cell_id = ((position - self.limits[axis][0])
             / (self.limits[axis][1] - self.limits[axis][0])
             * self.cells[axis] as f64) as usize;
+        let cell_id = cell_id.min(self.cells[axis] - 1);
 
         if axis == 0 {
             self.data.slice(s![cell_id, .., ..]).to_owned()
diff --git a/src/grid/cylindrical_grid.rs b/src/grid/cylindrical_grid.rs
index 076fa23..9e73db6 100644
--- a/src/grid/cylindrical_grid.rs
+++ b/src/grid/cylindrical_grid.rs
@@ -370,9 +370,17 @@ impl GridFunctions3D for CylindricalGrid3D {
 
     fn slice(&self, axis: usize, position: f64) -> Array2<f64> {
         // find the length of theplane in each direction with triangulation
-        let cell_id = ((position - self.limits[axis][0])
-            / (self.limits[axis][1] - self.limits[axis][0])
-            * self.cells[axis] as f64) as usize;
+        let cell_id = if axis == 0 {
+            // the rings have equal volumes, not equal widths
+            self.rpositions
+                .iter()
+                .position(|radius| position < radius[1])
+                .unwrap_or(self.cells[0] - 1)
+        } else {
+            ((position - self.limits[axis][0]) / (self.limits[axis][1] - self.limits[axis][0])
+                * self.cells[axis] as f64) as usize
+        };
+        let cell_id = cell_id.min(self.cells[axis] - 1);
 
         if axis == 0 {
             self.data.slice(s![cell_id, .., ..]).to_owned()
-- 
2.43.0


From 56e9bdda7976f2eaf8fce4f7d1fbc2875157be51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 04/59] fix: new_zeros kept the weights of the grid it was
 called on

---
 src/grid/cartesian_grid.rs   | 1 +
 src/grid/cylindrical_grid.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/grid/cartesian_grid.rs b/src/grid/cartesian_grid.rs
index 7f0ec04..3a2b5c2 100644
--- a/src/grid/cartesian_grid.rs
+++ b/src/grid/cartesian_grid.rs
@@ -327,6 +327,7 @@ impl GridFunctions3D for CartesianGrid3D {
     fn new_zeros(&self) -> Box<dyn GridFunctions3D> {
         let mut grid = self.clone();
         grid.data = Array::zeros(self.cells);
+        grid.weight = Array::zeros(self.cells);
         Box::new(grid)
     }
 
diff --git a/src/grid/cylindrical_grid.rs b/src/grid/cylindrical_grid.rs
index 9e73db6..351c0af 100644
--- a/src/grid/cylindrical_grid.rs
+++ b/src/grid/cylindrical_grid.rs
@@ -282,6 +282,7 @@ impl GridFunctions3D for CylindricalGrid3D {
     fn new_zeros(&self) -> Box<dyn GridFunctions3D> {
         let mut grid = self.clone();
         grid.data = Array::zeros(self.cells);
+        grid.weight = Array::zeros(self.cells);
         Box::new(grid)
     }
 
-- 
2.43.0


From 629011e5b0e526303e9f967661cff92561f58951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 05/59] fix: cylindrical cell lookup was half a cell off and
 did not reject outside positions

---
 src/grid/cylindrical_grid.rs | 38 ++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/src/grid/cylindrical_grid.rs b/src/grid/cylindrical_grid.rs
index 351c0af..3157216 100644
--- a/src/grid/cylindrical_grid.rs
+++ b/src/grid/cylindrical_grid.rs
@@ -7,7 +7,7 @@ use ndarray::{prelude::*, RemoveAxis};
 use ndarray_stats::QuantileExt;
 use std::any::Any;
 
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 // TODO
 // - Currently the cylinder is always vertical, but this should be configurable.
 #[derive(Getters, Clone, Default)]
@@ -187,6 +187,13 @@ impl GridFunctions3D for CylindricalGrid3D {
 
     fn cell_id(&self, pos: Position) -> Result<CellId> {
         print_debug!("Grid3D: Checking if {:?} is in grid", pos);
+        if !self.is_inside(pos) {
+            return Err(anyhow!(
+                "Position {:?} is outside of grid limits {:?}",
+                pos,
+                self.limits
+            ));
+        }
         let pos = &self.to_cylindrical(pos);
         let posr = pos[0];
         let mut cell_idr = None;
@@ -195,26 +202,15 @@ impl GridFunctions3D for CylindricalGrid3D {
                 cell_idr = Some(idx)
             }
         }
-        let cell_idr = cell_idr.unwrap_or_else(|| {
-            panic!(
-                "Unable to find radial cell id \n pos r:{}\nlen {:?}",
-                posr, self.rpositions
-            )
-        });
-        let poso = pos[1];
-        let cell_ido = (&self.opositions - poso)
-            .iter()
-            .map(|x| x.abs())
-            .collect::<Array1<f64>>()
-            .argmin()
-            .unwrap_or_else(|_| panic!("Can not find min of {:?} in Gri3D", pos));
-        let posz = pos[2];
-        let cell_idz = (&self.zpositions - posz)
-            .iter()
-            .map(|z| z.abs())
-            .collect::<Array1<f64>>()
-            .argmin()
-            .unwrap_or_else(|_| panic!("Can not find min of {:?} in Gri3D", pos));
+        // the outermost boundary can be off by rounding errors
+        let cell_idr = cell_idr.unwrap_or(self.cells[0] - 1);
+        let cell_ido = ((pos[1] - self.limits[1][0]) / (self.limits[1][1] - self.limits[1][0])
+            * self.cells[1] as f64) as usize;
+        let cell_idz = ((pos[2] - self.limits[2][0]) / (self.limits[2][1] - self.limits[2][0])
+            * self.cells[2] as f64) as usize;
+        // the upper limits belong to the last cells
+        let cell_ido = cell_ido.min(self.cells[1] - 1);
+        let cell_idz = cell_idz.min(self.cells[2] - 1);
         Ok([cell_idr, cell_ido, cell_idz])
     }
     #[allow(unused_variables)]
-- 
2.43.0


From 50d71a68eef7d93714b773d7fd2e352a61ebac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 06/59] fix: neighbour mean outlier removal underflowed on
 boundary cells

---
 src/grid/cartesian_grid.rs   | 38 ++++++++++++++++++------------------
 src/grid/cylindrical_grid.rs | 38 ++++++++++++++++++------------------
 2 files changed, 38 insertions(+), 38 deletions(-)

diff --git a/src/grid/cartesian_grid.rs b/src/grid/cartesian_grid.rs
index 3a2b5c2..b0f2c5c 100644
--- a/src/grid/cartesian_grid.rs
+++ b/src/grid/cartesian_grid.rs
@@ -504,30 +504,30 @@ impl GridFunctions3D for CartesianGrid3D {
                     // 26 idx must be checked
                     // yes.. i know what you are thinking
                     let indexes = [
-                        (idx.0 - 1, idx.1 - 1, idx.2 - 1),
-                        (idx.0 - 1, idx.1 - 1, idx.2),
-                        (idx.0 - 1, idx.1 - 1, idx.2 + 1),
-                        (idx.0 - 1, idx.1, idx.2 - 1),
-                        (idx.0 - 1, idx.1, idx.2),
-                        (idx.0 - 1, idx.1, idx.2 + 1),
-                        (idx.0 - 1, idx.1 + 1, idx.2 - 1),
-                        (idx.0 - 1, idx.1 + 1, idx.2),
-                        (idx.0 - 1, idx.1 + 1, idx.2 + 1),
-                        (idx.0, idx.1 - 1, idx.2 - 1),
-                        (idx.0, idx.1 - 1, idx.2),
-                        (idx.0, idx.1 - 1, idx.2 + 1),
-                        (idx.0, idx.1, idx.2 - 1),
+                        (idx.0.wrapping_sub(1), idx.1.wrapping_sub(1), idx.2.wrapping_sub(1)),
+                        (idx.0.wrapping_sub(1), idx.1.wrapping_sub(1), idx.2),
+                        (idx.0.wrapping_sub(1), idx.1.wrapping_sub(1), idx.2 + 1),
+                        (idx.0.wrapping_sub(1), idx.1, idx.2.wrapping_sub(1)),
+                        (idx.0.wrapping_sub(1), idx.1, idx.2),
+                        (idx.0.wrapping_sub(1), idx.1, idx.2 + 1),
+                        (idx.0.wrapping_sub(1), idx.1 + 1, idx.2.wrapping_sub(1)),
+                        (idx.0.wrapping_sub(1), idx.1 + 1, idx.2),
+                        (idx.0.wrapping_sub(1), idx.1 + 1, idx.2 + 1),
+                        (idx.0, idx.1.wrapping_sub(1), idx.2.wrapping_sub(1)),
+                        (idx.0, idx.1.wrapping_sub(1), idx.2),
+                        (idx.0, idx.1.wrapping_sub(1), idx.2 + 1),
+                        (idx.0, idx.1, idx.2.wrapping_sub(1)),
                         (idx.0, idx.1, idx.2 + 1),
-                        (idx.0, idx.1 + 1, idx.2 - 1),
+                        (idx.0, idx.1 + 1, idx.2.wrapping_sub(1)),
                         (idx.0, idx.1 + 1, idx.2),
                         (idx.0, idx.1 + 1, idx.2 + 1),
-                        (idx.0 + 1, idx.1 - 1, idx.2 - 1),
-                        (idx.0 + 1, idx.1 - 1, idx.2),
-                        (idx.0 + 1, idx.1 - 1, idx.2 + 1),
-                        (idx.0 + 1, idx.1, idx.2 - 1),
+                        (idx.0 + 1, idx.1.wrapping_sub(1), idx.2.wrapping_sub(1)),
+                        (idx.0 + 1, idx.1.wrapping_sub(1), idx.2),
+                        (idx.0 + 1, idx.1.wrapping_sub(1), idx.2 + 1),
+                        (idx.0 + 1, idx.1, idx.2.wrapping_sub(1)),
                         (idx.0 + 1, idx.1, idx.2),
                         (idx.0 + 1, idx.1, idx.2 + 1),
-                        (idx.0 + 1, idx.1 + 1, idx.2 - 1),
+                        (idx.0 + 1, idx.1 + 1, idx.2.wrapping_sub(1)),
                         (idx.0 + 1, idx.1 + 1, idx.2),
                         (idx.0 + 1, idx.1 + 1, idx.2 + 1),
                     ];
diff --git a/src/grid/cylindrical_grid.rs b/src/grid/cylindrical_grid.rs
index 3157216..98b8944 100644
--- a/src/grid/cylindrical_grid.rs
+++ b/src/grid/cylindrical_grid.rs
@@ -465,30 +465,30 @@ impl GridFunctions3D for CylindricalGrid3D {
                     // now check every surrounding index, only one cell away from idx
                     // 26 idx must be checked
                     let indexes = [
-                        (idx.0 - 1, idx.1 - 1, idx.2 - 1),
-                        (idx.0 - 1, idx.1 - 1, idx.2),
-                        (idx.0 - 1, idx.1 - 1, idx.2 + 1),
-                        (idx.0 - 1, idx.1, idx.2 - 1),
-                        (idx.0 - 1, idx.1, idx.2),
-                        (idx.0 - 1, idx.1, idx.2 + 1),
-                        (idx.0 - 1, idx.1 + 1, idx.2 - 1),
-                        (idx.0 - 1, idx.1 + 1, idx.2),
-                        (idx.0 - 1, idx.1 + 1, idx.2 + 1),
-                        (idx.0, idx.1 - 1, idx.2 - 1),
-                        (idx.0, idx.1 - 1, idx.2),
-                        (idx.0, idx.1 - 1, idx.2 + 1),
-                        (idx.0, idx.1, idx.2 - 1),
+                        (idx.0.wrapping_sub(1), idx.1.wrapping_sub(1), idx.2.wrapping_sub(1)),
+                        (idx.0.wrapping_sub(1), idx.1.wrapping_sub(1), idx.2),
+                        (idx.0.wrapping_sub(1), idx.1.wrapping_sub(1), idx.2 + 1),
+                        (idx.0.wrapping_sub(1), idx.1, idx.2.wrapping_sub(1)),
+                        (idx.0.wrapping_sub(1), idx.1, idx.2),
+                        (idx.0.wrapping_sub(1), idx.1, idx.2 + 1),
+                        (idx.0.wrapping_sub(1), idx.1 + 1, idx.2.wrapping_sub(1)),
+                        (idx.0.wrapping_sub(1), idx.1 + 1, idx.2),
+                        (idx.0.wrapping_sub(1), idx.1 + 1, idx.2 + 1),
+                        (idx.0, idx.1.wrapping_sub(1), idx.2.wrapping_sub(1)),
+                        (idx.0, idx.1.wrapping_sub(1), idx.2),
+                        (idx.0, idx.1.wrapping_sub(1), idx.2 + 1),
+                        (idx.0, idx.1, idx.2.wrapping_sub(1)),
                         (idx.0, idx.1, idx.2 + 1),
-                        (idx.0, idx.1 + 1, idx.2 - 1),
+                        (idx.0, idx.1 + 1, idx.2.wrapping_sub(1)),
                         (idx.0, idx.1 + 1, idx.2),
                         (idx.0, idx.1 + 1, idx.2 + 1),
-                        (idx.0 + 1, idx.1 - 1, idx.2 - 1),
-                        (idx.0 + 1, idx.1 - 1, idx.2),
-                        (idx.0 + 1, idx.1 - 1, idx.2 + 1),
-                        (idx.0 + 1, idx.1, idx.2 - 1),
+                        (idx.0 + 1, idx.1.wrapping_sub(1), idx.2.wrapping_sub(1)),
+                        (idx.0 + 1, idx.1.wrapping_sub(1), idx.2),
+                        (idx.0 + 1, idx.1.wrapping_sub(1), idx.2 + 1),
+                        (idx.0 + 1, idx.1, idx.2.wrapping_sub(1)),
                         (idx.0 + 1, idx.1, idx.2),
                         (idx.0 + 1, idx.1, idx.2 + 1),
-                        (idx.0 + 1, idx.1 + 1, idx.2 - 1),
+                        (idx.0 + 1, idx.1 + 1, idx.2.wrapping_sub(1)),
                         (idx.0 + 1, idx.1 + 1, idx.2),
                         (idx.0 + 1, idx.1 + 1, idx.2 + 1),
                     ];
-- 
2.43.0


From 7a99ac7bc25ed571278e89b5f79a965ac27a74a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 07/59] fix: cylindrical velocity components ignored the
 position of the cylinder axis

---
 src/grid/vector_grid.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/grid/vector_grid.rs b/src/grid/vector_grid.rs
index 0f3397c..31dcfe4 100644
--- a/src/grid/vector_grid.rs
+++ b/src/grid/vector_grid.rs
@@ -36,6 +36,8 @@ impl VectorGrid {
         } else {
             // downcast a data grid to a cylindrical grid
             let cyl_pos = self.cyl_grid.to_cylindrical(pos);
+            let center = self.cyl_grid.center();
+            let pos = [pos[0] - center[0], pos[1] - center[1], pos[2]];
             let vel_radial = (pos[0] * vel[0] + pos[1] * vel[1]) / cyl_pos[0];
             let vel_omega =
                 (pos[0] * vel[1] - pos[1] * vel[0]) / (pos[0] * pos[0] + pos[1] * pos[1]);
-- 
2.43.0


From 5a417002ec5cbbffd18d2caf73e48cd7d428f1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 08/59] fix: cloud and density ranges of the selector were read
 from the radius range

---
 src/particleselector.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/particleselector.rs b/src/particleselector.rs
index d5ee735..63a3543 100644
--- a/src/particleselector.rs
+++ b/src/particleselector.rs
@@ -67,7 +67,7 @@ impl ParticleSelector {
         }
         if self.clouds.len() == 1 {
             cloud == self.clouds[0]
-        } else if self.radius.len() == 2 {
+        } else if self.clouds.len() == 2 {
             cloud >= self.clouds[0] && cloud <= self.clouds[1]
         } else {
             self.clouds.contains(&cloud)
@@ -80,8 +80,8 @@ impl ParticleSelector {
         }
         if self.density.len() == 1 {
             density == self.density[0]
-        } else if self.radius.len() == 2 {
-            density >= self.density[0] && density <= self.radius[1]
+        } else if self.density.len() == 2 {
+            density >= self.density[0] && density <= self.density[1]
         } else {
             self.density.contains(&density)
         }
-- 
2.43.0


From 3847fc64c5abf86d85aa46d2bfb84ac090110182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 09/59] fix: timestep_at_seconds_closest returned timesteps
 that were not the closest

---
 src/datamanager.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/datamanager.rs b/src/datamanager.rs
index 10b74b1..f0f3578 100644
--- a/src/datamanager.rs
+++ b/src/datamanager.rs
@@ -81,6 +81,9 @@ impl GlobalStats {
         print_warning!("This function is not tested yet!");
         // finding index in ordered list of self.time_array
         // using the binary search algorithm
+        if self.time_array.is_empty() || seconds.is_nan() {
+            return Err("There is no timestep for this time");
+        }
         let mut low = 0;
         let mut high = self.time_array.len() - 1;
 
@@ -90,19 +93,19 @@ impl GlobalStats {
         if self.time_array[low] > seconds {
             return Err("Timestep is smaller than the number of timesteps");
         }
-        let mut mid = (low + high) / 2;
-        while low <= high {
-            mid = (low + high) / 2;
-            if (self.time_array[mid] - seconds).abs() < 0.01 {
-                return Ok(mid);
-            } else if self.time_array[mid] < seconds {
+        // first timestep that is not before `seconds`
+        while low < high {
+            let mid = (low + high) / 2;
+            if self.time_array[mid] < seconds {
                 low = mid + 1;
             } else {
-                high = mid - 1;
+                high = mid;
             }
         }
-
-        Ok(mid)
+        if low > 0 && seconds - self.time_array[low - 1] < self.time_array[low] - seconds {
+            low -= 1;
+        }
+        Ok(low)
     }
 }
 
-- 
2.43.0


From 19698afd196f716dc34f11230c4680f4c491916c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 10/59] fix: vectorfield added to the values already stored in
 the passed grid

---
 src/functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions.rs b/src/functions.rs
index 32fb8ad..6511882 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -29,7 +29,7 @@ pub trait Granular: DataManager {
     ) -> VectorGrid {
         let global_stats = self.global_stats();
         let timesteps: &usize = global_stats.timesteps();
-        let mut vectorgrid = VectorGrid::new(gridbox);
+        let mut vectorgrid = VectorGrid::new(gridbox.new_zeros());
         for timestep in 0..=timesteps - 1 {
             let timestep_data = self.get_timestep(timestep);
             let current_time = *timestep_data.time();
-- 
2.43.0


From 48571c320ecbe1547dffd868471ee5cd5b19ecd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 11/59] fix: dispersion and granular temperature started from
 the values of the passed grid

---
 src/functions.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/functions.rs b/src/functions.rs
index 6511882..9bff892 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -464,13 +464,13 @@ pub trait Granular: DataManager {
         self.setup_buffer(0); // add another buffer to the system
                               // Allocate arrays needed for calculation
                               // those arrays are needed for the calculation of the variance with a special algorithm
-        let mut squared_sum_x = grid.get_data().clone();
-        let mut squared_sum_y = grid.get_data().clone();
-        let mut squared_sum_z = grid.get_data().clone();
-        let mut sum_x = grid.get_data().clone();
-        let mut sum_y = grid.get_data().clone();
-        let mut sum_z = grid.get_data().clone();
-        let mut num_counts = grid.get_data().clone();
+        let mut squared_sum_x = Array3::<f64>::zeros(*grid.get_cells());
+        let mut squared_sum_y = Array3::<f64>::zeros(*grid.get_cells());
+        let mut squared_sum_z = Array3::<f64>::zeros(*grid.get_cells());
+        let mut sum_x = Array3::<f64>::zeros(*grid.get_cells());
+        let mut sum_y = Array3::<f64>::zeros(*grid.get_cells());
+        let mut sum_z = Array3::<f64>::zeros(*grid.get_cells());
+        let mut num_counts = Array3::<f64>::zeros(*grid.get_cells());
         let mut dispersion_grid = grid.new_zeros();
         print_debug!("Dispersion: Initiation over, entering time loop");
 
@@ -762,13 +762,13 @@ pub trait Granular: DataManager {
         let timesteps: &usize = global_stats.timesteps();
         // calculating the mean fluicitaing velcity using a algroythm that allows
         // to only use one loop over the data
-        let mut squared_sum_x = grid.get_data().clone();
-        let mut squared_sum_y = grid.get_data().clone();
-        let mut squared_sum_z = grid.get_data().clone();
-        let mut sum_x = grid.get_data().clone();
-        let mut sum_y = grid.get_data().clone();
-        let mut sum_z = grid.get_data().clone();
-        let mut num_counts = grid.get_data().clone();
+        let mut squared_sum_x = Array3::<f64>::zeros(*grid.get_cells());
+        let mut squared_sum_y = Array3::<f64>::zeros(*grid.get_cells());
+        let mut squared_sum_z = Array3::<f64>::zeros(*grid.get_cells());
+        let mut sum_x = Array3::<f64>::zeros(*grid.get_cells());
+        let mut sum_y = Array3::<f64>::zeros(*grid.get_cells());
+        let mut sum_z = Array3::<f64>::zeros(*grid.get_cells());
+        let mut num_counts = Array3::<f64>::zeros(*grid.get_cells());
         let mut grantemp = grid.new_zeros();
         print_debug!("velocityfield: Initiation over, entering time loop");
         for timestep in 0..=timesteps - 1 {
-- 
2.43.0


From 40da403790dc21affca9f31e6cfef7944ebbd56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 12/59] fix: samples without a velocity turned whole cells of
 fields into NaN

---
 src/functions.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/functions.rs b/src/functions.rs
index 9bff892..1c703bd 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -76,6 +76,10 @@ pub trait Granular: DataManager {
                     continue;
                 }
                 let velocity = vectorgrid.velocity_calculation(position, velocity);
+                if velocity.iter().any(|v| v.is_nan()) {
+                    print_debug!("Particle {} has no velocity", particle);
+                    continue;
+                }
 
                 vectorgrid.data[0].add_value(position, velocity[0]);
                 vectorgrid.data[1].add_value(position, velocity[1]);
@@ -821,6 +825,10 @@ pub trait Granular: DataManager {
                     grid.get_zpositions()
                 );
                 let velocity = velocities.slice(s![particle, ..]);
+                if velocity.iter().any(|v| v.is_nan()) {
+                    print_debug!("Particle {} has no velocity", particle);
+                    continue;
+                }
                 let cell_id = match grid.cell_id(position) {
                     Ok(cell_id) => cell_id,
                     Err(_) => continue,
-- 
2.43.0


From 6f62861c98a78361c8c15694161f0d9785c72d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 13/59] fix: histogram counted NaN and too small values and
 dropped the maximum

---
 src/functions.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/functions.rs b/src/functions.rs
index 1c703bd..de4256c 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -725,12 +725,14 @@ pub trait Granular: DataManager {
                     + velocity[1] * velocity[1]
                     + velocity[2] * velocity[2])
                     .sqrt();
-                let bin = ((velocity_mag - bin_edges[0]) / (bin_edges[1] - bin_edges[0])).floor()
-                    as usize;
-                // BUG: bin is sometimes out of bounds
-                if bin > bins - 1 {
+                // not a value of any bin, this includes NaN
+                if !(velocity_mag >= bin_edges[0] && velocity_mag <= bin_edges[bins]) {
                     continue;
                 }
+                let bin = ((velocity_mag - bin_edges[0]) / (bin_edges[1] - bin_edges[0])).floor()
+                    as usize;
+                // the last bin includes its upper edge
+                let bin = bin.min(bins - 1);
                 histogram[bin] += 1.0;
             }
             // checking for kill signals after each timestep
-- 
2.43.0


From 2a3eac7db91f792c2260f76f7d9913eee8298ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 14/59] fix: occupancyfield ignored the last timesteps and
 failed on short datasets

---
 src/functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions.rs b/src/functions.rs
index de4256c..e07bee5 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -318,7 +318,7 @@ pub trait Granular: DataManager {
         let mut occupancy_grid = grid.new_zeros();
         let mut complete_time = 0.0;
         self.setup_buffer(0); //setup another buffer
-        for timestep in 0..timesteps - 3 {
+        for timestep in 0..timesteps.saturating_sub(1) {
             let timestep_data = self.get_timestep(timestep).clone();
             //BUG this is not working, try to acces a point in the buffer that doesnt excist
             let next_timestep_data = self.get_timestep_buffer(timestep + 1, 0);
-- 
2.43.0


From db384c9a82c48b9b11a6859e70c54b87d8fcc923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 15/59] fix: mean velocity included particles the selector
 excludes

---
 src/functions.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/functions.rs b/src/functions.rs
index e07bee5..440c3f7 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -422,7 +422,19 @@ pub trait Granular: DataManager {
                 continue;
             }
             let velocities = timestep_data.velocity();
-            for vel in velocities.outer_iter() {
+            let particle_ids = timestep_data.particleid();
+            let rad_array = timestep_data.radius();
+            let clouds = timestep_data.clouds();
+            let density = timestep_data.density();
+            for (particle, vel) in velocities.outer_iter().enumerate() {
+                if !selector.is_valid(
+                    rad_array[particle],
+                    clouds[particle],
+                    density[particle],
+                    particle_ids[particle] as usize,
+                ) {
+                    continue;
+                }
                 let velocity = (vel[0] * vel[0] + vel[1] * vel[1] + vel[2] * vel[2]).sqrt();
                 if f64::is_nan(velocity) {
                     continue;
-- 
2.43.0


From 06c71359ec46c8e56c6bbd1c7cc370bd276e34e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 16/59] fix: dispersion and msd failed for particles without a
 later position

---
 src/functions.rs        | 6 ++++++
 src/functions/mixing.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/functions.rs b/src/functions.rs
index 440c3f7..88c034a 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -561,6 +561,12 @@ pub trait Granular: DataManager {
                         continue;
                     }
                 };
+                if position_future.len() <= particle
+                    || position_future[particle].iter().any(|x| x.is_nan())
+                {
+                    print_warning!("Dispersion: particle has no position at the later time");
+                    continue;
+                }
                 let position_future_particle = position_future[particle];
                 squared_sum_x[cell_id] += position_future_particle[0] * position_future_particle[0];
                 squared_sum_y[cell_id] += position_future_particle[1] * position_future_particle[1];
diff --git a/src/functions/mixing.rs b/src/functions/mixing.rs
index ec4eebd..d7dadaf 100644
--- a/src/functions/mixing.rs
+++ b/src/functions/mixing.rs
@@ -264,6 +264,12 @@ pub trait Mixing: DataManager {
                     print_debug!("Particle {} is out of FoV", particle);
                     continue;
                 }
+                if position_future.len() <= particle
+                    || position_future[particle].iter().any(|x| x.is_nan())
+                {
+                    print_warning!("MSD: particle has no position at the later time");
+                    continue;
+                }
                 let position_future_particle = position_future[particle];
                 let dist = ((positions[particle][0] - position_future_particle[0]).powi(2)
                     + (positions[particle][1] - position_future_particle[1]).powi(2)
-- 
2.43.0


From 210a47e8652c154fad469292f31a2a6342e949a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 17/59] fix: msd averaged the distances before squaring them

---
 src/functions/mixing.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/functions/mixing.rs b/src/functions/mixing.rs
index d7dadaf..9197e21 100644
--- a/src/functions/mixing.rs
+++ b/src/functions/mixing.rs
@@ -275,7 +275,7 @@ pub trait Mixing: DataManager {
                     + (positions[particle][1] - position_future_particle[1]).powi(2)
                     + (positions[particle][2] - position_future_particle[2]).powi(2))
                 .sqrt();
-                distance.add_value(positions[particle], dist); // add the distance traveled to the cell id of the current particle
+                distance.add_value(positions[particle], dist * dist); // add the squared distance traveled to the cell id of the current particle
             }
             check_signals!();
 
@@ -289,7 +289,7 @@ pub trait Mixing: DataManager {
         let data = data
             .iter()
             .zip(weights.iter())
-            .map(|(x, y)| if *y > 0.0 { (x * x) / y } else { 0.0 })
+            .map(|(x, y)| if *y > 0.0 { x / y } else { 0.0 })
             .collect::<Vec<f64>>();
         let data = ndarray::Array::from_shape_vec((cells[0], cells[1], cells[2]), data).unwrap();
         grid.set_data(data);
-- 
2.43.0


From 8195d50490c8677e1c46a6e6a43be1c04e4fee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 18/59] fix: lacey mixing panicked when a timestep has no
 particle of a type

---
 src/functions/mixing.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/functions/mixing.rs b/src/functions/mixing.rs
index 9197e21..37a78f5 100644
--- a/src/functions/mixing.rs
+++ b/src/functions/mixing.rs
@@ -88,8 +88,9 @@ pub trait Mixing: DataManager {
             let sum_grid = type_b_grid.get_data() + type_a_grid.get_data();
             type_a_grid.divide_by_array(&sum_grid);
             let concentration = type_a_grid.get_data();
-            let mean_concentration =
-                type_counter[type_a] as f64 / (type_counter[type_a] + type_counter[type_b]) as f64;
+            let number_a = type_counter.get(type_a).copied().unwrap_or(0);
+            let number_b = type_counter.get(type_b).copied().unwrap_or(0);
+            let mean_concentration = number_a as f64 / (number_a + number_b) as f64;
             let mut mixing_value = 0.0;
             for (conc, num) in concentration
                 .iter()
-- 
2.43.0


From 803901702e80284b1b2af2afb9d55b5264a4f06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 19/59] fix: mixing and circulation functions ignored the last
 timestep

---
 src/functions/conditional.rs |  4 ++--
 src/functions/mixing.rs      | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/functions/conditional.rs b/src/functions/conditional.rs
index b36bd74..72eb472 100644
--- a/src/functions/conditional.rs
+++ b/src/functions/conditional.rs
@@ -21,7 +21,7 @@ pub trait Conditional: DataManager {
         let mut time_flag_array = Array1::<f64>::zeros(particle_number + 1);
 
         let mut old_timestep = self.get_timestep(0).to_owned();
-        for timestep in 1..timesteps - 1 {
+        for timestep in 1..=timesteps - 1 {
             let timestep_data = self.get_timestep(timestep);
             let current_time = *timestep_data.time();
             // check if timestep is in the timeframe given
@@ -110,7 +110,7 @@ pub trait Conditional: DataManager {
      
         let mut old_timestep = self.get_timestep(0).to_owned();
         let mut count = 0;
-        for timestep in 1..timesteps - 1 {
+        for timestep in 1..=timesteps - 1 {
             let timestep_data = self.get_timestep(timestep);
             let current_time = *timestep_data.time();
             // check if timestep is in the timeframe given
diff --git a/src/functions/mixing.rs b/src/functions/mixing.rs
index 37a78f5..000f931 100644
--- a/src/functions/mixing.rs
+++ b/src/functions/mixing.rs
@@ -17,10 +17,10 @@ pub trait Mixing: DataManager {
         let global_stats = self.global_stats();
         let timesteps: &usize = global_stats.timesteps();
         print_debug!("velocityfield: Initiation over, entering time loop");
-        let mut mixing = ndarray::Array1::<f64>::zeros(*timesteps - 1);
-        let mut time = ndarray::Array1::<f64>::zeros(*timesteps - 1);
+        let mut mixing = ndarray::Array1::<f64>::zeros(*timesteps);
+        let mut time = ndarray::Array1::<f64>::zeros(*timesteps);
 
-        for timestep in 0..timesteps - 1 {
+        for timestep in 0..=timesteps - 1 {
             let timestep_data = self.get_timestep(timestep);
             let current_time = *timestep_data.time();
             // check if timestep is in the timeframe given
@@ -130,7 +130,7 @@ pub trait Mixing: DataManager {
         let timesteps: &usize = global_stats.timesteps();
         let mut type_a_grid = grid.new_zeros();
         let mut type_b_grid = grid.new_zeros();
-        for timestep in 0..timesteps - 1 {
+        for timestep in 0..=timesteps - 1 {
             let timestep_data = self.get_timestep(timestep);
             let current_time = *timestep_data.time();
             // check if timestep is in the timeframe given
@@ -213,7 +213,7 @@ pub trait Mixing: DataManager {
         print_debug!("Dispersion: Initiation over, entering time loop");
 
         let mut next_timestep;
-        for timestep in 0..timesteps - 1 {
+        for timestep in 0..=timesteps - 1 {
             let timestep_data = self.get_timestep(timestep).clone();
             let current_time = *timestep_data.time();
             // check if timestep is in the timeframe given
-- 
2.43.0


From 39e0b7978800688708b3f049ba9e3aca696f1c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 20/59] fix: circulation time missed crossings of particles
 placed exactly on a boundary

---
 src/functions/conditional.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/functions/conditional.rs b/src/functions/conditional.rs
index 72eb472..0858a93 100644
--- a/src/functions/conditional.rs
+++ b/src/functions/conditional.rs
@@ -63,7 +63,9 @@ pub trait Conditional: DataManager {
                 let pos = positions[particle];
                 let old_pos = old_positions[particle];
                 // check if particle crossed boundary
-                if (pos[axis] - boundary_position) * (old_pos[axis] - boundary_position) < 0.0 {
+                if (pos[axis] < boundary_position && old_pos[axis] >= boundary_position)
+                    || (pos[axis] >= boundary_position && old_pos[axis] < boundary_position)
+                {
                     // check if particle is already in the list
                     if start_flag_array[particle] == 0 {
                         start_flag_array[particle] = 1;
@@ -151,7 +153,7 @@ pub trait Conditional: DataManager {
                 }
                 let pos = positions[particle][axis];
                 let old_pos = old_positions[particle][axis];
-                if pos > boundary_position.1 && old_pos < boundary_position.1 {
+                if pos >= boundary_position.1 && old_pos < boundary_position.1 {
                     count += 1;
                     //println!("particle inside upper ");
     
@@ -168,7 +170,7 @@ pub trait Conditional: DataManager {
                     }
                 }
                 // particle crosses out of upper border
-                else if pos < boundary_position.1 && old_pos > boundary_position.1 {
+                else if pos < boundary_position.1 && old_pos >= boundary_position.1 {
                     //count -=1;
                     //println!("particle out of upper");
                     //println!("{}->{},{},{},{}",old_pos,pos,boundary[1],boundary[0],pos  < boundary[0] && old_pos  > boundary[0]);
@@ -195,7 +197,7 @@ pub trait Conditional: DataManager {
                 //println!("Middle_check done");
                 ///// same vor lower border
                 // particle crosses into low border
-                if pos < boundary_position.0 && old_pos > boundary_position.0 {
+                if pos < boundary_position.0 && old_pos >= boundary_position.0 {
                     //println!("particle in lower");
                     //println!("{}->{},{},{},{}",old_pos,pos,boundary[1],boundary[0],pos  < boundary[0] && old_pos  > boundary[0]);
                     // if particle before was below
@@ -210,7 +212,7 @@ pub trait Conditional: DataManager {
                     }
                 }
                 // particle crosses out of lower border
-                else if pos > boundary_position.0 && old_pos < boundary_position.0 {
+                else if pos >= boundary_position.0 && old_pos < boundary_position.0 {
                     // if particle before was nowhere
                     if start_flag_array[particle] == 0 {
                         // start clock
-- 
2.43.0


From 154beed36e650944cf27005f66ca9599d5e99bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 21/59] fix: circulation time panicked when particles were
 added during the measurement

---
 src/functions/conditional.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/functions/conditional.rs b/src/functions/conditional.rs
index 0858a93..ff60f9a 100644
--- a/src/functions/conditional.rs
+++ b/src/functions/conditional.rs
@@ -56,7 +56,9 @@ pub trait Conditional: DataManager {
                     print_debug!("Particle {} is not valid", particle);
                     continue;
                 }
-                if particle_ids[particle] != old_particle_ids[particle] {
+                if particle >= old_particle_ids.len()
+                    || particle_ids[particle] != old_particle_ids[particle]
+                {
                     print_debug!("Particle {} is not valid", particle);
                     continue;
                 }
@@ -147,7 +149,9 @@ pub trait Conditional: DataManager {
                     print_debug!("Particle {} is not valid", particle);
                     continue;
                 }
-                if particle_ids[particle] != old_particle_ids[particle] {
+                if particle >= old_particle_ids.len()
+                    || particle_ids[particle] != old_particle_ids[particle]
+                {
                     print_debug!("Particle {} is not valid", particle);
                     continue;
                 }
-- 
2.43.0


From 6c0a7d426f46a205e534c04eb1beafb60691d0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 22/59] fix: extract could not return the last timestep

---
 src/functions/extractions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/extractions.rs b/src/functions/extractions.rs
index b0a097e..46a794c 100644
--- a/src/functions/extractions.rs
+++ b/src/functions/extractions.rs
@@ -12,7 +12,7 @@ pub trait Extraction: DataManager {
     fn extract(&mut self, particle_id: usize, timestep: (usize, usize)) -> ndarray::Array2<f64> {
         let global_stats = self.global_stats();
         let timesteps: &usize = global_stats.timesteps();
-        if &timestep.0 >= timesteps || &timestep.1 >= timesteps {
+        if &timestep.0 >= timesteps || &timestep.1 > timesteps {
             panic!("Timestep out of bounds");
         }
         let mut return_data: ndarray::Array2<f64> =
-- 
2.43.0


From b8ce69f3dfc5a4dcc6fe60503e16db56b189e3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 23/59] fix: circulation time lost track of particles that
 cross both boundaries in one step

---
 src/functions/conditional.rs | 42 ++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/functions/conditional.rs b/src/functions/conditional.rs
index ff60f9a..df2be5a 100644
--- a/src/functions/conditional.rs
+++ b/src/functions/conditional.rs
@@ -157,6 +157,27 @@ pub trait Conditional: DataManager {
                 }
                 let pos = positions[particle][axis];
                 let old_pos = old_positions[particle][axis];
+                // regions are left before they are entered, also when both happen in one step
+                // particle crosses out of lower border
+                if pos >= boundary_position.0 && old_pos < boundary_position.0 {
+                    // if particle before was nowhere
+                    if start_flag_array[particle] == 0 {
+                        // start clock
+                        time_flag_array[particle] = current_time;
+                        start_flag_array[particle] = 2;
+                    } else if start_flag_array[particle] == 2 && mid_flag_array[particle] == 1 {
+                        // end of one circulation
+                        circulation_time.push((time_flag_array[particle],current_time));
+                        // restart the run
+                        //if current_time - time_flag_array[particle] <= 0.0 {println!("Out of lower")};
+                        mid_flag_array[particle] = 0;
+                        time_flag_array[particle] = current_time;
+                    } else if start_flag_array[particle] == 2 {
+                        time_flag_array[particle] = current_time;
+                    } else if start_flag_array[particle] == 1 {
+                        mid_time_flag_array[particle] = current_time;
+                    }
+                }
                 if pos >= boundary_position.1 && old_pos < boundary_position.1 {
                     count += 1;
                     //println!("particle inside upper ");
@@ -195,7 +216,6 @@ pub trait Conditional: DataManager {
                     } else if start_flag_array[particle] == 2 {
                         mid_time_flag_array[particle] = current_time;
                     }
-                    continue;
                 }
     
                 //println!("Middle_check done");
@@ -215,26 +235,6 @@ pub trait Conditional: DataManager {
                         //down_times.push(current_time - mid_time_flag_array[particle]);
                     }
                 }
-                // particle crosses out of lower border
-                else if pos >= boundary_position.0 && old_pos < boundary_position.0 {
-                    // if particle before was nowhere
-                    if start_flag_array[particle] == 0 {
-                        // start clock
-                        time_flag_array[particle] = current_time;
-                        start_flag_array[particle] = 2;
-                    } else if start_flag_array[particle] == 2 && mid_flag_array[particle] == 1 {
-                        // end of one circulation
-                        circulation_time.push((time_flag_array[particle],current_time));
-                        // restart the run
-                        //if current_time - time_flag_array[particle] <= 0.0 {println!("Out of lower")};
-                        mid_flag_array[particle] = 0;
-                        time_flag_array[particle] = current_time;
-                    } else if start_flag_array[particle] == 2 {
-                        time_flag_array[particle] = current_time;
-                    } else if start_flag_array[particle] == 1 {
-                        mid_time_flag_array[particle] = current_time;
-                    }
-                }
                 //println!("check done");
             } // end particle for loop
 
-- 
2.43.0


From 67e93689703c4258ab898f888cacbd007ddbdc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:36 +0000
Subject: [PATCH 24/59] fix: granular temperature of equal velocities was NaN
 from rounding

---
 src/functions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/functions.rs b/src/functions.rs
index 88c034a..1530b49 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -882,7 +882,8 @@ pub trait Granular: DataManager {
             panic!("Mode {} is not supported", mode);
         }
         temp /= &num_counts;
-        temp.mapv_inplace(|x| x.sqrt());
+        // rounding can leave a variance of zero slightly below zero
+        temp.mapv_inplace(|x| if x < 0.0 { 0.0 } else { x.sqrt() });
         grantemp.set_data(temp);
         grantemp.set_weights(num_counts);
         grantemp
-- 
2.43.0


From 718fccd7498261b494a5d342af86e387b342d5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:58 +0000
Subject: [PATCH 25/59] fix: circulation times compare the first snapshot of a
 later window with the snapshot before it

---
 src/functions/conditional.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/functions/conditional.rs b/src/functions/conditional.rs
index df2be5a..a25aaea 100644
--- a/src/functions/conditional.rs
+++ b/src/functions/conditional.rs
@@ -27,6 +27,7 @@ pub trait Conditional: DataManager {
             // check if timestep is in the timeframe given
             if !selector.timestep_valid(current_time) {
                 print_debug!("Timestep {} is not valid", timestep);
+                old_timestep = timestep_data.to_owned();
                 continue;
             }
             print_debug!("Timestep {} is valid", timestep);
@@ -120,6 +121,7 @@ pub trait Conditional: DataManager {
             // check if timestep is in the timeframe given
             if !selector.timestep_valid(current_time) {
                 print_debug!("Timestep {} is not valid", timestep);
+                old_timestep = timestep_data.to_owned();
                 continue;
             }
             print_debug!("Timestep {} is valid", timestep);
-- 
2.43.0


From 21df68e03ecc3a244ed8a79ee9e75fa95b66869c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:41 +0000
Subject: [PATCH 26/59] Small buffers of PData and TData under cfg(up4_verify)

---
 src/datamanager/pdata.rs | 4 ++++
 src/datamanager/tdata.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index 452fafa..a827d21 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -13,7 +13,11 @@ use crate::{print_debug, print_warning};
 use hdf5::filters::blosc_set_nthreads;
 use ndarray::prelude::*;
 use std::time::Instant;
+#[cfg(not(up4_verify))]
 const BUFFERSIZE: usize = 20000;
+// small, so that out-of-tree verification harnesses reach every change of the buffered range
+#[cfg(up4_verify)]
+const BUFFERSIZE: usize = 3;
 
 //#[pyclass]
 pub struct PData {
diff --git a/src/datamanager/tdata.rs b/src/datamanager/tdata.rs
index 30c63ed..0ce586f 100644
--- a/src/datamanager/tdata.rs
+++ b/src/datamanager/tdata.rs
@@ -14,7 +14,11 @@ use crate::{print_debug, print_warning};
 use hdf5::filters::blosc_set_nthreads;
 use ndarray::prelude::*;
 use std::time::Instant;
+#[cfg(not(up4_verify))]
 const BUFFERSIZE: usize = 20000;
+// small, so that out-of-tree verification harnesses reach every change of the buffered range
+#[cfg(up4_verify)]
+const BUFFERSIZE: usize = 3;
 #[pyclass]
 pub struct TData {
     // A data managing system for HDF5 files in the
-- 
2.43.0


From e8119b67d83dbf5560acbe6eb9c9921dc4a9b871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:55 +0000
Subject: [PATCH 27/59] fix: further buffers of datasets returned or requested
 snapshots of the main buffer

---
 src/datamanager/pdata.rs | 22 ++++++++++------------
 src/datamanager/tdata.rs | 17 +++++------------
 2 files changed, 15 insertions(+), 24 deletions(-)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index a827d21..04f52e9 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -1116,19 +1116,17 @@ impl DataManager for PData {
             timestep,
             self.range_extra[buffer_id]
         );
-        if timestep > self.range_extra[buffer_id].1 - 1 {
-            self.update_extra((timestep, timestep + self.buffersize), buffer_id);
-        } else if self.range_extra[buffer_id].1 == self.global_stats_.ntimesteps
-            && timestep < self.range_extra[buffer_id].0
-        {
-            self.update_extra((0, BUFFERSIZE), buffer_id);
-        }
-        // If a timestep below the current range is requested, update buffer
-        if timestep < self.range_extra[buffer_id].0 {
-            self.update_extra((timestep, timestep + self.buffersize), buffer_id);
+        if timestep >= self.range_extra[buffer_id].1 {
+            self.update_extra(
+                (timestep, timestep + self.buffersize_extra[buffer_id]),
+                buffer_id,
+            );
+        } else if timestep < self.range_extra[buffer_id].0 {
+            // If a timestep below the current range is requested, update buffer
+            let chunk = timestep / BUFFERSIZE;
+            self.update_extra((chunk * BUFFERSIZE, (chunk + 1) * BUFFERSIZE), buffer_id);
         }
-
-        &self.buffer[timestep - self.range_extra[buffer_id].0]
+        &self.extra_buffers[buffer_id][timestep - self.range_extra[buffer_id].0]
     }
 
     fn info(&self) -> Result<String, &'static str> {
diff --git a/src/datamanager/tdata.rs b/src/datamanager/tdata.rs
index 0ce586f..38d7953 100644
--- a/src/datamanager/tdata.rs
+++ b/src/datamanager/tdata.rs
@@ -1095,22 +1095,15 @@ impl DataManager for TData {
             timestep,
             self.range_extra[buffer_id]
         );
-        if timestep > self.range_extra[buffer_id].1 - 1 {
-            self.update_extra(
-                (timestep, timestep + self.buffersize_extra[buffer_id]),
-                buffer_id,
-            );
-        } else if self.range_extra[buffer_id].1 == self.global_stats_.ntimesteps
-            && timestep < self.range_extra[buffer_id].0
-        {
-            self.update_extra((0, BUFFERSIZE), buffer_id);
-        }
-        // If a timestep below the current range is requested, update buffer
-        if timestep < self.range.0 {
+        if timestep >= self.range_extra[buffer_id].1 {
             self.update_extra(
                 (timestep, timestep + self.buffersize_extra[buffer_id]),
                 buffer_id,
             );
+        } else if timestep < self.range_extra[buffer_id].0 {
+            // If a timestep below the current range is requested, update buffer
+            let chunk = timestep / BUFFERSIZE;
+            self.update_extra((chunk * BUFFERSIZE, (chunk + 1) * BUFFERSIZE), buffer_id);
         }
         &self.buffer_extra[buffer_id][timestep - self.range_extra[buffer_id].0]
     }
-- 
2.43.0


From cea9efe0bb8bb623304d2c13a912a8c0daf9f4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:05 +0000
Subject: [PATCH 28/59] fix: reading a step behind the end of a dataset
 returned another snapshot

---
 src/datamanager/pdata.rs | 6 ++++++
 src/datamanager/tdata.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index 04f52e9..45df01a 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -908,6 +908,9 @@ impl PData {
 impl DataManager for PData {
     // return a array from a given dataset at a given timestep
     fn get_timestep(&mut self, timestep: usize) -> &Timestep {
+        if timestep >= *self.global_stats_.timesteps() {
+            panic!("Timestep {} is behind the end of the dataset", timestep);
+        }
         print_debug!("PData: Extracting timestep number {}", timestep);
         // If a timestep is requested that is higher then the current range
         // update buffer with new range
@@ -1108,6 +1111,9 @@ impl DataManager for PData {
 
     /// read from other buffer then the main one
     fn get_timestep_buffer(&mut self, timestep: usize, buffer_id: usize) -> &Timestep {
+        if timestep >= *self.global_stats_.timesteps() {
+            panic!("Timestep {} is behind the end of the dataset", timestep);
+        }
         print_debug!("PData: Extracting timestep number {}", timestep);
         // If a timestep is requested that is higher then the current range
         // update buffer with new range
diff --git a/src/datamanager/tdata.rs b/src/datamanager/tdata.rs
index 38d7953..942c8d0 100644
--- a/src/datamanager/tdata.rs
+++ b/src/datamanager/tdata.rs
@@ -886,6 +886,9 @@ impl TData {
 impl DataManager for TData {
     // return a array from a given dataset at a given timestep
     fn get_timestep(&mut self, timestep: usize) -> &Timestep {
+        if timestep >= *self.global_stats_.timesteps() {
+            panic!("Timestep {} is behind the end of the dataset", timestep);
+        }
         print_debug!("TData: Extracting timestep number {}", timestep);
         // If a timestep is requested that is higher then the current range
         // update buffer with new range
@@ -1087,6 +1090,9 @@ impl DataManager for TData {
 
     /// read from other buffer then the main one
     fn get_timestep_buffer(&mut self, timestep: usize, buffer_id: usize) -> &Timestep {
+        if timestep >= *self.global_stats_.timesteps() {
+            panic!("Timestep {} is behind the end of the dataset", timestep);
+        }
         print_debug!("PData: Extracting timestep number {}", timestep);
         // If a timestep is requested that is higher then the current range
         // update buffer with new range
-- 
2.43.0


From 2225700d39358a403fb85575ab05e210fb4b629f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:05 +0000
Subject: [PATCH 29/59] fix: densities missing in particle-based files are ones

---
 src/datamanager/pdata.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index 45df01a..220ae77 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -282,7 +282,7 @@ impl PData {
                         particle_id,
                         self.file.filename()
                     );
-                    part_rad
+                    1.0
                 }
             };
             print_debug!("\tParticle {}: Extracting time from HDF5.", particle_id);
@@ -525,7 +525,7 @@ impl PData {
                         particle_id,
                         self.file.filename()
                     );
-                    Array1::<f64>::zeros(part_vel.len() / 3)
+                    Array1::<f64>::ones(part_vel.len() / 3)
                 }
             };
 
@@ -787,7 +787,7 @@ impl PData {
                         particle_id,
                         self.file.filename()
                     );
-                    Array1::<f64>::zeros(part_vel.len() / 3)
+                    Array1::<f64>::ones(part_vel.len() / 3)
                 }
             };
 
-- 
2.43.0


From c70673b210ddb0db8fe04880fcb3a6882e416b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:16 +0000
Subject: [PATCH 30/59] fix: unbuffered reads of datasets with several
 particles panicked

---
 src/datamanager/pdata.rs | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index 220ae77..db73e8e 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -122,19 +122,7 @@ impl PData {
                     )
                 })
                 .slice(s![timestep, ..])
-                .to_owned()
-                .into_shape((particles, 3))
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not shape dataset \"position\" in file {} into a ({}, 3) array",
-                        self.file.filename(),
-                        particles
-                    )
-                })
-                .axis_iter(Axis(0))
-                .map(|x| [x[0], x[1], x[2]])
-                .collect::<Array1<Position>>();
-            // iter over elements in 2D array. make  it a 1D array of static arrays with 3 elements.
+                .to_owned();
 
             print_debug!("\tParticle {}: Extracting velocity from HDF5.", particle_id);
             let part_vel = self
@@ -315,7 +303,7 @@ impl PData {
                 .to_owned()[timestep];
 
             //position.slice_mut(s![particle_id]).assign(&part_pos);
-            position[particle_id] = part_pos[particle_id];
+            position[particle_id] = [part_pos[0], part_pos[1], part_pos[2]];
             velocity.slice_mut(s![particle_id, ..]).assign(&part_vel);
 
             //radius.slice_mut(s![particle_id]).assign(&part_rad);
-- 
2.43.0


From 9c40e897c86654e06a5b6ec4c413173679e7746c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:16 +0000
Subject: [PATCH 31/59] fix: unbuffered and buffered reads of particle-based
 files disagreed on identifiers

---
 src/datamanager/pdata.rs | 31 +------------------------------
 1 file changed, 1 insertion(+), 30 deletions(-)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index db73e8e..c78693d 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -209,34 +209,6 @@ impl PData {
                     )
                 })
                 .to_owned()[timestep];
-            let part_id = self
-                .file
-                .group(&format!("particle {}", particle_id))
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not fine particle {} in file {}",
-                        particle_id,
-                        self.file.filename()
-                    )
-                })
-                .dataset("id")
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not find dataset \"id\" in HDF5 file \"{:?}\"",
-                        self.file.filename()
-                    )
-                })
-                .read_1d::<f64>()
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not read data from \"id\" dataset. \
-                    Data type or data format might be wrong. \
-                    Check creation of HDF5 file  \"{:?}\"",
-                        self.file.filename()
-                    )
-                })
-                .to_owned()[timestep];
-
             //.slice(s![timestep])
 
             print_debug!("\tParticle {}: Extracting density from HDF5.", particle_id);
@@ -313,8 +285,7 @@ impl PData {
             density[particle_id] = part_density;
             //time.slice_mut(s![particle_id]).assign(&part_time);
             time[particle_id] = part_time;
-            //particleid.slice_mut(s![particle_id]).assign(&part_id);
-            particleid[particle_id] = part_id;
+            particleid[particle_id] = particle_id as f64;
         }
 
         print_debug!("PData: Data read. Saving new timestap and return reference.");
-- 
2.43.0


From 8e55d8a22a95b5cd302ba3231bf15dfbaec02bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:05 +0000
Subject: [PATCH 32/59] fix: largest values of converted data were lost when no
 smaller value precedes them

---
 src/converter.rs                              | 33 ++++++++++++-------
 .../csv_modes/csv_multi_file_time_step.rs     |  9 +++--
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/converter.rs b/src/converter.rs
index cf7a837..d73c35b 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -229,7 +229,8 @@ pub fn csv_converter(
             print_debug!("  i: {}", i);
             if vel[i] < velocity[[i, 0]] {
                 velocity[[i, 0]] = vel[i];
-            } else if vel[i] > velocity[[i, 2]] {
+            }
+            if vel[i] > velocity[[i, 2]] {
                 velocity[[i, 2]] = vel[i];
             }
             velocity[[i, 1]] += vel[i];
@@ -239,24 +240,28 @@ pub fn csv_converter(
         // check if vel magnitude is bigger or smaller then the current biggest or smallest
         if vel_mag < velocity_mag[0] {
             velocity_mag[0] = vel_mag;
-        } else if vel_mag > velocity_mag[2] {
+        }
+        if vel_mag > velocity_mag[2] {
             velocity_mag[2] = vel_mag;
         }
         velocity_mag[1] += vel_mag;
 
         if pos[0] < dimensions[[0, 0]] {
             dimensions[[0, 0]] = pos[0];
-        } else if pos[0] > dimensions[[1, 0]] {
+        }
+        if pos[0] > dimensions[[1, 0]] {
             dimensions[[1, 0]] = pos[0];
         }
         if pos[1] < dimensions[[0, 1]] {
             dimensions[[0, 1]] = pos[1];
-        } else if pos[1] > dimensions[[1, 1]] {
+        }
+        if pos[1] > dimensions[[1, 1]] {
             dimensions[[1, 1]] = pos[1];
         }
         if pos[2] < dimensions[[0, 2]] {
             dimensions[[0, 2]] = pos[2];
-        } else if pos[2] > dimensions[[1, 2]] {
+        }
+        if pos[2] > dimensions[[1, 2]] {
             dimensions[[1, 2]] = pos[2];
         }
         step += 1;
@@ -740,7 +745,8 @@ impl XMLVTKConverter {
                     print_debug!("  i: {}", i);
                     if vel[i] < velocity[[i, 0]] {
                         velocity[[i, 0]] = vel[i];
-                    } else if vel[i] > velocity[[i, 2]] {
+                    }
+                    if vel[i] > velocity[[i, 2]] {
                         velocity[[i, 2]] = vel[i];
                     }
                     velocity[[i, 1]] += vel[i];
@@ -748,7 +754,8 @@ impl XMLVTKConverter {
                 let vel_mag = vel.map(|v| v * v).sum().sqrt();
                 if vel_mag < velocity_mag[0] {
                     velocity_mag[0] = vel_mag;
-                } else if vel_mag > velocity_mag[2] {
+                }
+                if vel_mag > velocity_mag[2] {
                     velocity_mag[2] = vel_mag;
                 }
                 velocity_mag[1] += vel_mag;
@@ -773,7 +780,8 @@ impl XMLVTKConverter {
                 for i in 0..3 {
                     if pos[i] < dimensions[[0, i]] {
                         dimensions[[0, i]] = pos[i];
-                    } else if pos[i] > dimensions[[1, i]] {
+                    }
+                    if pos[i] > dimensions[[1, i]] {
                         dimensions[[1, i]] = pos[i];
                     }
                 }
@@ -1166,7 +1174,8 @@ impl LegacyVTKConverter {
                     print_debug!("  i: {}", i);
                     if vel[i] < velocity[[i, 0]] {
                         velocity[[i, 0]] = vel[i];
-                    } else if vel[i] > velocity[[i, 2]] {
+                    }
+                    if vel[i] > velocity[[i, 2]] {
                         velocity[[i, 2]] = vel[i];
                     }
                     velocity[[i, 1]] += vel[i];
@@ -1174,7 +1183,8 @@ impl LegacyVTKConverter {
                 let vel_mag = vel.map(|v| v * v).sum().sqrt();
                 if vel_mag < velocity_mag[0] {
                     velocity_mag[0] = vel_mag;
-                } else if vel_mag > velocity_mag[2] {
+                }
+                if vel_mag > velocity_mag[2] {
                     velocity_mag[2] = vel_mag;
                 }
                 velocity_mag[1] += vel_mag;
@@ -1197,7 +1207,8 @@ impl LegacyVTKConverter {
                 for i in 0..3 {
                     if pos[i] < dimensions[[0, i]] {
                         dimensions[[0, i]] = pos[i];
-                    } else if pos[i] > dimensions[[1, i]] {
+                    }
+                    if pos[i] > dimensions[[1, i]] {
                         dimensions[[1, i]] = pos[i];
                     }
                 }
diff --git a/src/converter/csv_modes/csv_multi_file_time_step.rs b/src/converter/csv_modes/csv_multi_file_time_step.rs
index bc52020..1e4484a 100644
--- a/src/converter/csv_modes/csv_multi_file_time_step.rs
+++ b/src/converter/csv_modes/csv_multi_file_time_step.rs
@@ -159,7 +159,8 @@ pub fn csv_multi_file_time_step(
                 print_debug!("  i: {}", i);
                 if vel[i] < velocity[[i, 0]] {
                     velocity[[i, 0]] = vel[i];
-                } else if vel[i] > velocity[[i, 2]] {
+                }
+                if vel[i] > velocity[[i, 2]] {
                     velocity[[i, 2]] = vel[i];
                 }
                 velocity[[i, 1]] += vel[i];
@@ -167,7 +168,8 @@ pub fn csv_multi_file_time_step(
             let vel_mag = vel.map(|v| v * v).sum().sqrt();
             if vel_mag < velocity_mag[0] {
                 velocity_mag[0] = vel_mag;
-            } else if vel_mag > velocity_mag[2] {
+            }
+            if vel_mag > velocity_mag[2] {
                 velocity_mag[2] = vel_mag;
             }
             velocity_mag[1] += vel_mag;
@@ -184,7 +186,8 @@ pub fn csv_multi_file_time_step(
             for i in 0..3 {
                 if pos[i] < dimensions[[0, i]] {
                     dimensions[[0, i]] = pos[i];
-                } else if pos[i] > dimensions[[1, i]] {
+                }
+                if pos[i] > dimensions[[1, i]] {
                     dimensions[[1, i]] = pos[i];
                 }
             }
-- 
2.43.0


From a5bd255f3a14ba79abed27febbf908293ad4249d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:05 +0000
Subject: [PATCH 33/59] fix: sample rates were stored as integers

---
 src/converter.rs                                    | 6 +++---
 src/converter/csv_modes/csv_multi_file_time_step.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/converter.rs b/src/converter.rs
index d73c35b..961c9c1 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -354,7 +354,7 @@ pub fn csv_converter(
         .write_scalar(&timesteps)
         .unwrap();
     hdf5file
-        .new_attr::<u64>()
+        .new_attr::<f64>()
         .create("sample rate")
         .unwrap()
         .write_scalar(&sample_rate)
@@ -833,7 +833,7 @@ impl XMLVTKConverter {
             .write_scalar(&timesteps)
             .unwrap();
         output_file
-            .new_attr::<u64>()
+            .new_attr::<f64>()
             .create("sample rate")
             .unwrap()
             .write_scalar(&sample_rate)
@@ -1260,7 +1260,7 @@ impl LegacyVTKConverter {
             .write_scalar(&timesteps)
             .unwrap();
         output_file
-            .new_attr::<u64>()
+            .new_attr::<f64>()
             .create("sample rate")
             .unwrap()
             .write_scalar(&sample_rate)
diff --git a/src/converter/csv_modes/csv_multi_file_time_step.rs b/src/converter/csv_modes/csv_multi_file_time_step.rs
index 1e4484a..d9f5fef 100644
--- a/src/converter/csv_modes/csv_multi_file_time_step.rs
+++ b/src/converter/csv_modes/csv_multi_file_time_step.rs
@@ -239,7 +239,7 @@ pub fn csv_multi_file_time_step(
         .write_scalar(&timesteps)
         .unwrap();
     hdf5file
-        .new_attr::<u64>()
+        .new_attr::<f64>()
         .create("sample rate")
         .unwrap()
         .write_scalar(&sample_rate)
-- 
2.43.0


From c354f2a5167289a55a0ee53e66d2c420cc4e9d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:05 +0000
Subject: [PATCH 34/59] fix: number of particles of converted data was below
 that of a snapshot

---
 src/converter.rs                                    | 10 ++++------
 src/converter/csv_modes/csv_multi_file_time_step.rs |  2 +-
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/converter.rs b/src/converter.rs
index 961c9c1..0b7ff62 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -667,9 +667,8 @@ impl XMLVTKConverter {
             let sort_list = make_sortlist(&particle_ids);
             let particle_ids = sort_by_array(particle_ids, &sort_list);
             let max_particle = *particle_ids.iter().max().unwrap();
-            if max_particle > nparticles {
-                nparticles = max_particle
-            }
+            // identifiers may start at zero
+            nparticles = nparticles.max(max_particle).max(particle_ids.len() as u64);
             let builder = make_dataset_builder!(group);
             builder
                 .with_data(&particle_ids)
@@ -1096,9 +1095,8 @@ impl LegacyVTKConverter {
             let sort_list = make_sortlist(&particle_ids);
             let particle_ids = sort_by_array(particle_ids, &sort_list);
             let max_particle = *particle_ids.iter().max().unwrap();
-            if max_particle > nparticles {
-                nparticles = max_particle
-            }
+            // identifiers may start at zero
+            nparticles = nparticles.max(max_particle).max(particle_ids.len() as u64);
             let builder = make_dataset_builder!(group);
             builder
                 .with_data(&particle_ids)
diff --git a/src/converter/csv_modes/csv_multi_file_time_step.rs b/src/converter/csv_modes/csv_multi_file_time_step.rs
index d9f5fef..8f02bcb 100644
--- a/src/converter/csv_modes/csv_multi_file_time_step.rs
+++ b/src/converter/csv_modes/csv_multi_file_time_step.rs
@@ -200,7 +200,7 @@ pub fn csv_multi_file_time_step(
                 panic!("Unable to create dataset \"position\" in file {}", filename)
             });
         mean_counter += particle_id.len();
-        nparticles = particle_id.len() as u64;
+        nparticles = nparticles.max(particle_id.len() as u64);
         sample_rate = current_time - old_time;
         old_time = current_time;
         if id % 10 == 0 {
-- 
2.43.0


From 55808693705ac1bcad65e91f190ae3afe2ee9641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:05 +0000
Subject: [PATCH 35/59] fix: csv conversion dropped samples at or before time
 zero

---
 src/converter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/converter.rs b/src/converter.rs
index 0b7ff62..9273a27 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -175,7 +175,7 @@ pub fn csv_converter(
 
     let mut mean_counter: usize = 0;
     let mut failcount = 0;
-    let mut old_time = 0.0; // TIme of the last falid timestep
+    let mut old_time = f64::NEG_INFINITY; // TIme of the last falid timestep
     let mut step = 0;
     print_debug!("Creating a new group \"particle {}\"", step);
     let group = hdf5file
-- 
2.43.0


From 84348e50a48b3c348249ee3ca08b91b91556b2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:05 +0000
Subject: [PATCH 36/59] fix: first time and sample rate of converted csv files

---
 src/converter.rs                                    | 9 +++++----
 src/converter/csv_modes/csv_multi_file_time_step.rs | 5 +++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/converter.rs b/src/converter.rs
index 9273a27..4c2b37f 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -208,7 +208,6 @@ pub fn csv_converter(
         time_array[line_id - total_failcount] = current_time;
         // resetfailcount. we only dont allow them do be in a row!
         failcount = 0;
-        old_time = current_time;
         let pos_x = line[1];
         let pos_y = line[2];
         let pos_z = line[3];
@@ -266,10 +265,12 @@ pub fn csv_converter(
         }
         step += 1;
         mean_counter += 1;
-        sample_rate = current_time - old_time;
-        if current_time > time[1] {
-            time[1] = current_time;
+        if mean_counter == 1 {
+            time[0] = current_time;
+        } else {
+            sample_rate = current_time - old_time;
         }
+        time[1] = current_time;
         old_time = current_time;
         if line_id % 1000 == 0 {
             bar.inc(1000);
diff --git a/src/converter/csv_modes/csv_multi_file_time_step.rs b/src/converter/csv_modes/csv_multi_file_time_step.rs
index 8f02bcb..5daaac4 100644
--- a/src/converter/csv_modes/csv_multi_file_time_step.rs
+++ b/src/converter/csv_modes/csv_multi_file_time_step.rs
@@ -74,9 +74,10 @@ pub fn csv_multi_file_time_step(
             .create_group(&format!("timestep {}", id))
             .unwrap_or_else(|_| panic!("Can not create group timestep {}", id));
         let current_time = time_[id];
-        if current_time > time[1] {
-            time[1] = current_time;
+        if id == 0 {
+            time[0] = current_time;
         }
+        time[1] = current_time;
         time_array.push(current_time);
         group
             .new_dataset::<f64>()
-- 
2.43.0


From e97bac7f50ecc8d15826ed22c8d0b0926fadc6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:05 +0000
Subject: [PATCH 37/59] fix: interpolation of csv data fell behind or ended
 undefined and shortened the time step

---
 src/converter/convertertools.rs | 35 +++++++--------------------------
 1 file changed, 7 insertions(+), 28 deletions(-)

diff --git a/src/converter/convertertools.rs b/src/converter/convertertools.rs
index 2bb51ac..efb832e 100644
--- a/src/converter/convertertools.rs
+++ b/src/converter/convertertools.rs
@@ -29,7 +29,7 @@ pub fn interpolate(
 
     let maxtime = max_time;
     let timesteps = steps;
-    let dt = maxtime / timesteps as f64;
+    let dt = maxtime / (timesteps - 1) as f64;
     // First timestep:
     let mut interp_data = ndarray::Array2::<f64>::zeros((steps, 4));
     // first timestep:
@@ -46,33 +46,12 @@ pub fn interpolate(
     let mut real_step = 1;
     for step in 1..timesteps - 1 {
         let time_new = step as f64 * dt;
-        // find the next indx in the real data which may be the old one
-        real_step = {
-            // if the temporal distance between new time and old time is smaller
-            // then distance between new time and next time return old timestep
-            print_debug!("Real_step:{} time_len {}", real_step, time.len());
-            if real_step < time.len() - 1 {
-                let old_time = time[real_step];
-                let new_time = time[real_step + 1];
-                print_debug!("Old time: {} New time: {}", old_time, new_time);
-                if new_time < old_time {
-                    real_step += 1;
-                } else if (time_new - old_time).abs() < (time_new - new_time).abs() {
-                } else {
-                    real_step += 1;
-                    if real_step < time.len() - 1 {
-                        let old_time = time[real_step];
-                        let new_time = time[real_step + 1];
-
-                        if (time_new - old_time).abs() < (time_new - new_time).abs() {
-                        } else {
-                            real_step += 1;
-                        }
-                    }
-                }
-            }
-            real_step
-        };
+        // advance to the sample that is closest to the new time and has neighbours on both sides
+        while real_step + 2 < time.len()
+            && (time_new - time[real_step]).abs() >= (time_new - time[real_step + 1]).abs()
+        {
+            real_step += 1;
+        }
         print_debug!("Interpolate:  step: {}, real_step: {}, time_new: {}, time[real_step]: {}, time[real_step+1]: {}", step, real_step, time_new, time[real_step], time[real_step+1]);
 
         if real_step >= data.shape()[0] - 1 {
-- 
2.43.0


From d805bc56055a0512070e308775b66fef3ac71eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:05 +0000
Subject: [PATCH 38/59] fix: velocities of csv data were those of the sample
 after the middle of the window

---
 src/converter/convertertools.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/converter/convertertools.rs b/src/converter/convertertools.rs
index efb832e..879a35b 100644
--- a/src/converter/convertertools.rs
+++ b/src/converter/convertertools.rs
@@ -149,21 +149,21 @@ pub fn velocity_polynom(
             .iter()
             .enumerate()
             .map(|(n, param)| {
-                param * n as f64 * time[(sampling_steps - 1) / 2 + 1].powf(n as f64 - 1.)
+                param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.)
             })
             .sum();
         let vy: f64 = param_y
             .iter()
             .enumerate()
             .map(|(n, param)| {
-                param * n as f64 * time[(sampling_steps - 1) / 2 + 1].powf(n as f64 - 1.)
+                param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.)
             })
             .sum();
         let vz: f64 = param_z
             .iter()
             .enumerate()
             .map(|(n, param)| {
-                param * n as f64 * time[(sampling_steps - 1) / 2 + 1].powf(n as f64 - 1.)
+                param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.)
             })
             .sum();
         new_data[[id - (sampling_steps - 1) / 2, 0]] = data[[id, 0]];
-- 
2.43.0


From 5a7f01e24fb78c927f216f273e8efb1bd5d0e324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:05 +0000
Subject: [PATCH 39/59] fix: folders of xml-based vtk files could not be
 converted

---
 src/converter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/converter.rs b/src/converter.rs
index 4c2b37f..df33f7f 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -545,7 +545,8 @@ impl XMLVTKConverter {
         let mut out_vec: Vec<&str> = Vec::new();
         for filename_ in filenames.iter() {
             let filename = filename_.to_str().unwrap();
-            if filename.ends_with(".vtk") && !filename.contains("boundingBox") {
+            let is_vtk = [".vtk", ".vtu", ".vtp"].iter().any(|end| filename.ends_with(end));
+            if is_vtk && !filename.contains("boundingBox") {
                 print_debug!("\t Found file: {}", filename);
             } else {
                 print_debug!("\t Ignoring file: {}", filename);
-- 
2.43.0


From 570230cd268f3be3706dd219b9cf4cc39742ba42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:54 +0000
Subject: [PATCH 40/59] fix: arrows and parity maps of xz planes were drawn at
 the y positions

---
 src/plotting/plotting_2d/parity_contour.rs | 8 ++++----
 src/plotting/plotting_2d/parity_map.rs     | 8 ++++----
 src/plotting/plotting_2d/quiver.rs         | 2 +-
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/plotting/plotting_2d/parity_contour.rs b/src/plotting/plotting_2d/parity_contour.rs
index d22f355..c577313 100644
--- a/src/plotting/plotting_2d/parity_contour.rs
+++ b/src/plotting/plotting_2d/parity_contour.rs
@@ -18,7 +18,7 @@ impl ParityContour {
         axis: usize,
     ) -> ParityContour {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -70,7 +70,7 @@ impl ParityContour {
         index: usize,
     ) -> ParityContour {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -133,7 +133,7 @@ impl ParityContour {
         axis: usize,
     ) -> ParityContour {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -168,7 +168,7 @@ impl ParityContour {
         index: usize,
     ) -> ParityContour {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
diff --git a/src/plotting/plotting_2d/parity_map.rs b/src/plotting/plotting_2d/parity_map.rs
index 4c74925..36ae3ad 100644
--- a/src/plotting/plotting_2d/parity_map.rs
+++ b/src/plotting/plotting_2d/parity_map.rs
@@ -20,7 +20,7 @@ impl ParityMap {
         axis: usize,
     ) -> ParityMap {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -72,7 +72,7 @@ impl ParityMap {
         index: usize,
     ) -> ParityMap {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -135,7 +135,7 @@ impl ParityMap {
         axis: usize,
     ) -> ParityMap {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -170,7 +170,7 @@ impl ParityMap {
         index: usize,
     ) -> ParityMap {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
diff --git a/src/plotting/plotting_2d/quiver.rs b/src/plotting/plotting_2d/quiver.rs
index 99d5b55..59f7924 100644
--- a/src/plotting/plotting_2d/quiver.rs
+++ b/src/plotting/plotting_2d/quiver.rs
@@ -42,7 +42,7 @@ impl QuiverPlot {
 
     pub fn from_vector_grid_depth_averaged(grid: VectorGrid, axis: usize) -> QuiverPlot {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             grid.get_ypositions().to_owned()
         } else {
             grid.get_xpositions().to_owned()
-- 
2.43.0


From d81b6176ec78682516caf95f0a80d92dbed1e70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:54 +0000
Subject: [PATCH 41/59] fix: barbs of unit vectors ignored the scale ratio

---
 src/plotting/plotting_2d/unit_vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plotting/plotting_2d/unit_vector.rs b/src/plotting/plotting_2d/unit_vector.rs
index 163e901..88423e0 100644
--- a/src/plotting/plotting_2d/unit_vector.rs
+++ b/src/plotting/plotting_2d/unit_vector.rs
@@ -127,7 +127,7 @@ impl UnitVectorPlot {
         let mut barb_angles = Array2::zeros(self.u.dim());
         Zip::from(&mut barb_angles)
             .and(&self.v)
-            .and(&self.u)
+            .and(&u)
             .for_each(|a, &v, &u| {
                 *a = f64::atan2(v, u);
             });
-- 
2.43.0


From d2ae6cd68d7fb27376b702f45bb42cdd2d3d2ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:54 +0000
Subject: [PATCH 42/59] fix: parity lines of vector grids only covered the
 first component

---
 src/plotting/plotting_2d/parity_plot.rs | 64 +++++++++++++++----------
 1 file changed, 40 insertions(+), 24 deletions(-)

diff --git a/src/plotting/plotting_2d/parity_plot.rs b/src/plotting/plotting_2d/parity_plot.rs
index cf46d35..8759947 100644
--- a/src/plotting/plotting_2d/parity_plot.rs
+++ b/src/plotting/plotting_2d/parity_plot.rs
@@ -20,6 +20,22 @@ pub struct ParityPlot {
     ymax: f64,
 }
 
+/// smallest value of all components
+fn vector_min(grid: &VectorGrid) -> f64 {
+    grid.data
+        .iter()
+        .map(|component| *component.get_data().min_skipnan())
+        .fold(f64::NAN, f64::min)
+}
+
+/// largest value of all components
+fn vector_max(grid: &VectorGrid) -> f64 {
+    grid.data
+        .iter()
+        .map(|component| *component.get_data().max_skipnan())
+        .fold(f64::NAN, f64::max)
+}
+
 impl ParityPlot {
     pub fn from_vector_grids(
         reference_grid: VectorGrid,
@@ -29,14 +45,14 @@ impl ParityPlot {
         let mut reference_data: Vec<f64> = Vec::with_capacity(capacity);
         let mut comparison_data: Vec<f64> = Vec::with_capacity(capacity);
 
-        let xmin_reference = *reference_grid.get_data().min_skipnan();
-        let xmax_reference = *reference_grid.get_data().max_skipnan();
-        let xmin_comparison = *comparison_grid.get_data().min_skipnan();
-        let xmax_comparison = *comparison_grid.get_data().max_skipnan();
-        let ymin_reference = *reference_grid.get_data().min_skipnan();
-        let ymax_reference = *reference_grid.get_data().max_skipnan();
-        let ymin_comparison = *comparison_grid.get_data().min_skipnan();
-        let ymax_comparison = *comparison_grid.get_data().max_skipnan();
+        let xmin_reference = vector_min(&reference_grid);
+        let xmax_reference = vector_max(&reference_grid);
+        let xmin_comparison = vector_min(&comparison_grid);
+        let xmax_comparison = vector_max(&comparison_grid);
+        let ymin_reference = vector_min(&reference_grid);
+        let ymax_reference = vector_max(&reference_grid);
+        let ymin_comparison = vector_min(&comparison_grid);
+        let ymax_comparison = vector_max(&comparison_grid);
 
         let xmin = if xmin_reference < xmin_comparison {
             xmin_reference
@@ -83,14 +99,14 @@ impl ParityPlot {
         comparison_grid: VectorGrid,
         axis: usize,
     ) -> ParityPlot {
-        let xmin_reference = *reference_grid.get_data().min_skipnan();
-        let xmax_reference = *reference_grid.get_data().max_skipnan();
-        let xmin_comparison = *comparison_grid.get_data().min_skipnan();
-        let xmax_comparison = *comparison_grid.get_data().max_skipnan();
-        let ymin_reference = *reference_grid.get_data().min_skipnan();
-        let ymax_reference = *reference_grid.get_data().max_skipnan();
-        let ymin_comparison = *comparison_grid.get_data().min_skipnan();
-        let ymax_comparison = *comparison_grid.get_data().max_skipnan();
+        let xmin_reference = vector_min(&reference_grid);
+        let xmax_reference = vector_max(&reference_grid);
+        let xmin_comparison = vector_min(&comparison_grid);
+        let xmax_comparison = vector_max(&comparison_grid);
+        let ymin_reference = vector_min(&reference_grid);
+        let ymax_reference = vector_max(&reference_grid);
+        let ymin_comparison = vector_min(&comparison_grid);
+        let ymax_comparison = vector_max(&comparison_grid);
 
         let xmin = if xmin_reference < xmin_comparison {
             xmin_reference
@@ -156,14 +172,14 @@ impl ParityPlot {
         axis: usize,
         index: usize,
     ) -> ParityPlot {
-        let xmin_reference = *reference_grid.get_data().min_skipnan();
-        let xmax_reference = *reference_grid.get_data().max_skipnan();
-        let xmin_comparison = *comparison_grid.get_data().min_skipnan();
-        let xmax_comparison = *comparison_grid.get_data().max_skipnan();
-        let ymin_reference = *reference_grid.get_data().min_skipnan();
-        let ymax_reference = *reference_grid.get_data().max_skipnan();
-        let ymin_comparison = *comparison_grid.get_data().min_skipnan();
-        let ymax_comparison = *comparison_grid.get_data().max_skipnan();
+        let xmin_reference = vector_min(&reference_grid);
+        let xmax_reference = vector_max(&reference_grid);
+        let xmin_comparison = vector_min(&comparison_grid);
+        let xmax_comparison = vector_max(&comparison_grid);
+        let ymin_reference = vector_min(&reference_grid);
+        let ymax_reference = vector_max(&reference_grid);
+        let ymin_comparison = vector_min(&comparison_grid);
+        let ymax_comparison = vector_max(&comparison_grid);
 
         let xmin = if xmin_reference < xmin_comparison {
             xmin_reference
-- 
2.43.0


From 89ebff53d3341a9f6516fcac2118fcf99bd93afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 43/59] fix: maps of data in another memory order showed values
 in the wrong cells

---
 src/plotting/plotting_2d/parity_contour.rs | 2 +-
 src/plotting/plotting_2d/parity_map.rs     | 2 +-
 src/plotting/plotting_2d/scalar_map.rs     | 2 +-
 src/plotting/plotting_2d/unit_vector.rs    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/plotting/plotting_2d/parity_contour.rs b/src/plotting/plotting_2d/parity_contour.rs
index c577313..6cabce2 100644
--- a/src/plotting/plotting_2d/parity_contour.rs
+++ b/src/plotting/plotting_2d/parity_contour.rs
@@ -206,7 +206,7 @@ impl ParityContour {
         let heatmap = HeatMap::new(
             self.x.to_owned().into_raw_vec(),
             self.y.to_owned().into_raw_vec(),
-            self.delta.to_owned().into_raw_vec(),
+            self.delta.iter().copied().collect(),
         );
         let traces = vec![heatmap];
 
diff --git a/src/plotting/plotting_2d/parity_map.rs b/src/plotting/plotting_2d/parity_map.rs
index 36ae3ad..758d93e 100644
--- a/src/plotting/plotting_2d/parity_map.rs
+++ b/src/plotting/plotting_2d/parity_map.rs
@@ -208,7 +208,7 @@ impl ParityMap {
         let heatmap = HeatMap::new(
             self.x.to_owned().into_raw_vec(),
             self.y.to_owned().into_raw_vec(),
-            self.delta.to_owned().into_raw_vec(),
+            self.delta.iter().copied().collect(),
         );
         let traces = vec![heatmap];
 
diff --git a/src/plotting/plotting_2d/scalar_map.rs b/src/plotting/plotting_2d/scalar_map.rs
index 5ee1612..a6cf7ae 100644
--- a/src/plotting/plotting_2d/scalar_map.rs
+++ b/src/plotting/plotting_2d/scalar_map.rs
@@ -119,7 +119,7 @@ impl ScalarMap {
         let heatmap = HeatMap::new(
             x.into_raw_vec(),
             y.into_raw_vec(),
-            self.data.to_owned().into_raw_vec(),
+            self.data.iter().copied().collect(),
         ).color_scale(ColorScale::Vector(cmap));
         let trace = vec![heatmap];
         trace
diff --git a/src/plotting/plotting_2d/unit_vector.rs b/src/plotting/plotting_2d/unit_vector.rs
index 88423e0..9aaeefc 100644
--- a/src/plotting/plotting_2d/unit_vector.rs
+++ b/src/plotting/plotting_2d/unit_vector.rs
@@ -222,7 +222,7 @@ impl UnitVectorPlot {
         HeatMap::new(
             x.into_raw_vec(),
             y.into_raw_vec(),
-            self.true_norm.to_owned().into_raw_vec(),
+            self.true_norm.iter().copied().collect(),
         )
         .color_scale(ColorScale::Vector(cmap))
     }
-- 
2.43.0


From d6fb0f48add3a795e30440eb4b89a85b8a40e7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:22 +0000
Subject: [PATCH 44/59] fix: indices outside of a dataset panicked in Python,
 so iterating over it never ended well

---
 src/pylib.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/pylib.rs b/src/pylib.rs
index 03afd11..e16ed2e 100644
--- a/src/pylib.rs
+++ b/src/pylib.rs
@@ -827,14 +827,9 @@ impl PyData {
     fn __getitem__(&mut self, idx: SliceIntOrVec, py: Python) -> PyResult<PyObject> {
         match idx{
             SliceIntOrVec::Int(index) =>{
-            let _idx;
-            if index < 0 {
-                _idx = *self.data.global_stats().timesteps() as isize + index;
-            } else {
-                _idx = index;
-            }
+            let _idx = self.checked_index(index)?;
             // Single index
-            let timestep = self.data.get_timestep(_idx as usize);
+            let timestep = self.data.get_timestep(_idx);
             // make it an array
             let position = timestep.position().to_owned();
             let velocity = timestep.velocity().to_owned();
@@ -865,13 +860,8 @@ impl PyData {
                 [indices.len(), *self.data.global_stats().nparticles(), 7]
             );
             for (i, index) in indices.iter().enumerate() {
-                let  _idx;
-                if index < &0 {
-                    _idx = *self.data.global_stats().timesteps() as isize + index;
-                } else {
-                    _idx = *index;
-                }
-                let timestep = self.data.get_timestep(_idx as usize);
+                let _idx = self.checked_index(*index)?;
+                let timestep = self.data.get_timestep(_idx);
                 // make it an array
                 let position = timestep.position().to_owned();
                 let velocity = timestep.velocity().to_owned();
@@ -934,6 +924,22 @@ impl PyData {
 
 }
 
+impl PyData {
+    /// Timestep for an index which may be negative, as in a list. Indices outside of the dataset
+    /// are an IndexError, which also ends an iteration over the dataset.
+    fn checked_index(&self, index: isize) -> PyResult<usize> {
+        let timesteps = *self.data.global_stats().timesteps() as isize;
+        let timestep = if index < 0 { timesteps + index } else { index };
+        if timestep < 0 || timestep >= timesteps {
+            return Err(pyo3::exceptions::PyIndexError::new_err(format!(
+                "Index {} is out of range for {} timesteps",
+                index, timesteps
+            )));
+        }
+        Ok(timestep as usize)
+    }
+}
+
 /// A Python module implemented in Rust. The name of this function must match
 /// the `lib.name` setting in the `Cargo.toml`, else Python will not be able to
 /// import the module.
-- 
2.43.0


From ed4c4eddc6288defd496414a83999242bce8e326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:22 +0000
Subject: [PATCH 45/59] fix: slices of datasets with a step lost or repeated
 timesteps or panicked in Python

---
 src/pylib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pylib.rs b/src/pylib.rs
index e16ed2e..497e660 100644
--- a/src/pylib.rs
+++ b/src/pylib.rs
@@ -887,12 +887,13 @@ impl PyData {
                 "Could not get indices"
             );
             let start = indices.start;
-            let stop = indices.stop;
             let step = indices.step;
+            let length = indices.slicelength as usize;
             let mut result = ndarray::Array3::<f64>::zeros(
-                [((stop - start) / step) as usize, *self.data.global_stats().nparticles(), 7]
+                [length, *self.data.global_stats().nparticles(), 7]
             );
-            for (i, index) in (start..stop).step_by(step as usize).enumerate() {
+            for i in 0..length {
+                let index = start + i as isize * step;
                 let timestep = self.data.get_timestep(index as usize);
                 // make it an array
                 let position = timestep.position().to_owned();
-- 
2.43.0


From aa7481aef9ec115847973a7c520a3ccf6dcaf8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:22 +0000
Subject: [PATCH 46/59] fix: cell sizes with data ignored explicit limits and
 gave numbers of cells that no grid accepts

---
 up4/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/up4/grid.py b/up4/grid.py
index 29bd6f8..a24f49e 100644
--- a/up4/grid.py
+++ b/up4/grid.py
@@ -14,7 +14,7 @@ from upppp_rust import Data
 
 
 def calc_num_cells(cell_size, data, limits, xlim, ylim, zlim):
-    if data is not None:
+    if data is not None and limits is None:
         xmin, ymin, zmin = data.min_position()
         xmax, ymax, zmax = data.max_position()
         if xlim is not None:
@@ -30,7 +30,7 @@ def calc_num_cells(cell_size, data, limits, xlim, ylim, zlim):
         num_cells = np.zeros(3)
         for i in range(3):
             num_cells[i] = int((dim[2 * i + 1] - dim[2 * i]) / cell_size[i])
-        return num_cells
+        return np.array(num_cells, dtype=np.int64)
     elif limits is not None:
         num_cells = np.zeros(3)
         for i in range(3):
-- 
2.43.0


From 88e5fd7b5f0927b243d9e3c42fd6163d491b4d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:22 +0000
Subject: [PATCH 47/59] fix: negative limits of grids were refused in Python

---
 up4/grid.py | 31 ++++++++-----------------------
 1 file changed, 8 insertions(+), 23 deletions(-)

diff --git a/up4/grid.py b/up4/grid.py
index a24f49e..430e542 100644
--- a/up4/grid.py
+++ b/up4/grid.py
@@ -150,11 +150,7 @@ class Grid(RustGrid):
 
             # data is given and cell size is given
             elif data is not None and limits is not None:
-                # BUG limits can be negative. nobody say they cant
-                if not any(i < 0 for i in limits):
-                    return self.cartesian3d(np.asarray(num_cells), np.asarray(limits))
-                else:
-                    raise ValueError("limits must be positive")
+                return self.cartesian3d(np.asarray(num_cells), np.asarray(limits))
             # data is given and at least one of xlim,ylim,zlim is not none
             elif data is not None and (
                 xlim is not None or ylim is not None or zlim is not None
@@ -176,12 +172,7 @@ class Grid(RustGrid):
                 )
             elif data is None:
                 if limits is not None:
-                    if not any(i < 0 for i in limits):
-                        return self.cartesian3d(
-                            np.asarray(num_cells), np.asarray(limits)
-                        )
-                    else:
-                        raise ValueError("limits must be positive")
+                    return self.cartesian3d(np.asarray(num_cells), np.asarray(limits))
                 elif xlim is not None and ylim is not None and zlim is not None:
                     dim = [xlim[0], xlim[1], ylim[0], ylim[1], zlim[0], zlim[1]]
                     return self.cartesian3d(np.asarray(num_cells), np.asarray(dim))
@@ -206,12 +197,9 @@ class Grid(RustGrid):
 
             # data is given and cell size is given
             elif data is not None and limits is not None:
-                if not any(i < 0 for i in limits):
-                    return self.cylindrical3d(
-                        np.asarray(num_cells, dtype=np.int64), np.asarray(limits)
-                    )
-                else:
-                    raise ValueError("limits must be positive")
+                return self.cylindrical3d(
+                    np.asarray(num_cells, dtype=np.int64), np.asarray(limits)
+                )
             # data is given and at least one of xlim,ylim,zlim is not none
             elif data is not None and (
                 xlim is not None or ylim is not None or zlim is not None
@@ -233,12 +221,9 @@ class Grid(RustGrid):
                 )
             elif data is None:
                 if limits is not None:
-                    if not any(i < 0 for i in limits):
-                        return self.cylindrical3d(
-                            np.asarray(num_cells, dtype=np.int64), np.asarray(limits)
-                        )
-                    else:
-                        raise ValueError("limits must be positive")
+                    return self.cylindrical3d(
+                        np.asarray(num_cells, dtype=np.int64), np.asarray(limits)
+                    )
                 elif xlim is not None and ylim is not None and zlim is not None:
                     dim = [xlim[0], xlim[1], ylim[0], ylim[1], zlim[0], zlim[1]]
                     return self.cylindrical3d(
-- 
2.43.0


From 5d675bcd83116fc61749559036478a10864fa4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:14 +0000
Subject: [PATCH 48/59] fix: the radius given for several csv files was ignored

---
 src/converter/csv_modes/csv_multi_file_time_step.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/converter/csv_modes/csv_multi_file_time_step.rs b/src/converter/csv_modes/csv_multi_file_time_step.rs
index 5daaac4..91b58a2 100644
--- a/src/converter/csv_modes/csv_multi_file_time_step.rs
+++ b/src/converter/csv_modes/csv_multi_file_time_step.rs
@@ -126,7 +126,7 @@ pub fn csv_multi_file_time_step(
         let builder = group.new_dataset_builder();
         let zero_array = vec![0.0; particle_id.len()];
         builder
-            .with_data(&zero_array)
+            .with_data(&vec![radius; particle_id.len()])
             .create("radius")
             .unwrap_or_else(|_| panic!("Unable to create dataset \"radius\" in file {}", filename));
 
-- 
2.43.0


From a3aa32301b81d3c654f8186a76679df2eb66f068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:43 +0000
Subject: [PATCH 49/59] fix: unit vector plots asked for min_size where
 max_size is needed

---
 up4/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/up4/plotting.py b/up4/plotting.py
index ba0f815..8a4fb3b 100644
--- a/up4/plotting.py
+++ b/up4/plotting.py
@@ -325,7 +325,7 @@ class Plotter2D:
             index,
             scaling_mode=scaling_mode,
             min_size=min_size,
-            max_size=min_size,
+            max_size=max_size,
             colour_map=colour_map,
         )
         self._plotter._unit_vector_plot(
-- 
2.43.0


From ea6c797f43e8d5919723c824818fcd79c089c6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:43 +0000
Subject: [PATCH 50/59] fix: names of colour maps were case-sensitive, against
 the documentation

---
 src/pylib/libplot.rs | 2 +-
 up4/plotting.py      | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pylib/libplot.rs b/src/pylib/libplot.rs
index 1329292..a6b8453 100644
--- a/src/pylib/libplot.rs
+++ b/src/pylib/libplot.rs
@@ -547,7 +547,7 @@ impl PyPlotter2D {
 impl PyPlotter2D {
     fn get_gradient(&self, colour_map: Option<&str>) -> Option<Gradient> {
         // Once we get reflection, maybe this will look less bad??
-        match colour_map {
+        match colour_map.map(str::to_lowercase).as_deref() {
             Some("turbo") => Some(colorous::TURBO),
             Some("viridis") => Some(colorous::VIRIDIS),
             Some("inferno") => Some(colorous::INFERNO),
diff --git a/up4/plotting.py b/up4/plotting.py
index 8a4fb3b..917731d 100644
--- a/up4/plotting.py
+++ b/up4/plotting.py
@@ -1021,7 +1021,10 @@ class Plotter2D:
                 'Using scaling mode: "minmax" requires values for `min_size` and '
                 "`max_size` to be set"
             )
-        if colour_map is not None and colour_map not in valid_colour_map_values:
+        if (
+            colour_map is not None
+            and colour_map.lower() not in valid_colour_map_values
+        ):
             raise ValueError(
                 f"Colourmap value: {colour_map} is not valid. Valid values are"
                 f" {valid_colour_map_values}."
-- 
2.43.0


From fbf91a83230c65544be783112569e05b57f064b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:45 +0000
Subject: [PATCH 51/59] fix: datasets of several particles from one csv file
 were said to have one particle

---
 src/converter/csv_modes/csv_multi_chain.rs  | 2 +-
 src/converter/csv_modes/csv_multi_idline.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 94c9f6a..8b363a0 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -354,7 +354,7 @@ pub fn csv_multi_chain(
         .new_attr::<u64>()
         .create("particle number")
         .unwrap()
-        .write_scalar(&1_usize)
+        .write_scalar(&particle_data.len())
         .unwrap();
     hdf5file
         .new_attr::<u64>()
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index ba5e15e..0c41cb7 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -326,7 +326,7 @@ pub fn csv_multi_idline(
         .new_attr::<u64>()
         .create("particle number")
         .unwrap()
-        .write_scalar(&1_usize)
+        .write_scalar(&particle_data.len())
         .unwrap();
     hdf5file
         .new_attr::<u64>()
-- 
2.43.0


From fa8b23461bbbda25ce3c375c15e11bb2c1b16089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:45 +0000
Subject: [PATCH 52/59] fix: largest values of several particles from one csv
 file were lost when no smaller value precedes them

---
 src/converter/csv_modes/csv_multi_chain.rs  | 15 ++++++++++-----
 src/converter/csv_modes/csv_multi_idline.rs | 15 ++++++++++-----
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 8b363a0..95834a5 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -243,7 +243,8 @@ pub fn csv_multi_chain(
                 print_debug!("  i: {}", i);
                 if vel[i] < velocity[[i, 0]] {
                     velocity[[i, 0]] = vel[i];
-                } else if vel[i] > velocity[[i, 2]] {
+                }
+                if vel[i] > velocity[[i, 2]] {
                     velocity[[i, 2]] = vel[i];
                 }
                 velocity[[i, 1]] += vel[i];
@@ -253,24 +254,28 @@ pub fn csv_multi_chain(
             // check if vel magnitude is bigger or smaller then the current biggest or smallest
             if vel_mag < velocity_mag[0] {
                 velocity_mag[0] = vel_mag;
-            } else if vel_mag > velocity_mag[2] {
+            }
+            if vel_mag > velocity_mag[2] {
                 velocity_mag[2] = vel_mag;
             }
             velocity_mag[1] += vel_mag;
 
             if pos[0] < dimensions[[0, 0]] {
                 dimensions[[0, 0]] = pos[0];
-            } else if pos[0] > dimensions[[1, 0]] {
+            }
+            if pos[0] > dimensions[[1, 0]] {
                 dimensions[[1, 0]] = pos[0];
             }
             if pos[1] < dimensions[[0, 1]] {
                 dimensions[[0, 1]] = pos[1];
-            } else if pos[1] > dimensions[[1, 1]] {
+            }
+            if pos[1] > dimensions[[1, 1]] {
                 dimensions[[1, 1]] = pos[1];
             }
             if pos[2] < dimensions[[0, 2]] {
                 dimensions[[0, 2]] = pos[2];
-            } else if pos[2] > dimensions[[1, 2]] {
+            }
+            if pos[2] > dimensions[[1, 2]] {
                 dimensions[[1, 2]] = pos[2];
             }
             //step += 1;
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index 0c41cb7..e87295d 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -216,7 +216,8 @@ pub fn csv_multi_idline(
                 print_debug!("  i: {}", i);
                 if vel[i] < velocity[[i, 0]] {
                     velocity[[i, 0]] = vel[i];
-                } else if vel[i] > velocity[[i, 2]] {
+                }
+                if vel[i] > velocity[[i, 2]] {
                     velocity[[i, 2]] = vel[i];
                 }
                 velocity[[i, 1]] += vel[i];
@@ -226,24 +227,28 @@ pub fn csv_multi_idline(
             // check if vel magnitude is bigger or smaller then the current biggest or smallest
             if vel_mag < velocity_mag[0] {
                 velocity_mag[0] = vel_mag;
-            } else if vel_mag > velocity_mag[2] {
+            }
+            if vel_mag > velocity_mag[2] {
                 velocity_mag[2] = vel_mag;
             }
             velocity_mag[1] += vel_mag;
 
             if pos[0] < dimensions[[0, 0]] {
                 dimensions[[0, 0]] = pos[0];
-            } else if pos[0] > dimensions[[1, 0]] {
+            }
+            if pos[0] > dimensions[[1, 0]] {
                 dimensions[[1, 0]] = pos[0];
             }
             if pos[1] < dimensions[[0, 1]] {
                 dimensions[[0, 1]] = pos[1];
-            } else if pos[1] > dimensions[[1, 1]] {
+            }
+            if pos[1] > dimensions[[1, 1]] {
                 dimensions[[1, 1]] = pos[1];
             }
             if pos[2] < dimensions[[0, 2]] {
                 dimensions[[0, 2]] = pos[2];
-            } else if pos[2] > dimensions[[1, 2]] {
+            }
+            if pos[2] > dimensions[[1, 2]] {
                 dimensions[[1, 2]] = pos[2];
             }
             //step += 1;
-- 
2.43.0


From 409424f0f38c8b64dda1986aab18107a06e787e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:45 +0000
Subject: [PATCH 53/59] fix: samples of several particles at or before time
 zero, or left out, became rows of zeros

---
 src/converter/csv_modes/csv_multi_chain.rs  | 14 ++++++++++----
 src/converter/csv_modes/csv_multi_idline.rs | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 95834a5..5a86c3e 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -177,9 +177,6 @@ pub fn csv_multi_chain(
     for (p_id, data) in particle_data.iter().enumerate() {
         // progress bar
         let data_length = data.column(0).len();
-        if data_length > timesteps {
-            timesteps = data_length;
-        }
         let bar = setup_bar!("Converting", data_length);
         // Attributes
 
@@ -192,7 +189,8 @@ pub fn csv_multi_chain(
         let mut vel_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut pos_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut failcount = 0;
-        let mut old_time = 0.0; // TIme of the last falid timestep
+        let mut total_failcount = 0;
+        let mut old_time = f64::NEG_INFINITY; // TIme of the last falid timestep
 
         print_debug!("Creating a new group \"particle {}\"", p_id);
         let group = hdf5file
@@ -209,6 +207,7 @@ pub fn csv_multi_chain(
                 // The particle went back in time
                 // This is not possible and must be ignored.
                 failcount += 1;
+                total_failcount += 1;
                 if failcount > MAX_FAILS {
                     panic!(
                         "Maximum amount of points that are behind the current \
@@ -219,6 +218,7 @@ pub fn csv_multi_chain(
                 }
                 continue;
             }
+            let line_id = line_id - total_failcount;
             time_array[line_id] = current_time;
             // resetfailcount. we only dont allow them do be in a row!
             failcount = 0;
@@ -290,6 +290,12 @@ pub fn csv_multi_chain(
                 check_signals!();
             }
         } // end filename forloop
+        // remove the rows that were left out
+        let rows = data_length - total_failcount;
+        let pos_array = pos_array.slice(ndarray::s![..rows, ..]);
+        let vel_array = vel_array.slice(ndarray::s![..rows, ..]);
+        time_array = time_array.slice(ndarray::s![..rows]).to_owned();
+        timesteps = timesteps.max(rows);
           // write data into HDF5 file
         let builder = group.new_dataset_builder();
         builder
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index e87295d..6d2f3c2 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -150,9 +150,6 @@ pub fn csv_multi_idline(
         // progress bar
         println!("{:?}", data.shape());
         let data_length = data.column(0).len();
-        if data_length > timesteps {
-            timesteps = data_length;
-        }
         // Attributes
         // arrays that will be saved:
         time_array = ndarray::Array1::<f64>::zeros(data_length);
@@ -164,7 +161,8 @@ pub fn csv_multi_idline(
         let mut vel_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut pos_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut failcount = 0;
-        let mut old_time = 0.0; // TIme of the last falid timestep
+        let mut total_failcount = 0;
+        let mut old_time = f64::NEG_INFINITY; // TIme of the last falid timestep
 
         print_debug!("Creating a new group \"particle {}\"", p_id);
         let group = hdf5file
@@ -181,6 +179,7 @@ pub fn csv_multi_idline(
                 // The particle went back in time
                 // This is not possible and must be ignored.
                 failcount += 1;
+                total_failcount += 1;
                 if failcount > MAX_FAILS {
                     panic!(
                         "Maximum amount of points that are behind the current \
@@ -191,6 +190,7 @@ pub fn csv_multi_idline(
                 }
                 continue;
             }
+            let line_id = line_id - total_failcount;
             time_array[line_id] = current_time;
             // resetfailcount. we only dont allow them do be in a row!
             failcount = 0;
@@ -262,6 +262,12 @@ pub fn csv_multi_idline(
                 check_signals!();
             }
         } // end filename forloop
+        // remove the rows that were left out
+        let rows = data_length - total_failcount;
+        let pos_array = pos_array.slice(ndarray::s![..rows, ..]);
+        let vel_array = vel_array.slice(ndarray::s![..rows, ..]);
+        time_array = time_array.slice(ndarray::s![..rows]).to_owned();
+        timesteps = timesteps.max(rows);
           // write data into HDF5 file
         let builder = group.new_dataset_builder();
         builder
-- 
2.43.0


From a8587c0afa95d10a0498bc6f4ce79b01d517aace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:45 +0000
Subject: [PATCH 54/59] fix: first time and sample rate of several particles
 from one csv file

---
 src/converter/csv_modes/csv_multi_chain.rs  | 12 ++++++++----
 src/converter/csv_modes/csv_multi_idline.rs | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 5a86c3e..d0974f0 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -222,7 +222,6 @@ pub fn csv_multi_chain(
             time_array[line_id] = current_time;
             // resetfailcount. we only dont allow them do be in a row!
             failcount = 0;
-            old_time = current_time;
             let pos_x = line[1];
             let pos_y = line[2];
             let pos_z = line[3];
@@ -280,8 +279,13 @@ pub fn csv_multi_chain(
             }
             //step += 1;
             mean_counter += 1;
-            sample_rate = current_time - old_time;
-            if current_time > time[1] {
+            if old_time > f64::NEG_INFINITY {
+                sample_rate = current_time - old_time;
+            }
+            if mean_counter == 1 || current_time < time[0] {
+                time[0] = current_time;
+            }
+            if mean_counter == 1 || current_time > time[1] {
                 time[1] = current_time;
             }
             old_time = current_time;
@@ -374,7 +378,7 @@ pub fn csv_multi_chain(
         .write_scalar(&timesteps)
         .unwrap();
     hdf5file
-        .new_attr::<u64>()
+        .new_attr::<f64>()
         .create("sample rate")
         .unwrap()
         .write_scalar(&sample_rate)
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index 6d2f3c2..405890d 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -194,7 +194,6 @@ pub fn csv_multi_idline(
             time_array[line_id] = current_time;
             // resetfailcount. we only dont allow them do be in a row!
             failcount = 0;
-            old_time = current_time;
             let pos_x = line[1];
             let pos_y = line[2];
             let pos_z = line[3];
@@ -253,8 +252,13 @@ pub fn csv_multi_idline(
             }
             //step += 1;
             mean_counter += 1;
-            sample_rate = current_time - old_time;
-            if current_time > time[1] {
+            if old_time > f64::NEG_INFINITY {
+                sample_rate = current_time - old_time;
+            }
+            if mean_counter == 1 || current_time < time[0] {
+                time[0] = current_time;
+            }
+            if mean_counter == 1 || current_time > time[1] {
                 time[1] = current_time;
             }
             old_time = current_time;
@@ -346,7 +350,7 @@ pub fn csv_multi_idline(
         .write_scalar(&timesteps)
         .unwrap();
     hdf5file
-        .new_attr::<u64>()
+        .new_attr::<f64>()
         .create("sample rate")
         .unwrap()
         .write_scalar(&sample_rate)
-- 
2.43.0


From 49797e03a517d6625cd01afa81e8f7d172221bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:45 +0000
Subject: [PATCH 55/59] fix: the last of several chained trajectories was lost

---
 src/converter/csv_modes/csv_multi_chain.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index d0974f0..8e1566b 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -84,6 +84,12 @@ pub fn csv_multi_chain(
             }
             old_time = *time;
         }
+        // the last trajectory ends with the data
+        if data.shape()[0] > 0 {
+            particles += 1;
+            duration.push(old_time);
+            steps_per_particle.push(data.shape()[0] - indx_start[particles - 1]);
+        }
         let max_duration = duration.iter().fold(0.0, |a, &b| if a > b { a } else { b });
         let max_steps = steps_per_particle
             .iter()
-- 
2.43.0


From fcea05b6e8d2bb86786339fcf8b593623d24e945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:45 +0000
Subject: [PATCH 56/59] fix: datasets of chained trajectories had no particle
 type and could not be read

---
 src/converter/csv_modes/csv_multi_chain.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 8e1566b..8516713 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -330,10 +330,10 @@ pub fn csv_multi_chain(
         let builder = group.new_dataset_builder();
         builder
             .with_data(&particle_type_array)
-            .create("particleid")
+            .create("particletype")
             .unwrap_or_else(|_| {
                 panic!(
-                    "Unable to create dataset \"particleid\" in file {}",
+                    "Unable to create dataset \"particletype\" in file {}",
                     filename
                 )
             });
-- 
2.43.0


From b08c96d7a431bbd001728be34c4e97be0a683323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:15 +0000
Subject: [PATCH 57/59] fix: defaults of csv_multi in Python were quoted, so
 that a call without them converted nothing

---
 src/pylib/libconv.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pylib/libconv.rs b/src/pylib/libconv.rs
index 291c5d8..e19c343 100644
--- a/src/pylib/libconv.rs
+++ b/src/pylib/libconv.rs
@@ -461,13 +461,13 @@ impl PyConverter {
         filename,
         outname,
         columns = vec![0,1,2,3],
-        delimiter = "\",\"",
+        delimiter = ",",
         header = true,
-        comment = "\"#\"",
+        comment = "#",
         vel = false,
         interpolate = false,
         radius = 0.0,
-        method = "\"id_line\""
+        method = "chain"
     ))]
     #[staticmethod]
     fn csv_multi(
-- 
2.43.0


From 9b877a5e9cbcf72259fa74366d82d5048bd971a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:50 +0000
Subject: [PATCH 58/59] fix: occupancy, dispersion and displacement follow
 particles by identifier, not by row

---
 src/functions.rs        | 69 +++++++++++++++++++++++++++++++++--------
 src/functions/mixing.rs | 17 +++++-----
 2 files changed, 66 insertions(+), 20 deletions(-)

diff --git a/src/functions.rs b/src/functions.rs
index 1530b49..379801c 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -13,6 +13,43 @@ use crate::{
     ParticleSelector, Selector,
 };
 use ndarray::prelude::*;
+use std::collections::HashMap;
+
+/// What identifies the particle of each row: its identifier, and how many rows with the same one come before it
+fn particle_keys(ids: &Array1<f64>) -> Vec<(u64, usize)> {
+    let mut seen = HashMap::new();
+    ids.iter()
+        .map(|id| {
+            let count = seen.entry(id.to_bits()).or_insert(0);
+            *count += 1;
+            (id.to_bits(), *count)
+        })
+        .collect()
+}
+
+/// The row of each particle in another timestep, where rows can differ when particles come or go
+fn rows_in(ids: &Array1<f64>, other_ids: &Array1<f64>) -> Vec<Option<usize>> {
+    if ids == other_ids {
+        return (0..ids.len()).map(Some).collect();
+    }
+    let rows: HashMap<_, _> = particle_keys(other_ids).into_iter().zip(0..).collect();
+    particle_keys(ids)
+        .iter()
+        .map(|key| rows.get(key).copied())
+        .collect()
+}
+
+/// A number for each particle that stays the same in all timesteps
+fn slots(ids: &Array1<f64>, known: &mut HashMap<(u64, usize), usize>) -> Vec<usize> {
+    particle_keys(ids)
+        .into_iter()
+        .map(|key| {
+            let next = known.len();
+            *known.entry(key).or_insert(next)
+        })
+        .collect()
+}
+
 pub trait Granular: DataManager {
     /// Calculate a 2D velocity vectorfield across `grid`, optionally normalising values to 1.
     /// The 3D data is projected in 2D according to `axis`.
@@ -334,6 +371,7 @@ pub trait Granular: DataManager {
             let next_positions = next_timestep_data.position();
             let velocities = timestep_data.velocity();
             let particle_ids = timestep_data.particleid();
+            let next_rows = rows_in(particle_ids, next_timestep_data.particleid());
             let rad_array = timestep_data.radius();
             let clouds = timestep_data.clouds();
             let density = timestep_data.density();
@@ -386,12 +424,14 @@ pub trait Granular: DataManager {
                     print_warning!("Occupyfield: timestep is negative");
                     continue;
                 }
-                //TODO BUG this is not valit code. we must check which particle is at which position
-                if next_positions.len() <= particle {
-                    print_warning!("Occupyfield: next timestep has less particles");
-                    continue;
-                }
-                occupancy_grid.add_trajectory_value(position, next_positions[particle], time_spent);
+                let next_position = match next_rows[particle] {
+                    Some(row) => next_positions[row],
+                    None => {
+                        print_warning!("Occupyfield: particle is not in the next timestep");
+                        continue;
+                    }
+                };
+                occupancy_grid.add_trajectory_value(position, next_position, time_spent);
                 complete_time += time_spent;
             }
             // checking for kill signals after each timestep
@@ -533,6 +573,7 @@ pub trait Granular: DataManager {
             //println!("Next time is {}", *timestep_future.time());
             print_debug!("extracting position");
             let position_future = timestep_future.position();
+            let future_rows = rows_in(particle_ids, timestep_future.particleid());
             print_debug!("Starting particle loop");
 
             for particle in 0..particles {
@@ -561,13 +602,15 @@ pub trait Granular: DataManager {
                         continue;
                     }
                 };
-                if position_future.len() <= particle
-                    || position_future[particle].iter().any(|x| x.is_nan())
-                {
-                    print_warning!("Dispersion: particle has no position at the later time");
-                    continue;
-                }
-                let position_future_particle = position_future[particle];
+                let position_future_particle = match future_rows[particle] {
+                    Some(row) if !position_future[row].iter().any(|x| x.is_nan()) => {
+                        position_future[row]
+                    }
+                    _ => {
+                        print_warning!("Dispersion: particle has no position at the later time");
+                        continue;
+                    }
+                };
                 squared_sum_x[cell_id] += position_future_particle[0] * position_future_particle[0];
                 squared_sum_y[cell_id] += position_future_particle[1] * position_future_particle[1];
                 squared_sum_z[cell_id] += position_future_particle[2] * position_future_particle[2];
diff --git a/src/functions/mixing.rs b/src/functions/mixing.rs
index 000f931..fa69a72 100644
--- a/src/functions/mixing.rs
+++ b/src/functions/mixing.rs
@@ -248,6 +248,7 @@ pub trait Mixing: DataManager {
             let timestep_future = self.get_timestep_buffer(next_timestep, 0);
             print_debug!("extracting position");
             let position_future = timestep_future.position();
+            let future_rows = rows_in(particle_ids, timestep_future.particleid());
             print_debug!("Starting particle loop");
 
             for particle in 0..particles {
@@ -265,13 +266,15 @@ pub trait Mixing: DataManager {
                     print_debug!("Particle {} is out of FoV", particle);
                     continue;
                 }
-                if position_future.len() <= particle
-                    || position_future[particle].iter().any(|x| x.is_nan())
-                {
-                    print_warning!("MSD: particle has no position at the later time");
-                    continue;
-                }
-                let position_future_particle = position_future[particle];
+                let position_future_particle = match future_rows[particle] {
+                    Some(row) if !position_future[row].iter().any(|x| x.is_nan()) => {
+                        position_future[row]
+                    }
+                    _ => {
+                        print_warning!("MSD: particle has no position at the later time");
+                        continue;
+                    }
+                };
                 let dist = ((positions[particle][0] - position_future_particle[0]).powi(2)
                     + (positions[particle][1] - position_future_particle[1]).powi(2)
                     + (positions[particle][2] - position_future_particle[2]).powi(2))
-- 
2.43.0


From 38924794c936b16eb28deb05caa9ae9e82e9371f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:50 +0000
Subject: [PATCH 59/59] fix: circulation times follow particles by identifier,
 not by row

---
 src/functions/conditional.rs | 63 +++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 22 deletions(-)

diff --git a/src/functions/conditional.rs b/src/functions/conditional.rs
index a25aaea..11bc843 100644
--- a/src/functions/conditional.rs
+++ b/src/functions/conditional.rs
@@ -1,4 +1,5 @@
 use super::*;
+use std::collections::HashMap;
 pub trait Conditional: DataManager {
     fn circulation_time(
         &mut self,
@@ -17,8 +18,9 @@ pub trait Conditional: DataManager {
         let timesteps: &usize = global_stats.timesteps();
         print_debug!("velocityfield: Initiation over, entering time loop");
         let mut circulation_time = Vec::<f64>::new();
-        let mut start_flag_array = Array1::<usize>::zeros(particle_number + 1);
-        let mut time_flag_array = Array1::<f64>::zeros(particle_number + 1);
+        let mut slot_of_particle = HashMap::new();
+        let mut start_flag_array = vec![0usize; particle_number + 1];
+        let mut time_flag_array = vec![0f64; particle_number + 1];
 
         let mut old_timestep = self.get_timestep(0).to_owned();
         for timestep in 1..=timesteps - 1 {
@@ -34,7 +36,11 @@ pub trait Conditional: DataManager {
             let positions = timestep_data.position();
             let old_positions = old_timestep.position();
             let particle_ids = timestep_data.particleid();
-            let old_particle_ids = old_timestep.particleid();
+            let old_rows = rows_in(particle_ids, old_timestep.particleid());
+            let slots = slots(particle_ids, &mut slot_of_particle);
+            let known = slot_of_particle.len().max(start_flag_array.len());
+            start_flag_array.resize(known, 0);
+            time_flag_array.resize(known, 0.0);
             let rad_array = timestep_data.radius();
             let clouds = timestep_data.clouds();
             let density = timestep_data.density();
@@ -57,14 +63,17 @@ pub trait Conditional: DataManager {
                     print_debug!("Particle {} is not valid", particle);
                     continue;
                 }
-                if particle >= old_particle_ids.len()
-                    || particle_ids[particle] != old_particle_ids[particle]
-                {
-                    print_debug!("Particle {} is not valid", particle);
-                    continue;
-                }
+                let old_particle = match old_rows[particle] {
+                    Some(row) => row,
+                    None => {
+                        print_debug!("Particle {} is not valid", particle);
+                        continue;
+                    }
+                };
                 let pos = positions[particle];
-                let old_pos = old_positions[particle];
+                let old_pos = old_positions[old_particle];
+                // the row of a particle changes when others come or go
+                let particle = slots[particle];
                 // check if particle crossed boundary
                 if (pos[axis] < boundary_position && old_pos[axis] >= boundary_position)
                     || (pos[axis] >= boundary_position && old_pos[axis] < boundary_position)
@@ -108,10 +117,11 @@ pub trait Conditional: DataManager {
         let timesteps: &usize = global_stats.timesteps();
         print_debug!("velocityfield: Initiation over, entering time loop");
         let mut circulation_time = Vec::<(f64,f64)>::new();
-        let mut start_flag_array = Array1::<usize>::zeros(particle_number + 1);
-        let mut mid_flag_array = Array1::<usize>::zeros(particle_number + 1);
-        let mut time_flag_array = Array1::<f64>::zeros(particle_number + 1);
-        let mut mid_time_flag_array = Array1::<f64>::zeros(particle_number + 1);
+        let mut slot_of_particle = HashMap::new();
+        let mut start_flag_array = vec![0usize; particle_number + 1];
+        let mut mid_flag_array = vec![0usize; particle_number + 1];
+        let mut time_flag_array = vec![0f64; particle_number + 1];
+        let mut mid_time_flag_array = vec![0f64; particle_number + 1];
      
         let mut old_timestep = self.get_timestep(0).to_owned();
         let mut count = 0;
@@ -128,7 +138,13 @@ pub trait Conditional: DataManager {
             let positions = timestep_data.position();
             let old_positions = old_timestep.position();
             let particle_ids = timestep_data.particleid();
-            let old_particle_ids = old_timestep.particleid();
+            let old_rows = rows_in(particle_ids, old_timestep.particleid());
+            let slots = slots(particle_ids, &mut slot_of_particle);
+            let known = slot_of_particle.len().max(start_flag_array.len());
+            start_flag_array.resize(known, 0);
+            mid_flag_array.resize(known, 0);
+            time_flag_array.resize(known, 0.0);
+            mid_time_flag_array.resize(known, 0.0);
             let rad_array = timestep_data.radius();
             let clouds = timestep_data.clouds();
             let density = timestep_data.density();
@@ -151,14 +167,17 @@ pub trait Conditional: DataManager {
                     print_debug!("Particle {} is not valid", particle);
                     continue;
                 }
-                if particle >= old_particle_ids.len()
-                    || particle_ids[particle] != old_particle_ids[particle]
-                {
-                    print_debug!("Particle {} is not valid", particle);
-                    continue;
-                }
+                let old_particle = match old_rows[particle] {
+                    Some(row) => row,
+                    None => {
+                        print_debug!("Particle {} is not valid", particle);
+                        continue;
+                    }
+                };
                 let pos = positions[particle][axis];
-                let old_pos = old_positions[particle][axis];
+                let old_pos = old_positions[old_particle][axis];
+                // the row of a particle changes when others come or go
+                let particle = slots[particle];
                 // regions are left before they are entered, also when both happen in one step
                 // particle crosses out of lower border
                 if pos >= boundary_position.0 && old_pos < boundary_position.0 {
-- 
2.43.0

