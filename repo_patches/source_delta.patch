From 369c07d72e50f66f4d7302e234ff5ea09a49e837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:29 +0000
Subject: [PATCH 1/4] fix: keep the rows next to the grid border in the
 relaxation area

RelaxTerrain clamped the lower bounds of relax_area_ to 2, although the grid
interior, body_area_ and the initial relax_area_ start at 1. Unstable soil in
row or column 1 was left out of the next relaxation pass.
---
 soil_simulator/relax.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soil_simulator/relax.cpp b/soil_simulator/relax.cpp
index cb6f5a5..0db22ed 100644
--- a/soil_simulator/relax.cpp
+++ b/soil_simulator/relax.cpp
@@ -127,11 +127,11 @@ void soil_simulator::RelaxTerrain(
 
     // Updating relax_area
     sim_out->relax_area_[0][0] = std::max(
-        relax_min_x - sim_param.cell_buffer_, 2);
+        relax_min_x - sim_param.cell_buffer_, 1);
     sim_out->relax_area_[0][1] = std::min(
         relax_max_x + sim_param.cell_buffer_, 2 * grid.half_length_x_);
     sim_out->relax_area_[1][0] = std::max(
-        relax_min_y - sim_param.cell_buffer_, 2);
+        relax_min_y - sim_param.cell_buffer_, 1);
     sim_out->relax_area_[1][1] = std::min(
         relax_max_y + sim_param.cell_buffer_, 2 * grid.half_length_y_);
 }
-- 
2.43.0


From 39704cd2afca853d489011eb849024b7a18cf7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:07 +0000
Subject: [PATCH 2/4] fix: keep soil which fell off the body in the relaxation
 area

Soil avalanching from the body to the terrain during the last iteration of
a step was not part of relax_area_. When the body then moved away, the
unstable column was outside of impact_area_ and never relaxed.
---
 soil_simulator/relax.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/soil_simulator/relax.cpp b/soil_simulator/relax.cpp
index 0db22ed..8fc8826 100644
--- a/soil_simulator/relax.cpp
+++ b/soil_simulator/relax.cpp
@@ -215,9 +215,27 @@ void soil_simulator::RelaxBodySoil(
             }
 
             // Relaxing the soil cell
+            float terrain_c = sim_out->terrain_[ii_c][jj_c];
             RelaxUnstableBodyCell(
                 sim_out, status, new_body_soil_pos, dh_max, nn, ii, jj, ind,
                 ii_c, jj_c, grid, body, tol);
+
+            if (sim_out->terrain_[ii_c][jj_c] != terrain_c) {
+                // Soil has avalanched on the terrain, its stability should be
+                // checked even if the body moves away
+                sim_out->relax_area_[0][0] = std::max(std::min(
+                    sim_out->relax_area_[0][0],
+                    ii_c - sim_param.cell_buffer_), 1);
+                sim_out->relax_area_[0][1] = std::min(std::max(
+                    sim_out->relax_area_[0][1],
+                    ii_c + sim_param.cell_buffer_), 2 * grid.half_length_x_);
+                sim_out->relax_area_[1][0] = std::max(std::min(
+                    sim_out->relax_area_[1][0],
+                    jj_c - sim_param.cell_buffer_), 1);
+                sim_out->relax_area_[1][1] = std::min(std::max(
+                    sim_out->relax_area_[1][1],
+                    jj_c + sim_param.cell_buffer_), 2 * grid.half_length_y_);
+            }
         }
     }
 
-- 
2.43.0


From 692973d09fb599c1581f748567ad76fdce08903b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:56 +0000
Subject: [PATCH 3/4] fix: rasterise lines which leave their first cell at once

A line that started exactly on the border of a cell and left through that
border was delayed by a whole cell, so that its walls exceeded the body.
---
 soil_simulator/body_pos.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/soil_simulator/body_pos.cpp b/soil_simulator/body_pos.cpp
index 11aefc3..339b7a1 100644
--- a/soil_simulator/body_pos.cpp
+++ b/soil_simulator/body_pos.cpp
@@ -776,6 +776,15 @@ std::vector<std::vector<int>> soil_simulator::CalcLinePos(
         t_max_z = z1 - std::floor(z1);
     }
 
+    // Avoiding issue when at cell boundary
+    // A line that leaves the cell at this boundary has no distance to cover
+    if (t_max_x == 0.0 && dx == 0.0)
+        t_max_x = 1;
+    if (t_max_y == 0.0 && dy == 0.0)
+        t_max_y = 1;
+    if (t_max_z == 0.0 && step_z == -1)
+        t_max_z = 1;
+
     // Avoiding issue when line is 2D
     if (dx == 0.0)
         dx = 1e-10;
@@ -784,14 +793,6 @@ std::vector<std::vector<int>> soil_simulator::CalcLinePos(
     if (dz == 0.0)
         dz = 1e-10;
 
-    // Avoiding issue when at cell boundary
-    if (t_max_x == 0.0)
-        t_max_x = 1;
-    if (t_max_y == 0.0)
-        t_max_y = 1;
-    if (t_max_z == 0.0)
-        t_max_z = 1;
-
     // Determining how long on the line to cross the cell
     float t_delta_x = std::sqrt(1.0 + (dy * dy + dz * dz) / (dx * dx));
     float t_delta_y = std::sqrt(1.0 + (dx * dx + dz * dz) / (dy * dy));
-- 
2.43.0


From 20620e0fcf8f27c5f30445c2b06b03435d5309d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:39 +0000
Subject: [PATCH 4/4] fix: compare the distance to a wall with the height of
 the grid in metres

The limit was in cells, so with cells higher than one metre soil fell to the
terrain although there was a wall to carry it.
---
 soil_simulator/body_soil.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soil_simulator/body_soil.cpp b/soil_simulator/body_soil.cpp
index c617f4a..8cd2f50 100644
--- a/soil_simulator/body_soil.cpp
+++ b/soil_simulator/body_soil.cpp
@@ -117,7 +117,7 @@ void soil_simulator::UpdateBodySoil(
         int ii_s;
         int jj_s;
         int ind_s;
-        float dist_s = 2 * grid.half_length_z_;
+        float dist_s = 2 * grid.half_length_z_ * grid.cell_size_z_;
 
         // Starting loop over neighbours
         for (auto xy = 0; xy < directions.size(); xy++) {
@@ -188,7 +188,7 @@ void soil_simulator::UpdateBodySoil(
         }
 
         if (!soil_moved) {
-            if (dist_s != 2 * grid.half_length_z_) {
+            if (dist_s != 2 * grid.half_length_z_ * grid.cell_size_z_) {
                 // Moving body_soil to closest location, this implementation
                 // works regardless of the presence of body_soil
                 sim_out->body_soil_[ind_s][ii_s][jj_s] += (
-- 
2.43.0

