From 7ac391b9c90cef78c29af773ad3a4335e1ee946d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH] fix: treat negative lower bound of holes count in
 multipolygons as zero

---
 hypothesis_geometry/planar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hypothesis_geometry/planar.py b/hypothesis_geometry/planar.py
index c110b71..fc439ae 100644
--- a/hypothesis_geometry/planar.py
+++ b/hypothesis_geometry/planar.py
@@ -1642,6 +1642,7 @@ def multipolygons(
     )
     min_size = max(min_size, _MIN_MULTIPOLYGON_SIZE)
     min_border_size = max(min_border_size, _MIN_CONTOUR_SIZE)
+    min_holes_size = max(min_holes_size, 0)
     min_hole_size = max(min_hole_size, _MIN_CONTOUR_SIZE)
     return _to_multipolygons(
         x_coordinates,
-- 
2.43.0

