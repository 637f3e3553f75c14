From 3c17a4d59bec4c4e9e6868e653442092cf9dd63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:35 +0000
Subject: [PATCH 1/8] fix: drop processed segments from the sweep line when
 relating linear and shaped geometries

Operation._remove of the mixed relate sweep re-inserted the event instead of
deleting it, so segments never left the sweep line.
---
 rene/_relating/mixed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rene/_relating/mixed.py b/rene/_relating/mixed.py
index 9719c02..af6ce7b 100644
--- a/rene/_relating/mixed.py
+++ b/rene/_relating/mixed.py
@@ -473,7 +473,7 @@ class Operation(ABC, Generic[hints.ScalarT]):
 
     def _remove(self, event: Event, /) -> None:
         assert is_event_left(event)
-        self._sweep_line_data[self._to_sweep_line_key(event)] = event
+        del self._sweep_line_data[self._to_sweep_line_key(event)]
 
     def _to_left_event(self, event: Event, /) -> Event:
         return (
-- 
2.43.0


From f1ae6608fe45b2c4b25f99ffdf3722bb9a56e876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 2/8] fix: report relations of polygons and multipolygons to
 linear geometries from their own side

The mixed relate sweep always yields the relation of the linear operand to the
shaped one; polygon/multipolygon.relate_to(linear) returned it uncomplemented.
---
 rene/_relating/multipolygon.py | 12 +++++++-----
 rene/_relating/polygon.py      | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/rene/_relating/multipolygon.py b/rene/_relating/multipolygon.py
index 9293f59..fd308ff 100644
--- a/rene/_relating/multipolygon.py
+++ b/rene/_relating/multipolygon.py
@@ -185,7 +185,7 @@ def relate_to_segment(
         if polygons_bounding_boxes[polygon_id].min_x <= min_max_x
     ]
     assert intersecting_polygons
-    return mixed.ShapedLinearOperation.from_segments_iterables(
+    relation = mixed.ShapedLinearOperation.from_segments_iterables(
         chain.from_iterable(
             polygon_to_segments(polygon, segment_bounding_box)
             for polygon in intersecting_polygons
@@ -194,6 +194,7 @@ def relate_to_segment(
         orienteer,
         segments_intersector,
     ).to_relation(linear_is_subset_of_shaped=True, min_max_x=min_max_x)
+    return relation.complement
 
 
 _Multisegmental: TypeAlias = (
@@ -232,12 +233,12 @@ def relate_to_multisegmental(
         )
         return (
             Relation.TOUCH
-            if relation is Relation.COMPONENT
+            if relation is Relation.COMPOSITE
             else (
                 Relation.CROSS
                 if (
-                    relation is Relation.ENCLOSED
-                    or relation is Relation.WITHIN
+                    relation is Relation.ENCLOSES
+                    or relation is Relation.COVER
                 )
                 else relation
             )
@@ -271,7 +272,7 @@ def relate_to_multisegmental(
         if multisegmental_boxes[segment_id].min_x <= min_max_x
     ]
     assert intersecting_segments
-    return mixed.ShapedLinearOperation.from_segments_iterables(
+    relation = mixed.ShapedLinearOperation.from_segments_iterables(
         chain.from_iterable(
             polygon_to_segments(polygon, multisegmental_bounding_box)
             for polygon in intersecting_polygons
@@ -284,3 +285,4 @@ def relate_to_multisegmental(
         == len(multisegmental_segments),
         min_max_x=min_max_x,
     )
+    return relation.complement
diff --git a/rene/_relating/polygon.py b/rene/_relating/polygon.py
index 8939f9c..3600f40 100644
--- a/rene/_relating/polygon.py
+++ b/rene/_relating/polygon.py
@@ -124,12 +124,13 @@ def relate_to_segment(
     if polygon_bounding_box.disjoint_with(segment_bounding_box):
         return Relation.DISJOINT
     min_max_x = min(segment_bounding_box.max_x, polygon_bounding_box.max_x)
-    return mixed.ShapedLinearOperation.from_segments_iterables(
+    relation = mixed.ShapedLinearOperation.from_segments_iterables(
         polygon_to_segments(polygon, segment_bounding_box),
         [segment],
         orienteer,
         segments_intersector,
     ).to_relation(linear_is_subset_of_shaped=True, min_max_x=min_max_x)
+    return relation.complement
 
 
 _Multisegmental: TypeAlias = (
@@ -168,12 +169,12 @@ def relate_to_multisegmental(
         )
         return (
             Relation.TOUCH
-            if relation is Relation.COMPONENT
+            if relation is Relation.COMPOSITE
             else (
                 Relation.CROSS
                 if (
-                    relation is Relation.ENCLOSED
-                    or relation is Relation.WITHIN
+                    relation is Relation.ENCLOSES
+                    or relation is Relation.COVER
                 )
                 else relation
             )
@@ -185,7 +186,7 @@ def relate_to_multisegmental(
             for segment_id in intersecting_segments_ids
         ),
     )
-    return mixed.ShapedLinearOperation.from_segments_iterables(
+    relation = mixed.ShapedLinearOperation.from_segments_iterables(
         polygon_to_segments(polygon, multisegmental_bounding_box),
         [
             multisegmental_segments[segment_id]
@@ -198,3 +199,4 @@ def relate_to_multisegmental(
         == len(multisegmental_segments),
         min_max_x=min_max_x,
     )
+    return relation.complement
-- 
2.43.0


From efa5786d03ca6a55035fa0486756066b84eaadc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 3/8] fix: count only the segments passed to the sweep when
 relating multisegments to multipolygons

Segments dropped because they lie to the right of every intersecting polygon
were still counted, so the linear geometry was reported as a subset.
---
 rene/_relating/multipolygon.py   | 2 +-
 rene/_relating/multisegmental.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rene/_relating/multipolygon.py b/rene/_relating/multipolygon.py
index fd308ff..a73b594 100644
--- a/rene/_relating/multipolygon.py
+++ b/rene/_relating/multipolygon.py
@@ -281,7 +281,7 @@ def relate_to_multisegmental(
         orienteer,
         segments_intersector,
     ).to_relation(
-        linear_is_subset_of_shaped=len(intersecting_segments_ids)
+        linear_is_subset_of_shaped=len(intersecting_segments)
         == len(multisegmental_segments),
         min_max_x=min_max_x,
     )
diff --git a/rene/_relating/multisegmental.py b/rene/_relating/multisegmental.py
index a4326ba..3dfc0ab 100644
--- a/rene/_relating/multisegmental.py
+++ b/rene/_relating/multisegmental.py
@@ -108,7 +108,7 @@ def relate_to_multipolygon(
         orienteer,
         segments_intersector,
     ).to_relation(
-        linear_is_subset_of_shaped=len(intersecting_segments_ids)
+        linear_is_subset_of_shaped=len(intersecting_segments)
         == len(multisegmental_segments),
         min_max_x=min_max_x,
     )
-- 
2.43.0


From c81b034cb54e844ab03ade44b65dd3dd605c6427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 4/8] fix: report multipolygons as disjoint with linear
 geometries lying between their polygons

Multipolygon.relate_to raised ValueError on an empty max() when the linear
geometry's box overlapped the multipolygon's box, but none of its polygons'.
---
 rene/_relating/multipolygon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rene/_relating/multipolygon.py b/rene/_relating/multipolygon.py
index a73b594..1861cd8 100644
--- a/rene/_relating/multipolygon.py
+++ b/rene/_relating/multipolygon.py
@@ -250,6 +250,8 @@ def relate_to_multisegmental(
     intersecting_polygons_ids = to_boxes_ids_with_intersection(
         multipolygon_boxes, multisegmental_bounding_box
     )
+    if not intersecting_polygons_ids:
+        return Relation.DISJOINT
     min_max_x = min(
         max(
             multipolygon_boxes[polygon_id].max_x
-- 
2.43.0


From 859142ccd562ec9eeb4ce76bc0d98d7b08da9869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:55 +0000
Subject: [PATCH 5/8] fix: emit each segment once when subtracting shaped
 geometries from linear ones

---
 rene/_clipping/difference.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/rene/_clipping/difference.py b/rene/_clipping/difference.py
index 5aea7a6..e5b6d91 100644
--- a/rene/_clipping/difference.py
+++ b/rene/_clipping/difference.py
@@ -20,7 +20,7 @@ from rene._utils import (
 from rene.enums import Orientation
 
 from . import linear, mixed, shaped
-from .event import Event, is_event_right
+from .event import Event, is_event_left, is_event_right
 
 
 class LinearDifference(linear.Operation[hints.ScalarT]):
@@ -239,7 +239,8 @@ def subtract_multipolygon_from_multisegmental(
     for event in operation:
         if operation.to_event_start(event).x > minuend_max_x:
             break
-        events.append(event)
+        if is_event_left(event):
+            events.append(event)
     segments = operation.reduce_events(events, segment_cls)
     segments.extend(
         minuend_segments[index]
@@ -382,7 +383,8 @@ def subtract_multipolygon_from_segment(
     for event in operation:
         if operation.to_event_start(event).x > minuend_max_x:
             break
-        events.append(event)
+        if is_event_left(event):
+            events.append(event)
     return collect_maybe_empty_segments(
         operation.reduce_events(events, segment_cls),
         empty_cls,
@@ -689,7 +691,8 @@ def subtract_polygon_from_multisegmental(
     for event in operation:
         if operation.to_event_start(event).x > minuend_max_x:
             break
-        events.append(event)
+        if is_event_left(event):
+            events.append(event)
     segments = operation.reduce_events(events, segment_cls)
     segments.extend(
         minuend_segments[index]
@@ -803,7 +806,8 @@ def subtract_polygon_from_segment(
     for event in operation:
         if operation.to_event_start(event).x > minuend_max_x:
             break
-        events.append(event)
+        if is_event_left(event):
+            events.append(event)
     return collect_maybe_empty_segments(
         operation.reduce_events(events, segment_cls),
         empty_cls,
-- 
2.43.0


From c0b878a0f9bcbbb1e70a7352355579130e4dce79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:23 +0000
Subject: [PATCH 6/8] fix: drop boundary segments when subtracting shaped
 geometries with touching bounding boxes from linear ones

---
 rene/_clipping/difference.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rene/_clipping/difference.py b/rene/_clipping/difference.py
index e5b6d91..176e837 100644
--- a/rene/_clipping/difference.py
+++ b/rene/_clipping/difference.py
@@ -178,7 +178,7 @@ def subtract_multipolygon_from_multisegmental(
         minuend.bounding_box,
         subtrahend.bounding_box,
     )
-    if do_boxes_have_no_common_area(
+    if do_boxes_have_no_common_continuum(
         minuend_bounding_box, subtrahend_bounding_box
     ):
         return minuend
@@ -340,7 +340,7 @@ def subtract_multipolygon_from_segment(
         minuend.bounding_box,
         subtrahend.bounding_box,
     )
-    if do_boxes_have_no_common_area(
+    if do_boxes_have_no_common_continuum(
         minuend_bounding_box, subtrahend_bounding_box
     ):
         return minuend
@@ -646,7 +646,7 @@ def subtract_polygon_from_multisegmental(
         minuend.bounding_box,
         subtrahend.bounding_box,
     )
-    if do_boxes_have_no_common_area(
+    if do_boxes_have_no_common_continuum(
         minuend_bounding_box, subtrahend_bounding_box
     ):
         return minuend
@@ -779,7 +779,7 @@ def subtract_polygon_from_segment(
         minuend.bounding_box,
         subtrahend.bounding_box,
     )
-    if do_boxes_have_no_common_area(
+    if do_boxes_have_no_common_continuum(
         minuend_bounding_box, subtrahend_bounding_box
     ):
         return minuend
-- 
2.43.0


From 2e9362e09aa979189c1a6154320309ae13bbdc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:41 +0000
Subject: [PATCH 7/8] fix: relate segments to polygons by the same sweep as
 multisegments

---
 rene/_relating/segment.py | 41 ++++++++++++---------------------------
 1 file changed, 12 insertions(+), 29 deletions(-)

diff --git a/rene/_relating/segment.py b/rene/_relating/segment.py
index 7391910..4897683 100644
--- a/rene/_relating/segment.py
+++ b/rene/_relating/segment.py
@@ -127,36 +127,19 @@ def relate_to_polygon(
     segments_intersector: SegmentsIntersector[hints.ScalarT],
     /,
 ) -> Relation:
-    relation_without_holes = relate_to_region(
-        segment, polygon.border, reverse_orientation=False, orienteer=orienteer
+    segment_bounding_box, polygon_bounding_box = (
+        segment.bounding_box,
+        polygon.bounding_box,
     )
-    holes = polygon.holes
-    if holes and (
-        relation_without_holes is Relation.WITHIN
-        or relation_without_holes is Relation.ENCLOSED
-    ):
-        relation_with_holes = (
-            relate_to_region(
-                segment,
-                holes[0],
-                reverse_orientation=True,
-                orienteer=orienteer,
-            )
-            if len(holes) == 1
-            else relate_to_multiregion(
-                segment, holes, orienteer, segments_intersector
-            )
-        )
-        if relation_with_holes is Relation.DISJOINT:
-            return relation_without_holes
-        if relation_with_holes is Relation.TOUCH:
-            return Relation.ENCLOSED
-        if relation_with_holes is Relation.ENCLOSED:
-            return Relation.TOUCH
-        if relation_with_holes is Relation.WITHIN:
-            return Relation.DISJOINT
-        return relation_with_holes
-    return relation_without_holes
+    if segment_bounding_box.disjoint_with(polygon_bounding_box):
+        return Relation.DISJOINT
+    min_max_x = min(segment_bounding_box.max_x, polygon_bounding_box.max_x)
+    return mixed.LinearShapedOperation.from_segments_iterables(
+        [segment],
+        polygon_to_segments(polygon, segment_bounding_box),
+        orienteer,
+        segments_intersector,
+    ).to_relation(linear_is_subset_of_shaped=True, min_max_x=min_max_x)
 
 
 def relate_to_region(
-- 
2.43.0


From 95182a6d8921f6b1fbe53eb30721349f22b6e862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:32 +0000
Subject: [PATCH 8/8] fix: mark the interior side of the closing edge of
 contours in trapezoidation

---
 rene/_seidel/trapezoidation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rene/_seidel/trapezoidation.py b/rene/_seidel/trapezoidation.py
index 6e4fc16..32b239a 100644
--- a/rene/_seidel/trapezoidation.py
+++ b/rene/_seidel/trapezoidation.py
@@ -704,14 +704,14 @@ def _populate_from_contour(
         Edge.from_endpoints(
             first_start_index,
             last_end_index,
-            interior_to_left=is_contour_correctly_oriented,
+            interior_to_left=not is_contour_correctly_oriented,
             orienteer=orienteer,
         )
         if first_start < last_end
         else Edge.from_endpoints(
             last_end_index,
             first_start_index,
-            interior_to_left=not is_contour_correctly_oriented,
+            interior_to_left=is_contour_correctly_oriented,
             orienteer=orienteer,
         )
     )
-- 
2.43.0

