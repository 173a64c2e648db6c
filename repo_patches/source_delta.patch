From 0c0286e3a910aa8a127e0368b76ec657d55674ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:13 +0000
Subject: [PATCH 01/40] fix: a parameter below the first knot belongs to the
 first non-empty span

The span after it was used, which gave the point of another span, or an index out of bounds when there is only one span.
---
 src/knot.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/knot.rs b/src/knot.rs
index 79d792a..62814a5 100644
--- a/src/knot.rs
+++ b/src/knot.rs
@@ -57,7 +57,7 @@ impl KnotVector {
                 index
             }
         } else {
-            self.multiplicity(0)
+            self.multiplicity(0) - 1
         }
     }
 
-- 
2.43.0


From 0579398a4475fff7a007ed23cc001cf940fe68cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:05 +0000
Subject: [PATCH 02/40] fix: inserting a knot below the first full span of an
 unclamped B-spline curve

The missing control point before the first one counts as zero; the index underflowed, so clamping, splitting and decomposing unclamped curves panicked.
---
 src/curve/bspline.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/curve/bspline.rs b/src/curve/bspline.rs
index 5dced54..14d5e40 100644
--- a/src/curve/bspline.rs
+++ b/src/curve/bspline.rs
@@ -55,8 +55,11 @@ impl BSplineCurve<Point3> {
             for i in (start..end).rev() {
                 let delta = self.knots[i + p + 1] - self.knots[i];
                 let a = (knot - self.knots[i]) * utils::inv_or_zero(delta);
-                self.control_points[i] =
-                    self.control_points[i - 1] * (1.0 - a) + self.control_points[i] * a;
+                self.control_points[i] = if i == 0 {
+                    self.control_points[i] * a
+                } else {
+                    self.control_points[i - 1] * (1.0 - a) + self.control_points[i] * a
+                };
             }
         }
     }
-- 
2.43.0


From 60dc770de09fb4c8d22e25470783dbe81a968e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:44 +0000
Subject: [PATCH 03/40] fix: projection onto a line whose direction is not a
 unit vector

---
 src/curve/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/line.rs b/src/curve/line.rs
index 355bc73..36734d5 100644
--- a/src/curve/line.rs
+++ b/src/curve/line.rs
@@ -13,6 +13,6 @@ impl Curve for Line {
     }
 
     fn project(&self, point: Point3) -> Float {
-        (point - self.origin).dot(self.direction)
+        (point - self.origin).dot(self.direction) / self.direction.length_squared()
     }
 }
-- 
2.43.0


From 6036b1c32d4f7cd1e6407a54ab2f638b07454deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:45 +0000
Subject: [PATCH 04/40] fix: evaluating a polyline just below its end, or one
 without length

Rounding could leave a remainder after the last segment and panic; segments of zero length gave NaN.
---
 src/curve/polyline.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/curve/polyline.rs b/src/curve/polyline.rs
index a244777..30ba7ab 100644
--- a/src/curve/polyline.rs
+++ b/src/curve/polyline.rs
@@ -48,12 +48,13 @@ impl Curve for Polyline {
             for (index, &segment_length) in self.segment_lengths.iter().enumerate() {
                 if length > segment_length {
                     length -= segment_length;
-                } else {
+                } else if segment_length > 0.0 {
                     return self.vertices[index]
                         .lerp(self.vertices[index + 1], length / segment_length);
                 }
             }
-            unreachable!()
+            // the rest is a rounding error, or the polyline has no length
+            self.end()
         }
     }
 
-- 
2.43.0


From 4e68c63cd8ae5ff4be497066a5398375cb137b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:46 +0000
Subject: [PATCH 05/40] fix: projection onto a polyline stays on the nearest
 segment

The foot point could run past the segment's end into its neighbour, and segments of zero length gave NaN.
---
 src/curve/polyline.rs | 44 ++++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/curve/polyline.rs b/src/curve/polyline.rs
index 30ba7ab..e90200f 100644
--- a/src/curve/polyline.rs
+++ b/src/curve/polyline.rs
@@ -35,6 +35,32 @@ impl Polyline {
     pub fn nearest_vertex(&self, point: Point3) -> usize {
         utils::find_nearest_point(&self.vertices, point)
     }
+
+    /// Get index of nearest segment, and position of nearest point on it as ratio of its length
+    pub fn nearest_segment(&self, point: Point3) -> (usize, Float) {
+        let mut min = Float::MAX;
+        let mut min_index = 0;
+
+        for (index, pair) in self.vertices.windows(2).enumerate() {
+            let distance = if self.segment_lengths[index] > 0.0 {
+                utils::distance_to_line_segment(pair[0], pair[1], point)
+            } else {
+                point.distance(pair[0])
+            };
+            if distance < min {
+                min = distance;
+                min_index = index;
+            }
+        }
+
+        if self.segment_lengths[min_index] == 0.0 {
+            return (min_index, 0.0);
+        }
+        let start = self.vertices[min_index];
+        let segment = self.vertices[min_index + 1] - start;
+        let ratio = (point - start).dot(segment) / segment.length_squared();
+        (min_index, ratio.clamp(0.0, 1.0))
+    }
 }
 
 impl Curve for Polyline {
@@ -59,20 +85,12 @@ impl Curve for Polyline {
     }
 
     fn project(&self, point: Point3) -> Float {
-        let mut min = Float::MAX;
-        let mut min_index = 0;
-
-        for (index, pair) in self.vertices.windows(2).enumerate() {
-            let distance = utils::distance_to_line_segment(pair[0], pair[1], point);
-            if distance < min {
-                min = distance;
-                min_index = index;
-            }
+        if self.length == 0.0 {
+            return 0.0;
         }
-
-        let length = self.segment_lengths.iter().take(min_index).sum::<Float>()
-            + (point - self.vertices[min_index])
-                .dot((self.vertices[min_index + 1] - self.vertices[min_index]).normalize());
+        let (index, ratio) = self.nearest_segment(point);
+        let length = self.segment_lengths.iter().take(index).sum::<Float>()
+            + self.segment_lengths[index] * ratio;
         (length / self.length).clamp(0.0, 1.0)
     }
 }
-- 
2.43.0


From 7f3aeef20f0174c45cc16f24a2dff03aacb2b206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:47 +0000
Subject: [PATCH 06/40] fix: projection onto a linear B-spline curve

The arc length ratio was used as if the knots were spaced like the control points.
---
 src/curve/bspline.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/curve/bspline.rs b/src/curve/bspline.rs
index 14d5e40..db872e0 100644
--- a/src/curve/bspline.rs
+++ b/src/curve/bspline.rs
@@ -148,8 +148,10 @@ impl Curve for BSplineCurve<Point3> {
 
     fn project(&self, point: Point3) -> Float {
         if self.degree() == 1 {
-            let ratio = crate::curve::Polyline::new(self.control_points.clone()).project(point);
-            return utils::range_at(self.knots.range(), ratio);
+            let polyline = crate::curve::Polyline::new(self.control_points.clone());
+            let (index, ratio) = polyline.nearest_segment(point);
+            // the curve passes through the ith control point at the (i+1)th knot
+            return utils::range_at((self.knots[index + 1], self.knots[index + 2]), ratio);
         }
         let der1 = self.derivative();
         let der2 = der1.derivative();
-- 
2.43.0


From a071780e45b789f310e3f476ad63e53ab37f9961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:00 +0000
Subject: [PATCH 07/40] fix: nearest point iteration on curves never moves away
 from the point

---
 src/utils.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 9adb3bb..bd98408 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -134,6 +134,9 @@ pub fn distance_to_line_segment(a: Point3, b: Point3, p: Point3) -> Float {
 
 use crate::curve::Curve;
 
+/// How often a step of a nearest point iteration is halved before giving up
+pub(crate) const STEP_HALVINGS: i32 = 16;
+
 pub fn find_nearest_parameter(
     curve: &impl Curve,
     der1: &impl Curve,
@@ -164,7 +167,20 @@ pub fn find_nearest_parameter(
             return u;
         }
         let fprime = der2.get_point(u).dot(delta) + tangent.length_squared();
-        u = clamp_in_range(u - f / fprime, range);
+        // where the squared distance is not convex, a Newton step would lead away from the point
+        let step = if fprime > 0.0 {
+            f / fprime
+        } else {
+            f / tangent.length_squared()
+        };
+        // shorten a step that overshoots
+        let nearer = (0..STEP_HALVINGS)
+            .map(|k| clamp_in_range(u - step * (0.5 as Float).powi(k), range))
+            .find(|&t| curve.get_point(t).distance_squared(point) < delta.length_squared());
+        match nearer {
+            Some(t) => u = t,
+            None => return u,
+        }
     }
     u
 }
-- 
2.43.0


From b1215ea73c1c2e1c878e1fe428942f6227970f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:02 +0000
Subject: [PATCH 08/40] fix: nearest point iteration on surfaces never moves
 away from the point

---
 src/surface/bspline.rs | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/surface/bspline.rs b/src/surface/bspline.rs
index 5717765..a029f8d 100644
--- a/src/surface/bspline.rs
+++ b/src/surface/bspline.rs
@@ -156,9 +156,31 @@ impl BSplineSurface<Point3> {
 
                     let j = Mat2::from_cols_array(&[fu, gu, fv, gv]);
                     let k = Vec2::new(-r.dot(su), -r.dot(sv));
-                    let delta = j.inverse() * k;
-                    u = utils::clamp_in_range(u + delta.x, u_range);
-                    v = utils::clamp_in_range(v + delta.y, v_range);
+                    // where the squared distance is not convex, a Newton step would lead away from the point
+                    let delta = if fu > 0.0 && j.determinant() > 0.0 {
+                        j.inverse() * k
+                    } else {
+                        k / (su.length_squared() + sv.length_squared())
+                    };
+                    // shorten a step that overshoots
+                    let nearer = (0..utils::STEP_HALVINGS)
+                        .map(|i| {
+                            let step = delta * (0.5 as Float).powi(i);
+                            (
+                                utils::clamp_in_range(u + step.x, u_range),
+                                utils::clamp_in_range(v + step.y, v_range),
+                            )
+                        })
+                        .find(|&(u, v)| {
+                            self.get_point(u, v).distance_squared(*point) < r.length_squared()
+                        });
+                    match nearer {
+                        Some(params) => {
+                            u = params.0;
+                            v = params.1;
+                        }
+                        None => break,
+                    }
                 }
                 return Point2::new(u, v);
             })
-- 
2.43.0


From 3446c245327df2c2803a8c8b6b8de133aea04be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:00 +0000
Subject: [PATCH 09/40] fix: sampled points of a curve stay within the
 tolerance of it

---
 src/curve.rs          |  8 ++++++++
 src/curve/bspline.rs  |  8 ++++++++
 src/curve/polyline.rs | 11 +++++++++++
 src/utils.rs          | 33 ++++++++++++++++++++++++++++-----
 4 files changed, 55 insertions(+), 5 deletions(-)

diff --git a/src/curve.rs b/src/curve.rs
index b239e89..4a8e5ba 100644
--- a/src/curve.rs
+++ b/src/curve.rs
@@ -13,6 +13,11 @@ pub trait Curve: std::fmt::Debug + Downcast {
     fn refine_parameter_range(&self, range: (Float, Float), _same_sense: bool) -> (Float, Float) {
         range
     }
+
+    /// Parameters in ascending order where the curve is possibly not smooth
+    fn breaks(&self) -> Vec<Float> {
+        Vec::new()
+    }
 }
 
 impl_downcast!(Curve);
@@ -27,6 +32,9 @@ impl Curve for Box<dyn Curve> {
     fn refine_parameter_range(&self, range: (Float, Float), same_sense: bool) -> (Float, Float) {
         self.as_ref().refine_parameter_range(range, same_sense)
     }
+    fn breaks(&self) -> Vec<Float> {
+        self.as_ref().breaks()
+    }
 }
 
 #[derive(Debug)]
diff --git a/src/curve/bspline.rs b/src/curve/bspline.rs
index db872e0..4549b45 100644
--- a/src/curve/bspline.rs
+++ b/src/curve/bspline.rs
@@ -165,6 +165,10 @@ impl Curve for BSplineCurve<Point3> {
             10,
         )
     }
+
+    fn breaks(&self) -> Vec<Float> {
+        self.knots.0.clone()
+    }
 }
 
 /// Rational BSpline curve, point (x,y,z) with weight w is (wx,wy,wz,w)
@@ -181,6 +185,10 @@ impl Curve for BSplineCurve<Point4> {
     fn project(&self, _point: Point3) -> Float {
         unimplemented!()
     }
+
+    fn breaks(&self) -> Vec<Float> {
+        self.knots.0.clone()
+    }
 }
 
 #[test]
diff --git a/src/curve/polyline.rs b/src/curve/polyline.rs
index e90200f..11b2732 100644
--- a/src/curve/polyline.rs
+++ b/src/curve/polyline.rs
@@ -93,4 +93,15 @@ impl Curve for Polyline {
             + self.segment_lengths[index] * ratio;
         (length / self.length).clamp(0.0, 1.0)
     }
+
+    fn breaks(&self) -> Vec<Float> {
+        let mut length = 0.0;
+        self.segment_lengths
+            .iter()
+            .map(|segment_length| {
+                length += segment_length;
+                length / self.length
+            })
+            .collect()
+    }
 }
diff --git a/src/utils.rs b/src/utils.rs
index bd98408..eabbbfe 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -67,18 +67,41 @@ pub fn uniform_divide(range: (Float, Float), division: usize) -> Vec<Float> {
 
 /// Creates the curve division
 pub fn parameter_division(curve: &dyn Curve, range: (Float, Float), tol: Float) -> Vec<Float> {
+    // smooth pieces are divided separately, so that no corner of the curve gets lost
+    let (start, end) = range;
+    let mut breaks = curve.breaks();
+    breaks.dedup();
+    breaks.retain(|&t| start.min(end) < t && t < start.max(end));
+    if start > end {
+        breaks.reverse();
+    }
+    breaks.push(end);
+
+    let mut res = vec![start];
+    for t in breaks {
+        let piece = (res[res.len() - 1], t);
+        let _ = res.pop();
+        res.extend(divide_smooth_piece(curve, piece, tol));
+    }
+    res
+}
+
+fn divide_smooth_piece(curve: &dyn Curve, range: (Float, Float), tol: Float) -> Vec<Float> {
     let p = 0.5 + (0.2 * rand::random::<Float>() - 0.1);
-    let t = range_at(range, p);
     let pt0 = curve.get_point(range.0);
     let pt1 = curve.get_point(range.1);
-    let mid = pt0 + (pt1 - pt0) * p;
-    if curve.get_point(t).distance(mid) < tol {
+    // a curve may cross its chord near the middle, while it is far off on both sides
+    let is_flat = [p, p / 2.0, (1.0 + p) / 2.0].iter().all(|&p| {
+        let mid = pt0 + (pt1 - pt0) * p;
+        curve.get_point(range_at(range, p)).distance(mid) < tol
+    });
+    if is_flat {
         vec![range.0, range.1]
     } else {
         let mid = (range.0 + range.1) / 2.0;
-        let mut res = parameter_division(curve, (range.0, mid), tol);
+        let mut res = divide_smooth_piece(curve, (range.0, mid), tol);
         let _ = res.pop();
-        res.extend(parameter_division(curve, (mid, range.1), tol));
+        res.extend(divide_smooth_piece(curve, (mid, range.1), tol));
         res
     }
 }
-- 
2.43.0


From 0ab3e60b80ce8948b3aca8e332f80864555e9529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:01 +0000
Subject: [PATCH 10/40] fix: an edge from a vertex of a circle to itself is the
 whole circle

---
 src/curve/circle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curve/circle.rs b/src/curve/circle.rs
index 216d839..29dc47b 100644
--- a/src/curve/circle.rs
+++ b/src/curve/circle.rs
@@ -31,10 +31,10 @@ impl Curve for Circle {
     // The sense of a curve is in the direction of increasing parameter
     fn refine_parameter_range(&self, range: (Float, Float), same_sense: bool) -> (Float, Float) {
         let (a0, a1) = range;
-        if same_sense && a0 > a1 {
+        if same_sense && a0 >= a1 {
             return (a0, a1 + crate::consts::TAU);
         }
-        if !same_sense && a0 < a1 {
+        if !same_sense && a0 <= a1 {
             return (a0 + crate::consts::TAU, a1);
         }
         (a0, a1)
-- 
2.43.0


From a1dad47e479e45f06f66606e2e571e3974bff61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:02 +0000
Subject: [PATCH 11/40] fix: an edge loop without edges is an empty polygon

---
 src/surface.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/surface.rs b/src/surface.rs
index e9c65b7..b8062c2 100644
--- a/src/surface.rs
+++ b/src/surface.rs
@@ -79,9 +79,10 @@ impl EdgeLoop {
             vertices.extend(edge.get_points());
         }
         vertices.dedup_by(|a, b| a.distance_squared(*b).near(0.0));
-        if vertices[0]
-            .distance_squared(vertices[vertices.len() - 1])
-            .near(0.0)
+        if vertices.len() > 1
+            && vertices[0]
+                .distance_squared(vertices[vertices.len() - 1])
+                .near(0.0)
         {
             vertices.pop();
         }
-- 
2.43.0


From 54fe81ec4e8cb6753dee805d4d664e755d33dd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:40 +0000
Subject: [PATCH 12/40] fix: parameter range of an edge on a closed polyline or
 B-spline curve runs according to the sense

---
 src/curve/bspline.rs  |  9 +++++++++
 src/curve/polyline.rs |  9 ++++++++-
 src/utils.rs          | 26 ++++++++++++++++++++++++++
 3 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/src/curve/bspline.rs b/src/curve/bspline.rs
index 4549b45..0a761e5 100644
--- a/src/curve/bspline.rs
+++ b/src/curve/bspline.rs
@@ -166,6 +166,15 @@ impl Curve for BSplineCurve<Point3> {
         )
     }
 
+    fn refine_parameter_range(&self, range: (Float, Float), same_sense: bool) -> (Float, Float) {
+        let (start, end) = self.knots.range();
+        let distance_squared = self.get_point(start).distance_squared(self.get_point(end));
+        if distance_squared.near(0.0) {
+            return utils::refine_closed_range(range, (start, end), same_sense);
+        }
+        range
+    }
+
     fn breaks(&self) -> Vec<Float> {
         self.knots.0.clone()
     }
diff --git a/src/curve/polyline.rs b/src/curve/polyline.rs
index 11b2732..8719cdc 100644
--- a/src/curve/polyline.rs
+++ b/src/curve/polyline.rs
@@ -1,5 +1,5 @@
 use super::Curve;
-use crate::{utils, Float, Point3};
+use crate::{utils, utils::Tolerance, Float, Point3};
 
 #[derive(Debug)]
 pub struct Polyline {
@@ -94,6 +94,13 @@ impl Curve for Polyline {
         (length / self.length).clamp(0.0, 1.0)
     }
 
+    fn refine_parameter_range(&self, range: (Float, Float), same_sense: bool) -> (Float, Float) {
+        if self.start().distance_squared(self.end()).near(0.0) {
+            return utils::refine_closed_range(range, (0.0, 1.0), same_sense);
+        }
+        range
+    }
+
     fn breaks(&self) -> Vec<Float> {
         let mut length = 0.0;
         self.segment_lengths
diff --git a/src/utils.rs b/src/utils.rs
index eabbbfe..50e19a3 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -110,6 +110,32 @@ pub fn range_at((start, end): (Float, Float), ratio: Float) -> Float {
     start + (end - start) * ratio
 }
 
+/// Refine parameter range on a closed curve, where both ends of `full_range` are the same point,
+/// so that the range runs according to the sense
+pub fn refine_closed_range(
+    range: (Float, Float),
+    full_range: (Float, Float),
+    same_sense: bool,
+) -> (Float, Float) {
+    let (a0, a1) = range;
+    let (start, end) = full_range;
+    if same_sense && a0 >= a1 {
+        if a1.near(start) {
+            return (a0, end);
+        } else if a0.near(end) {
+            return (start, a1);
+        }
+    }
+    if !same_sense && a0 <= a1 {
+        if a0.near(start) {
+            return (end, a1);
+        } else if a1.near(end) {
+            return (a0, start);
+        }
+    }
+    range
+}
+
 pub fn find_nearest_point(points: &[Point3], point: Point3) -> usize {
     let mut min = Float::MAX;
     let mut min_index = 0;
-- 
2.43.0


From 4e1e8c01c97b0deb021e7163ad8165364d64f348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:35 +0000
Subject: [PATCH 13/40] fix: a boxed surface has the normals of the surface

---
 src/surface.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/surface.rs b/src/surface.rs
index b8062c2..3b632e5 100644
--- a/src/surface.rs
+++ b/src/surface.rs
@@ -24,6 +24,10 @@ impl Surface for Box<dyn Surface> {
         self.as_ref().get_point(u, v)
     }
 
+    fn get_normals(&self, params: &[Point2]) -> Vec<Vec3> {
+        self.as_ref().get_normals(params)
+    }
+
     fn trim(&self, bounds: &[EdgeLoop]) -> TriangleMesh {
         self.as_ref().trim(bounds)
     }
-- 
2.43.0


From 0dc7d7acd7a66a2b4d848ffc36f8fb2fd9c60573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:10 +0000
Subject: [PATCH 14/40] fix: a hole is connected to a vertex of the outline it
 can see

---
 src/utils/polygon.rs | 66 ++++++++++++++++++++++++++++++++------------
 1 file changed, 49 insertions(+), 17 deletions(-)

diff --git a/src/utils/polygon.rs b/src/utils/polygon.rs
index 16d916d..78f8073 100644
--- a/src/utils/polygon.rs
+++ b/src/utils/polygon.rs
@@ -218,23 +218,10 @@ fn merge_two_polygons(
     inner: std::ops::Range<usize>,
     max_x_index: usize,
 ) {
-    let inner_point = points[max_x_index];
-    // find nearest edge to inner point
-    let mut min = Float::MAX;
-    let mut min_index = 0;
-    for i in 0..outer.len() {
-        let distance = inner_point.distance_to_line_segment(
-            points[outer[i]],
-            points[outer[(i + 1).rem_euclid(outer.len())]],
-        );
-        if distance < min {
-            min = distance;
-            min_index = i;
-        }
-    }
-    // insert inner polygon at min_index
-    let insert_at = min_index + 1;
-    outer.insert(insert_at, outer[min_index]);
+    let bridge_index = find_bridge(points, outer, points[max_x_index]);
+    // insert inner polygon at bridge_index
+    let insert_at = bridge_index + 1;
+    outer.insert(insert_at, outer[bridge_index]);
     for index in (inner.start..=max_x_index).rev() {
         outer.insert(insert_at, index);
     }
@@ -243,6 +230,51 @@ fn merge_two_polygons(
     }
 }
 
+/// Find the nearest vertex of the outer polygon that is visible from the point with maximum x of
+/// an inner polygon. It is on the right side of the point, where no other inner polygon is left.
+fn find_bridge(points: &[Point2], outer: &VecDeque<usize>, point: Point2) -> usize {
+    let n = outer.len();
+    let vertex = |i: usize| points[outer[i % n]];
+    let is_right = |p: Point2| p.x > point.x && !p.x.near(point.x);
+    let mut candidates: Vec<usize> = (0..n).filter(|i| is_right(vertex(*i))).collect();
+    candidates.sort_by(|i, j| {
+        let di = vertex(*i).distance_squared(point);
+        let dj = vertex(*j).distance_squared(point);
+        di.partial_cmp(&dj).unwrap()
+    });
+    candidates.retain(|i| {
+        is_locally_inside(vertex(i + n - 1), vertex(*i), vertex(i + 1), point)
+    });
+    let visible = candidates.iter().copied().find(|i| {
+        let end = vertex(*i);
+        (0..n).all(|j| {
+            let (a, b) = (vertex(j), vertex(j + 1));
+            a == end || b == end || !is_crossing(point, end, a, b)
+        })
+    });
+    visible
+        .or_else(|| candidates.first().copied())
+        .unwrap_or(0)
+}
+
+/// check if segments ab and cd have an inner point in common
+fn is_crossing(a: Point2, b: Point2, c: Point2, d: Point2) -> bool {
+    (b - a).perp_dot(c - a) * (b - a).perp_dot(d - a) < 0.0
+        && (d - c).perp_dot(a - c) * (d - c).perp_dot(b - c) < 0.0
+}
+
+/// check if the segment from vertex b of polygon abc to point p starts into the inside
+fn is_locally_inside(a: Point2, b: Point2, c: Point2, p: Point2) -> bool {
+    let is_left = |u: Point2, v: Point2| u.perp_dot(v) >= -1e-12 * u.length() * v.length();
+    let after_next = is_left(c - b, p - b);
+    let before_prev = is_left(p - b, a - b);
+    if is_left(b - a, c - b) {
+        after_next && before_prev
+    } else {
+        after_next || before_prev
+    }
+}
+
 #[test]
 fn test_compute_convexity() {
     let a = Point2::new(7.46852, 258.22396);
-- 
2.43.0


From 23de10f2c920cac2d99af520732c2c52cfa0b74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:11 +0000
Subject: [PATCH 15/40] fix: ear clipping keeps the convexity of each vertex
 where holes are merged

---
 src/utils/polygon.rs | 220 ++++++++++++++++++++++---------------------
 1 file changed, 115 insertions(+), 105 deletions(-)

diff --git a/src/utils/polygon.rs b/src/utils/polygon.rs
index 78f8073..453c98e 100644
--- a/src/utils/polygon.rs
+++ b/src/utils/polygon.rs
@@ -35,29 +35,28 @@ pub fn compute_vertex_convexity(points: &[Point2]) -> (VecDeque<usize>, Vec<usiz
 }
 
 pub fn find_concave_vertices(points: &[Point2], vertices: &mut VecDeque<usize>) -> Vec<usize> {
-    let n = vertices.len();
-    let mut to_delete = vec![];
-    let mut concave_points = Vec::new();
-    for i in 0..n {
-        match compute_convexity(
+    let convexity = |vertices: &VecDeque<usize>, i: usize| {
+        let n = vertices.len();
+        compute_convexity(
             points[vertices[(n + i - 1).rem_euclid(n)]],
             points[vertices[i]],
             points[vertices[(i + 1).rem_euclid(n)]],
-        ) {
-            Convexity::Convex => {}
-            Convexity::Concave => {
-                concave_points.push(vertices[i]);
-            }
-            Convexity::Colinear => {
-                // remove colinear or duplicate point
-                to_delete.push(i);
-            }
+        )
+    };
+    // remove colinear or duplicate point, which may turn the point before it into another one
+    let mut i = 0;
+    while i < vertices.len() {
+        if matches!(convexity(vertices, i), Convexity::Colinear) {
+            vertices.remove(i);
+            i = i.saturating_sub(1);
+        } else {
+            i += 1;
         }
     }
-    to_delete.reverse();
-    for j in to_delete {
-        vertices.remove(j);
-    }
+    let mut concave_points: Vec<usize> = (0..vertices.len())
+        .filter(|i| matches!(convexity(vertices, *i), Convexity::Concave))
+        .map(|i| vertices[i])
+        .collect();
     concave_points.sort();
     concave_points
 }
@@ -65,80 +64,114 @@ pub fn find_concave_vertices(points: &[Point2], vertices: &mut VecDeque<usize>)
 /// Triangulation by Ear Clipping
 pub fn trianglate_polygon(
     points: &[Point2],
-    mut vertices: VecDeque<usize>,
-    mut concave_points: Vec<usize>,
+    vertices: VecDeque<usize>,
+    concave_points: Vec<usize>,
 ) -> Vec<u32> {
-    let n = vertices.len();
-    let mut triangles = Vec::with_capacity((n - 2) * 3);
-    let mut prev_m = usize::MAX;
-
-    loop {
-        if vertices.len() >= prev_m {
-            break;
+    // A point where polygons are merged is more than one vertex, each with its own convexity
+    let mut ring = VertexRing::new(points, vertices.into(), &concave_points);
+    let mut triangles = Vec::with_capacity(ring.count.saturating_sub(2) * 3);
+    let mut curr = 0;
+    let mut unchanged = 0;
+    while ring.count >= 3 && unchanged < ring.count {
+        let (prev, next) = (ring.prev[curr], ring.next[curr]);
+        if ring.is_colinear(curr) {
+            ring.remove(curr);
+            unchanged = 0;
+            curr = prev;
+        } else if ring.is_ear(curr) {
+            triangles.push(ring.vertices[prev] as u32);
+            triangles.push(ring.vertices[curr] as u32);
+            triangles.push(ring.vertices[next] as u32);
+            ring.remove(curr);
+            unchanged = 0;
+            // skip a vertex to avoid thin triangles
+            curr = ring.next[next];
+        } else {
+            unchanged += 1;
+            curr = next;
         }
-        let mut m = vertices.len();
-        prev_m = m;
-        if m < 3 {
-            break;
-        } else if m == 3 {
-            triangles.push(vertices[0] as u32);
-            triangles.push(vertices[1] as u32);
-            triangles.push(vertices[2] as u32);
-            break;
+    }
+    triangles
+}
+
+/// Circular list of the vertices which are not cut off yet
+struct VertexRing<'a> {
+    points: &'a [Point2],
+    vertices: Vec<usize>,
+    prev: Vec<usize>,
+    next: Vec<usize>,
+    concave: Vec<bool>,
+    count: usize,
+}
+
+impl<'a> VertexRing<'a> {
+    fn new(points: &'a [Point2], vertices: Vec<usize>, concave_points: &[usize]) -> Self {
+        let n = vertices.len();
+        let mut ring = VertexRing {
+            points,
+            prev: (0..n).map(|i| (i + n - 1) % n).collect(),
+            next: (0..n).map(|i| (i + 1) % n).collect(),
+            concave: vec![false; n],
+            count: n,
+            vertices,
+        };
+        for i in 0..n {
+            ring.concave[i] = concave_points.binary_search(&ring.vertices[i]).is_ok()
+                && !matches!(ring.convexity(i), Convexity::Convex);
         }
+        ring
+    }
 
-        let mut i = 0;
-        while i < m {
-            let curr = vertices[i];
-            if concave_points.binary_search(&curr).is_err() {
-                let prev = vertices[(m + i - 1).rem_euclid(m)];
-                let next = vertices[(i + 1).rem_euclid(m)];
-                if is_ear(points, &concave_points, prev, curr, next) {
-                    triangles.push(prev as u32);
-                    triangles.push(curr as u32);
-                    triangles.push(next as u32);
+    fn point(&self, i: usize) -> Point2 {
+        self.points[self.vertices[i]]
+    }
 
-                    let mut to_delete = vec![i];
+    fn convexity(&self, i: usize) -> Convexity {
+        compute_convexity(
+            self.point(self.prev[i]),
+            self.point(i),
+            self.point(self.next[i]),
+        )
+    }
 
-                    // update concave_points
-                    if let Ok(j) = concave_points.binary_search(&prev) {
-                        let prev_prev = vertices[(m + i - 2).rem_euclid(m)];
-                        match compute_convexity(points[prev_prev], points[prev], points[next]) {
-                            Convexity::Convex => {
-                                concave_points.remove(j);
-                            }
-                            Convexity::Colinear => {
-                                to_delete.push((m + i - 1).rem_euclid(m));
-                            }
-                            _ => {}
-                        }
-                    }
-                    if let Ok(j) = concave_points.binary_search(&next) {
-                        let next_next = vertices[(i + 2).rem_euclid(m)];
-                        match compute_convexity(points[prev], points[next], points[next_next]) {
-                            Convexity::Convex => {
-                                concave_points.remove(j);
-                            }
-                            Convexity::Colinear => {
-                                to_delete.push((i + 1).rem_euclid(m));
-                            }
-                            _ => {}
-                        }
-                    }
+    fn is_colinear(&self, i: usize) -> bool {
+        matches!(self.convexity(i), Convexity::Colinear)
+    }
 
-                    // drop ear
-                    to_delete.sort();
-                    to_delete.reverse();
-                    m -= to_delete.len();
-                    for j in to_delete {
-                        vertices.remove(j);
-                    }
-                }
+    fn is_ear(&self, i: usize) -> bool {
+        if self.concave[i] {
+            return false;
+        }
+        let (a, b, c) = (
+            self.point(self.prev[i]),
+            self.point(i),
+            self.point(self.next[i]),
+        );
+        let mut other = self.next[self.next[i]];
+        while other != self.prev[i] {
+            let p = self.point(other);
+            if self.concave[other]
+                && p != a
+                && p != b
+                && p != c
+                && p.is_inside_triangle(a, b, c)
+            {
+                return false;
             }
-            i += 1;
+            other = self.next[other];
+        }
+        true
+    }
+
+    fn remove(&mut self, i: usize) {
+        let (prev, next) = (self.prev[i], self.next[i]);
+        self.next[prev] = next;
+        self.prev[next] = prev;
+        self.count -= 1;
+        for j in [prev, next].iter().copied() {
+            self.concave[j] = matches!(self.convexity(j), Convexity::Concave);
         }
     }
-    triangles
 }
 
 #[derive(Debug)]
@@ -160,29 +193,6 @@ fn compute_convexity(a: Point2, b: Point2, c: Point2) -> Convexity {
     }
 }
 
-fn is_inside_triangle(a: Point2, b: Point2, c: Point2, p: Point2) -> bool {
-    (a - p).perp_dot(b - p) >= 0.0
-        && (b - p).perp_dot(c - p) >= 0.0
-        && (c - p).perp_dot(a - p) >= 0.0
-}
-
-fn is_ear(
-    points: &[Point2],
-    concave_points: &[usize],
-    prev: usize,
-    curr: usize,
-    next: usize,
-) -> bool {
-    for &other in concave_points {
-        if other != prev && other != next {
-            if is_inside_triangle(points[prev], points[curr], points[next], points[other]) {
-                return false;
-            }
-        }
-    }
-    return true;
-}
-
 pub fn merge_polygons(points: &[Point2], polygons: &[usize]) -> VecDeque<usize> {
     // find points with maximum x
     let mut sorted_polygons = Vec::with_capacity(polygons.len());
-- 
2.43.0


From 7c03e07bc34b67473d8c68aef0182068ac46d475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:31 +0000
Subject: [PATCH 16/40] fix: trimming a B-spline surface does not write a file

---
 src/surface/bspline.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/surface/bspline.rs b/src/surface/bspline.rs
index a029f8d..24127b5 100644
--- a/src/surface/bspline.rs
+++ b/src/surface/bspline.rs
@@ -244,7 +244,6 @@ impl Surface for BSplineSurface<Point3> {
             })
             .flatten()
             .collect::<Vec<_>>();
-        save_bound_as_obj(&vertices, "bound.obj").unwrap();
         let mut points: Vec<Point2> = self.project_points(&vertices);
         let boundary_point_count = points.len();
 
@@ -281,7 +280,6 @@ impl Surface for BSplineSurface<Point3> {
             }
         } else if polygons.len() > 2 {
             // triangulate polygon with holes
-            dbg!(polygons.len());
             let (points, triangles) = utils::generate_triangular_mesh(&points, &polygons);
             vertices.extend(
                 points[boundary_point_count..]
-- 
2.43.0


From b7757918bc458b7dc77f11e6b9196c6e780a24a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:32 +0000
Subject: [PATCH 17/40] fix: a trimmed cylinder or B-spline face is meshed
 inside its loops and winds like them

---
 src/surface/bspline.rs  | 59 +++++++++--------------------------------
 src/surface/cylinder.rs | 59 +++++++++--------------------------------
 src/utils/meshgen.rs    | 23 +++++++++++++++-
 src/utils/polygon.rs    |  8 ++++++
 4 files changed, 56 insertions(+), 93 deletions(-)

diff --git a/src/surface/bspline.rs b/src/surface/bspline.rs
index 24127b5..d0e82ae 100644
--- a/src/surface/bspline.rs
+++ b/src/surface/bspline.rs
@@ -244,56 +244,23 @@ impl Surface for BSplineSurface<Point3> {
             })
             .flatten()
             .collect::<Vec<_>>();
-        let mut points: Vec<Point2> = self.project_points(&vertices);
+        let points: Vec<Point2> = self.project_points(&vertices);
         let boundary_point_count = points.len();
 
-        if polygons.len() == 2 {
-            if utils::is_polygon_counter_clockwise(&points) {
-                let (points, triangles) = utils::generate_triangular_mesh(&points, &polygons);
-                vertices.extend(
-                    points[boundary_point_count..]
-                        .iter()
-                        .map(|&p| self.get_point(p.x, p.y)),
-                );
-
-                return TriangleMesh {
-                    vertices,
-                    triangles,
-                    normals: Vec::new(),
-                }
-                .reverse_winding_direction();
-            } else {
-                vertices.reverse();
-                points.reverse();
-                let (points, triangles) = utils::generate_triangular_mesh(&points, &polygons);
-                vertices.extend(
-                    points[boundary_point_count..]
-                        .iter()
-                        .map(|&p| self.get_point(p.x, p.y)),
-                );
-
-                return TriangleMesh {
-                    vertices,
-                    triangles,
-                    normals: Vec::new(),
-                };
-            }
-        } else if polygons.len() > 2 {
-            // triangulate polygon with holes
-            let (points, triangles) = utils::generate_triangular_mesh(&points, &polygons);
-            vertices.extend(
-                points[boundary_point_count..]
-                    .iter()
-                    .map(|p| self.get_point(p.x, p.y)),
-            );
-            return TriangleMesh {
-                vertices,
-                triangles,
-                normals: Vec::new(),
-            };
-        } else {
+        if polygons.len() < 2 {
             return TriangleMesh::new();
         }
+        let (points, triangles) = utils::generate_mesh_along_polygons(&points, &polygons);
+        vertices.extend(
+            points[boundary_point_count..]
+                .iter()
+                .map(|&p| self.get_point(p.x, p.y)),
+        );
+        TriangleMesh {
+            vertices,
+            triangles,
+            normals: Vec::new(),
+        }
     }
 }
 
diff --git a/src/surface/cylinder.rs b/src/surface/cylinder.rs
index 4259fed..d27943c 100644
--- a/src/surface/cylinder.rs
+++ b/src/surface/cylinder.rs
@@ -71,59 +71,26 @@ impl Surface for Cylinder {
         let (min_z, max_z) = utils::get_min_max_by_key(&points, |p| p.x);
         let d = (max_z - min_z) * 2.0;
 
-        let mut points: Vec<Point2> = vertices
+        let points: Vec<Point2> = vertices
             .iter()
             .map(|v| self.project_to_ring(*v, d))
             .collect();
         let boundary_point_count = points.len();
 
-        if polygons.len() == 2 {
-            if utils::is_polygon_counter_clockwise(&points) {
-                let (points, triangles) = utils::generate_triangular_mesh(&points, &polygons);
-                vertices.extend(
-                    points[boundary_point_count..]
-                        .iter()
-                        .map(|&p| self.generate_point_from_ring(p, d)),
-                );
-
-                return TriangleMesh {
-                    vertices,
-                    triangles,
-                    normals: Vec::new(),
-                }
-                .reverse_winding_direction();
-            } else {
-                vertices.reverse();
-                points.reverse();
-                let (points, triangles) = utils::generate_triangular_mesh(&points, &polygons);
-                vertices.extend(
-                    points[boundary_point_count..]
-                        .iter()
-                        .map(|&p| self.generate_point_from_ring(p, d)),
-                );
-
-                return TriangleMesh {
-                    vertices,
-                    triangles,
-                    normals: Vec::new(),
-                };
-            }
-        } else if polygons.len() > 2 {
-            // triangulate polygon with holes
-            let (points, triangles) = utils::generate_triangular_mesh(&points, &polygons);
-            vertices.extend(
-                points[boundary_point_count..]
-                    .iter()
-                    .map(|p| self.get_point(p.x, p.y)),
-            );
-            return TriangleMesh {
-                vertices,
-                triangles,
-                normals: Vec::new(),
-            };
-        } else {
+        if polygons.len() < 2 {
             return TriangleMesh::new();
         }
+        let (points, triangles) = utils::generate_mesh_along_polygons(&points, &polygons);
+        vertices.extend(
+            points[boundary_point_count..]
+                .iter()
+                .map(|&p| self.generate_point_from_ring(p, d)),
+        );
+        TriangleMesh {
+            vertices,
+            triangles,
+            normals: Vec::new(),
+        }
     }
 }
 
diff --git a/src/utils/meshgen.rs b/src/utils/meshgen.rs
index 415190c..e39a16f 100644
--- a/src/utils/meshgen.rs
+++ b/src/utils/meshgen.rs
@@ -1,7 +1,28 @@
 use crate::consts::HALF_SQRT_3;
-use crate::{utils::Point, Float, Point2};
+use crate::{utils::signed_area, utils::Point, Float, Point2};
 use std::collections::VecDeque;
 
+/// generate triangular mesh of the region enclosed by polygons, which may run around it in either
+/// direction. The triangles run in the same direction.
+pub fn generate_mesh_along_polygons(
+    points: &[Point2],
+    polygons: &[usize],
+) -> (Vec<Point2>, Vec<u32>) {
+    let area: Float = polygons
+        .windows(2)
+        .map(|pair| signed_area(&points[pair[0]..pair[1]]))
+        .sum();
+    if area >= 0.0 {
+        return generate_triangular_mesh(points, polygons);
+    }
+    // the advancing front runs counter-clockwise
+    let mirror = |points: &[Point2]| -> Vec<Point2> {
+        points.iter().map(|p| Point2::new(p.x, -p.y)).collect()
+    };
+    let (points, triangles) = generate_triangular_mesh(&mirror(points), polygons);
+    (mirror(&points), triangles)
+}
+
 /// generate triangular mesh by advancing front method
 pub fn generate_triangular_mesh(points: &[Point2], polygons: &[usize]) -> (Vec<Point2>, Vec<u32>) {
     let mut triangles = Vec::new();
diff --git a/src/utils/polygon.rs b/src/utils/polygon.rs
index 453c98e..33d26ae 100644
--- a/src/utils/polygon.rs
+++ b/src/utils/polygon.rs
@@ -12,6 +12,14 @@ pub fn is_polygon_counter_clockwise(points: &[Point2]) -> bool {
     sum < 0.0
 }
 
+/// Area of a polygon, which is negative if the polygon is clockwise
+pub fn signed_area(points: &[Point2]) -> Float {
+    let n = points.len();
+    (0..n)
+        .map(|i| points[i].perp_dot(points[(i + 1) % n]) / 2.0)
+        .sum()
+}
+
 pub fn compute_vertex_convexity(points: &[Point2]) -> (VecDeque<usize>, Vec<usize>) {
     let n = points.len();
     let mut vertices = VecDeque::with_capacity(n);
-- 
2.43.0


From 70e7de8b6d161cb08e4d9e2ef761754bed13d4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:42 +0000
Subject: [PATCH 18/40] fix: a trimmed cylinder face may lie anywhere along the
 axis

---
 src/surface/cylinder.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/surface/cylinder.rs b/src/surface/cylinder.rs
index d27943c..117be84 100644
--- a/src/surface/cylinder.rs
+++ b/src/surface/cylinder.rs
@@ -70,10 +70,15 @@ impl Surface for Cylinder {
         let points: Vec<Point2> = vertices.iter().map(|v| self.project(*v)).collect();
         let (min_z, max_z) = utils::get_min_max_by_key(&points, |p| p.x);
         let d = (max_z - min_z) * 2.0;
+        // the ring starts at the lowest point, so that it never reaches its center
+        let base = Cylinder {
+            origin: self.origin + self.axis * min_z,
+            ..*self
+        };
 
         let points: Vec<Point2> = vertices
             .iter()
-            .map(|v| self.project_to_ring(*v, d))
+            .map(|v| base.project_to_ring(*v, d))
             .collect();
         let boundary_point_count = points.len();
 
@@ -84,7 +89,7 @@ impl Surface for Cylinder {
         vertices.extend(
             points[boundary_point_count..]
                 .iter()
-                .map(|&p| self.generate_point_from_ring(p, d)),
+                .map(|&p| base.generate_point_from_ring(p, d)),
         );
         TriangleMesh {
             vertices,
-- 
2.43.0


From cace714ef324837cef23ec178a9e7d03feba32cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:41 +0000
Subject: [PATCH 19/40] fix: meshing a loop that runs along a seam forth and
 back terminates

---
 src/utils/meshgen.rs | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/utils/meshgen.rs b/src/utils/meshgen.rs
index e39a16f..5bb14e2 100644
--- a/src/utils/meshgen.rs
+++ b/src/utils/meshgen.rs
@@ -1,5 +1,6 @@
 use crate::consts::HALF_SQRT_3;
-use crate::{utils::signed_area, utils::Point, Float, Point2};
+use crate::utils::{signed_area, Point, Tolerance};
+use crate::{Float, Point2};
 use std::collections::VecDeque;
 
 /// generate triangular mesh of the region enclosed by polygons, which may run around it in either
@@ -39,6 +40,7 @@ pub fn generate_triangular_mesh(points: &[Point2], polygons: &[usize]) -> (Vec<P
             front.push_back((end - 1, start));
         }
     }
+    remove_seams(&mut front, points);
 
     // advancing the front unit it is empty
     while let Some(edge) = front.pop_back() {
@@ -79,6 +81,35 @@ pub fn generate_triangular_mesh(points: &[Point2], polygons: &[usize]) -> (Vec<P
     (vertices, triangles)
 }
 
+/// A loop that runs along the same edge forth and back, like around a closed surface, has no boundary
+/// there. Both sides are connected.
+fn remove_seams(front: &mut VecDeque<(usize, usize)>, points: &[Point2]) {
+    let is_same = |i: usize, j: usize| points[i].distance_squared(points[j]).near(0.0);
+    let mut i = 0;
+    while i < front.len() {
+        let (start, end) = front[i];
+        let opposite = (i + 1..front.len()).find(|&j| {
+            !is_same(start, end) && is_same(front[j].0, end) && is_same(front[j].1, start)
+        });
+        if let Some(j) = opposite {
+            let other = front[j];
+            front.remove(j);
+            front.remove(i);
+            for (a, b) in front.iter_mut() {
+                for node in [a, b] {
+                    if *node == other.0 {
+                        *node = end;
+                    } else if *node == other.1 {
+                        *node = start;
+                    }
+                }
+            }
+        } else {
+            i += 1;
+        }
+    }
+}
+
 fn find_intersection_with_front(
     start: usize,
     end: usize,
-- 
2.43.0


From 4f8715e9f037509e51b23762a6112d822c68878f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:15 +0000
Subject: [PATCH 20/40] fix: advancing front works the same at any size of the
 region

---
 src/utils/meshgen.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/utils/meshgen.rs b/src/utils/meshgen.rs
index 5bb14e2..e30b7b4 100644
--- a/src/utils/meshgen.rs
+++ b/src/utils/meshgen.rs
@@ -27,8 +27,6 @@ pub fn generate_mesh_along_polygons(
 /// generate triangular mesh by advancing front method
 pub fn generate_triangular_mesh(points: &[Point2], polygons: &[usize]) -> (Vec<Point2>, Vec<u32>) {
     let mut triangles = Vec::new();
-    let mut vertices = Vec::new();
-    vertices.extend_from_slice(points);
     let mut front = VecDeque::new();
 
     // initialize the front with edges of polygons
@@ -40,7 +38,11 @@ pub fn generate_triangular_mesh(points: &[Point2], polygons: &[usize]) -> (Vec<P
             front.push_back((end - 1, start));
         }
     }
-    remove_seams(&mut front, points);
+    // tolerances are meant for edges of unit length
+    let total_length: Float = front.iter().map(|e| points[e.0].distance(points[e.1])).sum();
+    let unit = total_length / front.len() as Float;
+    let mut vertices: Vec<Point2> = points.iter().map(|&p| p / unit).collect();
+    remove_seams(&mut front, &vertices);
 
     // advancing the front unit it is empty
     while let Some(edge) = front.pop_back() {
@@ -78,7 +80,8 @@ pub fn generate_triangular_mesh(points: &[Point2], polygons: &[usize]) -> (Vec<P
             triangles.extend_from_slice(&[edge.0 as u32, edge.1 as u32, index as u32]);
         }
     }
-    (vertices, triangles)
+    let new_points = vertices[points.len()..].iter().map(|&p| p * unit);
+    (points.iter().copied().chain(new_points).collect(), triangles)
 }
 
 /// A loop that runs along the same edge forth and back, like around a closed surface, has no boundary
-- 
2.43.0


From c3b4c9126adcd8e90c0a89dabeedb157fbf559da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:47 +0000
Subject: [PATCH 21/40] fix: meshing a trimmed B-spline surface does not depend
 on its parameter ranges

---
 src/surface/bspline.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/surface/bspline.rs b/src/surface/bspline.rs
index d0e82ae..913abd1 100644
--- a/src/surface/bspline.rs
+++ b/src/surface/bspline.rs
@@ -107,6 +107,28 @@ impl<P: std::ops::Sub<Output = P> + std::ops::Mul<Float, Output = P> + Copy + De
 }
 
 impl BSplineSurface<Point3> {
+    /// Average length on the surface per parameter length in both directions
+    fn average_speed(&self) -> Vec2 {
+        let (n, m) = self.control_points.size();
+        let (u_range, v_range) = (self.knots.0.range(), self.knots.1.range());
+        let (mut u_length, mut v_length) = (0.0, 0.0);
+        for i in 0..n {
+            for j in 0..m {
+                let point = self.control_points[i][j];
+                if i + 1 < n {
+                    u_length += point.distance(self.control_points[i + 1][j]) / m as Float;
+                }
+                if j + 1 < m {
+                    v_length += point.distance(self.control_points[i][j + 1]) / n as Float;
+                }
+            }
+        }
+        Vec2::new(
+            u_length / (u_range.1 - u_range.0),
+            v_length / (v_range.1 - v_range.0),
+        )
+    }
+
     pub fn project_points(&self, points: &[Point3]) -> Vec<Point2> {
         let der_u = self.derivative_u();
         let der_v = self.derivative_v();
@@ -250,11 +272,14 @@ impl Surface for BSplineSurface<Point3> {
         if polygons.len() < 2 {
             return TriangleMesh::new();
         }
-        let (points, triangles) = utils::generate_mesh_along_polygons(&points, &polygons);
+        // scale the parameters, so that triangles are of similar shape on the surface
+        let scale = self.average_speed();
+        let scaled_points: Vec<Point2> = points.iter().map(|&p| p * scale).collect();
+        let (points, triangles) = utils::generate_mesh_along_polygons(&scaled_points, &polygons);
         vertices.extend(
             points[boundary_point_count..]
                 .iter()
-                .map(|&p| self.get_point(p.x, p.y)),
+                .map(|&p| self.get_point(p.x / scale.x, p.y / scale.y)),
         );
         TriangleMesh {
             vertices,
-- 
2.43.0


From 7ac64ad6ec42dacfc3815a585d8c3d692ae7f12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:48 +0000
Subject: [PATCH 22/40] fix: projecting onto curves and surfaces stops at the
 tolerance, not its square root

---
 src/surface/bspline.rs | 7 +++++--
 src/utils.rs           | 5 +++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/surface/bspline.rs b/src/surface/bspline.rs
index 913abd1..269c738 100644
--- a/src/surface/bspline.rs
+++ b/src/surface/bspline.rs
@@ -158,12 +158,15 @@ impl BSplineSurface<Point3> {
                 let (mut u, mut v) = (u_parameters[i], v_parameters[j]);
                 for _ in 0..trials {
                     let r = self.get_point(u, v) - *point;
-                    if r.length_squared().near(0.0) {
+                    if r.length_squared().near2(0.0) {
                         return Point2::new(u, v);
                     }
                     let su = der_u.get_point(u, v);
                     let sv = der_v.get_point(u, v);
-                    if su.dot(r).near(0.0) && sv.dot(r).near(0.0) {
+                    // the point is next to the normal of the surface
+                    let is_perpendicular =
+                        |s: Point3| s.dot(r) == 0.0 || (s.dot(r) / s.length()).near(0.0);
+                    if is_perpendicular(su) && is_perpendicular(sv) {
                         return Point2::new(u, v);
                     }
 
diff --git a/src/utils.rs b/src/utils.rs
index 50e19a3..1f3a996 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -207,12 +207,13 @@ pub fn find_nearest_parameter(
     // use Newton iteration to minimize the distance between point and curve
     for _ in 0..trials {
         let delta = curve.get_point(u) - point;
-        if delta.length_squared().near(0.0) {
+        if delta.length_squared().near2(0.0) {
             return u;
         }
         let tangent = der1.get_point(u);
         let f = tangent.dot(delta);
-        if f.near(0.0) {
+        // the point is next to the normal plane of the curve
+        if (f / tangent.length()).near(0.0) || f == 0.0 {
             return u;
         }
         let fprime = der2.get_point(u).dot(delta) + tangent.length_squared();
-- 
2.43.0


From 13579a64b7bec380b9f1ec798502747ae67a79f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:44 +0000
Subject: [PATCH 23/40] fix: advancing front finishes where points are nearly
 in line

---
 src/utils/meshgen.rs | 84 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 66 insertions(+), 18 deletions(-)

diff --git a/src/utils/meshgen.rs b/src/utils/meshgen.rs
index e30b7b4..8b90840 100644
--- a/src/utils/meshgen.rs
+++ b/src/utils/meshgen.rs
@@ -1,5 +1,5 @@
 use crate::consts::HALF_SQRT_3;
-use crate::utils::{signed_area, Point, Tolerance};
+use crate::utils::{signed_area, Tolerance, TOLERANCE};
 use crate::{Float, Point2};
 use std::collections::VecDeque;
 
@@ -39,7 +39,10 @@ pub fn generate_triangular_mesh(points: &[Point2], polygons: &[usize]) -> (Vec<P
         }
     }
     // tolerances are meant for edges of unit length
-    let total_length: Float = front.iter().map(|e| points[e.0].distance(points[e.1])).sum();
+    let total_length: Float = front
+        .iter()
+        .map(|e| points[e.0].distance(points[e.1]))
+        .sum();
     let unit = total_length / front.len() as Float;
     let mut vertices: Vec<Point2> = points.iter().map(|&p| p / unit).collect();
     remove_seams(&mut front, &vertices);
@@ -47,17 +50,11 @@ pub fn generate_triangular_mesh(points: &[Point2], polygons: &[usize]) -> (Vec<P
     // advancing the front unit it is empty
     while let Some(edge) = front.pop_back() {
         let (a, b) = (vertices[edge.0], vertices[edge.1]);
-        let mut selected_node = None;
-
-        loop {
-            if let Some(node) =
-                find_intersection_with_front(edge.0, edge.1, selected_node, &front, &vertices)
-            {
-                selected_node = Some(node);
-                continue;
-            }
-            break;
-        }
+        let selected_node = select_node(edge, &front, &vertices, TOLERANCE)
+            // in a sliver thinner than the tolerance, nodes are in the way of each other
+            .unwrap_or_else(|_| {
+                select_node(edge, &front, &vertices, 0.0).unwrap_or_else(|node| Some(node))
+            });
 
         if let Some(node) = selected_node {
             if let Some(index) = front.iter().position(|e| e.0 == node && e.1 == edge.0) {
@@ -81,7 +78,10 @@ pub fn generate_triangular_mesh(points: &[Point2], polygons: &[usize]) -> (Vec<P
         }
     }
     let new_points = vertices[points.len()..].iter().map(|&p| p * unit);
-    (points.iter().copied().chain(new_points).collect(), triangles)
+    (
+        points.iter().copied().chain(new_points).collect(),
+        triangles,
+    )
 }
 
 /// A loop that runs along the same edge forth and back, like around a closed surface, has no boundary
@@ -113,30 +113,68 @@ fn remove_seams(front: &mut VecDeque<(usize, usize)>, points: &[Point2]) {
     }
 }
 
+/// select the node of the front that makes the next triangle together with the edge, or none to make
+/// a new one. The error is a node in the way of which there is another one that is no better.
+fn select_node(
+    edge: (usize, usize),
+    front: &VecDeque<(usize, usize)>,
+    vertices: &Vec<Point2>,
+    tolerance: Float,
+) -> Result<Option<usize>, usize> {
+    let mut nodes = Vec::new();
+    while let Some(node) = find_intersection_with_front(
+        edge.0,
+        edge.1,
+        nodes.last().copied(),
+        front,
+        vertices,
+        tolerance,
+    ) {
+        if nodes.contains(&node) {
+            return Err(node);
+        }
+        nodes.push(node);
+    }
+    match nodes.pop() {
+        // the node lies behind the edge
+        Some(node) if shape_factor(vertices[edge.0], vertices[edge.1], vertices[node]) < 0.0 => {
+            Err(node)
+        }
+        selected_node => Ok(selected_node),
+    }
+}
+
 fn find_intersection_with_front(
     start: usize,
     end: usize,
     selected_node: Option<usize>,
     front: &VecDeque<(usize, usize)>,
     vertices: &Vec<Point2>,
+    tolerance: Float,
 ) -> Option<usize> {
     let (a, b) = (vertices[start], vertices[end]);
     let new_point = match selected_node {
         Some(node) => vertices[node],
         None => point_on_normal_bisector(a, b, 1.0),
     };
+    let intersects = |a, b, c, d| {
+        is_segments_intersect(a, b, c, d) && (tolerance > 0.0 || is_segments_crossing(a, b, c, d))
+    };
     // it is possilbe that a node is a split node, so that multiple edges starts and ends with it
     let mut nearby_nodes = front
         .iter()
         .filter_map(|e| {
             if selected_node != Some(e.0) {
-                if e.0 != start && e.0 != end && vertices[e.0].is_inside_triangle(a, b, new_point) {
+                if e.0 != start
+                    && e.0 != end
+                    && is_inside_triangle(vertices[e.0], a, b, new_point, tolerance)
+                {
                     let factor = shape_factor(a, b, vertices[e.0]);
                     // give inner nodes higher priority
                     return Some((e.0, 1.0 + factor));
                 } else if selected_node != Some(e.1) {
                     let (c, d) = (vertices[e.0], vertices[e.1]);
-                    if e.0 != start && e.1 != start && is_segments_intersect(a, new_point, c, d) {
+                    if e.0 != start && e.1 != start && intersects(a, new_point, c, d) {
                         let fc = shape_factor(a, b, c);
                         let fd = shape_factor(a, b, d);
                         return if e.0 == end {
@@ -146,8 +184,7 @@ fn find_intersection_with_front(
                         } else {
                             Some((e.1, fd))
                         };
-                    } else if e.0 != end && e.1 != end && is_segments_intersect(b, new_point, c, d)
-                    {
+                    } else if e.0 != end && e.1 != end && intersects(b, new_point, c, d) {
                         let fc = shape_factor(a, b, c);
                         let fd = shape_factor(a, b, d);
                         return if e.1 == start {
@@ -206,6 +243,17 @@ fn is_segments_intersect(a: Point2, b: Point2, c: Point2, d: Point2) -> bool {
     return true;
 }
 
+/// segments that intersect not only touch each other
+fn is_segments_crossing(a: Point2, b: Point2, c: Point2, d: Point2) -> bool {
+    let (ab, cd) = (b - a, d - c);
+    ab.perp_dot(c - a) * ab.perp_dot(d - a) < 0.0 && cd.perp_dot(a - c) * cd.perp_dot(b - c) < 0.0
+}
+
+fn is_inside_triangle(p: Point2, a: Point2, b: Point2, c: Point2, tolerance: Float) -> bool {
+    let (pa, pb, pc) = (a - p, b - p, c - p);
+    pa.perp_dot(pb) >= -tolerance && pb.perp_dot(pc) >= -tolerance && pc.perp_dot(pa) >= -tolerance
+}
+
 fn shape_factor(a: Point2, b: Point2, c: Point2) -> Float {
     let ab = b - a;
     let ac = c - a;
-- 
2.43.0


From 5200441a8de1c5c1956599a47624f2600e593d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:54 +0000
Subject: [PATCH 24/40] fix: SVG flips the drawing at the exact page height

---
 src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.rs b/src/model.rs
index a75f71b..f1c6267 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -94,7 +94,7 @@ impl<F: Face> Model<F> {
             .set("height", format!("{}mm", height))
             .set("viewBox", (0, 0, width, height));
         let mut group = Group::new()
-            .set("transform", format!("matrix(1 0 0 -1 0 {:.0})", height))
+            .set("transform", format!("matrix(1 0 0 -1 0 {})", height))
             .set("fill", "none")
             .set("stroke", "black")
             .set("stroke-linecap", "round");
-- 
2.43.0


From c65f7b04f9135c5c1cd37130d104757a4a49f769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:55 +0000
Subject: [PATCH 25/40] fix: SVG draws only the parameter range of polyline and
 B-spline segments

---
 src/model.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index f1c6267..e9411e4 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -110,7 +110,13 @@ impl<F: Face> Model<F> {
                     data.push_str(&format!(" L {:.2},{:.2}", end.x, end.y));
                     continue;
                 }
-                if let Some(polyline) = segment.curve.downcast_ref::<curve::Polyline>() {
+                // The curves below are drawn whole
+                let range = segment.parameter_range;
+                let polyline = segment
+                    .curve
+                    .downcast_ref::<curve::Polyline>()
+                    .filter(|_| range == (0.0, 1.0));
+                if let Some(polyline) = polyline {
                     for (index, point) in polyline.vertices.iter().enumerate() {
                         if index == 0 {
                             data.push_str(&format!("M {:.2},{:.2}", point.x, point.y));
@@ -120,7 +126,11 @@ impl<F: Face> Model<F> {
                     }
                     continue;
                 }
-                if let Some(bspline) = segment.curve.downcast_ref::<curve::BSplineCurve<Point3>>() {
+                let bspline = segment
+                    .curve
+                    .downcast_ref::<curve::BSplineCurve<Point3>>()
+                    .filter(|bspline| range == bspline.knots.range());
+                if let Some(bspline) = bspline {
                     if bspline.degree == 3 {
                         for (index, bezier_curve) in
                             bspline.to_piecewise_bezier().into_iter().enumerate()
-- 
2.43.0


From ac6b46fe0113e1c487dd965e097c13a38020ca60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:56 +0000
Subject: [PATCH 26/40] fix: loading a point cloud with a malformed number is
 an error, not a panic

---
 src/points.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/points.rs b/src/points.rs
index 77f3391..2feee28 100644
--- a/src/points.rs
+++ b/src/points.rs
@@ -8,6 +8,11 @@ pub fn scale_points(points: &[Point3], scale: Float) -> Vec<Point3> {
     points.iter().map(|&point| point * scale).collect()
 }
 
+fn parse_coordinate(text: &str) -> std::io::Result<Float> {
+    Float::from_str(text)
+        .map_err(|error| std::io::Error::new(std::io::ErrorKind::InvalidData, error))
+}
+
 pub fn load_point_cloud<P: AsRef<Path>>(file: P) -> std::io::Result<Vec<Point3>> {
     let bytes = std::fs::read(file)?;
     let cursor = std::io::Cursor::new(bytes);
@@ -24,15 +29,10 @@ pub fn load_point_cloud<P: AsRef<Path>>(file: P) -> std::io::Result<Vec<Point3>>
             .collect::<Vec<&str>>()
             .as_slice()
         {
-            [x, y, z] => points.push(Point3::new(
-                Float::from_str(x).unwrap(),
-                Float::from_str(y).unwrap(),
-                Float::from_str(z).unwrap(),
-            )),
-            [_, x, y, z] => points.push(Point3::new(
-                Float::from_str(x).unwrap(),
-                Float::from_str(y).unwrap(),
-                Float::from_str(z).unwrap(),
+            [x, y, z] | [_, x, y, z] => points.push(Point3::new(
+                parse_coordinate(x)?,
+                parse_coordinate(y)?,
+                parse_coordinate(z)?,
             )),
             _ => {}
         }
-- 
2.43.0


From 85bbdb2c82778383d4a7b7ac2e620c2358d25cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:57 +0000
Subject: [PATCH 27/40] fix: saving point clouds and STL reports incomplete
 writes

---
 src/model.rs  | 21 +++++++++++----------
 src/points.rs |  6 +++---
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index e9411e4..b15ca47 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -33,33 +33,34 @@ impl<F: Face> Model<F> {
         let mut header = Vec::with_capacity(header_size);
         writeln!(header, "Binary STL file\nName: {:57}", name)?;
         header.truncate(header_size);
-        writer.write(&header)?;
+        writer.write_all(&header)?;
 
         let mut triangle_count: usize = 0;
-        writer.write(&(triangle_count as u32).to_le_bytes())?;
+        writer.write_all(&(triangle_count as u32).to_le_bytes())?;
 
         for face in &self.faces {
             let mesh = face.get_triangle_mesh();
             triangle_count += mesh.triangle_count();
             for triangle in mesh.triangles.chunks(3) {
                 // normal
-                writer.write(&0.0_f32.to_le_bytes())?;
-                writer.write(&0.0_f32.to_le_bytes())?;
-                writer.write(&0.0_f32.to_le_bytes())?;
+                writer.write_all(&0.0_f32.to_le_bytes())?;
+                writer.write_all(&0.0_f32.to_le_bytes())?;
+                writer.write_all(&0.0_f32.to_le_bytes())?;
                 // vertices
                 for index in triangle {
                     let point = &mesh.vertices[*index as usize];
-                    writer.write(&(point.x as f32).to_le_bytes())?;
-                    writer.write(&(point.y as f32).to_le_bytes())?;
-                    writer.write(&(point.z as f32).to_le_bytes())?;
+                    writer.write_all(&(point.x as f32).to_le_bytes())?;
+                    writer.write_all(&(point.y as f32).to_le_bytes())?;
+                    writer.write_all(&(point.z as f32).to_le_bytes())?;
                 }
                 // attribute byte count
-                writer.write(&[0u8, 0u8])?;
+                writer.write_all(&[0u8, 0u8])?;
             }
         }
         writer.seek(SeekFrom::Start(header_size as u64))?;
         dbg!(triangle_count);
-        writer.write(&(triangle_count as u32).to_le_bytes())?;
+        writer.write_all(&(triangle_count as u32).to_le_bytes())?;
+        writer.flush()?;
         Ok(())
     }
 
diff --git a/src/points.rs b/src/points.rs
index 2feee28..c396593 100644
--- a/src/points.rs
+++ b/src/points.rs
@@ -43,7 +43,7 @@ pub fn load_point_cloud<P: AsRef<Path>>(file: P) -> std::io::Result<Vec<Point3>>
 pub fn save_point_cloud<P: AsRef<Path>>(points: &[Point3], file: P) -> std::io::Result<()> {
     let mut file = File::create(file)?;
     for point in points {
-        file.write(format!("{} {} {}\n", point.x, point.y, point.z).as_bytes())?;
+        file.write_all(format!("{} {} {}\n", point.x, point.y, point.z).as_bytes())?;
     }
     Ok(())
 }
@@ -54,7 +54,7 @@ pub fn save_point_cloud_with_normal<P: AsRef<Path>>(
 ) -> std::io::Result<()> {
     let mut file = File::create(file)?;
     for (point, normal) in points {
-        file.write(
+        file.write_all(
             format!(
                 "{} {} {} {} {} {}\n",
                 point.x, point.y, point.z, normal.x, normal.y, normal.z
@@ -68,7 +68,7 @@ pub fn save_point_cloud_with_normal<P: AsRef<Path>>(
 pub fn save_points<P: AsRef<Path>>(points: &[Point2], file: P) -> std::io::Result<()> {
     let mut file = File::create(file)?;
     for point in points {
-        file.write(format!("{},{}\n", point.x, point.y).as_bytes())?;
+        file.write_all(format!("{},{}\n", point.x, point.y).as_bytes())?;
     }
     Ok(())
 }
-- 
2.43.0


From b3598d0819e0d0a8a34fd49b27954b4d5f520125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:00 +0000
Subject: [PATCH 28/40] fix: the STEP reader keeps outer bounds of faces

---
 src/model/step_reader.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index a2d9416..ebe6393 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -188,6 +188,15 @@ fn extract_edge_curve(
     None
 }
 
+fn face_bound_loop<'a>(reader: &'a Ap214Reader, bound_ref: &EntityRef) -> Option<&'a EntityRef> {
+    if let Some(bound) = reader.get_entity::<FaceBound>(bound_ref) {
+        return Some(bound.bound());
+    }
+    reader
+        .get_entity::<FaceOuterBound>(bound_ref)
+        .map(|bound| bound.bound())
+}
+
 fn extract_surface(
     reader: &Ap214Reader,
     face: &AdvancedFace,
@@ -437,8 +446,8 @@ impl ModelReader {
             if let Some(surface) = extract_surface(&reader, advanced_face) {
                 let mut bounds = Vec::with_capacity(advanced_face.bounds().len());
                 for bound in advanced_face.bounds() {
-                    if let Some(face_bound) = reader.get_entity::<FaceBound>(bound) {
-                        if let Some(edge_loop) = reader.get_entity::<EdgeLoop>(face_bound.bound()) {
+                    if let Some(bound_loop) = face_bound_loop(&reader, bound) {
+                        if let Some(edge_loop) = reader.get_entity::<EdgeLoop>(bound_loop) {
                             let edges = edge_loop
                                 .edge_list()
                                 .iter()
-- 
2.43.0


From 9221651a7e7b79e443167854ce1fcb90c6d29c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:50 +0000
Subject: [PATCH 29/40] fix: the STEP reader follows the orientation of
 oriented edges

---
 src/model/step_reader.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index ebe6393..98bec69 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -188,6 +188,19 @@ fn extract_edge_curve(
     None
 }
 
+fn extract_oriented_edge(
+    reader: &Ap214Reader,
+    edge_ref: &EntityRef,
+) -> Option<CurveSegment<Box<dyn Curve>>> {
+    let edge = reader.get_entity::<OrientedEdge>(edge_ref)?;
+    let mut segment = extract_edge_curve(reader, edge.edge_element())?;
+    if !edge.orientation() {
+        let (start, end) = segment.parameter_range;
+        segment.parameter_range = (end, start);
+    }
+    Some(segment)
+}
+
 fn face_bound_loop<'a>(reader: &'a Ap214Reader, bound_ref: &EntityRef) -> Option<&'a EntityRef> {
     if let Some(bound) = reader.get_entity::<FaceBound>(bound_ref) {
         return Some(bound.bound());
@@ -452,9 +465,7 @@ impl ModelReader {
                                 .edge_list()
                                 .iter()
                                 .filter_map(|edge| {
-                                    reader.get_entity::<OrientedEdge>(edge).and_then(|edge| {
-                                        extract_edge_curve(&reader, edge.edge_element())
-                                    })
+                                    extract_oriented_edge(&reader, edge)
                                 })
                                 .collect::<Vec<_>>();
                             bounds.push(crate::surface::EdgeLoop { edges });
-- 
2.43.0


From e484c482da91f31a58d29bede167a7e895b89016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:45 +0000
Subject: [PATCH 30/40] fix: the STEP reader follows the orientation of face
 bounds

---
 src/model/step_reader.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index 98bec69..91346c1 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -188,6 +188,11 @@ fn extract_edge_curve(
     None
 }
 
+fn reverse_segment(segment: &mut CurveSegment<Box<dyn Curve>>) {
+    let (start, end) = segment.parameter_range;
+    segment.parameter_range = (end, start);
+}
+
 fn extract_oriented_edge(
     reader: &Ap214Reader,
     edge_ref: &EntityRef,
@@ -195,19 +200,22 @@ fn extract_oriented_edge(
     let edge = reader.get_entity::<OrientedEdge>(edge_ref)?;
     let mut segment = extract_edge_curve(reader, edge.edge_element())?;
     if !edge.orientation() {
-        let (start, end) = segment.parameter_range;
-        segment.parameter_range = (end, start);
+        reverse_segment(&mut segment);
     }
     Some(segment)
 }
 
-fn face_bound_loop<'a>(reader: &'a Ap214Reader, bound_ref: &EntityRef) -> Option<&'a EntityRef> {
+/// Get the loop of a face bound, and whether the bound follows the direction of the loop
+fn face_bound_loop<'a>(
+    reader: &'a Ap214Reader,
+    bound_ref: &EntityRef,
+) -> Option<(&'a EntityRef, bool)> {
     if let Some(bound) = reader.get_entity::<FaceBound>(bound_ref) {
-        return Some(bound.bound());
+        return Some((bound.bound(), bound.orientation()));
     }
     reader
         .get_entity::<FaceOuterBound>(bound_ref)
-        .map(|bound| bound.bound())
+        .map(|bound| (bound.bound(), bound.orientation()))
 }
 
 fn extract_surface(
@@ -459,15 +467,17 @@ impl ModelReader {
             if let Some(surface) = extract_surface(&reader, advanced_face) {
                 let mut bounds = Vec::with_capacity(advanced_face.bounds().len());
                 for bound in advanced_face.bounds() {
-                    if let Some(bound_loop) = face_bound_loop(&reader, bound) {
+                    if let Some((bound_loop, orientation)) = face_bound_loop(&reader, bound) {
                         if let Some(edge_loop) = reader.get_entity::<EdgeLoop>(bound_loop) {
-                            let edges = edge_loop
+                            let mut edges = edge_loop
                                 .edge_list()
                                 .iter()
-                                .filter_map(|edge| {
-                                    extract_oriented_edge(&reader, edge)
-                                })
+                                .filter_map(|edge| extract_oriented_edge(&reader, edge))
                                 .collect::<Vec<_>>();
+                            if !orientation {
+                                edges.reverse();
+                                edges.iter_mut().for_each(reverse_segment);
+                            }
                             bounds.push(crate::surface::EdgeLoop { edges });
                         }
                     }
-- 
2.43.0


From d3151bf9eb0f98704aff79d79328f5ea046f43c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:40 +0000
Subject: [PATCH 31/40] fix: the STEP reader makes placement axes orthonormal
 and applies their defaults

---
 src/model/step_reader.rs | 54 +++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index 91346c1..5a657ac 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -33,22 +33,25 @@ fn vertex_point(reader: &Ap214Reader, vertex_ref: &EntityRef) -> Point3 {
         .unwrap()
 }
 
-fn axis1_placement(reader: &Ap214Reader, placement_ref: &EntityRef) -> (Point3, Option<Vec3>) {
+fn direction(reader: &Ap214Reader, direction_ref: &Option<EntityRef>) -> Option<Vec3> {
+    direction_ref
+        .as_ref()
+        .and_then(|direction_ref| reader.get_entity::<Direction>(direction_ref))
+        .and_then(|direction| vec3(direction.direction_ratios()).try_normalize())
+}
+
+fn axis1_placement(reader: &Ap214Reader, placement_ref: &EntityRef) -> (Point3, Vec3) {
     let placement = reader.get_entity::<Axis1Placement>(placement_ref).unwrap();
     let location = reader
         .get_entity::<CartesianPoint>(placement.location())
         .map(|point| vec3(point.coordinates()))
         .unwrap();
-    let axis = reader
-        .get_entity::<Direction>(placement.axis().as_ref().unwrap())
-        .map(|direction| vec3(direction.direction_ratios()));
+    let axis = direction(reader, placement.axis()).unwrap_or(Vec3::Z);
     (location, axis)
 }
 
-fn axis2_placement_3d(
-    reader: &Ap214Reader,
-    placement_ref: &EntityRef,
-) -> (Point3, Option<Vec3>, Option<Vec3>) {
+/// Get location, unit z axis and the unit x axis orthogonal to it
+fn axis2_placement_3d(reader: &Ap214Reader, placement_ref: &EntityRef) -> (Point3, Vec3, Vec3) {
     let placement = reader
         .get_entity::<Axis2Placement3d>(placement_ref)
         .unwrap();
@@ -56,12 +59,17 @@ fn axis2_placement_3d(
         .get_entity::<CartesianPoint>(placement.location())
         .map(|point| vec3(point.coordinates()))
         .unwrap();
-    let z_axis = reader
-        .get_entity::<Direction>(placement.axis().as_ref().unwrap())
-        .map(|direction| vec3(direction.direction_ratios()));
-    let x_axis = reader
-        .get_entity::<Direction>(placement.ref_direction().as_ref().unwrap())
-        .map(|direction| vec3(direction.direction_ratios()));
+    let z_axis = direction(reader, placement.axis()).unwrap_or(Vec3::Z);
+    // the reference direction gives the x axis only approximately, when omitted it is the global
+    // X direction, or Y if that is along the z axis
+    let x_axis = direction(reader, placement.ref_direction())
+        .into_iter()
+        .chain([Vec3::X, Vec3::Y])
+        .find_map(|dir| {
+            let x_axis = dir - z_axis * dir.dot(z_axis);
+            (x_axis.length() > 1e-9).then(|| x_axis.normalize())
+        })
+        .unwrap();
     (location, z_axis, x_axis)
 }
 
@@ -140,8 +148,8 @@ fn extract_curve(reader: &Ap214Reader, curve_ref: &EntityRef) -> Option<Box<dyn
         let (center, axis, ref_dir) = axis2_placement_3d(reader, circle.position());
         return Some(Box::new(crate::curve::Circle {
             center,
-            axis: axis.unwrap(),
-            ref_dir: ref_dir.unwrap().normalize(),
+            axis,
+            ref_dir,
             radius: circle.radius().0,
         }));
     }
@@ -226,12 +234,8 @@ fn extract_surface(
     let same_sense = face.same_sense();
     if let Some(plane) = reader.get_entity::<Plane>(face.face_geometry()) {
         let (origin, z_axis, x_axis) = axis2_placement_3d(reader, plane.position());
-        let normal = if same_sense {
-            z_axis.unwrap()
-        } else {
-            -z_axis.unwrap()
-        };
-        let u_axis = x_axis.unwrap();
+        let normal = if same_sense { z_axis } else { -z_axis };
+        let u_axis = x_axis;
         let surface = crate::surface::Plane {
             origin,
             normal,
@@ -248,8 +252,8 @@ fn extract_surface(
         let (origin, axis, ref_dir) = axis2_placement_3d(reader, cylinder.position());
         let surface = crate::surface::Cylinder {
             origin,
-            axis: axis.unwrap(),
-            ref_dir: ref_dir.unwrap().normalize(),
+            axis,
+            ref_dir,
             radius: cylinder.radius().0,
         };
         return Some(SurfacePatch {
@@ -398,7 +402,7 @@ fn extract_surface(
             let (origin, axis) = axis1_placement(reader, revolution.axis_position());
             let surface = crate::surface::SpinSurface {
                 origin,
-                axis: axis.unwrap(),
+                axis,
                 section,
             };
             return Some(SurfacePatch {
-- 
2.43.0


From efb6e37eba1ff1784bbe5666f723a63dd5202930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:45 +0000
Subject: [PATCH 32/40] fix: the STEP reader gives lines the magnitude of their
 vector

---
 src/model/step_reader.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index 5a657ac..049be47 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -139,8 +139,13 @@ fn extract_curve(reader: &Ap214Reader, curve_ref: &EntityRef) -> Option<Box<dyn
             .unwrap();
         let direction = reader
             .get_entity::<Vector>(line.dir())
-            .and_then(|vector| reader.get_entity::<Direction>(vector.orientation()))
-            .map(|dir| vec3(dir.direction_ratios()))
+            .and_then(|vector| {
+                reader
+                    .get_entity::<Direction>(vector.orientation())
+                    .map(|dir| {
+                        vec3(dir.direction_ratios()).normalize() * vector.magnitude().0 as Float
+                    })
+            })
             .unwrap();
         return Some(Box::new(crate::curve::Line { origin, direction }));
     }
-- 
2.43.0


From 2230b20cad000e4d6a5931480a4e277378258b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:57 +0000
Subject: [PATCH 33/40] fix: the STEP reader takes curve trimmings stated by
 points

---
 src/model/step_reader.rs | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index 049be47..cf1488a 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -6,6 +6,7 @@ use crate::{Float, Grid, KnotVector, Point3, Point4, Vec3, Vec4};
 use iso_10303::step::{EntityRef, Real, StepReader};
 use iso_10303_parts::ap214::*;
 use std::any::Any;
+use std::collections::HashSet;
 
 fn vec3(coordinates: &Vec<Real>) -> Vec3 {
     Vec3::new(
@@ -420,12 +421,24 @@ fn extract_surface(
     return None;
 }
 
-fn get_trimming_parameter_value(measure: &TrimmingSelect) -> Option<f64> {
-    if let TrimmingSelect::ParameterValue(value) = measure {
-        Some(value.0)
-    } else {
-        None
+/// Get the curve parameter of a trimming, which is stated by a parameter value, a point, or both
+fn get_trimming_parameter_value(
+    reader: &Ap214Reader,
+    curve: &dyn Curve,
+    trimming: &HashSet<TrimmingSelect>,
+) -> Option<Float> {
+    let mut parameter = None;
+    for measure in trimming {
+        match measure {
+            TrimmingSelect::ParameterValue(value) => return Some(value.0 as Float),
+            TrimmingSelect::CartesianPoint(point) => {
+                if let Some(point) = reader.get_entity::<CartesianPoint>(point) {
+                    parameter = Some(curve.project(vec3(point.coordinates())));
+                }
+            }
+        }
     }
+    parameter
 }
 
 fn extract_curve_segment(
@@ -435,12 +448,16 @@ fn extract_curve_segment(
     if let Some(segment) = reader.get_entity::<CompositeCurveSegment>(segment_ref) {
         if let Some(trimmed_curve) = reader.get_entity::<TrimmedCurve>(segment.parent_curve()) {
             if let Some(basis_curve) = extract_curve(reader, trimmed_curve.basis_curve()) {
-                let param1 =
-                    get_trimming_parameter_value(trimmed_curve.trim_1().iter().next().unwrap())
-                        .unwrap();
-                let param2 =
-                    get_trimming_parameter_value(trimmed_curve.trim_2().iter().next().unwrap())
-                        .unwrap();
+                let param1 = get_trimming_parameter_value(
+                    reader,
+                    basis_curve.as_ref(),
+                    trimmed_curve.trim_1(),
+                )?;
+                let param2 = get_trimming_parameter_value(
+                    reader,
+                    basis_curve.as_ref(),
+                    trimmed_curve.trim_2(),
+                )?;
                 let parameter_range = basis_curve
                     .refine_parameter_range((param1, param2), trimmed_curve.sense_agreement());
                 return Some(CurveSegment {
-- 
2.43.0


From 1518143ed60258325fcac58cb3eebada8e06cfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:58 +0000
Subject: [PATCH 34/40] fix: the STEP reader follows the sense of composite
 curve segments

---
 src/model/step_reader.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index cf1488a..746cdd7 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -460,12 +460,16 @@ fn extract_curve_segment(
                 )?;
                 let parameter_range = basis_curve
                     .refine_parameter_range((param1, param2), trimmed_curve.sense_agreement());
-                return Some(CurveSegment {
+                let mut trimmed_segment = CurveSegment {
                     curve: basis_curve,
                     parameter_range,
                     tolerance: 0.01,
                     parameter_division: 16,
-                });
+                };
+                if !segment.same_sense() {
+                    reverse_segment(&mut trimmed_segment);
+                }
+                return Some(trimmed_segment);
             }
         }
     }
-- 
2.43.0


From d33f77a012a9cfbe1e1d4a9fff5edf2e74794f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:27 +0000
Subject: [PATCH 35/40] fix: the STEP reader places trimmings of polylines by
 vertex

---
 src/model/step_reader.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index 746cdd7..f7568be 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -421,16 +421,33 @@ fn extract_surface(
     return None;
 }
 
+/// A polyline in STEP has its vertices at integer parameters
+fn polyline_parameter(polyline: &crate::curve::Polyline, value: Float) -> Float {
+    let lengths = &polyline.segment_lengths;
+    let index = (value.max(0.0) as usize).min(lengths.len() - 1);
+    let length = lengths.iter().take(index).sum::<Float>();
+    (length + lengths[index] * (value - index as Float)) / polyline.length
+}
+
 /// Get the curve parameter of a trimming, which is stated by a parameter value, a point, or both
 fn get_trimming_parameter_value(
     reader: &Ap214Reader,
+    curve_ref: &EntityRef,
     curve: &dyn Curve,
     trimming: &HashSet<TrimmingSelect>,
 ) -> Option<Float> {
     let mut parameter = None;
     for measure in trimming {
         match measure {
-            TrimmingSelect::ParameterValue(value) => return Some(value.0 as Float),
+            TrimmingSelect::ParameterValue(value) => {
+                let value = value.0 as Float;
+                if let Some(polyline) = reader.get_entity::<Polyline>(curve_ref) {
+                    let points = extract_points(reader, polyline.points());
+                    let polyline = crate::curve::Polyline::new(points);
+                    return Some(polyline_parameter(&polyline, value));
+                }
+                return Some(value);
+            }
             TrimmingSelect::CartesianPoint(point) => {
                 if let Some(point) = reader.get_entity::<CartesianPoint>(point) {
                     parameter = Some(curve.project(vec3(point.coordinates())));
@@ -450,11 +467,13 @@ fn extract_curve_segment(
             if let Some(basis_curve) = extract_curve(reader, trimmed_curve.basis_curve()) {
                 let param1 = get_trimming_parameter_value(
                     reader,
+                    trimmed_curve.basis_curve(),
                     basis_curve.as_ref(),
                     trimmed_curve.trim_1(),
                 )?;
                 let param2 = get_trimming_parameter_value(
                     reader,
+                    trimmed_curve.basis_curve(),
                     basis_curve.as_ref(),
                     trimmed_curve.trim_2(),
                 )?;
-- 
2.43.0


From 324e1435f1489d31b8d19f41a6d581916042258f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:29 +0000
Subject: [PATCH 36/40] fix: the STEP reader keeps polylines and splines in
 composite curves

---
 src/model/step_reader.rs | 79 +++++++++++++++++++++++++++-------------
 1 file changed, 53 insertions(+), 26 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index f7568be..35e9ca1 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -458,38 +458,65 @@ fn get_trimming_parameter_value(
     parameter
 }
 
+/// Get the full parameter range of a bounded curve
+fn bounded_curve_range(reader: &Ap214Reader, curve_ref: &EntityRef) -> Option<(Float, Float)> {
+    if reader.get_entity::<Polyline>(curve_ref).is_some() {
+        return Some((0.0, 1.0));
+    }
+    reader
+        .get_entity::<BSplineCurveWithKnots>(curve_ref)
+        .map(|bspline| {
+            let knots = extract_knot_vector(bspline.knots(), bspline.knot_multiplicities());
+            let degree = bspline.degree() as usize;
+            (knots[degree], knots[knots.len() - 1 - degree])
+        })
+}
+
+fn extract_bounded_curve(
+    reader: &Ap214Reader,
+    curve_ref: &EntityRef,
+) -> Option<(Box<dyn Curve>, (Float, Float))> {
+    if let Some(trimmed_curve) = reader.get_entity::<TrimmedCurve>(curve_ref) {
+        let basis_ref = trimmed_curve.basis_curve();
+        let curve = extract_curve(reader, basis_ref)?;
+        let param1 = get_trimming_parameter_value(
+            reader,
+            basis_ref,
+            curve.as_ref(),
+            trimmed_curve.trim_1(),
+        )?;
+        let param2 = get_trimming_parameter_value(
+            reader,
+            basis_ref,
+            curve.as_ref(),
+            trimmed_curve.trim_2(),
+        )?;
+        let parameter_range =
+            curve.refine_parameter_range((param1, param2), trimmed_curve.sense_agreement());
+        return Some((curve, parameter_range));
+    }
+    let parameter_range = bounded_curve_range(reader, curve_ref)?;
+    extract_curve(reader, curve_ref).map(|curve| (curve, parameter_range))
+}
+
 fn extract_curve_segment(
     reader: &Ap214Reader,
     segment_ref: &EntityRef,
 ) -> Option<CurveSegment<Box<dyn Curve>>> {
     if let Some(segment) = reader.get_entity::<CompositeCurveSegment>(segment_ref) {
-        if let Some(trimmed_curve) = reader.get_entity::<TrimmedCurve>(segment.parent_curve()) {
-            if let Some(basis_curve) = extract_curve(reader, trimmed_curve.basis_curve()) {
-                let param1 = get_trimming_parameter_value(
-                    reader,
-                    trimmed_curve.basis_curve(),
-                    basis_curve.as_ref(),
-                    trimmed_curve.trim_1(),
-                )?;
-                let param2 = get_trimming_parameter_value(
-                    reader,
-                    trimmed_curve.basis_curve(),
-                    basis_curve.as_ref(),
-                    trimmed_curve.trim_2(),
-                )?;
-                let parameter_range = basis_curve
-                    .refine_parameter_range((param1, param2), trimmed_curve.sense_agreement());
-                let mut trimmed_segment = CurveSegment {
-                    curve: basis_curve,
-                    parameter_range,
-                    tolerance: 0.01,
-                    parameter_division: 16,
-                };
-                if !segment.same_sense() {
-                    reverse_segment(&mut trimmed_segment);
-                }
-                return Some(trimmed_segment);
+        if let Some((curve, parameter_range)) =
+            extract_bounded_curve(reader, segment.parent_curve())
+        {
+            let mut curve_segment = CurveSegment {
+                curve,
+                parameter_range,
+                tolerance: 0.01,
+                parameter_division: 16,
+            };
+            if !segment.same_sense() {
+                reverse_segment(&mut curve_segment);
             }
+            return Some(curve_segment);
         }
     }
     return None;
-- 
2.43.0


From 668ccb40bf7a7436e032720e1946f25d7b2fa239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:05 +0000
Subject: [PATCH 37/40] fix: a range from one end of a closed curve to the
 other keeps its length

---
 src/utils.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 1f3a996..1847926 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -119,19 +119,17 @@ pub fn refine_closed_range(
 ) -> (Float, Float) {
     let (a0, a1) = range;
     let (start, end) = full_range;
-    if same_sense && a0 >= a1 {
-        if a1.near(start) {
-            return (a0, end);
-        } else if a0.near(end) {
-            return (start, a1);
-        }
-    }
-    if !same_sense && a0 <= a1 {
-        if a0.near(start) {
-            return (end, a1);
-        } else if a1.near(end) {
-            return (a0, start);
-        }
+    let (first, last) = if same_sense {
+        (start, end)
+    } else {
+        (end, start)
+    };
+    let is_against = if same_sense { a0 >= a1 } else { a0 <= a1 };
+    if is_against && (a0.near(last) || a1.near(first)) {
+        return (
+            if a0.near(last) { first } else { a0 },
+            if a1.near(first) { last } else { a1 },
+        );
     }
     range
 }
-- 
2.43.0


From af4cea176e877bdc47c0bceb977830c07cdf5452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:07 +0000
Subject: [PATCH 38/40] fix: low faces on wide cylinders are meshed without
 stretching them

---
 src/surface/cylinder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/surface/cylinder.rs b/src/surface/cylinder.rs
index 117be84..af27f8c 100644
--- a/src/surface/cylinder.rs
+++ b/src/surface/cylinder.rs
@@ -69,7 +69,9 @@ impl Surface for Cylinder {
             .collect::<Vec<_>>();
         let points: Vec<Point2> = vertices.iter().map(|v| self.project(*v)).collect();
         let (min_z, max_z) = utils::get_min_max_by_key(&points, |p| p.x);
-        let d = (max_z - min_z) * 2.0;
+        // a low face on a wide cylinder must not be stretched by the projection
+        let height = max_z - min_z;
+        let d = height + height.max(self.radius);
         // the ring starts at the lowest point, so that it never reaches its center
         let base = Cylinder {
             origin: self.origin + self.axis * min_z,
-- 
2.43.0


From d95d079da97dfcfbe4f850956018059380e89033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:30 +0000
Subject: [PATCH 39/40] fix: splines that are not clamped are projected onto
 the range where they are defined

---
 src/curve/bspline.rs   | 4 ++--
 src/knot.rs            | 6 ++++++
 src/surface/bspline.rs | 3 ++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/curve/bspline.rs b/src/curve/bspline.rs
index 0a761e5..9167a4b 100644
--- a/src/curve/bspline.rs
+++ b/src/curve/bspline.rs
@@ -160,14 +160,14 @@ impl Curve for BSplineCurve<Point3> {
             &der1,
             &der2,
             point,
-            self.knots.range(),
+            self.knots.domain(self.degree()),
             self.control_points.len() * 4,
             10,
         )
     }
 
     fn refine_parameter_range(&self, range: (Float, Float), same_sense: bool) -> (Float, Float) {
-        let (start, end) = self.knots.range();
+        let (start, end) = self.knots.domain(self.degree());
         let distance_squared = self.get_point(start).distance_squared(self.get_point(end));
         if distance_squared.near(0.0) {
             return utils::refine_closed_range(range, (start, end), same_sense);
diff --git a/src/knot.rs b/src/knot.rs
index 62814a5..b567958 100644
--- a/src/knot.rs
+++ b/src/knot.rs
@@ -141,6 +141,12 @@ impl KnotVector {
         KnotVector(Vec::from(&self.0[range]))
     }
 
+    /// Range where the basis functions of `degree` add up to one, it is narrower than the range of
+    /// all knots when their ends are not clamped
+    pub fn domain(&self, degree: usize) -> (Float, Float) {
+        (self[degree], self[self.len() - 1 - degree])
+    }
+
     /// Get min and max values
     pub fn range(&self) -> (Float, Float) {
         (self[0], self[self.len() - 1])
diff --git a/src/surface/bspline.rs b/src/surface/bspline.rs
index 269c738..e1691ca 100644
--- a/src/surface/bspline.rs
+++ b/src/surface/bspline.rs
@@ -138,7 +138,8 @@ impl BSplineSurface<Point3> {
         let der_vv = der_v.derivative_v();
 
         let (n, m) = self.control_points.size();
-        let (u_range, v_range) = (self.knots.0.range(), self.knots.1.range());
+        let u_range = self.knots.0.domain(self.degree.0 as usize);
+        let v_range = self.knots.1.domain(self.degree.1 as usize);
         let u_parameters = utils::uniform_divide(u_range, n * 4);
         let v_parameters = utils::uniform_divide(v_range, m * 4);
         let vertices = Grid::from_vec(
-- 
2.43.0


From 3721f48818ce0398199feb6c4b976cbb29923e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:54 +0000
Subject: [PATCH 40/40] fix: split a B-spline at all knots that differ from the
 cut by rounding

A repeated knot whose copies differ in the last bits was split at one of them only, which left pieces with
too few or too many control points.
---
 src/curve/bspline.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/curve/bspline.rs b/src/curve/bspline.rs
index 9167a4b..62ba53f 100644
--- a/src/curve/bspline.rs
+++ b/src/curve/bspline.rs
@@ -69,6 +69,10 @@ impl BSplineCurve<Point3> {
         let index = self.knots.span_index(t);
         let s = if t.near(self.knots[index]) {
             t = self.knots[index];
+            // knots within tolerance of each other are one knot
+            for knot in self.knots.0.iter_mut().filter(|knot| knot.near(t)) {
+                *knot = t;
+            }
             self.knots.multiplicity(index)
         } else {
             0
-- 
2.43.0

