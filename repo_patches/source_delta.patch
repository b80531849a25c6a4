From fdd06d35667cb6c2d7df6a4a23277bfeb7a16b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 01/12] fix: an insert that fails or panics part way no longer
 loses stored data

---
 src/quadtrees/bounds/node.rs | 104 +++++++++++++++++++++--------------
 src/quadtrees/point/node.rs  |  60 ++++++++++----------
 2 files changed, 92 insertions(+), 72 deletions(-)

diff --git a/src/quadtrees/bounds/node.rs b/src/quadtrees/bounds/node.rs
index f22ac87..f972ff3 100644
--- a/src/quadtrees/bounds/node.rs
+++ b/src/quadtrees/bounds/node.rs
@@ -81,52 +81,46 @@ where
     }
 
     fn insert(&mut self, datum: D) -> Result<(), Error> {
-        // See notes in the PointQuadTree implementation on take
-        match self.nodes.take() {
-            // If we have sub-nodes already, pass down the tree
-            // Also works for stuck nodes, will be pushed down as far as they can go
-            Some(mut sub_nodes) => {
-                // Generate the bounding box for the geometry, which may fail
-                let bbox = datum
-                    .as_geom()
-                    .bounding_rect()
-                    .ok_or(Error::CannotMakeBbox)?;
-
-                // Get the index of the datum - will be based on the datum's
-                // top-left point from its bounds
-                let sub_node_idx = self.find_sub_node(&datum).ok_or(Error::CannotFindSubNode)?;
-                let sub_node = &mut sub_nodes[sub_node_idx as usize];
-
-                // Check if the datum is totally contained by the sub-node
-                // If not, it is a stuck child, noting that contains includes
-                // bordering, see notes in rect_in_rect for why
-                if rect_in_rect(sub_node.bounds(), &bbox) {
-                    sub_node.insert(datum)?
-                } else {
-                    self.stuck_children.push(datum);
-                }
-
-                // Make sure to replace the nodes
-                self.nodes = Some(sub_nodes);
+        // See notes in the PointQuadTree implementation, the geometry of a datum always has to be
+        // resolved before changing anything
+        if self.nodes.is_none() {
+            if self.children.len() < self.max_children || self.depth >= self.max_depth {
+                self.children.push(datum);
+                return Ok(());
             }
-            // If no room left, subdivide
-            // See notes in PointQuadTree implementation
-            None if self.children.len() >= self.max_children && !(self.depth >= self.max_depth) => {
-                self.subdivide();
-
-                let mut children = std::mem::replace(&mut self.children, Vec::new());
-                children.push(datum);
 
-                // Re-insert all children
-                for pt in children {
-                    self.insert(pt)?;
+            // If no room left, subdivide and push all existing children down
+            // The sub-nodes only become part of this node when all children have their place
+            let mut split = Self::new(self.bounds, self.depth, self.max_depth, self.max_children);
+            split.subdivide();
+
+            let sub_node_idxs = self
+                .children
+                .iter()
+                .map(|child| split.find_containing_sub_node(child))
+                .collect::<Result<Vec<_>, _>>()?;
+            let children = std::mem::take(&mut self.children);
+
+            self.nodes = split.nodes;
+            if let Some(sub_nodes) = self.nodes.as_mut() {
+                for (child, idx) in children.into_iter().zip(sub_node_idxs) {
+                    match idx {
+                        Some(idx) => sub_nodes[idx as usize].children.push(child),
+                        None => self.stuck_children.push(child),
+                    }
                 }
             }
-            // Otherwise can simply push the point
-            None => self.children.push(datum),
         }
 
-        Ok(())
+        // We have sub-nodes here, so pass the new datum down the tree
+        // Also works for stuck nodes, will be pushed down as far as they can go
+        match (self.find_containing_sub_node(&datum)?, self.nodes.as_mut()) {
+            (Some(idx), Some(sub_nodes)) => sub_nodes[idx as usize].insert(datum),
+            _ => {
+                self.stuck_children.push(datum);
+                Ok(())
+            }
+        }
     }
 
     fn retrieve(&self, datum: &D) -> DatumIter<'_, BoundsNode<D, T>, D, T> {
@@ -167,6 +161,36 @@ where
     }
 }
 
+impl<D, T> BoundsNode<D, T>
+where
+    D: AsGeom<T>,
+    T: GeoNum,
+{
+    /// Find the sub-node that totally contains the datum. Is `None` if there is no such sub-node,
+    /// which makes the datum a stuck child of this node.
+    fn find_containing_sub_node(&self, datum: &D) -> Result<Option<SubNode>, Error> {
+        // Generate the bounding box for the geometry, which may fail
+        let bbox = datum
+            .as_geom()
+            .bounding_rect()
+            .ok_or(Error::CannotMakeBbox)?;
+
+        // Get the index of the datum - will be based on the datum's
+        // center point from its bounds
+        let idx = self.find_sub_node(datum).ok_or(Error::CannotFindSubNode)?;
+
+        // Check if the datum is totally contained by the sub-node
+        // If not, it is a stuck child, noting that contains includes
+        // bordering, see notes in rect_in_rect for why
+        let contained = self
+            .nodes
+            .as_ref()
+            .is_some_and(|nodes| rect_in_rect(nodes[idx as usize].bounds(), &bbox));
+
+        Ok(contained.then_some(idx))
+    }
+}
+
 impl<D, T> Display for BoundsNode<D, T>
 where
     D: AsGeom<T>,
diff --git a/src/quadtrees/point/node.rs b/src/quadtrees/point/node.rs
index a1d0738..18e0b4f 100644
--- a/src/quadtrees/point/node.rs
+++ b/src/quadtrees/point/node.rs
@@ -72,43 +72,39 @@ where
     }
 
     fn insert(&mut self, datum: D) -> Result<(), Error> {
-        // Take ownership of the sub-nodes before matching to enable the insertion
-        // This, apparently, is a very common pattern
-        // Works here because we replace the nodes at the end, and the None branch
-        // is unaffected. Overall a more ergonomic solution than the alterantive
-        // `let sub_nodes = self.nodes.as_mut().unwrap()`
-        match self.nodes.take() {
-            // If we have sub-nodes already, pass down the tree
-            Some(mut sub_nodes) => {
-                let sub_node_idx = self.find_sub_node(&datum).ok_or(Error::CannotFindSubNode)?;
-                sub_nodes[sub_node_idx as usize].insert(datum)?;
-
-                // Make sure to replace the nodes
-                self.nodes = Some(sub_nodes);
+        // The position of a datum comes from user code, which may panic, and finding a sub-node
+        // may fail. So always resolve it before changing anything, otherwise data that is already
+        // stored could be lost on the way
+        if self.nodes.is_none() {
+            // If there is room left, or we've exceeded the max depth, which takes priority over
+            // the children length, can simply push the point
+            if self.children.len() < self.max_children || self.depth >= self.max_depth {
+                self.children.push(datum);
+                return Ok(());
             }
-            // If there is no room left, subdivide and push all children down
-            // Subdivision does not happen if we've exceeded the max depth,
-            // which takes priority over the children length
-            None if self.children.len() >= self.max_children && !(self.depth >= self.max_depth) => {
-                self.subdivide();
-
-                // Replace the old children with a new empty vector
-                // and push the new point on last to preserve ordering
-                let mut children = std::mem::replace(&mut self.children, Vec::new());
-                children.push(datum);
-
-                // Now consume the original children vector
-                for pt in children {
-                    self.insert(pt)?;
+
+            // Otherwise subdivide and push all existing children down
+            let sub_node_idxs = self
+                .children
+                .iter()
+                .map(|child| self.find_sub_node(child).ok_or(Error::CannotFindSubNode))
+                .collect::<Result<Vec<_>, _>>()?;
+            let children = std::mem::take(&mut self.children);
+
+            self.subdivide();
+            if let Some(sub_nodes) = self.nodes.as_mut() {
+                for (child, idx) in children.into_iter().zip(sub_node_idxs) {
+                    sub_nodes[idx as usize].children.push(child);
                 }
             }
-            // Otherwise can simply push the point
-            None => {
-                self.children.push(datum);
-            }
         }
 
-        Ok(())
+        // We have sub-nodes here, so pass the new point down the tree
+        let sub_node_idx = self.find_sub_node(&datum).ok_or(Error::CannotFindSubNode)?;
+        match self.nodes.as_mut() {
+            Some(sub_nodes) => sub_nodes[sub_node_idx as usize].insert(datum),
+            None => Err(Error::CannotFindSubNode),
+        }
     }
 
     // Pulls all children within the node that would contain the passed point
-- 
2.43.0


From 5dbd05dcbe56fabe81193cde620f5bb13df7988b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 02/12] fix: planar distance between rects that overlap in one
 axis was negative

---
 src/geom/euclidean/math.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geom/euclidean/math.rs b/src/geom/euclidean/math.rs
index d395e7c..fd8a53b 100644
--- a/src/geom/euclidean/math.rs
+++ b/src/geom/euclidean/math.rs
@@ -13,10 +13,10 @@ where
     match (overlap_x, overlap_y) {
         // If there is any overlap, then the distance is zero
         (true, true) => T::zero(),
-        // When x overlaps, distance is the smallest y-difference,
-        // and similarly for y-overlaps
-        (true, false) => (r1.min().y - r2.max().y).min(r2.min().y - r1.max().y),
-        (false, true) => (r1.min().x - r2.max().x).min(r2.min().x - r1.max().x),
+        // When x overlaps, distance is the y-difference between the facing
+        // edges (the other one is negative), and similarly for y-overlaps
+        (true, false) => (r1.min().y - r2.max().y).max(r2.min().y - r1.max().y),
+        (false, true) => (r1.min().x - r2.max().x).max(r2.min().x - r1.max().x),
         // When neither overlaps, take the distance from closest corners
         (false, false) => {
             let (x1, x2) = if r1.max().x < r2.min().x {
-- 
2.43.0


From 04c1f94138ff6ea595d7f5c7947317e59d54a675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 03/12] fix: knn with k of zero returned one datum

---
 src/quadtrees/knn.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/quadtrees/knn.rs b/src/quadtrees/knn.rs
index c221608..41ef298 100644
--- a/src/quadtrees/knn.rs
+++ b/src/quadtrees/knn.rs
@@ -26,6 +26,11 @@ where
         return Err(Error::OutOfBounds);
     }
 
+    // No results to look for
+    if k == 0 {
+        return Ok(vec![]);
+    }
+
     // We work on a tuple that contains the distance plus an enum
     // containing either a child or a node, and start by seeding the root
     let mut work_stack = vec![(NodeType::Node(root), root_d)];
-- 
2.43.0


From 77c90f05c0aa245fb66fc574edf6efc296519dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 04/12] fix: find_r skipped nodes at a distance of exactly r,
 but data at r is inside the radius

---
 src/quadtrees/bounds/mod.rs | 2 +-
 src/quadtrees/point/mod.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quadtrees/bounds/mod.rs b/src/quadtrees/bounds/mod.rs
index 699e9ef..ad02e27 100644
--- a/src/quadtrees/bounds/mod.rs
+++ b/src/quadtrees/bounds/mod.rs
@@ -148,7 +148,7 @@ where
             // No need to check the children if the bounds are too far,
             // checking bounds is cheaper then checking each child
             let bounds_dist = cmp.dist_bbox(node.bounds())?;
-            if bounds_dist >= min_dist {
+            if bounds_dist > min_dist {
                 continue;
             }
 
diff --git a/src/quadtrees/point/mod.rs b/src/quadtrees/point/mod.rs
index 79f7c7a..2e92591 100644
--- a/src/quadtrees/point/mod.rs
+++ b/src/quadtrees/point/mod.rs
@@ -180,7 +180,7 @@ where
             // processed - skip processing if the edge of the node is further
             // than the current
             let bounds_dist = cmp.dist_bbox(node.bounds())?;
-            if bounds_dist >= min_dist {
+            if bounds_dist > min_dist {
                 continue;
             }
 
-- 
2.43.0


From 45ad545224891dc4a59f67144fab03e95377458c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 05/12] fix: haversine distance was NaN for some antipodes

---
 src/geom/spherical/math.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geom/spherical/math.rs b/src/geom/spherical/math.rs
index 47b36b1..7acd3e5 100644
--- a/src/geom/spherical/math.rs
+++ b/src/geom/spherical/math.rs
@@ -95,6 +95,9 @@ where
     let a = (delta_theta / two).sin().powi(2)
         + theta1.cos() * theta2.cos() * (delta_lambda / two).sin().powi(2);
 
+    // Rounding may take this just above one for antipodes, where asin would be NaN
+    let a = if a > T::one() { T::one() } else { a };
+
     two * a.sqrt().asin()
 }
 
-- 
2.43.0


From 6f1e9a008b254cba4d23e07a8f0966a072a4d1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:57 +0000
Subject: [PATCH 06/12] fix: a step of sorted recursed once per node it
 expanded, growing the stack with the data

---
 src/quadtrees/sorted.rs | 80 +++++++++++++++++++++--------------------
 1 file changed, 41 insertions(+), 39 deletions(-)

diff --git a/src/quadtrees/sorted.rs b/src/quadtrees/sorted.rs
index c11ed7c..6aa1f0b 100644
--- a/src/quadtrees/sorted.rs
+++ b/src/quadtrees/sorted.rs
@@ -25,58 +25,60 @@ where
     type Item = (&'a D, T);
 
     fn next(&mut self) -> Option<Self::Item> {
-        // 1. Sort the stack in distance-descending order
-        //    Only do this if the is_sorted flag is false
-        if !self.is_sorted {
-            self.stack.sort_unstable_by(|(_, d1), (_, d2)| {
-                d2.partial_cmp(d1)
-                    .expect("Unreachable, NaN distances already removed.")
-            });
-        }
-
-        // 2. Return early if the stack is empty
-        let (item, d) = self.stack.pop()?;
+        // Loop until there is something to return
+        loop {
+            // 1. Sort the stack in distance-descending order
+            //    Only do this if the is_sorted flag is false
+            if !self.is_sorted {
+                self.stack.sort_unstable_by(|(_, d1), (_, d2)| {
+                    d2.partial_cmp(d1)
+                        .expect("Unreachable, NaN distances already removed.")
+                });
+            }
 
-        // Now process the rest in a match
-        match item {
-            // 2. Process any children at the top of the stack
-            //    No need to re-sort as no pushing
-            NodeType::Child(child) => Some((child, d)),
+            // 2. Return early if the stack is empty
+            let (item, d) = self.stack.pop()?;
 
-            // 3. Push sub-nodes and children onto the stack
-            //    Set the flag to re-sort because new items hve been added
-            //    Then recurse because we have not returned anything
-            NodeType::Node(node) => {
-                for child in node.children() {
-                    if let Some(d) = self
-                        .cmp
-                        .dist_geom(&child.as_geom())
-                        .ok()
-                        .and_then(|d| d.is_finite().then_some(d))
-                    {
-                        self.stack.push((NodeType::Child(child), d));
-                    }
-                }
+            // Now process the rest in a match
+            match item {
+                // 2. Process any children at the top of the stack
+                //    No need to re-sort as no pushing
+                NodeType::Child(child) => return Some((child, d)),
 
-                if let Some(nodes) = node.nodes() {
-                    for sub_node in nodes.iter() {
+                // 3. Push sub-nodes and children onto the stack
+                //    Set the flag to re-sort because new items hve been added
+                //    Then loop because we have not returned anything
+                NodeType::Node(node) => {
+                    for child in node.children() {
                         if let Some(d) = self
                             .cmp
-                            .dist_bbox(sub_node.bounds())
+                            .dist_geom(&child.as_geom())
                             .ok()
                             .and_then(|d| d.is_finite().then_some(d))
                         {
-                            self.stack.push((NodeType::Node(sub_node), d));
+                            self.stack.push((NodeType::Child(child), d));
                         }
                     }
+
+                    if let Some(nodes) = node.nodes() {
+                        for sub_node in nodes.iter() {
+                            if let Some(d) = self
+                                .cmp
+                                .dist_bbox(sub_node.bounds())
+                                .ok()
+                                .and_then(|d| d.is_finite().then_some(d))
+                            {
+                                self.stack.push((NodeType::Node(sub_node), d));
+                            }
+                        }
+                    }
+
+                    self.is_sorted = false;
                 }
 
-                self.is_sorted = false;
-                self.next()
+                // This is PhantomData
+                NodeType::_NumType(_) => unreachable!(),
             }
-
-            // This is PhantomData
-            NodeType::_NumType(_) => unreachable!(),
         }
     }
 }
-- 
2.43.0


From d92ef2d9013d9123a2834945c7a41305b786c352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 07/12] fix: spherical bbox distances were no lower bound, so
 searches skipped nodes with closer data

---
 src/geom/mod.rs            |  6 ++-
 src/geom/spherical/math.rs | 82 ++++++++++++++++++++++++++------------
 2 files changed, 61 insertions(+), 27 deletions(-)

diff --git a/src/geom/mod.rs b/src/geom/mod.rs
index a3a4210..df0ae9c 100644
--- a/src/geom/mod.rs
+++ b/src/geom/mod.rs
@@ -72,7 +72,11 @@ where
         match self.method {
             CalcMethod::None => Err(Error::CalcMethodNotSet),
             CalcMethod::Euclidean => Ok(bbox.dist_euclidean(&self.geom)),
-            CalcMethod::Spherical => bbox.dist_haversine(&self.geom),
+            // The distance between rects is not a lower bound for the contents of the bbox
+            CalcMethod::Spherical => match &self.geom {
+                GeometryRef::Rect(rect) => Ok(spherical::math::dist_bbox_rect(bbox, rect)),
+                geom => bbox.dist_haversine(geom),
+            },
         }
     }
 }
diff --git a/src/geom/spherical/math.rs b/src/geom/spherical/math.rs
index 7acd3e5..8ceecf4 100644
--- a/src/geom/spherical/math.rs
+++ b/src/geom/spherical/math.rs
@@ -1,4 +1,4 @@
-use geo::{GeoFloat, Intersects, Line, LineString, Point, Polygon, Rect, coord};
+use geo::{GeoFloat, Intersects, Line, LineString, Point, Polygon, Rect};
 use std::f64::consts::PI;
 use std::ops::{Add, Sub};
 
@@ -11,13 +11,6 @@ macro_rules! p {
     };
 }
 
-/// Helper macro to make a line
-macro_rules! l {
-    ($x1:expr, $y1:expr, $x2:expr, $y2:expr) => {
-        Line::new(coord!(x: $x1, y: $y1), coord!(x: $x2, y: $y2))
-    };
-}
-
 /// Internal struct for ensuring Lng wrapping math works correctly.
 #[derive(Debug, Clone, Copy)]
 struct Lng<T>(T)
@@ -184,25 +177,34 @@ where
         return T::zero();
     }
 
-    // Take the "left" edge whenever the point is to the left of the rect and
-    // the right edge whenever its to the right of the rect. This works even
-    // when diagonal to these edges as in these cases the closest point is the
-    // corner, which is shared with the other candidate line.
-    let line = if x < rect.min().x {
-        // smallest x-value
-        l!(rect.min().x, rect.min().y, rect.min().x, rect.max().y)
-    } else if x > rect.max().x {
-        // largest x-value
-        l!(rect.max().x, rect.min().y, rect.max().x, rect.max().y)
-    } else if y < rect.min().y {
-        // smallest y-value
-        l!(rect.min().x, rect.min().y, rect.max().x, rect.min().y)
-    } else {
-        // largest y-value as final case
-        l!(rect.min().x, rect.max().y, rect.max().x, rect.max().y)
-    };
+    // Above or below the rect the meridian through the point is the shortest way
+    if x >= rect.min().x && x <= rect.max().x {
+        return (rect.min().y - y).max(y - rect.max().y);
+    }
+
+    // Otherwise the closest point is on one of the edges that run along a meridian. Have to look
+    // at both as lngs wrap, and crossing the antimeridian may be the shorter way
+    let d1 = dist_pt_meridian(pt, rect.min().x, rect.min().y, rect.max().y);
+    let d2 = dist_pt_meridian(pt, rect.max().x, rect.min().y, rect.max().y);
+    d1.min(d2)
+}
+
+/// Calculate the great circle distance between a [`Point`] and the section between latitudes `y1`
+/// and `y2` of the meridian at `lng`. A meridian is a great circle, so this is not an approximation.
+fn dist_pt_meridian<T>(pt: &Point<T>, lng: T, y1: T, y2: T) -> T
+where
+    T: GeoFloat,
+{
+    let (x, y) = pt.x_y();
+
+    // The latitude where the meridian is closest to the point
+    let lat = y.sin().atan2(y.cos() * (x - lng).cos());
 
-    dist_pt_line(pt, &line)
+    if lat > y1 && lat < y2 {
+        dist_pt_pt(pt, &p!(lng, lat))
+    } else {
+        dist_pt_pt(pt, &p!(lng, y1)).min(dist_pt_pt(pt, &p!(lng, y2)))
+    }
 }
 
 // Calculate Spherical bounds distances.
@@ -289,6 +291,34 @@ where
     }
 }
 
+/// Calculate a lower bound for the distance between anything inside of `bbox` and the [`Rect`],
+/// which [`dist_rect_rect`] is not, as it only considers some of the corners.
+///
+/// Inputs and outputs are in radians.
+pub(crate) fn dist_bbox_rect<T>(bbox: &Rect<T>, rect: &Rect<T>) -> T
+where
+    T: GeoFloat,
+{
+    // When lngs overlap then the difference in lats is the shortest way
+    if bbox.max().x >= rect.min().x && rect.max().x >= bbox.min().x {
+        let dy = (bbox.min().y - rect.max().y).max(rect.min().y - bbox.max().y);
+        return dy.max(T::zero());
+    }
+
+    // Otherwise the shortest way is between edges that run along a meridian, and starts or ends in
+    // a corner because meridians converge
+    let mut dist = T::infinity();
+    for (r1, r2) in [(bbox, rect), (rect, bbox)] {
+        for x in [r1.min().x, r1.max().x] {
+            for y in [r1.min().y, r1.max().y] {
+                dist = dist.min(dist_pt_rect(&p!(x, y), r2));
+            }
+        }
+    }
+
+    dist
+}
+
 /// Calculate the great circle distance between a [`Point`] and an arbitrary [`Polygon`] using the
 /// Haversine formula.
 ///
-- 
2.43.0


From db006e6b4dff95a24bf41e348fd90c75e444f23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 08/12] fix: find could return a datum at an infinite distance

---
 src/quadtrees/bounds/mod.rs | 3 ++-
 src/quadtrees/point/mod.rs  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/quadtrees/bounds/mod.rs b/src/quadtrees/bounds/mod.rs
index ad02e27..4b9ba1a 100644
--- a/src/quadtrees/bounds/mod.rs
+++ b/src/quadtrees/bounds/mod.rs
@@ -171,7 +171,8 @@ where
 
                 let child_dist = cmp.dist_geom(&child.as_geom())?;
                 // See notes in point about <= usage
-                if child_dist <= min_dist {
+                // An infinite distance is not a match, even without a radius
+                if child_dist <= min_dist && child_dist.is_finite() {
                     min_dist = child_dist;
                     min_item = Ok(child);
                 }
diff --git a/src/quadtrees/point/mod.rs b/src/quadtrees/point/mod.rs
index 2e92591..71600e3 100644
--- a/src/quadtrees/point/mod.rs
+++ b/src/quadtrees/point/mod.rs
@@ -192,7 +192,8 @@ where
                 // returned, but this also slightly changes which Datum will
                 // be returned if they are equal distances away. This is fine
                 // as we only promise to return an arbitrary closest Datum
-                if child_dist <= min_dist {
+                // An infinite distance is not a match, even without a radius
+                if child_dist <= min_dist && child_dist.is_finite() {
                     min_dist = child_dist;
                     min_item = Ok(child);
                 }
-- 
2.43.0


From 253da192f53b55e4344e685f42f9030abada43d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:28 +0000
Subject: [PATCH 09/12] fix: planar distance between a point and a tiny rect
 was too large, so searches skipped or misordered data in deep nodes

---
 src/geom/euclidean/dist.rs |  6 +++---
 src/geom/euclidean/math.rs | 22 +++++++++++++++++++++-
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/geom/euclidean/dist.rs b/src/geom/euclidean/dist.rs
index 4ed7584..9406111 100644
--- a/src/geom/euclidean/dist.rs
+++ b/src/geom/euclidean/dist.rs
@@ -1,6 +1,6 @@
 use geo::{Distance, Euclidean, Line, LineString, Point, Polygon, Rect};
 
-use super::math::dist_rect_rect;
+use super::math::{dist_pt_rect, dist_rect_rect};
 use crate::{AsGeom, Geometry, GeometryRef, geom::QtFloat};
 
 /// Trait applied to all valid geometries to calculate the Euclidean distance
@@ -25,7 +25,7 @@ where
             &GeometryRef::Line(d) => Euclidean::distance(self, d),
             &GeometryRef::LineString(d) => Euclidean::distance(self, d),
             &GeometryRef::Polygon(d) => Euclidean::distance(self, d),
-            &GeometryRef::Rect(d) => Euclidean::distance(self, &d.to_polygon()),
+            &GeometryRef::Rect(d) => dist_pt_rect(self, d),
         }
     }
 }
@@ -117,7 +117,7 @@ where
 {
     fn dist_euclidean(&self, rhs: &GeometryRef<T>) -> T {
         match rhs {
-            &GeometryRef::Point(d) => Euclidean::distance(&self.to_polygon(), d),
+            &GeometryRef::Point(d) => dist_pt_rect(d, self),
             &GeometryRef::Line(d) => Euclidean::distance(&self.to_polygon(), d),
             &GeometryRef::LineString(d) => Euclidean::distance(&self.to_polygon(), d),
             &GeometryRef::Polygon(d) => Euclidean::distance(&self.to_polygon(), d),
diff --git a/src/geom/euclidean/math.rs b/src/geom/euclidean/math.rs
index fd8a53b..779ee6f 100644
--- a/src/geom/euclidean/math.rs
+++ b/src/geom/euclidean/math.rs
@@ -1,4 +1,4 @@
-use geo::{Distance, Euclidean, Rect, coord};
+use geo::{Distance, Euclidean, Point, Rect, coord};
 
 use crate::geom::QtFloat;
 
@@ -35,6 +35,26 @@ where
     }
 }
 
+/// Calculate the euclidean distance between a [`Point`] and a [`Rect`]. Every step is a comparison
+/// or a difference of coordinates, so that this holds for a rect of any size: the polygon of a
+/// very small one has edges whose squared length underflows.
+pub fn dist_pt_rect<T>(pt: &Point<T>, rect: &Rect<T>) -> T
+where
+    T: QtFloat,
+{
+    // The nearest position in the rect, NaN when a coordinate cannot be compared
+    let clamp = |v: T, min: T, max: T| match v {
+        v if v < min => min,
+        v if v > max => max,
+        v if v >= min && v <= max => v,
+        _ => T::nan(),
+    };
+    let x = clamp(pt.x(), rect.min().x, rect.max().x);
+    let y = clamp(pt.y(), rect.min().y, rect.max().y);
+
+    Euclidean::distance(pt.0, coord!(x: x, y: y))
+}
+
 #[cfg(test)]
 mod tests {
     // TODO: Write tests for rect-rect dist
-- 
2.43.0


From 1e04e211cf65113e174a27cce85f62aaa8a1fa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:06 +0000
Subject: [PATCH 10/12] fix: planar distances between a tiny rect and a line,
 linestring or polygon could panic or be wrong

---
 src/geom/euclidean/dist.rs | 14 +++++-----
 src/geom/euclidean/math.rs | 57 +++++++++++++++++++++++++++++++++++++-
 2 files changed, 63 insertions(+), 8 deletions(-)

diff --git a/src/geom/euclidean/dist.rs b/src/geom/euclidean/dist.rs
index 9406111..651a312 100644
--- a/src/geom/euclidean/dist.rs
+++ b/src/geom/euclidean/dist.rs
@@ -1,6 +1,6 @@
 use geo::{Distance, Euclidean, Line, LineString, Point, Polygon, Rect};
 
-use super::math::{dist_pt_rect, dist_rect_rect};
+use super::math::{dist_line_rect, dist_ls_rect, dist_poly_rect, dist_pt_rect, dist_rect_rect};
 use crate::{AsGeom, Geometry, GeometryRef, geom::QtFloat};
 
 /// Trait applied to all valid geometries to calculate the Euclidean distance
@@ -49,7 +49,7 @@ where
             &GeometryRef::Line(d) => Euclidean::distance(self, d),
             &GeometryRef::LineString(d) => Euclidean::distance(self, d),
             &GeometryRef::Polygon(d) => Euclidean::distance(self, d),
-            &GeometryRef::Rect(d) => Euclidean::distance(self, &d.to_polygon()),
+            &GeometryRef::Rect(d) => dist_line_rect(self, d),
         }
     }
 }
@@ -73,7 +73,7 @@ where
             &GeometryRef::Line(d) => Euclidean::distance(self, d),
             &GeometryRef::LineString(d) => Euclidean::distance(self, d),
             &GeometryRef::Polygon(d) => Euclidean::distance(self, d),
-            &GeometryRef::Rect(d) => Euclidean::distance(self, &d.to_polygon()),
+            &GeometryRef::Rect(d) => dist_ls_rect(self, d),
         }
     }
 }
@@ -97,7 +97,7 @@ where
             &GeometryRef::Line(d) => Euclidean::distance(self, d),
             &GeometryRef::LineString(d) => Euclidean::distance(self, d),
             &GeometryRef::Polygon(d) => Euclidean::distance(self, d),
-            &GeometryRef::Rect(d) => Euclidean::distance(self, &d.to_polygon()),
+            &GeometryRef::Rect(d) => dist_poly_rect(self, d),
         }
     }
 }
@@ -118,9 +118,9 @@ where
     fn dist_euclidean(&self, rhs: &GeometryRef<T>) -> T {
         match rhs {
             &GeometryRef::Point(d) => dist_pt_rect(d, self),
-            &GeometryRef::Line(d) => Euclidean::distance(&self.to_polygon(), d),
-            &GeometryRef::LineString(d) => Euclidean::distance(&self.to_polygon(), d),
-            &GeometryRef::Polygon(d) => Euclidean::distance(&self.to_polygon(), d),
+            &GeometryRef::Line(d) => dist_line_rect(d, self),
+            &GeometryRef::LineString(d) => dist_ls_rect(d, self),
+            &GeometryRef::Polygon(d) => dist_poly_rect(d, self),
             &GeometryRef::Rect(d) => dist_rect_rect(self, d),
         }
     }
diff --git a/src/geom/euclidean/math.rs b/src/geom/euclidean/math.rs
index 779ee6f..66e9550 100644
--- a/src/geom/euclidean/math.rs
+++ b/src/geom/euclidean/math.rs
@@ -1,4 +1,4 @@
-use geo::{Distance, Euclidean, Point, Rect, coord};
+use geo::{Distance, Euclidean, Intersects, Line, LineString, Point, Polygon, Rect, coord};
 
 use crate::geom::QtFloat;
 
@@ -55,6 +55,61 @@ where
     Euclidean::distance(pt.0, coord!(x: x, y: y))
 }
 
+/// Calculate the euclidean distance between a [`Line`] and a [`Rect`].
+pub fn dist_line_rect<T>(line: &Line<T>, rect: &Rect<T>) -> T
+where
+    T: QtFloat,
+{
+    if rect.intersects(line) {
+        return T::zero();
+    }
+
+    // Apart from each other, the closest position is at an end of the line or a corner of the rect
+    let (min, max) = (rect.min(), rect.max());
+    let corners = [
+        Point::new(min.x, min.y),
+        Point::new(max.x, min.y),
+        Point::new(max.x, max.y),
+        Point::new(min.x, max.y),
+    ];
+    let dist_ends =
+        dist_pt_rect(&line.start_point(), rect).min(dist_pt_rect(&line.end_point(), rect));
+
+    corners.iter().fold(dist_ends, |dist, corner| {
+        dist.min(Euclidean::distance(corner, line))
+    })
+}
+
+/// Calculate the euclidean distance between a [`LineString`] and a [`Rect`].
+pub fn dist_ls_rect<T>(ls: &LineString<T>, rect: &Rect<T>) -> T
+where
+    T: QtFloat,
+{
+    let first = ls
+        .points()
+        .next()
+        .map_or(T::infinity(), |pt| dist_pt_rect(&pt, rect));
+
+    ls.lines()
+        .fold(first, |dist, line| dist.min(dist_line_rect(&line, rect)))
+}
+
+/// Calculate the euclidean distance between a [`Polygon`] and a [`Rect`].
+pub fn dist_poly_rect<T>(poly: &Polygon<T>, rect: &Rect<T>) -> T
+where
+    T: QtFloat,
+{
+    if poly.intersects(rect) {
+        return T::zero();
+    }
+
+    poly.interiors()
+        .iter()
+        .fold(dist_ls_rect(poly.exterior(), rect), |dist, ring| {
+            dist.min(dist_ls_rect(ring, rect))
+        })
+}
+
 #[cfg(test)]
 mod tests {
     // TODO: Write tests for rect-rect dist
-- 
2.43.0


From 70bab5f2622d01cf51055e14ee6f88e1b1e5f222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:16 +0000
Subject: [PATCH 11/12] fix: bounds wider than the number type can express

Rect::width and Rect::height overflow for bounds like i32::MIN..i32::MAX, so
inserts panicked, or divided a node into sub-nodes without any extent. Halve
before subtracting where a rectangle reaches across the origin.
---
 src/geom/math.rs             | 26 ++++++++++++++++++++++++++
 src/node.rs                  | 11 +++++------
 src/quadtrees/bounds/node.rs |  6 +++---
 3 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/geom/math.rs b/src/geom/math.rs
index ccb9d3f..3c612ae 100644
--- a/src/geom/math.rs
+++ b/src/geom/math.rs
@@ -36,3 +36,29 @@ where
         && r1.min().y <= r2.min().y
         && r1.max().y >= r2.max().y
 }
+
+/// Half the width and half the height of a rectangle.
+///
+/// This is the same as halving `Rect::width` and `Rect::height`, except that
+/// those overflow when the rectangle reaches across the origin and is wider
+/// than the number type can express. So each side is halved first in this case.
+pub(crate) fn half_size<T>(rect: &Rect<T>) -> (T, T)
+where
+    T: GeoNum,
+{
+    let two = T::one() + T::one();
+    let half = |min: T, max: T| {
+        if min < T::zero() && max >= T::zero() {
+            // Integer division drops a remainder on both sides, which add up
+            let (a, b) = (min / two, max / two);
+            b - a + ((max - b * two) - (min - a * two)) / two
+        } else {
+            (max - min) / two
+        }
+    };
+
+    let (x1, y1) = rect.min().x_y();
+    let (x2, y2) = rect.max().x_y();
+
+    (half(x1, x2), half(y1, y2))
+}
diff --git a/src/node.rs b/src/node.rs
index 8a3a0bc..cd344d0 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -4,6 +4,7 @@ use std::marker::PhantomData;
 use geo::{Coord, GeoNum, Rect, coord};
 
 use crate::Error;
+use crate::geom::half_size;
 use crate::iter::{DatumIter, DescendantIter};
 
 /// Sub-node indicies.
@@ -96,9 +97,9 @@ where
     fn find_sub_node(&self, datum: &D) -> Option<SubNode> {
         let (x, y) = Self::datum_position(datum)?.x_y();
         let b = self.bounds();
-        let two = T::one() + T::one();
-        let left = x <= b.min().x + b.width() / two;
-        let top = y <= b.min().y + b.height() / two;
+        let (wh, hh) = half_size(b);
+        let left = x <= b.min().x + wh;
+        let top = y <= b.min().y + hh;
 
         let sn = if left && top {
             SubNode::TopLeft
@@ -121,9 +122,7 @@ where
         let md = self.max_depth();
         let mc = self.max_children();
 
-        let two = T::one() + T::one();
-        let wh = bounds.width() / two;
-        let hh = bounds.height() / two;
+        let (wh, hh) = half_size(bounds);
 
         let (x1, y1) = bounds.min().x_y();
         let (x2, y2) = (x1 + wh, y1 + hh);
diff --git a/src/quadtrees/bounds/node.rs b/src/quadtrees/bounds/node.rs
index f972ff3..593735a 100644
--- a/src/quadtrees/bounds/node.rs
+++ b/src/quadtrees/bounds/node.rs
@@ -42,11 +42,11 @@ where
     fn datum_position(datum: &D) -> Option<Coord<T>> {
         let bbox = datum.as_geom().bounding_rect()?;
         let (x, y) = bbox.min().x_y();
-        let two = T::one() + T::one();
+        let (wh, hh) = half_size(&bbox);
 
         Some(Coord {
-            x: x + bbox.width() / two,
-            y: y + bbox.height() / two,
+            x: x + wh,
+            y: y + hh,
         })
     }
 
-- 
2.43.0


From 3ffe59cb42dfd86a643f6f33e5ea25dc13f8c72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:16 +0000
Subject: [PATCH 12/12] fix: knn_r took a NaN radius for no limit, now nothing
 is within it

---
 src/quadtrees/knn.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quadtrees/knn.rs b/src/quadtrees/knn.rs
index 41ef298..c070aea 100644
--- a/src/quadtrees/knn.rs
+++ b/src/quadtrees/knn.rs
@@ -26,8 +26,8 @@ where
         return Err(Error::OutOfBounds);
     }
 
-    // No results to look for
-    if k == 0 {
+    // No results to look for: nothing is within a radius of NaN
+    if k == 0 || r.is_nan() {
         return Ok(vec![]);
     }
 
-- 
2.43.0

