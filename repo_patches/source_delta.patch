From c0005f6c4640247825413a355c3fc26b1c7b66c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:19 +0000
Subject: [PATCH 01/32] fix: removing an isolated node no longer panics

---
 src/graph/planar_graph.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index de363e8..589db43 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -438,7 +438,12 @@ where
 
             // Keep track of the index of the "leftmost" node / edge to-be-deleted
             let min_node_index = marked_nodes.iter().cloned().min().unwrap();
-            let min_edge_index = marked_edges.iter().cloned().min().unwrap();
+            // (an isolated node has no incident edges, in which case no edge changes)
+            let min_edge_index = marked_edges
+                .iter()
+                .cloned()
+                .min()
+                .unwrap_or(self.edge_count());
 
             // All nodes / edges that are to the "right" of the indices calculated above will change
             let changed_nodes = (min_node_index..self.node_count()).collect::<Vec<_>>();
-- 
2.43.0


From bef4dbd3cdc99a610ae4745546db1df21b968eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:19 +0000
Subject: [PATCH 02/32] fix: removing the edge in the last slot no longer
 panics

---
 src/graph/planar_graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index 589db43..e3be2f1 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -396,8 +396,8 @@ where
                 // Make sure to do this BEFORE the call to `pop()`, which changes the array length
                 changed_edges.push(self.edge_count() - 1);
 
-                let last = self.edges.pop().expect("This should never happen");
-                self.edges[id] = last;
+                // Moves the last edge into the vacated slot (unless it is the one being removed)
+                self.edges.swap_remove(id);
             }
 
             // No nodes should ever be affected by this procedure if we've reached this point
-- 
2.43.0


From 3be3c74ae80eddbd0a945eab671b8e0f84cea267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:19 +0000
Subject: [PATCH 03/32] fix: has_node_at_index / has_edge_at_index are true for
 index 0

---
 src/graph/planar_graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index e3be2f1..eaf53f6 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -137,11 +137,11 @@ where
     }
 
     pub fn has_node_at_index(&self, id: NodeIndex) -> bool {
-        id > 0 && id < self.nodes.len()
+        id < self.nodes.len()
     }
 
     pub fn has_edge_at_index(&self, id: EdgeIndex) -> bool {
-        id > 0 && id < self.edges.len()
+        id < self.edges.len()
     }
 
     /// Returns `true` if an edge exists between 2 nodes with indices `a` and `b` and `false` otherwise.
-- 
2.43.0


From df9cb39b86d80c0f7ce431270351362f59d0be0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:19 +0000
Subject: [PATCH 04/32] fix: unique_points_among keeps one of several
 coincident points

---
 src/geometry/utils.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index 85d57ad..5160be6 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -172,14 +172,14 @@ pub fn close_to(a: &Vec2, b: &Vec2) -> bool {
 pub fn unique_points_among(ps: &Vec<Vec2>) -> Vec<Vec2> {
     let mut unique = vec![];
 
-    for (i, a) in ps.iter().enumerate() {
+    for a in ps.iter() {
         // Assume that this point `a` is unique
         let mut is_unique = true;
 
-        // Iterate through all other points and check if `a` ~= `b` (taking care not
-        // to compare `a` with itself in the inner for-loop)
-        for (j, b) in ps.iter().enumerate() {
-            if i != j && close_to(a, b) {
+        // Iterate through all of the points that were already kept and check if `a` ~= `b`
+        // (so that the first of several coincident points is the one that is kept)
+        for b in unique.iter() {
+            if close_to(a, b) {
                 is_unique = false;
                 break;
             }
-- 
2.43.0


From bd52be40412ac1676d0b21c4b0622da8f8007960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:07 +0000
Subject: [PATCH 05/32] fix: is_on_line_segment and close_to tolerate rounding
 at any scale and honor include_endpoints

---
 src/geometry/utils.rs | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index 5160be6..f71544b 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -117,19 +117,32 @@ pub fn calculate_perpendicular_bisector(a: &Vec2, b: &Vec2, offset: f32) -> (Vec
     (midpoint, second)
 }
 
+/// The distance below which points with coordinates as large as those of `ps` are considered to
+/// be the same: a small multiple of the rounding error at that magnitude.
+fn tolerance(ps: &[&Vec2]) -> f32 {
+    let magnitude = ps
+        .iter()
+        .fold(0.0f32, |m, p| m.max(p.x.abs()).max(p.y.abs()));
+
+    nalgebra_glm::epsilon::<f32>() * (64.0 * magnitude).max(1.0)
+}
+
 /// Checks if the specified point `p` lies along the line segment `ab`.
 pub fn is_on_line_segment(a: &Vec2, b: &Vec2, p: &Vec2, include_endpoints: bool) -> bool {
-    // The total length of the line segment
-    let ab = nalgebra_glm::distance(a, b);
+    // The specified point is one of the endpoints of the line segment
+    if close_to(a, p) || close_to(p, b) {
+        return include_endpoints;
+    }
 
-    // The lengths of the two sub-segments joining each endpoint to the specified point
-    let ap = nalgebra_glm::distance(a, p);
-    let pb = nalgebra_glm::distance(p, b);
+    let ab = b - a;
+    let ap = p - a;
+    let pb = b - p;
 
-    // Return `false` if the specified point is one of the endpoints of the line segment
-    ((ap + pb) - ab).abs() < nalgebra_glm::epsilon()
-        && ap.abs() > nalgebra_glm::epsilon()
-        && pb.abs() > nalgebra_glm::epsilon()
+    // The distance from the point to the line is (within rounding) 0, and its projection falls
+    // between the two endpoints
+    (ab.x * ap.y - ab.y * ap.x).abs() <= tolerance(&[a, b, p]) * nalgebra_glm::length(&ab)
+        && nalgebra_glm::dot(&ab, &ap) > 0.0
+        && nalgebra_glm::dot(&ab, &pb) > 0.0
 }
 
 /// Finds the index of the vertex that is closest to the specified target vertex `t` among a set of
@@ -165,7 +178,7 @@ pub fn find_closest_to(t: &Vec2, points: &Vec<Vec2>) -> (usize, f32) {
 
 /// Determines whether the specified points are "close to" each other, i.e. the same.
 pub fn close_to(a: &Vec2, b: &Vec2) -> bool {
-    nalgebra_glm::distance(a, b) <= nalgebra_glm::epsilon()
+    nalgebra_glm::distance(a, b) <= tolerance(&[a, b])
 }
 
 /// Calculates the (sub)set of "unique" points from an input set, within epsilon.
-- 
2.43.0


From c3f995b7105c0061b11b524c3aed60b7b782423c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:07 +0000
Subject: [PATCH 06/32] fix: coincident nodes are recognized at any coordinate
 scale

---
 src/graph/planar_graph.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index eaf53f6..14c223b 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -179,9 +179,10 @@ where
     /// 2. A list containing the indices of all of the edges that changed as a result of adding the new node
     pub fn add_node(&mut self, position: &Vec2, data: T) -> (NodeIndex, Vec<EdgeIndex>) {
         // Check if the vertex is the same as an existing vertex (within epsilon)
-        let (index, distance) = utils::find_closest_to(position, &self.gather_node_positions());
+        let positions = self.gather_node_positions();
+        let (index, _) = utils::find_closest_to(position, &positions);
 
-        if distance < nalgebra_glm::epsilon() {
+        if index < positions.len() && utils::close_to(position, &positions[index]) {
             // If the found distance is less than the specified threshold, the specified
             // node is considered a "duplicate," so we return the index of the existing
             // node and an empty array (since by definition, no edges were modified)
@@ -346,10 +347,10 @@ where
             // to split any offending edges along the existing node and continue - otherwise, the
             // point of intersection should be considered a new node, so we add it and split along
             // any edges, as necessary
-            let (index, distance) =
-                utils::find_closest_to(intersection, &self.gather_node_positions());
+            let positions = self.gather_node_positions();
+            let (index, _) = utils::find_closest_to(intersection, &positions);
 
-            if distance < nalgebra_glm::epsilon() {
+            if utils::close_to(intersection, &positions[index]) {
                 println!("Point of intersection coincides with an existing node");
                 changed_edges.extend(&self.split_edges_at_node(index));
             } else {
-- 
2.43.0


From 7618b19156ecd940e4e0c8d6580dd8e8a2d6d7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:07 +0000
Subject: [PATCH 07/32] fix: an edge drawn through existing nodes is split
 there instead of overlapping

---
 src/graph/planar_graph.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index 14c223b..8eb550d 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -212,6 +212,33 @@ where
         if !self.has_edge_between_nodes(src, dst) {
             // Make sure `src` and `dst` vertices actually exist
             if let (Some(_), Some(_)) = (self.get_vertex(src), self.get_vertex(dst)) {
+                // If the new edge runs through existing nodes, add it one piece at a time instead, so
+                // that it ends at those nodes and doesn't overlap any of the existing edges
+                let a = self.nodes[src].position;
+                let b = self.nodes[dst].position;
+                let mut stops = (0..self.node_count())
+                    .filter(|&id| {
+                        utils::is_on_line_segment(&a, &b, &self.nodes[id].position, false)
+                    })
+                    .map(|id| (id, nalgebra_glm::distance(&a, &self.nodes[id].position)))
+                    .collect::<Vec<_>>();
+
+                if !stops.is_empty() {
+                    stops.sort_by(|x, y| x.1.partial_cmp(&y.1).expect("Tried to compare a NaN"));
+
+                    let mut changed_nodes = vec![];
+                    let mut changed_edges = vec![];
+                    let mut from = src;
+                    for to in stops.iter().map(|stop| stop.0).chain(Some(dst)) {
+                        let (nodes, edges) = self.add_edge(from, to, data)?;
+                        changed_nodes.extend(&nodes);
+                        changed_edges.extend(&edges);
+                        from = to;
+                    }
+
+                    return Ok((changed_nodes, changed_edges));
+                }
+
                 // First, push back the new edge
                 self.edges.push(Edge::new(src, dst, data, DEFAULT_LABEL));
 
-- 
2.43.0


From cdc0044a7cb6dcae6059a0e9750bc48f05ed9c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:07 +0000
Subject: [PATCH 08/32] fix: add_edge ignores an edge from a node to itself

---
 src/graph/planar_graph.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index 8eb550d..2314830 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -212,6 +212,11 @@ where
         if !self.has_edge_between_nodes(src, dst) {
             // Make sure `src` and `dst` vertices actually exist
             if let (Some(_), Some(_)) = (self.get_vertex(src), self.get_vertex(dst)) {
+                // An edge from a node to itself has no extent, so there is nothing to add
+                if src == dst {
+                    return Ok((vec![], vec![]));
+                }
+
                 // If the new edge runs through existing nodes, add it one piece at a time instead, so
                 // that it ends at those nodes and doesn't overlap any of the existing edges
                 let a = self.nodes[src].position;
-- 
2.43.0


From 45c9caeeccfe79ea52abc39c3fb7e0226a5af2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:07 +0000
Subject: [PATCH 09/32] fix: calculate_line_intersection treats its arguments
 as infinite lines, as documented

---
 src/geometry/utils.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index f71544b..8fbbad9 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -214,11 +214,6 @@ pub fn calculate_line_intersection(a: &Vec2, b: &Vec2, c: &Vec2, d: &Vec2) -> Op
 
     if determinant.abs() > nalgebra_glm::epsilon() {
         let u_a = ((d.x - c.x) * (a.y - c.y) - (d.y - c.y) * (a.x - c.x)) / determinant;
-        let u_b = ((b.x - a.x) * (a.y - c.y) - (b.y - a.y) * (a.x - c.x)) / determinant;
-
-        if !((0.0 <= u_a && u_a <= 1.0) && (0.0 <= u_b && u_b <= 1.0)) {
-            return None;
-        }
 
         let x = a.x + u_a * (b.x - a.x);
         let y = a.y + u_a * (b.y - a.y);
-- 
2.43.0


From a5a23b5ba4235e43a7737143c670726eb2a900ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:07 +0000
Subject: [PATCH 10/32] fix: calculate_line_intersection compares the
 determinant at the scale of its arguments

---
 src/geometry/utils.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index 8fbbad9..38f1fab 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -212,7 +212,10 @@ pub fn unique_points_among(ps: &Vec<Vec2>) -> Vec<Vec2> {
 pub fn calculate_line_intersection(a: &Vec2, b: &Vec2, c: &Vec2, d: &Vec2) -> Option<Vec2> {
     let determinant = (d.y - c.y) * (b.x - a.x) - (d.x - c.x) * (b.y - a.y);
 
-    if determinant.abs() > nalgebra_glm::epsilon() {
+    // The determinant is proportional to the lengths of both segments
+    let scale = nalgebra_glm::distance(a, b) * nalgebra_glm::distance(c, d);
+
+    if determinant.abs() > nalgebra_glm::epsilon::<f32>() * scale {
         let u_a = ((d.x - c.x) * (a.y - c.y) - (d.y - c.y) * (a.x - c.x)) / determinant;
 
         let x = a.x + u_a * (b.x - a.x);
-- 
2.43.0


From 5005a95f667df159f6967b9c06310c041a2a49c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:07 +0000
Subject: [PATCH 11/32] fix: calculate_perpendicular_bisector handles
 horizontal segments and honors the offset distance

---
 src/geometry/utils.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index 38f1fab..0ca78f9 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -102,17 +102,9 @@ pub fn calculate_perpendicular_bisector(a: &Vec2, b: &Vec2, offset: f32) -> (Vec
     // First, calculate the midpoint of the line segment from `a` to `b`
     let midpoint = calculate_midpoint(a, b);
 
-    // Then, calculate the slope of the line segment and the slope of the perpendicular
-    let slope = (b.y - a.y) / (b.x - a.x);
-    let slope_perpendicular = -1.0 / slope;
-    let intercept = midpoint.y - slope_perpendicular * midpoint.x;
-
-    // Add a small offset in the x-direction (this is arbitrary)
-    let offset_point = midpoint + Vec2::new(offset, 0.0);
-    let second = Vec2::new(
-        offset_point.x,
-        offset_point.x * slope_perpendicular + intercept,
-    );
+    // Then, calculate the (unit) direction perpendicular to the line segment
+    let perpendicular = nalgebra_glm::normalize(&Vec2::new(b.y - a.y, a.x - b.x));
+    let second = midpoint + perpendicular * offset;
 
     (midpoint, second)
 }
-- 
2.43.0


From 4e79640edcdf6793b48e384269a2dc5893d5c091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:07 +0000
Subject: [PATCH 12/32] fix: parallel no longer misses parallel segments
 because of rounding

---
 src/geometry/utils.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index 0ca78f9..60afbe5 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -6,11 +6,11 @@ pub fn parallel(a: &Vec2, b: &Vec2, c: &Vec2, d: &Vec2) -> bool {
     let dir_ab = b - a;
     let dir_cd = d - c;
 
-    // If AB and CD are nearly parallel, this will be either -1 or 1, so we take
-    // the absolute value
-    let abs_dot = nalgebra_glm::normalize_dot(&dir_ab, &dir_cd).abs();
+    // If AB and CD are nearly parallel, the sine of the angle between them will be (nearly) 0
+    let cross = dir_ab.x * dir_cd.y - dir_ab.y * dir_cd.x;
+    let sine = cross / (nalgebra_glm::length(&dir_ab) * nalgebra_glm::length(&dir_cd));
 
-    if (abs_dot - 1.0).abs() < nalgebra_glm::epsilon() {
+    if sine.abs() < 4.0 * nalgebra_glm::epsilon::<f32>() {
         return true;
     }
 
-- 
2.43.0


From d8b9feff67063bf5f0df5f5c59581ff4ceb2d128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:08 +0000
Subject: [PATCH 13/32] fix: is_degenerate_triangle no longer misses collinear
 triangles because of rounding

---
 src/geometry/utils.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index 60afbe5..6801460 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -23,9 +23,15 @@ pub fn is_degenerate_triangle(a: &Vec2, b: &Vec2, c: &Vec2) -> bool {
     let side_b = nalgebra_glm::distance(a, c);
     let side_c = nalgebra_glm::distance(a, b);
 
+    // How far rounding may push the sum of two sides away from the third
+    let slack = 4.0 * nalgebra_glm::epsilon::<f32>() * (side_a + side_b + side_c);
+
     // Triangle inequality: could also sort `{A, B, C}` and simply check if `(A + B) <= C`,
     // but this is more readable for now
-    if (side_a + side_b) <= side_c || (side_a + side_c) <= side_b || (side_b + side_c) <= side_a {
+    if (side_a + side_b) <= side_c + slack
+        || (side_a + side_c) <= side_b + slack
+        || (side_b + side_c) <= side_a + slack
+    {
         return true;
     }
 
-- 
2.43.0


From bf641db34ea233901f0001167993c941b9995905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:08 +0000
Subject: [PATCH 14/32] fix: number_of_basis_blades handles grade 0 and grades
 above the dimension

---
 src/math/blade.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/math/blade.rs b/src/math/blade.rs
index 44a73b0..8552a28 100644
--- a/src/math/blade.rs
+++ b/src/math/blade.rs
@@ -51,8 +51,8 @@ pub fn total_number_of_basis_blades(dim: usize) -> usize {
 
 /// Compute `n` factorial.
 fn factorial(n: usize) -> usize {
-    let mut fact = n;
-    for i in 2..n {
+    let mut fact = 1;
+    for i in 2..=n {
         fact *= i;
     }
     return fact;
@@ -61,8 +61,11 @@ fn factorial(n: usize) -> usize {
 /// Compute `n` choose `k`, i.e. the binomial coefficient corresponding to
 /// the parameters `n` and `k`.
 fn binomial_coefficient(n: usize, k: usize) -> usize {
-    let mut num = n;
-    for i in 1..k {
+    if k > n {
+        return 0;
+    }
+    let mut num = 1;
+    for i in 0..k {
         num *= n - i;
     }
     return num / factorial(k);
-- 
2.43.0


From 64e58a00d8d2357f5132516ae928cf6377a47825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:08 +0000
Subject: [PATCH 15/32] fix: the angle between (anti)parallel vectors is no
 longer NaN

---
 src/math/vector.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math/vector.rs b/src/math/vector.rs
index de31a5f..0512b37 100644
--- a/src/math/vector.rs
+++ b/src/math/vector.rs
@@ -137,7 +137,8 @@ where
     pub fn angle(self, rhs: Self) -> T {
         let u_norm = self.normalize();
         let v_norm = rhs.normalize();
-        u_norm.dot(v_norm).acos()
+        // Rounding may push the cosine slightly outside of [-1, 1], where `acos` is undefined
+        u_norm.dot(v_norm).max(-T::one()).min(T::one()).acos()
     }
 }
 
-- 
2.43.0


From b2f04711f27a7c9c731f3b0b4233e176b1b20def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:08 +0000
Subject: [PATCH 16/32] fix: from_vectors rotates by the angle between vectors
 of any length

---
 src/math/rotor.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/math/rotor.rs b/src/math/rotor.rs
index 874d7de..8e27189 100644
--- a/src/math/rotor.rs
+++ b/src/math/rotor.rs
@@ -69,6 +69,9 @@ where
         // In most of the literature, the left-hand multiplier `vu` corresponds to
         // the rotor `R`, whereas the right-hand multiplier `uv` corresponds to the
         // inverse rotor, `R†` (we want to construct `R`)
+        //
+        // Adding 1 only halves the angle if both vectors have unit length
+        let (u, v) = (u.normalize(), v.normalize());
         let scalar = T::one() + v.dot(u);
         let bivector = v.wedge(u);
 
-- 
2.43.0


From c99886b0268bd219302202b95a1ffa74b0e5f0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:08 +0000
Subject: [PATCH 17/32] fix: exported files use the key names that are read
 back on import

---
 src/fold/fold.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fold/fold.rs b/src/fold/fold.rs
index ca9caa1..2f5aa51 100644
--- a/src/fold/fold.rs
+++ b/src/fold/fold.rs
@@ -91,7 +91,7 @@ pub struct Fold {
     pub edges_assignment: Vec<String>,
 
     /// For each edge, the fold angle (deviation from flatness) along each edge of the pattern
-    #[serde(default, rename(deserialize = "edges_foldAngles"))]
+    #[serde(default, rename = "edges_foldAngles")]
     pub edges_foldangles: Vec<f32>,
 
     /// For each edge, the length of the edge (a number)
@@ -111,11 +111,11 @@ pub struct Fold {
     /// Layer information
 
     /// An array of triples [f, g, s] where f and g are face IDs and s is an integer between −1 and 1
-    #[serde(default, rename(deserialize = "faceOrders"))]
+    #[serde(default, rename = "faceOrders")]
     pub faceorders: Vec<[i32; 3]>,
 
     /// An array of triples [e, f, s] where e and f are edge IDs and s is an integer between −1 and 1
-    #[serde(default, rename(deserialize = "edgeOrders"))]
+    #[serde(default, rename = "edgeOrders")]
     pub edgeorders: Vec<[i32; 3]>,
 }
 
-- 
2.43.0


From fdae6f1d16ec9870b4b5ebb26612f165cb4adae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:08 +0000
Subject: [PATCH 18/32] fix: malformed .fold files are reported as an error
 instead of a panic

---
 src/fold/fold.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fold/fold.rs b/src/fold/fold.rs
index 2f5aa51..3b2a1fe 100644
--- a/src/fold/fold.rs
+++ b/src/fold/fold.rs
@@ -127,7 +127,7 @@ impl Fold {
         let mut contents = String::new();
         file.read_to_string(&mut contents)?;
 
-        let mut fold: Fold = serde_json::from_str(&contents).expect("Failed to load JSON");
+        let mut fold: Fold = serde_json::from_str(&contents)?;
         fold.resolve();
         fold.validate();
 
-- 
2.43.0


From 680572e75a1dfb5a74f232239b207cc53d531c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:08 +0000
Subject: [PATCH 19/32] fix: file_spec may be any number (for example, 1.1)

---
 src/fold/fold.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fold/fold.rs b/src/fold/fold.rs
index 3b2a1fe..f28db70 100644
--- a/src/fold/fold.rs
+++ b/src/fold/fold.rs
@@ -11,7 +11,7 @@ pub struct Fold {
 
     /// The version of the FOLD spec that the file assumes (a number)
     #[serde(default)]
-    pub file_spec: i32,
+    pub file_spec: f32,
 
     /// The software that created the file (a string)
     #[serde(default)]
-- 
2.43.0


From 86b10ca859ab236d59f9cb57b4207aada2cb7b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:40 +0000
Subject: [PATCH 20/32] fix: edges that share a node are not intersected with
 each other

---
 src/graph/planar_graph.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index 2314830..90011b4 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -338,8 +338,11 @@ where
         let mut intersections = vec![];
 
         for (index, edge) in self.edges.iter().enumerate() {
-            // Don't intersect the target edge with itself
-            if id != index {
+            // Don't intersect the target edge with itself or with edges that end at one of its nodes:
+            // straight edges that share a node don't meet anywhere else (but rounding can make it
+            // look as if they did, especially if the angle between them is small)
+            let (src, dst) = self.edges[id].get_node_indices();
+            if id != index && !edge.includes(src) && !edge.includes(dst) {
                 // The point of intersection (or null if no intersection is found)
                 if let Some(intersection) = utils::calculate_line_segment_intersection(
                     &self.nodes[edge.get_node_indices().0].position,
-- 
2.43.0


From a19616a92390aa78ef25d6d6f03534924dfe005a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:55 +0000
Subject: [PATCH 21/32] fix: collinear segments no longer intersect at an
 arbitrary point because of rounding

---
 src/geometry/utils.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index 6801460..ef55528 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -76,6 +76,13 @@ pub fn calculate_line_segment_intersection(a: &Vec2, b: &Vec2, c: &Vec2, d: &Vec
     let delta_y1 = d.y - c.y;
     let denom = (-delta_x1 * delta_y0 + delta_x0 * delta_y1);
 
+    // Parallel segments don't intersect at a point: without this check, `denom` may differ from 0
+    // because of rounding, and the values below would be arbitrary
+    let lengths = nalgebra_glm::distance(a, b) + nalgebra_glm::distance(c, d);
+    if denom.abs() <= 32.0 * nalgebra_glm::epsilon::<f32>() * magnitude(&[a, b, c, d]) * lengths {
+        return None;
+    }
+
     let s = (-delta_y0 * (a.x - c.x) + delta_x0 * (a.y - c.y)) / denom;
     let t = (delta_x1 * (a.y - c.y) - delta_y1 * (a.x - c.x)) / denom;
 
@@ -115,14 +122,16 @@ pub fn calculate_perpendicular_bisector(a: &Vec2, b: &Vec2, offset: f32) -> (Vec
     (midpoint, second)
 }
 
+/// The largest absolute value of any coordinate of the points `ps`.
+fn magnitude(ps: &[&Vec2]) -> f32 {
+    ps.iter()
+        .fold(0.0f32, |m, p| m.max(p.x.abs()).max(p.y.abs()))
+}
+
 /// The distance below which points with coordinates as large as those of `ps` are considered to
 /// be the same: a small multiple of the rounding error at that magnitude.
 fn tolerance(ps: &[&Vec2]) -> f32 {
-    let magnitude = ps
-        .iter()
-        .fold(0.0f32, |m, p| m.max(p.x.abs()).max(p.y.abs()));
-
-    nalgebra_glm::epsilon::<f32>() * (64.0 * magnitude).max(1.0)
+    nalgebra_glm::epsilon::<f32>() * (64.0 * magnitude(ps)).max(1.0)
 }
 
 /// Checks if the specified point `p` lies along the line segment `ab`.
-- 
2.43.0


From e13be5e34355a7e286323f2f5becbe8101794523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:30 +0000
Subject: [PATCH 22/32] fix: nodes near the origin are recognized as coincident
 at the scale of the drawing

---
 src/geometry/utils.rs     | 8 ++++++++
 src/graph/planar_graph.rs | 6 ++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index ef55528..b59d950 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -188,6 +188,14 @@ pub fn close_to(a: &Vec2, b: &Vec2) -> bool {
     nalgebra_glm::distance(a, b) <= tolerance(&[a, b])
 }
 
+/// Determines whether the specified points are "close to" each other when they belong to a drawing
+/// with the specified `points`: whatever is calculated from these (an intersection, for example)
+/// carries the rounding errors of their magnitude, even if it falls near the origin.
+pub fn close_to_among(a: &Vec2, b: &Vec2, points: &Vec<Vec2>) -> bool {
+    let all = points.iter().chain([a, b]).collect::<Vec<_>>();
+    nalgebra_glm::distance(a, b) <= tolerance(&all)
+}
+
 /// Calculates the (sub)set of "unique" points from an input set, within epsilon.
 pub fn unique_points_among(ps: &Vec<Vec2>) -> Vec<Vec2> {
     let mut unique = vec![];
diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index 90011b4..483eff4 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -182,7 +182,9 @@ where
         let positions = self.gather_node_positions();
         let (index, _) = utils::find_closest_to(position, &positions);
 
-        if index < positions.len() && utils::close_to(position, &positions[index]) {
+        if index < positions.len()
+            && utils::close_to_among(position, &positions[index], &positions)
+        {
             // If the found distance is less than the specified threshold, the specified
             // node is considered a "duplicate," so we return the index of the existing
             // node and an empty array (since by definition, no edges were modified)
@@ -385,7 +387,7 @@ where
             let positions = self.gather_node_positions();
             let (index, _) = utils::find_closest_to(intersection, &positions);
 
-            if utils::close_to(intersection, &positions[index]) {
+            if utils::close_to_among(intersection, &positions[index], &positions) {
                 println!("Point of intersection coincides with an existing node");
                 changed_edges.extend(&self.split_edges_at_node(index));
             } else {
-- 
2.43.0


From 165b8fd495dd58bc89cad207c381a0fc9ee27b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:19 +0000
Subject: [PATCH 23/32] fix: orientation tests are evaluated in double
 precision, so that triangulation cannot run forever

---
 src/geometry/polygon.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/geometry/polygon.rs b/src/geometry/polygon.rs
index 4defa27..6f96403 100644
--- a/src/geometry/polygon.rs
+++ b/src/geometry/polygon.rs
@@ -5,7 +5,11 @@ use std::thread::current;
 /// particular, the area will be negative if the vertices are ordered in a CW
 /// fashion and positive otherwise.
 pub fn area2(a: &Vec2, b: &Vec2, c: &Vec2) -> f32 {
-    (b.x - a.x) * (c.y - a.y) - (c.x - a.x) * (b.y - a.y)
+    // The differences of (similarly sized) single-precision coordinates and their products are exact
+    // in double precision: otherwise, rounding could give a (nearly) straight angle either sign,
+    // depending on the order of the points
+    let [ax, ay, bx, by, cx, cy] = [a.x, a.y, b.x, b.y, c.x, c.y].map(f64::from);
+    ((bx - ax) * (cy - ay) - (cx - ax) * (by - ay)) as f32
 }
 
 /// Returns `true` if the point `c` is to the left of the oriented segment `ab`
-- 
2.43.0


From 5b4c78a9ea0979269671997d34e0082c12e0cbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:44 +0000
Subject: [PATCH 24/32] fix: whether a line contains a point no longer depends
 on the scale of the line

---
 src/geometry/line.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/geometry/line.rs b/src/geometry/line.rs
index b2746c9..f5cfc3e 100644
--- a/src/geometry/line.rs
+++ b/src/geometry/line.rs
@@ -1,8 +1,8 @@
 use crate::math::bivector::Bivector3;
-use crate::math::space::Exterior;
+use crate::math::space::{Exterior, Norm};
 use crate::math::vector::Vector3;
 
-use approx::UlpsEq;
+use approx::AbsDiffEq;
 use num_traits::Zero;
 
 pub struct Line {
@@ -28,7 +28,12 @@ impl Line {
     /// Reference: http://geocalc.clas.asu.edu/GA_Primer/GA_Primer/introduction-to-geometric/high-school-geometry-with/solutions-for-straight-line.html
     pub fn contains(&self, x: &Vector3<f32>) -> bool {
         let bivector = (*x - self.point).wedge(self.direction);
-        bivector.ulps_eq(&Bivector3::zero(), std::f32::EPSILON, 4)
+
+        // The area is proportional to the length of `u`, and so is its error, which also grows with
+        // the magnitudes of the two points (that were subtracted from each other)
+        let tolerance =
+            4.0 * std::f32::EPSILON * self.direction.norm() * (x.norm() + self.point.norm());
+        bivector.abs_diff_eq(&Bivector3::zero(), tolerance)
     }
 
     pub fn intersect(&self, rhs: &Line) -> Option<Vector3<f32>> {
-- 
2.43.0


From c458cd57fd8dd78c7aad86ad67db41e3674adbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:45 +0000
Subject: [PATCH 25/32] fix: only the point itself is between two coincident
 points

---
 src/geometry/polygon.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/geometry/polygon.rs b/src/geometry/polygon.rs
index 6f96403..abd9e9c 100644
--- a/src/geometry/polygon.rs
+++ b/src/geometry/polygon.rs
@@ -57,14 +57,12 @@ pub fn between(a: &Vec2, b: &Vec2, c: &Vec2) -> bool {
         return false;
     }
 
-    // If `ab` is not vertical, check "between-ness" based on the x-coordinate - otherwise,
-    // check based on the y-coordinate
-    if a.x != b.x {
-        return ((a.x <= c.x) && (c.x <= b.x)) || ((a.x >= c.x) && (c.x >= b.x));
-    }
+    // Check "between-ness" based on both coordinates: if `ab` is vertical or horizontal, only one of
+    // them is decisive, and if `a` and `b` coincide, both are
+    let between_x = ((a.x <= c.x) && (c.x <= b.x)) || ((a.x >= c.x) && (c.x >= b.x));
+    let between_y = ((a.y <= c.y) && (c.y <= b.y)) || ((a.y >= c.y) && (c.y >= b.y));
 
-    // `ab` is vertical
-    ((a.y <= c.y) && (c.y <= b.y)) || ((a.y >= c.y) && (c.y >= b.y))
+    between_x && between_y
 }
 
 /// Determines whether the line segments `ab` and `cd` intersect. This function returns `true` if
-- 
2.43.0


From 31778ec0a3d040a568e446e58dc3a47d0d165cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:17 +0000
Subject: [PATCH 26/32] fix: counting basis blades no longer overflows in
 dimensions above 20

---
 src/math/blade.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/math/blade.rs b/src/math/blade.rs
index 8552a28..63ed9cf 100644
--- a/src/math/blade.rs
+++ b/src/math/blade.rs
@@ -49,26 +49,19 @@ pub fn total_number_of_basis_blades(dim: usize) -> usize {
     2usize.pow(dim as u32)
 }
 
-/// Compute `n` factorial.
-fn factorial(n: usize) -> usize {
-    let mut fact = 1;
-    for i in 2..=n {
-        fact *= i;
-    }
-    return fact;
-}
-
 /// Compute `n` choose `k`, i.e. the binomial coefficient corresponding to
 /// the parameters `n` and `k`.
 fn binomial_coefficient(n: usize, k: usize) -> usize {
     if k > n {
         return 0;
     }
-    let mut num = 1;
-    for i in 0..k {
-        num *= n - i;
+    // After step `i`, this is `n` choose `i + 1`: dividing at every step (which leaves no remainder)
+    // keeps the intermediate values from overflowing. The coefficients are symmetric in `k`.
+    let mut coefficient = 1;
+    for i in 0..k.min(n - k) {
+        coefficient = coefficient * (n - i) / (i + 1);
     }
-    return num / factorial(k);
+    return coefficient;
 }
 
 /// Returns the number of basis `k`-blades needed in an `n`-dimensional
-- 
2.43.0


From 9e30e6b8211dd5a858f72eeac25ca525fe748e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 27/32] fix: a .fold file that does not hold a JSON object is
 an error

---
 src/fold/fold.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fold/fold.rs b/src/fold/fold.rs
index f28db70..f4fb850 100644
--- a/src/fold/fold.rs
+++ b/src/fold/fold.rs
@@ -1,6 +1,7 @@
 use serde::{Deserialize, Serialize};
 use std::fs::File;
 use std::io::prelude::*;
+use std::io::{Error, ErrorKind};
 use std::path::Path;
 
 /// A .FOLD file format parser. Note that multiple frames are not yet supported.
@@ -127,6 +128,11 @@ impl Fold {
         let mut contents = String::new();
         file.read_to_string(&mut contents)?;
 
+        // A file holds a JSON object (an array of values would be accepted in place of one)
+        if !contents.trim_start().starts_with('{') {
+            return Err(Error::new(ErrorKind::InvalidData, "a .fold file must hold a JSON object"));
+        }
+
         let mut fold: Fold = serde_json::from_str(&contents)?;
         fold.resolve();
         fold.validate();
-- 
2.43.0


From 563f517d2eae3aa6e63746e85e65e69b506d651d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:03 +0000
Subject: [PATCH 28/32] fix: a number beyond single precision in a .fold file
 is an error, not an infinity

---
 src/fold/fold.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fold/fold.rs b/src/fold/fold.rs
index f4fb850..7917e92 100644
--- a/src/fold/fold.rs
+++ b/src/fold/fold.rs
@@ -135,7 +135,9 @@ impl Fold {
 
         let mut fold: Fold = serde_json::from_str(&contents)?;
         fold.resolve();
-        fold.validate();
+        if !fold.validate() {
+            return Err(Error::new(ErrorKind::InvalidData, "a number in the .fold file is out of range"));
+        }
 
         Ok(fold)
     }
@@ -146,6 +148,11 @@ impl Fold {
 
     pub fn validate(&self) -> bool {
         // vertices_coords, vertices_vertices, and vertices_faces should all be the same length (or zero), etc.
-        true
+
+        // Numbers beyond single precision would be read as infinities (which cannot be exported again)
+        self.file_spec.is_finite()
+            && self.vertices_coords.iter().flatten().all(|x| x.is_finite())
+            && self.edges_foldangles.iter().all(|x| x.is_finite())
+            && self.edges_lengths.iter().all(|x| x.is_finite())
     }
 }
-- 
2.43.0


From c20895badfbd2c26e23923be50209c647a1d598e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:21 +0000
Subject: [PATCH 29/32] fix: counting basis blades does not overflow when the
 count fits a machine word

---
 src/math/blade.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/math/blade.rs b/src/math/blade.rs
index 63ed9cf..f299621 100644
--- a/src/math/blade.rs
+++ b/src/math/blade.rs
@@ -55,11 +55,13 @@ fn binomial_coefficient(n: usize, k: usize) -> usize {
     if k > n {
         return 0;
     }
-    // After step `i`, this is `n` choose `i + 1`: dividing at every step (which leaves no remainder)
-    // keeps the intermediate values from overflowing. The coefficients are symmetric in `k`.
+    // After step `i`, this is `n` choose `i + 1`: dividing before multiplying (the division of the
+    // whole product leaves no remainder) keeps the intermediate values from overflowing. The
+    // coefficients are symmetric in `k`.
     let mut coefficient = 1;
     for i in 0..k.min(n - k) {
-        coefficient = coefficient * (n - i) / (i + 1);
+        let (m, d) = (n - i, i + 1);
+        coefficient = coefficient / d * m + coefficient % d * m / d;
     }
     return coefficient;
 }
-- 
2.43.0


From 442a6f8053c04951b19dd8f8ef573a6328910a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:38 +0000
Subject: [PATCH 30/32] fix: an edge near the origin crossed by a long edge is
 split (rounding of the drawing's size)

---
 src/geometry/utils.rs     | 28 +++++++++++++++++++++++-----
 src/graph/planar_graph.rs |  9 ++++++---
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/geometry/utils.rs b/src/geometry/utils.rs
index b59d950..8d65be1 100644
--- a/src/geometry/utils.rs
+++ b/src/geometry/utils.rs
@@ -141,13 +141,25 @@ pub fn is_on_line_segment(a: &Vec2, b: &Vec2, p: &Vec2, include_endpoints: bool)
         return include_endpoints;
     }
 
+    is_inside_line_segment(a, b, p, tolerance(&[a, b, p]))
+}
+
+/// Checks if the specified point `p` lies inside the line segment `ab` (i.e. between its endpoints)
+/// when they belong to a drawing with the specified `tolerance` (see `tolerance_among`).
+pub fn is_inside_line_segment_within(a: &Vec2, b: &Vec2, p: &Vec2, tolerance: f32) -> bool {
+    nalgebra_glm::distance(a, p) > tolerance
+        && nalgebra_glm::distance(p, b) > tolerance
+        && is_inside_line_segment(a, b, p, tolerance)
+}
+
+/// The distance from the point to the line is (within `tolerance`) 0, and its projection falls
+/// between the two endpoints.
+fn is_inside_line_segment(a: &Vec2, b: &Vec2, p: &Vec2, tolerance: f32) -> bool {
     let ab = b - a;
     let ap = p - a;
     let pb = b - p;
 
-    // The distance from the point to the line is (within rounding) 0, and its projection falls
-    // between the two endpoints
-    (ab.x * ap.y - ab.y * ap.x).abs() <= tolerance(&[a, b, p]) * nalgebra_glm::length(&ab)
+    (ab.x * ap.y - ab.y * ap.x).abs() <= tolerance * nalgebra_glm::length(&ab)
         && nalgebra_glm::dot(&ab, &ap) > 0.0
         && nalgebra_glm::dot(&ab, &pb) > 0.0
 }
@@ -188,9 +200,15 @@ pub fn close_to(a: &Vec2, b: &Vec2) -> bool {
     nalgebra_glm::distance(a, b) <= tolerance(&[a, b])
 }
 
+/// The distance below which points of a drawing with the specified `points` are considered to be
+/// the same: whatever is calculated from these (an intersection, for example) carries the rounding
+/// errors of their magnitude, even if it falls near the origin.
+pub fn tolerance_among(points: &Vec<Vec2>) -> f32 {
+    tolerance(&points.iter().collect::<Vec<_>>())
+}
+
 /// Determines whether the specified points are "close to" each other when they belong to a drawing
-/// with the specified `points`: whatever is calculated from these (an intersection, for example)
-/// carries the rounding errors of their magnitude, even if it falls near the origin.
+/// with the specified `points` (see `tolerance_among`).
 pub fn close_to_among(a: &Vec2, b: &Vec2, points: &Vec<Vec2>) -> bool {
     let all = points.iter().chain([a, b]).collect::<Vec<_>>();
     nalgebra_glm::distance(a, b) <= tolerance(&all)
diff --git a/src/graph/planar_graph.rs b/src/graph/planar_graph.rs
index 483eff4..e029c54 100644
--- a/src/graph/planar_graph.rs
+++ b/src/graph/planar_graph.rs
@@ -223,9 +223,11 @@ where
                 // that it ends at those nodes and doesn't overlap any of the existing edges
                 let a = self.nodes[src].position;
                 let b = self.nodes[dst].position;
+                let tolerance = utils::tolerance_among(&self.gather_node_positions());
                 let mut stops = (0..self.node_count())
                     .filter(|&id| {
-                        utils::is_on_line_segment(&a, &b, &self.nodes[id].position, false)
+                        let position = self.nodes[id].position;
+                        utils::is_inside_line_segment_within(&a, &b, &position, tolerance)
                     })
                     .map(|id| (id, nalgebra_glm::distance(&a, &self.nodes[id].position)))
                     .collect::<Vec<_>>();
@@ -280,14 +282,15 @@ where
             println!("Splitting edges at node with index {}", id);
             let mut changed_edges = vec![];
             let mut additional_edges = vec![];
+            let tolerance = utils::tolerance_among(&self.gather_node_positions());
 
             for (index, edge) in self.edges.iter_mut().enumerate() {
                 // Does the target node lie along this edge somewhere?
-                let on_edge = utils::is_on_line_segment(
+                let on_edge = utils::is_inside_line_segment_within(
                     &self.nodes[edge.src].position,
                     &self.nodes[edge.dst].position,
                     &self.nodes[id].position,
-                    false,
+                    tolerance,
                 );
 
                 if on_edge {
-- 
2.43.0


From 6d94f90fb2fc042d73a4f70f0901795a61602ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:12 +0000
Subject: [PATCH 31/32] fix: the area of a thin polygon keeps its sign (the
 areas of its parts were added in single precision)

---
 src/geometry/polygon.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/geometry/polygon.rs b/src/geometry/polygon.rs
index abd9e9c..2b7c7dc 100644
--- a/src/geometry/polygon.rs
+++ b/src/geometry/polygon.rs
@@ -5,11 +5,16 @@ use std::thread::current;
 /// particular, the area will be negative if the vertices are ordered in a CW
 /// fashion and positive otherwise.
 pub fn area2(a: &Vec2, b: &Vec2, c: &Vec2) -> f32 {
+    area2_wide(a, b, c) as f32
+}
+
+/// The same as `area2()`, in double precision.
+fn area2_wide(a: &Vec2, b: &Vec2, c: &Vec2) -> f64 {
     // The differences of (similarly sized) single-precision coordinates and their products are exact
     // in double precision: otherwise, rounding could give a (nearly) straight angle either sign,
     // depending on the order of the points
     let [ax, ay, bx, by, cx, cy] = [a.x, a.y, b.x, b.y, c.x, c.y].map(f64::from);
-    ((bx - ax) * (cy - ay) - (cx - ax) * (by - ay)) as f32
+    (bx - ax) * (cy - ay) - (cx - ax) * (by - ay)
 }
 
 /// Returns `true` if the point `c` is to the left of the oriented segment `ab`
@@ -165,10 +170,10 @@ impl Polygon {
         for i in 1..self.vertices.len() - 1 {
             let b = self.vertices[i + 0];
             let c = self.vertices[i + 1];
-            sum += area2(&a, &b, &c);
+            sum += area2_wide(&a, &b, &c);
         }
 
-        sum
+        sum as f32
     }
 
     /// Computes the area of the polygon.
-- 
2.43.0


From fe590583d1182e2856b4084dc1639b99eab1cb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:24 +0000
Subject: [PATCH 32/32] fix: straight angles are told from others in polygons
 of any size (tiny areas became zero)

---
 src/geometry/polygon.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/geometry/polygon.rs b/src/geometry/polygon.rs
index 2b7c7dc..2bc551c 100644
--- a/src/geometry/polygon.rs
+++ b/src/geometry/polygon.rs
@@ -20,18 +20,18 @@ fn area2_wide(a: &Vec2, b: &Vec2, c: &Vec2) -> f64 {
 /// Returns `true` if the point `c` is to the left of the oriented segment `ab`
 /// and `false` otherwise.
 pub fn left(a: &Vec2, b: &Vec2, c: &Vec2) -> bool {
-    area2(a, b, c) > 0.0
+    area2_wide(a, b, c) > 0.0
 }
 
 /// Returns `true` if the point `c` is to the left of (or exactly on) the oriented
 /// segment `ab` and `false` otherwise.
 pub fn left_on(a: &Vec2, b: &Vec2, c: &Vec2) -> bool {
-    area2(a, b, c) >= 0.0
+    area2_wide(a, b, c) >= 0.0
 }
 
 /// Returns `true` if the point `c` is exactly on segment `ab` and `false` otherwise.
 pub fn collinear(a: &Vec2, b: &Vec2, c: &Vec2) -> bool {
-    area2(a, b, c) == 0.0
+    area2_wide(a, b, c) == 0.0
 }
 
 /// Determines whether two line segments `ab` and `cd` intersect. A "proper" intersection
@@ -160,7 +160,7 @@ impl Polygon {
 
     /// Computes twice the area of the polygon. Used internally to calculate the area of the
     /// polygon (see `area()`).
-    fn area_poly2(&self) -> f32 {
+    fn area_poly2(&self) -> f64 {
         let mut sum = 0.0;
 
         // The "head" (fixed) vertex: arbitrarily chosen to be the first vertex
@@ -173,12 +173,12 @@ impl Polygon {
             sum += area2_wide(&a, &b, &c);
         }
 
-        sum as f32
+        sum
     }
 
     /// Computes the area of the polygon.
     pub fn area(&self) -> f32 {
-        self.area_poly2().abs() * 0.5
+        (self.area_poly2().abs() * 0.5) as f32
     }
 
     /// Returns the two vertices that are neighbors to the vertex at `index`, wrapping around
-- 
2.43.0

