From 844a2f165cd4020470ef25345cf127385184c622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:10 +0000
Subject: [PATCH 01/44] fix: check the corners the 0-2 diagonal of a quad cuts
 off in the quad's orientation

---
 src/tesselate/fixed_n.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tesselate/fixed_n.rs b/src/tesselate/fixed_n.rs
index 92e9007..b6305c7 100644
--- a/src/tesselate/fixed_n.rs
+++ b/src/tesselate/fixed_n.rs
@@ -69,7 +69,7 @@ pub fn min_weight_quad<V: IndexType, Vec2: Vector2D, Poly: Polygon<Vec2>>(
 
     if weight_diagonal_0_2 <= weight_diagonal_1_3 {
         let vs1_3_convex =
-            vs[1].vec.convex(vs[2].vec, vs[0].vec) && vs[3].vec.convex(vs[0].vec, vs[2].vec);
+            vs[1].vec.convex(vs[0].vec, vs[2].vec) && vs[3].vec.convex(vs[2].vec, vs[0].vec);
         if vs1_3_convex {
             // insert the diagonal 0-2
             indices.insert_triangle(vs[0].index, vs[1].index, vs[2].index);
-- 
2.43.0


From 58fbf0686092c21a596b15b2ce0f8f1b9318e60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:10 +0000
Subject: [PATCH 02/44] fix: flipping an edge with a dangling end keeps its
 links consistent

---
 src/halfedge/edge/halfedge.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/halfedge/edge/halfedge.rs b/src/halfedge/edge/halfedge.rs
index 18921e4..0682bf5 100644
--- a/src/halfedge/edge/halfedge.rs
+++ b/src/halfedge/edge/halfedge.rs
@@ -135,14 +135,24 @@ impl<T: HalfEdgeImplMeshType> HalfEdge<T> for HalfEdgeImpl<T> {
         let target_id = mesh.edge(e).target_id(mesh);
 
         let edge = mesh.edge(e);
-        let next_id = edge.next;
-        let prev_id = edge.prev;
-        let face_id = edge.face_id();
         let twin_id = edge.twin_id();
+        // At a dangling end, the neighbor is the twin itself, which also changes its id.
+        let renamed = |id: T::E| {
+            if id == e {
+                twin_id
+            } else if id == twin_id {
+                e
+            } else {
+                id
+            }
+        };
+        let next_id = renamed(edge.next);
+        let prev_id = renamed(edge.prev);
+        let face_id = edge.face_id();
 
         let twin = mesh.edge(twin_id);
-        let t_next_id = twin.next;
-        let t_prev_id = twin.prev;
+        let t_next_id = renamed(twin.next);
+        let t_prev_id = renamed(twin.prev);
         let t_face_id = twin.face_id();
 
         let edge = mesh.edge_mut(e);
-- 
2.43.0


From dcf777f37d74f922ee2caa1804b221d2b1f33bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:10 +0000
Subject: [PATCH 03/44] fix: insert vertices into edges whose origin is not of
 degree two

---
 src/halfedge/mesh/builder/builder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/halfedge/mesh/builder/builder.rs b/src/halfedge/mesh/builder/builder.rs
index 4f10605..f4b010b 100644
--- a/src/halfedge/mesh/builder/builder.rs
+++ b/src/halfedge/mesh/builder/builder.rs
@@ -130,7 +130,12 @@ impl<T: HalfEdgeImplMeshType> MeshBuilder<T> for HalfEdgeMeshImpl<T> {
         let mut first = true;
         for (ep1, ep2, vp) in ps {
             let (v, e1, e2) =
-                self.add_vertex_via_edge(current, self.edge(current).twin_id(), vp, ep1, ep2);
+                self.add_vertex_via_edge(current, current_twin, vp, ep1, ep2);
+            if first && current == twin_id {
+                // The origin is a dangling end, i.e., the new edges are also each other's neighbors there
+                self.edge_mut(e1).set_prev(e2);
+                self.edge_mut(e2).set_next(e1);
+            }
             current = e1;
             current_twin = e2;
             last_v = v;
-- 
2.43.0


From 3276ba0c383c0d32a1cb82a422187f0fd82f1fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:10 +0000
Subject: [PATCH 04/44] fix: report the remaining length of a partially
 consumed edge iterator

---
 src/halfedge/edge/iterator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/halfedge/edge/iterator.rs b/src/halfedge/edge/iterator.rs
index fbf1281..4775964 100644
--- a/src/halfedge/edge/iterator.rs
+++ b/src/halfedge/edge/iterator.rs
@@ -55,7 +55,8 @@ impl<'a, T: HalfEdgeImplMeshType> Iterator for ForwardEdgeIterator<'a, T> {
     #[inline(always)]
     fn size_hint(&self) -> (usize, Option<usize>) {
         let mut curr = self.current.clone();
-        let mut len = 1;
+        // the current edge was already returned unless we didn't start yet
+        let mut len = if self.is_first { 1 } else { 0 };
         while curr.next(self.mesh).id() != self.first {
             len += 1;
             curr = curr.next(self.mesh);
-- 
2.43.0


From 3a52bcda1d8e8d098aad72d6905e25cdaa7a63df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:10 +0000
Subject: [PATCH 05/44] fix: insert_dihedron closes the outer side of the
 polygon instead of panicking

---
 src/halfedge/primitives/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halfedge/primitives/mod.rs b/src/halfedge/primitives/mod.rs
index 016fc86..fb256fd 100644
--- a/src/halfedge/primitives/mod.rs
+++ b/src/halfedge/primitives/mod.rs
@@ -22,7 +22,7 @@ where
 
     fn insert_dihedron(&mut self, vp: impl IntoIterator<Item = T::VP>) -> T::E {
         let first = self.insert_polygon(vp);
-        self.close_hole(self.edge(first).twin_id(), Default::default(), false);
+        self.close_hole(first, Default::default(), false);
         first
     }
 }
-- 
2.43.0


From f40c80f9dad0a91feb88b2f566aa5db419f0d34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:10 +0000
Subject: [PATCH 06/44] fix: insert_antiprism extrudes the outer side of its
 base instead of panicking

---
 src/primitives/prismatoid.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/primitives/prismatoid.rs b/src/primitives/prismatoid.rs
index 7dfb468..a272490 100644
--- a/src/primitives/prismatoid.rs
+++ b/src/primitives/prismatoid.rs
@@ -74,15 +74,10 @@ where
     /// of the top polygon will be slightly smaller!
     fn insert_antiprism(&mut self, vp: impl IntoIterator<Item = T::VP>, height: T::S) -> T::E {
         let first = self.insert_polygon(vp);
-        let f = self
-            .edge(first)
-            .face(self)
-            .expect("The polygon must have a face");
-        let normal = f.normal(self).normalize();
-        let e = self.extrude_tri2(
-            self.edge(first).twin_id(),
-            T::Trans::from_translation(-normal * height),
-        );
+        let twin = self.edge(first).twin(self);
+        let f = twin.face(self).expect("The polygon must have a face");
+        let normal = Face3d::normal(f, self).normalize();
+        let e = self.extrude_tri2(first, T::Trans::from_translation(-normal * height));
         e
     }
 
-- 
2.43.0


From 2aa1e94de99e2210f7afeaff111d2af01e435c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:10 +0000
Subject: [PATCH 07/44] fix: cylinder doesn't request the unimplemented smooth
 frustum

---
 src/primitives/prismatoid.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primitives/prismatoid.rs b/src/primitives/prismatoid.rs
index a272490..db0f3cd 100644
--- a/src/primitives/prismatoid.rs
+++ b/src/primitives/prismatoid.rs
@@ -245,7 +245,8 @@ where
 
     /// Creates a regular cylinder
     fn cylinder(radius: T::S, height: T::S, n: usize) -> T::Mesh {
-        Self::regular_frustum(radius, radius, height, n, true)
+        Self::regular_frustum(radius, radius, height, n, false)
+        // TODO: make it smooth
     }
 
     /// Creates a regular prism with given radius `r`, height `h`, and `n` sides.
-- 
2.43.0


From f9f37570846fd5048066177bbef22ea2fe4b5341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:10 +0000
Subject: [PATCH 08/44] fix: uniform_antiprism has lateral edges as long as the
 others

---
 src/primitives/prismatoid.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/primitives/prismatoid.rs b/src/primitives/prismatoid.rs
index db0f3cd..4716491 100644
--- a/src/primitives/prismatoid.rs
+++ b/src/primitives/prismatoid.rs
@@ -269,11 +269,10 @@ where
 
     /// Creates a uniform antiprism with given radius `r` and `n` sides.
     fn uniform_antiprism(r: T::S, n: usize) -> Self {
-        // TODO: isn't this the edge length?
-        Self::regular_antiprism(
-            r,
-            regular_polygon_sidelength(r, n) * T::S::THREE.sqrt() * T::S::HALF,
-            n,
-        )
+        // The two polygons are twisted by half a segment, so the lateral edges only have the
+        // length of the other edges if the height accounts for that horizontal offset.
+        let a = regular_polygon_sidelength(r, n);
+        let d = regular_polygon_sidelength(r, 2 * n);
+        Self::regular_antiprism(r, (a * a - d * d).sqrt(), n)
     }
 }
-- 
2.43.0


From 9b186dc23101d926ae0afbda4d9b2723c9ee3f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:10 +0000
Subject: [PATCH 09/44] fix: all vertices of the geodesic tetrahedron have the
 requested radius

---
 src/primitives/sphere.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/primitives/sphere.rs b/src/primitives/sphere.rs
index ec2016a..8e7bda8 100644
--- a/src/primitives/sphere.rs
+++ b/src/primitives/sphere.rs
@@ -199,7 +199,9 @@ where
     where
         T::Mesh: HalfEdgeSemiBuilder<T>,
     {
-        let mut mesh = Self::regular_tetrahedron(radius);
+        // convert the circumscribed radius to the edge length
+        let l = T::S::FOUR * radius / (T::S::TWO * T::S::THREE).sqrt();
+        let mut mesh = Self::regular_tetrahedron(l);
         debug_assert!(mesh.centroid().is_about(&T::Vec::zero(), T::S::EPS));
         mesh.subdivision_frequency(
             SubdivisionDescription::new(n, 0),
-- 
2.43.0


From 79b823f982c24ea0ae1aeec68d9f0ebe08026c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:10 +0000
Subject: [PATCH 10/44] fix: the dodecahedron has the requested radius

---
 src/primitives/sphere.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/primitives/sphere.rs b/src/primitives/sphere.rs
index 8e7bda8..ac88fc1 100644
--- a/src/primitives/sphere.rs
+++ b/src/primitives/sphere.rs
@@ -72,9 +72,10 @@ where
     fn dodecahedron(radius: T::S) -> Self {
         // https://en.wikipedia.org/wiki/Regular_dodecahedron#/media/File:Dodecahedron_vertices.svg
 
-        let phi = radius * T::S::PHI;
-        let iphi = radius / T::S::PHI;
-        let one = radius;
+        // the circumscribed sphere of the cube (±1, ±1, ±1) has the radius sqrt(3)
+        let one = radius / T::S::THREE.sqrt();
+        let phi = one * T::S::PHI;
+        let iphi = one / T::S::PHI;
         let zero = T::S::ZERO;
         let make_vp = |x, y, z| T::VP::from_pos(T::Vec::from_xyz(x, y, z));
 
-- 
2.43.0


From c1b2c2ededd1b6397a4256b96756372c4495562e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:10 +0000
Subject: [PATCH 11/44] fix: loop subdivision also splits the boundary side of
 edges

---
 src/operations/subdivision.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/operations/subdivision.rs b/src/operations/subdivision.rs
index 926aa8c..14f81ee 100644
--- a/src/operations/subdivision.rs
+++ b/src/operations/subdivision.rs
@@ -122,6 +122,16 @@ where
             self.close_hole(self.edge(edges[0].id()).next(self).twin_id(), fp, false);
         }
 
+        // the boundary has no faces that would have subdivided its side of the edges
+        let boundary = self
+            .edges()
+            .filter(|e| e.is_boundary_self())
+            .map(|e| e.id())
+            .collect::<Vec<_>>();
+        for e in boundary {
+            self.subdivide_unsafe_try_fixup(e, Default::default());
+        }
+
         self
     }
 
-- 
2.43.0


From e72ad5b2917cf7f6aa4be25b61c6c3c10d85a79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:10 +0000
Subject: [PATCH 12/44] fix: extrude_boundary looks at all edges of each face

---
 src/operations/extrude.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/operations/extrude.rs b/src/operations/extrude.rs
index 43fc8a4..060195a 100644
--- a/src/operations/extrude.rs
+++ b/src/operations/extrude.rs
@@ -26,9 +26,11 @@ where
     {
         let faces = self.face_ids().collect_vec();
         for f in faces {
-            let e = self.face(f).edge(self).twin_id();
-            if self.edge(e).is_boundary_self() {
-                self.extrude(e, transform);
+            let es = self.face(f).edges(self).map(|e| e.twin_id()).collect_vec();
+            for e in es {
+                if self.edge(e).is_boundary_self() {
+                    self.extrude(e, transform);
+                }
             }
         }
     }
-- 
2.43.0


From cb58830fbd14d1ae6855e9719f51bf0bf7e9b8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:10 +0000
Subject: [PATCH 13/44] fix: import meshes with isolated vertices and keep the
 curved flag of faces

---
 src/halfedge/mesh/builder/halfedge.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/halfedge/mesh/builder/halfedge.rs b/src/halfedge/mesh/builder/halfedge.rs
index de52dcb..007d835 100644
--- a/src/halfedge/mesh/builder/halfedge.rs
+++ b/src/halfedge/mesh/builder/halfedge.rs
@@ -350,6 +350,8 @@ impl<T: HalfEdgeImplMeshType> HalfEdgeMeshImpl<T> {
             face_map.insert(face.id(), f);
         }
         let mut edge_map = std::collections::HashMap::new();
+        // isolated vertices don't have an edge
+        edge_map.insert(IndexType::max(), IndexType::max());
         for edge in MeshBasics::edges(mesh) {
             let e = res.halfedges.allocate();
             edge_map.insert(edge.id(), e);
@@ -370,7 +372,7 @@ impl<T: HalfEdgeImplMeshType> HalfEdgeMeshImpl<T> {
                 face_map[&face.id()],
                 HalfEdgeFaceImpl::new(
                     edge_map[&FaceBasics::edge_id(face)],
-                    false,
+                    face.may_be_curved(),
                     ff(face.payload()),
                 ),
             );
-- 
2.43.0


From 74dd5b4e62aa1853ba2c6bbf35d0be126abb78a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:10 +0000
Subject: [PATCH 14/44] fix: measure and verify exactly the triangles of the
 current triangulation

---
 src/mesh/triangulation.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mesh/triangulation.rs b/src/mesh/triangulation.rs
index 2e60803..c122812 100644
--- a/src/mesh/triangulation.rs
+++ b/src/mesh/triangulation.rs
@@ -179,7 +179,7 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
 
     /// Check for non-degenerate triangles (no zero-area triangles)
     pub fn verify_non_degenerate_triangle<Vec2: Vector2D>(&self, vec_hm: &HashMap<V, Vec2>) {
-        for i in self.start..self.len() {
+        for i in 0..self.len() {
             let area = self.get_triangle_area(i, vec_hm);
             /*assert!(
                 area.abs() > Vec2::S::ZERO,
@@ -228,8 +228,8 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
             );
         }*/
 
-        for i in (self.start..num_vertices).step_by(3) {
-            for j in (self.start..num_vertices).step_by(3) {
+        for i in (0..num_vertices).step_by(3) {
+            for j in (0..num_vertices).step_by(3) {
                 if i == j {
                     continue;
                 }
@@ -292,7 +292,7 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
     /// Calculate the total edge weight of the triangulation
     pub fn total_edge_weight<Vec2: Vector2D>(&self, vec_hm: &HashMap<V, Vec2>) -> Vec2::S {
         let mut total = Vec2::S::ZERO;
-        for i in self.start..self.len() {
+        for i in 0..self.len() {
             let (i1, i2, i3) = self.get_triangle(i);
             let v0 = vec_hm[&i1];
             let v1 = vec_hm[&i2];
-- 
2.43.0


From d6da964f1284c4c886d4ce5467c6dc5df0af8b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:10 +0000
Subject: [PATCH 15/44] fix: compare the connectivity of the other mesh in the
 trivial isomorphism test

---
 src/mesh/mesh/basics.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mesh/mesh/basics.rs b/src/mesh/mesh/basics.rs
index 346eb3c..5a93f21 100644
--- a/src/mesh/mesh/basics.rs
+++ b/src/mesh/mesh/basics.rs
@@ -364,8 +364,8 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
         for e in self.edges() {
             let other_e = other.edge(e.id());
             if e.id() != other_e.id()
-                || e.origin(self).id() != other_e.origin(self).id()
-                || e.target(self).id() != other_e.target(self).id()
+                || e.origin(self).id() != other_e.origin(other).id()
+                || e.target(self).id() != other_e.target(other).id()
                 || !compare_edge(e, other_e)
             {
                 return MeshEquivalenceDifference::DifferentEdges(e.id(), other_e.id());
@@ -375,10 +375,10 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
         for f in self.faces() {
             let other_f = other.face(f.id());
             if f.id() != other_f.id()
-                || f.num_vertices(self) != other_f.num_vertices(self)
+                || f.num_vertices(self) != other_f.num_vertices(other)
                 || !equal_up_to_rotation(
                     &f.edge_ids(self).collect_vec(),
-                    &other_f.edge_ids(self).collect_vec(),
+                    &other_f.edge_ids(other).collect_vec(),
                 )
                 || !compare_face(f, other_f)
             {
-- 
2.43.0


From 6df2581d34367c09076ff63376c8e7306d4a24a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:22 +0000
Subject: [PATCH 16/44] fix: build the dodecahedron from the outside boundary
 of its first face

---
 src/primitives/sphere.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/primitives/sphere.rs b/src/primitives/sphere.rs
index ac88fc1..f5a88de 100644
--- a/src/primitives/sphere.rs
+++ b/src/primitives/sphere.rs
@@ -1,11 +1,11 @@
 use crate::{
-    math::{HasPosition, IndexType, Scalar, Vector},
+    math::{HasPosition, Scalar, Vector},
     mesh::{
         DefaultEdgePayload, DefaultFacePayload, HalfEdge, HalfEdgeSemiBuilder, MeshType3D,
         MeshTypeHalfEdge, SlerpVertexInterpolator,
     },
     operations::{MeshExtrude, MeshLoft, MeshSubdivision, SubdivisionDescription},
-    primitives::{Make2dShape, MakePrismatoid},
+    primitives::MakePrismatoid,
 };
 
 /// Convert a radius 'r' to edge length 'a' of an icosahedron.
@@ -79,16 +79,16 @@ where
         let zero = T::S::ZERO;
         let make_vp = |x, y, z| T::VP::from_pos(T::Vec::from_xyz(x, y, z));
 
-        let mut mesh: Self = Make2dShape::polygon([
-            make_vp(one, one, one),    // orange
+        // listed clockwise, so that the outside boundary can be lofted
+        let mut mesh = Self::default();
+        let start = mesh.insert_polygon([
             make_vp(zero, phi, iphi),  // green
-            make_vp(-one, one, one),   // orange
-            make_vp(-iphi, zero, phi), // blue
+            make_vp(one, one, one),    // orange
             make_vp(iphi, zero, phi),  // blue
+            make_vp(-iphi, zero, phi), // blue
+            make_vp(-one, one, one),   // orange
         ]);
 
-        // TODO: polygon should return something more helpful
-        let start = mesh.shared_edge_id(T::V::new(1), T::V::new(0)).unwrap();
         let start_middle = mesh.loft_polygon_back(
             start,
             3,
-- 
2.43.0


From 5ccaaefc9228cf1c4b3fd141228a5650b7de3c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:54 +0000
Subject: [PATCH 17/44] fix: judge the centre of geodesic solids relative to
 their size

---
 src/primitives/sphere.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/primitives/sphere.rs b/src/primitives/sphere.rs
index f5a88de..8aa83f1 100644
--- a/src/primitives/sphere.rs
+++ b/src/primitives/sphere.rs
@@ -187,7 +187,7 @@ where
         T::Mesh: HalfEdgeSemiBuilder<T>,
     {
         let mut mesh = Self::regular_icosahedron(icosahedron_r2a(radius));
-        debug_assert!(mesh.centroid().is_about(&T::Vec::zero(), T::S::EPS));
+        debug_assert!(mesh.centroid().is_about(&T::Vec::zero(), radius * T::S::EPS.sqrt()));
         mesh.subdivision_frequency(
             SubdivisionDescription::new(n, 0),
             SlerpVertexInterpolator::new(T::Vec::zero(), radius),
@@ -203,7 +203,7 @@ where
         // convert the circumscribed radius to the edge length
         let l = T::S::FOUR * radius / (T::S::TWO * T::S::THREE).sqrt();
         let mut mesh = Self::regular_tetrahedron(l);
-        debug_assert!(mesh.centroid().is_about(&T::Vec::zero(), T::S::EPS));
+        debug_assert!(mesh.centroid().is_about(&T::Vec::zero(), radius * T::S::EPS.sqrt()));
         mesh.subdivision_frequency(
             SubdivisionDescription::new(n, 0),
             SlerpVertexInterpolator::new(T::Vec::zero(), radius),
@@ -217,7 +217,7 @@ where
         T::Mesh: HalfEdgeSemiBuilder<T>,
     {
         let mut mesh = Self::regular_octahedron(radius);
-        debug_assert!(mesh.centroid().is_about(&T::Vec::zero(), T::S::EPS));
+        debug_assert!(mesh.centroid().is_about(&T::Vec::zero(), radius * T::S::EPS.sqrt()));
         mesh.subdivision_frequency(
             SubdivisionDescription::new(n, 0),
             SlerpVertexInterpolator::new(T::Vec::zero(), radius),
-- 
2.43.0


From 7348eef3b17521787971375966e9a3e281f4fd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:41 +0000
Subject: [PATCH 18/44] fix: report missing ids in the trivial isomorphism test
 instead of panicking

---
 src/mesh/mesh/basics.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/mesh/mesh/basics.rs b/src/mesh/mesh/basics.rs
index 5a93f21..7399c69 100644
--- a/src/mesh/mesh/basics.rs
+++ b/src/mesh/mesh/basics.rs
@@ -354,7 +354,14 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
             return MeshEquivalenceDifference::DifferentNumberOfFaces;
         }
 
+        // the same number of elements doesn't mean that they have the same ids
+        let other_edges: HashSet<T::E> = other.edge_ids().collect();
+        let other_faces: HashSet<T::F> = other.face_ids().collect();
+
         for v in self.vertices() {
+            if !other.has_vertex(v.id()) {
+                return MeshEquivalenceDifference::NoCorrespondingVertex;
+            }
             let other_v = other.vertex(v.id());
             if v.id() != other_v.id() || !compare_vertex(v, other_v) {
                 return MeshEquivalenceDifference::DifferentVertices(v.id(), other_v.id());
@@ -362,6 +369,9 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
         }
 
         for e in self.edges() {
+            if !other_edges.contains(&e.id()) {
+                return MeshEquivalenceDifference::NoCorrespondingEdge(e.id());
+            }
             let other_e = other.edge(e.id());
             if e.id() != other_e.id()
                 || e.origin(self).id() != other_e.origin(other).id()
@@ -373,6 +383,9 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
         }
 
         for f in self.faces() {
+            if !other_faces.contains(&f.id()) {
+                return MeshEquivalenceDifference::NoCorrespondingFace(f.id());
+            }
             let other_f = other.face(f.id());
             if f.id() != other_f.id()
                 || f.num_vertices(self) != other_f.num_vertices(other)
-- 
2.43.0


From aa6899b93149c52c4c953a089563fceaa1e0ca74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:42 +0000
Subject: [PATCH 19/44] fix: is_isomorphic_pos identifies the vertices by their
 positions

---
 src/mesh/mesh/basics.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/mesh/mesh/basics.rs b/src/mesh/mesh/basics.rs
index 7399c69..8a5d449 100644
--- a/src/mesh/mesh/basics.rs
+++ b/src/mesh/mesh/basics.rs
@@ -466,12 +466,7 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
     where
         T::VP: HasPosition<D, Vec, S = S>,
     {
-        self.is_trivially_isomorphic_ex(
-            other,
-            |a, b| a.pos().is_about(&b.pos(), eps),
-            |_, _| true,
-            |_, _| true,
-        )
+        self.is_isomorphic_by_pos::<S, D, Vec, T>(other, eps)
     }
 
     /// Same as `is_trivially_isomorphic_pos`, but also checks control points of curved edges.
-- 
2.43.0


From 793b819bc6d2597964f420733d7aeb23f83db0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:43 +0000
Subject: [PATCH 20/44] fix: the trivial isomorphism test compares the order of
 the edges around each vertex

---
 src/mesh/mesh/basics.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mesh/mesh/basics.rs b/src/mesh/mesh/basics.rs
index 8a5d449..9936016 100644
--- a/src/mesh/mesh/basics.rs
+++ b/src/mesh/mesh/basics.rs
@@ -366,6 +366,12 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
             if v.id() != other_v.id() || !compare_vertex(v, other_v) {
                 return MeshEquivalenceDifference::DifferentVertices(v.id(), other_v.id());
             }
+            // the same edges in the same order
+            let wheel = v.edges_out(self).map(|e| e.id()).collect_vec();
+            let other_wheel = other_v.edges_out(other).map(|e| e.id()).collect_vec();
+            if wheel != other_wheel && !equal_up_to_rotation(&wheel, &other_wheel) {
+                return MeshEquivalenceDifference::DifferentVertices(v.id(), other_v.id());
+            }
         }
 
         for e in self.edges() {
-- 
2.43.0


From df03e858417591bab264354d8a206db5913d60bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:22 +0000
Subject: [PATCH 21/44] fix: flatten cubic curves within the requested error
 even where they cross their chord

---
 src/mesh/edge/curved.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/mesh/edge/curved.rs b/src/mesh/edge/curved.rs
index affa3a4..7a22aa3 100644
--- a/src/mesh/edge/curved.rs
+++ b/src/mesh/edge/curved.rs
@@ -98,9 +98,20 @@ pub trait CurvedEdge<const D: usize, T: EuclideanMeshType<D, Edge = Self>>: Edge
             let p0 = curve.point_at(edge, mesh, t0);
             let p1 = curve.point_at(edge, mesh, t1);
             let tm = (t0 + t1) / T::S::TWO;
-            let pm = curve.point_at(edge, mesh, tm);
-            let p_line = p0.lerped(&p1, T::S::HALF);
-            let deviation = pm.distance(&p_line);
+            // The offset of the curve from the chord is `3 * s * (1 - s) * (a * (1 - s) + b * s)` for
+            // some vectors `a` and `b` which follow from the offsets at one and two thirds. An s-shaped
+            // cubic crosses its chord in the middle, so the middle alone is not enough.
+            let offset = |s: T::S| {
+                curve.point_at(edge, mesh, t0 + (t1 - t0) * s) - p0.lerped(&p1, s)
+            };
+            let third = T::S::ONE / T::S::THREE;
+            let o1 = offset(third);
+            let o2 = offset(third * T::S::TWO);
+            let a = (o1 * T::S::TWO - o2).length();
+            let b = (o2 * T::S::TWO - o1).length();
+            let larger = if a > b { a } else { b };
+            // `a` and `b` are scaled by 2/3 here, and `3 * s * (1 - s)` is at most 3/4
+            let deviation = larger * (T::S::ONE + T::S::HALF) * (T::S::THREE / T::S::FOUR);
 
             if deviation <= error {
                 // The segment is acceptable; push p1
-- 
2.43.0


From d446e7cc762243a8390638d2fec66b27a00873d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:22 +0000
Subject: [PATCH 22/44] fix: edges that are straight within the tolerance don't
 stay curved when flattening

---
 src/mesh/mesh/basics.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/mesh/mesh/basics.rs b/src/mesh/mesh/basics.rs
index 9936016..0189a52 100644
--- a/src/mesh/mesh/basics.rs
+++ b/src/mesh/mesh/basics.rs
@@ -176,14 +176,14 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
             let edge = self.edge(*e);
             if edge.curve_type() != CurvedEdgeType::Linear {
                 let vs = edge.flatten_casteljau(tol, self);
-                if vs.len() == 0 {
-                    continue;
+                // a curve that is straight within the tolerance doesn't need any vertices
+                if vs.len() > 0 {
+                    self.insert_vertices_into_edge(
+                        *e,
+                        vs.iter()
+                            .map(|v| (T::EP::default(), T::EP::default(), T::VP::from_pos(*v))),
+                    );
                 }
-                self.insert_vertices_into_edge(
-                    *e,
-                    vs.iter()
-                        .map(|v| (T::EP::default(), T::EP::default(), T::VP::from_pos(*v))),
-                );
                 self.edge_mut(*e).set_curve_type(CurvedEdgeType::Linear);
             }
         }
-- 
2.43.0


From 1162b38523200400ab809ae7ee0f075723f1888c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:47 +0000
Subject: [PATCH 23/44] fix: rotation between opposite directions

---
 src/extensions/nalgebra/math/rotate.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/extensions/nalgebra/math/rotate.rs b/src/extensions/nalgebra/math/rotate.rs
index f3ecdbd..d285947 100644
--- a/src/extensions/nalgebra/math/rotate.rs
+++ b/src/extensions/nalgebra/math/rotate.rs
@@ -98,14 +98,19 @@ impl<S: Scalar, const D: usize> NdRotate<S, D> {
                 rot: None,
             }
         } else if D == 3 {
+            let from = from.fixed_rows::<3>(0).into_owned();
+            let to = to.fixed_rows::<3>(0).into_owned();
             Self {
                 rot2: None,
                 rot3: Some(
-                    nalgebra::Rotation3::rotation_between(
-                        &from.fixed_rows::<3>(0).into_owned(),
-                        &to.fixed_rows::<3>(0).into_owned(),
-                    )
-                    .expect("Failed to create rotation"),
+                    nalgebra::Rotation3::rotation_between(&from, &to).unwrap_or_else(|| {
+                        // opposite directions: half a turn around any perpendicular axis
+                        let axis = from.cross(&VecN::<S, 3>::ith(from.iamin(), S::ONE));
+                        nalgebra::Rotation3::from_axis_angle(
+                            &nalgebra::Unit::new_normalize(axis),
+                            S::PI,
+                        )
+                    }),
                 ),
                 rot: None,
             }
-- 
2.43.0


From f8175dd8169138630c6d064663817c6f651598d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:47 +0000
Subject: [PATCH 24/44] fix: zero is neither positive nor negative

---
 src/math/impls/f32.rs | 4 ++--
 src/math/impls/f64.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/math/impls/f32.rs b/src/math/impls/f32.rs
index 77f8ea8..913589d 100644
--- a/src/math/impls/f32.rs
+++ b/src/math/impls/f32.rs
@@ -19,12 +19,12 @@ impl Scalar for f32 {
 
     #[inline(always)]
     fn is_positive(self) -> bool {
-        self.is_sign_positive()
+        self > 0.0
     }
 
     #[inline(always)]
     fn is_negative(self) -> bool {
-        self.is_sign_negative()
+        self < 0.0
     }
 
     #[inline(always)]
diff --git a/src/math/impls/f64.rs b/src/math/impls/f64.rs
index 93c6f3a..c1c9693 100644
--- a/src/math/impls/f64.rs
+++ b/src/math/impls/f64.rs
@@ -19,12 +19,12 @@ impl Scalar for f64 {
 
     #[inline(always)]
     fn is_positive(self) -> bool {
-        self.is_sign_positive()
+        self > 0.0
     }
 
     #[inline(always)]
     fn is_negative(self) -> bool {
-        self.is_sign_negative()
+        self < 0.0
     }
 
     #[inline(always)]
-- 
2.43.0


From 4a783600fbc1ec37ab0a46516bb86e448d3011a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:47 +0000
Subject: [PATCH 25/44] fix: ear clipping of polygons with straight corners

---
 src/tesselate/ear_clipping.rs | 48 ++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/src/tesselate/ear_clipping.rs b/src/tesselate/ear_clipping.rs
index 5e9a0c4..d9ccb78 100644
--- a/src/tesselate/ear_clipping.rs
+++ b/src/tesselate/ear_clipping.rs
@@ -28,16 +28,25 @@ pub fn ear_clipping_direct<Vec2: Vector2D, V: IndexType>(
     indices: &mut Triangulation<V>,
     randomize: bool,
 ) {
-    let eps = <Vec2::S as Scalar>::EPS * 2.0.into();
-    let mut success_since_fail = 0;
-
-    let triangle_empty = |a: usize, b: usize, c: usize| {
+    // Whether no other remaining vertex prevents the ear `b` from being cut off.
+    // A vertex on the boundary of the triangle also prevents it, unless `relaxed`.
+    let triangle_empty = |a: usize, b: usize, c: usize, clipped: &[bool], relaxed: bool| {
         let av = vs[a].0;
         let bv = vs[b].0;
         let cv = vs[c].0;
-        vs.iter()
-            .enumerate()
-            .all(|(i, v)| i == a || i == b || i == c || !v.0.is_inside_triangle(av, bv, cv))
+        vs.iter().enumerate().all(|(i, v)| {
+            i == a
+                || i == b
+                || i == c
+                || clipped[i]
+                || if relaxed {
+                    !v.0.is_inside_triangle(av, bv, cv)
+                } else {
+                    Vec2::barycentric_sign(av, bv, v.0).is_negative()
+                        || Vec2::barycentric_sign(bv, cv, v.0).is_negative()
+                        || Vec2::barycentric_sign(cv, av, v.0).is_negative()
+                }
+        })
     };
 
     let n0 = vs.len();
@@ -51,6 +60,7 @@ pub fn ear_clipping_direct<Vec2: Vector2D, V: IndexType>(
     }
     let mut n = n0;
     let mut fails_since_advance = 0;
+    let mut relaxed = false;
     while n > 2 {
         let mut i_b = (i_a + 1) % n0;
         while clipped[i_b] {
@@ -65,30 +75,28 @@ pub fn ear_clipping_direct<Vec2: Vector2D, V: IndexType>(
         debug_assert!(i_b != i_c);
         debug_assert!(i_c != i_a);
 
-        // cut the ear off
-        if !vs[i_b].0.convex(vs[i_a].0, vs[i_c].0)
-                || !triangle_empty(i_a, i_b, i_c)
-                // if there are nearly collinear points, we can't cut the ear, because triangle_empty could block any progress afterwards
-                || (success_since_fail >= 2 &&vs[i_b].0.collinear(vs[i_a].0, vs[i_c].0, eps))
-        {
+        // Cut the ear off. A simple polygon always has a strictly convex corner whose triangle
+        // touches no other vertex. Only numerical problems can require the relaxed criterion.
+        let turn = Vec2::barycentric_sign(vs[i_a].0, vs[i_b].0, vs[i_c].0);
+        let convex = turn.is_positive() || (relaxed && !turn.is_negative());
+        if !convex || !triangle_empty(i_a, i_b, i_c, &clipped, relaxed) {
             fails_since_advance += 1;
             if fails_since_advance > n {
-                // If there are nearly collinear points, triangle_empty might not work correctly
-                if success_since_fail < 2 {
+                if relaxed {
                     panic!("Ear-clipping failed to find a valid triangle due to nearly collinear points");
                 }
-                success_since_fail = 0;
-            } else {
-                i_a = i_b;
-                continue;
+                relaxed = true;
+                fails_since_advance = 0;
             }
+            i_a = i_b;
+            continue;
         }
 
         indices.insert_triangle(vs[i_a].1, vs[i_c].1, vs[i_b].1);
         clipped[i_b] = true;
         n -= 1;
         fails_since_advance = 0;
-        success_since_fail += 1;
+        relaxed = false;
 
         if randomize {
             i_a = rand::random_range(0..n0);
-- 
2.43.0


From e33c5732cc355dd4d5c26932d2dd05fc3c8caa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:47 +0000
Subject: [PATCH 26/44] fix: sweep line: a position outside of all intervals is
 not an error

---
 src/tesselate/sweep/status.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/tesselate/sweep/status.rs b/src/tesselate/sweep/status.rs
index 131a7c9..a60dee8 100644
--- a/src/tesselate/sweep/status.rs
+++ b/src/tesselate/sweep/status.rs
@@ -238,6 +238,13 @@ impl<MT: MonotoneTriangulator> SweepLineStatus<MT> {
             .next()
             .map(|sorter| sorter.left);
 
+        // the closest interval boundary to the left doesn't imply that the position is in the interval
+        let x = x.filter(|i| {
+            self.left[*i]
+                .as_ref()
+                .map_or(false, |v| v.contains(pos, vec2s))
+        });
+
         debug_assert!(
             x == self.find_linearly(pos, vec2s),
             "The binary search did not return the same result as the linear search. {:?} != {:?}
@@ -250,14 +257,7 @@ impl<MT: MonotoneTriangulator> SweepLineStatus<MT> {
             self.tree,
         );
 
-        if let Some(i) = x {
-            if let Some(v) = &self.left[i] {
-                if v.contains(pos, vec2s) {
-                    return x;
-                }
-            }
-        }
-        None
+        x
     }
 
     /// Delayed initialization of the b-tree
-- 
2.43.0


From cd5a74a90fc4659d4e0fd496585b2e397d68ffe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:47 +0000
Subject: [PATCH 27/44] fix: sweep line: connect a split vertex to the helper

---
 src/tesselate/sweep/sweep.rs | 42 +++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/tesselate/sweep/sweep.rs b/src/tesselate/sweep/sweep.rs
index 48acda5..a8e4e0d 100644
--- a/src/tesselate/sweep/sweep.rs
+++ b/src/tesselate/sweep/sweep.rs
@@ -126,26 +126,32 @@ impl<'a, 'b, MT: MonotoneTriangulator> SweepContext<'a, 'b, MT> {
         let line = self.sls.remove_left(i, &self.vec2s).unwrap();
         assert!(!line.is_end(), "A split vertex must not be an end vertex");
 
-        let stacks = if let Some(mut fixup) = line.fixup {
+        // Connect the split vertex to the helper. The chain that ends at the helper is continued.
+        let helper_chain = |left: bool, tri: &mut Triangulation<MT::V>| {
+            let mut x = MT::new(line.helper);
+            if left {
+                x.left(event.here, tri, self.vec2s);
+            } else {
+                x.right(event.here, tri, self.vec2s);
+            }
+            x
+        };
+        let (left_chain, right_chain) = if let Some(mut fixup) = line.fixup {
             #[cfg(feature = "sweep_debug_print")]
             println!("fixup split: {}", fixup);
 
-            let t = fixup.last_opposite();
-
-            fixup.right(event.here, self.tri, self.vec2s);
-            fixup.finish(self.tri, self.vec2s);
-
-            let mut x = MT::new(t);
-            x.left(event.here, self.tri, self.vec2s);
-            x
+            let mut x = line.chain;
+            x.right(event.here, self.tri, self.vec2s);
+            fixup.left(event.here, self.tri, self.vec2s);
+            (x, fixup)
         } else if line.chain.is_right() {
-            let mut x = MT::new(line.helper);
-            x.left(event.here, self.tri, self.vec2s);
-            x
+            let mut x = line.chain;
+            x.right(event.here, self.tri, self.vec2s);
+            (x, helper_chain(true, self.tri))
         } else {
-            let mut x = MT::new(line.chain.last_opposite());
+            let mut x = line.chain;
             x.left(event.here, self.tri, self.vec2s);
-            x
+            (helper_chain(false, self.tri), x)
         };
 
         self.sls.insert(
@@ -153,11 +159,7 @@ impl<'a, 'b, MT: MonotoneTriangulator> SweepContext<'a, 'b, MT> {
                 helper: event.here,
                 left: line.left,
                 right: IntervalBoundaryEdge::new(event.here, event.prev),
-                chain: {
-                    let mut x = line.chain;
-                    x.right(event.here, self.tri, self.vec2s);
-                    x
-                },
+                chain: left_chain,
                 fixup: None,
             },
             self.vec2s,
@@ -168,7 +170,7 @@ impl<'a, 'b, MT: MonotoneTriangulator> SweepContext<'a, 'b, MT> {
                 helper: event.here,
                 left: IntervalBoundaryEdge::new(event.here, event.next),
                 right: line.right,
-                chain: stacks,
+                chain: right_chain,
                 fixup: None,
             },
             self.vec2s,
-- 
2.43.0


From 045e2743d6078b593c0fa20755b98612a2077867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:47 +0000
Subject: [PATCH 28/44] fix: delaunay: find the inside by crossing the boundary
 instead of comparing angles

---
 src/tesselate/delaunay.rs | 95 +++++++++++----------------------------
 1 file changed, 25 insertions(+), 70 deletions(-)

diff --git a/src/tesselate/delaunay.rs b/src/tesselate/delaunay.rs
index 0a623b4..b9ae307 100644
--- a/src/tesselate/delaunay.rs
+++ b/src/tesselate/delaunay.rs
@@ -1,7 +1,7 @@
 use super::Triangulation;
 use crate::{
-    math::{IndexType, Scalar, Vector, Vector2D},
-    mesh::{Face, Face3d, FaceBasics, MeshType3D},
+    math::{Scalar, Vector},
+    mesh::{Face3d, FaceBasics, MeshType3D},
 };
 use itertools::Itertools;
 use spade::{ConstrainedDelaunayTriangulation, Point2, Triangulation as _};
@@ -39,76 +39,31 @@ pub fn delaunay_triangulation<T: MeshType3D>(
     }
     assert!(cdt.add_constraint(last.unwrap(), first.unwrap()));
 
-    //let v2d = face.vertices_2d(mesh).collect::<Vec<_>>();
-    //let poly = T::Poly::from_iter(v2d.iter().map(|(v, _)| v.clone()));
+    // Walk from the outside through the whole triangulation. Each time a constraint, i.e., the
+    // boundary of the face, is crossed, we change between the outside and the inside of the face.
+    // This doesn't depend on the numerics of nearly degenerate triangles.
+    let mut is_inside: Vec<Option<bool>> = vec![None; cdt.num_all_faces()];
+    is_inside[cdt.outer_face().index()] = Some(false);
+    let mut stack = cdt
+        .convex_hull()
+        .map(|e| if e.is_outer_edge() { e } else { e.rev() })
+        .collect_vec();
+    while let Some(e) = stack.pop() {
+        let from = is_inside[e.face().index()].unwrap();
+        let Some(f) = e.rev().face().as_inner() else {
+            continue;
+        };
+        if is_inside[f.index()].is_some() {
+            continue;
+        }
+        is_inside[f.index()] = Some(from != e.is_constraint_edge());
+        stack.extend(f.adjacent_edges());
+    }
 
     cdt.inner_faces().for_each(|f| {
-        let [p0, p1, p2] = f.vertices();
-        let v0 = i2v[p0.index()];
-        let v1 = i2v[p1.index()];
-        let v2 = i2v[p2.index()];
-        let r = face.triangle_touches_boundary(mesh, v0, v1, v2);
-        if r.is_none() || r.unwrap() {
-            if r.is_some() {
-                tri.insert_triangle(v0, v1, v2);
-                return;
-            }
-
-            /*
-            // For triangles fully within or without the face, we need to check the centroid of the triangle
-            // TODO: is there a better way? this is inefficient
-            let mut triangle: Vec<T::Vec2> = Vec::new();
-            for (v, i) in &v2d {
-                if *i == v0 || *i == v1 || *i == v2 {
-                    triangle.push(*v);
-                }
-            }
-            let triangle = T::Poly::from_iter(triangle);
-            if poly.contains(&triangle.centroid()) {
-                tri.insert_triangle(v0, v1, v2);
-            }*/
-
-            // faster check: if the angle in direction of the face boundary is smaller than the boundary angle, it's inside
-
-            fn wrap_angle<S: Scalar>(x: S) -> S {
-                if x < S::zero() {
-                    x + S::PI * S::TWO
-                } else {
-                    x
-                }
-            }
-
-            fn is_edge_inside<V: IndexType, V2: Vector2D>(
-                vec2s: &[(V2, V)],
-                v: usize,
-                other_v: usize,
-            ) -> bool {
-                let n = vec2s.len();
-                let prev = vec2s[(v + n - 1) % n].0;
-                let next = vec2s[(v + 1) % n].0;
-                let triangle_angle = wrap_angle(vec2s[v].0.angle_tri(vec2s[other_v].0, prev));
-                let boundary_angle = wrap_angle(vec2s[v].0.angle_tri(next, prev));
-                triangle_angle <= boundary_angle
-            }
-
-            {
-                let is_inside = is_edge_inside(&vec2s, p0.index(), p1.index());
-                if is_inside {
-                    tri.insert_triangle(v0, v1, v2);
-                }
-
-                // we expect the same result for all 6 edge orientations
-                for (v, other_v) in &[(p0, p1), (p1, p2), (p2, p0)] {
-                    debug_assert_eq!(
-                        is_edge_inside(&vec2s, v.index(), other_v.index()),
-                        is_inside
-                    );
-                    debug_assert_eq!(
-                        is_edge_inside(&vec2s, other_v.index(), v.index()),
-                        is_inside
-                    );
-                }
-            }
+        if is_inside[f.index()].unwrap() {
+            let [p0, p1, p2] = f.vertices();
+            tri.insert_triangle(i2v[p0.index()], i2v[p1.index()], i2v[p2.index()]);
         }
     });
 
-- 
2.43.0


From 2469785a9e32d80284b6543037e40c576e183646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 29/44] fix: a face whose corners all turn against their
 neighbours is not convex

---
 src/mesh/face/face3d.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mesh/face/face3d.rs b/src/mesh/face/face3d.rs
index aaef6ef..0c63689 100644
--- a/src/mesh/face/face3d.rs
+++ b/src/mesh/face/face3d.rs
@@ -28,8 +28,7 @@ pub trait Face3d<T: MeshType3D<Face = Self>>: FaceBasics<T> {
         // TODO: collinear points cause problems
         self.vertices_crossed(mesh)
             .circular_tuple_windows::<(_, _)>()
-            .map(|w| w.0.dot(&w.1).is_positive())
-            .all_equal()
+            .all(|w| w.0.dot(&w.1).is_positive())
     }
 
     /// Whether the face is planar.
-- 
2.43.0


From c03263bfd020bad4449078846d2fbc0a0c9fba41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 30/44] fix: whether a face is planar does not hinge on its
 first three corners being no line

---
 src/mesh/face/face3d.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/mesh/face/face3d.rs b/src/mesh/face/face3d.rs
index 0c63689..935c989 100644
--- a/src/mesh/face/face3d.rs
+++ b/src/mesh/face/face3d.rs
@@ -34,14 +34,23 @@ pub trait Face3d<T: MeshType3D<Face = Self>>: FaceBasics<T> {
     /// Whether the face is planar.
     fn is_planar(&self, mesh: &T::Mesh, eps: T::S) -> bool {
         // TODO: is this correct?
-        // TODO: collinear points cause problems
 
-        let three: Vec<_> = self.vertices(mesh).take(3).map(|v| v.pos()).collect();
-        let n = (three[1] - three[0]).cross(&(three[2] - three[0]));
+        let first = match self.vertices(mesh).next() {
+            Some(v) => v.pos(),
+            None => return true,
+        };
+        // the first three consecutive corners that are not collinear
+        let n = match self
+            .vertices_crossed(mesh)
+            .find(|n| n.length_squared() > T::S::EPS)
+        {
+            Some(n) => n,
+            None => return true,
+        };
 
         self.vertices(mesh).skip(2).all(|v| {
             let v = v.pos();
-            (v - three[0]).dot(&n).abs() < eps
+            (v - first).dot(&n).abs() < eps
         })
     }
 
-- 
2.43.0


From a09305f75327ba326ab779b09eea13a2a48189c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 31/44] fix: the area of a triangle is its area, not twice that

---
 src/mesh/triangulation.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mesh/triangulation.rs b/src/mesh/triangulation.rs
index c122812..443d6ec 100644
--- a/src/mesh/triangulation.rs
+++ b/src/mesh/triangulation.rs
@@ -93,7 +93,8 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
         let v2 = vec_hm[&i3];
 
         // Use the determinant to calculate the area of the triangle
-        (v1.x() - v0.x()) * (v2.y() - v0.y()) - (v1.y() - v0.y()) * (v2.x() - v0.x())
+        Vec2::S::HALF
+            * ((v1.x() - v0.x()) * (v2.y() - v0.y()) - (v1.y() - v0.y()) * (v2.x() - v0.x()))
     }
 
     /// Insert a triangle into the triangulation using local indices
@@ -282,11 +283,10 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
 
     /// Sum the area of all triangles added to the index buffer since the triangulation was created
     pub fn get_area<Vec2: Vector2D>(&self, vec_hm: &HashMap<V, Vec2>) -> Vec2::S {
-        Vec2::S::HALF
-            * (0..self.len())
-                .into_iter()
-                .map(|i| self.get_triangle_area(i, vec_hm).abs())
-                .stable_sum()
+        (0..self.len())
+            .into_iter()
+            .map(|i| self.get_triangle_area(i, vec_hm).abs())
+            .stable_sum()
     }
 
     /// Calculate the total edge weight of the triangulation
-- 
2.43.0


From cbb398da3e2eaa93aa882167966966705be32d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 32/44] fix: verifying the area of a triangulation accepted
 anything up to twice the area

---
 src/mesh/triangulation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/triangulation.rs b/src/mesh/triangulation.rs
index 443d6ec..46fd513 100644
--- a/src/mesh/triangulation.rs
+++ b/src/mesh/triangulation.rs
@@ -314,7 +314,7 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
         // Check if the area of the polygon is the same as the sum of the areas of the triangles
         assert!(
             (Vec2::S::ONE - area / reference).abs()
-                <= (Vec2::S::ONE + Vec2::S::from_usize(5) * Vec2::S::EPS),
+                <= Vec2::S::EPS.sqrt(),
             "Area of the polygon is not equal to the sum of the areas of the triangles ({} != {})",
             area,
             reference
-- 
2.43.0


From 01dbaebcf1ae7bd6089d01a6c6d17fdc6cd1bd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 33/44] fix: with_scale scales everything before it, not what a
 rotation is applied to

---
 src/extensions/nalgebra/math/transform_n.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensions/nalgebra/math/transform_n.rs b/src/extensions/nalgebra/math/transform_n.rs
index a4c718c..4db28ee 100644
--- a/src/extensions/nalgebra/math/transform_n.rs
+++ b/src/extensions/nalgebra/math/transform_n.rs
@@ -91,7 +91,7 @@ impl<S: ScalarPlus, const D: usize> TransformTrait<S, D> for NdAffine<S, D> {
 
     fn with_scale(&self, v: Self::Vec) -> Self {
         Self {
-            matrix: self.matrix * SMatrix::<S, D, D>::from_diagonal(&v),
+            matrix: SMatrix::<S, D, D>::from_diagonal(&v) * self.matrix,
             translation: self.translation.component_mul(&v),
         }
     }
-- 
2.43.0


From 7e7c102e75c0f431657dbbba07a6ccb5a0d979ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:10 +0000
Subject: [PATCH 34/44] fix: closing an open path with the path builder always
 panicked

---
 src/mesh/mesh/path_builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/mesh/path_builder.rs b/src/mesh/mesh/path_builder.rs
index 4b1e395..f182efe 100644
--- a/src/mesh/mesh/path_builder.rs
+++ b/src/mesh/mesh/path_builder.rs
@@ -221,12 +221,11 @@ where
             return self.mesh().close_hole(start_inner, fp, false);
         }
 
-        self.closed = true;
-
         let Some((current_inner, current_outer)) = self.current_edges() else {
             // The current vertex doesn't have any edges yet.
             assert!(self.start_edges().is_none());
             assert!(self.start_vertex() == self.current_vertex());
+            self.closed = true;
             return IndexType::max();
         };
         let Some((start_inner, _start_outer)) = self.start_edges() else {
@@ -248,6 +247,7 @@ where
             //self.mesh().close
             self.line_to(self.start_vertex());
         }
+        self.closed = true;
 
         // TODO: is this necessary or not? Generally, is the correction above correct? Or is the winding in the opposite direction?
         /*debug_assert!(self
-- 
2.43.0


From f48bb534da1ca12efe5b012f624b28c0fd9ea1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:10 +0000
Subject: [PATCH 35/44] fix: advances and kerning of a text are in the scale of
 its outlines

---
 src/mesh/mesh/fonts.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/mesh/mesh/fonts.rs b/src/mesh/mesh/fonts.rs
index 977ac25..ac154a8 100644
--- a/src/mesh/mesh/fonts.rs
+++ b/src/mesh/mesh/fonts.rs
@@ -27,8 +27,12 @@ impl<'a> Font<'a> {
         self.scale = scale;
     }
 
+    /// The scale in pixels, both for the outlines and for the advances.
     fn font_scale(&self) -> f32 {
-        self.scale //* self.font.pt_to_px_scale(1.0).map(|x| x.x).unwrap_or(1.0)
+        self.font
+            .pt_to_px_scale(self.scale)
+            .map(|x| x.x)
+            .unwrap_or(self.scale)
     }
 
     /// Get the advance of the given character.
@@ -89,13 +93,7 @@ impl<'a> Font<'a> {
             return;
         };
 
-        let scale = T::S::from(
-            self.font
-                .pt_to_px_scale(self.scale)
-                .map(|x| x.x)
-                .unwrap_or(self.scale)
-                / self.font.height_unscaled(),
-        );
+        let scale = T::S::from(self.font_scale() / self.font.height_unscaled());
         let mut first = None;
         let mut cur = None;
         let mut cur_v = IndexType::max();
-- 
2.43.0


From f942ab1a27ecb6279bfb88153ed5191f5b66161b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:10 +0000
Subject: [PATCH 36/44] fix: the last curve of a glyph's contour ran backwards

---
 src/mesh/mesh/fonts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/mesh/fonts.rs b/src/mesh/mesh/fonts.rs
index ac154a8..f77d9ee 100644
--- a/src/mesh/mesh/fonts.rs
+++ b/src/mesh/mesh/fonts.rs
@@ -134,7 +134,7 @@ impl<'a> Font<'a> {
             if let Some(_p) = cur {
                 // TODO: don't use eq but similarity
                 if first.unwrap() == p1 {
-                    let (_, _, e) = mesh.close_face_vertices(
+                    let (_, e, _) = mesh.close_face_vertices(
                         prev_v,
                         Default::default(),
                         cur_v,
-- 
2.43.0


From d4402a613af9819abda460af438a98b4edb02340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:04 +0000
Subject: [PATCH 37/44] fix: rotating a 2d Bevy vertex payload panicked (todo)

---
 src/extensions/bevy/vertex_payload_2d.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/extensions/bevy/vertex_payload_2d.rs b/src/extensions/bevy/vertex_payload_2d.rs
index 50f57fd..a7e7e97 100644
--- a/src/extensions/bevy/vertex_payload_2d.rs
+++ b/src/extensions/bevy/vertex_payload_2d.rs
@@ -46,8 +46,9 @@ impl Transformable<2> for BevyVertexPayload2d {
     }
 
     #[inline(always)]
-    fn rotate(&mut self, _r: &Self::Rot) -> &mut Self {
-        todo!("rotate")
+    fn rotate(&mut self, r: &Self::Rot) -> &mut Self {
+        self.position = bevy::math::Affine2::from_angle(*r).transform_vector2(self.position);
+        self
     }
 
     #[inline(always)]
-- 
2.43.0


From 02f417269104eae16594cb0f3a1f8bbcd3361b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:04 +0000
Subject: [PATCH 38/44] fix: a Bevy Transform translated directions

---
 src/extensions/bevy/math/vec3.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensions/bevy/math/vec3.rs b/src/extensions/bevy/math/vec3.rs
index 9886598..f108782 100644
--- a/src/extensions/bevy/math/vec3.rs
+++ b/src/extensions/bevy/math/vec3.rs
@@ -175,7 +175,7 @@ impl TransformTrait<f32, 3> for TransformBevy {
 
     #[inline(always)]
     fn apply_vec(&self, v: Vec3) -> Vec3 {
-        self.apply(v)
+        self.rotation * (self.scale * v)
     }
 
     #[inline(always)]
-- 
2.43.0


From 3b689b5f8ac5844c8ffc6568cfb69c00ed5c696d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:04 +0000
Subject: [PATCH 39/44] fix: adding a scale or translation to a Bevy Transform
 replaced the old one

---
 src/extensions/bevy/math/vec3.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensions/bevy/math/vec3.rs b/src/extensions/bevy/math/vec3.rs
index f108782..6d89758 100644
--- a/src/extensions/bevy/math/vec3.rs
+++ b/src/extensions/bevy/math/vec3.rs
@@ -153,12 +153,12 @@ impl TransformTrait<f32, 3> for TransformBevy {
 
     #[inline(always)]
     fn with_scale(&self, scale: Self::Vec) -> Self {
-        TransformBevy::with_scale(*self, scale)
+        TransformBevy::from_scale(scale) * *self
     }
 
     #[inline(always)]
     fn with_translation(&self, v: Self::Vec) -> Self {
-        TransformBevy::with_translation(*self, v)
+        TransformBevy::with_translation(*self, self.translation + v)
     }
 
     #[inline(always)]
-- 
2.43.0


From 64ad3ac0d27e17102ba3dc3a059acb90b472a69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:04 +0000
Subject: [PATCH 40/44] fix: scaling a 4d affine map scaled its diagonal only

---
 src/extensions/bevy/math/mat5.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/extensions/bevy/math/mat5.rs b/src/extensions/bevy/math/mat5.rs
index 8ef8e97..62b1ba0 100644
--- a/src/extensions/bevy/math/mat5.rs
+++ b/src/extensions/bevy/math/mat5.rs
@@ -142,10 +142,11 @@ impl TransformTrait<f32, 4> for Mat5<f32> {
 
     fn with_scale(&self, v: Self::Vec) -> Self {
         let mut m = *self;
-        m.data[0] *= v.x;
-        m.data[6] *= v.y;
-        m.data[12] *= v.z;
-        m.data[18] *= v.w;
+        for i in 0..4 {
+            for j in 0..5 {
+                m.data[i * 5 + j] *= v[i];
+            }
+        }
         m
     }
 
-- 
2.43.0


From b37fc0a75b0c3b06644140b8c526be361677ad55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:04 +0000
Subject: [PATCH 41/44] fix: chaining Bevy transforms applied the right one
 first

---
 src/extensions/bevy/math/mat5.rs | 2 +-
 src/extensions/bevy/math/vec2.rs | 2 +-
 src/extensions/bevy/math/vec3.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/extensions/bevy/math/mat5.rs b/src/extensions/bevy/math/mat5.rs
index 62b1ba0..f328742 100644
--- a/src/extensions/bevy/math/mat5.rs
+++ b/src/extensions/bevy/math/mat5.rs
@@ -178,6 +178,6 @@ impl TransformTrait<f32, 4> for Mat5<f32> {
 
     #[inline(always)]
     fn chain(&self, other: &Self) -> Self {
-        *self * *other
+        *other * *self
     }
 }
diff --git a/src/extensions/bevy/math/vec2.rs b/src/extensions/bevy/math/vec2.rs
index be4839e..1322558 100644
--- a/src/extensions/bevy/math/vec2.rs
+++ b/src/extensions/bevy/math/vec2.rs
@@ -160,7 +160,7 @@ impl TransformTrait<f32, 2> for Affine2 {
 
     #[inline(always)]
     fn chain(&self, other: &Self) -> Self {
-        *self * *other
+        *other * *self
     }
 }
 
diff --git a/src/extensions/bevy/math/vec3.rs b/src/extensions/bevy/math/vec3.rs
index 6d89758..cbaaafc 100644
--- a/src/extensions/bevy/math/vec3.rs
+++ b/src/extensions/bevy/math/vec3.rs
@@ -180,7 +180,7 @@ impl TransformTrait<f32, 3> for TransformBevy {
 
     #[inline(always)]
     fn chain(&self, other: &Self) -> Self {
-        *self * *other
+        *other * *self
     }
 }
 
-- 
2.43.0


From d9763ed6d68a5ee6ccf10d5306ccc4ea72afcebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:04 +0000
Subject: [PATCH 42/44] fix: rounding errors made nearly collinear segments
 that are far apart intersect

---
 src/math/line_segment.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/math/line_segment.rs b/src/math/line_segment.rs
index a483519..72f50b1 100644
--- a/src/math/line_segment.rs
+++ b/src/math/line_segment.rs
@@ -58,6 +58,27 @@ impl<Vec2: Vector2D> LineSegment2D<Vec2> {
     pub fn intersect_line(&self, other: &Self, eps: Vec2::S, eps2: Vec2::S) -> Option<Vec2> {
         let r = self.end() - self.start();
         let s = other.end() - other.start();
+
+        // Segments with disjoint bounding boxes never meet. Without this, the rounding errors
+        // of nearly collinear segments would decide on whether they do.
+        let apart = |a: Vec2::S, b: Vec2::S, c: Vec2::S, d: Vec2::S| {
+            let tol = ((b - a).abs() + (d - c).abs()) * eps2.abs();
+            a.max(b) + tol < c.min(d) || c.max(d) + tol < a.min(b)
+        };
+        if apart(
+            self.start().x(),
+            self.end().x(),
+            other.start().x(),
+            other.end().x(),
+        ) || apart(
+            self.start().y(),
+            self.end().y(),
+            other.start().y(),
+            other.end().y(),
+        ) {
+            return None;
+        }
+
         let rxs = r.perp_dot(&s);
         if rxs.abs() <= eps {
             // Lines are parallel or coincident
-- 
2.43.0


From a432bfc0793ac6742c47e379d78d97ab7aa8f048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:26 +0000
Subject: [PATCH 43/44] fix: sweep asserted that the boundary edges of an
 interval don't cross where rounding puts one slightly past the other

---
 src/tesselate/sweep/interval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tesselate/sweep/interval.rs b/src/tesselate/sweep/interval.rs
index d5777e9..6fb9c90 100644
--- a/src/tesselate/sweep/interval.rs
+++ b/src/tesselate/sweep/interval.rs
@@ -91,8 +91,8 @@ impl<MT: MonotoneTriangulator> SweepLineInterval<MT> {
         if p1 > pos.x() {
             return false;
         }
+        // where the two edges meet, rounding can put `p2` slightly to the left of `p1`
         let p2 = self.right.x_at_y::<MT::V, MT::Vec2>(pos.y(), vec2s);
-        assert!(p1 <= p2);
         return pos.x() <= p2;
     }
 
-- 
2.43.0


From d0a9c81e4a9f6ea55690ad2e347863c2568ca37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:09 +0000
Subject: [PATCH 44/44] fix: a diagonal through a corner was taken for valid
 where rounding moves the corner slightly off it

---
 src/math/polygon.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/math/polygon.rs b/src/math/polygon.rs
index e7c821e..6edc608 100644
--- a/src/math/polygon.rs
+++ b/src/math/polygon.rs
@@ -98,6 +98,13 @@ pub trait Polygon<Vec2: Vector2D>: Clone + PartialEq + std::fmt::Debug + 'static
             return false;
         }
 
+        // The coordinates are only known up to rounding errors that grow with their magnitude.
+        let magnitude = ps
+            .iter()
+            .fold(Vec2::S::ZERO, |m, p| m.max(p.x().abs()).max(p.y().abs()));
+        let error = magnitude * Vec2::S::EPS * Vec2::S::FOUR;
+        let r = ps[j] - ps[i];
+
         // Is there a boundary edge intersecting the diagonal?
         for start in 0..n {
             let end = (start + 1) % n;
@@ -106,11 +113,18 @@ pub trait Polygon<Vec2: Vector2D>: Clone + PartialEq + std::fmt::Debug + 'static
                 continue;
             }
 
+            // A corner on the diagonal must not be missed due to these errors.
+            let s = ps[end] - ps[start];
+            let rxs = r.perp_dot(&s).abs().max(Vec2::S::EPS);
+            let eps2 = (error * (r.length() + s.length()) / rxs)
+                .max(Vec2::S::EPS)
+                .min(Vec2::S::EPS.sqrt());
+
             if LineSegment2D::new(ps[i], ps[j])
                 .intersect_line(
                     &LineSegment2D::new(ps[start], ps[end]),
                     Vec2::S::EPS,
-                    Vec2::S::EPS,
+                    eps2,
                 )
                 .is_some()
             {
-- 
2.43.0

