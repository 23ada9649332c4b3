From 7cab43b98ce5698fef8f36e35cae168d084200d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:39 +0000
Subject: [PATCH 01/26] fix: start the simplex search at index 0 so a
 one-simplex triangulation can be searched

---
 qhull-rs/src/delaunay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index 180c2d7..4c91244 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -399,7 +399,7 @@ impl<'a, N> SimplexSearcher<'a, N>
         }
 
 
-        let start_simplex_idx = self.start_hint.get().unwrap_or(1);
+        let start_simplex_idx = self.start_hint.get().unwrap_or(0);
         let mut simplex = Simplex { delaunay: self.delaunay, idx: start_simplex_idx };
 
         let lifted_point = self.delaunay.lift_point(point);
-- 
2.43.0


From dd28f95149db409845de99f2bd4cf0d7a0070479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:39 +0000
Subject: [PATCH 02/26] fix: compute Simplex::plane_distance and the paraboloid
 lift as qhull does

---
 qhull-rs/src/delaunay.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index 4c91244..92428ae 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -103,7 +103,7 @@ impl<N> Delaunay<N>
         let last_high = delaunay.last_high();
         let last_newhigh = delaunay.last_newhigh();
 
-        let paraboloid_scale = last_newhigh / last_high - last_low;
+        let paraboloid_scale = last_newhigh / (last_high - last_low);
 
         Delaunay {
             vertices: vertices.into_boxed_slice(),
@@ -112,7 +112,7 @@ impl<N> Delaunay<N>
             normals_and_offsets: normals_and_offsets.into_boxed_slice(),
 
             paraboloid_scale,
-            paraboloid_shift: last_low * paraboloid_scale,
+            paraboloid_shift: -last_low * paraboloid_scale,
         }
     }
 
@@ -245,7 +245,7 @@ impl<'a, N> Simplex<'a, N>
         let (normal, offset) = self.delaunay.normals_and_offsets.get(self.idx).unwrap();
         let mut sum = *offset;
         for (a, b) in point.as_slice().iter().zip(normal.as_slice()) {
-            sum += a + b;
+            sum += a * b;
         }
         sum
     }
-- 
2.43.0


From fe6b3d560aad98c349b7f48a4b51fed4efcba21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:39 +0000
Subject: [PATCH 03/26] fix: solve for the neighbor's own coordinates next to a
 degenerate simplex

---
 qhull-rs/src/delaunay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index 92428ae..4ef1c49 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -462,9 +462,9 @@ impl<'a, N> SimplexSearcher<'a, N>
                         // This neighbor is degenerate too, skip it
                         continue
                     }
+                    transform.solve(point.clone(), bcoords);
                     let inside = self.delaunay.neighbors[neighbor].iter()
                         .zip(bcoords.iter())
-                        .filter(|(i, _)| **i != NON_SIMPLEX_IDX)
                         .all(|(inner_neighbor, coord)| {
                             if inner_neighbor == &i {
                                 *coord >= -eps_broad && *coord <= 1.0 + self.eps
-- 
2.43.0


From 47bc78ac8d69d3cc3d6be780cf75e4ddad443e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:39 +0000
Subject: [PATCH 04/26] fix: stop simplifying the palette hull when no edge can
 be collapsed

---
 image-palette-recoloring/src/palette.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index c264838..7a74902 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -78,7 +78,10 @@ pub fn compute_palette(
     while ch.vertices().len() > min_palette_size {
         // TODO: We need to calculate the level of error we've created here. This gives us a better
         //       idea of when we should exit the loop
-        let (new_vertex, vertices_to_remove) = locate_edge_to_collapse(&ch);
+        let Some((new_vertex, vertices_to_remove)) = locate_edge_to_collapse(&ch) else {
+            // No edge of this hull can be collapsed without losing volume, so we have to bail.
+            break
+        };
         let new_hull = ch.vertices()
             .filter(|v| !vertices_to_remove.contains(&v.index()))
             .map(|v| v.point())
@@ -228,7 +231,7 @@ impl<'a> EdgeData<'a> {
 }
 
 
-fn locate_edge_to_collapse(ch: &ConvexHull<Const<3>>) -> ([f64; 3], [usize; 2]) {
+fn locate_edge_to_collapse(ch: &ConvexHull<Const<3>>) -> Option<([f64; 3], [usize; 2])> {
 
     let edge_data = EdgeData::new(ch);
 
@@ -293,10 +296,9 @@ fn locate_edge_to_collapse(ch: &ConvexHull<Const<3>>) -> ([f64; 3], [usize; 2])
     }
     let (edge_vertices, new_point, _vol) = edge_candidates.iter()
         .min_by(|(_, _, vol_a), (_, _, vol_b)| vol_a.partial_cmp(vol_b).unwrap())
-        .cloned()
-        .unwrap();
+        .cloned()?;
 
-    (new_point, edge_vertices)
+    Some((new_point, edge_vertices))
 }
 
 fn tetrahedron_volume(a: &Vector3<f64>, b: &Vector3<f64>, c: &Vector3<f64>, d: &Vector3<f64>)
-- 
2.43.0


From e4bc7a72ca4d513f7e6354af0548424e7e5e67cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:31 +0000
Subject: [PATCH 05/26] fix: treat singular and nearly singular simplices as
 degenerate in the simplex search

---
 qhull-rs/src/delaunay.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index 4ef1c49..9a827d9 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -612,9 +612,18 @@ impl<N> BarycentricTransformation<N>
                 .map(move |vert| vert[i] - rn)
             );
         let t = OMatrix::<f64, N, N>::from_row_iterator(iter);
+        let one_norm = |m: &OMatrix<f64, N, N>| m.column_iter()
+            .map(|col| col.iter().map(|v| v.abs()).sum::<f64>())
+            .fold(0.0, f64::max);
+        let t_norm = one_norm(&t);
         let decomp = t.lu();
         let mut t_inv = OMatrix::<f64, N, N>::from_element(f64::NAN);
-        let _ = decomp.try_inverse_to(&mut t_inv);
+        let invertible = decomp.try_inverse_to(&mut t_inv);
+        // Like SciPy, treat (nearly) singular transforms as degenerate. The coordinates that they
+        // produce are nothing but rounding error.
+        if !invertible || !(t_norm * one_norm(&t_inv) < 1.0 / (1000.0 * f64::EPSILON)) {
+            t_inv.fill(f64::NAN);
+        }
 
         BarycentricTransformation {
             t_inv,
-- 
2.43.0


From 5005d5ae253300431308de9e329db91bf983aa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:40 +0000
Subject: [PATCH 06/26] fix: panic when qhull reports an error instead of
 jumping through an unset jmp_buf

---
 qhull-rs/src/raw.rs                  | 27 +++++++++++++--------------
 qhull-sys/src/bindings/unix_64bit.rs | 10 ++++++++++
 qhull-sys/src/bindings/wasm_32bit.rs | 10 ++++++++++
 qhull-sys/src/ext.c                  | 28 ++++++++++++++++++++++++++++
 4 files changed, 61 insertions(+), 14 deletions(-)

diff --git a/qhull-rs/src/raw.rs b/qhull-rs/src/raw.rs
index 04f2f4f..70856b9 100644
--- a/qhull-rs/src/raw.rs
+++ b/qhull-rs/src/raw.rs
@@ -55,16 +55,17 @@ impl<N: DimName> ConvexHull<N> {
         let stdout = qhull_sys::rqh_stdout();
         let stderr = qhull_sys::rqh_stderr();
         qhull_sys::qh_init_A(qh, stdin, stdout, stderr, 0, ptr::null_mut());
-        *qhull_sys::rqh_get_NOerrexit(qh) = 0;
         let mut cmd = *b"qhull   Qc Qx         Qt\0";
-        qhull_sys::qh_initflags(qh, cmd.as_mut_ptr().cast());
-        qhull_sys::qh_init_B(qh, buf, len as _, N::dim() as _, 1);
-        qhull_sys::qh_qhull(qh);
-        qhull_sys::qh_triangulate(qh);
-        ConvexHull {
+        let exitcode = qhull_sys::rqh_build(
+            qh, cmd.as_mut_ptr().cast(), 0, buf, len as _, N::dim() as _
+        );
+        let cv = ConvexHull {
             qh: NonNull::new(qh).unwrap(),
             pd: PhantomData,
-        }
+        };
+        // Panicking drops `cv`, which releases everything qhull allocated.
+        assert_eq!(exitcode, 0, "qhull failed to compute the convex hull");
+        cv
     }
 
     pub fn facets<'a>(&'a self) -> FacetListIterator<'a, N> {
@@ -417,18 +418,16 @@ impl<N: DimName> Delaunay<N>
         let stdout = qhull_sys::rqh_stdout();
         let stderr = qhull_sys::rqh_stderr();
         qhull_sys::qh_init_A(qh, stdin, stdout, stderr, 0, ptr::null_mut());
-        *qhull_sys::rqh_get_NOerrexit(qh) = 0;
         let mut cmd = *b"qhull d Qc Qx Qbb Q12 Qt Qz\0";
-        qhull_sys::qh_initflags(qh, cmd.as_mut_ptr().cast());
-        *qhull_sys::rqh_get_PROJECTdelaunay(qh) = 1;
-        qhull_sys::qh_init_B(qh, buf, len as _, N::dim() as _, 1);
-        qhull_sys::qh_qhull(qh);
-        qhull_sys::qh_triangulate(qh);
-
+        let exitcode = qhull_sys::rqh_build(
+            qh, cmd.as_mut_ptr().cast(), 1, buf, len as _, N::dim() as _
+        );
         let cv = ConvexHull {
             qh: NonNull::new(qh).unwrap(),
             pd: PhantomData,
         };
+        // Panicking drops `cv`, which releases everything qhull allocated.
+        assert_eq!(exitcode, 0, "qhull failed to compute the Delaunay triangulation");
         let mut max_bounds = OVector::from_element(f64::MIN);
         let mut min_bounds = OVector::from_element(f64::MAX);
         for vertex in cv.vertices() {
diff --git a/qhull-sys/src/bindings/unix_64bit.rs b/qhull-sys/src/bindings/unix_64bit.rs
index 8f5103b..a5ee86f 100644
--- a/qhull-sys/src/bindings/unix_64bit.rs
+++ b/qhull-sys/src/bindings/unix_64bit.rs
@@ -1038,6 +1038,16 @@ extern "C" {
 extern "C" {
     pub fn rqh_get_NOerrexit(qh: *mut qhT) -> *mut ::std::os::raw::c_uint;
 }
+extern "C" {
+    pub fn rqh_build(
+        qh: *mut qhT,
+        command: *mut ::std::os::raw::c_char,
+        delaunay: ::std::os::raw::c_uint,
+        points: *mut f64,
+        numpoints: ::std::os::raw::c_int,
+        dim: ::std::os::raw::c_int,
+    ) -> ::std::os::raw::c_int;
+}
 extern "C" {
     pub fn rqh_get_facet_list(qh: *mut qhT) -> *mut *mut facetT;
 }
diff --git a/qhull-sys/src/bindings/wasm_32bit.rs b/qhull-sys/src/bindings/wasm_32bit.rs
index 8f4835b..1590076 100644
--- a/qhull-sys/src/bindings/wasm_32bit.rs
+++ b/qhull-sys/src/bindings/wasm_32bit.rs
@@ -1043,6 +1043,16 @@ extern "C" {
 extern "C" {
     pub fn rqh_get_NOerrexit(qh: *mut qhT) -> *mut ::std::os::raw::c_uint;
 }
+extern "C" {
+    pub fn rqh_build(
+        qh: *mut qhT,
+        command: *mut ::std::os::raw::c_char,
+        delaunay: ::std::os::raw::c_uint,
+        points: *mut f64,
+        numpoints: ::std::os::raw::c_int,
+        dim: ::std::os::raw::c_int,
+    ) -> ::std::os::raw::c_int;
+}
 extern "C" {
     pub fn rqh_get_facet_list(qh: *mut qhT) -> *mut *mut facetT;
 }
diff --git a/qhull-sys/src/ext.c b/qhull-sys/src/ext.c
index c0e324b..72461d7 100644
--- a/qhull-sys/src/ext.c
+++ b/qhull-sys/src/ext.c
@@ -22,6 +22,34 @@ unsigned int* rqh_get_NOerrexit(qhT *qh) {
     return &qh->NOerrexit;
 }
 
+/* qhull reports errors by jumping to qh->errexit, so it has to be set while any
+   of these functions run. Returns 0 or qhull's exit code.
+   */
+int rqh_build(
+    qhT *qh,
+    char *command,
+    boolT delaunay,
+    coordT *points,
+    int numpoints,
+    int dim
+) {
+    int exitcode = 0;
+#ifndef WASM
+    exitcode = setjmp(qh->errexit);
+#endif
+    if (exitcode == 0) {
+        qh->NOerrexit = False;
+        qh_initflags(qh, command);
+        if (delaunay)
+            qh->PROJECTdelaunay = True;
+        qh_init_B(qh, points, numpoints, dim, True);
+        qh_qhull(qh);
+        qh_triangulate(qh);
+    }
+    qh->NOerrexit = True;
+    return exitcode;
+}
+
 facetT** rqh_get_facet_list(qhT *qh) {
     return &qh->facet_list;
 }
-- 
2.43.0


From 2551074b852aab61171bbe47f02e4d09f5601bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:19 +0000
Subject: [PATCH 07/26] fix: return an error for palettes with repeated or only
 coplanar colors

---
 image-palette-recoloring/src/lib.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/image-palette-recoloring/src/lib.rs b/image-palette-recoloring/src/lib.rs
index 71e0462..3c09c36 100644
--- a/image-palette-recoloring/src/lib.rs
+++ b/image-palette-recoloring/src/lib.rs
@@ -160,9 +160,23 @@ impl DecomposedImage {
                 palette.len()
             ))
         }
-        let palette_ch: ConvexHull<Const<3>> = palette.iter()
+        if palette.iter().enumerate().any(|(i, color)| palette[..i].contains(color)) {
+            return Err("The palette contains redundant colors (a color appears twice)".into())
+        }
+        let points: Vec<Vector3<f64>> = palette.iter()
             .map(|p| [p[0] as f64, p[1] as f64, p[2] as f64].into())
             .collect();
+        // The colors are distinct, so the first two of them span a line. These determinants are
+        // exact because the components are small integers.
+        let line = points[1] - points[0];
+        let is_flat = points.iter()
+            .map(|p| line.cross(&(p - points[0])))
+            .find(|normal| *normal != Vector3::zeros())
+            .map_or(true, |normal| points.iter().all(|p| normal.dot(&(p - points[0])) == 0.0));
+        if is_flat {
+            return Err("The palette contains redundant colors (all colors are coplanar)".into())
+        }
+        let palette_ch: ConvexHull<Const<3>> = points.into_iter().collect();
 
         for color in palette {
             let color = [color[0] as f64, color[1] as f64, color[2] as f64];
-- 
2.43.0


From 48f13df0c4897e924d72ce0b0ded9a342a606b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:55 +0000
Subject: [PATCH 08/26] fix: skip palette facets coplanar with the star color
 instead of inverting a singular matrix

---
 image-palette-recoloring/src/palette.rs | 37 +++++++++++++------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index 7a74902..8178c5d 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -337,10 +337,17 @@ pub(crate) fn compute_star_triangulation_coordinates(
     // constructed using the triangles on the surface of the convex hull plus 1 point in the convex
     // hull - the "star". (Naturally, we exclude the triangles that include the star itself to
     // avoid degenerate tetrahedrons.)
+    //
+    // Facets involving the star vertex, or coplanar with it, would create degenerate tetrahedrons,
+    // so skip them. (The colors are small integers, so this determinant is exact.)
+    let is_star_facet = |f: &Facet<Const<3>>| {
+        let mut it = f.vertices().map(|v| v.point() - star_value);
+        let (d0, d1, d2) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
+        d0.dot(&d1.cross(&d2)) != 0.0
+    };
 
     let solvers: Vec<_> = palette_ch.facets()
-        // Facets involving the star vertex would create degenerate tetrahedrons, so skip them.
-        .filter(|f| f.vertices().all(|v| v.index() != star_index))
+        .filter(is_star_facet)
         .map(|f| {
             // TODO: Is there a better way to do this??? Can I do this with an iterator without
             //       completely losing my mind?
@@ -364,7 +371,7 @@ pub(crate) fn compute_star_triangulation_coordinates(
         .map(|mat| mat.lu().try_inverse().unwrap())
         .collect();
     let simplex_indices: Vec<_> = palette_ch.facets()
-        .filter(|f| f.vertices().all(|v| v.index() != star_index))
+        .filter(is_star_facet)
         .map(|f| Vector4::from_iterator(
                 std::iter::once(star_index).chain(f.vertices().map(|v| v.index()))
             ))
@@ -391,7 +398,7 @@ pub(crate) fn compute_star_triangulation_coordinates(
         } else {
             // If this point is outside of the convex hull, then we want to find the point on the
             // hull closest to the point.
-            let (closest_facet, projected_point, _) = palette_ch.facets()
+            let (projected_point, _) = palette_ch.facets()
                 .map(|f| {
                     let mut it = f.vertices();
                     let v0 = it.next().unwrap().point().clone();
@@ -402,25 +409,19 @@ pub(crate) fn compute_star_triangulation_coordinates(
                     );
                     let diff = pixel - projected_point;
                     let dist = diff.dot(&diff);
-                    (f, projected_point, dist)
+                    (projected_point, dist)
                 })
-                .min_by(|(_, _, left), (_, _, right)| left.total_cmp(right))
+                .min_by(|(_, left), (_, right)| left.total_cmp(right))
                 .unwrap();
 
-            let solver_index = simplex_indices.iter().enumerate()
-                .find(|(_, indices)| {
-                    // This is a match if the simplex has all 3 of the vertices of closest facet.
-                    // There should only every be 1 simplex for which that is true.
-                    let indices = indices.as_slice();
-                    closest_facet.vertices()
-                        .map(|v| v.index())
-                        .all(|i| indices.contains(&i))
+            // The projected point is on the surface of the hull, so it's inside of (at least) one
+            // of the simplices, give or take some rounding error.
+            let vec = Vector4::new(projected_point[0], projected_point[1], projected_point[2], 1.0);
+            let (solver_index, solver) = solvers.iter().enumerate()
+                .max_by(|(_, left), (_, right)| {
+                    f64::total_cmp(&(*left * vec).min(), &(*right * vec).min())
                 })
-                .map(|(i, _)| i)
                 .unwrap();
-
-            let solver = &solvers[solver_index];
-            let vec = Vector4::new(projected_point[0], projected_point[1], projected_point[2], 1.0);
             solver.mul_to(&vec, &mut bcoords);
             &simplex_indices[solver_index]
         };
-- 
2.43.0


From ae85125204a05005f7eb38f941489f3600310b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:41 +0000
Subject: [PATCH 09/26] fix: compare the error of the simplified, clamped
 palette to error_bound

---
 image-palette-recoloring/src/palette.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index 8178c5d..3bd1f5c 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -87,12 +87,12 @@ pub fn compute_palette(
             .map(|v| v.point())
             .cloned()
             .chain(std::iter::once(new_vertex.into()))
-            .collect();
+            .collect::<ConvexHull<Const<3>>>();
 
         // Calculating the average error can be expensive, so only do it for the last 6 or so
         // iterations
         if ch.vertices().len() <= max_palette_size {
-            let error = compute_pixel_error(&ch, &pixel_counts, total_count);
+            let error = compute_pixel_error(&new_hull, &pixel_counts, total_count);
             if error > error_bound {
                 // We've reached or exceeded the error bound, so we are exiting here.
                 // We return the previous hull that still was inside the error bound.
@@ -130,7 +130,7 @@ fn compute_pixel_error(
         .map(|v| v.point())
         .map(|p| [p.x.clamp(0.0, 1.0), p.y.clamp(0.0, 1.0), p.z.clamp(0.0, 1.0)].into())
         .collect();
-    let tri = Delaunay::from_arrays(ch.vertices()
+    let tri = Delaunay::from_arrays(new_ch.vertices()
         .map(|v| v.point())
         .map(|p| [p.x, p.y, p.z])
         .collect::<Vec<[f64; 3]>>()
-- 
2.43.0


From 2c7639c8648f6ed4a1a2c339f226c4be8fb42f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:35 +0000
Subject: [PATCH 10/26] fix: don't return palettes that clamping imaginary
 colors made redundant

---
 image-palette-recoloring/src/lib.rs     | 34 +---------------
 image-palette-recoloring/src/palette.rs | 54 ++++++++++++++++++++++++-
 2 files changed, 54 insertions(+), 34 deletions(-)

diff --git a/image-palette-recoloring/src/lib.rs b/image-palette-recoloring/src/lib.rs
index 3c09c36..ce28d6e 100644
--- a/image-palette-recoloring/src/lib.rs
+++ b/image-palette-recoloring/src/lib.rs
@@ -154,39 +154,7 @@ impl DecomposedImage {
     /// hard to predict which colors will be redundant, however the output of `compute_palette`
     /// should never contain redundant colors.
     pub fn new(img: &ImageWeights, palette: &[Rgb<u8>]) -> Result<Self, String> {
-        if palette.len() < 4 {
-            return Err(format!(
-                "The minimum palette size is 4. Only {} colors were provided.",
-                palette.len()
-            ))
-        }
-        if palette.iter().enumerate().any(|(i, color)| palette[..i].contains(color)) {
-            return Err("The palette contains redundant colors (a color appears twice)".into())
-        }
-        let points: Vec<Vector3<f64>> = palette.iter()
-            .map(|p| [p[0] as f64, p[1] as f64, p[2] as f64].into())
-            .collect();
-        // The colors are distinct, so the first two of them span a line. These determinants are
-        // exact because the components are small integers.
-        let line = points[1] - points[0];
-        let is_flat = points.iter()
-            .map(|p| line.cross(&(p - points[0])))
-            .find(|normal| *normal != Vector3::zeros())
-            .map_or(true, |normal| points.iter().all(|p| normal.dot(&(p - points[0])) == 0.0));
-        if is_flat {
-            return Err("The palette contains redundant colors (all colors are coplanar)".into())
-        }
-        let palette_ch: ConvexHull<Const<3>> = points.into_iter().collect();
-
-        for color in palette {
-            let color = [color[0] as f64, color[1] as f64, color[2] as f64];
-            if palette_ch.vertices().all(|v| v.point().as_slice() != &color[..]) {
-                return Err(
-                    "The palette contains redundant colors (not all colors are present in the 3d\
-                    convex hull of the palette".into()
-                );
-            }
-        }
+        let palette_ch = crate::palette::palette_convex_hull(palette)?;
 
         let palette_matrix = crate::palette::compute_star_triangulation_coordinates(
             &palette,
diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index 3bd1f5c..91cb46a 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -75,6 +75,7 @@ pub fn compute_palette(
         .map(|(_, count)| *count)
         .sum();
 
+    let mut palette = hull_colors(&ch);
     while ch.vertices().len() > min_palette_size {
         // TODO: We need to calculate the level of error we've created here. This gives us a better
         //       idea of when we should exit the loop
@@ -89,9 +90,14 @@ pub fn compute_palette(
             .chain(std::iter::once(new_vertex.into()))
             .collect::<ConvexHull<Const<3>>>();
 
+        // Clamping the imaginary colors can make some of the colors redundant. That isn't a palette
+        // we can return, but simplifying the hull further might lead to one again.
+        let new_palette = hull_colors(&new_hull);
+        let is_valid = palette_convex_hull(&new_palette).is_ok();
+
         // Calculating the average error can be expensive, so only do it for the last 6 or so
         // iterations
-        if ch.vertices().len() <= max_palette_size {
+        if is_valid && ch.vertices().len() <= max_palette_size {
             let error = compute_pixel_error(&new_hull, &pixel_counts, total_count);
             if error > error_bound {
                 // We've reached or exceeded the error bound, so we are exiting here.
@@ -100,6 +106,9 @@ pub fn compute_palette(
             }
         }
         ch = new_hull;
+        if is_valid {
+            palette = new_palette;
+        }
 
         let vcount = ch.vertices().len();
         if vcount == previous_vcount {
@@ -109,6 +118,10 @@ pub fn compute_palette(
         previous_vcount = vcount;
     }
 
+    palette
+}
+
+fn hull_colors(ch: &ConvexHull<Const<3>>) -> Vec<Rgb<u8>> {
     ch.vertices()
         .map(|v| v.point())
         .map(|p| Rgb([
@@ -119,6 +132,45 @@ pub fn compute_palette(
         .collect()
 }
 
+/// Compute the convex hull of a palette's colors or return an error if some are redundant.
+pub(crate) fn palette_convex_hull(palette: &[Rgb<u8>]) -> Result<ConvexHull<Const<3>>, String> {
+    if palette.len() < 4 {
+        return Err(format!(
+            "The minimum palette size is 4. Only {} colors were provided.",
+            palette.len()
+        ))
+    }
+    if palette.iter().enumerate().any(|(i, color)| palette[..i].contains(color)) {
+        return Err("The palette contains redundant colors (a color appears twice)".into())
+    }
+    let points: Vec<Vector3<f64>> = palette.iter()
+        .map(|p| [p[0] as f64, p[1] as f64, p[2] as f64].into())
+        .collect();
+    // The colors are distinct, so the first two of them span a line. These determinants are
+    // exact because the components are small integers.
+    let line = points[1] - points[0];
+    let is_flat = points.iter()
+        .map(|p| line.cross(&(p - points[0])))
+        .find(|normal| *normal != Vector3::zeros())
+        .map_or(true, |normal| points.iter().all(|p| normal.dot(&(p - points[0])) == 0.0));
+    if is_flat {
+        return Err("The palette contains redundant colors (all colors are coplanar)".into())
+    }
+    let palette_ch: ConvexHull<Const<3>> = points.into_iter().collect();
+
+    for color in palette {
+        let color = [color[0] as f64, color[1] as f64, color[2] as f64];
+        if palette_ch.vertices().all(|v| v.point().as_slice() != &color[..]) {
+            return Err(
+                "The palette contains redundant colors (not all colors are present in the 3d\
+                convex hull of the palette".into()
+            );
+        }
+    }
+
+    Ok(palette_ch)
+}
+
 // TODO: Something about how I'm computing the error is wrong or at least doesn't capture the
 //       actual reproduction error. :\
 fn compute_pixel_error(
-- 
2.43.0


From 310257efbe8e1a8cb026f64a6e1605877e274ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:42 +0000
Subject: [PATCH 11/26] fix: declare the max_palette_size parameter of
 compute_palette in the C header

---
 image-palette-recoloring-c/image-palette-recoloring.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/image-palette-recoloring-c/image-palette-recoloring.h b/image-palette-recoloring-c/image-palette-recoloring.h
index 2e1799a..0b0dde4 100644
--- a/image-palette-recoloring-c/image-palette-recoloring.h
+++ b/image-palette-recoloring-c/image-palette-recoloring.h
@@ -27,6 +27,7 @@ uint8_t *compute_palette(
     uint32_t img_heigh,
     const uint8_t *rgb_img_bytes,
     uint8_t min_palette_size,
+    uint8_t max_palette_size,
     double error_bound,
     uint8_t *out_palette_color_count
 );
-- 
2.43.0


From 5de3c93f7661238e5b983cfae0ee43531cf6a1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:42 +0000
Subject: [PATCH 12/26] fix: reject a '+' in the CLI's hexadecimal colors

---
 image-palette-recoloring-cli/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/image-palette-recoloring-cli/src/main.rs b/image-palette-recoloring-cli/src/main.rs
index 6da768d..5ecd0c9 100644
--- a/image-palette-recoloring-cli/src/main.rs
+++ b/image-palette-recoloring-cli/src/main.rs
@@ -66,6 +66,10 @@ fn parse_color_list(list: &str) -> Result<ColorList, String> {
         if !color_str.is_ascii() {
             Err(format!("Color list contains non-ascii characters."))?
         }
+        // from_str_radix accepts a leading '+', but it isn't a hexadecimal digit.
+        if color_str.contains('+') {
+            Err(format!("Color {i} isn't valid: it contains a '+'."))?
+        }
         colors.push(Rgb([
             u8::from_str_radix(&color_str[..2], 16)
                 .map_err(|e| format!("Invalid R comp. in color {i}: {e}"))?,
-- 
2.43.0


From a31ecbd337a332b46bd616cab6507c2199f5c839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:42 +0000
Subject: [PATCH 13/26] fix: release the web worker's image buffers on every
 path and with their own size

---
 image-palette-recoloring-web/src/js/webworker.js | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/image-palette-recoloring-web/src/js/webworker.js b/image-palette-recoloring-web/src/js/webworker.js
index 55bfdca..c5a1e9e 100644
--- a/image-palette-recoloring-web/src/js/webworker.js
+++ b/image-palette-recoloring-web/src/js/webworker.js
@@ -182,6 +182,7 @@ class RecoloringThreadWorker extends ThreadWorker {
                 let blob = await createBlobForArray(outputArray, width, height);
                 this.sendResponse(id, blob);
             } else {
+                wasmInst.exports.free_image_buffer(width * height * 3, imagePtr);
                 this.sendError(id, "Invalid palette size");
             }
         } else if (method == "grayscaleImageChannel") {
@@ -195,7 +196,7 @@ class RecoloringThreadWorker extends ThreadWorker {
             try {
                 success = wasmInst.exports.grayscale_image_channel(decompImagePtr, n, imagePtr);
             } catch (e) {
-                wasmInst.exports.free_image_buffer(width * height * 3, imagePtr);
+                wasmInst.exports.free_image_buffer(width * height, imagePtr);
                 throw e;
             }
 
@@ -213,6 +214,7 @@ class RecoloringThreadWorker extends ThreadWorker {
                 let blob = await createBlobForArray(outputArray, width, height);
                 this.sendResponse(id, blob);
             } else {
+                wasmInst.exports.free_image_buffer(width * height, imagePtr);
                 this.sendError(id, "Invalid palette channel");
             }
         } else {
-- 
2.43.0


From 0f48e41be3bc3b587318a4acbf4adc5f80ac27b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:42 +0000
Subject: [PATCH 14/26] fix: accept the digit 6 in the web UI's color text
 fields

---
 image-palette-recoloring-web/src/js/index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image-palette-recoloring-web/src/js/index.js b/image-palette-recoloring-web/src/js/index.js
index 52e8f5e..16da71b 100644
--- a/image-palette-recoloring-web/src/js/index.js
+++ b/image-palette-recoloring-web/src/js/index.js
@@ -34,7 +34,7 @@ function textInputUpdateColorInput(event) {
     let isValidHexString = value[0] == '#' && value.length == 7;
 
     for (let i = 1; i < value.length; i++) {
-        if (!'012345789abcdefABCDEF'.includes(value[i])) {
+        if (!'0123456789abcdefABCDEF'.includes(value[i])) {
             isValidHexString = false;
             break;
         }
-- 
2.43.0


From 53bf6cb146a9852eaaea2faedd103de24a47a986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:52 +0000
Subject: [PATCH 15/26] fix: run the web UI's operations one at a time and
 never use a freed or NULL pointer

---
 image-palette-recoloring-web/src/js/index.js | 66 +++++++++++++-------
 1 file changed, 43 insertions(+), 23 deletions(-)

diff --git a/image-palette-recoloring-web/src/js/index.js b/image-palette-recoloring-web/src/js/index.js
index 16da71b..94e9847 100644
--- a/image-palette-recoloring-web/src/js/index.js
+++ b/image-palette-recoloring-web/src/js/index.js
@@ -22,6 +22,20 @@ const offscreenImg = new Image();
 let g_imageWeightsPtr;
 let g_deconstructedImagePtr;
 let g_savedDecompositionPalette;
+let g_lastOperation = Promise.resolve();
+
+// The operations below hold on to pointers while they wait for the worker, so an operation may only
+// start once the previous one is done.
+function runExclusively(operation) {
+    const result = g_lastOperation.then(() => operation()).finally(() => {
+        dstSpinner.style.visibility = "hidden";
+        recomputeOutputButton.disabled = false;
+        recomputePaletteButton.disabled = false;
+        srcImgPicker.disabled = false;
+    });
+    g_lastOperation = result.catch(() => {});
+    return result;
+}
 
 function colorInputUpdateTextInput(event) {
     event.target.nextElementSibling.value = event.target.value;
@@ -90,19 +104,14 @@ async function initialSetup() {
     srcImgPicker.disabled = true;
 
     if (g_imageWeightsPtr != undefined) {
-        await thread.sendRequest({
-            method: "freeImageWeights",
-            args: [g_imageWeightsPtr],
-        })
+        const imageWeightsPtr = g_imageWeightsPtr;
         g_imageWeightsPtr = undefined;
-    }
-    if (g_deconstructedImagePtr != undefined) {
         await thread.sendRequest({
-            method: "freeDecomposedImage",
-            args: [g_deconstructedImagePtr],
+            method: "freeImageWeights",
+            args: [imageWeightsPtr],
         })
-        g_deconstructedImagePtr = undefined;
     }
+    await freeDeconstructedImage();
 
     let array = computeSrcImageArray();
     array = await recomputeImageWeights(array);
@@ -192,7 +201,22 @@ async function recomputePalette(array) {
     return returnedArray;
 }
 
+async function freeDeconstructedImage() {
+    if (g_deconstructedImagePtr != undefined) {
+        const deconstructedImagePtr = g_deconstructedImagePtr;
+        g_deconstructedImagePtr = undefined;
+        await thread.sendRequest({
+            method: "freeDecomposedImage",
+            args: [deconstructedImagePtr],
+        })
+    }
+}
+
 async function reconstructImage() {
+    if (g_imageWeightsPtr == undefined) {
+        return;
+    }
+
     const currentPaletteColors = [];
     for (const paletteNode of paletteWrapper.children) {
         const value = paletteNode.children["palette-src-color"].value;
@@ -207,16 +231,16 @@ async function reconstructImage() {
     // If the set of decomposition palette colors has changed, then we need to recompute the
     if (g_imageWeightsPtr == undefined || currentPaletteColors != g_savedDecompositionPalette) {
         g_savedDecompositionPalette = currentPaletteColors;
-        if (g_deconstructedImagePtr != undefined) {
-            await thread.sendRequest({
-                method: "freeDecomposedImage",
-                args: [g_deconstructedImagePtr],
-            })
-        }
-        g_deconstructedImagePtr = await thread.sendRequest({
+        await freeDeconstructedImage();
+        const deconstructedImagePtr = await thread.sendRequest({
             method: "createDecomposedImage",
             args: [g_imageWeightsPtr, g_savedDecompositionPalette],
         });
+        if (deconstructedImagePtr == 0) {
+            // The palette is invalid, so there is nothing to reconstruct the image from.
+            return;
+        }
+        g_deconstructedImagePtr = deconstructedImagePtr;
 
         // TODO: We need a way to handle the error case. IE, what happens when we provide an invalid
         //       set of palette colors?
@@ -257,16 +281,12 @@ async function reconstructImage() {
         URL.revokeObjectURL(dstImg.src);
     }
     dstImg.src = url;
-    dstSpinner.style.visibility = "hidden";
-    recomputeOutputButton.disabled = false;
-    recomputePaletteButton.disabled = false;
-    srcImgPicker.disabled = false;
 }
 
 window.addEventListener("load", (event) => {
     // We need some event handlers
     // When the image in srcImg changes, we need to recompute the palette
-    srcImg.addEventListener("load", async () => await initialSetup());
+    srcImg.addEventListener("load", async () => await runExclusively(initialSetup));
 
     srcImgPicker.addEventListener("change", (event) => {
         var selectedFile = event.target.files[0];
@@ -278,10 +298,10 @@ window.addEventListener("load", (event) => {
     });
 
     recomputeOutputButton.addEventListener("click", async () => {
-        await reconstructImage();
+        await runExclusively(reconstructImage);
     });
     recomputePaletteButton.addEventListener("click", async () => {
-        await recomputePalette();
+        await runExclusively(recomputePalette);
     });
 
     // Load "example.png" into the main image
-- 
2.43.0


From 122458dbb83061190284f846326053b47af9c627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:34 +0000
Subject: [PATCH 16/26] fix: don't simplify the palette below min_palette_size

---
 image-palette-recoloring/src/palette.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index 91cb46a..0e1cdc1 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -90,6 +90,12 @@ pub fn compute_palette(
             .chain(std::iter::once(new_vertex.into()))
             .collect::<ConvexHull<Const<3>>>();
 
+        // Collapsing an edge can make other vertices redundant too, so a single step can remove
+        // more vertices than we can afford.
+        if new_hull.vertices().len() < min_palette_size {
+            break
+        }
+
         // Clamping the imaginary colors can make some of the colors redundant. That isn't a palette
         // we can return, but simplifying the hull further might lead to one again.
         let new_palette = hull_colors(&new_hull);
-- 
2.43.0


From 3a7bdec87d78a0ad2c63f032443b5ef1a8af2233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:55 +0000
Subject: [PATCH 17/26] fix: don't stop at a palette larger than
 max_palette_size because of the error of a later one

---
 image-palette-recoloring/src/palette.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index 0e1cdc1..8ed3ae2 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -103,7 +103,7 @@ pub fn compute_palette(
 
         // Calculating the average error can be expensive, so only do it for the last 6 or so
         // iterations
-        if is_valid && ch.vertices().len() <= max_palette_size {
+        if is_valid && palette.len() <= max_palette_size {
             let error = compute_pixel_error(&new_hull, &pixel_counts, total_count);
             if error > error_bound {
                 // We've reached or exceeded the error bound, so we are exiting here.
-- 
2.43.0


From 7ed285ec86b298705a0388e7e2f4124257a2cbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:27 +0000
Subject: [PATCH 18/26] fix: compute the error of the rounded palette, because
 the exact clamped vertices can be flat

---
 image-palette-recoloring/src/palette.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index 8ed3ae2..016072d 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -99,20 +99,21 @@ pub fn compute_palette(
         // Clamping the imaginary colors can make some of the colors redundant. That isn't a palette
         // we can return, but simplifying the hull further might lead to one again.
         let new_palette = hull_colors(&new_hull);
-        let is_valid = palette_convex_hull(&new_palette).is_ok();
+        let new_palette_ch = palette_convex_hull(&new_palette).ok();
 
         // Calculating the average error can be expensive, so only do it for the last 6 or so
         // iterations
-        if is_valid && palette.len() <= max_palette_size {
-            let error = compute_pixel_error(&new_hull, &pixel_counts, total_count);
-            if error > error_bound {
+        if let Some(new_palette_ch) = &new_palette_ch {
+            if palette.len() <= max_palette_size
+                && compute_pixel_error(new_palette_ch, &pixel_counts, total_count) > error_bound
+            {
                 // We've reached or exceeded the error bound, so we are exiting here.
                 // We return the previous hull that still was inside the error bound.
                 break
             }
         }
         ch = new_hull;
-        if is_valid {
+        if new_palette_ch.is_some() {
             palette = new_palette;
         }
 
@@ -180,13 +181,14 @@ pub(crate) fn palette_convex_hull(palette: &[Rgb<u8>]) -> Result<ConvexHull<Cons
 // TODO: Something about how I'm computing the error is wrong or at least doesn't capture the
 //       actual reproduction error. :\
 fn compute_pixel_error(
-    ch: &ConvexHull<Const<3>>,
+    palette_ch: &ConvexHull<Const<3>>,
     pixel_counts: &[(Vector3<f64>, f64)],
     total_count: f64,
 ) -> f64 {
-    let new_ch: ConvexHull<Const<3>> = ch.vertices()
-        .map(|v| v.point())
-        .map(|p| [p.x.clamp(0.0, 1.0), p.y.clamp(0.0, 1.0), p.z.clamp(0.0, 1.0)].into())
+    // The hull of the rounded and clamped colors, because that of the exact vertices can be flat
+    // once they are clamped.
+    let new_ch: ConvexHull<Const<3>> = palette_ch.vertices()
+        .map(|v| v.point() / 255.0)
         .collect();
     let tri = Delaunay::from_arrays(new_ch.vertices()
         .map(|v| v.point())
-- 
2.43.0


From 922ffde25bf3db14281684282e235d7a1573a994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:22 +0000
Subject: [PATCH 19/26] fix: give every hull facet its own index in the
 neighbor table

---
 qhull-rs/src/convex_hull.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qhull-rs/src/convex_hull.rs b/qhull-rs/src/convex_hull.rs
index f9c1425..892baa3 100644
--- a/qhull-rs/src/convex_hull.rs
+++ b/qhull-rs/src/convex_hull.rs
@@ -49,7 +49,7 @@ impl<N> ConvexHull<N>
         let mut offsets_and_normals = vec![];
         let mut facet_id_map = HashMap::<u64, usize>::new();
         for facet in hull.facets() {
-            facet_id_map.insert(facet.id(), facets.len());
+            facet_id_map.insert(facet.id(), offsets_and_normals.len());
             offsets_and_normals.push((
                 // XXX This feels really gross, but it's necessary until a change is made to the
                 //     facet api :(
-- 
2.43.0


From 278c3164f11cf0a5d57efdf381c6eab1119d86bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:40 +0000
Subject: [PATCH 20/26] fix: add up the errors of the pixels in a fixed order,
 so that the palette depends on the arguments only

---
 image-palette-recoloring/src/palette.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index 016072d..25ff6f0 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -61,7 +61,11 @@ pub fn compute_palette(
         let count = pixel_map.entry(pixel).or_insert(0);
         *count += 1
     }
-    let pixel_counts = pixel_map.into_iter()
+    // The order of a hash map is random and the order in which the errors of the pixels are added up
+    // affects the sum's last digits, so sort the pixels.
+    let mut pixel_counts = pixel_map.into_iter().collect::<Vec<_>>();
+    pixel_counts.sort_by_key(|(pixel, _)| pixel.0);
+    let pixel_counts = pixel_counts.into_iter()
         .map(|(pixel, count)| (
             Vector3::new(
                 pixel[0] as f64 / 255.0,
-- 
2.43.0


From fca51477865acabf49a12c1718f9ca9c3709dfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:21 +0000
Subject: [PATCH 21/26] fix: treat nearly singular simplices as degenerate in
 the raw simplex search, too

---
 qhull-rs/src/raw.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/qhull-rs/src/raw.rs b/qhull-rs/src/raw.rs
index 70856b9..841b787 100644
--- a/qhull-rs/src/raw.rs
+++ b/qhull-rs/src/raw.rs
@@ -893,13 +893,21 @@ impl<N: DimName> Delaunay<N>
             }
 
             let lu = mat.clone().lu();
-            let mat = if let Some(mat) = lu.try_inverse() {
-                mat
+            let inverse = if let Some(inverse) = lu.try_inverse() {
+                inverse
             } else {
                 continue;
             };
+            // Like SciPy, treat (nearly) singular simplices as degenerate. The coordinates that
+            // they produce are nothing but rounding error.
+            let one_norm = |m: &OMatrix<f64, DimSum<N, U1>, DimSum<N, U1>>| m.column_iter()
+                .map(|col| col.iter().map(|v| v.abs()).sum::<f64>())
+                .fold(0.0, f64::max);
+            if !(one_norm(&mat) * one_norm(&inverse) < 1.0 / (1000.0 * f64::EPSILON)) {
+                continue;
+            }
             solvers[simplex.id() as usize] = Some(BarycentricSolver {
-                mat,
+                mat: inverse,
             });
         }
         BarycentricSolverCache(solvers)
-- 
2.43.0


From ae9b2308ec43d639f40b44e1526e6d70a62ab421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:07 +0000
Subject: [PATCH 22/26] fix: keep the web UI's image when the file dialog is
 cancelled

---
 image-palette-recoloring-web/src/js/index.js | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/image-palette-recoloring-web/src/js/index.js b/image-palette-recoloring-web/src/js/index.js
index 94e9847..f535d1d 100644
--- a/image-palette-recoloring-web/src/js/index.js
+++ b/image-palette-recoloring-web/src/js/index.js
@@ -290,6 +290,10 @@ window.addEventListener("load", (event) => {
 
     srcImgPicker.addEventListener("change", (event) => {
         var selectedFile = event.target.files[0];
+        if (selectedFile === undefined) {
+            // The user cancelled the dialog.
+            return;
+        }
         if (srcImg.src.length != 0) {
             URL.revokeObjectURL(srcImg.src);
         }
-- 
2.43.0


From 91de7b65172e50062af8e202335a33593f6f78a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:07 +0000
Subject: [PATCH 23/26] fix: don't replace an image picked in the web UI by the
 example that arrives later

---
 image-palette-recoloring-web/src/js/index.js | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/image-palette-recoloring-web/src/js/index.js b/image-palette-recoloring-web/src/js/index.js
index f535d1d..17515cf 100644
--- a/image-palette-recoloring-web/src/js/index.js
+++ b/image-palette-recoloring-web/src/js/index.js
@@ -312,6 +312,9 @@ window.addEventListener("load", (event) => {
     (async () => {
         let response = await fetch("example.png");
         let blob = await response.blob();
-        srcImg.src = URL.createObjectURL(blob);
+        // The user may have picked an image in the meantime.
+        if (srcImg.src.length == 0) {
+            srcImg.src = URL.createObjectURL(blob);
+        }
     })();
 });
-- 
2.43.0


From 377f5762d2d6d52081f3b5a495a910d98e34e634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:07 +0000
Subject: [PATCH 24/26] fix: send the web worker the size of the image that its
 pixels were taken from

---
 image-palette-recoloring-web/src/js/index.js | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/image-palette-recoloring-web/src/js/index.js b/image-palette-recoloring-web/src/js/index.js
index 17515cf..03df902 100644
--- a/image-palette-recoloring-web/src/js/index.js
+++ b/image-palette-recoloring-web/src/js/index.js
@@ -114,19 +114,22 @@ async function initialSetup() {
     await freeDeconstructedImage();
 
     let array = computeSrcImageArray();
-    array = await recomputeImageWeights(array);
-    await recomputePalette(array);
+    // The image may be replaced while the worker is busy, the array keeps its size.
+    const { width, height } = offscreenImg;
+    array = await recomputeImageWeights(array, width, height);
+    await recomputePalette(array, width, height);
 }
 
-async function recomputeImageWeights(array) {
+async function recomputeImageWeights(array, width, height) {
     if (array === undefined) {
-        array = await computeSrcImageArray();
+        array = computeSrcImageArray();
+        ({ width, height } = offscreenImg);
     }
 
     console.log("Issued request to worker");
     const [imageWeightsPtr, returnedArray] = await thread.sendRequest({
         method: "createImageWeights",
-        args: [array, offscreenImg.width, offscreenImg.height],
+        args: [array, width, height],
     }, [array.buffer]);
     console.log("Finished request to worker");
 
@@ -135,10 +138,11 @@ async function recomputeImageWeights(array) {
     return returnedArray;
 }
 
-async function recomputePalette(array) {
+async function recomputePalette(array, width, height) {
     console.log("recomputePalette");
     if (array === undefined) {
-        array = await computeSrcImageArray();
+        array = computeSrcImageArray();
+        ({ width, height } = offscreenImg);
     }
 
     // Get the computed palette from the background thread
@@ -147,7 +151,7 @@ async function recomputePalette(array) {
     const paletteErrorBound = parseFloat(paletteErrorBoundField.value);
     const [paletteColors, returnedArray] = await thread.sendRequest({
         method: "computePalette",
-        args: [array, offscreenImg.width, offscreenImg.height, paletteMinSize, paletteMaxSize, paletteErrorBound],
+        args: [array, width, height, paletteMinSize, paletteMaxSize, paletteErrorBound],
     }, [array.buffer]);
 
     // Resize our set of palette divs to the correct length
-- 
2.43.0


From 9142c05959c623c5fd1a7b74068302c080eff7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:35 +0000
Subject: [PATCH 25/26] fix: determine the neighbors of every vertex, so that
 raw Vertex::neighbors doesn't panic

---
 qhull-sys/src/ext.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qhull-sys/src/ext.c b/qhull-sys/src/ext.c
index 72461d7..e61dad9 100644
--- a/qhull-sys/src/ext.c
+++ b/qhull-sys/src/ext.c
@@ -45,6 +45,8 @@ int rqh_build(
         qh_init_B(qh, points, numpoints, dim, True);
         qh_qhull(qh);
         qh_triangulate(qh);
+        /* hulls that were neither merged nor triangulated do not have these yet */
+        qh_vertexneighbors(qh);
     }
     qh->NOerrexit = True;
     return exitcode;
-- 
2.43.0


From 7bc1cd6c0f31e38eca1f7024e2327615aa20e79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:22 +0000
Subject: [PATCH 26/26] fix: judge by its shape alone whether a simplex is too
 flat for a barycentric solver

The condition number of the homogeneous matrix grows with the coordinates, so
that raw point location found nothing among points with large coordinates.
---
 qhull-rs/src/raw.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/qhull-rs/src/raw.rs b/qhull-rs/src/raw.rs
index 841b787..826adbb 100644
--- a/qhull-rs/src/raw.rs
+++ b/qhull-rs/src/raw.rs
@@ -899,11 +899,23 @@ impl<N: DimName> Delaunay<N>
                 continue;
             };
             // Like SciPy, treat (nearly) singular simplices as degenerate. The coordinates that
-            // they produce are nothing but rounding error.
+            // they produce are nothing but rounding error. Whether a simplex is singular depends
+            // on its shape, not on where it is and how large it is.
+            let mut shape = mat.clone();
+            for mut col in shape.column_iter_mut() {
+                for i in 0..N::dim() {
+                    col[i] -= mat[(i, N::dim())];
+                }
+            }
+            let size = shape.rows(0, N::dim()).amax();
+            shape.rows_mut(0, N::dim()).unscale_mut(size);
             let one_norm = |m: &OMatrix<f64, DimSum<N, U1>, DimSum<N, U1>>| m.column_iter()
                 .map(|col| col.iter().map(|v| v.abs()).sum::<f64>())
                 .fold(0.0, f64::max);
-            if !(one_norm(&mat) * one_norm(&inverse) < 1.0 / (1000.0 * f64::EPSILON)) {
+            let is_degenerate = shape.clone().lu().try_inverse().map_or(true, |shape_inverse| {
+                !(one_norm(&shape) * one_norm(&shape_inverse) < 1.0 / (1000.0 * f64::EPSILON))
+            });
+            if is_degenerate {
                 continue;
             }
             solvers[simplex.id() as usize] = Some(BarycentricSolver {
-- 
2.43.0

