From 51c3c7417a4e73ca86aac1d52eae9c34e7076f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:26 +0000
Subject: [PATCH 01/13] fix: do not overflow on a .shp header that announces
 4GB or more

The length field counts 16-bit words, so doubling it as a u32 panicked (or
wrapped, in release builds) for any value of 2^31 or more.
---
 src/read/shapefile/shp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/shapefile/shp.rs b/src/read/shapefile/shp.rs
index 868d50e..6501f32 100644
--- a/src/read/shapefile/shp.rs
+++ b/src/read/shapefile/shp.rs
@@ -161,7 +161,7 @@ fn read_shp_header(file: &mut io::Read) -> Result<ShpHeader, ShpError> {
             match ShpShapeType::with_u32(shape_type_u32) {
                 Some(ShpShapeType::Polygon) => {
                     Ok(ShpHeader {
-                        file_n_bytes: (file_len * 2) as usize,
+                        file_n_bytes: (file_len as usize) * 2,
                         shape_type: ShpShapeType::Polygon,
                         bounding_box: bounding_box,
                     })
-- 
2.43.0


From 13190db0641703e2607934def93b5f9d9b381674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:26 +0000
Subject: [PATCH 02/13] fix: return ParseError instead of panicking on a
 truncated .shp polygon record

---
 src/read/shapefile/shp.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/read/shapefile/shp.rs b/src/read/shapefile/shp.rs
index 6501f32..fd8804c 100644
--- a/src/read/shapefile/shp.rs
+++ b/src/read/shapefile/shp.rs
@@ -185,11 +185,19 @@ fn parse_point(buf: &[u8]) -> Result<ShpPoint, ShpError> {
 }
 
 fn parse_polygon_record(buf: &[u8], record_number: u32) -> Result<ShpPolygonRecord, ShpError> {
+    if buf.len() < 4 {
+        return Err(ShpError::ParseError(format!("Record number {} is too short: it has {} bytes", record_number, buf.len())));
+    }
+
     let shape_type_u32 = LittleEndian::read_u32(&buf[0..4]);
     if shape_type_u32 != 5 {
         return Err(ShpError::ParseError(format!("Record number {} has unsupported shape type: found {}, expected {}", record_number, shape_type_u32, 5)));
     }
 
+    if buf.len() < 44 {
+        return Err(ShpError::ParseError(format!("Record number {} is too short: it has {} bytes", record_number, buf.len())));
+    }
+
     let num_parts = LittleEndian::read_u32(&buf[36..40]) as usize;
     if num_parts == 0 {
         return Err(ShpError::ParseError(format!("Record number {} has no parts", record_number)));
-- 
2.43.0


From b45450a59e02b5b9f4c8cdc2176a43fffd9fb1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:26 +0000
Subject: [PATCH 03/13] fix: stop iterating over a .shp file after a read error

The reader did not advance on error, so a truncated file produced an endless
stream of errors.
---
 src/read/shapefile/shp.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/read/shapefile/shp.rs b/src/read/shapefile/shp.rs
index fd8804c..86ae72b 100644
--- a/src/read/shapefile/shp.rs
+++ b/src/read/shapefile/shp.rs
@@ -329,7 +329,11 @@ impl<R: io::Read> Iterator for ShpReader<R> {
             None
         } else {
             match read_polygon_record(&mut self.file) {
-                Err(err) => Some(Err(err)),
+                Err(err) => {
+                    // We don't know where the next record starts: stop here.
+                    self.n_bytes_already_read = self.header.file_n_bytes;
+                    Some(Err(err))
+                }
                 Ok((record, n_bytes)) => {
                     self.n_bytes_already_read += n_bytes;
                     if self.n_bytes_already_read > self.header.file_n_bytes {
-- 
2.43.0


From f49610e35622ecc2e9eb7e70a4681369bb560025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:26 +0000
Subject: [PATCH 04/13] fix: return ParseError instead of panicking on a .dbf
 header length below 32

---
 src/read/shapefile/dbf.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/read/shapefile/dbf.rs b/src/read/shapefile/dbf.rs
index dda61c1..ed077db 100644
--- a/src/read/shapefile/dbf.rs
+++ b/src/read/shapefile/dbf.rs
@@ -199,12 +199,15 @@ fn read_dbf_header(file: &mut io::Read) -> Result<DbfHeader, DbfError> {
             // The one exception: invalid dates. bytes 1-3 (base 0) are "YMD"
             // in hex. All years are valid; there are 12 valid months and 31
             // valid days.
+            let n_header_bytes = LittleEndian::read_u16(&buf[8..]) as usize;
             if buf[2] > 12 || buf[3] > 31 {
                 Err(DbfError::ParseError(String::from("The first four bytes of the file mention an invalid creation date. This is not a valid .dbf file.")))
+            } else if n_header_bytes < DBF_HEADER_LENGTH {
+                Err(DbfError::ParseError(String::from("The header length is too short. This is not a valid .dbf file.")))
             } else {
                 Ok(DbfHeader {
                     n_records: LittleEndian::read_u32(&buf[4..]) as usize,
-                    n_header_bytes: LittleEndian::read_u16(&buf[8..]) as usize,
+                    n_header_bytes: n_header_bytes,
                     n_bytes_per_record: LittleEndian::read_u16(&buf[10..]) as usize,
                 })
             }
-- 
2.43.0


From 2b709002e49719673b9c74b36367f77bb5cb706b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:26 +0000
Subject: [PATCH 05/13] fix: return ParseError instead of panicking when a .dbf
 field cannot be read

A field may lie outside the record, a Long field may be shorter than four
bytes, and some field types are not implemented: all come from the file's
header, and all panicked in read_string() (and in DbfRecord's Display).
---
 src/read/shapefile/dbf.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/read/shapefile/dbf.rs b/src/read/shapefile/dbf.rs
index ed077db..889cab0 100644
--- a/src/read/shapefile/dbf.rs
+++ b/src/read/shapefile/dbf.rs
@@ -89,6 +89,10 @@ fn dbf_numeric_to_valid_string(bytes: &[u8]) -> Result<String, DbfError> {
 
 impl DbfField {
     pub fn read_string(&self, record: &DbfRecord) -> Result<String, DbfError> {
+        if self.offset + self.len > record.bytes.len() {
+            return Err(DbfError::ParseError(String::from("Field extends past the end of the record")));
+        }
+
         let bytes = &record.bytes[self.offset .. self.offset + self.len];
 
         match &self.data_type {
@@ -96,11 +100,17 @@ impl DbfField {
                 encoding.decode(trim_end_spaces(bytes), encoding::DecoderTrap::Strict)
                     .map_err(|s| DbfError::ParseError(s.to_string()))
             }
-            &DbfType::Long => Ok(LittleEndian::read_u32(bytes).to_string()),
+            &DbfType::Long => {
+                if bytes.len() < 4 {
+                    Err(DbfError::ParseError(String::from("Long field is shorter than four bytes")))
+                } else {
+                    Ok(LittleEndian::read_u32(bytes).to_string())
+                }
+            }
             &DbfType::Numeric => {
                 dbf_numeric_to_valid_string(bytes)
             }
-            _ => { unimplemented!() }
+            _ => Err(DbfError::ParseError(String::from("Reading this type of field is not supported"))),
         }
     }
 }
-- 
2.43.0


From 867ff5f3fcc44ee12798a6cae868836cd6cabdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:13 +0000
Subject: [PATCH 06/13] fix: compute ring areas without overflowing

Coordinates span all of u32 (that's what the Shapefile quantizer produces), so
a product of two doesn't fit in i64: the area of a ring covering much of the
map panicked in debug builds and had the wrong sign in release builds.
---
 src/clip/topology.rs | 12 ++++++------
 src/geo/mod.rs       | 37 +++++++++++++++++++++----------------
 src/normalize.rs     |  4 ++--
 3 files changed, 29 insertions(+), 24 deletions(-)

diff --git a/src/clip/topology.rs b/src/clip/topology.rs
index 14bd58f..c4c0328 100644
--- a/src/clip/topology.rs
+++ b/src/clip/topology.rs
@@ -4,7 +4,7 @@ use std::mem;
 use std::ptr;
 use std::vec;
 
-use geo::{Point, signed_area2};
+use geo::{Point, exact_signed_area2};
 use super::edge::clip_edge;
 use super::types::ClipMask;
 use topology::{Direction, DirectedEdge, TopoEdge, TopoRing, TopoRegion, Topology};
@@ -170,7 +170,7 @@ impl<Data: Clone> Builder<Data> {
     fn clip_ring(&mut self, ring: &TopoRing<Data>) -> Option<BuildRing> {
         let mut ret: Vec<BuildDirectedEdge> = Vec::with_capacity(2 * ring.directed_edges.len());
 
-        let mut area2: i64 = 0;
+        let mut area2: i128 = 0;
         let mut start_point: Option<Point> = None;
         let mut previous_point: Option<Point> = None;
 
@@ -190,7 +190,7 @@ impl<Data: Clone> Builder<Data> {
                     if let Some(p) = previous_point {
                         let edge_start_point = first_point(old_edge, de.direction);
                         if p != edge_start_point {
-                            area2 += signed_area2([ p, edge_start_point ].iter());
+                            area2 += exact_signed_area2([ p, edge_start_point ].iter());
                             ret.push(self.new_edges.build_directed_edge(&p, &edge_start_point));
                         }
                     }
@@ -200,8 +200,8 @@ impl<Data: Clone> Builder<Data> {
                     previous_point = Some(last_point(old_edge, de.direction));
 
                     area2 += match de.direction {
-                        Direction::Forward => signed_area2(old_edge.iter()),
-                        Direction::Backward => signed_area2(old_edge.iter().rev()),
+                        Direction::Forward => exact_signed_area2(old_edge.iter()),
+                        Direction::Backward => exact_signed_area2(old_edge.iter().rev()),
                     };
                 }
                 None => {
@@ -214,7 +214,7 @@ impl<Data: Clone> Builder<Data> {
         match (start_point, previous_point) {
             (Some(p0), Some(pn)) if p0 != pn => {
                 ret.push(self.new_edges.build_directed_edge(&pn, &p0));
-                area2 += signed_area2([ pn, p0 ].iter());
+                area2 += exact_signed_area2([ pn, p0 ].iter());
             }
             _ => {}
         }
diff --git a/src/geo/mod.rs b/src/geo/mod.rs
index f1d6118..3ec2559 100644
--- a/src/geo/mod.rs
+++ b/src/geo/mod.rs
@@ -1,3 +1,4 @@
+use std::cmp;
 use std::fmt;
 use itertools::Itertools;
 
@@ -88,17 +89,31 @@ pub enum WindingOrder {
 ///
 /// You can call this method on each edge in turn and sum the results to arrive
 /// at the total area (and implicit winding order).
+///
+/// Saturates if the result doesn't fit in an i64.
 pub fn signed_area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> i64 {
+    let a = exact_signed_area2(points);
+    cmp::max(i64::min_value() as i128, cmp::min(i64::max_value() as i128, a)) as i64
+}
+
+/// Like signed_area2(), but wide enough for any u32 coordinates.
+pub(crate) fn exact_signed_area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> i128 {
     // https://en.wikipedia.org/wiki/Shoelace_formula
-    let mut a: i64 = 0;
+    let mut a: i128 = 0;
 
     for (p1, p2) in points.into_iter().tuple_windows() {
-        a += (p1.0 as i64) * (p2.1 as i64) - (p2.0 as i64) * (p1.1 as i64)
+        a += (p1.0 as i128) * (p2.1 as i128) - (p2.0 as i128) * (p1.1 as i128)
     }
 
     a
 }
 
+/// Splits a signed 2*area into 2*area (saturating) and winding order.
+fn split_signed_area2(a: i128) -> (u64, WindingOrder) {
+    let order = if a >= 0 { WindingOrder::Clockwise } else { WindingOrder::CounterClockwise };
+    (cmp::min(u64::max_value() as i128, a.abs()) as u64, order)
+}
+
 /// Returns 2*area and winding order.
 ///
 /// Assumes (0,0) is the **top left** coordinate. In other words, this isn't
@@ -109,13 +124,7 @@ pub fn signed_area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> i64 {
 ///
 /// Assumes the first and last Points are identical.
 pub fn area2_and_winding_order<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> (u64, WindingOrder) {
-    let a = signed_area2(points);
-
-    if a >= 0 {
-        (a as u64, WindingOrder::Clockwise)
-    } else {
-        (-a as u64, WindingOrder::CounterClockwise)
-    }
+    split_signed_area2(exact_signed_area2(points))
 }
 
 /// Returns 2*area
@@ -182,16 +191,12 @@ impl Ring {
     pub fn area2_and_winding_order(&self) -> (u64, WindingOrder) {
         match self {
             &Ring::Edges(ref edges) => {
-                let mut a: i64 = 0;
+                let mut a: i128 = 0;
                 for edge in edges.iter() {
-                    a += signed_area2(edge.0.iter());
+                    a += exact_signed_area2(edge.0.iter());
                 }
 
-                if a >= 0 {
-                    (a as u64, WindingOrder::Clockwise)
-                } else {
-                    (-a as u64, WindingOrder::CounterClockwise)
-                }
+                split_signed_area2(a)
             }
             &Ring::Points(ref points) => area2_and_winding_order(points.iter()),
         }
diff --git a/src/normalize.rs b/src/normalize.rs
index 4b9932b..6effa96 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -190,11 +190,11 @@ fn join_related_edges<T>(edges: &Vec<NormEdge<T>>) -> Vec<NormEdge<T>> {
 
 fn calculate_winding_order_from_edges<T>(edges: &Vec<NormEdge<T>>) -> WindingOrder {
     // https://en.wikipedia.org/wiki/Shoelace_formula
-    let mut a: i64 = 0;
+    let mut a: i128 = 0;
 
     for ref edge in edges {
         for (p1, p2) in edge.points.iter().tuple_windows() {
-            a += (p1.0 as i64) * (p2.1 as i64) - (p2.0 as i64) * (p1.1 as i64)
+            a += (p1.0 as i128) * (p2.1 as i128) - (p2.0 as i128) * (p1.1 as i128)
         }
     }
 
-- 
2.43.0


From 756111df1c22349590c23115cf03fcafc6df97b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:13 +0000
Subject: [PATCH 07/13] fix: do not overflow when clipping a long line

The product of two u32 differences does not fit in i64.
---
 src/clip/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/clip/types.rs b/src/clip/types.rs
index 9b0ea6d..c2cc698 100644
--- a/src/clip/types.rs
+++ b/src/clip/types.rs
@@ -49,7 +49,7 @@ impl ClipMask {
     ///
     /// Assumes either `p1` or `p2` is outside the clip mask.
     pub fn intersect(&self, p1: &Point, p2: &Point) -> Point {
-        fn i(u: u32) -> i64 { u as i64 }
+        fn i(u: u32) -> i128 { u as i128 }
 
         match self {
             &ClipMask::MinX(x) | &ClipMask::MaxX(x) => {
-- 
2.43.0


From 32198311caa0917525361dbc4a9b483af5d8a2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:13 +0000
Subject: [PATCH 08/13] fix: do not repeat the point two edges share in
 Ring::points()

---
 src/geo/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geo/mod.rs b/src/geo/mod.rs
index 3ec2559..6c46091 100644
--- a/src/geo/mod.rs
+++ b/src/geo/mod.rs
@@ -156,7 +156,9 @@ impl Ring {
                 let len = edges.iter().map(|e| e.0.len()).sum();
                 let mut ret = Vec::<Point>::with_capacity(len);
                 for ref edge in edges.iter() {
-                    ret.extend_from_slice(&*edge.0);
+                    // Each Edge starts where the previous one ended
+                    let n_shared = if ret.last().is_some() && ret.last() == edge.0.first() { 1 } else { 0 };
+                    ret.extend_from_slice(&edge.0[n_shared ..]);
                 }
                 ret.into_boxed_slice()
             }
-- 
2.43.0


From cb4b888932c0a142046cc1a196809a8dc45616b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:13 +0000
Subject: [PATCH 09/13] fix: box a topology's edges and regions before pointing
 to them

Vec::into_boxed_slice() may reallocate, which left every region and edge
pointer in the returned Topology dangling.
---
 src/clip/topology.rs  | 10 ++++++----
 src/topology/build.rs | 13 +++++++------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/clip/topology.rs b/src/clip/topology.rs
index c4c0328..f3b072d 100644
--- a/src/clip/topology.rs
+++ b/src/clip/topology.rs
@@ -249,9 +249,11 @@ impl<Data: Clone> Builder<Data> {
                 rings: [ ptr::null(), ptr::null() ],
             }
         }));
+        // From here on we point to edges and regions, so they mustn't move
+        let edges: Box<[TopoEdge<Data>]> = edges.into_boxed_slice();
 
         // Build regions and their rings. Make all region pointers null.
-        let mut regions: Vec<TopoRegion<Data>> = self.regions.into_iter().map(|build_region| {
+        let mut regions: Box<[TopoRegion<Data>]> = self.regions.into_iter().map(|build_region| {
             let BuildRegion { data, outer_rings, inner_rings } = build_region;
             let topo_outer_rings: Vec<TopoRing<Data>> = outer_rings.into_iter()
                 .map(|r| build_ring_to_topo_ring_with_null_ptrs(&edges[..], &r)).collect();
@@ -263,7 +265,7 @@ impl<Data: Clone> Builder<Data> {
                 outer_rings: topo_outer_rings.into_boxed_slice(),
                 inner_rings: topo_inner_rings.into_boxed_slice(),
             }
-        }).collect();
+        }).collect::<Vec<TopoRegion<Data>>>().into_boxed_slice();
 
         // Now that regions and edges have their final spots in memory, we can
         // set pointers to them.
@@ -289,8 +291,8 @@ impl<Data: Clone> Builder<Data> {
         }
 
         Topology {
-            regions: regions.into_boxed_slice(),
-            edges: edges.into_boxed_slice(),
+            regions: regions,
+            edges: edges,
         }
     }
 }
diff --git a/src/topology/build.rs b/src/topology/build.rs
index 66c943a..bb4bf4b 100644
--- a/src/topology/build.rs
+++ b/src/topology/build.rs
@@ -145,11 +145,12 @@ impl<Data> TopologyBuilder<Data>
             })
         }
 
-        let edges: Vec<TopoEdge<Data>> = edges_sort.into_iter()
+        // From here on we point to edges and regions, so they mustn't move
+        let edges: Box<[TopoEdge<Data>]> = edges_sort.into_iter()
             .map(|o| o.expect("programming error: an Edge is missing from self.edges"))
-            .collect();
+            .collect::<Vec<TopoEdge<Data>>>().into_boxed_slice();
 
-        let mut regions: Vec<TopoRegion<Data>> = self.regions.into_iter().map(|build_region| {
+        let mut regions: Box<[TopoRegion<Data>]> = self.regions.into_iter().map(|build_region| {
             let BuildRegion { data, outer_rings, inner_rings } = build_region;
 
             let topo_outer_rings: Vec<TopoRing<Data>> = outer_rings.into_iter()
@@ -162,7 +163,7 @@ impl<Data> TopologyBuilder<Data>
                 outer_rings: topo_outer_rings.into_boxed_slice(),
                 inner_rings: topo_inner_rings.into_boxed_slice(),
             }
-        }).collect();
+        }).collect::<Vec<TopoRegion<Data>>>().into_boxed_slice();
 
         for mut region in regions.iter_mut() {
             let region_p = region as *const TopoRegion<Data>;
@@ -186,8 +187,8 @@ impl<Data> TopologyBuilder<Data>
         }
 
         Topology {
-            regions: regions.into_boxed_slice(),
-            edges: edges.into_boxed_slice(),
+            regions: regions,
+            edges: edges,
         }
     }
 }
-- 
2.43.0


From 657fc4aa2ae66e527462585986e8fd9fe00cd924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:41 +0000
Subject: [PATCH 10/13] fix: compare with the current root when sifting down in
 simplify's heap

---
 src/simplify/simplify_edge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplify/simplify_edge.rs b/src/simplify/simplify_edge.rs
index 38c01b8..30c6f84 100644
--- a/src/simplify/simplify_edge.rs
+++ b/src/simplify/simplify_edge.rs
@@ -134,7 +134,7 @@ impl PointHeap {
             let child = left_child(root);
             let mut swap = root;
 
-            if unsafe { *self.heap[start] > *self.heap[child] } {
+            if unsafe { *self.heap[root] > *self.heap[child] } {
                 swap = child;
             }
 
-- 
2.43.0


From 950f61c397402503bdb24a8f874cbf6035b49801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:41 +0000
Subject: [PATCH 11/13] fix: initialize each point's position in simplify's
 heap

All points claimed to be at the top of the heap until they were swapped, so
re-weighting one of them sifted some other point.
---
 src/simplify/simplify_edge.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simplify/simplify_edge.rs b/src/simplify/simplify_edge.rs
index 30c6f84..adab0f0 100644
--- a/src/simplify/simplify_edge.rs
+++ b/src/simplify/simplify_edge.rs
@@ -63,10 +63,10 @@ impl From<Vec<geo::Point>> for PointHeap {
         let is_ring = vec[0] == vec[len - 1];
         assert!(!is_ring || len >= 4);
 
-        let mut points: Vec<Point> = vec.into_iter()
-            .map(|p| Point {
+        let mut points: Vec<Point> = vec.into_iter().enumerate()
+            .map(|(i, p)| Point {
                 geo_point: p,
-                heap_index: 0,
+                heap_index: i.saturating_sub(1), // the first point isn't in the heap
                 weight: 0,
                 next: ptr::null(),
                 previous: ptr::null(),
-- 
2.43.0


From 0e31dfea07aed71fb8920dcc1f0aa01340e836d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:41 +0000
Subject: [PATCH 12/13] fix: do not panic when simplifying a closed edge of
 fewer than four points

Clipping can leave such an edge in a Topology.
---
 src/simplify/simplify_edge.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/simplify/simplify_edge.rs b/src/simplify/simplify_edge.rs
index adab0f0..d6acff5 100644
--- a/src/simplify/simplify_edge.rs
+++ b/src/simplify/simplify_edge.rs
@@ -338,6 +338,12 @@ impl PointHeap {
 /// because it's in terms of rectangles. For instance, if you want to err by
 /// "at most one pixel" and coordinates are pixels, set `smallest_area2` to `1`.
 pub fn simplify_edge(points: &[geo::Point], smallest_area2: u64) -> Box<[geo::Point]> {
+    let is_ring = points.first() == points.last();
+    if points.len() < 3 || (is_ring && points.len() < 4) {
+        // There's nothing to remove. (Clipping can give us such an edge.)
+        return points.to_vec().into_boxed_slice();
+    }
+
     let mut point_heap = PointHeap::from(points.to_vec());
     point_heap.visvalingam_whyatt(smallest_area2)
 }
-- 
2.43.0


From f26bacffe021d52e07851d3145d7e412d3302b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:41 +0000
Subject: [PATCH 13/13] fix: weigh points by the area of their triangle when
 simplifying

The formula multiplied two x coordinates where it should subtract them, so the
weight depended on where the map's origin was (and overflowed for large
coordinates). With true areas, `smallest_area2` is the largest area we may
morph the line by, as documented: a point is removed if its weight is at most
that.
---
 src/simplify/simplify_edge.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/simplify/simplify_edge.rs b/src/simplify/simplify_edge.rs
index d6acff5..a1ed06f 100644
--- a/src/simplify/simplify_edge.rs
+++ b/src/simplify/simplify_edge.rs
@@ -3,9 +3,9 @@ use std::ptr;
 use geo;
 
 fn area2(a: &geo::Point, b: &geo::Point, c: &geo::Point) -> u64 {
-    fn i(u: u32) -> i64 { u as i64 }
-    let a2: i64 = (i(b.0) * i(a.0)) * (i(c.1) - i(a.1)) - (i(c.0) - i(a.0)) * (i(b.1) - i(a.1));
-    a2.abs() as u64
+    fn i(u: u32) -> i128 { u as i128 }
+    let a2: i128 = (i(b.0) - i(a.0)) * (i(c.1) - i(a.1)) - (i(c.0) - i(a.0)) * (i(b.1) - i(a.1));
+    a2.abs() as u64 // at most the area of the bounding box, so it fits
 }
 
 #[derive(Debug)]
@@ -262,7 +262,7 @@ impl PointHeap {
             if small_point.weight < last_weight {
                 small_point.weight = last_weight;
             } else {
-                if small_point.weight >= smallest_weight {
+                if small_point.weight > smallest_weight {
                     // We don't need to figure out the exact weight of
                     // any more points, because we know we aren't going to
                     // remove them when we simplify. (Their weights are
@@ -281,9 +281,10 @@ impl PointHeap {
             }
         }
 
-        let mut ret: Vec<geo::Point> = self.points.iter()
-            .filter(|ref p| p.weight >= smallest_weight)
-            .map(|ref p| p.geo_point)
+        let last = self.points.len() - 1;
+        let mut ret: Vec<geo::Point> = self.points.iter().enumerate()
+            .filter(|&(i, ref p)| i == 0 || i == last || p.weight > smallest_weight)
+            .map(|(_, ref p)| p.geo_point)
             .collect();
 
         // Do not change topology: a ring must remain a ring. That means a
-- 
2.43.0

