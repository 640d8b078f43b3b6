From 3955a903704b7612cf98936fadfcdfad05fb1fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:06 +0000
Subject: [PATCH 01/13] fix: compute ring areas in i128 so large u32
 coordinates do not overflow

Ring [(0,0),(M,0),(M,M),(0,0)] with M = u32::MAX panicked in debug builds
and got the wrong winding order in release builds; quantized shapefiles
reach such coordinates. The doubled area of a u32 ring needs up to 66 bits.
---
 src/clip/topology.rs |  2 +-
 src/geo/mod.rs       | 25 +++++++++++++------------
 src/normalize.rs     |  5 +++--
 3 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/clip/topology.rs b/src/clip/topology.rs
index 14bd58f..a7c23a4 100644
--- a/src/clip/topology.rs
+++ b/src/clip/topology.rs
@@ -170,7 +170,7 @@ impl<Data: Clone> Builder<Data> {
     fn clip_ring(&mut self, ring: &TopoRing<Data>) -> Option<BuildRing> {
         let mut ret: Vec<BuildDirectedEdge> = Vec::with_capacity(2 * ring.directed_edges.len());
 
-        let mut area2: i64 = 0;
+        let mut area2: i128 = 0;
         let mut start_point: Option<Point> = None;
         let mut previous_point: Option<Point> = None;
 
diff --git a/src/geo/mod.rs b/src/geo/mod.rs
index f1d6118..39e635d 100644
--- a/src/geo/mod.rs
+++ b/src/geo/mod.rs
@@ -88,12 +88,13 @@ pub enum WindingOrder {
 ///
 /// You can call this method on each edge in turn and sum the results to arrive
 /// at the total area (and implicit winding order).
-pub fn signed_area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> i64 {
+pub fn signed_area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> i128 {
     // https://en.wikipedia.org/wiki/Shoelace_formula
-    let mut a: i64 = 0;
+    // (i128, because one product of two u32 coordinates can overflow i64.)
+    let mut a: i128 = 0;
 
     for (p1, p2) in points.into_iter().tuple_windows() {
-        a += (p1.0 as i64) * (p2.1 as i64) - (p2.0 as i64) * (p1.1 as i64)
+        a += (p1.0 as i128) * (p2.1 as i128) - (p2.0 as i128) * (p1.1 as i128)
     }
 
     a
@@ -108,20 +109,20 @@ pub fn signed_area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> i64 {
 /// A zero-area Ring is considered to be Clockwise.
 ///
 /// Assumes the first and last Points are identical.
-pub fn area2_and_winding_order<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> (u64, WindingOrder) {
+pub fn area2_and_winding_order<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> (u128, WindingOrder) {
     let a = signed_area2(points);
 
     if a >= 0 {
-        (a as u64, WindingOrder::Clockwise)
+        (a as u128, WindingOrder::Clockwise)
     } else {
-        (-a as u64, WindingOrder::CounterClockwise)
+        (-a as u128, WindingOrder::CounterClockwise)
     }
 }
 
 /// Returns 2*area
 ///
 /// Assumes the first and last Points are identical.
-pub fn area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> u64 {
+pub fn area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> u128 {
     area2_and_winding_order(points).0
 }
 
@@ -168,7 +169,7 @@ impl Ring {
     }
 
     /// Returns 2*area
-    pub fn area2(&self) -> u64 {
+    pub fn area2(&self) -> u128 {
         self.area2_and_winding_order().0
     }
 
@@ -179,18 +180,18 @@ impl Ring {
     /// coordinates.
     ///
     /// A zero-area Ring is considered to be Clockwise.
-    pub fn area2_and_winding_order(&self) -> (u64, WindingOrder) {
+    pub fn area2_and_winding_order(&self) -> (u128, WindingOrder) {
         match self {
             &Ring::Edges(ref edges) => {
-                let mut a: i64 = 0;
+                let mut a: i128 = 0;
                 for edge in edges.iter() {
                     a += signed_area2(edge.0.iter());
                 }
 
                 if a >= 0 {
-                    (a as u64, WindingOrder::Clockwise)
+                    (a as u128, WindingOrder::Clockwise)
                 } else {
-                    (-a as u64, WindingOrder::CounterClockwise)
+                    (-a as u128, WindingOrder::CounterClockwise)
                 }
             }
             &Ring::Points(ref points) => area2_and_winding_order(points.iter()),
diff --git a/src/normalize.rs b/src/normalize.rs
index 4b9932b..1555c73 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -190,11 +190,12 @@ fn join_related_edges<T>(edges: &Vec<NormEdge<T>>) -> Vec<NormEdge<T>> {
 
 fn calculate_winding_order_from_edges<T>(edges: &Vec<NormEdge<T>>) -> WindingOrder {
     // https://en.wikipedia.org/wiki/Shoelace_formula
-    let mut a: i64 = 0;
+    // (i128, because one product of two u32 coordinates can overflow i64.)
+    let mut a: i128 = 0;
 
     for ref edge in edges {
         for (p1, p2) in edge.points.iter().tuple_windows() {
-            a += (p1.0 as i64) * (p2.1 as i64) - (p2.0 as i64) * (p1.1 as i64)
+            a += (p1.0 as i128) * (p2.1 as i128) - (p2.0 as i128) * (p1.1 as i128)
         }
     }
 
-- 
2.43.0


From 0c9ebedcf0632391f3c1a912f6c11faec95f1cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:07 +0000
Subject: [PATCH 02/13] fix: do not overflow when intersecting a long segment
 with a clip mask

MinX(u32::MAX - 1) against (0,0)-(u32::MAX,u32::MAX) panicked (debug) or
returned a point far away (release).
---
 src/clip/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/clip/types.rs b/src/clip/types.rs
index 9b0ea6d..8f17494 100644
--- a/src/clip/types.rs
+++ b/src/clip/types.rs
@@ -49,7 +49,7 @@ impl ClipMask {
     ///
     /// Assumes either `p1` or `p2` is outside the clip mask.
     pub fn intersect(&self, p1: &Point, p2: &Point) -> Point {
-        fn i(u: u32) -> i64 { u as i64 }
+        fn i(u: u32) -> i128 { u as i128 } // products of differences can overflow i64
 
         match self {
             &ClipMask::MinX(x) | &ClipMask::MaxX(x) => {
-- 
2.43.0


From 6826be6f2203bd3223990e0ef1c06a11128f91d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:08 +0000
Subject: [PATCH 03/13] fix: list the node between two consecutive edges once
 in Ring::points()

Ring::Edges([(1,1),(1,2),(2,1)], [(2,1),(1,1)]) gave (2,1) twice, contrary to
the (never compiled) test_edge_ring_points.
---
 src/geo/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geo/mod.rs b/src/geo/mod.rs
index 39e635d..2885e7c 100644
--- a/src/geo/mod.rs
+++ b/src/geo/mod.rs
@@ -148,7 +148,9 @@ impl Ring {
                 let len = edges.iter().map(|e| e.0.len()).sum();
                 let mut ret = Vec::<Point>::with_capacity(len);
                 for ref edge in edges.iter() {
-                    ret.extend_from_slice(&*edge.0);
+                    // Consecutive edges share a node: list it once.
+                    let start = if ret.len() > 0 && ret.last() == edge.0.first() { 1 } else { 0 };
+                    ret.extend_from_slice(&edge.0[start ..]);
                 }
                 ret.into_boxed_slice()
             }
-- 
2.43.0


From fd046ec3eb71e5be7e63d3bee0bb7b1554c105f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:09 +0000
Subject: [PATCH 04/13] fix: weigh points by the true triangle area when
 simplifying

The formula multiplied b.x by a.x instead of subtracting, so collinear points
got huge weights ((10,10),(20,20),(30,30) kept its middle point at threshold
50) and coordinates above 2^21 overflowed. With true areas, 'err by at most
smallest_area2' means points of exactly that area go, too -- which is what the
existing tests expect.
---
 src/simplify/simplify_edge.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/simplify/simplify_edge.rs b/src/simplify/simplify_edge.rs
index 38c01b8..785805a 100644
--- a/src/simplify/simplify_edge.rs
+++ b/src/simplify/simplify_edge.rs
@@ -3,8 +3,8 @@ use std::ptr;
 use geo;
 
 fn area2(a: &geo::Point, b: &geo::Point, c: &geo::Point) -> u64 {
-    fn i(u: u32) -> i64 { u as i64 }
-    let a2: i64 = (i(b.0) * i(a.0)) * (i(c.1) - i(a.1)) - (i(c.0) - i(a.0)) * (i(b.1) - i(a.1));
+    fn i(u: u32) -> i128 { u as i128 } // products of differences can overflow i64
+    let a2: i128 = (i(b.0) - i(a.0)) * (i(c.1) - i(a.1)) - (i(c.0) - i(a.0)) * (i(b.1) - i(a.1));
     a2.abs() as u64
 }
 
@@ -339,7 +339,8 @@ impl PointHeap {
 /// "at most one pixel" and coordinates are pixels, set `smallest_area2` to `1`.
 pub fn simplify_edge(points: &[geo::Point], smallest_area2: u64) -> Box<[geo::Point]> {
     let mut point_heap = PointHeap::from(points.to_vec());
-    point_heap.visvalingam_whyatt(smallest_area2)
+    // Removing a point may morph the line by up to and including smallest_area2
+    point_heap.visvalingam_whyatt(smallest_area2.saturating_add(1))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 7ebb23dce969d23f0d36747e8447f31e7ca280a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:03 +0000
Subject: [PATCH 05/13] fix: keep the simplification heap in order

sift_down() compared children with the element it started from rather than the
one it had moved to, and heap_index was never initialized, so reweighted points
were sifted from the wrong place. (0,2),(8,0),(6,2),(1,0),(4,1) at threshold 7
kept a point whose triangle is below the threshold.
---
 src/simplify/simplify_edge.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simplify/simplify_edge.rs b/src/simplify/simplify_edge.rs
index 785805a..d4bc8ea 100644
--- a/src/simplify/simplify_edge.rs
+++ b/src/simplify/simplify_edge.rs
@@ -83,6 +83,7 @@ impl From<Vec<geo::Point>> for PointHeap {
             let area2 = area2(&points[i - 1].geo_point, &points[i].geo_point, &points[i + 1].geo_point);
 
             points[i].weight = area2;
+            points[i].heap_index = i - 1;
             points[i].next = &points[i + 1];
             points[i].previous = &points[i - 1];
         }
@@ -134,7 +135,7 @@ impl PointHeap {
             let child = left_child(root);
             let mut swap = root;
 
-            if unsafe { *self.heap[start] > *self.heap[child] } {
+            if unsafe { *self.heap[root] > *self.heap[child] } {
                 swap = child;
             }
 
-- 
2.43.0


From 8e20a5a9303e8c209b82c0981a580b7fc5a79eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:04 +0000
Subject: [PATCH 06/13] fix: do not panic when simplifying an edge that is
 already minimal

Clipping (20,0),(9,0),(20,1) to x <= 10 yields the closed three-point edge
(10,0),(9,0),(10,0); simplifying that panicked on an assertion.
---
 src/simplify/simplify_edge.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/simplify/simplify_edge.rs b/src/simplify/simplify_edge.rs
index d4bc8ea..275cd61 100644
--- a/src/simplify/simplify_edge.rs
+++ b/src/simplify/simplify_edge.rs
@@ -339,6 +339,11 @@ impl PointHeap {
 /// because it's in terms of rectangles. For instance, if you want to err by
 /// "at most one pixel" and coordinates are pixels, set `smallest_area2` to `1`.
 pub fn simplify_edge(points: &[geo::Point], smallest_area2: u64) -> Box<[geo::Point]> {
+    if points.len() <= 2 || (points.len() < 4 && points[0] == points[points.len() - 1]) {
+        // Nothing can be removed
+        return points.to_vec().into_boxed_slice()
+    }
+
     let mut point_heap = PointHeap::from(points.to_vec());
     // Removing a point may morph the line by up to and including smallest_area2
     point_heap.visvalingam_whyatt(smallest_area2.saturating_add(1))
-- 
2.43.0


From 1d413ed7e0ecd451302d70c4614f0b82cb68031a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:05 +0000
Subject: [PATCH 07/13] fix: report short polygon records and huge file lengths
 instead of panicking

A polygon record of fewer than 44 bytes was sliced out of range, and a header
file length of 2^31 words or more overflowed u32.
---
 src/read/shapefile/shp.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/read/shapefile/shp.rs b/src/read/shapefile/shp.rs
index 868d50e..349a397 100644
--- a/src/read/shapefile/shp.rs
+++ b/src/read/shapefile/shp.rs
@@ -13,6 +13,7 @@ const SHP_RECORD_HEADER_LENGTH: usize = 8;
 const SHP_MAGIC_NUMBER: u32 = 9994;
 const SHP_VERSION: u32 = 1000;
 const SHP_POINT_LENGTH: usize = 16;
+const SHP_POLYGON_HEADER_LENGTH: usize = 44;
 
 #[derive(Debug)]
 pub enum ShpError {
@@ -161,7 +162,7 @@ fn read_shp_header(file: &mut io::Read) -> Result<ShpHeader, ShpError> {
             match ShpShapeType::with_u32(shape_type_u32) {
                 Some(ShpShapeType::Polygon) => {
                     Ok(ShpHeader {
-                        file_n_bytes: (file_len * 2) as usize,
+                        file_n_bytes: file_len as usize * 2,
                         shape_type: ShpShapeType::Polygon,
                         bounding_box: bounding_box,
                     })
@@ -185,6 +186,10 @@ fn parse_point(buf: &[u8]) -> Result<ShpPoint, ShpError> {
 }
 
 fn parse_polygon_record(buf: &[u8], record_number: u32) -> Result<ShpPolygonRecord, ShpError> {
+    if buf.len() < SHP_POLYGON_HEADER_LENGTH {
+        return Err(ShpError::ParseError(format!("Record number {} has {} bytes, but a polygon needs at least {}", record_number, buf.len(), SHP_POLYGON_HEADER_LENGTH)));
+    }
+
     let shape_type_u32 = LittleEndian::read_u32(&buf[0..4]);
     if shape_type_u32 != 5 {
         return Err(ShpError::ParseError(format!("Record number {} has unsupported shape type: found {}, expected {}", record_number, shape_type_u32, 5)));
-- 
2.43.0


From 6029414847f3ef11839fb2c66d86b51e62a29838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:06 +0000
Subject: [PATCH 08/13] fix: reject three-point rings in every part, not only
 the last

A shapefile ring has at least four points; the check for the last part enforced
that, but the check for the other parts was off by one.
---
 src/read/shapefile/shp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/shapefile/shp.rs b/src/read/shapefile/shp.rs
index 349a397..79820c8 100644
--- a/src/read/shapefile/shp.rs
+++ b/src/read/shapefile/shp.rs
@@ -225,7 +225,7 @@ fn parse_polygon_record(buf: &[u8], record_number: u32) -> Result<ShpPolygonReco
             return Err(ShpError::ParseError(format!("Record number {} has a ring with points {}-{}, but there are only {} points in the record", record_number, part_start, part_end, num_points)));
         }
 
-        if part_start + 3 > part_end {
+        if part_start + 3 >= part_end {
             return Err(ShpError::ParseError(format!("Record number {} has a ring with points {}-{}, but that's an invalid range", record_number, part_start, part_end)));
         }
 
-- 
2.43.0


From edbe2d5dc3e5f6020cf53b30f219cac9dc896384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:07 +0000
Subject: [PATCH 09/13] fix: end the iteration after a .shp read error

A .shp file shorter than its header says made the iterator return the same
IOError forever, so for-loops over it never ended.
---
 src/read/shapefile/shp.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/read/shapefile/shp.rs b/src/read/shapefile/shp.rs
index 79820c8..d37ff18 100644
--- a/src/read/shapefile/shp.rs
+++ b/src/read/shapefile/shp.rs
@@ -326,6 +326,11 @@ impl<R: io::Read> Iterator for ShpReader<R> {
             None
         } else {
             match read_polygon_record(&mut self.file) {
+                Err(ShpError::IOError(err)) => {
+                    // There is nothing left to read: don't fail forever
+                    self.n_bytes_already_read = self.header.file_n_bytes;
+                    Some(Err(ShpError::IOError(err)))
+                }
                 Err(err) => Some(Err(err)),
                 Ok((record, n_bytes)) => {
                     self.n_bytes_already_read += n_bytes;
-- 
2.43.0


From 3ed76a00ca6590ac7b95bb5f9ba4feba1fbcb4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:08 +0000
Subject: [PATCH 10/13] fix: report malformed or unsupported .dbf fields
 instead of panicking

A header length below 32, a field that ends after the record, a long field of
fewer than four bytes and a field of type L, D, F, @, O or unknown all panicked.
---
 src/read/shapefile/dbf.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/read/shapefile/dbf.rs b/src/read/shapefile/dbf.rs
index dda61c1..4a9e410 100644
--- a/src/read/shapefile/dbf.rs
+++ b/src/read/shapefile/dbf.rs
@@ -89,6 +89,9 @@ fn dbf_numeric_to_valid_string(bytes: &[u8]) -> Result<String, DbfError> {
 
 impl DbfField {
     pub fn read_string(&self, record: &DbfRecord) -> Result<String, DbfError> {
+        if self.offset + self.len > record.bytes.len() {
+            return Err(DbfError::ParseError(format!("Field {} ends after the end of the record", self.name)));
+        }
         let bytes = &record.bytes[self.offset .. self.offset + self.len];
 
         match &self.data_type {
@@ -96,11 +99,12 @@ impl DbfField {
                 encoding.decode(trim_end_spaces(bytes), encoding::DecoderTrap::Strict)
                     .map_err(|s| DbfError::ParseError(s.to_string()))
             }
+            &DbfType::Long if bytes.len() < 4 => Err(DbfError::ParseError(format!("Field {} is too short for a long", self.name))),
             &DbfType::Long => Ok(LittleEndian::read_u32(bytes).to_string()),
             &DbfType::Numeric => {
                 dbf_numeric_to_valid_string(bytes)
             }
-            _ => { unimplemented!() }
+            _ => Err(DbfError::ParseError(format!("Field {} has a type we cannot read yet", self.name)))
         }
     }
 }
@@ -234,6 +238,10 @@ fn parse_dbf_field(bytes: &[u8], encoding: encoding::EncodingRef, offset: usize)
 ///
 /// Side-effect: advances the file cursor to the first data record.
 fn read_dbf_fields(file: &mut io::Read, encoding: encoding::EncodingRef, dbf_header: &DbfHeader) -> Result<Box<[DbfField]>, DbfError> {
+    if dbf_header.n_header_bytes < DBF_HEADER_LENGTH {
+        return Err(DbfError::ParseError(format!("The .dbf header says it has {} bytes, but it must have at least {}", dbf_header.n_header_bytes, DBF_HEADER_LENGTH)));
+    }
+
     let mut buf = vec![ 0u8; dbf_header.n_header_bytes - DBF_HEADER_LENGTH ];
 
     match file.read_exact(&mut buf) {
-- 
2.43.0


From f560991cb93c77f355c0e24c0cc4dcddfb89b43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:24 +0000
Subject: [PATCH 11/13] fix: point at regions and edges only once they stop
 moving

into_topology() took pointers to elements of a Vec and then called
into_boxed_slice(), which reallocates when the Vec has spare capacity. With an
allocator that moves on realloc, every ring.region of a five-region topology
dangled.
---
 src/clip/topology.rs  | 9 ++++++---
 src/topology/build.rs | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/clip/topology.rs b/src/clip/topology.rs
index a7c23a4..34c976b 100644
--- a/src/clip/topology.rs
+++ b/src/clip/topology.rs
@@ -249,9 +249,11 @@ impl<Data: Clone> Builder<Data> {
                 rings: [ ptr::null(), ptr::null() ],
             }
         }));
+        // Box now, because boxing may move elements and we're about to point to them
+        let edges = edges.into_boxed_slice();
 
         // Build regions and their rings. Make all region pointers null.
-        let mut regions: Vec<TopoRegion<Data>> = self.regions.into_iter().map(|build_region| {
+        let regions: Vec<TopoRegion<Data>> = self.regions.into_iter().map(|build_region| {
             let BuildRegion { data, outer_rings, inner_rings } = build_region;
             let topo_outer_rings: Vec<TopoRing<Data>> = outer_rings.into_iter()
                 .map(|r| build_ring_to_topo_ring_with_null_ptrs(&edges[..], &r)).collect();
@@ -264,6 +266,7 @@ impl<Data: Clone> Builder<Data> {
                 inner_rings: topo_inner_rings.into_boxed_slice(),
             }
         }).collect();
+        let mut regions = regions.into_boxed_slice();
 
         // Now that regions and edges have their final spots in memory, we can
         // set pointers to them.
@@ -289,8 +292,8 @@ impl<Data: Clone> Builder<Data> {
         }
 
         Topology {
-            regions: regions.into_boxed_slice(),
-            edges: edges.into_boxed_slice(),
+            regions: regions,
+            edges: edges,
         }
     }
 }
diff --git a/src/topology/build.rs b/src/topology/build.rs
index 66c943a..2e97223 100644
--- a/src/topology/build.rs
+++ b/src/topology/build.rs
@@ -148,8 +148,10 @@ impl<Data> TopologyBuilder<Data>
         let edges: Vec<TopoEdge<Data>> = edges_sort.into_iter()
             .map(|o| o.expect("programming error: an Edge is missing from self.edges"))
             .collect();
+        // Box now, because boxing may move elements and we're about to point to them
+        let edges = edges.into_boxed_slice();
 
-        let mut regions: Vec<TopoRegion<Data>> = self.regions.into_iter().map(|build_region| {
+        let regions: Vec<TopoRegion<Data>> = self.regions.into_iter().map(|build_region| {
             let BuildRegion { data, outer_rings, inner_rings } = build_region;
 
             let topo_outer_rings: Vec<TopoRing<Data>> = outer_rings.into_iter()
@@ -163,6 +165,7 @@ impl<Data> TopologyBuilder<Data>
                 inner_rings: topo_inner_rings.into_boxed_slice(),
             }
         }).collect();
+        let mut regions = regions.into_boxed_slice();
 
         for mut region in regions.iter_mut() {
             let region_p = region as *const TopoRegion<Data>;
@@ -186,8 +189,8 @@ impl<Data> TopologyBuilder<Data>
         }
 
         Topology {
-            regions: regions.into_boxed_slice(),
-            edges: edges.into_boxed_slice(),
+            regions: regions,
+            edges: edges,
         }
     }
 }
-- 
2.43.0


From e43d5fb7ff884d21c44b6f6c94c9182f167a65ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:00 +0000
Subject: [PATCH 12/13] fix: join outer and inner rings together when
 normalizing

Joining adjacent outer rings can enclose a hole, and an outer ring can fill
part of a hole. An annulus made of eight cells ended up with its hole listed as
an outer ring; a donut half of whose hole was filled by another outer ring of
the same region panicked.
---
 src/normalize.rs | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index 1555c73..48ef5d5 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -341,14 +341,13 @@ fn join_adjacent_rings<T>(rings: &Vec<NormRing<T>>) -> Vec<NormRing<T>> {
     ret
 }
 
-/// Returns a normalized copy of the given set of outer/inner rings.
+/// Returns a copy of the given set of outer/inner rings, each one normalized.
 ///
 /// Call with WindingOrder::Clockwise on outer rings and CounterClockwise on
 /// inner rings.
 ///
-/// Note the tidy cleanup of donuts, even though this function isn't called
-/// with both outer rings and inner rings at the same time (it either gets
-/// all outer rings or all inner rings). For instance:
+/// The rings aren't joined: that's up to join_adjacent_rings(), which must see
+/// outer and inner rings at the same time. For instance:
 ///
 /// ```ascii
 /// A------B
@@ -361,11 +360,11 @@ fn join_adjacent_rings<T>(rings: &Vec<NormRing<T>>) -> Vec<NormRing<T>> {
 /// ```
 ///
 /// If a region has two outer rings `ABCD` and `EHGF`, and one inner ring
-/// ("hole"), `EFGH`, then this function's call to join_adjacent_rings() will
-/// nix `EHGF` when called on outer rings, and it will nix `EFGH` when called
-/// on inner rings (since the edges have two rings and thus two Regions, and
-/// both Regions are identical). Ta-da! The donut is gone.
-fn normalize_region_rings<T>(in_rings: &[TopoRing<T>], winding_order: WindingOrder) -> Box<[Ring]> {
+/// ("hole"), `EFGH`, then join_adjacent_rings() will nix both `EHGF` and `EFGH`
+/// (since the edges have two rings and thus two Regions, and both Regions are
+/// identical). Ta-da! The donut is gone. Were `EHGF` to fill only half the
+/// hole, join_adjacent_rings() would use edges from both to form a smaller hole.
+fn normalize_region_rings<T>(in_rings: &[TopoRing<T>], winding_order: WindingOrder) -> Vec<NormRing<T>> {
     let mut rings = Vec::<NormRing<T>>::with_capacity(in_rings.len());
 
     for ref boxed_ring in in_rings {
@@ -384,11 +383,7 @@ fn normalize_region_rings<T>(in_rings: &[TopoRing<T>], winding_order: WindingOrd
         rings.push(NormRing::<T> { edges: edges });
     }
 
-    rings = join_adjacent_rings(&rings);
-    rings.sort();
-
-    let ret: Vec<Ring> = rings.into_iter().map(|r| r.into_ring()).collect();
-    ret.into_boxed_slice()
+    rings
 }
 
 /// Returns a "normalized" copy of the given Topology.
@@ -411,12 +406,21 @@ pub fn normalize<Data: Clone>(topo: &Topology<Data>) -> Topology<Data> {
     let mut builder = TopologyBuilder::<Data>::new();
 
     for ref region in topo.regions.iter() {
-        let outer_rings = normalize_region_rings(&region.outer_rings, WindingOrder::Clockwise);
-        let inner_rings = normalize_region_rings(&region.inner_rings, WindingOrder::CounterClockwise);
+        let mut rings = normalize_region_rings(&region.outer_rings, WindingOrder::Clockwise);
+        rings.extend(normalize_region_rings(&region.inner_rings, WindingOrder::CounterClockwise));
+
+        rings = join_adjacent_rings(&rings);
+        rings.sort();
+
+        // Joining outer rings can enclose a hole, so look at the final rings.
+        let (outer_rings, inner_rings): (Vec<_>, Vec<_>) = rings.into_iter()
+            .map(|r| r.into_ring())
+            .partition(|r| r.winding_order() == WindingOrder::Clockwise);
+
         builder.add_region(Region {
             data: region.data.clone(),
-            outer_rings: outer_rings,
-            inner_rings: inner_rings,
+            outer_rings: outer_rings.into_boxed_slice(),
+            inner_rings: inner_rings.into_boxed_slice(),
         });
     }
 
-- 
2.43.0


From 45339e92efcb48386023d4251bd7b6fd023a2147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:35 +0000
Subject: [PATCH 13/13] fix: count the bytes of an invalid .shp record

After a record that does not parse, ShpReader would read past the file
length the header declares: it did not count the record's bytes. For
example, header length = one (invalid) record, followed by a valid
record: the iterator yielded the record past the end.
---
 src/read/shapefile/shp.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/read/shapefile/shp.rs b/src/read/shapefile/shp.rs
index d37ff18..a08cdd2 100644
--- a/src/read/shapefile/shp.rs
+++ b/src/read/shapefile/shp.rs
@@ -249,10 +249,13 @@ fn parse_polygon_record(buf: &[u8], record_number: u32) -> Result<ShpPolygonReco
 }
 
 /// Reads the next Polygon record from the file, and returns the number of bytes
-/// that polygon consumed (including its record header).
+/// that record consumed (including its record header).
+///
+/// If the record is invalid, we know how many bytes it consumed all the same.
+/// Returns Err iff we could not read the bytes.
 ///
 /// Side effect: advances the file cursor to the next Polygon.
-fn read_polygon_record(file: &mut io::Read) -> Result<(ShpPolygonRecord, usize), ShpError> {
+fn read_polygon_record(file: &mut io::Read) -> Result<(Result<ShpPolygonRecord, ShpError>, usize), ShpError> {
     let mut header_buf = [ 0u8; SHP_RECORD_HEADER_LENGTH ];
 
     match file.read_exact(&mut header_buf) {
@@ -264,7 +267,7 @@ fn read_polygon_record(file: &mut io::Read) -> Result<(ShpPolygonRecord, usize),
             let mut buf = vec![ 0u8; content_length * 2 ];
             match file.read_exact(&mut buf) {
                 Err(err) => Err(ShpError::IOError(err)),
-                Ok(_) => parse_polygon_record(&buf[..], record_number).map(|record| (record, header_buf.len() + buf.len()))
+                Ok(_) => Ok((parse_polygon_record(&buf[..], record_number), header_buf.len() + buf.len()))
             }
         }
     }
@@ -326,18 +329,17 @@ impl<R: io::Read> Iterator for ShpReader<R> {
             None
         } else {
             match read_polygon_record(&mut self.file) {
-                Err(ShpError::IOError(err)) => {
+                Err(err) => {
                     // There is nothing left to read: don't fail forever
                     self.n_bytes_already_read = self.header.file_n_bytes;
-                    Some(Err(ShpError::IOError(err)))
+                    Some(Err(err))
                 }
-                Err(err) => Some(Err(err)),
-                Ok((record, n_bytes)) => {
+                Ok((record_result, n_bytes)) => {
                     self.n_bytes_already_read += n_bytes;
                     if self.n_bytes_already_read > self.header.file_n_bytes {
                         Some(Err(ShpError::ParseError(format!("The Shapefile header suggests the file is {} bytes long, but it's longer than that.", self.header.file_n_bytes))))
                     } else {
-                        Some(Ok(record))
+                        Some(record_result)
                     }
                 }
             }
-- 
2.43.0

