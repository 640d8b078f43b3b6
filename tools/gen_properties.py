import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
I=["inputs"]
p("C01","Ring area and winding order are exact for every u32 ring",
 "For every closed ring of u32 points, given either as a point list or as a list of consecutive edges, the reported doubled area is exactly the absolute value of the shoelace sum, and the reported winding order is clockwise exactly when that sum (y axis pointing down) is non-negative. The answer never overflows or panics, whatever the coordinates, and does not depend on how the ring is cut into edges.",
 I,"every ring: any number of points, any u32 coordinates, either representation",
 "the unit tests for geometry are behind a misspelt cfg and never compiled; other tests only use coordinates below 101, so no test reaches large products, and none states the sum itself",
 ["src/geo/mod.rs"],[("shoelace accumulation","src/geo/mod.rs signed_area2"),("sign split into area and orientation","src/geo/mod.rs area2_and_winding_order"),("per-edge accumulation","src/geo/mod.rs Ring::area2_and_winding_order")],observe=["geo::signed_area2","geo::area2","geo::winding_order","Ring::area2_and_winding_order"])
p("C02","Converting a ring between points and edges loses and invents nothing",
 "For every ring, asking for its edges gives, for a point-list ring, one two-point edge per pair of consecutive points in order, and for an edge-list ring its edges unchanged; asking for its points gives, for an edge-list ring, the points met when walking the edges in order with each joint between consecutive edges listed once, and for a point-list ring its points unchanged. Hence converting a closed point ring to edges and back yields the same ring.",
 I,"every ring in either representation, any length including 0 and 1 points",
 "the four tests written for this are behind a misspelt cfg and never run; no length other than 4 is sampled even there",
 ["src/geo/mod.rs"],[("pairwise windows","src/geo/mod.rs Ring::edges"),("concatenation of edge points","src/geo/mod.rs Ring::points")],observe=["Ring::edges","Ring::points"])
p("C03","Clip-mask classification and line crossing are correct for all coordinates",
 "For every single-axis mask and point, the point is reported on-edge exactly when its relevant coordinate equals the mask value, inside exactly when it is strictly on the kept side, and outside otherwise. For every segment with one end strictly inside and the other strictly outside, the computed crossing lies exactly on the mask line, between the two ends in the other coordinate, and less than one unit from the exact crossing, with no overflow or panic for any u32 coordinates.",
 I,"every mask kind and value, every point, every straddling segment, over the full u32 range",
 "tests classify twelve points and intersect a handful of segments with coordinates below 101; rounding, direction and 64-bit overflow are input-range questions",
 ["src/clip/types.rs"],[("coordinate comparison","src/clip/types.rs ClipMask::test"),("integer interpolation","src/clip/types.rs ClipMask::intersect")],observe=["ClipMask::test","ClipMask::intersect"])
p("C04","Clipping a path keeps exactly the part on the kept side",
 "For every path of two or more points and every mask, the clipped path contains no point strictly outside the mask, contains every strictly inside vertex exactly once and in order, and otherwise contains only crossings of straddling segments and on-line vertices adjacent to an inside vertex, each placed where the path enters or leaves and an on-line vertex never twice in a row. A path with no strictly inside vertex clips to nothing, and a path whose vertices are all strictly inside is returned unchanged.",
 I,"every list of points (any length, repeated points, runs along the mask line) and every mask",
 "nine unit tests sample paths of at most four points and one doc test of six; sequences of inside/on-edge/outside transitions are unbounded",
 ["src/clip/edge.rs","src/clip/types.rs"],[("Sutherland-Hodgman state machine","src/clip/edge.rs clip_edge")],observe=["clip::edge::clip_edge"])
p("C05","Clipping a topology leaves closed rings inside the mask and keeps regions",
 "For every topology whose rings are closed, every ring of the clipped topology is a closed walk (each directed edge starts where the previous one ends, and the last ends where the first starts), visits only points on the kept side or on the mask line, and has non-zero area: it follows the clipped paths of the original ring's edges in order, joined by straight edges along the mask line where they do not meet, each stored once however many rings use it and whichever way. Regions keep their data and relative order, a ring disappears only when nothing or only zero area is left of it, and a region disappears exactly when all its outer rings do.",
 I,"every closed-ring topology, every mask; rings with any number of edges in either direction, shared edges, holes; as long as no path of the result is needed more than twice",
 "three unit tests clip single triangles, each ring being a single edge; rings made of several directed edges, backward edges and re-entry gaps are never exercised",
 ["src/clip/topology.rs","src/clip/edge.rs","src/clip/types.rs"],[("gap plugging and area accumulation","src/clip/topology.rs Builder::clip_ring"),("edge lookup by pointer offset","src/clip/topology.rs Builder::find_old_edge_id"),("deduplicated border edges","src/clip/topology.rs NewEdgeSet"),("region filter","src/clip/topology.rs Builder::add_region")],observe=["clip::clip_topology"])
p("C06","Building a topology is faithful and stores each shared path once",
 "For every sequence of added regions, the built topology contains, in order and with their data, exactly the regions that have an outer ring of non-zero area, with exactly their non-zero-area rings in order, and following a ring's directed edges reproduces the input ring's edges in order except zero-length ones. Each stored edge runs in its canonical direction (from its smaller to its larger end point, or clockwise when it is a closed edge), and no two stored edges have the same points and each belongs to a ring, so two rings that use the same path in either direction refer to the same edge (closed paths of zero area apart, which have no direction).",
 ["inputs","histories"],"every sequence of add-region calls, rings in either representation, edges of any length, in either direction, in which no path is used more than twice",
 "eight tests add at most two regions of triangles; canonicalisation and deduplication across arbitrary insertion histories and multi-point or closed edges are not sampled",
 ["src/topology/build.rs","src/topology/types.rs"],[("canonical direction + hash lookup","src/topology/build.rs TopologyBuilder::build_directed_edge"),("zero-area filter","src/topology/build.rs TopologyBuilder::build_ring"),("id-order placement","src/topology/build.rs TopologyBuilder::into_topology")],observe=["topology::TopologyBuilder"])
p("C07","Topology back-references are complete and consistent",
 "In every topology produced by building, normalizing or clipping, each ring refers to the region that owns it, each directed edge refers to an edge stored in that topology, and each edge's ring references are exactly the rings that use it: the first in region order first, the second reference null exactly when only one use exists. All references stay valid for as long as the returned topology is not modified.",
 ["inputs","histories"],"every topology produced by these operations in which no path is used more than twice",
 "tests compare a handful of pointers on one-region outputs; references are filled in by a pass whose correctness depends on every edge, ring and region position",
 ["src/topology/build.rs","src/clip/topology.rs"],[("reference-filling pass","src/topology/build.rs TopologyBuilder::into_topology"),("reference-filling pass","src/clip/topology.rs Builder::into_topology")],observe=["Topology::regions","Topology::edges"])
p("C08","Simplifying never changes topology",
 "For every topology and threshold, simplification leaves regions, rings, directions and references untouched and replaces each edge's points by a subsequence of them that starts and ends with the same points. A closed edge of four or more points keeps at least four points, an edge of two points is unchanged, and no edge and no coordinates make it panic.",
 I,"every topology, every edge (any length, closed or open, repeated points, full u32 coordinates) and every u64 threshold",
 "six tests simplify edges of at most five points with coordinates below 11",
 ["src/simplify/mod.rs","src/simplify/simplify_edge.rs"],[("end points get maximal weight","src/simplify/simplify_edge.rs PointHeap::from"),("final filter and ring floor","src/simplify/simplify_edge.rs PointHeap::visvalingam_whyatt"),("edge-by-edge rewrite","src/simplify/mod.rs simplify")],observe=["simplify"])
p("C09","Simplifying removes the least significant points, down to the threshold",
 "Simplification of an open edge repeatedly drops an interior point whose triangle with its current neighbours has the smallest exact doubled area, as long as that area does not exceed the threshold, so in the result every interior point spans with its two neighbours a doubled triangle area greater than the threshold. In particular an edge all of whose interior points already exceed the threshold is returned unchanged, and closed edges obey the same rule unless the four-point minimum applies.",
 I,"every edge, every threshold, full u32 coordinates",
 "tests check three one-step cases with tiny coordinates; the priority queue with in-place reweighting is only exercised with at most three interior points",
 ["src/simplify/simplify_edge.rs"],[("triangle area","src/simplify/simplify_edge.rs area2"),("binary heap with back-indices","src/simplify/simplify_edge.rs PointHeap::{heapify,sift_down,sift_up,pop}"),("linked-list neighbour reweighting","src/simplify/simplify_edge.rs PointHeap::recalculate_point_weight")],observe=["simplify"])
p("C10","Normalizing puts every ring in canonical form",
 "In the output of normalization every outer ring is clockwise and every inner ring counter-clockwise, every ring's first edge starts at the smallest node of the ring (for a ring that is a single closed edge, at its smallest point), and the rings of each region are sorted by their first point. No two consecutive edges of an output ring follow edges of the input that have the same regions on their sides, and no output edge follows an input edge that has one region on both sides.",
 I,"every topology built from non-overlapping regions none of which touches itself at an isolated point",
 "eleven tests normalize one or two regions with at most three triangles; ordering, rotation and merging depend on the whole ring and on neighbouring regions",
 ["src/normalize.rs"],[("merge of edges with equal sides","src/normalize.rs join_related_edges"),("orientation","src/normalize.rs wind_edges"),("rotation","src/normalize.rs rotate_edges / rotate_island_edge"),("removal of interior borders","src/normalize.rs join_adjacent_rings")],observe=["normalize"])
p("C11","Normalizing preserves regions and their geometry",
 "Normalization keeps the regions, their order and their data, and for each region the multiset of directed boundary segments (outer clockwise, inner counter-clockwise) is unchanged except that segments with the region on both sides disappear; these come in opposite pairs when the regions do not overlap, and then each region's net area is unchanged. Every output ring is a closed walk and every point of the output is a point of the input.",
 I,"every topology built from non-overlapping regions none of which touches itself at an isolated point",
 "tests compare a few complete outputs of one or two small regions",
 ["src/normalize.rs"],[("concatenation without repeated joints","src/normalize.rs join_related_edges"),("reversal","src/normalize.rs wind_edges"),("rotation with re-closed island","src/normalize.rs rotate_island_edge"),("edge following","src/normalize.rs join_adjacent_rings")],observe=["normalize"])
p("C17","Normalized neighbours share their borders",
 "When regions neither overlap nor touch themselves at an isolated point, and rings are cut where three meet, then in the output of normalization every boundary segment lies on exactly one stored edge, an edge used twice is used by two different regions, once in each direction, and consecutive edges of a ring differ in the set of regions that use them. So the border between two regions is the same sequence of edges in both, whatever the edges of the input were.",
 I,"every topology built from non-overlapping regions of non-zero area, without repeated consecutive points, whose rings are cut at every point where three of them meet and none of which touches itself at an isolated point",
 "tests normalize at most two regions; that both neighbours arrive at the same edges depends on all rings around each node",
 ["src/normalize.rs","src/topology/build.rs"],[("merge of edges with equal sides","src/normalize.rs join_related_edges"),("removal of interior borders","src/normalize.rs join_adjacent_rings"),("one edge per path","src/topology/build.rs TopologyBuilder::build_directed_edge")],observe=["normalize"])
p("C12","Polygon shapefile records decode to exactly the bytes in the file",
 "A .shp stream is accepted only if its magic number, version and polygon type match, and every accepted record's rings are the runs of points between consecutive part offsets (the last to the end), in order, with each coordinate equal to the little-endian f64 stored in the file. Records are yielded in file order until the header's stated length is reached, and a record whose stated sizes are inconsistent, whose part offsets are out of range or not increasing, or that has a ring of fewer than four points, is reported as an error.",
 I,"every byte stream",
 "doc tests read two tiny files with one ring per record",
 ["src/read/shapefile/shp.rs"],[("header validation","src/read/shapefile/shp.rs read_shp_header"),("part splitting","src/read/shapefile/shp.rs parse_polygon_record"),("byte accounting","src/read/shapefile/shp.rs ShpReader::next")],observe=["shp::ShpReader"])
p("C13","DBF fields and records decode at their declared positions",
 "A .dbf stream yields exactly the number of records its header declares (or an error for each missing one), each record being the next block of the declared record length. Field i occupies the bytes after the deletion flag and the declared lengths of fields before it; reading a character field decodes its bytes without trailing spaces, reading a numeric field returns its digits only if they form a decimal number, and reading a long field gives its little-endian u32 value. Looking up a field by name gives the first field of exactly that name.",
 I,"every byte stream, every encoding",
 "doc tests read two tiny files with a single field",
 ["src/read/shapefile/dbf.rs"],[("header","src/read/shapefile/dbf.rs read_dbf_header"),("running offset","src/read/shapefile/dbf.rs read_dbf_fields"),("field extraction","src/read/shapefile/dbf.rs DbfField::read_string"),("record counter","src/read/shapefile/dbf.rs DbfReader::next")],observe=["dbf::DbfReader","dbf::DbfField"])
p("C14","Geometry and attribute records are paired one to one",
 "The n-th item of a shapefile combines the n-th geometry record with the n-th attribute record. Iteration ends without error only when both files end together; if one file ends first, or either record fails to decode, that item is an error of the corresponding kind and never a record with the wrong partner. Opening a shapefile by name pairs the named file with the file of the same name but the extension dbf.",
 ["inputs","histories"],"every pair of .shp/.dbf streams, at every step of the iteration",
 "one doc test reads two matched records; no test reads mismatched or failing files",
 ["src/read/shapefile/shapefile.rs","src/read/shapefile/geo.rs"],[("paired match","src/read/shapefile/shapefile.rs ShapefileReader::next"),("error mapping","src/read/shapefile/shapefile.rs ShapefileReader::new")],observe=["ShapefileReader","ShapefileGeoIterator"])
p("C15","Quantization maps the bounding box monotonically onto the u32 square",
 "For every bounding box with finite corners and positive finite extent, the left and right sides map to x 0 and u32::MAX and the top and bottom sides to y 0 and u32::MAX (north up becomes y down); x never decreases as the source x grows and y never decreases as the source y falls, so equal source coordinates always quantize equally. Every ring keeps its number and order of points, and a region's rings are split into outer and inner by the winding order of the quantized ring, keeping their order.",
 I,"every bounding box and point of finite f64 values, every record",
 "no test constructs a quantizing iterator at all",
 ["src/read/shapefile/geo.rs"],[("affine map and saturating cast","src/read/shapefile/geo.rs ShapefileQuantizer::quantize"),("axis flip","src/read/shapefile/geo.rs ShapefileQuantizer::new"),("outer/inner partition","src/read/shapefile/geo.rs ShapefileGeoIterator::next")],observe=["ShapefileGeoIterator"])
p("C16","Malformed shapefiles are reported as errors, never as panics",
 "For every pair of byte streams presented as .shp and .dbf files (truncated, random, or with inconsistent counts, lengths, offsets or types), opening and iterating the readers and reading or displaying any field of any record they yield returns a value or an error and never panics. After the first error from a damaged or truncated .shp stream that ends early, the geometry iteration still ends.",
 ["inputs","fault_sequences"],"every byte stream pair",
 "tests only read well-formed files",
 ["src/read/shapefile/shp.rs","src/read/shapefile/dbf.rs","src/read/shapefile/shapefile.rs","src/read/shapefile/geo.rs"],[("length checks before slicing","src/read/shapefile/shp.rs parse_polygon_record"),("header length check","src/read/shapefile/dbf.rs read_dbf_fields"),("field range check","src/read/shapefile/dbf.rs DbfField::read_string")],observe=["ShpReader","DbfReader","ShapefileReader","ShapefileGeoIterator"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
