"""Which functions decide which property. own: functions whose obligations state the property. deps: functions whose
contracts the owners rely on; they are verified in the same run, but a failed obligation there is an alarm of this
property only with a failing input (another property owns it). labelled: functions of which only the clauses labelled with the property count. lemmas: modules of lemmas alone. stand_in: functions the property depends on that are
only checked within the harness's bounds. kinds: which failed obligations of the own functions speak about the property:
those about results, or those about panics (default: all)."""
GEO_AREA = ["geo::signed_area2", "geo::area2_and_winding_order", "geo::area2", "geo::winding_order", "geo::Ring::area2_and_winding_order", "geo::Ring::area2", "geo::Ring::winding_order"]
PROPS = {
    "C01": dict(own=GEO_AREA, deps=[], stand_in=[]),
    "C02": dict(own=["geo::Ring::edges", "geo::Ring::points"], deps=["geo::*"], stand_in=[]),
    "C03": dict(own=["clip::types::*"], deps=[], stand_in=[]),
    "C04": dict(own=["clip::edge::*"], deps=["clip::types::*"], stand_in=[]),
    "C05": dict(own=["clip::topology::*"], deps=["geo::*", "clip::types::*", "clip::edge::*"], stand_in=[]),
    "C06": dict(own=["topology::build::*"], deps=["geo::*"], stand_in=[]),
    "C07": dict(own=["topology::build::TopologyBuilder::into_topology", "topology::build::build_ring*", "clip::topology::Builder::into_topology", "clip::topology::build_ring*"], deps=["geo::*", "topology::build::*", "clip::*", "normalize::*"], labelled=["normalize::normalize", "clip::topology::clip_topology"], stand_in=[]),
    "C08": dict(own=["simplify::simplify", "simplify::simplify_edge::simplify_edge", "simplify::simplify_edge::PointHeap::visvalingam_whyatt"], deps=["simplify::*"], stand_in=[]),
    "C09": dict(own=["simplify::*"], deps=[], stand_in=[]),
    "C10": dict(own=["normalize::*"], deps=["geo::*", "topology::build::*"], stand_in=[]),
    "C11": dict(own=["normalize::*"], deps=["geo::*", "topology::build::*"], lemmas=["pairs", "borders"], stand_in=[]),
    "C17": dict(own=["normalize::normalize"], deps=["geo::*", "topology::build::*", "normalize::*"], labelled=["normalize::*"], lemmas=["borders"], stand_in=[]),
    "C12": dict(kinds="result", own=["read::shapefile::shp::*"], deps=[], stand_in=[]),
    "C13": dict(kinds="result", own=["read::shapefile::dbf::*"], deps=[], stand_in=[]),
    "C14": dict(kinds="result", own=["read::shapefile::shapefile::*"], deps=["read::shapefile::shp::*", "read::shapefile::dbf::*"], stand_in=[]),
    "C15": dict(kinds="result", own=["read::shapefile::geo::*"], deps=["geo::*"], stand_in=[]),
    "C16": dict(kinds="panic", own=["read::shapefile::*"], deps=["geo::*"], stand_in=[]),
}
# source files whose functions a property depends on
FILES = {
    "C01": ["src/geo/mod.rs"], "C02": ["src/geo/mod.rs"], "C03": ["src/clip/types.rs"], "C04": ["src/clip/types.rs", "src/clip/edge.rs"],
    "C05": ["src/geo/mod.rs", "src/clip/types.rs", "src/clip/edge.rs", "src/clip/topology.rs"],
    "C06": ["src/geo/mod.rs", "src/topology/build.rs", "src/topology/types.rs"],
    "C07": ["src/topology/build.rs", "src/topology/types.rs", "src/clip/topology.rs", "src/normalize.rs"],
    "C08": ["src/simplify/mod.rs", "src/simplify/simplify_edge.rs"], "C09": ["src/simplify/simplify_edge.rs"],
    "C10": ["src/normalize.rs"], "C11": ["src/normalize.rs"], "C17": ["src/normalize.rs", "src/topology/build.rs"],
    "C12": ["src/read/shapefile/shp.rs"], "C13": ["src/read/shapefile/dbf.rs"], "C14": ["src/read/shapefile/shapefile.rs"],
    "C15": ["src/read/shapefile/geo.rs"],
    "C16": ["src/read/shapefile/shp.rs", "src/read/shapefile/dbf.rs", "src/read/shapefile/shapefile.rs", "src/read/shapefile/geo.rs"],
}
