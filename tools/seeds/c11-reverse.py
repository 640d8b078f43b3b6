prop="C11"; needs="a ring of several edges that is wound the wrong way round"
breaks="the re-wound ring's edges stay in their old order, so the ring is no closed walk"
file="src/normalize.rs"
edits=[("            ret.push(new_edge);\n        }\n        ret.reverse();\n        ret","            ret.insert(0, new_edge);\n        }\n        ret.reverse();\n        ret")]
demo='''use topogeo::geo::*; use topogeo::topology::*; use topogeo::normalize;
fn pts(v: &[(u32, u32)]) -> Ring { Ring::Points(v.iter().map(|p| Point(p.0, p.1)).collect::<Vec<_>>().into_boxed_slice()) }
fn main() {
    // three strips, the middle one counter-clockwise: four edges, each with its own neighbours
    let mut b = TopologyBuilder::new();
    b.add_region(Region { data: 1, outer_rings: vec![pts(&[(0, 0), (5, 0), (5, 9), (0, 9), (0, 0)])].into_boxed_slice(), inner_rings: vec![].into_boxed_slice() });
    b.add_region(Region { data: 2, outer_rings: vec![pts(&[(5, 0), (5, 9), (9, 9), (9, 0), (5, 0)])].into_boxed_slice(), inner_rings: vec![].into_boxed_slice() });
    b.add_region(Region { data: 3, outer_rings: vec![pts(&[(9, 0), (12, 0), (12, 9), (9, 9), (9, 0)])].into_boxed_slice(), inner_rings: vec![].into_boxed_slice() });
    let t = normalize(&b.into_topology());
    for r in t.regions.iter() { for r in r.outer_rings.iter() {
        let ends: Vec<(Point, Point)> = r.directed_edges.iter().map(|d| { let e = unsafe { &*d.edge }; let (a, b) = (e.points[0], e.points[e.points.len() - 1]); if d.direction == Direction::Forward { (a, b) } else { (b, a) } }).collect();
        for i in 0..ends.len() { assert_eq!(ends[i].1, ends[(i + 1) % ends.len()].0); }
    } }
}
'''
