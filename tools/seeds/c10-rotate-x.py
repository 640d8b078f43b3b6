prop="C10"; needs="a ring with two nodes of equal smallest x, met in the order larger y first"
breaks="the ring does not start at its smallest node"
file="src/normalize.rs"
edits=[("min_by_key(|&(_, e)| e.points[0]) {","min_by_key(|&(_, e)| e.points[0].0) {")]
demo='''use topogeo::geo::*; use topogeo::topology::*; use topogeo::normalize;
fn pts(v: &[(u32, u32)]) -> Ring { Ring::Points(v.iter().map(|p| Point(p.0, p.1)).collect::<Vec<_>>().into_boxed_slice()) }
fn main() {
    let mut b = TopologyBuilder::new();
    b.add_region(Region { data: 1, outer_rings: vec![pts(&[(5, 9), (5, 0), (9, 0), (9, 9), (5, 9)])].into_boxed_slice(), inner_rings: vec![].into_boxed_slice() });
    b.add_region(Region { data: 2, outer_rings: vec![pts(&[(5, 0), (5, 9), (0, 9), (0, 0), (5, 0)])].into_boxed_slice(), inner_rings: vec![].into_boxed_slice() });
    let t = normalize(&b.into_topology());
    for r in t.regions.iter() { let r = &r.outer_rings[0];
        let starts: Vec<Point> = r.directed_edges.iter().map(|d| { let e = unsafe { &*d.edge }; if d.direction == Direction::Forward { e.points[0] } else { e.points[e.points.len() - 1] } }).collect();
        assert_eq!(starts[0], *starts.iter().min().unwrap());
    }
}
'''
