prop='C05'; needs='a hole filled by another region, both cut by a mask parallel to the x axis'
breaks='joining edges along a horizontal mask line are not put in canonical direction, so the shared one is stored twice'
file='src/clip/topology.rs'
edits=[('if p1 < p2 { (p1', 'if p1.0 < p2.0 || p1.1 <= p2.1 { (p1')]
demo='''use topogeo::geo::*; use topogeo::topology::*;
#[allow(dead_code)] fn pts(v: &[(u32, u32)]) -> Ring { Ring::Points(v.iter().map(|p| Point(p.0, p.1)).collect::<Vec<_>>().into_boxed_slice()) }
#[allow(dead_code)] fn reg(d: u8, o: Vec<Ring>, i: Vec<Ring>) -> Region<u8> { Region { data: d, outer_rings: o.into_boxed_slice(), inner_rings: i.into_boxed_slice() } }
fn main() {
    let mut b = TopologyBuilder::new();
    b.add_region(reg(1, vec![pts(&[(0, 0), (20, 0), (20, 20), (0, 20), (0, 0)])], vec![pts(&[(5, 5), (5, 15), (15, 15), (15, 5), (5, 5)])]));
    b.add_region(reg(2, vec![pts(&[(5, 5), (15, 5), (15, 15), (5, 15), (5, 5)])], vec![]));
    let t = topogeo::clip::clip_topology(&b.into_topology(), &topogeo::clip::ClipMask::MaxY(10));
    let mut seen = std::collections::HashSet::new();
    for e in t.edges.iter() { let mut p: Vec<Point> = e.points.to_vec(); p.sort(); assert!(seen.insert(p), "stored twice"); }
}
'''
