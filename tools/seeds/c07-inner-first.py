prop="C07"; needs="an edge used by an outer and by an inner ring of the same region"
breaks="the edge's first reference is the inner ring, although the outer ring comes first in region order"
file="src/topology/build.rs"
edits=[("for mut ring in region.outer_rings.iter_mut().chain(region.inner_rings.iter_mut()) {","for mut ring in region.inner_rings.iter_mut().chain(region.outer_rings.iter_mut()) {")]
demo='''use topogeo::geo::*; use topogeo::topology::*;
fn pts(v: &[(u32, u32)]) -> Ring { Ring::Points(v.iter().map(|p| Point(p.0, p.1)).collect::<Vec<_>>().into_boxed_slice()) }
fn main() {
    let mut b = TopologyBuilder::new();
    b.add_region(Region { data: 1, outer_rings: vec![pts(&[(0, 0), (9, 0), (9, 9), (0, 9), (0, 0)]), pts(&[(3, 3), (5, 3), (5, 5), (3, 5), (3, 3)])].into_boxed_slice(),
        inner_rings: vec![pts(&[(3, 3), (3, 5), (5, 5), (5, 3), (3, 3)])].into_boxed_slice() });
    let t = b.into_topology();
    for e in t.edges.iter() { if !e.rings[1].is_null() {
        assert_eq!(e.rings[0], &t.regions[0].outer_rings[1] as *const _);
        assert_eq!(e.rings[1], &t.regions[0].inner_rings[0] as *const _);
    } }
}
'''
