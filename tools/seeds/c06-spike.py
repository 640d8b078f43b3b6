prop="C06"; needs="a ring with an edge that goes somewhere and straight back (a closed edge of three points)"
breaks="the there-and-back edge is dropped although it is not of zero length"
file="src/topology/build.rs"
edits=[("(points.len() == 2 && points[0] == points[1])","(points.len() <= 3 && points[0] == points[points.len() - 1])")]
demo='''use topogeo::geo::*; use topogeo::topology::*;
fn e(v: &[(u32, u32)]) -> Edge { Edge(v.iter().map(|p| Point(p.0, p.1)).collect::<Vec<_>>().into_boxed_slice()) }
fn main() {
    let mut b = TopologyBuilder::new();
    b.add_region(Region { data: 1, outer_rings: vec![Ring::Edges(vec![e(&[(0, 0), (9, 0)]), e(&[(9, 0), (20, 0), (9, 0)]), e(&[(9, 0), (9, 9), (0, 0)])].into_boxed_slice())].into_boxed_slice(), inner_rings: vec![].into_boxed_slice() });
    let t = b.into_topology();
    assert_eq!(t.regions[0].outer_rings[0].directed_edges.len(), 3);
    assert_eq!(t.edges.len(), 3);
}
'''
