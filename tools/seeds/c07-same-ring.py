prop='C07'; needs='clipping a ring that walks one edge in both directions'
breaks='the second use of an edge by the same ring is not recorded'
file='src/clip/topology.rs'
edits=[('let i = if edge.rings[0].is_null() {', 'let i = if edge.rings[0].is_null() || edge.rings[0] == ring as *const TopoRing<Data> {')]
demo='''use topogeo::geo::*; use topogeo::topology::*;
#[allow(dead_code)] fn pts(v: &[(u32, u32)]) -> Ring { Ring::Points(v.iter().map(|p| Point(p.0, p.1)).collect::<Vec<_>>().into_boxed_slice()) }
#[allow(dead_code)] fn reg(d: u8, o: Vec<Ring>, i: Vec<Ring>) -> Region<u8> { Region { data: d, outer_rings: o.into_boxed_slice(), inner_rings: i.into_boxed_slice() } }
fn main() {
    let mut b = TopologyBuilder::new();
    b.add_region(reg(1, vec![pts(&[(0, 0), (10, 0), (20, 0), (10, 0), (10, 10), (0, 10), (0, 0)])], vec![]));
    let t = topogeo::clip::clip_topology(&b.into_topology(), &topogeo::clip::ClipMask::MaxX(100));
    let n: usize = t.regions.iter().flat_map(|r| r.outer_rings.iter()).map(|r| r.directed_edges.len()).sum();
    let m: usize = t.edges.iter().map(|e| e.rings.iter().filter(|r| !r.is_null()).count()).sum();
    assert_eq!(n, m);
}
'''
