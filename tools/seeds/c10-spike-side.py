prop='C10'; needs='a ring that walks an edge in both directions'
breaks='an edge with one region on both sides is taken for an outside border and kept'
file='src/normalize.rs'
edits=[('if edge.rings[1].is_null() { ptr::null() }', 'if edge.rings[1].is_null() || edge.rings[1] == edge.rings[0] { ptr::null() }')]
demo='''use topogeo::geo::*; use topogeo::topology::*;
#[allow(dead_code)] fn pts(v: &[(u32, u32)]) -> Ring { Ring::Points(v.iter().map(|p| Point(p.0, p.1)).collect::<Vec<_>>().into_boxed_slice()) }
#[allow(dead_code)] fn reg(d: u8, o: Vec<Ring>, i: Vec<Ring>) -> Region<u8> { Region { data: d, outer_rings: o.into_boxed_slice(), inner_rings: i.into_boxed_slice() } }
fn main() {
    let mut b = TopologyBuilder::new();
    b.add_region(reg(1, vec![pts(&[(0, 0), (10, 0), (10, 5), (15, 5), (10, 5), (10, 10), (0, 10), (0, 0)])], vec![]));
    let t = topogeo::normalize(&b.into_topology());
    for e in t.edges.iter() { for p in e.points.iter() { assert!(*p != Point(15, 5)); } }
}
'''
