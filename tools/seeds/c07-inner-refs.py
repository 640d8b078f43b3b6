prop='C07'; needs='clipping a region with a hole that another ring of the region fills'
breaks='references are filled in with inner rings first, so an edge names its rings in the wrong order'
file='src/clip/topology.rs'
edits=[('region.outer_rings.iter_mut().chain(region.inner_rings.iter_mut())', 'region.inner_rings.iter_mut().chain(region.outer_rings.iter_mut())')]
demo='''use topogeo::geo::*; use topogeo::topology::*;
#[allow(dead_code)] fn pts(v: &[(u32, u32)]) -> Ring { Ring::Points(v.iter().map(|p| Point(p.0, p.1)).collect::<Vec<_>>().into_boxed_slice()) }
#[allow(dead_code)] fn reg(d: u8, o: Vec<Ring>, i: Vec<Ring>) -> Region<u8> { Region { data: d, outer_rings: o.into_boxed_slice(), inner_rings: i.into_boxed_slice() } }
fn main() {
    let mut b = TopologyBuilder::new();
    b.add_region(reg(1, vec![pts(&[(0, 0), (20, 0), (20, 20), (0, 20), (0, 0)]), pts(&[(5, 5), (15, 5), (15, 15), (5, 15), (5, 5)])], vec![pts(&[(5, 5), (5, 15), (15, 15), (15, 5), (5, 5)])]));
    let t = topogeo::clip::clip_topology(&b.into_topology(), &topogeo::clip::ClipMask::MaxX(10));
    let outer = &t.regions[0].outer_rings[1] as *const TopoRing<u8>;
    let inner = &t.regions[0].inner_rings[0] as *const TopoRing<u8>;
    for d in t.regions[0].inner_rings[0].directed_edges.iter() { let e = unsafe { &*d.edge }; assert!(e.rings[0] == outer && e.rings[1] == inner); }
}
'''
