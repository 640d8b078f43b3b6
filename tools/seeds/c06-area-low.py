prop='C06'; needs='a ring whose doubled area is a multiple of 2^32'
breaks='a ring of non-zero area is taken for one of zero area and left out'
file='src/geo/mod.rs'
edits=[('        self.area2_and_winding_order().0\n', '        self.area2_and_winding_order().0 as u32 as u128\n')]
demo='''use topogeo::geo::*; use topogeo::topology::*;
#[allow(dead_code)] fn pts(v: &[(u32, u32)]) -> Ring { Ring::Points(v.iter().map(|p| Point(p.0, p.1)).collect::<Vec<_>>().into_boxed_slice()) }
#[allow(dead_code)] fn reg(d: u8, o: Vec<Ring>, i: Vec<Ring>) -> Region<u8> { Region { data: d, outer_rings: o.into_boxed_slice(), inner_rings: i.into_boxed_slice() } }
fn main() {
    let mut b = TopologyBuilder::new();
    b.add_region(reg(1, vec![pts(&[(0, 0), (65536, 0), (65536, 32768), (0, 32768), (0, 0)])], vec![]));
    assert_eq!(b.into_topology().regions.len(), 1);
}
'''
