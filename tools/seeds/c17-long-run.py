prop='C17'; needs='a border of more than nine points between the same regions'
breaks='long runs of edges between the same two regions are cut where the walk along each ring happens to be, so neighbours do not share them'
file='src/normalize.rs'
edits=[('Some(ref mut last) if last.regions == edge.regions => {', 'Some(ref mut last) if last.regions == edge.regions && last.points.len() < 9 => {')]
demo='''use topogeo::geo::*; use topogeo::topology::*;
#[allow(dead_code)] fn pts(v: &[(u32, u32)]) -> Ring { Ring::Points(v.iter().map(|p| Point(p.0, p.1)).collect::<Vec<_>>().into_boxed_slice()) }
#[allow(dead_code)] fn reg(d: u8, o: Vec<Ring>, i: Vec<Ring>) -> Region<u8> { Region { data: d, outer_rings: o.into_boxed_slice(), inner_rings: i.into_boxed_slice() } }
fn main() {
    // two regions with a border of 14 segments
    let mut l: Vec<(u32, u32)> = (0..15).map(|i| (100 + i % 2, i)).collect();
    let mut right = l.clone(); right.extend([(200, 14), (200, 0)]); right.push(l[0]); right.reverse();
    l.extend([(0, 14), (0, 0)]); let f = l[0]; l.push(f);
    let mut b = TopologyBuilder::new();
    b.add_region(reg(1, vec![pts(&l)], vec![]));
    b.add_region(reg(2, vec![pts(&right)], vec![]));
    let t = topogeo::normalize(&b.into_topology());
    let mut seen = std::collections::HashSet::new();
    for e in t.edges.iter() { for w in e.points.windows(2) { assert!(seen.insert((w[0].min(w[1]), w[0].max(w[1])))); } }
    assert_eq!(t.edges.len(), 3);
}
'''
