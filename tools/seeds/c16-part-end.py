prop="C16"; needs="a polygon record whose second part offset lies beyond its points"
breaks="a malformed part offset panics instead of being reported"
file="src/read/shapefile/shp.rs"
edits=[("if part_start > points.len() || part_end > points.len() {","if part_start > points.len() {")]
demo='''use topogeo::read::shapefile::shp::ShpReader;
fn main() {
    let mut c: Vec<u8> = vec![]; c.extend(5u32.to_le_bytes()); c.extend([0u8; 32]); c.extend(2u32.to_le_bytes()); c.extend(4u32.to_le_bytes()); c.extend(0u32.to_le_bytes()); c.extend(9u32.to_le_bytes());
    for p in [(0., 0.), (0., 1.), (1., 1.), (0., 0f64)] { c.extend((p.0 as f64).to_le_bytes()); c.extend(p.1.to_le_bytes()); }
    let mut r: Vec<u8> = vec![]; r.extend(1u32.to_be_bytes()); r.extend((c.len() as u32 / 2).to_be_bytes()); r.extend(c);
    let mut h = vec![]; h.extend(9994u32.to_be_bytes()); h.extend([0u8; 20]); h.extend(((100 + r.len()) as u32 / 2).to_be_bytes()); h.extend(1000u32.to_le_bytes()); h.extend(5u32.to_le_bytes()); h.extend([0u8; 64]); h.extend(r);
    assert!(ShpReader::new(&h[..]).unwrap().next().unwrap().is_err());
}
'''
