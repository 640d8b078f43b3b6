prop="C12"; needs="a record that is 16 bytes longer than its part and point counts say"
breaks="a record with inconsistent sizes is accepted"
file="src/read/shapefile/shp.rs"
edits=[("if needed_len != buf.len() {","if needed_len > buf.len() || buf.len() % 4 != 0 {")]
demo='''use topogeo::read::shapefile::shp::ShpReader;
fn rec(extra: usize) -> Vec<u8> {
    let mut c: Vec<u8> = vec![]; c.extend(5u32.to_le_bytes()); c.extend([0u8; 32]); c.extend(1u32.to_le_bytes()); c.extend(4u32.to_le_bytes()); c.extend(0u32.to_le_bytes());
    for p in [(0., 0.), (0., 1.), (1., 1.), (0., 0f64)] { c.extend((p.0 as f64).to_le_bytes()); c.extend(p.1.to_le_bytes()); }
    c.extend(vec![0u8; extra]);
    let mut v: Vec<u8> = vec![]; v.extend(1u32.to_be_bytes()); v.extend((c.len() as u32 / 2).to_be_bytes()); v.extend(c); v
}
fn file(extra: usize) -> Vec<u8> {
    let r = rec(extra);
    let mut h = vec![]; h.extend(9994u32.to_be_bytes()); h.extend([0u8; 20]); h.extend(((100 + r.len()) as u32 / 2).to_be_bytes()); h.extend(1000u32.to_le_bytes()); h.extend(5u32.to_le_bytes()); h.extend([0u8; 64]); h.extend(r); h
}
fn main() {
    let a = file(0); assert!(ShpReader::new(&a[..]).unwrap().next().unwrap().is_ok());
    let b = file(16); assert!(ShpReader::new(&b[..]).unwrap().next().unwrap().is_err());
}
'''
