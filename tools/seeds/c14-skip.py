prop="C14"; needs="a geometry record that fails to decode, followed by good ones"
breaks="the attribute record of the failed geometry is not consumed: later geometries get the wrong attributes"
file="src/read/shapefile/shapefile.rs"
edits=[("match (self.shp_reader.next(), self.dbf_reader.next()) {","let shape = match self.shp_reader.next() {\n            Some(Err(shp::ShpError::ParseError(err))) => return Some(Err(ShapefileError::ShpError(shp::ShpError::ParseError(err)))),\n            other => other,\n        };\n        match (shape, self.dbf_reader.next()) {")]
demo='''use topogeo::read::shapefile::ShapefileReader;
fn rec(bad: bool) -> Vec<u8> {
    let mut c: Vec<u8> = vec![]; c.extend((if bad { 3u32 } else { 5 }).to_le_bytes()); c.extend([0u8; 32]); c.extend(1u32.to_le_bytes()); c.extend(4u32.to_le_bytes()); c.extend(0u32.to_le_bytes());
    for p in [(0., 0.), (0., 1.), (1., 1.), (0., 0f64)] { c.extend((p.0 as f64).to_le_bytes()); c.extend(p.1.to_le_bytes()); }
    let mut v: Vec<u8> = vec![]; v.extend(1u32.to_be_bytes()); v.extend((c.len() as u32 / 2).to_be_bytes()); v.extend(c); v
}
fn main() {
    let mut r = rec(true); r.extend(rec(false));
    let mut h = vec![]; h.extend(9994u32.to_be_bytes()); h.extend([0u8; 20]); h.extend(((100 + r.len()) as u32 / 2).to_be_bytes()); h.extend(1000u32.to_le_bytes()); h.extend(5u32.to_le_bytes()); h.extend([0u8; 64]); h.extend(r);
    let mut v = vec![3u8, 1, 1, 1]; v.extend(2u32.to_le_bytes()); v.extend((65u16).to_le_bytes()); v.extend(2u16.to_le_bytes()); v.extend([0u8; 20]);
    let mut f = [0u8; 32]; f[0] = b'a'; f[11] = b'C'; f[16] = 1; v.extend(f);
    v.push(13); v.extend(b" 1 2");
    let mut s = ShapefileReader::new(&h[..], &v[..], encoding::all::ASCII).unwrap();
    let f = s.get_field("a").unwrap();
    assert!(s.next().unwrap().is_err());
    assert_eq!(f.read_string(&s.next().unwrap().unwrap().data).unwrap(), "2");
    assert!(s.next().is_none());
}
'''
