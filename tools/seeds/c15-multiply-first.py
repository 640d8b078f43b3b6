prop="C15"; needs="a bounding box whose extent times u32::MAX rounds so that dividing again does not give u32::MAX, or overflows"
breaks="the right and bottom sides do not map to u32::MAX, or a wide box maps everything to one side"
file="src/read/shapefile/geo.rs"
edits=[("((shp_point.0 - self.x) / self.w * u32::max_value() as f64) as u32,","((shp_point.0 - self.x) * u32::max_value() as f64 / self.w) as u32,")]
demo='''use topogeo::read::shapefile::*;
fn main() {
    let b = [-1e300f64, 0., 1e300, 1.];
    let mut c: Vec<u8> = vec![]; c.extend(5u32.to_le_bytes()); c.extend([0u8; 32]); c.extend(1u32.to_le_bytes()); c.extend(4u32.to_le_bytes()); c.extend(0u32.to_le_bytes());
    for p in [(-1e300, 0.), (0., 1.), (1e300, 1.), (-1e300, 0f64)] { c.extend((p.0 as f64).to_le_bytes()); c.extend(p.1.to_le_bytes()); }
    let mut r: Vec<u8> = vec![]; r.extend(1u32.to_be_bytes()); r.extend((c.len() as u32 / 2).to_be_bytes()); r.extend(c);
    let mut h = vec![]; h.extend(9994u32.to_be_bytes()); h.extend([0u8; 20]); h.extend(((100 + r.len()) as u32 / 2).to_be_bytes()); h.extend(1000u32.to_le_bytes()); h.extend(5u32.to_le_bytes()); for x in b { h.extend(x.to_le_bytes()); } h.extend([0u8; 32]); h.extend(r);
    let mut v = vec![3u8, 1, 1, 1]; v.extend(1u32.to_le_bytes()); v.extend((65u16).to_le_bytes()); v.extend(2u16.to_le_bytes()); v.extend([0u8; 20]);
    let mut f = [0u8; 32]; f[0] = b'a'; f[11] = b'C'; f[16] = 1; v.extend(f);
    v.push(13); v.extend(b" 1");
    let mut s = ShapefileReader::new(&h[..], &v[..], encoding::all::ASCII).unwrap();
    let g = ShapefileGeoIterator::new(&mut s).next().unwrap().unwrap();
    let p = g.outer_rings.iter().chain(g.inner_rings.iter()).next().unwrap().points();
    assert_eq!((p[0].0, p[2].0), (0, u32::MAX));
    assert!(p[1].0 > 1 << 30 && p[1].0 < 3 << 30, "{:?}", p);
}
'''
