prop="C13"; needs="a character field that ends in NUL bytes"
breaks="trailing NUL bytes are dropped together with the spaces, so the value is not the field's bytes"
file="src/read/shapefile/dbf.rs"
edits=[("position(|&b| b != 0x20u8)","position(|&b| b != 0x20u8 && b != 0u8)")]
demo='''use topogeo::read::shapefile::dbf::DbfReader;
fn main() {
    let mut v = vec![3u8, 1, 1, 1]; v.extend(1u32.to_le_bytes()); v.extend((65u16).to_le_bytes()); v.extend(5u16.to_le_bytes()); v.extend([0u8; 20]);
    let mut f = [0u8; 32]; f[0] = b'a'; f[11] = b'C'; f[16] = 4; v.extend(f);
    v.push(13); v.extend(b" ab\\0 ");
    let mut r = DbfReader::new(&v[..], encoding::all::ASCII).unwrap();
    let f = r.get_field("a").unwrap(); let d = r.next().unwrap().unwrap();
    assert_eq!(f.read_string(&d).unwrap(), "ab\\0");
}
'''
