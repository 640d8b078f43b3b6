prop="C13"; needs="fields whose declared lengths add up to more than 255"
breaks="fields beyond byte 255 of the record are read from the wrong place"
file="src/read/shapefile/dbf.rs"
edits=[("offset += next.len;","offset = (offset as u8).wrapping_add(next.len as u8) as usize;")]
demo='''use topogeo::read::shapefile::dbf::DbfReader;
fn main() {
    let lens = [200u8, 100, 4];
    let rec = 1 + lens.iter().map(|&x| x as usize).sum::<usize>();
    let mut v = vec![3u8, 1, 1, 1]; v.extend(1u32.to_le_bytes()); v.extend(((32 + 96 + 1) as u16).to_le_bytes()); v.extend((rec as u16).to_le_bytes()); v.extend([0u8; 20]);
    for (i, l) in lens.iter().enumerate() { let mut f = [0u8; 32]; f[0] = b'a' + i as u8; f[11] = b'C'; f[16] = *l; v.extend(f); }
    v.push(13); v.push(b' '); v.extend(vec![b'x'; 300]); v.extend(b"last");
    let mut r = DbfReader::new(&v[..], encoding::all::ASCII).unwrap();
    let f = r.get_field("c").unwrap(); let d = r.next().unwrap().unwrap();
    assert_eq!(f.read_string(&d).unwrap(), "last");
}
'''
