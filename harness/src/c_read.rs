use crate::rng::Rng;
use crate::shapes::{shoelace, P, M};
use crate::{note, Gen, Outcome};
use encoding::{DecoderTrap, EncodingRef};
use std::io::{self, Read};
use topogeo::geo::Ring;
use topogeo::read::shapefile::dbf::{DbfReader, DbfRecord};
use topogeo::read::shapefile::shp::ShpReader;
use topogeo::read::shapefile::{ShapefileError, ShapefileGeoIterator, ShapefileReader};

fn size_of(case: u64) -> usize { (case & 0xff) as usize / 40 + 1 }

/// A stream that hands out its bytes in pieces, is interrupted now and then, and may fail at some offset.
pub struct Piecemeal { b: Vec<u8>, pos: usize, max: usize, r: Rng, fail_at: Option<usize> }
impl Piecemeal {
    fn new(b: &[u8], seed: u64) -> Piecemeal {
        let mut r = Rng::new(seed);
        let max = r.pick(&[1, 3, 7, 64, 1 << 20, 1 << 20]);
        Piecemeal { b: b.to_vec(), pos: 0, max, r, fail_at: None }
    }
}
impl Read for Piecemeal {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        if self.max < 1 << 20 && self.r.chance(1, 9) { return Err(io::Error::new(io::ErrorKind::Interrupted, "again")); }
        if let Some(f) = self.fail_at { if self.pos >= f { return Err(io::Error::new(io::ErrorKind::Other, "disk on fire")); } }
        let mut n = out.len().min(self.b.len() - self.pos).min(self.max);
        if let Some(f) = self.fail_at { n = n.min(f - self.pos); }
        out[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn be(v: u32) -> [u8; 4] { v.to_be_bytes() }
fn le(v: u32) -> [u8; 4] { v.to_le_bytes() }
fn rd_le(b: &[u8]) -> u32 { u32::from_le_bytes([b[0], b[1], b[2], b[3]]) }
fn rd_be(b: &[u8]) -> u32 { u32::from_be_bytes([b[0], b[1], b[2], b[3]]) }
fn bits(b: &[u8]) -> u64 { let mut x = [0; 8]; x.copy_from_slice(&b[..8]); u64::from_le_bytes(x) }

// ---- a .shp writer -----------------------------------------------------------------
type Rec = Vec<Vec<(f64, f64)>>;
fn shp_record(num: u32, rings: &Rec) -> Vec<u8> {
    let n: usize = rings.iter().map(|r| r.len()).sum();
    let mut c: Vec<u8> = vec![];
    c.extend(&le(5));
    c.extend(&[0u8; 32]);
    c.extend(&le(rings.len() as u32));
    c.extend(&le(n as u32));
    let mut o = 0;
    for r in rings { c.extend(&le(o as u32)); o += r.len(); }
    for r in rings { for p in r { c.extend(&p.0.to_bits().to_le_bytes()); c.extend(&p.1.to_bits().to_le_bytes()); } }
    let mut b = vec![];
    b.extend(&be(num));
    b.extend(&be(c.len() as u32 / 2));
    b.extend(c);
    b
}
fn shp_header(len: u32, bbox: [f64; 4]) -> Vec<u8> {
    let mut h = vec![0u8; 100];
    h[0..4].copy_from_slice(&be(9994));
    h[24..28].copy_from_slice(&be(len / 2));
    h[28..32].copy_from_slice(&le(1000));
    h[32..36].copy_from_slice(&le(5));
    for i in 0..4 { h[36 + 8 * i..44 + 8 * i].copy_from_slice(&bbox[i].to_bits().to_le_bytes()); }
    h
}
fn float(r: &mut Rng) -> f64 {
    match r.below(6) { 0 => r.below(100) as f64, 1 => -(r.below(1000) as f64) / 8., 2 => f64::from_bits(r.next()), 3 => r.pick(&[0., -0., f64::NAN, f64::INFINITY, f64::MIN, f64::MAX, f64::MIN_POSITIVE]), _ => (r.next() as f64) / 1e12 - 9e6 }
}
fn rec(r: &mut Rng, size: usize) -> Rec {
    (0..1 + r.us(1 + size.min(4))).map(|_| (0..4 + r.us(1 + size)).map(|_| (float(r), float(r))).collect()).collect()
}
fn shp_bytes(r: &mut Rng, recs: &[Rec]) -> (Vec<u8>, Vec<usize>) {
    let mut body = vec![];
    let mut at = vec![];
    for (i, x) in recs.iter().enumerate() { at.push(100 + body.len()); body.extend(shp_record(i as u32 + 1, x)); }
    let mut b = shp_header(100 + body.len() as u32, [float(r), float(r), float(r), float(r)]);
    b.extend(body);
    (b, at)
}
/// A .shp stream: usually right, often with one thing wrong.
fn shp_stream(r: &mut Rng, size: usize) -> Vec<u8> {
    if r.chance(1, 30) { return (0..r.us(300)).map(|_| r.next() as u8).collect(); }
    let n = r.us(2 + size);
    let recs: Vec<Rec> = (0..n).map(|_| rec(r, size)).collect();
    let (mut b, at) = shp_bytes(r, &recs);
    let damage = r.below(22);
    let k = if at.is_empty() { 0 } else { at[r.us(at.len())] };
    let set = |b: &mut Vec<u8>, i: usize, v: [u8; 4]| if i + 4 <= b.len() { b[i..i + 4].copy_from_slice(&v) };
    let some = |r: &mut Rng| -> u32 { match r.below(4) { 0 => r.below(12) as u32, 1 => r.below(400) as u32, 2 => M - r.below(5) as u32, _ => r.next() as u32 >> r.below(32) } };
    match damage {
        0 => { let n = r.us(b.len() + 1); b.truncate(n); }
        1 => { let v = some(r); set(&mut b, 0, be(v)); }
        2 => { let v = some(r); set(&mut b, 28, le(v)); }
        3 => { let v = r.below(33) as u32; set(&mut b, 32, le(v)); }
        4 => { let l = b.len() as i64; let v = (l + 2 * r.range(-60, 60)).max(0) as u32; set(&mut b, 24, be(v / 2)); }
        5 => { let v = some(r); set(&mut b, 24, be(v)); }
        6 if k > 0 => { let old = rd_be(&b[k + 4..]); let v = (old as i64 + r.range(-30, 30)).max(0) as u32; set(&mut b, k + 4, be(v)); }
        7 if k > 0 => { let v = r.below(1 << 16) as u32; set(&mut b, k + 4, be(v)); }
        8 if k > 0 => { let v = r.below(33) as u32; set(&mut b, k + 8, le(v)); }
        9 if k > 0 => { let v = some(r); set(&mut b, k + 8 + 36, le(v)); }
        10 if k > 0 => { let v = some(r); set(&mut b, k + 8 + 40, le(v)); }
        11 | 12 | 13 if k > 0 => { // a part offset
            let np = rd_le(&b[k + 44..]) as usize; let i = r.us(np.max(1));
            let old = rd_le(&b[k + 52 + 4 * i..]);
            let v = if r.chance(1, 3) { some(r) } else { (old as i64 + r.range(-5, 5)).max(0) as u32 };
            set(&mut b, k + 52 + 4 * i, le(v));
        }
        14 if k > 0 => { // fewer points than parts need, consistently
            let short: Rec = (0..1 + r.us(3)).map(|_| (0..r.us(6)).map(|_| (1., 2.)).collect()).collect();
            let e = shp_record(9, &short);
            b.splice(k..k, e);
            let l = b.len() as u32; if r.chance(1, 2) { set(&mut b, 24, be(l / 2)); }
        }
        15 => { let n = r.us(80); for _ in 0..n { b.push(r.next() as u8); } }
        16 => { // a whole record past the stated end
            let e = rec(r, size); b.extend(shp_record(77, &e));
        }
        17 => { for _ in 0..1 + r.us(4) { if !b.is_empty() { let i = r.us(b.len()); b[i] = r.next() as u8; } } }
        18 if k > 0 => { // an empty or tiny record
            let mut e = vec![]; e.extend(&be(3)); let n = r.below(24); e.extend(&be(n as u32)); for _ in 0..2 * n { e.push(r.pick(&[0, 5, 1, 255])); }
            b.splice(k..k, e);
            let l = b.len() as u32; set(&mut b, 24, be(l / 2));
        }
        _ => {}
    }
    // keep record lengths small enough to allocate
    b
}
fn sane(b: &[u8]) -> bool {
    // no record asks for more than 64 MB
    let mut i = 100;
    while i + 8 <= b.len() { let n = rd_be(&b[i + 4..]) as usize * 2; if n > 64 << 20 { return false; } i += 8 + n; }
    true
}
#[derive(Debug, PartialEq, Clone)]
enum Item { Rec(u32, Vec<Vec<(u64, u64)>>), Bad }
/// What the bytes say.
fn shp_expect(b: &[u8]) -> Option<Vec<Item>> {
    if b.len() < 100 || rd_be(b) != 9994 || rd_le(&b[28..]) != 1000 || rd_le(&b[32..]) != 5 { return None; }
    let total = rd_be(&b[24..]) as u64 * 2;
    let mut seen = 100u64;
    let mut i = 100;
    let mut out = vec![];
    while seen < total {
        if i + 8 > b.len() { out.push(Item::Bad); break; }
        let n = rd_be(&b[i + 4..]) as usize * 2;
        if i + 8 + n > b.len() { out.push(Item::Bad); break; }
        let c = &b[i + 8..i + 8 + n];
        seen += 8 + n as u64;
        let one = (|| {
            if seen > total || c.len() < 44 || rd_le(c) != 5 { return Item::Bad; }
            let (np, nq) = (rd_le(&c[36..]) as u64, rd_le(&c[40..]) as u64);
            if np == 0 || 44 + 4 * np + 16 * nq != n as u64 { return Item::Bad; }
            let (np, nq) = (np as usize, nq as usize);
            let mut starts: Vec<u64> = (0..np).map(|k| rd_le(&c[44 + 4 * k..]) as u64).collect();
            starts.push(nq as u64);
            if starts.windows(2).any(|w| w[0] + 4 > w[1]) { return Item::Bad; }
            let pts: Vec<(u64, u64)> = c[44 + 4 * np..].chunks(16).map(|p| (bits(p), bits(&p[8..]))).collect();
            Item::Rec(rd_be(&b[i..]), starts.windows(2).map(|w| pts[w[0] as usize..w[1] as usize].to_vec()).collect())
        })();
        out.push(one);
        i += 8 + n;
    }
    Some(out)
}
fn shp_items<R: Read>(rd: ShpReader<R>, limit: usize) -> Vec<Item> {
    rd.take(limit).map(|x| match x {
        Ok(p) => Item::Rec(p.record_number, p.rings.iter().map(|r| r.0.iter().map(|q| (q.0.to_bits(), q.1.to_bits())).collect()).collect()),
        Err(_) => Item::Bad,
    }).collect()
}
fn check_shp(b: &[u8], seed: u64) -> Outcome {
    note(|| format!("shp {}", hex(b)));
    if !sane(b) { return Ok(false); }
    let want = shp_expect(b);
    match (ShpReader::new(Piecemeal::new(b, seed)), &want) {
        (Err(_), None) => Ok(true),
        (Ok(_), None) => Err(format!("accepted, though magic number, version, type or length are wrong: {}", hex(&b[..b.len().min(100)]))),
        (Err(e), Some(_)) => Err(format!("a right header was refused: {}", e)),
        (Ok(rd), Some(w)) => {
            if rd.header.file_n_bytes as u64 != rd_be(&b[24..]) as u64 * 2 { return Err("stated length misread".into()); }
            let bb = rd.header.bounding_box;
            let got = [bb.0, bb.1, bb.2, bb.3];
            for i in 0..4 { if got[i].to_bits() != bits(&b[36 + 8 * i..]) { return Err(format!("bounding box side {} is {}", i, got[i])); } }
            let g = shp_items(rd, w.len() + 3);
            if g != *w {
                let k = g.iter().zip(w).take_while(|(a, b)| a == b).count();
                return Err(format!("item {} is {:?}, should be {:?} ({} items, should be {})", k, g.get(k), w.get(k), g.len(), w.len()));
            }
            Ok(!w.is_empty())
        }
    }
}
pub fn c12() -> Vec<Gen> {
    vec![
        Gen { name: "files", count: Some(300), weight: 0, f: |c| shp_file(c << 8 | c & 63) },
        Gen { name: "streams", count: None, weight: 6, f: |c| { let mut r = Rng::new(c); let b = shp_stream(&mut r, size_of(c)); check_shp(&b, r.next()) } },
        // many records, many rings, many points
        Gen { name: "large", count: Some(9), weight: 0, f: |c| {
            let mut r = Rng::new(c);
            let n = [300, 5000, 70_000][(c / 3) as usize];
            let recs: Vec<Rec> = match c % 3 {
                0 => (0..n).map(|_| vec![(0..4).map(|_| (float(&mut r), float(&mut r))).collect()]).collect(),
                1 => vec![(0..n).map(|_| (0..4).map(|_| (float(&mut r), float(&mut r))).collect()).collect()],
                _ => vec![vec![(0..n).map(|_| (float(&mut r), float(&mut r))).collect()]; 2],
            };
            let (b, _) = shp_bytes(&mut r, &recs);
            check_shp(&b, r.next())
        } },
        // every triple of part offsets in a record of 12 points
        Gen { name: "parts", count: Some(14 * 14 * 14), weight: 0, f: |c| {
            let o = [(c % 14) as u32, (c / 14 % 14) as u32, (c / 196) as u32];
            let mut e = shp_record(1, &vec![vec![(0., 0.); 4]; 3]);
            for i in 0..3 { e[52 + 4 * i..56 + 4 * i].copy_from_slice(&le(o[i])); }
            for i in 0..12 { let k = 64 + 16 * i; e[k..k + 8].copy_from_slice(&(i as f64 + 0.5).to_bits().to_le_bytes()); }
            let mut b = shp_header(100 + e.len() as u32, [0., 0., 1., 1.]);
            b.extend(e);
            check_shp(&b, c)
        } },
        // every byte of the header
        Gen { name: "header", count: Some(100 * 4), weight: 0, f: |c| {
            let e = shp_record(1, &vec![vec![(1., 2.), (3., 4.), (5., 6.), (1., 2.)]]);
            let mut b = shp_header(100 + e.len() as u32, [0., 0., 1., 1.]);
            b.extend(e);
            let i = (c / 4) as usize;
            b[i] = match c % 4 { 0 => b[i].wrapping_add(1), 1 => b[i] ^ 0x80, 2 => 0, _ => 255 };
            check_shp(&b, c)
        } },
        // every stated length and every truncation
        Gen { name: "lengths", count: Some(500 * 2), weight: 0, f: |c| {
            let recs: Vec<Rec> = vec![vec![vec![(1., 2.); 4]], vec![vec![(3., 4.); 5]]];
            let mut b: Vec<u8> = vec![];
            for (i, x) in recs.iter().enumerate() { b.extend(shp_record(i as u32 + 1, x)); }
            let mut h = shp_header(100 + b.len() as u32, [0., 0., 1., 1.]);
            let n = (c / 2) as usize;
            if c % 2 == 0 { h[24..28].copy_from_slice(&be(n as u32)); h.extend(b); check_shp(&h, c) } else { h.extend(b); h.truncate(n); check_shp(&h, c) }
        } },
    ]
}

// ---- .dbf ------------------------------------------------------------------------------
#[derive(Debug, Clone)]
struct Fd { name: Vec<u8>, ty: u8, len: u8 }
struct Dbf { n: u32, hdr: u16, rec: u16, fields: Vec<Fd>, tail: Vec<u8>, recs: Vec<Vec<u8>>, date: (u8, u8) }
impl Dbf {
    fn bytes(&self) -> Vec<u8> {
        let mut b = vec![0u8; 32];
        b[0] = 3; b[1] = 117; b[2] = self.date.0; b[3] = self.date.1;
        b[4..8].copy_from_slice(&le(self.n));
        b[8..10].copy_from_slice(&self.hdr.to_le_bytes());
        b[10..12].copy_from_slice(&self.rec.to_le_bytes());
        for f in &self.fields {
            let mut d = vec![0u8; 32];
            d[..f.name.len()].copy_from_slice(&f.name);
            d[11] = f.ty; d[16] = f.len;
            for i in 17..32 { d[i] = 0x61; }
            b.extend(d);
        }
        b.extend(&self.tail);
        for r in &self.recs { b.extend(r); }
        b
    }
}
fn dbf(r: &mut Rng, size: usize, n: usize) -> Dbf {
    let nf = r.us(2 + size.min(5));
    let fields: Vec<Fd> = (0..nf).map(|i| {
        let l = 1 + r.us(11);
        let name: Vec<u8> = (0..l).map(|k| if k == 0 { b'a' + i as u8 } else { r.pick(b"abcXYZ_09") }).collect();
        let ty = r.pick(b"CCCNNN+|LDF@OGM\0");
        let len = if ty == b'+' || ty == b'|' { r.pick(&[4, 4, 4, 8, 3, 0]) } else { r.pick(&[0, 1, 2, 5, 11, 30, 254]) };
        Fd { name, ty, len }
    }).collect();
    let recs = (0..n).map(|_| {
        let mut b = vec![0x20u8];
        for f in &fields {
            let mut v: Vec<u8> = match (f.ty, r.below(4)) {
                (b'C', 0) => (0..f.len).map(|_| r.next() as u8).collect(),
                (b'C', _) => { let k = r.us(f.len as usize + 1); let mut s: Vec<u8> = (0..k).map(|_| r.pick(b"abc xyz  \t")).collect(); s.resize(f.len as usize, 0x20); s }
                (b'N', 0) => (0..f.len).map(|_| r.pick(b"0123456789.- +e")).collect(),
                (b'N', _) => {
                    let s = match r.below(9) { 0 => format!("{}", r.below(100)), 1 => format!("-{}.{}", r.below(100), r.below(1000)), 2 => format!("{}.", r.below(9)), 3 => ".5".into(), 4 => "".into(), 5 => format!("{} ", r.below(9)), 6 => "1\n".into(), 7 => format!("{}.{}", r.next() % 100000, r.below(100)), _ => format!("{}", r.below(1 << 40)) };
                    let mut v = vec![0x20; (f.len as usize).saturating_sub(s.len())]; v.extend(s.bytes()); v.truncate(f.len as usize); v
                }
                _ => (0..f.len).map(|_| r.next() as u8).collect(),
            };
            v.resize(f.len as usize, 0x20);
            b.extend(v);
        }
        b
    }).collect::<Vec<_>>();
    let rec = 1 + fields.iter().map(|f| f.len as usize).sum::<usize>();
    let tail = match r.below(4) { 0 => vec![], 1 => vec![0x0d; 31], _ => vec![0x0d] };
    Dbf { n: n as u32, hdr: (32 + 32 * fields.len() + tail.len()) as u16, rec: rec as u16, fields, tail, recs, date: (1 + r.below(12) as u8, 1 + r.below(31) as u8) }
}
fn dbf_stream(r: &mut Rng, size: usize, n: usize) -> Vec<u8> {
    if r.chance(1, 40) { return (0..r.us(200)).map(|_| r.next() as u8).collect(); }
    let mut d = dbf(r, size, n);
    let damage = r.below(16);
    match damage {
        0 => d.n = d.n.saturating_add(1 + r.below(3) as u32),
        1 => d.n = d.n.saturating_sub(1),
        2 => d.hdr = r.next() as u16 >> r.below(16),
        3 => d.rec = r.next() as u16 >> r.below(16),
        4 => d.rec = (d.rec as i32 + r.range(-3, 3) as i32).max(0) as u16,
        5 => d.hdr = (d.hdr as i32 + r.range(-40, 40) as i32).max(0) as u16,
        6 => d.date = (r.below(16) as u8, r.below(40) as u8),
        7 => if !d.fields.is_empty() { let k = r.us(d.fields.len()); d.fields[k].len = d.fields[k].len.wrapping_add(1 + r.below(250) as u8) },
        8 => if !d.fields.is_empty() { let k = r.us(d.fields.len()); d.fields[k].name = (0..11).map(|_| r.next() as u8).collect() },
        9 => if !d.fields.is_empty() { let k = r.us(d.fields.len()); d.fields[k].ty = r.next() as u8 },
        _ => {}
    }
    let mut b = d.bytes();
    match damage {
        10 => { let n = r.us(b.len() + 1); b.truncate(n); }
        11 => { for _ in 0..1 + r.us(3) { let i = r.us(b.len()); b[i] = r.next() as u8; } }
        12 => { b.push(0x1a); }
        _ => {}
    }
    b
}
fn enc(k: u64) -> EncodingRef { match k % 4 { 0 => encoding::all::ASCII, 1 => encoding::all::UTF_8, 2 => encoding::all::WINDOWS_1252, _ => encoding::all::ISO_8859_2 } }
fn decimal(b: &[u8]) -> Option<String> {
    let s: &[u8] = { let mut i = 0; while i < b.len() && b[i] == 0x20 { i += 1; } &b[i..] };
    let t = if s.first() == Some(&b'-') { &s[1..] } else { s };
    let digits = |x: &[u8]| !x.is_empty() && x.iter().all(|c| c.is_ascii_digit());
    let ok = match t.iter().position(|&c| c == b'.') { None => digits(t), Some(i) => digits(&t[..i]) && digits(&t[i + 1..]) };
    if ok { Some(String::from_utf8(s.to_vec()).unwrap()) } else { None }
}
/// Limits how many records are looked at: a header may declare four thousand million of them.
const MANY: usize = 50;
fn many(b: &[u8]) -> usize { if b.len() > 2000 { b.len() } else { MANY } }
fn check_dbf(b: &[u8], seed: u64) -> Outcome {
    let e = enc(seed);
    note(|| format!("dbf {} read as {}", hex(b), e.name()));
    // what the bytes say
    let mut fields: Vec<(String, u8, usize, usize)> = vec![];
    let mut bad = b.len() < 32 || b[2] > 12 || b[3] > 31;
    let (mut n, mut hdr, mut len) = (0, 0, 0);
    if !bad {
        n = rd_le(&b[4..]) as usize;
        hdr = u16::from_le_bytes([b[8], b[9]]) as usize;
        len = u16::from_le_bytes([b[10], b[11]]) as usize;
        bad = hdr < 32 || b.len() < hdr;
    }
    if !bad {
        let mut off = 1;
        for c in b[32..hdr].chunks(32) {
            if c.len() < 32 { break; }
            let l = c[..11].iter().position(|&x| x == 0).unwrap_or(11);
            match e.decode(&c[..l], DecoderTrap::Strict) { Err(_) => { bad = true; break; } Ok(s) => { fields.push((s, c[11], off, c[16] as usize)); off += c[16] as usize; } }
        }
    }
    let rd = match DbfReader::new(Piecemeal::new(b, seed), e) {
        Err(x) => return if bad { Ok(true) } else { Err(format!("a right header was refused: {}", x)) },
        Ok(rd) => rd,
    };
    if bad { return Err("a damaged header was accepted".into()); }
    if rd.meta.n_records != n || rd.meta.n_bytes_per_record != len { return Err(format!("header misread: {} records of {} bytes, should be {} of {}", rd.meta.n_records, rd.meta.n_bytes_per_record, n, len)); }
    let names: Vec<String> = rd.meta.fields.iter().map(|f| f.name.clone()).collect();
    if names != fields.iter().map(|f| f.0.clone()).collect::<Vec<_>>() { return Err(format!("fields are {:?}, should be {:?}", names, fields)); }
    let fs = rd.meta.fields.to_vec();
    let by_name: Vec<_> = names.iter().map(|s| rd.get_field(s)).collect();
    for s in &names {
        let mut like = vec![s.clone(), s.to_lowercase(), s.to_uppercase(), format!("{} ", s), format!("{}a", s), s.trim().to_string()];
        if let Some((i, _)) = s.char_indices().last() { like.push(s[..i].to_string()); }
        for v in like {
            let got = rd.get_field(&v).map(|f| f.name);
            let want = if names.contains(&v) { Some(v.clone()) } else { None };
            if got != want { return Err(format!("get_field({:?}) gives {:?} among {:?}", v, got, names)); }
        }
    }
    if rd.get_field("no such field").is_some() { return Err("found a field that is not there".into()); }
    let items: Vec<_> = rd.take(many(b)).collect();
    if items.len() != n.min(many(b)) { return Err(format!("{} records, should be {}", items.len(), n)); }
    let mut pos = hdr;
    let mut gone = false;
    for (i, it) in items.iter().enumerate() {
        // once a read failed there is nothing left
        if !gone && pos + len > b.len() { gone = true; }
        if gone && len > 0 { if it.is_ok() { return Err(format!("record {} does not exist, but is no error", i)); } continue; }
        let x = match it { Err(x) => return Err(format!("record {} is there, but gives {}", i, x)), Ok(x) => x };
        let want = &b[pos..pos + len];
        if &x.bytes[..] != want { return Err(format!("record {} is {:?}, should be {:?}", i, x.bytes, want)); }
        for (k, f) in fields.iter().enumerate() {
            let got = fs[k].read_string(x).ok();
            let want: Option<String> = if f.2 + f.3 > len { None } else {
                let w = &want[f.2..f.2 + f.3];
                match f.1 {
                    b'C' => { let t = w.iter().rposition(|&c| c != 0x20).map_or(0, |i| i + 1); e.decode(&w[..t], DecoderTrap::Strict).ok() }
                    b'N' => decimal(w),
                    b'+' | b'|' => if w.len() >= 4 { Some(rd_le(w).to_string()) } else { None },
                    _ => None,
                }
            };
            if got != want { return Err(format!("record {} field {} ({} type {} at {}+{}) reads {:?}, should be {:?}", i, k, f.0, f.1 as char, f.2, f.3, got, want)); }
            let first = fields.iter().position(|g| g.0 == f.0).unwrap();
            let named = by_name[k].as_ref().map(|g| g.read_string(x).ok());
            if named != Some(fs[first].read_string(x).ok()) { return Err(format!("get_field({:?}) reads {:?}", f.0, named)); }
        }
        pos += len;
    }
    Ok(n > 0)
}
pub fn c13() -> Vec<Gen> {
    vec![
        Gen { name: "files", count: Some(300), weight: 0, f: |c| dbf_file(c << 8 | c & 63) },
        Gen { name: "streams", count: None, weight: 6, f: |c| { let mut r = Rng::new(c); let n = r.us(4); let b = dbf_stream(&mut r, size_of(c), n); check_dbf(&b, r.next()) } },
        // every string of up to 5 characters of a numeric field, over the characters that matter
        Gen { name: "numbers", count: Some(8 + 64 + 512 + 4096 + 32768), weight: 0, f: |c| {
            let mut c = c; let (mut l, mut k) = (1usize, 8u64);
            while c >= k { c -= k; k *= 8; l += 1; }
            let mut rec = vec![0x20u8];
            for _ in 0..l { rec.push(b" -0.7+e\n"[(c % 8) as usize]); c /= 8; }
            let d = Dbf { n: 1, hdr: 65, rec: l as u16 + 1, fields: vec![Fd { name: b"n".to_vec(), ty: b'N', len: l as u8 }], tail: vec![0x0d], recs: vec![rec], date: (1, 1) };
            check_dbf(&d.bytes(), c)
        } },
        Gen { name: "texts", count: Some(4 * (5 + 25 + 125 + 625)), weight: 0, f: |c| {
            let e = c % 4; let mut c = c / 4; let (mut l, mut k) = (1usize, 5u64);
            while c >= k { c -= k; k *= 5; l += 1; }
            let mut rec = vec![0x20u8];
            for _ in 0..l { rec.push([0x20, b'a', 0xc3, 0xa9, 0x00][(c % 5) as usize]); c /= 5; }
            rec.extend(b"zz");
            let d = Dbf { n: 1, hdr: 97, rec: l as u16 + 3, fields: vec![Fd { name: b"t".to_vec(), ty: b'C', len: l as u8 }, Fd { name: b"u".to_vec(), ty: b'C', len: 2 }], tail: vec![0x0d], recs: vec![rec], date: (12, 31) };
            check_dbf(&d.bytes(), e)
        } },
        Gen { name: "dates", count: Some(256 * 2), weight: 0, f: |c| {
            let d = Dbf { n: 0, hdr: 33, rec: 1, fields: vec![], tail: vec![0x0d], recs: vec![], date: if c % 2 == 0 { ((c / 2) as u8, 1) } else { (1, (c / 2) as u8) } };
            check_dbf(&d.bytes(), c)
        } },
        Gen { name: "many-records", count: Some(3), weight: 0, f: |c| {
            let n = [300usize, 5000, 70_000][c as usize];
            let recs = (0..n).map(|i| { let mut v = vec![0x20]; v.extend(format!("{:5}", i).bytes()); v.truncate(6); v.extend(b"ab  "); v }).collect();
            let d = Dbf { n: n as u32, hdr: 97, rec: 10, fields: vec![Fd { name: b"n".to_vec(), ty: b'N', len: 5 }, Fd { name: b"t".to_vec(), ty: b'C', len: 4 }], tail: vec![0x0d], recs, date: (1, 1) };
            check_dbf(&d.bytes(), c)
        } },
        Gen { name: "many-fields", count: None, weight: 1, f: |c| {
            let mut r = Rng::new(c);
            let mut d = dbf(&mut r, 5, 1);
            // long records: offsets beyond 255 and 65535
            while d.fields.len() < 3 + r.us(300) { d.fields.push(Fd { name: vec![b'k'], ty: b'C', len: 250 }); }
            let len = 1 + d.fields.iter().map(|f| f.len as usize).sum::<usize>();
            if len > 65535 { return Ok(false); }
            d.rec = len as u16; d.hdr = (32 + 32 * d.fields.len() + d.tail.len()) as u16;
            d.recs = (0..2).map(|_| (0..len).map(|i| if i % 7 == 0 { 0x20 } else { b'a' + (r.next() % 26) as u8 }).collect()).collect();
            d.n = 2;
            check_dbf(&d.bytes(), r.next())
        } },
    ]
}

// ---- files ------------------------------------------------------------------------------
/// A directory of its own, removed in the end.
struct Dir(std::path::PathBuf);
impl Dir {
    fn new() -> Dir {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let d = std::env::temp_dir().join(format!("topogeo-harness-{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
        std::fs::create_dir_all(d.join("a.dir")).unwrap();
        Dir(d)
    }
    fn put(&self, name: &str, b: &[u8]) -> std::path::PathBuf { let p = self.0.join(name); std::fs::write(&p, b).unwrap(); p }
}
impl Drop for Dir { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
const STEMS: [&str; 5] = ["map", "map.2", "a.dir/map", "a.dir/map.v1", ".map"];
fn shp_file(c: u64) -> Outcome {
    let mut r = Rng::new(c);
    let b = shp_stream(&mut r, size_of(c));
    note(|| format!("file {}", hex(&b)));
    if !sane(&b) { return Ok(false); }
    let d = Dir::new();
    let p = d.put(&format!("{}.shp", STEMS[c as usize % 5]), &b);
    let n = b.len() / 8 + 3;
    match (ShpReader::new(&b[..]), topogeo::read::shapefile::shp::open(&p)) {
        (Err(_), Err(_)) => Ok(true),
        (Ok(x), Ok(y)) => { if shp_items(x, n) != shp_items(y, n) { return Err("opened by name, the file reads differently".into()); } Ok(true) }
        (x, y) => Err(format!("header right: {}, opened by name: {}", x.is_ok(), y.is_ok())),
    }
}
fn dbf_lines<R: Read>(rd: DbfReader<R>, n: usize) -> Vec<Option<(Vec<u8>, Vec<Option<String>>)>> {
    let fs = rd.meta.fields.to_vec();
    rd.take(n).map(|x| x.ok().map(|x| (x.bytes.to_vec(), fs.iter().map(|f| f.read_string(&x).ok()).collect()))).collect()
}
fn dbf_file(c: u64) -> Outcome {
    let mut r = Rng::new(c);
    let n = r.us(4);
    let b = dbf_stream(&mut r, size_of(c), n);
    let e = enc(c);
    note(|| format!("file {} read as {}", hex(&b), e.name()));
    let d = Dir::new();
    let p = d.put(&format!("{}.dbf", STEMS[c as usize % 5]), &b);
    for ascii in [false, true] {
        let (x, y) = if ascii { (DbfReader::new(&b[..], encoding::label::encoding_from_whatwg_label("ascii").unwrap()), topogeo::read::shapefile::dbf::open_ascii(&p)) } else { (DbfReader::new(&b[..], e), topogeo::read::shapefile::dbf::open(&p, e)) };
        match (x, y) {
            (Err(_), Err(_)) => {}
            (Ok(x), Ok(y)) => if dbf_lines(x, many(&b)) != dbf_lines(y, many(&b)) { return Err("opened by name, the file reads differently".into()); },
            (x, y) => return Err(format!("header right: {}, opened by name: {}", x.is_ok(), y.is_ok())),
        }
    }
    Ok(true)
}
/// The .dbf that goes with a .shp has the same name but for what follows its last dot.
fn pair_files(c: u64) -> Outcome {
    let mut r = Rng::new(c);
    let n = 1 + r.us(4);
    let recs: Vec<Rec> = (0..n).map(|_| rec(&mut r, 1)).collect();
    let a = shp_bytes(&mut r, &recs).0;
    if !sane(&a) { return Ok(false); }
    let b = dbf(&mut r, 2, n).bytes();
    let d = Dir::new();
    let stem = STEMS[c as usize % 5];
    let ext = ["shp", "SHP", "x"][c as usize / 5 % 3];
    note(|| format!("{}.{} {} .dbf {}", stem, ext, hex(&a), hex(&b)));
    let p = d.put(&format!("{}.{}", stem, ext), &a);
    let e = enc(c);
    // other files nearby
    let other = dbf(&mut r, 2, n + 1).bytes();
    for o in ["other.dbf", "map.shp.dbf", "map.dbf.dbf", "a.dir/other.dbf", "a.dbf", "map.2.shp.dbf", "dbf"] { d.put(o, &other); }
    if c / 15 % 4 == 0 {
        return match topogeo::read::shapefile::shapefile::open(&p, e) { Err(ShapefileError::DbfError(_)) => Ok(true), Err(x) => Err(format!("no .dbf file, but the error is {:?}", x)), Ok(_) => Err("opened without a .dbf file".into()) };
    }
    let q = d.put(&format!("{}.dbf", stem), &b);
    let items = |x: Result<topogeo::read::shapefile::shapefile::ShapefileRecord, ShapefileError>| match x { Ok(g) => format!("{} {:?}", g.rings.iter().map(|r| r.to_string()).collect::<Vec<_>>().join(";"), g.data.bytes), Err(ShapefileError::ShpError(_)) => "shp".into(), Err(ShapefileError::DbfError(_)) => "dbf".into(), Err(ShapefileError::JoinError(_)) => "join".into() };
    match (ShapefileReader::new(&a[..], &b[..], e), topogeo::read::shapefile::shapefile::open(&p, e)) {
        (Err(_), Err(_)) => {}
        (Ok(x), Ok(y)) => {
            // both read their fields through their own readers' descriptions
            let told = |fs: &[topogeo::read::shapefile::dbf::DbfField], it: Result<topogeo::read::shapefile::shapefile::ShapefileRecord, ShapefileError>| { let t = match &it { Ok(g) => fs.iter().map(|f| f.read_string(&g.data).ok()).collect(), Err(_) => vec![] }; format!("{} {:?}", items(it), t) };
            let (fx, fy) = (x.dbf_fields().to_vec(), y.dbf_fields().to_vec());
            let (x, y): (Vec<String>, Vec<String>) = (x.take(40).map(|i| told(&fx, i)).collect(), y.take(40).map(|i| told(&fy, i)).collect());
            if x != y { return Err(format!("opened by name, the items are {:?}, should be {:?}", y, x)); }
        }
        (x, y) => return Err(format!("the files are right: {}, opened by name: {}", x.is_ok(), y.is_ok())),
    }
    std::fs::remove_file(&p).unwrap();
    let _ = q;
    match topogeo::read::shapefile::shapefile::open(&p, e) { Err(ShapefileError::ShpError(_)) => Ok(true), Err(x) => Err(format!("no .shp file, but the error is {:?}", x)), Ok(_) => Err("opened without a .shp file".into()) }
}

// ---- C14 -------------------------------------------------------------------------------
fn check_pairs(a: &[u8], b: &[u8], seed: u64) -> Outcome {
    note(|| format!("shp {} dbf {}", hex(a), hex(b)));
    if !sane(a) { return Ok(false); }
    let e = enc(seed);
    let (s, d) = (ShpReader::new(a), DbfReader::new(b, e));
    let f = ShapefileReader::new(Piecemeal::new(a, seed), Piecemeal::new(b, seed ^ 5), e);
    let (mut s, mut d, mut f) = match (s, d, f) {
        (Ok(s), Ok(d), Ok(f)) => (s, d, f),
        (Err(_), _, Err(ShapefileError::ShpError(_))) | (_, Err(_), Err(ShapefileError::DbfError(_))) => return Ok(true),
        (s, d, f) => return Err(format!("opening: shp {:?} dbf {:?} together {:?}", s.is_ok(), d.is_ok(), f.is_ok())),
    };
    // the two files together describe themselves as they do apart
    let bb = |x: &topogeo::read::shapefile::ShpBoundingBox| [x.0.to_bits(), x.1.to_bits(), x.2.to_bits(), x.3.to_bits()];
    if bb(f.bounding_box()) != bb(&s.header.bounding_box) { return Err("bounding box differs from the .shp file's".into()); }
    for step in 0..60.max(b.len()) {
        let (x, y, z) = (s.next(), d.next(), f.next());
        let kind = match &z { None => "end", Some(Ok(_)) => "record", Some(Err(ShapefileError::ShpError(_))) => "shp error", Some(Err(ShapefileError::DbfError(_))) => "dbf error", Some(Err(ShapefileError::JoinError(_))) => "join error" };
        let ok = match (&x, &y) {
            (None, None) => kind == "end",
            (Some(Ok(_)), None) | (None, Some(Ok(_))) => kind == "join error",
            (Some(Err(_)), None) => kind == "join error" || kind == "shp error",
            (None, Some(Err(_))) => kind == "join error" || kind == "dbf error",
            (Some(Err(_)), Some(Err(_))) => kind == "shp error" || kind == "dbf error",
            (Some(Err(_)), Some(Ok(_))) => kind == "shp error",
            (Some(Ok(_)), Some(Err(_))) => kind == "dbf error",
            (Some(Ok(p)), Some(Ok(q))) => match &z {
                Some(Ok(g)) => {
                    let rb = |r: &[topogeo::read::shapefile::ShpPolygonRing]| -> Vec<Vec<(u64, u64)>> { r.iter().map(|r| r.0.iter().map(|q| (q.0.to_bits(), q.1.to_bits())).collect()).collect() };
                    if rb(&g.rings) != rb(&p.rings) || g.data.bytes != q.bytes { return Err(format!("item {} pairs the wrong records", step)); }
                    true
                }
                _ => false,
            },
        };
        if !ok {
            let w = |a: Option<bool>| match a { None => "ended", Some(true) => "has a record", Some(false) => "has an error" };
            return Err(format!("item {} is {}, though the .shp {} and the .dbf {}", step, kind, w(x.map(|x| x.is_ok())), w(y.map(|y| y.is_ok()))));
        }
        if kind == "end" { return Ok(step > 0); }
    }
    Ok(true)
}
pub fn c14() -> Vec<Gen> {
    vec![
        Gen { name: "files", count: Some(300), weight: 0, f: pair_files },
        Gen { name: "streams", count: None, weight: 3, f: |c| {
            let mut r = Rng::new(c);
            let a = shp_stream(&mut r, size_of(c));
            let n = if r.chance(1, 2) { shp_expect(&a).map_or(1, |v| v.len().min(9)) } else { r.us(5) };
            let b = dbf_stream(&mut r, size_of(c), n);
            check_pairs(&a, &b, r.next())
        } },
        Gen { name: "matched", count: None, weight: 2, f: |c| {
            // right files, at most one of them one record short, or one bad record in the middle
            let mut r = Rng::new(c);
            let n = 1 + r.us(6);
            let recs: Vec<Rec> = (0..n).map(|_| rec(&mut r, 1)).collect();
            let (mut a, at) = shp_bytes(&mut r, &recs);
            let m = match r.below(4) { 0 => n - 1, 1 => n + 1, _ => n };
            let b = dbf(&mut r, 2, m).bytes();
            if r.chance(1, 2) { let k = at[r.us(n)]; a[k + 8] = 3; }
            check_pairs(&a, &b, r.next())
        } },
        Gen { name: "many-records", count: Some(9), weight: 0, f: |c| {
            let mut r = Rng::new(c);
            let n = [300usize, 5000, 70_000][(c / 3) as usize];
            let recs: Vec<Rec> = (0..n).map(|i| vec![vec![(i as f64, 1.); 4]]).collect();
            let (a, _) = shp_bytes(&mut r, &recs);
            let n = n + c as usize % 3 - 1;
            let recs = (0..n).map(|i| { let mut v = vec![0x20]; v.extend(&le(i as u32)); v }).collect();
            let d = Dbf { n: n as u32, hdr: 65, rec: 5, fields: vec![Fd { name: b"n".to_vec(), ty: b'+', len: 4 }], tail: vec![0x0d], recs, date: (1, 1) };
            check_pairs(&a, &d.bytes(), c)
        } },
        Gen { name: "counts", count: Some(4 * 4 * 5 * 5), weight: 0, f: |c| {
            let (n, m, bad_s, short_d) = ((c % 4) as usize, (c / 4 % 4) as usize, (c / 16 % 5) as usize, (c / 80) as usize);
            let mut r = Rng::new(c);
            let recs: Vec<Rec> = (0..n).map(|i| vec![vec![(i as f64, 1.); 4]]).collect();
            let (mut a, at) = shp_bytes(&mut r, &recs);
            if bad_s < at.len() { a[at[bad_s] + 8] = 9; }
            let d = Dbf { n: m as u32, hdr: 65, rec: 3, fields: vec![Fd { name: b"n".to_vec(), ty: b'N', len: 2 }], tail: vec![0x0d], recs: (0..m).map(|i| vec![0x20, 0x20, b'0' + i as u8]).collect(), date: (1, 1) };
            let mut b = d.bytes();
            if short_d < m { b.truncate(65 + 3 * short_d + 1); }
            check_pairs(&a, &b, c)
        } },
    ]
}

// ---- C15 -------------------------------------------------------------------------------
fn check_quantize(bbox: [f64; 4], recs: &[Rec], seed: u64) -> Outcome {
    note(|| format!("bounding box {:?}, records {:?}", bbox, recs));
    let mut body = vec![];
    for (i, x) in recs.iter().enumerate() { body.extend(shp_record(i as u32 + 1, x)); }
    let mut a = shp_header(100 + body.len() as u32, bbox);
    a.extend(body);
    let d = Dbf { n: recs.len() as u32, hdr: 65, rec: 5, fields: vec![Fd { name: b"n".to_vec(), ty: b'N', len: 4 }], tail: vec![0x0d], recs: (0..recs.len()).map(|i| format!(" {:4}", i).into_bytes()).collect(), date: (1, 1) };
    let mut rd = ShapefileReader::new(Piecemeal::new(&a, seed), Piecemeal::new(&d.bytes(), seed), encoding::all::ASCII).map_err(|e| format!("{}", e))?;
    let f = rd.get_field("n").ok_or("no field")?;
    let items: Vec<_> = ShapefileGeoIterator::new(&mut rd).collect();
    if items.len() != recs.len() { return Err(format!("{} regions from {} records", items.len(), recs.len())); }
    let mut all: Vec<Vec<Seen>> = vec![];
    for (i, (it, rec)) in items.into_iter().zip(recs).enumerate() {
        let g = it.map_err(|e| format!("record {}: {}", i, e))?;
        if f.read_string(&g.data).ok() != Some(i.to_string()) { return Err(format!("region {} carries the data {}", i, g.data)); }
        let pts = |r: &Ring| -> Vec<P> { r.points().iter().map(|p| (p.0, p.1)).collect() };
        let outer: Vec<Vec<P>> = g.outer_rings.iter().map(pts).collect();
        let inner: Vec<Vec<P>> = g.inner_rings.iter().map(pts).collect();
        if outer.len() + inner.len() != rec.len() { return Err(format!("region {} has {}+{} rings from {}", i, outer.len(), inner.len(), rec.len())); }
        for (v, cw) in [(&outer, true), (&inner, false)] { for q in v { if (shoelace(q) >= 0) != cw { return Err(format!("region {}: ring {:?} is on the wrong side", i, q)); } } }
        // the rings, in order, are an interleaving of outer and inner ones
        let ways = interleavings(rec, &outer, &inner, bbox);
        if ways.is_empty() { return Err(format!("region {}: rings {:?} / {:?} are not the record's rings {:?} in order, in the box {:?}", i, outer, inner, rec, bbox)); }
        all.push(ways);
    }
    // rings that quantize almost alike can be matched in more than one way: one consistent way is enough
    let mut first = None;
    for k in 0..all.iter().map(|w| w.len() as u64).product::<u64>().min(4096) {
        let mut k = k;
        let mut seen = vec![];
        for w in &all { seen.extend(w[(k % w.len() as u64) as usize].iter().cloned()); k /= w.len() as u64; }
        match check_points(bbox, &seen) { Ok(()) => return Ok(true), Err(m) => { first.get_or_insert(m); } }
    }
    match first { Some(m) => Err(m), None => Ok(true) }
}
type Seen = Vec<((f64, f64), P)>;
fn check_points(bbox: [f64; 4], seen: &Seen) -> Result<(), String> {
    // monotone: sort by source coordinate
    let check = |mut v: Vec<(f64, u32)>, up: bool, what: &str| -> Result<(), String> {
        v.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        for w in v.windows(2) {
            let ok = if w[0].0 == w[1].0 { w[0].1 == w[1].1 } else if up { w[0].1 <= w[1].1 } else { w[0].1 >= w[1].1 };
            if !ok { return Err(format!("{} {:e} -> {} but {:e} -> {} in the box {:?}", what, w[0].0, w[0].1, w[1].0, w[1].1, bbox)); }
        }
        Ok(())
    };
    check(seen.iter().map(|s| (s.0 .0, s.1 .0)).collect(), true, "x")?;
    check(seen.iter().map(|s| (s.0 .1, s.1 .1)).collect(), false, "y")?;
    for s in seen {
        for (v, side, want, what) in [(s.0 .0, bbox[0], 0, "left"), (s.0 .0, bbox[2], M, "right")] { if v == side && s.1 .0 != want { return Err(format!("{} side {:e} -> x {} in the box {:?}", what, v, s.1 .0, bbox)); } }
        for (v, side, want, what) in [(s.0 .1, bbox[3], 0, "top"), (s.0 .1, bbox[1], M, "bottom")] { if v == side && s.1 .1 != want { return Err(format!("{} side {:e} -> y {} in the box {:?}", what, v, s.1 .1, bbox)); } }
    }
    Ok(())
}
/// Every way the record's rings, in order, can be an interleaving of the outer and the inner list, with what each point became.
fn interleavings(rec: &Rec, outer: &[Vec<P>], inner: &[Vec<P>], bbox: [f64; 4]) -> Vec<Seen> {
    let near = |q: &Vec<(f64, f64)>, p: &Vec<P>| -> bool {
        q.len() == p.len() && q.iter().zip(p).all(|(s, d)| {
            let e = |v: f64, a: f64, b: f64| ((v - a) / (b - a) * 4294967295.0).max(0.).min(4294967295.0);
            (e(s.0, bbox[0], bbox[2]) - d.0 as f64).abs() < 2. && (e(s.1, bbox[3], bbox[1]) - d.1 as f64).abs() < 2.
        })
    };
    let mut out = vec![];
    for m in 0..1u32 << rec.len() {
        if m.count_ones() as usize != outer.len() { continue; }
        let (mut i, mut j) = (0, 0);
        let mut seen = vec![];
        let ok = rec.iter().enumerate().all(|(k, q)| {
            let p = if m >> k & 1 == 1 { i += 1; &outer[i - 1] } else { j += 1; &inner[j - 1] };
            seen.extend(q.iter().cloned().zip(p.iter().cloned()));
            near(q, p)
        });
        if ok { out.push(seen); }
    }
    out
}
fn boxes(r: &mut Rng) -> [f64; 4] {
    loop {
        let (x, y) = match r.below(5) {
            0 => (r.below(100) as f64, -(r.below(100) as f64)),
            1 => (-180., -90.),
            2 => (f64::from_bits(r.next()), f64::from_bits(r.next())),
            3 => (1e7 + r.below(1000) as f64 / 7., -3e6 - r.below(1000) as f64 / 3.),
            _ => (r.next() as f64 / 1e13, r.next() as f64 / 1e9),
        };
        let (w, h) = match r.below(5) { 0 => (1., 1.), 1 => (360., 180.), 2 => (1e-7 * (1 + r.below(1000)) as f64, 1e-3), 3 => (r.next() as f64 / 1e15, r.next() as f64 / 1e18), _ => (f64::from_bits(r.next()).abs(), f64::from_bits(r.next()).abs()) };
        let b = [x, y, x + w, y + h];
        if b.iter().all(|v| v.is_finite()) && b[2] > b[0] && b[3] > b[1] && (b[2] - b[0]).is_finite() && (b[3] - b[1]).is_finite() { return b; }
    }
}
pub fn c15() -> Vec<Gen> {
    vec![
        Gen { name: "boxes", count: None, weight: 1, f: |c| {
            let mut r = Rng::new(c);
            let b = boxes(&mut r);
            let mut xs: Vec<f64> = vec![b[0], b[2]];
            let mut ys: Vec<f64> = vec![b[1], b[3]];
            let axis = |r: &mut Rng, v: &mut Vec<f64>, lo: f64, hi: f64| {
                for _ in 0..2 + r.us(6) {
                    let t = r.below(1 << 53) as f64 / (1u64 << 53) as f64;
                    let x = match r.below(5) {
                        0 => { let k = r.below(1 << 32) as f64; lo + (hi - lo) * (k / 4294967295.0) } // near a step
                        1 => { let y = v[r.us(v.len())]; f64::from_bits((y.to_bits() as i64).wrapping_add(r.range(-2, 2)) as u64) } // next to another
                        2 => v[r.us(v.len())],
                        _ => lo + (hi - lo) * t,
                    };
                    if x >= lo && x <= hi { v.push(x); }
                }
            };
            axis(&mut r, &mut xs, b[0], b[2]);
            axis(&mut r, &mut ys, b[1], b[3]);
            let recs: Vec<Rec> = (0..1 + r.us(3)).map(|_| (0..1 + r.us(4)).map(|_| {
                let mut v: Vec<(f64, f64)> = (0..3 + r.us(5)).map(|_| (xs[r.us(xs.len())], ys[r.us(ys.len())])).collect();
                let p = v[0]; v.push(p); v
            }).collect()).collect();
            check_quantize(b, &recs, r.next())
        } },
        // points outside the box, as far as they can be
        Gen { name: "outside", count: None, weight: 1, f: |c| {
            let mut r = Rng::new(c);
            let b = [0., 0., 10., 10.];
            let recs: Vec<Rec> = vec![vec![(0..4 + r.us(6)).map(|_| {
                let mut v = || match r.below(12) { 0 => -1e308, 1 => 1e308, 2 => -1e-300, _ => r.range(-10, 30) as f64 / 2. };
                (v(), v())
            }).collect()]];
            check_quantize(b, &recs, r.next())
        } },
        Gen { name: "squares", count: Some(9 * 16), weight: 0, f: |c| {
            // clockwise and counter-clockwise rings, in every order
            let b = [[0., 0., 1., 1.], [-180., -90., 180., 90.], [1e6, -1e6, 1e6 + 1., -1e6 + 1.]][(c % 3) as usize];
            let (w, h) = (b[2] - b[0], b[3] - b[1]);
            let sq = |k: f64| vec![(b[0], b[1]), (b[0], b[1] + h * k), (b[0] + w * k, b[1] + h * k), (b[0] + w * k, b[1]), (b[0], b[1])];
            let ring = |k: u64, s: f64| { let mut v = sq(s); if k == 1 { v.reverse(); } v };
            let m = c / 9;
            let rec: Rec = vec![ring(m & 1, 1.), ring(m >> 1 & 1, 0.5), ring(m >> 2 & 1, 0.25), ring(m >> 3 & 1, 0.125)];
            check_quantize(b, &[rec], c)
        } },
    ]
}

// ---- C16 -------------------------------------------------------------------------------
fn touch(d: &DbfRecord, fields: &[topogeo::read::shapefile::DbfField]) -> usize {
    let mut n = format!("{} {:?}", d, d).len();
    for f in fields { n += match f.read_string(d) { Ok(s) => s.len(), Err(e) => format!("{} {:?}", e, e).len() }; n += format!("{:?}", f).len(); }
    n
}
#[allow(deprecated)]
fn check_total(a: &[u8], b: &[u8], seed: u64) -> Outcome {
    use std::error::Error;
    note(|| format!("shp {} dbf {} seed {}", hex(a), hex(b), seed));
    if !sane(a) { return Ok(false); }
    let e = enc(seed);
    let mut r = Rng::new(seed);
    let fail = |r: &mut Rng, n: usize| if r.chance(1, 4) { Some(r.us(n + 1)) } else { None };
    let mk = |b: &[u8], f: Option<usize>| { let mut p = Piecemeal::new(b, seed); p.fail_at = f; p };
    let (fa, fb) = (fail(&mut r, a.len()), fail(&mut r, b.len()));
    let mut n = 0;
    // each record takes at least 8 bytes, then one error, then the end
    let bound = a.len() / 8 + 3;
    if let Ok(mut rd) = ShpReader::new(mk(a, fa)) {
        let mut k = 0;
        let mut io = false;
        while let Some(x) = rd.next() {
            k += 1;
            if k > bound { return Err(format!("the .shp iteration yields more than {} items from {} bytes", bound, a.len())); }
            if io { return Err("the .shp iteration goes on after a read error".into()); }
            match x {
                Ok(p) => n += format!("{:?}", p).len() + p.rings.iter().map(|r| format!("{}", r).len()).sum::<usize>(),
                Err(x) => { n += format!("{} {:?} {}", x, x, x.description()).len() + x.cause().is_some() as usize; if let topogeo::read::shapefile::shp::ShpError::IOError(_) = x { io = true; } }
            }
        }
        if rd.next().is_some() { return Err("the .shp iteration starts again after its end".into()); }
    }
    match DbfReader::new(mk(b, fb), e) {
        Ok(mut rd) => {
            let fs = rd.meta.fields.to_vec();
            let mut k = 0;
            while let Some(x) = rd.next() {
                k += 1;
                if k > MANY { break; }
                match x { Ok(d) => n += touch(&d, &fs), Err(x) => n += format!("{} {:?} {}", x, x, x.description()).len() + x.cause().is_some() as usize }
            }
        }
        Err(x) => n += format!("{} {:?}", x, x).len(),
    }
    match ShapefileReader::new(mk(a, fa), mk(b, fb), e) {
        Ok(mut rd) => {
            let fs = rd.dbf_fields();
            n += format!("{:?}", rd.bounding_box()).len();
            if seed % 2 == 0 {
                for x in rd.by_ref().take(MANY) {
                    match x { Ok(g) => n += touch(&g.data, &fs) + format!("{} {:?}", g, g).len(), Err(x) => n += format!("{} {:?} {}", x, x, x.description()).len() + x.cause().is_some() as usize }
                }
            } else {
                for x in ShapefileGeoIterator::new(&mut rd).take(MANY) {
                    match x { Ok(g) => n += touch(&g.data, &fs) + g.outer_rings.len(), Err(x) => n += format!("{}", x).len() }
                }
            }
        }
        Err(x) => n += format!("{} {:?}", x, x).len(),
    }
    Ok(n > 0)
}
pub fn c16() -> Vec<Gen> {
    vec![
        Gen { name: "streams", count: None, weight: 4, f: |c| {
            let mut r = Rng::new(c);
            let a = shp_stream(&mut r, size_of(c));
            let n = if r.chance(2, 3) { shp_expect(&a).map_or(1, |v| v.len().min(9)) } else { r.us(5) };
            let b = dbf_stream(&mut r, size_of(c), n);
            check_total(&a, &b, r.next())
        } },
        Gen { name: "double-damage", count: None, weight: 2, f: |c| {
            let mut r = Rng::new(c);
            let mut a = shp_stream(&mut r, size_of(c));
            let mut b = dbf_stream(&mut r, size_of(c), 2);
            for v in [&mut a, &mut b] { for _ in 0..r.us(4) { if !v.is_empty() { let i = r.us(v.len()); v[i] = r.pick(&[0, 1, 255, 127, 128, 5, 32]); } } }
            check_total(&a, &b, r.next())
        } },
        // every truncation and every single-byte change of a small pair of files
        Gen { name: "each-byte", count: Some(6 * 600), weight: 0, f: |c| {
            let recs: Vec<Rec> = vec![vec![vec![(1., 2.), (3., 4.), (5., 6.), (1., 2.)]], vec![vec![(1., 2.), (3., 4.), (5., 6.), (1., 2.)], vec![(0., 0.); 4]]];
            let mut r = Rng::new(1);
            let mut a = shp_bytes(&mut r, &recs).0;
            let d = Dbf { n: 2, hdr: 129, rec: 14, fields: vec![Fd { name: b"n".to_vec(), ty: b'N', len: 4 }, Fd { name: b"c".to_vec(), ty: b'C', len: 5 }, Fd { name: b"l".to_vec(), ty: b'+', len: 4 }], tail: vec![0x0d], recs: (0..2).map(|i| format!(" {:4}abc  \x01\x02\x03\x04", i).into_bytes()).collect(), date: (1, 1) };
            let mut b = d.bytes();
            let (k, i) = (c % 6, (c / 6) as usize);
            let v = if i < a.len() { &mut a } else { &mut b };
            let i = if i < v.len() { i } else { i % v.len() };
            match k { 0 => v.truncate(i), 1 => v[i] = 0, 2 => v[i] = 255, 3 => v[i] = v[i].wrapping_add(1), 4 => v[i] = v[i].wrapping_sub(1), _ => v[i] ^= 0x80 }
            check_total(&a, &b, c)
        } },
        Gen { name: "noise", count: None, weight: 1, f: |c| {
            let mut r = Rng::new(c);
            let mut a: Vec<u8> = (0..r.us(400)).map(|_| if r.chance(1, 2) { 0 } else { r.next() as u8 }).collect();
            let b: Vec<u8> = (0..r.us(400)).map(|_| if r.chance(1, 2) { 0 } else { r.next() as u8 }).collect();
            if a.len() >= 100 && r.chance(3, 4) { let h = shp_header(r.next() as u32 >> 8, [0., 0., 1., 1.]); a[..100].copy_from_slice(&h); }
            check_total(&a, &b, r.next())
        } },
    ]
}
