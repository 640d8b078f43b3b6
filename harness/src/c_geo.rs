use crate::rng::Rng;
use crate::shapes::*;
use crate::{note, Gen, Outcome};
use topogeo::clip::edge::clip_edge;
use topogeo::clip::ClipMask;
use topogeo::geo::{self, WindingOrder};

fn size_of(case: u64) -> usize { (case & 0xff) as usize / 6 + 1 }
/// Lengths around and beyond every small power of two.
pub const LARGE: [usize; 6] = [300, 1100, 4200, 9000, 66_000, 140_000];
pub fn large_path(c: u64) -> Vec<P> { let mut r = Rng::new(c ^ 0xabc); path(&mut r, LARGE[(c % 6) as usize], [2, 4, 6][(c / 6 % 3) as usize]) }

// ---- C01 ---------------------------------------------------------------------
fn check_area(v: &[P], cuts: u64) -> Outcome {
    let want = shoelace(v);
    let (abs, cw) = (want.unsigned_abs(), want >= 0);
    let e = cut(v, |i| (cuts >> (i % 64)) & 1 == 1);
    note(|| format!("closed ring {:?}, as edges {:?}", v, e));
    let b = bx(v);
    let wo = |w: WindingOrder| w == WindingOrder::Clockwise;
    for (what, r) in [("point list", ring_points(v)), ("edge list", ring_edges(&e))] {
        let (a, w) = r.area2_and_winding_order();
        if a as u128 != abs { return Err(format!("{} {:?}: area2_and_winding_order gives area2 {}, exact {}", what, v, a, abs)); }
        if r.area2() as u128 != abs { return Err(format!("{} {:?}: area2 {}, exact {}", what, v, r.area2(), abs)); }
        if wo(w) != cw || wo(r.winding_order()) != cw { return Err(format!("{} {:?}: winding order {:?} / {:?}, exact signed sum {}", what, v, w, r.winding_order(), want)); }
    }
    if geo::area2(b.iter()) as u128 != abs { return Err(format!("area2({:?}) = {}, exact {}", v, geo::area2(b.iter()), abs)); }
    if geo::signed_area2(b.iter()) as i128 != want { return Err(format!("signed_area2({:?}) = {}, exact {}", v, geo::signed_area2(b.iter()), want)); }
    if wo(geo::winding_order(b.iter())) != cw { return Err(format!("winding_order({:?}) wrong, exact signed sum {}", v, want)); }
    Ok(v.len() > 3)
}
const EXT: [u32; 4] = [0, 1, M - 1, M];
fn ex_ring(mut case: u64) -> (Vec<P>, u64) {
    let cuts = case % 8; case /= 8;
    let mut n = 1;
    let mut k = 16u64;
    while case >= k { case -= k; k *= 16; n += 1; }
    let mut v = vec![];
    for _ in 0..n { v.push((EXT[(case % 4) as usize], EXT[(case / 4 % 4) as usize])); case /= 16; }
    let p = v[0];
    v.push(p);
    (v, cuts)
}
pub fn c01() -> Vec<Gen> {
    vec![
        Gen { name: "corners", count: Some(8 * (16 + 256 + 4096)), weight: 0, f: |c| { let (v, k) = ex_ring(c); check_area(&v, k << 1) } },
        Gen { name: "rings", count: None, weight: 1, f: |c| {
            let mut r = Rng::new(c);
            let mode = r.below(7);
            let n = 1 + r.us(2 + size_of(c));
            let v = closed(&mut r, n, mode);
            check_area(&v, r.next())
        } },
        Gen { name: "large", count: Some(18), weight: 0, f: |c| { let mut v = large_path(c); let p = v[0]; v.push(p); check_area(&v, Rng::new(c).next()) } },
        Gen { name: "empty", count: Some(3), weight: 0, f: |c| {
            let v: Vec<P> = (0..c).map(|_| (M, M)).collect();
            note(|| format!("{:?}", v));
            let r = ring_points(&v);
            if r.area2() != 0 || r.winding_order() != WindingOrder::Clockwise { return Err(format!("degenerate ring {:?}", v)); }
            let r = ring_edges(&[]);
            if r.area2() != 0 || r.winding_order() != WindingOrder::Clockwise { return Err("ring without edges".into()); }
            Ok(true)
        } },
    ]
}

// ---- C02 ---------------------------------------------------------------------
fn check_convert(v: &[P], cuts: u64) -> Outcome {
    let e = cut(v, |i| (cuts >> (i % 64)) & 1 == 1);
    note(|| format!("points {:?}, as edges {:?}", v, e));
    // point list
    let rp = ring_points(v);
    if un(&rp.points()) != v { return Err(format!("points() of the point list {:?} gives {:?}", v, rp.points())); }
    let es: Vec<Vec<P>> = rp.edges().iter().map(|e| un(&e.0)).collect();
    let want: Vec<Vec<P>> = v.windows(2).map(|w| w.to_vec()).collect();
    if es != want { return Err(format!("edges() of the point list {:?} gives {:?}", v, es)); }
    if v.len() >= 2 {
        let back = un(&ring_edges(&es).points());
        if back != v { return Err(format!("{:?} to edges and back gives {:?}", v, back)); }
        // edge list
        let re = ring_edges(&e);
        if un(&re.points()) != v { return Err(format!("points() of the edge list {:?} gives {:?}", e, re.points())); }
        let es: Vec<Vec<P>> = re.edges().iter().map(|e| un(&e.0)).collect();
        if es != e { return Err(format!("edges() of the edge list {:?} gives {:?}", e, es)); }
    }
    Ok(v.len() >= 2)
}
pub fn c02() -> Vec<Gen> {
    vec![
        Gen { name: "small", count: Some(16 * (1 + 4 + 16 + 64 + 256 + 1024)), weight: 0, f: |c| {
            let cuts = c % 16; let mut c = c / 16;
            let (mut n, mut k) = (0, 1u64);
            while c >= k { c -= k; k *= 4; n += 1; }
            let v: Vec<P> = (0..n).map(|_| { let p = ((c % 2) as u32, (c / 2 % 2) as u32); c /= 4; p }).collect();
            check_convert(&v, cuts << 1)
        } },
        Gen { name: "rings", count: None, weight: 1, f: |c| {
            let mut r = Rng::new(c);
            let mode = r.below(7);
            let n = r.us(2 + size_of(c));
            let v = if r.chance(1, 3) { path(&mut r, n, mode) } else { closed(&mut r, n, mode) };
            check_convert(&v, r.next())
        } },
        Gen { name: "large", count: Some(18), weight: 0, f: |c| { let v = large_path(c); check_convert(&v, Rng::new(c).next()) } },
        Gen { name: "one-point edges", count: None, weight: 1, f: |c| {
            // edges of a single point, which any joint may have
            let mut r = Rng::new(c);
            let mode = r.below(7);
            let n = 2 + r.us(size_of(c));
            let v = if r.chance(1, 3) { path(&mut r, n, mode) } else { closed(&mut r, n, mode) };
            if v.len() < 2 { return Ok(false); }
            let cuts = r.next();
            let mut e = vec![];
            for x in cut(&v, |i| (cuts >> (i % 64)) & 1 == 1) {
                if r.chance(1, 3) { e.push(vec![x[0]]); }
                e.push(x);
            }
            if r.chance(1, 3) { e.push(vec![v[v.len() - 1]]); }
            note(|| format!("edges {:?}", e));
            let re = ring_edges(&e);
            if un(&re.points()) != v { return Err(format!("points() of the edge list {:?} gives {:?}", e, re.points())); }
            let es: Vec<Vec<P>> = re.edges().iter().map(|e| un(&e.0)).collect();
            if es != e { return Err(format!("edges() of the edge list {:?} gives {:?}", e, es)); }
            Ok(true)
        } },
        Gen { name: "none", count: Some(1), weight: 0, f: |_| {
            note(|| "an edge list without edges".into());
            let r = ring_edges(&[]);
            if r.points().len() != 0 || r.edges().len() != 0 { return Err("an edge list without edges has points or edges".into()); }
            Ok(true)
        } },
    ]
}

// ---- C03 / C04 -----------------------------------------------------------------
pub fn mask(kind: u64, m: u32) -> ClipMask { match kind % 4 { 0 => ClipMask::MinX(m), 1 => ClipMask::MaxX(m), 2 => ClipMask::MinY(m), _ => ClipMask::MaxY(m) } }
pub fn mask_s(kind: u64, m: u32) -> String { format!("{}({})", ["MinX", "MaxX", "MinY", "MaxY"][(kind % 4) as usize], m) }
/// 1 inside, 0 on the line, -1 outside
pub fn side(kind: u64, m: u32, p: P) -> i32 {
    let c = if kind % 4 < 2 { p.0 } else { p.1 };
    if c == m { 0 } else if (c > m) == (kind % 2 == 0) { 1 } else { -1 }
}
/// c is on the line, between the ends, and less than one unit from the exact crossing of a-b
pub fn is_crossing(kind: u64, m: u32, a: P, b: P, c: P) -> bool {
    let (ma, oa, mb, ob, mc, oc) = if kind % 4 < 2 { (a.0, a.1, b.0, b.1, c.0, c.1) } else { (a.1, a.0, b.1, b.0, c.1, c.0) };
    let (ma, oa, mb, ob, oc) = (ma as i128, oa as i128, mb as i128, ob as i128, oc as i128);
    let d = mb - ma;
    mc == m && oa.min(ob) <= oc && oc <= oa.max(ob) && ((oc - oa) * d - (m as i128 - ma) * (ob - oa)).abs() < d.abs()
}
fn check_mask(kind: u64, m: u32, a: P, b: P) -> Outcome {
    note(|| format!("{} on {:?} and {:?}", mask_s(kind, m), a, b));
    let mk = mask(kind, m);
    for p in [a, b] {
        let got = format!("{:?}", mk.test(&pt(p)));
        let want = ["Outside", "OnEdge", "Inside"][(side(kind, m, p) + 1) as usize];
        if got != want { return Err(format!("{}.test({:?}) is {}, should be {}", mask_s(kind, m), p, got, want)); }
    }
    if side(kind, m, a) * side(kind, m, b) == -1 {
        let c = mk.intersect(&pt(a), &pt(b));
        if !is_crossing(kind, m, a, b, (c.0, c.1)) { return Err(format!("{}.intersect({:?}, {:?}) = {:?}", mask_s(kind, m), a, b, c)); }
        return Ok(true);
    }
    Ok(false)
}
pub fn c03() -> Vec<Gen> {
    vec![
        Gen { name: "small", count: Some(4 * 4 * 256), weight: 0, f: |c| {
            let (k, m, c) = (c % 4, (c / 4 % 4) as u32, c / 16);
            check_mask(k, m, ((c % 4) as u32, (c / 4 % 4) as u32), ((c / 16 % 4) as u32, (c / 64 % 4) as u32))
        } },
        Gen { name: "extremes", count: Some(4 * 6 * 1296), weight: 0, f: |c| {
            let v = [0, 1, 1 << 31, M - 2, M - 1, M];
            let (k, m, c) = (c % 4, v[(c / 4 % 6) as usize], c / 24);
            check_mask(k, m, (v[(c % 6) as usize], v[(c / 6 % 6) as usize]), (v[(c / 36 % 6) as usize], v[(c / 216 % 6) as usize]))
        } },
        Gen { name: "random", count: None, weight: 1, f: |c| {
            let mut r = Rng::new(c);
            let k = r.below(4);
            let mode = r.below(7);
            let m = coord(&mut r, mode);
            let (mut a, mut b) = (point(&mut r, mode), point(&mut r, mode));
            if r.chance(1, 2) {
                // make it straddle
                let lo = |r: &mut Rng| if m == 0 { 0 } else { r.below(m as u64) as u32 };
                let hi = |r: &mut Rng| if m == M { M } else { m + 1 + r.below((M - m) as u64) as u32 };
                let (x, y) = (lo(&mut r), hi(&mut r));
                let (x, y) = if r.chance(1, 2) { (x, y) } else { (y, x) };
                if k < 2 { a.0 = x; b.0 = y } else { a.1 = x; b.1 = y }
            }
            check_mask(k, m, a, b)
        } },
    ]
}

fn check_clip(kind: u64, m: u32, v: &[P]) -> Outcome {
    note(|| format!("clip_edge({:?}, {})", v, mask_s(kind, m)));
    let out = un(&clip_edge(&bx(v), &mask(kind, m)));
    let bad = |why: String| Err(format!("clip_edge({:?}, {}) = {:?}: {}", v, mask_s(kind, m), out, why));
    if v.len() < 2 { return Ok(false); }
    let s: Vec<i32> = v.iter().map(|&p| side(kind, m, p)).collect();
    let mut j = 0;
    let mut take = |want: Option<P>, seg: Option<(P, P)>, what: &str| -> Result<(), String> {
        let got = match out.get(j) { None => return Err(format!("missing {} {:?}{:?}", what, want, seg)), Some(&p) => p };
        j += 1;
        if let Some(p) = want { if got != p { return Err(format!("entry {} is {:?}, should be the {} {:?}", j - 1, got, what, p)); } }
        if let Some((a, b)) = seg { if !is_crossing(kind, m, a, b, got) { return Err(format!("entry {} is {:?}, should be the crossing of {:?}-{:?}", j - 1, got, a, b)); } }
        Ok(())
    };
    let mut n = 0usize; // entries so far
    for i in 0..v.len() {
        let r: Result<(), String> = (|| {
            if i > 0 && s[i - 1] * s[i] == -1 { take(None, Some((v[i - 1], v[i])), "crossing")?; n += 1; }
            if i > 0 && s[i] == 1 && s[i - 1] == 0 && !(n > 0 && n <= out.len() && out[n - 1] == v[i - 1]) { take(Some(v[i - 1]), None, "on-line vertex")?; n += 1; }
            if s[i] == 1 || (s[i] == 0 && i > 0 && s[i - 1] == 1) { take(Some(v[i]), None, "vertex")?; n += 1; }
            Ok(())
        })();
        if let Err(e) = r { return bad(e); }
    }
    if n != out.len() { return bad(format!("{} entries too many", out.len() - n)); }
    Ok(s.contains(&1) && s.contains(&-1))
}
pub fn c04() -> Vec<Gen> {
    vec![
        // every path of up to 4 points on a 3x3 grid around the line, and up to 5 on 3x2
        Gen { name: "small", count: Some(4 * (1 + 9 + 81 + 729 + 6561)), weight: 0, f: |c| {
            let k = c % 4; let mut c = c / 4;
            let (mut n, mut z) = (0, 1u64);
            while c >= z { c -= z; z *= 9; n += 1; }
            let v: Vec<P> = (0..n).map(|_| { let p = ((c % 3) as u32, (c / 3 % 3) as u32); c /= 9; p }).collect();
            check_clip(k, 1, &v)
        } },
        Gen { name: "along", count: Some(4 * 7776 * 6), weight: 0, f: |c| {
            let k = c % 4; let mut c = c / 4;
            let v: Vec<P> = (0..6).map(|_| { let (a, b) = (4 + (c % 3) as u32, (c / 3 % 2) as u32 * 7); c /= 6; if k < 2 { (a, b) } else { (b, a) } }).collect();
            check_clip(k, 5, &v)
        } },
        Gen { name: "large", count: Some(18 * 4), weight: 0, f: |c| { let v = large_path(c / 4); let p = v[v.len() / 2]; check_clip(c % 4, if c % 4 < 2 { p.0 } else { p.1 }, &v) } },
        Gen { name: "paths", count: None, weight: 1, f: |c| {
            let mut r = Rng::new(c);
            let mode = r.below(7);
            let n = r.us(3 + size_of(c));
            let v = if r.chance(1, 3) { closed(&mut r, n, mode) } else { path(&mut r, n, mode) };
            let k = r.below(4);
            let m = if !v.is_empty() && r.chance(1, 2) { let p = v[r.us(v.len())]; if k < 2 { p.0 } else { p.1 } } else { coord(&mut r, mode) };
            check_clip(k, m, &v)
        } },
    ]
}
