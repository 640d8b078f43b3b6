use crate::c_geo::{mask, mask_s, side};
use crate::rng::Rng;
use crate::shapes::*;
use crate::{note, Gen, Outcome};
use std::collections::{BTreeMap, HashMap, HashSet};
use topogeo::clip::clip_topology;
use topogeo::clip::edge::clip_edge;
use topogeo::normalize;
use std::panic;
use topogeo::topology::{Direction, TopoEdge, TopoRing, Topology, TopologyBuilder};

fn size_of(case: u64) -> usize { (case & 0xff) as usize / 24 + 1 }

pub fn build(rs: &[Rg]) -> Topology<u32> {
    let mut b = TopologyBuilder::<u32>::new();
    for g in rs { b.add_region(g.region()); }
    b.into_topology()
}

/// What a topology says, with references turned into indices. Nothing is dereferenced through a raw pointer.
#[derive(Debug, Clone, PartialEq)]
pub struct Snap { pub edges: Vec<Vec<P>>, pub regions: Vec<SnapRegion> }
#[derive(Debug, Clone, PartialEq)]
pub struct SnapRegion { pub data: u32, pub outer: Vec<Vec<(usize, bool)>>, pub inner: Vec<Vec<(usize, bool)>> }
pub fn edge_ix(t: &Topology<u32>, p: *const TopoEdge<u32>) -> Option<usize> {
    let (b, s) = (t.edges.as_ptr() as usize, std::mem::size_of::<TopoEdge<u32>>());
    let p = p as usize;
    if p < b || (p - b) % s != 0 || (p - b) / s >= t.edges.len() { None } else { Some((p - b) / s) }
}
pub fn snap(t: &Topology<u32>) -> Result<Snap, String> {
    let ring = |r: &TopoRing<u32>| -> Result<Vec<(usize, bool)>, String> {
        r.directed_edges.iter().map(|d| edge_ix(t, d.edge).map(|e| (e, d.direction == Direction::Forward)).ok_or_else(|| "a directed edge refers to no edge of the topology".to_string())).collect()
    };
    Ok(Snap {
        edges: t.edges.iter().map(|e| un(&e.points)).collect(),
        regions: t.regions.iter().map(|g| Ok(SnapRegion {
            data: g.data,
            outer: g.outer_rings.iter().map(&ring).collect::<Result<_, String>>()?,
            inner: g.inner_rings.iter().map(&ring).collect::<Result<_, String>>()?,
        })).collect::<Result<_, String>>()?,
    })
}
impl Snap {
    pub fn dir(&self, d: (usize, bool)) -> Vec<P> { let mut v = self.edges[d.0].clone(); if !d.1 { v.reverse(); } v }
    pub fn paths(&self, r: &[(usize, bool)]) -> Vec<Vec<P>> { r.iter().map(|&d| self.dir(d)).collect() }
}
fn closed_walk(p: &[Vec<P>]) -> bool {
    !p.is_empty() && p.iter().all(|e| e.len() >= 2) && (0..p.len()).all(|i| p[i][p[i].len() - 1] == p[(i + 1) % p.len()][0])
}

// ---- C07 -----------------------------------------------------------------------
pub fn check_refs(t: &Topology<u32>) -> Result<(), String> {
    let mut uses: Vec<Vec<*const TopoRing<u32>>> = vec![vec![]; t.edges.len()];
    for (i, g) in t.regions.iter().enumerate() {
        for ring in g.outer_rings.iter().chain(g.inner_rings.iter()) {
            if ring.region != g as *const _ { return Err(format!("a ring of region {} refers to another region (or none)", i)); }
            for d in ring.directed_edges.iter() {
                match edge_ix(t, d.edge) {
                    None => return Err(format!("a directed edge of region {} refers to no edge of the topology", i)),
                    Some(e) => uses[e].push(ring as *const _),
                }
            }
        }
    }
    for (e, u) in uses.iter().enumerate() {
        let r = &t.edges[e].rings;
        if u.len() > 2 { return Err(format!("edge {} is used {} times", e, u.len())); }
        for k in 0..2 {
            match u.get(k) {
                Some(&p) => if r[k] != p { return Err(format!("edge {} ({:?}): ring reference {} is not its user number {} ({} uses)", e, t.edges[e].points, k, k, u.len())); },
                None => if !r[k].is_null() { return Err(format!("edge {} ({:?}): ring reference {} is not null, but the edge has {} uses", e, t.edges[e].points, k, u.len())); },
            }
        }
    }
    Ok(())
}

fn wild(c: u64) -> Option<Vec<Rg>> {
    let mut r = Rng::new(c);
    for _ in 0..4 {
        let rs = wild_regions(&mut r, size_of(c));
        if at_most_two_uses(&rs) { note(|| format!("regions {:?}", rs)); return Some(rs); }
    }
    None
}
fn wild_mask(r: &mut Rng, rs: &[Rg]) -> (u64, u32) {
    let all: Vec<P> = rs.iter().flat_map(|g| g.outer.iter().chain(&g.inner).flat_map(|x| x.edges().concat())).collect();
    let k = r.below(4);
    let v = if all.is_empty() { 3 } else { let p = all[r.us(all.len())]; let x = if k < 2 { p.0 } else { p.1 }; if r.chance(1, 3) { x.wrapping_add(1) } else { x } };
    (k, v)
}
/// Polygons with dead ends: a ring that walks some paths there and back again.
fn spiky(c: u64) -> (Vec<Rg>, u64, u32) {
    let mut r = Rng::new(c);
    let mut rs = vec![];
    for i in 0..1 + r.us(3) as u32 {
        let x = 10 * i;
        let mut sq: Vec<P> = vec![(x, 0), (x + 10, 0), (x + 10, 10), (x, 10)];
        let k = r.us(4);
        sq.rotate_left(k);
        let mut es: Vec<Vec<P>> = vec![];
        for j in 0..4 {
            let (a, b) = (sq[j], sq[(j + 1) % 4]);
            if r.chance(1, 2) {
                let mut s = vec![a];
                for _ in 0..1 + r.us(3) { s.push((x + 1 + r.below(9) as u32, 1 + r.below(9) as u32)); }
                let mut t = s.clone(); t.reverse();
                es.push(s); es.push(t);
            }
            es.push(vec![a, b]);
        }
        if r.chance(1, 4) { es = es.into_iter().rev().map(|mut e| { e.reverse(); e }).collect(); }
        rs.push(Rg { data: i, outer: vec![R::Eds(es)], inner: vec![] });
    }
    (rs, r.below(4), r.below(12) as u32)
}
/// Many unit squares in rows, each its own region: 20, 300, 4400, 33000 edges and more.
fn large_map(c: u64) -> Vec<Rg> {
    let (w, h) = [(3, 3), (12, 12), (300, 2), (47, 47), (190, 190), (2, 17_000)][(c % 6) as usize];
    (0..h).flat_map(|y| (0..w).map(move |x| {
        let (a, b) = (10 * x as u32, 10 * y as u32);
        Rg { data: (y * w + x) as u32, outer: vec![R::Pts(vec![(a, b), (a + 10, b), (a + 10, b + 10), (a, b + 10), (a, b)])], inner: vec![] }
    })).collect()
}
fn map(c: u64, self_touch: bool) -> (Map, Rng) {
    let mut r = Rng::new(c);
    let m = planar(&mut r, size_of(c), self_touch);
    note(|| format!("regions {:?}", m.regions));
    (m, r)
}

pub fn c07() -> Vec<Gen> {
    vec![
        Gen { name: "build-wild", count: None, weight: 2, f: |c| match wild(c) { None => Ok(false), Some(rs) => { check_refs(&build(&rs))?; Ok(true) } } },
        Gen { name: "build-map", count: None, weight: 2, f: |c| { let (m, _) = map(c, true); check_refs(&build(&m.regions))?; Ok(true) } },
        Gen { name: "normalize", count: None, weight: 2, f: |c| {
            let (m, _) = map(c, false);
            let t = build(&m.regions);
            let n = normalize(&t);
            check_refs(&n)?;
            let n2 = normalize(&n);
            drop(n); drop(t);
            check_refs(&n2)?;
            Ok(true)
        } },
        Gen { name: "clip", count: None, weight: 4, f: |c| {
            let (m, mut r) = map(c, true);
            let mut t = build(&m.regions);
            for _ in 0..1 + r.us(3) {
                let (k, v) = pick_mask(&mut r, &m);
                note(|| format!("regions {:?}, {}", m.regions, mask_s(k, v)));
                if expected_clip(&t, k, v)?.is_none() { return Ok(false); }
                let out = clip_topology(&t, &mask(k, v));
                check_refs(&out).map_err(|e| format!("after {}: {}", mask_s(k, v), e))?;
                t = out;
            }
            Ok(true)
        } },
        Gen { name: "clip-wild", count: None, weight: 2, f: |c| match wild(c) {
            None => Ok(false),
            Some(rs) => {
                let mut r = Rng::new(c ^ 78);
                let (k, v) = wild_mask(&mut r, &rs);
                note(|| format!("regions {:?}, {}", rs, mask_s(k, v)));
                let t = build(&rs);
                if expected_clip(&t, k, v)?.is_none() { return Ok(false); }
                check_refs(&clip_topology(&t, &mask(k, v))).map_err(|e| format!("after {}: {}", mask_s(k, v), e))?;
                Ok(true)
            }
        } },
        Gen { name: "spikes", count: None, weight: 2, f: |c| {
            let (rs, k, v) = spiky(c);
            if !at_most_two_uses(&rs) { return Ok(false); }
            note(|| format!("regions {:?}, {}", rs, mask_s(k, v)));
            let t = build(&rs);
            check_refs(&t)?;
            if expected_clip(&t, k, v)?.is_none() { return Ok(false); }
            check_refs(&clip_topology(&t, &mask(k, v))).map_err(|e| format!("after {}: {}", mask_s(k, v), e))?;
            Ok(true)
        } },
        Gen { name: "large", count: Some(6), weight: 0, f: |c| {
            let rs = large_map(c);
            note(|| format!("{} squares in rows", rs.len()));
            let t = build(&rs);
            check_refs(&t)?;
            let n = normalize(&t);
            check_refs(&n)?;
            check_refs(&clip_topology(&n, &mask(c, 95)))?;
            check_refs(&clip_topology(&t, &mask(c, 95)))?;
            check_refs(&clip_topology(&n, &mask(c % 2, 5)))?;
            check_refs(&clip_topology(&t, &mask(c % 2, 5)))?;
            Ok(true)
        } },
        // the same through another path of growth: many regions, so that every vector is reallocated
        Gen { name: "many", count: None, weight: 1, f: |c| {
            let mut r = Rng::new(c);
            let n = 1 + r.us(60);
            let rs: Vec<Rg> = (0..n).map(|i| {
                let x = 10 * i as u32;
                let sq = |a: u32| vec![(x, a), (x + 10, a), (x + 10, a + 10), (x, a + 10), (x, a)];
                Rg { data: i as u32, outer: (0..1 + r.us(3)).map(|k| R::Pts(sq(10 * k as u32))).collect(), inner: vec![] }
            }).collect();
            note(|| format!("regions {:?}", rs));
            let t = build(&rs);
            check_refs(&t)?;
            check_refs(&normalize(&t))?;
            let v = r.below(10 * n as u64 + 5) as u32;
            note(|| format!("regions {:?} MinX({})", rs, v));
            if expected_clip(&t, 0, v)?.is_some() { check_refs(&clip_topology(&t, &mask(0, v)))?; }
            Ok(true)
        } },
    ]
}

// ---- C06 -----------------------------------------------------------------------
fn check_build(rs: &[Rg]) -> Outcome {
    let t = build(rs);
    let s = snap(&t)?;
    // stored edges
    let mut seen = HashSet::new();
    let mut used = vec![false; s.edges.len()];
    for (i, e) in s.edges.iter().enumerate() {
        if !seen.insert(e.clone()) { return Err(format!("the path {:?} is stored twice", e)); }
        if zero_length(e) { return Err(format!("zero-length edge {:?} is stored", e)); }
        let (a, b) = (e[0], e[e.len() - 1]);
        if a > b || (a == b && shoelace(e) < 0) { return Err(format!("edge {} runs against its canonical direction: {:?}", i, e)); }
    }
    let want: Vec<(u32, Vec<Vec<Vec<P>>>, Vec<Vec<Vec<P>>>)> = rs.iter().filter_map(|g| {
        let f = |v: &Vec<R>| -> Vec<Vec<Vec<P>>> { v.iter().filter(|r| r.sum() != 0).map(|r| r.edges().into_iter().filter(|e| !zero_length(e)).collect()).collect() };
        let o = f(&g.outer);
        if o.is_empty() { None } else { Some((g.data, o, f(&g.inner))) }
    }).collect();
    if s.regions.len() != want.len() || s.regions.iter().zip(&want).any(|(a, b)| a.data != b.0) {
        return Err(format!("regions are {:?}, should be {:?}", s.regions.iter().map(|g| g.data).collect::<Vec<_>>(), want.iter().map(|g| g.0).collect::<Vec<_>>()));
    }
    for (g, w) in s.regions.iter().zip(&want) {
        for (got, want, what) in [(&g.outer, &w.1, "outer"), (&g.inner, &w.2, "inner")] {
            let p: Vec<Vec<Vec<P>>> = got.iter().map(|r| s.paths(r)).collect();
            if p != *want { return Err(format!("region {}: {} rings walk {:?}, should walk {:?}", g.data, what, p, want)); }
            for r in got { for d in r { used[d.0] = true; } }
        }
    }
    if let Some(i) = used.iter().position(|u| !u) { return Err(format!("stored edge {:?} belongs to no ring", s.edges[i])); }
    Ok(!want.is_empty())
}
/// A ring whose doubled area is 2^(1 + c % 64), turning the other way for odd c / 64.
fn power_ring(c: u64) -> Vec<P> {
    let k = 1 + c % 64;
    let mut v: Vec<P> = match k {
        // 2^31 by 2^32 - 1, and a strip of 1 by 2^31
        64 => vec![(0, 0), (1 << 31, 0), (1 << 31, M >> 1), (1 << 31 | 1, M >> 1), (1 << 31 | 1, M), (0, M)],
        63 => vec![(0, 0), (1 << 31, 0), (1 << 31, 1 << 31), (0, 1 << 31)],
        _ => { let a = k / 2; vec![(0, 0), (1 << a, 0), (0, 1 << (k - a))] }
    };
    let p = v[0]; v.push(p);
    if c / 64 % 2 == 1 { v.reverse(); }
    v
}
fn power_region(c: u64) -> Vec<Rg> {
    let v = power_ring(c);
    vec![Rg { data: 9, outer: vec![if c / 128 % 2 == 0 { R::Pts(v) } else { R::Eds(vec![v]) }], inner: vec![] }]
}
pub fn c06() -> Vec<Gen> {
    vec![
        Gen { name: "power-of-two-area", count: Some(256), weight: 0, f: |c| { let rs = power_region(c); note(|| format!("regions {:?}", rs)); check_build(&rs) } },
        Gen { name: "wild", count: None, weight: 3, f: |c| match wild(c) { None => Ok(false), Some(rs) => check_build(&rs) } },
        Gen { name: "spikes", count: None, weight: 1, f: |c| { let rs = spiky(c).0; if !at_most_two_uses(&rs) { return Ok(false); } note(|| format!("regions {:?}", rs)); check_build(&rs) } },
        Gen { name: "large", count: Some(6), weight: 0, f: |c| { let rs = large_map(c); note(|| format!("{} squares in rows", rs.len())); check_build(&rs) } },
        Gen { name: "large-edges", count: Some(36), weight: 0, f: |c| {
            // a long path shared by two rings, once each way, each ring in three edges
            let mut v = crate::c_geo::large_path(c / 2);
            v.truncate(20_000);
            let (a, z) = (v[0], v[v.len() - 1]);
            let mut back = v.clone(); if c % 2 == 1 { back.reverse(); }
            let (x, y) = (back[0], back[back.len() - 1]);
            let rs = vec![
                Rg { data: 1, outer: vec![R::Eds(vec![v, vec![z, (0, M)], vec![(0, M), a]])], inner: vec![] },
                Rg { data: 2, outer: vec![R::Eds(vec![back, vec![y, (M, M)], vec![(M, M), x]])], inner: vec![] },
            ];
            if !at_most_two_uses(&rs) { return Ok(false); }
            note(|| format!("a path of {} points in two rings", rs[0].outer[0].edges()[0].len()));
            check_build(&rs)
        } },
        Gen { name: "map", count: None, weight: 3, f: |c| { let (m, _) = map(c, true); check_build(&m.regions) } },
        // two triangles over four points, every way round
        Gen { name: "two-rings", count: Some(64 * 64 * 4), weight: 0, f: |c| {
            let q = [(0, 0), (1, 0), (0, 1), (2, 2)];
            let ring = |x: u64| { let mut v: Vec<P> = (0..3).map(|i| q[(x >> (2 * i)) as usize & 3]).collect(); let p = v[0]; v.push(p); v };
            let (a, b) = (ring(c % 64), ring(c / 64 % 64));
            let f = |k: u64, v: Vec<P>| if k == 0 { R::Pts(v) } else { R::Eds(vec![v]) };
            let rs = vec![
                Rg { data: 1, outer: vec![f(c / 4096 % 2, a)], inner: vec![] },
                Rg { data: 2, outer: vec![f(c / 8192 % 2, b)], inner: vec![] },
            ];
            if !at_most_two_uses(&rs) { return Ok(false); }
            note(|| format!("regions {:?}", rs));
            check_build(&rs)
        } },
    ]
}

// ---- C05 -----------------------------------------------------------------------
fn pick_mask(r: &mut Rng, m: &Map) -> (u64, u32) {
    let k = r.below(4);
    let ax = if k < 2 { &m.xs } else { &m.ys };
    let v = match r.below(5) {
        0 => ax[r.us(ax.len())],
        1 if !m.pts.is_empty() => { let p = m.pts[r.us(m.pts.len())]; if k < 2 { p.0 } else { p.1 } }
        2 => ax[r.us(ax.len())].wrapping_add(1),
        3 => r.pick(&[0, 1, M - 1, M]),
        _ => { let (a, b) = (ax[0], ax[ax.len() - 1]); a + r.below((b - a) as u64 + 1) as u32 }
    };
    (k, v)
}
type Rings = Vec<Vec<Vec<P>>>;
/// The clipped rings, from the clipped pieces of each edge; None when some path would be used more than twice.
fn expected_clip(t: &Topology<u32>, k: u64, v: u32) -> Result<Option<Vec<(u32, Rings, Rings)>>, String> {
    let s = snap(t)?;
    let clipped: Vec<Vec<P>> = t.edges.iter().map(|e| un(&clip_edge(&e.points, &mask(k, v)))).collect();
    let mut uses: HashMap<(usize, P, P), u32> = HashMap::new();
    let mut over = false;
    let mut ring = |r: &Vec<(usize, bool)>| -> Option<Vec<Vec<P>>> {
        let mut out: Vec<Vec<P>> = vec![];
        let mut ids: Vec<(usize, P, P)> = vec![];
        let gap = |a: P, b: P, out: &mut Vec<Vec<P>>, ids: &mut Vec<(usize, P, P)>| if a != b { out.push(vec![a, b]); ids.push((usize::MAX, a.min(b), a.max(b))); };
        for &(e, fwd) in r {
            let mut p = clipped[e].clone();
            if p.len() < 2 { continue; }
            if !fwd { p.reverse(); }
            if let Some(l) = out.last() { let a = l[l.len() - 1]; gap(a, p[0], &mut out, &mut ids); }
            out.push(p);
            ids.push((e, (0, 0), (0, 0)));
        }
        if out.is_empty() { return None; }
        let l = &out[out.len() - 1];
        let (a, b) = (l[l.len() - 1], out[0][0]);
        gap(a, b, &mut out, &mut ids);
        for i in &ids { if i.0 == usize::MAX { let n = uses.entry(*i).or_insert(0); *n += 1; if *n > 2 { over = true; } } }
        if out.iter().map(|e| shoelace(e)).sum::<i128>() == 0 { return None; }
        for i in ids { if i.0 != usize::MAX { let n = uses.entry(i).or_insert(0); *n += 1; if *n > 2 { over = true; } } }
        Some(out)
    };
    let mut out = vec![];
    for g in &s.regions {
        let o: Rings = g.outer.iter().filter_map(&mut ring).collect();
        if o.is_empty() { continue; }
        let i: Rings = g.inner.iter().filter_map(&mut ring).collect();
        out.push((g.data, o, i));
    }
    Ok(if over { None } else { Some(out) })
}
fn check_clip(t: &Topology<u32>, k: u64, v: u32) -> Result<Option<Topology<u32>>, String> {
    let want = match expected_clip(t, k, v)? { None => return Ok(None), Some(w) => w };
    let out = clip_topology(t, &mask(k, v));
    let s = snap(&out)?;
    let m = mask_s(k, v);
    for g in &s.regions {
        if g.outer.is_empty() { return Err(format!("{}: region {} is left without outer rings", m, g.data)); }
        for r in g.outer.iter().chain(&g.inner) {
            let p = s.paths(r);
            if !closed_walk(&p) { return Err(format!("{}: region {} has a ring that is not a closed walk: {:?}", m, g.data, p)); }
            if p.iter().map(|e| shoelace(e)).sum::<i128>() == 0 { return Err(format!("{}: region {} has a ring of zero area: {:?}", m, g.data, p)); }
            for e in &p { for q in e { if side(k, v, *q) < 0 { return Err(format!("{}: region {} visits {:?}, which is outside", m, g.data, q)); } } }
        }
    }
    let olds: HashSet<Vec<P>> = t.edges.iter().map(|e| un(&clip_edge(&e.points, &mask(k, v)))).collect();
    for e in &s.edges {
        if !olds.contains(e) && !e.iter().all(|q| side(k, v, *q) == 0) { return Err(format!("{}: edge {:?} is neither what is left of an edge nor along the line", m, e)); }
    }
    // joining edges are stored once per pair of points
    let way = |e: &Vec<P>| { let mut f = e.clone(); f.reverse(); if f < *e { f } else { e.clone() } };
    let mut left: HashMap<Vec<P>, i32> = HashMap::new();
    for e in t.edges.iter() { *left.entry(way(&un(&clip_edge(&e.points, &mask(k, v))))).or_insert(0) += 1; }
    for e in &s.edges {
        if e.len() != 2 || side(k, v, e[0]) != 0 || side(k, v, e[1]) != 0 { continue; }
        let n = left.entry(way(e)).or_insert(0);
        *n -= 1;
        if *n < -1 { return Err(format!("{}: the edge between {:?} and {:?} is stored more than once", m, e[0], e[1])); }
    }
    let got: Vec<(u32, Rings, Rings)> = s.regions.iter().map(|g| (g.data, g.outer.iter().map(|r| s.paths(r)).collect(), g.inner.iter().map(|r| s.paths(r)).collect())).collect();
    if got != want { return Err(format!("{}: regions are {:?}, should be {:?}", m, got, want)); }
    Ok(Some(out))
}
fn clip_map(c: u64, normal: bool) -> Outcome {
    let (m, mut r) = map(c, !normal);
    let mut t = build(&m.regions);
    if normal { t = normalize(&t); }
    let mut hist = String::new();
    for _ in 0..1 + r.us(4) {
        let (k, v) = pick_mask(&mut r, &m);
        hist += &mask_s(k, v); hist += " ";
        note(|| format!("regions {:?}, {} then clipped by {}", m.regions, if normal { "normalized," } else { "" }, hist));
        let before = snap(&t)?;
        let out = check_clip(&t, k, v)?;
        if snap(&t)? != before { return Err("clipping changed its input".into()); }
        match out { None => return Ok(false), Some(o) => t = o }
    }
    Ok(true)
}
pub fn c05() -> Vec<Gen> {
    vec![
        Gen { name: "map", count: None, weight: 4, f: |c| clip_map(c, false) },
        Gen { name: "normal", count: None, weight: 4, f: |c| clip_map(c, true) },
        Gen { name: "wild", count: None, weight: 3, f: |c| match wild(c) {
            None => Ok(false),
            Some(rs) => {
                let mut r = Rng::new(c ^ 77);
                let t = build(&rs);
                let (k, v) = wild_mask(&mut r, &rs);
                note(|| format!("regions {:?}, {}", rs, mask_s(k, v)));
                Ok(check_clip(&t, k, v)?.is_some())
            }
        } },
        Gen { name: "power-of-two-area", count: Some(256 * 4), weight: 0, f: |c| {
            let (k, rs) = (c % 4, power_region(c / 4));
            let v = if k % 2 == 0 { 0 } else { M };
            note(|| format!("regions {:?}, {}", rs, mask_s(k, v)));
            Ok(check_clip(&build(&rs), k, v)?.is_some())
        } },
        Gen { name: "spikes", count: None, weight: 1, f: |c| {
            let (rs, k, v) = spiky(c);
            if !at_most_two_uses(&rs) { return Ok(false); }
            note(|| format!("regions {:?}, {}", rs, mask_s(k, v)));
            Ok(check_clip(&build(&rs), k, v)?.is_some())
        } },
        Gen { name: "large", count: Some(24), weight: 0, f: |c| {
            let rs = large_map(c / 4);
            let m = if c % 4 < 2 { 5 } else { 95 };
            note(|| format!("{} squares in rows, {}", rs.len(), mask_s(c % 4, m)));
            Ok(check_clip(&build(&rs), c % 4, m)?.is_some())
        } },
        // one ring over a 3x3 grid around the line, cut in every way
        Gen { name: "small", count: Some(4 * 6561 * 4), weight: 0, f: |c| {
            let k = c % 4; let cuts = c / 4 % 4; let mut c = c / 16;
            let mut v: Vec<P> = (0..4).map(|_| { let p = ((c % 3) as u32, (c / 3 % 3) as u32); c /= 9; p }).collect();
            let p = v[0]; v.push(p);
            let ring = match cuts { 0 => R::Pts(v), 1 => R::Eds(vec![v]), 2 => R::Eds(cut(&v, |i| i == 2)), _ => R::Eds(cut(&v, |i| i != 2)) };
            let rs = vec![Rg { data: 5, outer: vec![ring], inner: vec![] }];
            if !at_most_two_uses(&rs) { return Ok(false); }
            note(|| format!("regions {:?}, {}", rs, mask_s(k, 1)));
            Ok(check_clip(&build(&rs), k, 1)?.is_some())
        } },
    ]
}

// ---- C10 / C11 -------------------------------------------------------------------
fn region_of_edge(s: &Snap) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]; s.edges.len()];
    for (i, g) in s.regions.iter().enumerate() { for r in g.outer.iter().chain(&g.inner) { for d in r { v[d.0].push(i); } } }
    v
}
/// For each region's data and segment: the regions that use the input edge it lies on.
fn input_sides(s: &Snap) -> HashMap<(u32, P, P), Vec<usize>> {
    let regs = region_of_edge(s);
    let mut m = HashMap::new();
    for g in &s.regions { for r in g.outer.iter().chain(&g.inner) { for d in r {
        let mut k = regs[d.0].clone(); k.sort();
        for w in s.edges[d.0].windows(2) { m.insert((g.data, w[0].min(w[1]), w[0].max(w[1])), k.clone()); }
    } } }
    m
}
fn check_canonical(t: &Topology<u32>, n: &Topology<u32>) -> Outcome {
    let s = snap(n)?;
    let sides = input_sides(&snap(t)?);
    for g in &s.regions {
        for (rings, cw) in [(&g.outer, true), (&g.inner, false)] {
            let mut firsts = vec![];
            for r in rings {
                let p = s.paths(r);
                if p.is_empty() { return Err(format!("region {} has a ring without edges", g.data)); }
                let a: i128 = p.iter().map(|e| shoelace(e)).sum();
                if (a > 0) != cw || a == 0 { return Err(format!("region {}: {} ring {:?} is wound the wrong way (signed doubled area {})", g.data, if cw { "outer" } else { "inner" }, p, a)); }
                let smallest = if p.len() == 1 { *p[0].iter().min().unwrap() } else { p.iter().map(|e| e[0]).min().unwrap() };
                if p[0][0] != smallest { return Err(format!("region {}: ring {:?} starts at {:?}, its smallest node is {:?}", g.data, p, p[0][0], smallest)); }
                firsts.push(p[0][0]);
                let key = |w: &[P]| sides.get(&(g.data, w[0].min(w[1]), w[0].max(w[1])));
                let mut keys = vec![];
                for e in &p {
                    for w in e.windows(2) { if let Some(k) = key(w) { if k.len() == 2 && k[0] == k[1] { return Err(format!("region {}: edge {:?} had the region on both sides", g.data, e)); } } }
                    if e.len() > 1 { keys.push((key(&e[e.len() - 2..]), key(&e[..2]))); }
                }
                if keys.len() == p.len() && p.len() > 1 { for i in 0..p.len() {
                    let j = (i + 1) % p.len();
                    if let (Some(x), Some(y)) = (keys[i].0, keys[j].1) { if x == y { return Err(format!("region {}: consecutive edges {:?} and {:?} had the same regions on their sides", g.data, p[i], p[j])); } }
                } }
            }
            if firsts.windows(2).any(|w| w[0] > w[1]) { return Err(format!("region {}: rings start at {:?}, which is not in order", g.data, firsts)); }
        }
    }
    Ok(true)
}
/// C17: neighbours share their borders.
fn check_shared(n: &Topology<u32>) -> Outcome {
    let s = snap(n)?;
    let regs = region_of_edge(&s);
    let mut at: HashMap<(P, P), usize> = HashMap::new();
    for (e, p) in s.edges.iter().enumerate() { for w in p.windows(2) {
        let k = (w[0].min(w[1]), w[0].max(w[1]));
        if k.0 == k.1 { continue; }
        if let Some(o) = at.insert(k, e) { return Err(format!("segment {:?} lies on edge {:?} and on edge {:?}", k, s.edges[o], p)); }
    } }
    let mut uses: Vec<Vec<(usize, bool)>> = vec![vec![]; s.edges.len()];
    for (i, g) in s.regions.iter().enumerate() { for r in g.outer.iter().chain(&g.inner) { for d in r { uses[d.0].push((i, d.1)); } } }
    for (e, u) in uses.iter().enumerate() { if u.len() == 2 {
        if u[0].0 == u[1].0 { return Err(format!("edge {:?} is used twice by region {}", s.edges[e], s.regions[u[0].0].data)); }
        if u[0].1 == u[1].1 { return Err(format!("edge {:?} is used in the same direction by regions {} and {}", s.edges[e], s.regions[u[0].0].data, s.regions[u[1].0].data)); }
    } }
    for g in &s.regions { for r in g.outer.iter().chain(&g.inner) {
        let mut keys: Vec<Vec<usize>> = r.iter().map(|d| regs[d.0].clone()).collect();
        for k in keys.iter_mut() { k.sort(); }
        for i in 0..keys.len() { let j = (i + 1) % keys.len(); if i != j && keys[i] == keys[j] { return Err(format!("region {}: consecutive edges {:?} and {:?} border the same regions", g.data, s.edges[r[i].0], s.edges[r[j].0])); } }
    } }
    Ok(!s.regions.is_empty())
}
type Segs = BTreeMap<(P, P), i64>;
/// Directed segments of a region, outer rings clockwise and inner ones counter-clockwise; opposite ones cancel out.
fn segments(s: &Snap, g: &SnapRegion) -> Segs {
    let mut m = Segs::new();
    for (rings, cw) in [(&g.outer, true), (&g.inner, false)] {
        for r in rings {
            let p = s.paths(r);
            let a: i128 = p.iter().map(|e| shoelace(e)).sum();
            let flip = (a > 0) != cw;
            for e in &p { for w in e.windows(2) {
                let (a, b) = if flip { (w[1], w[0]) } else { (w[0], w[1]) };
                if a == b { continue; }
                if let Some(n) = m.get_mut(&(b, a)) { *n -= 1; if *n == 0 { m.remove(&(b, a)); } }
                else { *m.entry((a, b)).or_insert(0) += 1; }
            } }
        }
    }
    m
}
fn area(m: &Segs) -> i128 { m.iter().map(|(&(a, b), n)| shoelace(&[a, b]) * *n as i128).sum() }
fn check_preserved(t: &Topology<u32>, n: &Topology<u32>) -> Outcome {
    let (a, b) = (snap(t)?, snap(n)?);
    if a.regions.iter().map(|g| g.data).ne(b.regions.iter().map(|g| g.data)) {
        return Err(format!("regions were {:?}, are {:?}", a.regions.iter().map(|g| g.data).collect::<Vec<_>>(), b.regions.iter().map(|g| g.data).collect::<Vec<_>>()));
    }
    for (g, h) in a.regions.iter().zip(&b.regions) {
        let (x, y) = (segments(&a, g), segments(&b, h));
        if x != y {
            let lost: Vec<_> = x.iter().filter(|(k, v)| y.get(k) != Some(v)).take(4).collect();
            let new: Vec<_> = y.iter().filter(|(k, v)| x.get(k) != Some(v)).take(4).collect();
            return Err(format!("region {}: boundary segments lost {:?}, invented {:?} (net doubled area {} -> {})", g.data, lost, new, area(&x), area(&y)));
        }
        let total: i64 = y.values().sum();
        let count: usize = h.outer.iter().chain(&h.inner).flat_map(|r| b.paths(r)).map(|e| e.windows(2).filter(|w| w[0] != w[1]).count()).sum();
        if count as i64 != total { return Err(format!("region {}: the output walks {} segments, but {} after cancelling opposite ones", g.data, count, total)); }
        for r in h.outer.iter().chain(&h.inner) {
            if !closed_walk(&b.paths(r)) { return Err(format!("region {}: ring {:?} is not a closed walk", g.data, b.paths(r))); }
        }
    }
    let old: HashSet<P> = a.edges.iter().flatten().cloned().collect();
    for e in &b.edges { for p in e { if !old.contains(p) { return Err(format!("{:?} is not a point of the input", p)); } } }
    Ok(!a.regions.is_empty())
}
fn norm_case(c: u64, f: fn(&Topology<u32>, &Topology<u32>) -> Outcome) -> Outcome {
    let (m, _) = map(c, false);
    let t = build(&m.regions);
    let before = snap(&t)?;
    let n = normalize(&t);
    if snap(&t)? != before { return Err("normalizing changed its input".into()); }
    f(&t, &n)?;
    let n2 = normalize(&n);
    f(&n, &n2)?;
    Ok(before.regions.len() > 0)
}
/// Every assignment of the cells of a 3x2 grid (or 2x3) to two regions and nothing, drawn as single cells or merged.
fn grid_case(c: u64, touching: bool, f: fn(&Topology<u32>, &Topology<u32>) -> Outcome) -> Outcome {
    // at the origin, or as far away as can be
    let (ox, oy) = [(0, 0), (M - 3, M - 3), (0, M - 3), (0, 0)][(c.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 62) as usize];
    let mode = c % 4; let mut c = c / 4;
    let (w, h) = (3usize, 3usize);
    let cell: Vec<i32> = (0..9).map(|_| { let v = (c % 3) as i32 - 1; c /= 3; v }).collect();
    let get = |x: i64, y: i64| if x < 0 || y < 0 || x >= 3 || y >= 3 { -1 } else { cell[(y * 3 + x) as usize] };
    let mut touch = false;
    for y in 0..=3i64 { for x in 0..=3i64 {
        let (a, b, c, d) = (get(x - 1, y - 1), get(x, y - 1), get(x, y), get(x - 1, y));
        if (a >= 0 && a == c && b != a && d != a) || (b >= 0 && b == d && a != b && c != b) { touch = true; }
    } }
    let mut rs: Vec<Rg> = (0..2).map(|i| Rg { data: i + 1, outer: vec![], inner: vec![] }).collect();
    let quad = |x: usize, y: usize, x2: usize, y2: usize| -> Vec<P> {
        let mut v = vec![];
        for i in x..x2 { v.push((ox + i as u32, oy + y as u32)); }
        for j in y..y2 { v.push((ox + x2 as u32, oy + j as u32)); }
        for i in (x + 1..=x2).rev() { v.push((ox + i as u32, oy + y2 as u32)); }
        for j in (y + 1..=y2).rev() { v.push((ox + x as u32, oy + j as u32)); }
        let p = v[0]; v.push(p); v
    };
    let mut done = vec![false; 9];
    for y in 0..h { for x in 0..w {
        let c = get(x as i64, y as i64);
        if c < 0 || done[y * 3 + x] { continue; }
        // a bar of equal cells: none, to the right, down, or the right way round the other direction
        let mut x2 = x + 1; let mut y2 = y + 1;
        if mode == 1 || mode == 3 { while x2 < w && get(x2 as i64, y as i64) == c && !done[y * 3 + x2] { x2 += 1; } }
        if mode == 2 { while y2 < h && get(x as i64, y2 as i64) == c && !done[y2 * 3 + x] { y2 += 1; } }
        for j in y..y2 { for i in x..x2 { done[j * 3 + i] = true; } }
        let mut v = quad(x, y, x2, y2);
        if mode == 3 && (x + y) % 2 == 1 { v.reverse(); }
        rs[c as usize].outer.push(R::Pts(v));
    } }
    note(|| format!("regions {:?}", rs));
    let t = build(&rs);
    if touch {
        if !touching { return Ok(false); }
        // a region that touches itself at a point may be refused with a panic, but what is returned counts
        return match panic::catch_unwind(panic::AssertUnwindSafe(|| normalize(&t))) { Ok(n) => f(&t, &n), Err(_) => Ok(false) };
    }
    let n = normalize(&t);
    f(&t, &n)
}
/// Blocks of squares: every region is given cell by cell, and is one square (with a hole in some) when normalized.
fn large_norm(c: u64, f: fn(&Topology<u32>, &Topology<u32>) -> Outcome) -> Outcome {
    if c >= 10 {
        // two neighbours and a third below them, with a long border between the first two
        let n = [20u32, 300, 1_100, 5_000, 33_000, 70_000][(c - 10) as usize % 6];
        let far = if c % 2 == 0 { 0 } else { M - n - 20 };
        let zig: Vec<P> = (0..=n).map(|y| (far + 10 + y % 2, far + y)).collect();
        let mut left = vec![(far, far)]; left.extend(&zig); left.push((far, far + n)); left.push((far, far));
        let mut right = vec![(far + 20, far + n)]; right.extend(zig.iter().rev()); right.push((far + 20, far)); right.push((far + 20, far + n));
        let e = zig[n as usize];
        let below = vec![(far, far + n), e, (far + 20, far + n), (far + 20, far + n + 9), (far, far + n + 9), (far, far + n)];
        let rs: Vec<Rg> = [left, right, below].iter().enumerate().map(|(i, v)| Rg { data: i as u32, outer: vec![R::Pts(v.clone())], inner: vec![] }).collect();
        note(|| format!("two regions with a border of {} points, and one below, at {}", n + 1, far));
        let t = build(&rs);
        let n = normalize(&t);
        return f(&t, &n);
    }
    let (w, b) = [(6u32, 3u32), (24, 4), (40, 20), (120, 5), (100, 100)][(c / 2 % 5) as usize];
    let k = w / b;
    let mut rs: Vec<Rg> = (0..k * k).map(|i| Rg { data: i + 1, outer: vec![], inner: vec![] }).collect();
    for y in 0..w { for x in 0..w {
        if c % 2 == 1 && b > 2 && (x % b == 1 && y % b == 1) { continue; }
        rs[(y / b * k + x / b) as usize].outer.push(R::Pts(vec![(x, y), (x + 1, y), (x + 1, y + 1), (x, y + 1), (x, y)]));
    } }
    note(|| format!("{} regions of {} x {} squares{}", k * k, b, b, if c % 2 == 1 { " but one" } else { "" }));
    let t = build(&rs);
    let n = normalize(&t);
    f(&t, &n)
}
/// Squares in a row whose rings also walk dead ends, or a seam to a hole, there and back again.
fn seams(c: u64, f: fn(&Topology<u32>, &Topology<u32>) -> Outcome) -> Outcome {
    let mut r = Rng::new(c);
    let mut rs = vec![];
    let n = 1 + r.us(3) as u32;
    for i in 0..n {
        let x = 30 * i;
        let mut sq: Vec<(P, P)> = vec![((x, 0), (x + 8, 8)), ((x + 30, 0), (x + 22, 8)), ((x + 30, 30), (x + 22, 22)), ((x, 30), (x + 8, 22))];
        if r.chance(1, 2) { let k = r.us(4); sq.rotate_left(k); }
        let seam = if r.chance(1, 2) { r.us(4) } else { 9 };
        let mut es: Vec<Vec<P>> = vec![];
        for j in 0..4 {
            let ((a, q), (b, _)) = (sq[j], sq[(j + 1) % 4]);
            if j == seam || r.chance(1, 3) {
                let mut s = vec![a];
                if r.chance(1, 2) { s.push(((a.0 + q.0) / 2, (a.1 + q.1) / 2)); }
                s.push(q);
                let mut t = s.clone(); t.reverse();
                let cuts = r.next();
                es.extend(cut(&s, |i| cuts >> i & 1 == 1));
                if j == seam { let mut h: Vec<P> = (0..4).map(|k| { let c = sq[(j + 4 - k) % 4].1; c }).collect(); h.push(q); let cuts = r.next(); es.extend(cut(&h, |i| cuts >> i & 1 == 1)); }
                es.extend(cut(&t, |i| cuts >> (s.len() - 1 - i) & 1 == 1));
            }
            es.push(vec![a, b]);
        }
        if r.chance(1, 4) { es = es.into_iter().rev().map(|mut e| { e.reverse(); e }).collect(); }
        let k = r.us(es.len());
        if r.chance(1, 2) { es.rotate_left(k); }
        if i > 0 && r.chance(1, 3) { let g: &mut Rg = rs.last_mut().unwrap(); g.outer.push(R::Eds(es)); } else { rs.push(Rg { data: i, outer: vec![R::Eds(es)], inner: vec![] }); }
    }
    if !at_most_two_uses(&rs) { return Ok(false); }
    note(|| format!("regions {:?}", rs));
    let t = build(&rs);
    let n = normalize(&t);
    f(&t, &n)
}
pub fn c10() -> Vec<Gen> {
    vec![
        Gen { name: "seams", count: None, weight: 1, f: |c| seams(c, check_canonical) },
        Gen { name: "large", count: Some(22), weight: 0, f: |c| large_norm(c, check_canonical) },
        Gen { name: "grid", count: Some(4 * 19683), weight: 0, f: |c| grid_case(c, true, check_canonical) },
        Gen { name: "map", count: None, weight: 1, f: |c| norm_case(c, check_canonical) },
    ]
}
pub fn c11() -> Vec<Gen> {
    vec![
        Gen { name: "seams", count: None, weight: 1, f: |c| seams(c, check_preserved) },
        Gen { name: "large", count: Some(22), weight: 0, f: |c| large_norm(c, check_preserved) },
        Gen { name: "grid", count: Some(4 * 19683), weight: 0, f: |c| grid_case(c, true, check_preserved) },
        Gen { name: "map", count: None, weight: 1, f: |c| norm_case(c, check_preserved) },
    ]
}
pub fn c17() -> Vec<Gen> {
    vec![
        Gen { name: "seams", count: None, weight: 1, f: |c| seams(c, |_, n| check_shared(n)) },
        Gen { name: "large", count: Some(22), weight: 0, f: |c| large_norm(c, |_, n| check_shared(n)) },
        Gen { name: "grid", count: Some(4 * 19683), weight: 0, f: |c| grid_case(c, false, |_, n| check_shared(n)) },
        Gen { name: "map", count: None, weight: 1, f: |c| norm_case(c, |_, n| check_shared(n)) },
    ]
}
