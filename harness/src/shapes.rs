//! Generators of rings, paths and planar maps.
use crate::rng::Rng;
use std::collections::{BTreeMap, HashMap, HashSet};
use topogeo::geo::{Edge, Point, Region, Ring};

pub const M: u32 = u32::MAX;
pub type P = (u32, u32);
pub fn pt(p: P) -> Point { Point(p.0, p.1) }
pub fn bx(v: &[P]) -> Box<[Point]> { v.iter().map(|&p| pt(p)).collect::<Vec<_>>().into_boxed_slice() }
pub fn un(v: &[Point]) -> Vec<P> { v.iter().map(|p| (p.0, p.1)).collect() }

/// The exact shoelace sum of an open or closed path.
pub fn shoelace(v: &[P]) -> i128 {
    v.windows(2).map(|w| w[0].0 as i128 * w[1].1 as i128 - w[1].0 as i128 * w[0].1 as i128).sum()
}

pub fn coord(r: &mut Rng, mode: u64) -> u32 {
    match mode {
        0 => r.below(3) as u32,
        1 => r.below(7) as u32,
        2 => r.below(40) as u32,
        3 => r.pick(&[0, 1, 2, M - 2, M - 1, M, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, 65535, 65536]),
        4 => r.next() as u32,
        5 => { let b = r.pick(&[0u32, 1 << 16, 1 << 31, M - 9]); b + r.below(9) as u32 }
        _ => (r.next() as u32) >> r.below(32),
    }
}
pub fn point(r: &mut Rng, mode: u64) -> P { (coord(r, mode), coord(r, mode)) }
/// n points, with a few repeats of earlier ones
pub fn path(r: &mut Rng, n: usize, mode: u64) -> Vec<P> {
    let mut v: Vec<P> = vec![];
    for _ in 0..n {
        if !v.is_empty() && r.chance(1, 8) { let q = v[r.us(v.len())]; v.push(q) }
        else if !v.is_empty() && r.chance(1, 6) { let q = v[v.len() - 1]; v.push(if r.chance(1, 2) { (q.0, coord(r, mode)) } else { (coord(r, mode), q.1) }) }
        else { v.push(point(r, mode)) }
    }
    v
}
pub fn closed(r: &mut Rng, n: usize, mode: u64) -> Vec<P> {
    let mut v = path(r, n.max(1), mode);
    let p = v[0];
    v.push(p);
    v
}
/// Cut a path into consecutive edges that share their joints; `cuts[i]`: cut at point i.
pub fn cut(v: &[P], cuts: impl Fn(usize) -> bool) -> Vec<Vec<P>> {
    let mut out = vec![];
    let mut cur: Vec<P> = vec![];
    for (i, &p) in v.iter().enumerate() {
        cur.push(p);
        if i > 0 && i + 1 < v.len() && cuts(i) { out.push(std::mem::replace(&mut cur, vec![p])); }
    }
    out.push(cur);
    out
}
pub fn ring_points(v: &[P]) -> Ring { Ring::Points(bx(v)) }
pub fn ring_edges(v: &[Vec<P>]) -> Ring { Ring::Edges(v.iter().map(|e| Edge(bx(e))).collect::<Vec<_>>().into_boxed_slice()) }

/// The description of a ring, independent of topogeo's types.
#[derive(Clone, Debug)]
pub enum R { Pts(Vec<P>), Eds(Vec<Vec<P>>) }
impl R {
    pub fn ring(&self) -> Ring { match self { R::Pts(v) => ring_points(v), R::Eds(e) => ring_edges(e) } }
    pub fn edges(&self) -> Vec<Vec<P>> { match self { R::Pts(v) => v.windows(2).map(|w| w.to_vec()).collect(), R::Eds(e) => e.clone() } }
    pub fn sum(&self) -> i128 { match self { R::Pts(v) => shoelace(v), R::Eds(e) => e.iter().map(|e| shoelace(e)).sum() } }
}
#[derive(Clone, Debug)]
pub struct Rg { pub data: u32, pub outer: Vec<R>, pub inner: Vec<R> }
impl Rg {
    pub fn region(&self) -> Region<u32> {
        Region {
            data: self.data,
            outer_rings: self.outer.iter().map(|r| r.ring()).collect::<Vec<_>>().into_boxed_slice(),
            inner_rings: self.inner.iter().map(|r| r.ring()).collect::<Vec<_>>().into_boxed_slice(),
        }
    }
}
pub fn zero_length(e: &[P]) -> bool { e.len() < 2 || (e.len() == 2 && e[0] == e[1]) }
/// The stored form of an edge's path, and whether it is walked forward.
pub fn canon(e: &[P]) -> (Vec<P>, bool) {
    let (a, b) = (e[0], e[e.len() - 1]);
    if a < b || (a == b && shoelace(e) >= 0) { (e.to_vec(), true) } else { (e.iter().rev().cloned().collect(), false) }
}
/// No path is used more than twice by the rings that are kept: only then can every use be recorded.
pub fn at_most_two_uses(rs: &[Rg]) -> bool {
    let mut uses: HashMap<Vec<P>, u32> = HashMap::new();
    for g in rs {
        let outer: Vec<&R> = g.outer.iter().filter(|r| r.sum() != 0).collect();
        if outer.is_empty() { continue; }
        for r in outer.into_iter().chain(g.inner.iter().filter(|r| r.sum() != 0)) {
            for e in r.edges() {
                if zero_length(&e) { continue; }
                let n = uses.entry(canon(&e).0).or_insert(0);
                *n += 1;
                if *n > 2 { return false; }
            }
        }
    }
    true
}

/// Arbitrary (not planar) regions.
pub fn wild_regions(r: &mut Rng, size: usize) -> Vec<Rg> {
    let mode = r.below(7);
    let nr = 1 + r.us(1 + size / 3);
    let mut pool: Vec<Vec<P>> = vec![];
    (0..nr).map(|i| {
        let mut rings = |r: &mut Rng, max: usize| -> Vec<R> {
            (0..r.us(max + 1)).map(|_| {
                let k = 2 + r.us(2 + size);
                let v = if !pool.is_empty() && r.chance(1, 3) {
                    // the same ring again, perhaps the other way round
                    let mut v = pool[r.us(pool.len())].clone();
                    if r.chance(1, 2) { v.reverse(); }
                    v
                } else { closed(r, k, mode) };
                pool.push(v.clone());
                match r.below(4) {
                    0 => R::Pts(v),
                    1 => R::Eds(vec![v]),
                    2 => { let s = r.next(); R::Eds(cut(&v, |i| (s >> (i % 64)) & 1 == 1)) }
                    _ => {
                        let s = r.next();
                        let mut e = cut(&v, |i| (s >> (i % 64)) & 1 == 1);
                        if r.chance(1, 3) { let k = r.us(e.len()); let p = e[k][0]; e.insert(k, if r.chance(1, 2) { vec![p, p] } else { vec![p] }); }
                        R::Eds(e)
                    }
                }
            }).collect()
        };
        let outer = rings(r, 3);
        let inner = rings(r, 2);
        Rg { data: i as u32 * 7 + 1, outer, inner }
    }).collect()
}

/// A planar map: grid cells given to regions, jittered, with wiggly sides, each region drawn as one ring per cell, as one
/// outline per connected part, or as something in between.
pub struct Map { pub regions: Vec<Rg>, pub xs: Vec<u32>, pub ys: Vec<u32>, pub pts: Vec<P> }

pub fn planar(r: &mut Rng, size: usize, self_touch: bool) -> Map {
    let w = 1 + r.us(1 + size.min(5));
    let h = 1 + r.us(1 + size.min(5));
    let nreg = 1 + r.us(1 + size.min(5));
    let at = |x: usize, y: usize| y * w + x;
    // cells
    let mut cell = vec![-1i32; w * h];
    let copy = r.below(4);
    let hole = if r.chance(1, 2) { r.below(5) } else { 0 };
    for y in 0..h { for x in 0..w {
        let c = if x > 0 && r.below(4) < copy { cell[at(x - 1, y)] } else if y > 0 && r.below(4) < copy { cell[at(x, y - 1)] } else if r.below(10) < hole { -1 } else { r.us(nreg) as i32 };
        cell[at(x, y)] = c;
    } }
    if w >= 3 && h >= 3 && r.chance(1, 3) {
        // a donut
        let (a, b) = (r.us(nreg) as i32, if r.chance(1, 2) { -1 } else { r.us(nreg) as i32 });
        let (x0, y0) = (r.us(w - 2), r.us(h - 2));
        for y in y0..y0 + 3 { for x in x0..x0 + 3 { cell[at(x, y)] = a; } }
        cell[at(x0 + 1, y0 + 1)] = b;
    }
    if !self_touch {
        // no region may touch itself at an isolated point
        let get = |c: &Vec<i32>, x: i64, y: i64| if x < 0 || y < 0 || x >= w as i64 || y >= h as i64 { -1 } else { c[y as usize * w + x as usize] };
        let mut rounds = 0;
        loop {
            let mut bad = false;
            for y in 0..=h as i64 { for x in 0..=w as i64 {
                let (a, b, c, d) = (get(&cell, x - 1, y - 1), get(&cell, x, y - 1), get(&cell, x, y), get(&cell, x - 1, y));
                if a >= 0 && a == c && b != a && d != a { bad = true; cell[at(x as usize, y as usize - 1)] = a; }
                else if b >= 0 && b == d && a != b && c != b { bad = true; cell[at(x as usize, y as usize)] = b; }
            } }
            if !bad { break; }
            rounds += 1;
            if rounds > 50 { for c in cell.iter_mut() { *c = 0; } break; }
        }
    }
    // coordinates
    let scale = r.below(7);
    let axis = |r: &mut Rng, n: usize| -> Vec<u32> {
        match scale {
            0 => { let o = r.below(3) as u32; (0..=n as u32).map(|i| o + i).collect() }
            1 => { let o = r.below(3) as u32; (0..=n as u32).map(|i| o + 2 * i).collect() }
            2 => { let mut v = vec![r.below(1000) as u32]; for _ in 0..n { let l = v[v.len() - 1]; v.push(l + 64 + r.below(900) as u32); } v }
            3 => { // whole u32 square
                let mut s: HashSet<u32> = HashSet::new(); s.insert(0); s.insert(M);
                while s.len() < n + 1 { s.insert((r.below(1 << 20) as u32) << 12); }
                let mut v: Vec<u32> = s.into_iter().collect(); v.sort(); v.truncate(n + 1); let k = v.len() - 1; v[k] = M; v }
            4 => { let b = M - 4000; (0..=n as u32).map(|i| b + i * (4000 / (n as u32))).collect() }
            5 => { let b = M - n as u32; (0..=n as u32).map(|i| b + i).collect() } // tiny and far away
            _ => { let s = 1 + r.below(3) as u32; let b = r.below((M - s * n as u32) as u64) as u32; (0..=n as u32).map(|i| b + s * i).collect() }
        }
    };
    let (xs, ys) = (axis(r, w), axis(r, h));
    let gap = xs.windows(2).chain(ys.windows(2)).map(|v| v[1] - v[0]).min().unwrap_or(1);
    let jit = if gap >= 64 && r.chance(2, 3) { (gap / 8) as i64 } else { 0 };
    let wig = if gap >= 64 && r.chance(1, 2) { (gap / 16) as i64 } else { 0 };
    let clampu = |v: i64| v.max(0).min(M as i64) as u32;
    let mut vert: Vec<P> = vec![];
    for y in 0..=h { for x in 0..=w {
        let (jx, jy) = if jit > 0 { (r.range(-jit, jit), r.range(-jit, jit)) } else { (0, 0) };
        vert.push((clampu(xs[x] as i64 + jx), clampu(ys[y] as i64 + jy)));
    } }
    let vid = |x: usize, y: usize| y * (w + 1) + x;
    // interior points of each side, in the direction from the smaller to the larger vertex id
    let mut mids: HashMap<(usize, usize), Vec<P>> = HashMap::new();
    let density = r.below(4);
    for y in 0..=h { for x in 0..=w {
        for (x2, y2) in [(x + 1, y), (x, y + 1)] {
            if x2 > w || y2 > h { continue; }
            let (a, b) = (vert[vid(x, y)], vert[vid(x2, y2)]);
            let mut m = vec![];
            if r.below(4) < density {
                let len = (b.0 as i64 - a.0 as i64).abs().max((b.1 as i64 - a.1 as i64).abs());
                if gap >= 64 {
                    let k = 1 + r.us(3);
                    for i in 1..=k {
                        let t = |u: u32, v: u32| u as i64 + (v as i64 - u as i64) * (i as i64 * 60 / k as i64 + 20) / 100;
                        let (ox, oy) = if wig > 0 { (r.range(-wig, wig), r.range(-wig, wig)) } else { (0, 0) };
                        m.push((clampu(t(a.0, b.0) + if x2 == x { ox } else { 0 }), clampu(t(a.1, b.1) + if y2 == y { oy } else { 0 })));
                    }
                } else if len >= 2 && jit == 0 {
                    m.push((((a.0 as u64 + b.0 as u64) / 2) as u32, ((a.1 as u64 + b.1 as u64) / 2) as u32));
                }
                m.dedup();
            }
            mids.insert((vid(x, y), vid(x2, y2)), m);
        }
    } }
    // chunks: each becomes an outline of its own
    let mut group: Vec<usize> = (0..w * h).collect();
    fn root(g: &mut Vec<usize>, mut i: usize) -> usize { while g[i] != i { g[i] = g[g[i]]; i = g[i]; } i }
    let merge: Vec<u64> = (0..nreg).map(|_| r.pick(&[0, 0, 5, 8, 10, 10])).collect();
    for y in 0..h { for x in 0..w {
        let c = cell[at(x, y)];
        if c < 0 { continue; }
        for (x2, y2) in [(x + 1, y), (x, y + 1)] {
            if x2 < w && y2 < h && cell[at(x2, y2)] == c && r.below(10) < merge[c as usize] {
                let (a, b) = (root(&mut group, at(x, y)), root(&mut group, at(x2, y2)));
                group[a] = b;
            }
        }
    } }
    let gid: Vec<usize> = (0..w * h).map(|i| root(&mut group, i)).collect();
    // directed unit sides of each chunk, clockwise
    let mut loops: Vec<(i32, usize, Vec<usize>)> = vec![]; // region, chunk, vertices (closed)
    let mut degree: HashMap<usize, HashSet<usize>> = HashMap::new();
    let mut chunks: Vec<usize> = gid.iter().cloned().filter(|&g| cell[g] >= 0).collect();
    chunks.sort(); chunks.dedup();
    for &g in &chunks {
        let mut out: BTreeMap<usize, Vec<(usize, usize)>> = BTreeMap::new(); // from -> (to, cell)
        for y in 0..h { for x in 0..w {
            if gid[at(x, y)] != g { continue; }
            let same = |dx: i64, dy: i64| { let (a, b) = (x as i64 + dx, y as i64 + dy); a >= 0 && b >= 0 && a < w as i64 && b < h as i64 && gid[b as usize * w + a as usize] == g };
            let c = [vid(x, y), vid(x + 1, y), vid(x + 1, y + 1), vid(x, y + 1)];
            for (k, d) in [(0, (0, -1)), (1, (1, 0)), (2, (0, 1)), (3, (-1, 0))] {
                if !same(d.0, d.1) {
                    let (a, b) = (c[k], c[(k + 1) % 4]);
                    out.entry(a).or_default().push((b, at(x, y)));
                    degree.entry(a).or_default().insert(b);
                    degree.entry(b).or_default().insert(a);
                }
            }
        } }
        while let Some((&s, _)) = out.iter().next() {
            let mut v = vec![s];
            let mut cur = s;
            let mut cur_cell = usize::MAX;
            loop {
                let e = out.get_mut(&cur).unwrap();
                // where a chunk touches itself, stay with the same cell
                let k = e.iter().position(|x| x.1 == cur_cell).unwrap_or(0);
                let (to, c) = e.remove(k);
                if e.is_empty() { out.remove(&cur); }
                cur_cell = c;
                cur = to;
                v.push(cur);
                if cur == s { break; }
            }
            loops.push((cell[g], g, v));
        }
    }
    // nodes: every vertex where three or more sides meet, and some others
    let extra = r.below(5);
    let salt = r.next();
    let hash = |p: P| { let mut q = Rng::new(salt ^ ((p.0 as u64) << 32 | p.1 as u64)); q.next() };
    let mut node: HashSet<P> = HashSet::new();
    for (v, d) in &degree { if d.len() != 2 || hash(vert[*v]) % 4 < extra { node.insert(vert[*v]); } }
    for m in mids.values() { for p in m { if hash(*p) % 4 < extra { node.insert(*p); } } }
    // rings
    let mut regs: Vec<Rg> = (0..nreg).map(|i| Rg { data: 100 + i as u32, outer: vec![], inner: vec![] }).collect();
    let mut pts = vec![];
    for (c, _, v) in &loops {
        let lat: Vec<P> = v.iter().map(|&i| ((i % (w + 1)) as u32, (i / (w + 1)) as u32)).collect();
        let is_outer = shoelace(&lat) > 0;
        let mut poly: Vec<P> = vec![];
        for s in v.windows(2) {
            poly.push(vert[s[0]]);
            if s[0] < s[1] { poly.extend(&mids[&(s[0], s[1])]); } else { poly.extend(mids[&(s[1], s[0])].iter().rev()); }
        }
        poly.dedup();
        // start at a node if there is one, else at the point of highest rank (the same for both sides of the path)
        let nodes: Vec<usize> = (0..poly.len()).filter(|&i| node.contains(&poly[i])).collect();
        let st = if nodes.is_empty() { (0..poly.len()).max_by_key(|&i| hash(poly[i])).unwrap() } else { nodes[r.us(nodes.len())] };
        poly.rotate_left(st);
        let p0 = poly[0];
        poly.push(p0);
        if r.chance(1, 4) { poly.reverse(); }
        pts.extend(&poly);
        let all_nodes = poly.iter().all(|p| node.contains(p));
        let ring = if all_nodes && r.chance(1, 2) { R::Pts(poly) } else { R::Eds(cut(&poly, |i| node.contains(&poly[i]))) };
        let g = &mut regs[*c as usize];
        if is_outer { g.outer.push(ring) } else { g.inner.push(ring) }
    }
    for g in regs.iter_mut() { if r.chance(1, 2) { r.shuffle(&mut g.outer); r.shuffle(&mut g.inner); } }
    if r.chance(1, 2) { r.shuffle(&mut regs); }
    pts.sort(); pts.dedup();
    Map { regions: regs, xs, ys, pts }
}
