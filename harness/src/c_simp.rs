use crate::c_topo::{build, check_refs};
use crate::rng::Rng;
use crate::shapes::*;
use crate::{note, Gen, Outcome};
use std::collections::HashSet;
use topogeo::simplify;
use topogeo::topology::{TopoEdge, Topology};

fn size_of(case: u64) -> usize { (case & 0xff) as usize / 6 + 1 }
fn tri(a: P, b: P, c: P) -> u128 {
    let i = |v: u32| v as i128;
    ((i(b.0) - i(a.0)) * (i(c.1) - i(a.1)) - (i(c.0) - i(a.0)) * (i(b.1) - i(a.1))).unsigned_abs()
}
fn run(edges: &[Vec<P>], thr: u64) -> Vec<Vec<P>> {
    let t = Topology::<u32> {
        regions: vec![].into_boxed_slice(),
        edges: edges.iter().map(|e| TopoEdge { points: bx(e), rings: [std::ptr::null(), std::ptr::null()] }).collect::<Vec<_>>().into_boxed_slice(),
    };
    simplify(t, thr).edges.iter().map(|e| un(&e.points)).collect()
}
fn subsequence(a: &[P], b: &[P]) -> bool { let mut i = 0; for p in b { if i < a.len() && a[i] == *p { i += 1; } } i == a.len() }

fn check_shape(v: &[P], thr: u64) -> Outcome {
    note(|| format!("simplify {:?} with threshold {}", v, thr));
    let out = run(&[v.to_vec()], thr);
    if out.len() != 1 { return Err(format!("one edge became {}", out.len())); }
    let o = &out[0];
    let bad = |why: &str| Err(format!("{:?} with threshold {} became {:?}: {}", v, thr, o, why));
    if v.len() <= 2 { return if o == v { Ok(true) } else { bad("nothing can be removed") }; }
    if o.len() < 2 || o[0] != v[0] || o[o.len() - 1] != v[v.len() - 1] { return bad("the end points changed"); }
    if !subsequence(o, v) { return bad("not a subsequence"); }
    // first and last must be the first and last occurrence-wise too: the rest fits in between
    if o.len() >= 2 && !subsequence(&o[1..o.len() - 1], &v[1..v.len() - 1]) { return bad("not a subsequence with the same ends"); }
    if v[0] == v[v.len() - 1] && v.len() >= 4 && o.len() < 4 { return bad("a closed edge must keep four points"); }
    if v[0] == v[v.len() - 1] && v.len() < 4 && o != v { return bad("a closed edge of fewer than four points has nothing to lose"); }
    Ok(o.len() < v.len())
}
/// Everything repeated least-area removal can lead to, whatever the choice among equals; None: too many.
fn greedy(v: &[P], thr: u64) -> Option<HashSet<Vec<usize>>> {
    let mut done = HashSet::new();
    let mut todo = vec![(0..v.len()).collect::<Vec<usize>>()];
    let mut seen = HashSet::new();
    while let Some(s) = todo.pop() {
        if s.len() > 2 {
            let a: Vec<u128> = (1..s.len() - 1).map(|i| tri(v[s[i - 1]], v[s[i]], v[s[i + 1]])).collect();
            let m = *a.iter().min().unwrap();
            if m <= thr as u128 {
                for i in 0..a.len() {
                    if a[i] == m { let mut n = s.clone(); n.remove(i + 1); if seen.insert(n.clone()) { todo.push(n); } }
                }
                if seen.len() > 3000 { return None; }
                continue;
            }
        }
        done.insert(s);
    }
    Some(done)
}
/// The one result of least-area removal, when no two areas tie; None when they do.
fn greedy_large(v: &[P], thr: u64) -> Option<Vec<P>> {
    use std::cmp::Reverse;
    use std::collections::BinaryHeap;
    let n = v.len();
    let (mut prev, mut next): (Vec<usize>, Vec<usize>) = ((0..n).map(|i| i.wrapping_sub(1)).collect(), (1..n + 1).collect());
    let mut age = vec![0u32; n];
    let mut gone = vec![false; n];
    let mut h: BinaryHeap<Reverse<(u128, usize, u32)>> = (1..n - 1).map(|i| Reverse((tri(v[i - 1], v[i], v[i + 1]), i, 0))).collect();
    while let Some(Reverse((a, i, g))) = h.pop() {
        if gone[i] || age[i] != g { continue; }
        if a > thr as u128 { break; }
        while let Some(&Reverse((b, j, g))) = h.peek() { if gone[j] || age[j] != g { h.pop(); } else { if b == a { return None; } break; } }
        gone[i] = true;
        let (p, q) = (prev[i], next[i]);
        next[p] = q; prev[q] = p;
        for k in [p, q] { if k > 0 && k < n - 1 { age[k] += 1; h.push(Reverse((tri(v[prev[k]], v[k], v[next[k]]), k, age[k]))); } }
    }
    Some((0..n).filter(|&i| !gone[i]).map(|i| v[i]).collect())
}
fn large(c: u64) -> (Vec<P>, u64) {
    let mut r = Rng::new(c ^ 0x51);
    let n = crate::c_geo::LARGE[(c % 6) as usize];
    let mut v: Vec<P> = match c / 6 % 3 {
        0 => (0..n).map(|_| (r.next() as u32, r.next() as u32)).collect(),
        1 => (0..n as u32).map(|i| (i * 20_000, r.next() as u32)).collect(),
        _ => (0..n).map(|i| (i as u32, r.below(4) as u32)).collect(), // many ties
    };
    if c / 18 % 2 == 1 { let p = v[0]; v.push(p); }
    // about a third of the areas lie below; half of the time the threshold is one of the areas
    let mut a: Vec<u128> = v.windows(3).map(|w| tri(w[0], w[1], w[2])).collect();
    a.sort();
    (v, (a[a.len() / 3] as u64).wrapping_sub(c / 36 % 2))
}
fn check_large(v: &[P], thr: u64) -> Outcome {
    note(|| format!("simplify {} points {:?}... with threshold {}", v.len(), &v[..20], thr));
    let o = run(&[v.to_vec()], thr).remove(0);
    for w in o.windows(3) {
        let a = tri(w[0], w[1], w[2]);
        if a <= thr as u128 { return Err(format!("{} points {:?}... with threshold {} became {} points, in which {:?} spans with its neighbours {:?} and {:?} only {}", v.len(), &v[..20], thr, o.len(), w[1], w[0], w[2], a)); }
    }
    if let Some(g) = greedy_large(v, thr) {
        if g != o { let k = g.iter().zip(&o).take_while(|(a, b)| a == b).count(); return Err(format!("{} points {:?}... with threshold {} became {} points, number {} being {:?}; dropping the least point first gives {} points, that one being {:?}", v.len(), &v[..20], thr, o.len(), k, o.get(k), g.len(), g.get(k))); }
    }
    Ok(o.len() < v.len())
}
fn check_least(v: &[P], thr: u64) -> Outcome {
    note(|| format!("simplify {:?} with threshold {}", v, thr));
    if v.len() < 3 { return Ok(false); }
    let ring = v[0] == v[v.len() - 1];
    let o = run(&[v.to_vec()], thr).remove(0);
    let g = greedy(v, thr);
    // the four-point minimum
    if ring && (v.len() < 4 || match &g { Some(g) => g.iter().any(|s| s.len() < 4), None => o.len() <= 4 }) { return Ok(false); }
    for w in o.windows(3) {
        let a = tri(w[0], w[1], w[2]);
        if a <= thr as u128 { return Err(format!("{:?} with threshold {} became {:?}, in which {:?} spans only {}", v, thr, o, w[1], a)); }
    }
    if let Some(g) = g {
        if !g.iter().any(|s| s.iter().map(|&i| v[i]).collect::<Vec<_>>() == o) {
            let s = g.iter().next().unwrap();
            return Err(format!("{:?} with threshold {} became {:?}; dropping the least point first gives {:?}", v, thr, o, s.iter().map(|&i| v[i]).collect::<Vec<_>>()));
        }
    }
    Ok(o.len() < v.len() && o.len() > 2)
}
fn edge(r: &mut Rng, c: u64) -> (Vec<P>, u64) {
    let mode = r.below(7);
    let n = r.us(4 + size_of(c));
    let mut v = match r.below(4) {
        0 => closed(r, n, mode),
        1 => path(r, n, mode),
        2 => (0..n).map(|_| point(r, mode)).collect(),
        _ => { // a noisy line: areas of every size
            let (x0, s) = (r.below(1 << 20) as u32, 1 + r.below(300) as u32);
            let amp = 1 + r.below(200);
            (0..n as u32).map(|i| (x0 + i * s, 1000 + r.below(amp) as u32)).collect()
        }
    };
    if v.len() > 4 && r.chance(1, 10) { v = vec![v[0]; v.len()]; }
    // a threshold that separates the areas at hand
    let thr = match r.below(6) {
        0 => 0,
        1 => u64::MAX,
        2 => r.below(20),
        3 => r.next() >> r.below(64),
        _ if v.len() >= 3 => {
            let (i, j, k) = (r.us(v.len()), r.us(v.len()), r.us(v.len()));
            let a = if r.chance(1, 2) { let i = 1 + r.us(v.len() - 2); tri(v[i - 1], v[i], v[i + 1]) } else { tri(v[i], v[j], v[k]) };
            (a as u64).wrapping_add(r.pick(&[0, 1, u64::MAX]))
        }
        _ => 5,
    };
    (v, thr)
}
fn small(c: u64) -> (Vec<P>, u64) {
    // paths of 3..6 points on a 3x3 grid: first and last fixed by the index too
    let thr = c % 6; let mut c = c / 6;
    let (mut n, mut k) = (2, 81u64);
    while c >= k { c -= k; k *= 9; n += 1; }
    ((0..n).map(|_| { let p = ((c % 3) as u32, (c / 3 % 3) as u32); c /= 9; p }).collect(), thr)
}
const SMALL: u64 = 6 * (81 + 729 + 6561 + 59049);
pub fn c08() -> Vec<Gen> {
    vec![
        Gen { name: "small", count: Some(SMALL), weight: 0, f: |c| { let (v, t) = small(c); check_shape(&v, t) } },
        Gen { name: "edges", count: None, weight: 4, f: |c| { let mut r = Rng::new(c); let (v, t) = edge(&mut r, c); check_shape(&v, t) } },
        Gen { name: "large", count: Some(72), weight: 0, f: |c| { let (v, t) = large(c); check_shape(&v, t) } },
        // whole topologies: nothing but points changes, and each edge changes on its own
        Gen { name: "topology", count: None, weight: 2, f: |c| {
            let mut r = Rng::new(c);
            let m = planar(&mut r, 1 + (c & 0xff) as usize / 24, true);
            let thr = r.pick(&[0, 1, 3, 100, 5000, 1 << 20, 1 << 40, u64::MAX]);
            note(|| format!("regions {:?} threshold {}", m.regions, thr));
            let t = build(&m.regions);
            let shape = |t: &Topology<u32>| -> Vec<usize> {
                let mut v = vec![t.regions.as_ptr() as usize, t.regions.len(), t.edges.as_ptr() as usize, t.edges.len()];
                for g in t.regions.iter() {
                    v.push(g.data as usize);
                    v.push(g.outer_rings.len());
                    for x in g.outer_rings.iter().chain(g.inner_rings.iter()) {
                        v.push(x as *const _ as usize); v.push(x.region as usize); v.push(x.directed_edges.len());
                        for d in x.directed_edges.iter() { v.push(d.edge as usize); v.push(d.direction as usize); }
                    }
                }
                for e in t.edges.iter() { v.push(e.rings[0] as usize); v.push(e.rings[1] as usize); }
                v
            };
            let before: Vec<Vec<P>> = t.edges.iter().map(|e| un(&e.points)).collect();
            let s = shape(&t);
            let t = simplify(t, thr);
            if shape(&t) != s { return Err(format!("threshold {}: regions, rings, directions or references changed", thr)); }
            check_refs(&t)?;
            let alone = run(&before, thr);
            for (i, e) in t.edges.iter().enumerate() {
                let o = un(&e.points);
                if o.len() < 2 || o[0] != before[i][0] || o[o.len() - 1] != before[i][before[i].len() - 1] || !subsequence(&o, &before[i]) { return Err(format!("threshold {}: edge {:?} became {:?}", thr, before[i], o)); }
                if o != alone[i] { return Err(format!("threshold {}: edge {:?} became {:?} in its topology, {:?} alone", thr, before[i], o, alone[i])); }
            }
            Ok(true)
        } },
        Gen { name: "tiny", count: Some(3 * 6), weight: 0, f: |c| {
            let v: Vec<P> = (0..c % 3).map(|_| (7, 7)).collect();
            check_shape(&v, [0, 1, 2, 99, 1 << 40, u64::MAX][(c / 3) as usize])
        } },
    ]
}
pub fn c09() -> Vec<Gen> {
    vec![
        Gen { name: "small", count: Some(SMALL), weight: 0, f: |c| { let (v, t) = small(c); check_least(&v, t) } },
        Gen { name: "edges", count: None, weight: 1, f: |c| { let mut r = Rng::new(c); let (v, t) = edge(&mut r, c); check_least(&v, t) } },
        Gen { name: "large", count: Some(72), weight: 0, f: |c| { let (v, t) = large(c); check_large(&v, t) } },
        Gen { name: "distinct", count: None, weight: 1, f: |c| {
            // no ties to speak of: the result is unique
            let mut r = Rng::new(c);
            let n = 3 + r.us(3 + size_of(c));
            let bits = 6 + r.below(27);
            let mut v: Vec<P> = (0..n).map(|_| ((r.next() as u32) >> (32 - bits), (r.next() as u32) >> (32 - bits))).collect();
            if r.chance(1, 3) { let p = v[0]; v.push(p); }
            let (i, j, k) = (r.us(v.len()), r.us(v.len()), r.us(v.len()));
            let t = tri(v[i], v[j], v[k]) as u64 / (1 + r.below(8));
            check_least(&v, t)
        } },
    ]
}
