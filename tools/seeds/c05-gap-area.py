prop="C05"; needs="a ring of several edges of which the clipped pieces re-enter at another point, with a piece of no area"
breaks="the area of gap edges is left out, so the zero-area test judges the wrong area"
file="src/clip/topology.rs"
edits=[("                            area2 += signed_area2([ p, edge_start_point ].iter());\n","")]
demo='''use topogeo::geo::*; use topogeo::topology::*; use topogeo::clip::*;
fn main() {
    // whatever the mask, a ring of the result has non-zero area
    let mut x: u64 = 88172645463325252;
    let mut rnd = |n: u64| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; x % n };
    for _ in 0..200000 {
        let n = 3 + rnd(4) as usize;
        let mut v: Vec<Point> = (0..n).map(|_| Point(rnd(5) as u32, rnd(5) as u32)).collect();
        v.push(v[0]);
        if v.windows(2).any(|w| w[0] == w[1]) { continue; }
        let mut seen = std::collections::HashMap::new();
        for w in v.windows(2) { *seen.entry((w[0].min(w[1]), w[0].max(w[1]))).or_insert(0) += 1; }
        if seen.values().any(|&c| c > 1) { continue; }
        let mut b = TopologyBuilder::new();
        b.add_region(Region { data: (), outer_rings: vec![Ring::Points(v.clone().into_boxed_slice())].into_boxed_slice(), inner_rings: vec![].into_boxed_slice() });
        let t = b.into_topology();
        for m in [ClipMask::MinX(2), ClipMask::MaxX(2), ClipMask::MinY(2), ClipMask::MaxY(2)] {
            let c = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| clip_topology(&t, &m))) { Ok(c) => c, Err(_) => continue };
            for r in c.regions.iter().flat_map(|r| r.outer_rings.iter()) {
                let mut a = 0i128;
                for d in r.directed_edges.iter() {
                    let e = unsafe { &*d.edge };
                    let s: i128 = e.points.windows(2).map(|w| w[0].0 as i128 * w[1].1 as i128 - w[1].0 as i128 * w[0].1 as i128).sum();
                    a += if d.direction == Direction::Forward { s } else { -s };
                }
                assert!(a != 0, "{:?}", v);
            }
        }
    }
}
'''
