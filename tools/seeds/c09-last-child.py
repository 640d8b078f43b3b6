prop="C09"; needs="a heap in which the last element is a right child and lighter than its sibling and parent"
breaks="the priority queue skips a last right child, so points are dropped in the wrong order and some stay that should go"
file="src/simplify/simplify_edge.rs"
edits=[("if child +1 <= end && unsafe","if child + 1 < end && unsafe")]
demo='''use topogeo::geo::*; use topogeo::topology::*; use topogeo::simplify;
fn a2(a: Point, b: Point, c: Point) -> i128 { let i = |x: u32| x as i128; ((i(b.0) - i(a.0)) * (i(c.1) - i(a.1)) - (i(c.0) - i(a.0)) * (i(b.1) - i(a.1))).abs() }
fn main() {
    let mut x: u64 = 88172645463325252;
    let mut rnd = |n: u64| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; x % n };
    for _ in 0..20000 {
        let n = 4 + rnd(6) as usize;
        let mut v: Vec<Point> = (0..n).map(|_| Point(rnd(12) as u32, rnd(12) as u32)).collect();
        v[n - 1] = Point(20, 20); v[0] = Point(0, 0);
        let th = rnd(30);
        let mut b = TopologyBuilder::new();
        b.add_region(Region { data: (), outer_rings: vec![Ring::Edges(vec![Edge(v.into_boxed_slice()), Edge(vec![Point(20, 20), Point(50, 0), Point(0, 0)].into_boxed_slice())].into_boxed_slice())].into_boxed_slice(), inner_rings: vec![].into_boxed_slice() });
        let t = simplify(b.into_topology(), th);
        for e in t.edges.iter() { for w in e.points.windows(3) { assert!(a2(w[0], w[1], w[2]) > th as i128); } }
    }
}
'''
