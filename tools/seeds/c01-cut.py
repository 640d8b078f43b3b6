prop="C01"; needs="a ring given as edges, one of which has three or more points"
breaks="the area of an edge-list ring counts only the chord of each edge"
file="src/geo/mod.rs"
edits=[("a += signed_area2(edge.0.iter());","a += signed_area2(edge.0.iter().take(1).chain(edge.0.iter().skip(edge.0.len().saturating_sub(3).max(1))));")]
demo='''use topogeo::geo::*;
fn main() {
    let v: Vec<Point> = [(0, 0), (4, 0), (9, 3), (7, 7), (2, 8), (0, 0)].iter().map(|p| Point(p.0, p.1)).collect();
    let a = Ring::Points(v.clone().into_boxed_slice()).area2();
    let b = Ring::Edges(vec![Edge(v.into_boxed_slice())].into_boxed_slice()).area2();
    assert_eq!(a, b);
}
'''
