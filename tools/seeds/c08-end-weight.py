prop="C08"; needs="a threshold above i64::MAX"
breaks="an edge's first point is dropped (and an edge can lose all its points, which panics)"
file="src/simplify/simplify_edge.rs"
edits=[("points[0].weight = u64::max_value();","points[0].weight = i64::max_value() as u64;")]
demo='''use topogeo::geo::*; use topogeo::topology::*; use topogeo::simplify;
fn main() {
    let mut b = TopologyBuilder::new();
    let e = |v: &[(u32, u32)]| Edge(v.iter().map(|p| Point(p.0, p.1)).collect::<Vec<_>>().into_boxed_slice());
    b.add_region(Region { data: (), outer_rings: vec![Ring::Edges(vec![e(&[(0, 0), (5, 1), (9, 0)]), e(&[(9, 0), (9, 9), (0, 0)])].into_boxed_slice())].into_boxed_slice(), inner_rings: vec![].into_boxed_slice() });
    let t = simplify(b.into_topology(), u64::MAX - 5);
    assert_eq!(t.edges[0].points.to_vec(), vec![Point(0, 0), Point(9, 0)]);
}
'''
