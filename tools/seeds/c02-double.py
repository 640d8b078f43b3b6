prop="C02"; needs="a point-list ring with a repeated consecutive point"
breaks="asking for edges skips the zero-length pair, so the edges are not one per pair of consecutive points"
file="src/geo/mod.rs"
edits=[(".map(|(&p1, &p2)| Edge(vec![ p1, p2 ].into_boxed_slice()))",".filter(|&(p1, p2)| p1 != p2)\n                    .map(|(&p1, &p2)| Edge(vec![ p1, p2 ].into_boxed_slice()))")]
demo='''use topogeo::geo::*;
fn main() {
    let v: Vec<Point> = [(0, 0), (4, 0), (4, 0), (7, 7), (0, 0)].iter().map(|p| Point(p.0, p.1)).collect();
    assert_eq!(Ring::Points(v.into_boxed_slice()).edges().len(), 4);
}
'''
