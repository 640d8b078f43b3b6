prop="C04"; needs="a path that starts on the mask line and goes inside, with the mask line at coordinate 0"
breaks="a start on the line at coordinate 0 is dropped"
file="src/clip/edge.rs"
edits=[("if ret.last() != Some(previous_point) {","if *ret.last().unwrap_or(&Point(0, 0)) != *previous_point {")]
demo='''use topogeo::clip::ClipMask; use topogeo::clip::edge::clip_edge; use topogeo::geo::Point;
fn main() {
    let v = [Point(0, 0), Point(3, 1), Point(3, 4)];
    assert_eq!(clip_edge(&v, &ClipMask::MinX(0)).to_vec(), v.to_vec());
}
'''
