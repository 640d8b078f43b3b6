prop="C03"; needs="a segment whose product of coordinate differences exceeds 63 bits, clipped by an x mask"
breaks="the crossing of long segments with MinX/MaxX is wrong (wrapped product)"
file="src/clip/types.rs"
edits=[("let y = i(p1.1) + (i(x) - i(p1.0)) * (i(p2.1) - i(p1.1)) / (i(p2.0) - i(p1.0));","let dy = ((i(x) - i(p1.0)) * (i(p2.1) - i(p1.1))) as i64;\n                let y = i(p1.1) + dy as i128 / (i(p2.0) - i(p1.0));")]
demo='''use topogeo::clip::ClipMask; use topogeo::geo::Point;
fn main() {
    let m = u32::MAX;
    assert_eq!(ClipMask::MinX(20).intersect(&Point(10, 10), &Point(50, 50)), Point(20, 20));
    assert_eq!(ClipMask::MinX(m - 1).intersect(&Point(0, 0), &Point(m, m)), Point(m - 1, m - 1));
}
'''
