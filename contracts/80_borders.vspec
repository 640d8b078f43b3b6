%module borders
%raw
use crate::geo::*;
use crate::topology::types::*;
use crate::topology::build::*;
use crate::clip::topology::{abs_area, abs_area_n};
use crate::normalize::*;
// ---- the rings of all regions of a normalized topology, as far as their borders are concerned -----------------
pub type Rss = Seq<Seq<Seq<Side>>>;
/// Segment m of side s of ring r of region i.
pub open spec fn loc(x: Rss, i: int, r: int, s: int, m: int) -> bool { 0 <= i < x.len() && 0 <= r < x[i].len() && 0 <= s < x[i][r].len() && 0 <= m < x[i][r][s].points.len() - 1 }
pub open spec fn seg(x: Rss, i: int, r: int, s: int, m: int, p: Point, q: Point) -> bool { loc(x, i, r, s, m) && x[i][r][s].points[m] == p && x[i][r][s].points[m + 1] == q }
/// The region on the other side.
pub open spec fn other(i: int, e: Side) -> int { if e.a == Ptr::At(i as usize, 0) { ptr_ix(e.b) } else { ptr_ix(e.a) } }
pub open spec fn rev_at(x: Rss, i: int, e: Side, p: Point, q: Point) -> bool { exists|r: int, s: int, m: int| #[trigger] seg(x, i, r, s, m, q, p) && same_sides(x[i][r][s], e) }
/// A region enters and leaves a point only once.
#[verifier::opaque]
pub open spec fn one_out(x: Rss) -> bool { forall|i: int, r: int, s: int, m: int, r2: int, s2: int, m2: int| #![trigger loc(x, i, r, s, m), loc(x, i, r2, s2, m2)] loc(x, i, r, s, m) && loc(x, i, r2, s2, m2) && x[i][r][s].points[m] == x[i][r2][s2].points[m2] ==> r == r2 && s == s2 && m == m2 }
#[verifier::opaque]
pub open spec fn one_in(x: Rss) -> bool { forall|i: int, r: int, s: int, m: int, r2: int, s2: int, m2: int| #![trigger loc(x, i, r, s, m), loc(x, i, r2, s2, m2)] loc(x, i, r, s, m) && loc(x, i, r2, s2, m2) && x[i][r][s].points[m + 1] == x[i][r2][s2].points[m2 + 1] ==> r == r2 && s == s2 && m == m2 }
/// The sides name the region itself, and its neighbour, which has the segment the other way round.
#[verifier::opaque]
pub open spec fn mates(x: Rss) -> bool { forall|i: int, r: int, s: int, m: int| #[trigger] loc(x, i, r, s, m) && x[i][r][s].b != Ptr::Null ==> mate(x, i, x[i][r][s], x[i][r][s].points[m], x[i][r][s].points[m + 1]) }
pub open spec fn mate(x: Rss, i: int, e: Side, p: Point, q: Point) -> bool { let j = other(i, e); 0 <= j < x.len() && j != i && other(j, e) == i && rev_at(x, j, e, p, q) }
/// Two regions never have the same segment in the same direction.
#[verifier::opaque]
pub open spec fn no_dup(x: Rss) -> bool { forall|i: int, r: int, s: int, m: int, i2: int, r2: int, s2: int, m2: int| #![trigger loc(x, i, r, s, m), loc(x, i2, r2, s2, m2)] loc(x, i, r, s, m) && loc(x, i2, r2, s2, m2) && x[i][r][s].points[m] == x[i2][r2][s2].points[m2] && x[i][r][s].points[m + 1] == x[i2][r2][s2].points[m2 + 1] ==> i == i2 }
/// When two rings have a segment in opposite directions, they are neighbours there.
#[verifier::opaque]
pub open spec fn opposite(x: Rss) -> bool { forall|i: int, r: int, s: int, m: int, i2: int, r2: int, s2: int, m2: int| #![trigger loc(x, i, r, s, m), loc(x, i2, r2, s2, m2)] loc(x, i, r, s, m) && loc(x, i2, r2, s2, m2) && x[i][r][s].points[m] == x[i2][r2][s2].points[m2 + 1] && x[i][r][s].points[m + 1] == x[i2][r2][s2].points[m2] ==> same_sides(x[i][r][s], x[i2][r2][s2]) && x[i][r][s].b != Ptr::Null && i2 == other(i, x[i][r][s]) }
/// The smaller region comes first.
pub open spec fn label_ok(i: int, e: Side, n: int) -> bool {
    &&& e.a is At && e.a->At_1 == 0 && e.a->At_0 < n
    &&& e.b is At ==> e.b->At_1 == 0 && e.a->At_0 < e.b->At_0 && e.b->At_0 < n
    &&& e.a == Ptr::At(i as usize, 0) || e.b == Ptr::At(i as usize, 0)
}
#[verifier::opaque]
pub open spec fn labels(x: Rss) -> bool { forall|i: int, r: int, s: int| #![trigger x[i][r][s]] 0 <= i < x.len() && 0 <= r < x[i].len() && 0 <= s < x[i][r].len() ==> label_ok(i, x[i][r][s], x.len() as int) }
#[verifier::opaque]
pub open spec fn all_norm(x: Rss) -> bool { forall|i: int| #![trigger x[i]] 0 <= i < x.len() ==> norm_rings(x[i]) }
pub open spec fn world(x: Rss) -> bool { x.len() <= usize::MAX && one_out(x) && one_in(x) && mates(x) && no_dup(x) && opposite(x) && labels(x) && all_norm(x) }

pub proof fn use_out(x: Rss, i: int, r: int, s: int, m: int, r2: int, s2: int, m2: int)
    requires one_out(x), loc(x, i, r, s, m), loc(x, i, r2, s2, m2), x[i][r][s].points[m] == x[i][r2][s2].points[m2]
    ensures r == r2, s == s2, m == m2
{ reveal(one_out); }
pub proof fn use_in(x: Rss, i: int, r: int, s: int, m: int, r2: int, s2: int, m2: int)
    requires one_in(x), loc(x, i, r, s, m), loc(x, i, r2, s2, m2), x[i][r][s].points[m + 1] == x[i][r2][s2].points[m2 + 1]
    ensures r == r2, s == s2, m == m2
{ reveal(one_in); }
pub proof fn use_norm(x: Rss, i: int, r: int)
    requires all_norm(x), 0 <= i < x.len(), 0 <= r < x[i].len()
    ensures norm_ring(x[i][r])
{ reveal(all_norm); assert(norm_rings(x[i])); }
/// The neighbour's place of a segment.
pub proof fn use_mate(x: Rss, i: int, r: int, s: int, m: int) -> (z: (int, int, int))
    requires mates(x), loc(x, i, r, s, m), x[i][r][s].b != Ptr::Null
    ensures ({ let e = x[i][r][s]; let j = other(i, e); 0 <= j < x.len() && j != i && other(j, e) == i && seg(x, j, z.0, z.1, z.2, e.points[m + 1], e.points[m]) && same_sides(x[j][z.0][z.1], e) })
{
    reveal(mates);
    let e = x[i][r][s]; let j = other(i, e);
    assert(mate(x, i, e, e.points[m], e.points[m + 1]));
    assert(rev_at(x, j, e, e.points[m], e.points[m + 1]));
    let (a, b, c) = choose|a: int, b: int, c: int| #[trigger] seg(x, j, a, b, c, e.points[m + 1], e.points[m]) && same_sides(x[j][a][b], e);
    (a, b, c)
}
pub open spec fn succ(w: Seq<Side>, s: int) -> int { if s + 1 < w.len() { s + 1 } else { 0 } }
pub open spec fn pred(w: Seq<Side>, s: int) -> int { if s > 0 { s - 1 } else { w.len() - 1 } }
/// The sides before and after a side meet it and have other regions beside them, unless it is the whole ring.
pub proof fn lemma_around(w: Seq<Side>, s: int)
    requires norm_ring(w), 0 <= s < w.len()
    ensures w[s].points.last() == w[succ(w, s)].points[0], w[pred(w, s)].points.last() == w[s].points[0], w[s].points.len() >= 2,
        w[succ(w, s)].points.len() >= 2, w[pred(w, s)].points.len() >= 2,
        w.len() > 1 ==> !same_sides(w[s], w[succ(w, s)]) && !same_sides(w[pred(w, s)], w[s]),
{
    assert(ends_meet(w, s) && ends_meet(w, s + 1) && differ(w, s) && differ(w, s + 1));
    assert(!degenerate(w[s].points)); assert(!degenerate(w[succ(w, s)].points)); assert(!degenerate(w[pred(w, s)].points));
}
/// Side Y of the neighbour has side X's first segment backward, as its m-th.
pub open spec fn facing(x: Rss, i: int, r: int, s: int, j: int, r2: int, s2: int, m: int) -> bool {
    &&& loc(x, i, r, s, 0) && loc(x, j, r2, s2, m) && x[i][r][s].b != Ptr::Null && same_sides(x[i][r][s], x[j][r2][s2])
    &&& j == other(i, x[i][r][s]) && i == other(j, x[i][r][s])
    &&& x[j][r2][s2].points[m] == x[i][r][s].points[1] && x[j][r2][s2].points[m + 1] == x[i][r][s].points[0]
}
/// Walking back along Y from there is walking forward along X.
pub proof fn lemma_walk(x: Rss, i: int, r: int, s: int, j: int, r2: int, s2: int, m: int, c: int)
    requires world(x), facing(x, i, r, s, j, r2, s2, m), 0 <= c <= m, c < x[i][r][s].points.len() - 1
    ensures x[j][r2][s2].points[m - c] == x[i][r][s].points[1 + c]
    decreases c
{
    if c > 0 {
        lemma_walk(x, i, r, s, j, r2, s2, m, c - 1);
        assert(loc(x, i, r, s, c));
        let z = use_mate(x, i, r, s, c);
        assert(loc(x, j, z.0, z.1, z.2)); assert(loc(x, j, r2, s2, m - c));
        use_in(x, j, z.0, z.1, z.2, r2, s2, m - c);
    }
}
/// Y does not start before X ends.
pub proof fn lemma_not_before(x: Rss, i: int, r: int, s: int, j: int, r2: int, s2: int, m: int)
    requires world(x), facing(x, i, r, s, j, r2, s2, m)
    ensures m < x[i][r][s].points.len() - 1
{
    let w = x[i][r]; let e = w[s]; let n = e.points.len() - 1; let y = x[j][r2][s2];
    if m >= n {
        lemma_walk(x, i, r, s, j, r2, s2, m, n - 1);
        assert(y.points[m - n + 1] == e.points[n]);
        assert(loc(x, j, r2, s2, m - n));
        use_norm(x, i, r); lemma_around(w, s);
        if w.len() == 1 {
            assert(y.points[m + 1] == e.points[0]);
            use_in(x, j, r2, s2, m - n, r2, s2, m);
        } else {
            let z = use_mate(x, j, r2, s2, m - n);
            assert(loc(x, i, z.0, z.1, z.2)); assert(loc(x, i, r, succ(w, s), 0));
            use_out(x, i, z.0, z.1, z.2, r, succ(w, s), 0);
        }
    }
}
/// If Y starts later, it is a whole ring.
pub proof fn lemma_island(x: Rss, i: int, r: int, s: int, j: int, r2: int, s2: int, m: int)
    requires world(x), facing(x, i, r, s, j, r2, s2, m), m < x[i][r][s].points.len() - 2
    ensures x[j][r2].len() == 1, x[j][r2][s2].points[0] == x[i][r][s].points[1 + m]
{
    let w = x[j][r2]; let y = w[s2]; let e = x[i][r][s];
    lemma_walk(x, i, r, s, j, r2, s2, m, m);
    assert(loc(x, i, r, s, m + 1));
    let z = use_mate(x, i, r, s, m + 1);
    use_norm(x, j, r2); lemma_around(w, s2);
    let k = pred(w, s2);
    assert(loc(x, j, z.0, z.1, z.2)); assert(loc(x, j, r2, k, w[k].points.len() - 2));
    use_in(x, j, z.0, z.1, z.2, r2, k, w[k].points.len() - 2);
}
/// Then it is not: it starts where X ends.
pub proof fn lemma_level(x: Rss, i: int, r: int, s: int, j: int, r2: int, s2: int, m: int)
    requires world(x), facing(x, i, r, s, j, r2, s2, m)
    ensures m == x[i][r][s].points.len() - 2
{
    let w = x[i][r]; let e = w[s]; let n = e.points.len() - 1; let v = x[j][r2]; let y = v[s2];
    lemma_not_before(x, i, r, s, j, r2, s2, m);
    if m < n - 1 {
        lemma_island(x, i, r, s, j, r2, s2, m);
        use_norm(x, i, r); use_norm(x, j, r2); lemma_around(w, s); lemma_around(v, s2);
        assert(loc(x, i, r, s, 1 + m)); assert(loc(x, i, r, s, 0));
        assert(s2 == 0);
        if w.len() == 1 {
            assert(!plt(w[0].points[1 + m], w[0].points[0]));
            assert(!plt(v[0].points[m + 1], v[0].points[0]));
            use_out(x, i, r, s, 0, r, s, 1 + m);
        } else {
            if m > 0 { lemma_walk(x, i, r, s, j, r2, s2, m, m - 1); }
            assert(y.points[1] == e.points[m]);
            assert(loc(x, j, r2, s2, 0)); assert(loc(x, i, r, s, m));
            assert(facing(x, j, r2, s2, i, r, s, m));
            lemma_not_before(x, j, r2, s2, i, r, s, m);
            if m < y.points.len() - 2 { lemma_island(x, j, r2, s2, i, r, s, m); }
            else { lemma_walk(x, j, r2, s2, i, r, s, m, m); use_out(x, i, r, s, 0, r, s, 1 + m); }
        }
    }
}
/// Y is X backward.
pub proof fn lemma_facing(x: Rss, i: int, r: int, s: int, j: int, r2: int, s2: int, m: int)
    requires world(x), facing(x, i, r, s, j, r2, s2, m)
    ensures x[j][r2][s2].points == x[i][r][s].points.reverse()
{
    let w = x[i][r]; let e = w[s]; let n = e.points.len() - 1; let y = x[j][r2][s2];
    lemma_level(x, i, r, s, j, r2, s2, m);
    use_norm(x, i, r); lemma_around(w, s);
    if y.points.len() - 1 > n {
        assert(loc(x, j, r2, s2, n)); assert(loc(x, j, r2, s2, 0));
        let z = use_mate(x, j, r2, s2, n);
        let k = pred(w, s);
        assert(loc(x, i, z.0, z.1, z.2)); assert(loc(x, i, r, k, w[k].points.len() - 2));
        use_in(x, i, z.0, z.1, z.2, r, k, w[k].points.len() - 2);
        lemma_walk(x, i, r, s, j, r2, s2, m, n - 1);
        use_out(x, j, r2, s2, 0, r2, s2, n);
    }
    assert forall|c: int| 0 <= c < y.points.len() implies y.points[c] == e.points.reverse()[c] by {
        if c < n { lemma_walk(x, i, r, s, j, r2, s2, m, n - 1 - c); }
    }
    assert(y.points =~= e.points.reverse());
}
/// A side with a neighbour is, backward, a side of the neighbour's.
pub proof fn lemma_mate_side(x: Rss, i: int, r: int, s: int) -> (z: (int, int))
    requires world(x), 0 <= i < x.len(), 0 <= r < x[i].len(), 0 <= s < x[i][r].len(), x[i][r][s].b != Ptr::Null
    ensures ({ let e = x[i][r][s]; let j = other(i, e); 0 <= j < x.len() && j != i && 0 <= z.0 < x[j].len() && 0 <= z.1 < x[j][z.0].len() && x[j][z.0][z.1].points == e.points.reverse() && same_sides(x[j][z.0][z.1], e) })
{
    use_norm(x, i, r); lemma_around(x[i][r], s);
    assert(loc(x, i, r, s, 0));
    let y = use_mate(x, i, r, s, 0);
    let j = other(i, x[i][r][s]);
    assert(facing(x, i, r, s, j, y.0, y.1, y.2));
    lemma_facing(x, i, r, s, j, y.0, y.1, y.2);
    (y.0, y.1)
}
// ---- counting segments ------------------------------------------------------------------------------------------
pub open spec fn nonneg(f: F) -> bool { forall|p: Point, q: Point, a: Ptr, b: Ptr| #[trigger] f(p, q, a, b) >= 0 }
pub open spec fn f_leave(x: Point) -> F { |p: Point, q: Point, a: Ptr, b: Ptr| if p == x { 1int } else { 0int } }
pub open spec fn f_enter(x: Point) -> F { |p: Point, q: Point, a: Ptr, b: Ptr| if q == x { 1int } else { 0int } }
pub open spec fn f_seg(x: Point, y: Point) -> F { |p: Point, q: Point, a: Ptr, b: Ptr| if p == x && q == y { 1int } else { 0int } }
pub open spec fn f_lab(x: Point, y: Point, l: Ptr, r: Ptr) -> F { |p: Point, q: Point, a: Ptr, b: Ptr| if p == x && q == y && a == l && b == r { 1int } else { 0int } }
pub open spec fn val(f: F, e: Side, m: int) -> int { f(e.points[m], e.points[m + 1], e.a, e.b) }
pub proof fn lemma_nn_p(f: F, s: Seq<Point>, a: Ptr, b: Ptr, n: int)
    requires nonneg(f)
    ensures tot_p(f, s, a, b, n) >= 0
    decreases n
{ if n > 0 { lemma_nn_p(f, s, a, b, n - 1); } }
pub proof fn lemma_nn_n(f: F, s: Seq<Side>, n: int)
    requires nonneg(f)
    ensures tot_n(f, s, n) >= 0
    decreases n
{ if n > 0 { lemma_nn_n(f, s, n - 1); let e = s[n - 1]; lemma_nn_p(f, e.points, e.a, e.b, e.points.len() - 1); } }
pub proof fn lemma_nn_r(f: F, s: Seq<Seq<Side>>, n: int)
    requires nonneg(f)
    ensures tot_rn(f, s, n) >= 0
    decreases n
{ if n > 0 { lemma_nn_r(f, s, n - 1); lemma_nn_n(f, s[n - 1], s[n - 1].len() as int); } }
pub proof fn lemma_pos_p(f: F, s: Seq<Point>, a: Ptr, b: Ptr, n: int) -> (m: int)
    requires tot_p(f, s, a, b, n) > 0
    ensures 0 <= m < n, f(s[m], s[m + 1], a, b) > 0
    decreases n
{ if n <= 0 { 0 } else if f(s[n - 1], s[n], a, b) > 0 { n - 1 } else { lemma_pos_p(f, s, a, b, n - 1) } }
pub proof fn lemma_pos_n(f: F, s: Seq<Side>, n: int) -> (z: (int, int))
    requires tot_n(f, s, n) > 0
    ensures 0 <= z.0 < n, 0 <= z.1 < s[z.0].points.len() - 1, val(f, s[z.0], z.1) > 0
    decreases n
{
    if n <= 0 { (0, 0) } else if tot_e(f, s[n - 1]) > 0 { let e = s[n - 1]; (n - 1, lemma_pos_p(f, e.points, e.a, e.b, e.points.len() - 1)) } else { lemma_pos_n(f, s, n - 1) }
}
pub proof fn lemma_pos_r(f: F, s: Seq<Seq<Side>>, n: int) -> (z: (int, int, int))
    requires tot_rn(f, s, n) > 0
    ensures 0 <= z.0 < n, 0 <= z.1 < s[z.0].len(), 0 <= z.2 < s[z.0][z.1].points.len() - 1, val(f, s[z.0][z.1], z.2) > 0
    decreases n
{
    if n <= 0 { (0, 0, 0) } else if tot(f, s[n - 1]) > 0 { let z = lemma_pos_n(f, s[n - 1], s[n - 1].len() as int); (n - 1, z.0, z.1) } else { lemma_pos_r(f, s, n - 1) }
}
pub proof fn lemma_ge_p(f: F, s: Seq<Point>, a: Ptr, b: Ptr, n: int, m: int)
    requires nonneg(f), 0 <= m < n
    ensures tot_p(f, s, a, b, n) >= f(s[m], s[m + 1], a, b)
    decreases n
{ if m < n - 1 { lemma_ge_p(f, s, a, b, n - 1, m); } else { lemma_nn_p(f, s, a, b, n - 1); } }
pub proof fn lemma_ge_n(f: F, s: Seq<Side>, n: int, j: int)
    requires nonneg(f), 0 <= j < n
    ensures tot_n(f, s, n) >= tot_e(f, s[j])
    decreases n
{ let e = s[n - 1]; lemma_nn_p(f, e.points, e.a, e.b, e.points.len() - 1); if j < n - 1 { lemma_ge_n(f, s, n - 1, j); } else { lemma_nn_n(f, s, n - 1); } }
pub proof fn lemma_ge_r(f: F, s: Seq<Seq<Side>>, n: int, j: int)
    requires nonneg(f), 0 <= j < n
    ensures tot_rn(f, s, n) >= tot(f, s[j])
    decreases n
{ lemma_nn_n(f, s[n - 1], s[n - 1].len() as int); if j < n - 1 { lemma_ge_r(f, s, n - 1, j); } else { lemma_nn_r(f, s, n - 1); } }
pub proof fn lemma_ge(f: F, s: Seq<Seq<Side>>, r: int, j: int, m: int)
    requires nonneg(f), 0 <= r < s.len(), 0 <= j < s[r].len(), 0 <= m < s[r][j].points.len() - 1
    ensures tot_r(f, s) >= val(f, s[r][j], m)
{ let e = s[r][j]; lemma_ge_p(f, e.points, e.a, e.b, e.points.len() - 1, m); lemma_ge_n(f, s[r], s[r].len() as int, j); lemma_ge_r(f, s, s.len() as int, r); }
pub proof fn lemma_two_p(f: F, s: Seq<Point>, a: Ptr, b: Ptr, n: int, m: int, m2: int)
    requires nonneg(f), 0 <= m < m2 < n
    ensures tot_p(f, s, a, b, n) >= f(s[m], s[m + 1], a, b) + f(s[m2], s[m2 + 1], a, b)
    decreases n
{ if m2 < n - 1 { lemma_two_p(f, s, a, b, n - 1, m, m2); } else { lemma_ge_p(f, s, a, b, n - 1, m); } }
pub proof fn lemma_two_n(f: F, s: Seq<Side>, n: int, j: int, j2: int)
    requires nonneg(f), 0 <= j < j2 < n
    ensures tot_n(f, s, n) >= tot_e(f, s[j]) + tot_e(f, s[j2])
    decreases n
{ let e = s[n - 1]; lemma_nn_p(f, e.points, e.a, e.b, e.points.len() - 1); if j2 < n - 1 { lemma_two_n(f, s, n - 1, j, j2); } else { lemma_ge_n(f, s, n - 1, j); } }
pub proof fn lemma_two_r(f: F, s: Seq<Seq<Side>>, n: int, j: int, j2: int)
    requires nonneg(f), 0 <= j < j2 < n
    ensures tot_rn(f, s, n) >= tot(f, s[j]) + tot(f, s[j2])
    decreases n
{ lemma_nn_n(f, s[n - 1], s[n - 1].len() as int); if j2 < n - 1 { lemma_two_r(f, s, n - 1, j, j2); } else { lemma_ge_r(f, s, n - 1, j); } }
/// Two places count twice.
pub proof fn lemma_two(f: F, s: Seq<Seq<Side>>, r: int, j: int, m: int, r2: int, j2: int, m2: int)
    requires nonneg(f), 0 <= r < s.len(), 0 <= j < s[r].len(), 0 <= m < s[r][j].points.len() - 1, 0 <= r2 < s.len(), 0 <= j2 < s[r2].len(), 0 <= m2 < s[r2][j2].points.len() - 1,
        r != r2 || j != j2 || m != m2,
    ensures tot_r(f, s) >= val(f, s[r][j], m) + val(f, s[r2][j2], m2)
{
    let e = s[r][j]; let e2 = s[r2][j2]; let n = s.len() as int;
    lemma_ge_p(f, e.points, e.a, e.b, e.points.len() - 1, m); lemma_ge_p(f, e2.points, e2.a, e2.b, e2.points.len() - 1, m2);
    lemma_ge_n(f, s[r], s[r].len() as int, j); lemma_ge_n(f, s[r2], s[r2].len() as int, j2);
    if r < r2 { lemma_two_r(f, s, n, r, r2); } else if r2 < r { lemma_two_r(f, s, n, r2, r); } else {
        lemma_ge_r(f, s, n, r);
        if j < j2 { lemma_two_n(f, s[r], s[r].len() as int, j, j2); } else if j2 < j { lemma_two_n(f, s[r], s[r].len() as int, j2, j); }
        else if m < m2 { lemma_two_p(f, e.points, e.a, e.b, e.points.len() - 1, m, m2); } else { lemma_two_p(f, e.points, e.a, e.b, e.points.len() - 1, m2, m); }
    }
}
/// A closed walk enters a point as often as it leaves it.
pub open spec fn is(p: Point, x: Point) -> int { if p == x { 1 } else { 0 } }
pub proof fn lemma_tele_p(x: Point, s: Seq<Point>, a: Ptr, b: Ptr, n: int)
    requires 0 <= n < s.len()
    ensures tot_p(f_enter(x), s, a, b, n) - tot_p(f_leave(x), s, a, b, n) == is(s[n], x) - is(s[0], x)
    decreases n
{ if n > 0 { lemma_tele_p(x, s, a, b, n - 1); } }
pub proof fn lemma_tele_n(x: Point, s: Seq<Side>, n: int)
    requires chain(s), 0 < n <= s.len()
    ensures tot_n(f_enter(x), s, n) - tot_n(f_leave(x), s, n) == is(s[n - 1].points.last(), x) - is(s[0].points[0], x)
    decreases n
{
    let e = s[n - 1];
    assert(!degenerate(e.points));
    lemma_tele_p(x, e.points, e.a, e.b, e.points.len() - 1);
    if n > 1 { lemma_tele_n(x, s, n - 1); assert(ends_meet(s, n - 1)); }
    else { assert(tot_n(f_enter(x), s, 0) == 0 && tot_n(f_leave(x), s, 0) == 0); }
}
pub proof fn lemma_tele_r(x: Point, s: Seq<Seq<Side>>, n: int)
    requires norm_rings(s), 0 <= n <= s.len()
    ensures tot_rn(f_enter(x), s, n) == tot_rn(f_leave(x), s, n)
    decreases n
{ if n > 0 { lemma_tele_r(x, s, n - 1); assert(norm_ring(s[n - 1])); lemma_tele_n(x, s[n - 1], s[n - 1].len() as int); } }
// ---- the segments of the input --------------------------------------------------------------------------------------
pub open spec fn order_k<Data>(g: TopoRegion<Data>, k: int) -> WindingOrder { if k < g.outer_rings@.len() { WindingOrder::Clockwise } else { WindingOrder::CounterClockwise } }
/// Segment m of edge j of ring k of a region, walked in the ring's order.
pub open spec fn in_seg<Data>(g: TopoRegion<Data>, k: int, j: int, m: int, p: Point, q: Point, a: Ptr, b: Ptr) -> bool {
    let w = sides_of(ring_k(g, k)); let e = w[j];
    &&& 0 <= k < n_rings(g) && 0 <= j < w.len() && 0 <= m < e.points.len() - 1 && a == e.a && b == e.b
    &&& if against(w, order_k(g, k)) { p == e.points[m + 1] && q == e.points[m] } else { p == e.points[m] && q == e.points[m + 1] }
}
pub proof fn lemma_pos_w(f: F, s: Seq<TopoRing>, o: WindingOrder, n: int) -> (z: (int, int, int))
    requires wound_n(f, s, o, n) > 0
    ensures 0 <= z.0 < n, ({ let w = sides_of(s[z.0]); 0 <= z.1 < w.len() && 0 <= z.2 < w[z.1].points.len() - 1 && val(f_dir(f, against(w, o)), w[z.1], z.2) > 0 })
    decreases n
{
    if n <= 0 { (0, 0, 0) } else if wound(f, sides_of(s[n - 1]), o) > 0 { let w = sides_of(s[n - 1]); let z = lemma_pos_n(f_dir(f, against(w, o)), w, w.len() as int); (n - 1, z.0, z.1) } else { lemma_pos_w(f, s, o, n - 1) }
}
pub open spec fn place_of<Data>(f: F, g: TopoRegion<Data>, k: int, j: int, m: int) -> bool { exists|p: Point, q: Point, a: Ptr, b: Ptr| #[trigger] in_seg(g, k, j, m, p, q, a, b) && f(p, q, a, b) > 0 && a != b }
pub proof fn lemma_pos_region<Data>(f: F, g: TopoRegion<Data>) -> (z: (int, int, int))
    requires region_tot(f, g) > 0
    ensures place_of(f, g, z.0, z.1, z.2)
{
    let n = g.outer_rings@.len() as int; let m = g.inner_rings@.len() as int; let u = f_useful(f);
    let (z, s, o, kk) = if wound_n(u, g.outer_rings@, WindingOrder::Clockwise, n) > 0 { let z = lemma_pos_w(u, g.outer_rings@, WindingOrder::Clockwise, n); (z, g.outer_rings@, WindingOrder::Clockwise, z.0) }
        else { let z = lemma_pos_w(u, g.inner_rings@, WindingOrder::CounterClockwise, m); (z, g.inner_rings@, WindingOrder::CounterClockwise, z.0 + n) };
    assert(ring_k(g, kk) == s[z.0]); assert(order_k(g, kk) == o);
    let w = sides_of(s[z.0]); let e = w[z.1];
    if against(w, o) { assert(in_seg(g, kk, z.1, z.2, e.points[z.2 + 1], e.points[z.2], e.a, e.b)); } else { assert(in_seg(g, kk, z.1, z.2, e.points[z.2], e.points[z.2 + 1], e.a, e.b)); }
    (kk, z.1, z.2)
}
pub proof fn lemma_nn_w(f: F, s: Seq<TopoRing>, o: WindingOrder, n: int)
    requires nonneg(f)
    ensures wound_n(f, s, o, n) >= 0
    decreases n
{ if n > 0 { lemma_nn_w(f, s, o, n - 1); let w = sides_of(s[n - 1]); lemma_nn_n(f_dir(f, against(w, o)), w, w.len() as int); } }
pub proof fn lemma_ge_w(f: F, s: Seq<TopoRing>, o: WindingOrder, n: int, k: int)
    requires nonneg(f), 0 <= k < n
    ensures wound_n(f, s, o, n) >= wound(f, sides_of(s[k]), o)
    decreases n
{ let w = sides_of(s[n - 1]); lemma_nn_n(f_dir(f, against(w, o)), w, w.len() as int); if k < n - 1 { lemma_ge_w(f, s, o, n - 1, k); } else { lemma_nn_w(f, s, o, n - 1); } }
pub proof fn lemma_ge_region<Data>(f: F, g: TopoRegion<Data>, k: int, j: int, m: int, p: Point, q: Point, a: Ptr, b: Ptr)
    requires nonneg(f), in_seg(g, k, j, m, p, q, a, b), a != b
    ensures region_tot(f, g) >= f(p, q, a, b)
{
    let n = g.outer_rings@.len() as int; let nn = g.inner_rings@.len() as int; let u = f_useful(f); let w = sides_of(ring_k(g, k)); let o = order_k(g, k); let e = w[j];
    assert(nonneg(u));
    let d = f_dir(u, against(w, o));
    assert(nonneg(d)) by { assert forall|p: Point, q: Point, a: Ptr, b: Ptr| #[trigger] d(p, q, a, b) >= 0 by { assert(u(q, p, a, b) >= 0 && u(p, q, a, b) >= 0); } }
    lemma_ge_p(d, e.points, e.a, e.b, e.points.len() - 1, m); lemma_ge_n(d, w, w.len() as int, j);
    lemma_nn_w(u, g.outer_rings@, WindingOrder::Clockwise, n); lemma_nn_w(u, g.inner_rings@, WindingOrder::CounterClockwise, nn);
    if k < n { lemma_ge_w(u, g.outer_rings@, WindingOrder::Clockwise, n, k); } else { lemma_ge_w(u, g.inner_rings@, WindingOrder::CounterClockwise, nn, k - n); }
}
// ---- who uses an edge ------------------------------------------------------------------------------------------------
pub open spec fn uses_edge<Data>(s: Seq<TopoRegion<Data>>, i: int, k: int, j: int, e: int) -> bool {
    0 <= i < s.len() && 0 <= k < n_rings(s[i]) && 0 <= j < ring_k(s[i], k).directed_edges@.len() && ptr_ix(ring_k(s[i], k).directed_edges@[j].edge) == e
}
pub open spec fn has(u: Seq<Ptr>, p: Ptr) -> bool { exists|y: int| 0 <= y < u.len() && #[trigger] u[y] == p }
pub proof fn lemma_has_d(d: Seq<DirectedEdge>, n: int, e: int, p: Ptr, j: int)
    requires 0 <= j < n, ptr_ix(d[j].edge) == e
    ensures has(uses_d(d, n, e, p), p)
    decreases n
{
    let u = uses_d(d, n, e, p);
    if j == n - 1 { assert(u[u.len() - 1] == p); } else {
        lemma_has_d(d, n - 1, e, p, j);
        let v = uses_d(d, n - 1, e, p); let y = choose|y: int| 0 <= y < v.len() && #[trigger] v[y] == p; assert(u[y] == p);
    }
}
pub proof fn lemma_has_r2<Data>(g: TopoRegion<Data>, n: int, e: int, i: int, k: int, j: int)
    requires 0 <= k < n, 0 <= j < ring_k(g, k).directed_edges@.len(), ptr_ix(ring_k(g, k).directed_edges@[j].edge) == e
    ensures has(uses_r(g, n, e, i), Ptr::At(i as usize, k as usize))
    decreases n
{
    let u = uses_r(g, n, e, i); let v = uses_r(g, n - 1, e, i); let d = ring_k(g, n - 1).directed_edges@; let p = Ptr::At(i as usize, k as usize);
    if k == n - 1 {
        lemma_has_d(d, d.len() as int, e, p, j);
        let x = uses_d(d, d.len() as int, e, p); let y = choose|y: int| 0 <= y < x.len() && #[trigger] x[y] == p; assert(u[v.len() + y] == p);
    } else {
        lemma_has_r2(g, n - 1, e, i, k, j);
        let y = choose|y: int| 0 <= y < v.len() && #[trigger] v[y] == p; assert(u[y] == p);
    }
}
pub proof fn lemma_has_t<Data>(s: Seq<TopoRegion<Data>>, n: int, e: int, i: int, k: int, j: int)
    requires uses_edge(s, i, k, j, e), i < n
    ensures has(uses_t(s, n, e), Ptr::At(i as usize, k as usize))
    decreases n
{
    let u = uses_t(s, n, e); let v = uses_t(s, n - 1, e); let p = Ptr::At(i as usize, k as usize);
    if i == n - 1 {
        lemma_has_r2(s[i], n_rings(s[i]), e, i, k, j);
        let x = uses_r(s[i], n_rings(s[i]), e, i); let y = choose|y: int| 0 <= y < x.len() && #[trigger] x[y] == p; assert(u[v.len() + y] == p);
    } else {
        lemma_has_t(s, n - 1, e, i, k, j);
        let y = choose|y: int| 0 <= y < v.len() && #[trigger] v[y] == p; assert(u[y] == p);
    }
}
/// And only they are named.
pub open spec fn from_ring<Data>(s: Seq<TopoRegion<Data>>, p: Ptr, e: int) -> bool { p is At && exists|j: int| #[trigger] uses_edge(s, p->At_0 as int, p->At_1 as int, j, e) }
pub open spec fn all_from<Data>(s: Seq<TopoRegion<Data>>, u: Seq<Ptr>, e: int) -> bool { forall|y: int| #![trigger u[y]] 0 <= y < u.len() ==> from_ring(s, u[y], e) }
pub proof fn lemma_from_d<Data>(s: Seq<TopoRegion<Data>>, i: int, k: int, n: int, e: int)
    requires 0 <= i < s.len(), 0 <= k < n_rings(s[i]), n <= ring_k(s[i], k).directed_edges@.len(), i <= usize::MAX, k <= usize::MAX
    ensures all_from(s, uses_d(ring_k(s[i], k).directed_edges@, n, e, Ptr::At(i as usize, k as usize)), e)
    decreases n
{
    let p = Ptr::At(i as usize, k as usize);
    if n > 0 {
        lemma_from_d(s, i, k, n - 1, e);
        let d = ring_k(s[i], k).directed_edges@;
        let u = uses_d(d, n, e, p); let v = uses_d(d, n - 1, e, p);
        if ptr_ix(d[n - 1].edge) == e {
            assert(uses_edge(s, p->At_0 as int, p->At_1 as int, n - 1, e)); assert(from_ring(s, p, e));
            assert forall|y: int| #![trigger u[y]] 0 <= y < u.len() implies from_ring(s, u[y], e) by { if y < v.len() { assert(u[y] == v[y]); } }
        }
    }
}
pub proof fn lemma_from_r<Data>(s: Seq<TopoRegion<Data>>, i: int, n: int, e: int)
    requires 0 <= i < s.len(), 0 <= n <= n_rings(s[i]), i <= usize::MAX, n <= usize::MAX
    ensures all_from(s, uses_r(s[i], n, e, i), e), forall|y: int| #![trigger uses_r(s[i], n, e, i)[y]] 0 <= y < uses_r(s[i], n, e, i).len() ==> uses_r(s[i], n, e, i)[y]->At_0 == i
    decreases n
{
    if n > 0 {
        lemma_from_r(s, i, n - 1, e);
        let d = ring_k(s[i], n - 1).directed_edges@; let p = Ptr::At(i as usize, (n - 1) as usize);
        lemma_from_d(s, i, n - 1, d.len() as int, e);
        lemma_same_d(d, d.len() as int, e, p);
        let u = uses_r(s[i], n, e, i); let v = uses_r(s[i], n - 1, e, i); let x = uses_d(d, d.len() as int, e, p);
        assert forall|y: int| #![trigger u[y]] 0 <= y < u.len() implies from_ring(s, u[y], e) && u[y]->At_0 == i by { if y < v.len() { assert(u[y] == v[y]); } else { assert(u[y] == x[y - v.len()]); } }
    }
}
pub proof fn lemma_same_d(d: Seq<DirectedEdge>, n: int, e: int, p: Ptr)
    ensures forall|y: int| #![trigger uses_d(d, n, e, p)[y]] 0 <= y < uses_d(d, n, e, p).len() ==> uses_d(d, n, e, p)[y] == p
    decreases n
{ if n > 0 { lemma_same_d(d, n - 1, e, p); let u = uses_d(d, n, e, p); let v = uses_d(d, n - 1, e, p); assert forall|y: int| #![trigger u[y]] 0 <= y < u.len() implies u[y] == p by { if y < v.len() { assert(u[y] == v[y]); } } } }
pub open spec fn in_order(u: Seq<Ptr>, n: int) -> bool { (forall|y: int| #![trigger u[y]] 0 <= y < u.len() ==> u[y]->At_0 < n) && forall|y: int, z: int| #![trigger u[y], u[z]] 0 <= y <= z < u.len() ==> u[y]->At_0 <= u[z]->At_0 }
pub proof fn lemma_from_t<Data>(s: Seq<TopoRegion<Data>>, n: int, e: int)
    requires 0 <= n <= s.len(), s.len() <= usize::MAX, forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> n_rings(s[i]) <= usize::MAX
    ensures all_from(s, uses_t(s, n, e), e), in_order(uses_t(s, n, e), n)
    decreases n
{
    if n > 0 {
        lemma_from_t(s, n - 1, e);
        assert(n_rings(s[n - 1]) <= usize::MAX);
        lemma_from_r(s, n - 1, n_rings(s[n - 1]), e);
        let u = uses_t(s, n, e); let v = uses_t(s, n - 1, e); let x = uses_r(s[n - 1], n_rings(s[n - 1]), e, n - 1);
        assert forall|y: int| #![trigger u[y]] 0 <= y < u.len() implies from_ring(s, u[y], e) && u[y]->At_0 < n && (y >= v.len() ==> u[y]->At_0 == n - 1) && (y < v.len() ==> u[y] == v[y]) by { if y < v.len() { assert(u[y] == v[y]); } else { assert(u[y] == x[y - v.len()]); } }
    }
}
/// Two uses by one region are two entries.
pub proof fn lemma_twice<Data>(s: Seq<TopoRegion<Data>>, i: int, k: int, j: int, k2: int, j2: int, e: int)
    requires uses_edge(s, i, k, j, e), uses_edge(s, i, k2, j2, e), k < k2 || (k == k2 && j < j2)
    ensures uses_t(s, s.len() as int, e).len() >= 2
{
    let g = s[i]; let d = ring_k(g, k).directed_edges@; let d2 = ring_k(g, k2).directed_edges@; let p = Ptr::At(i as usize, k as usize); let p2 = Ptr::At(i as usize, k2 as usize);
    lemma_uses_d_mono(d2, j2 + 1, d2.len() as int, e, p2);
    if k < k2 {
        lemma_uses_d_mono(d, j + 1, d.len() as int, e, p);
        lemma_uses_r_mono(g, k + 1, k2, e, i);
    } else {
        lemma_uses_d_mono(d, j + 1, j2, e, p);
    }
    lemma_uses_r_mono(g, k2 + 1, n_rings(g), e, i);
    lemma_uses_t_mono(s, i + 1, s.len() as int, e);
}
// ---- the inputs C17 is about --------------------------------------------------------------------------------------------
pub open spec fn on_edge<Data>(t: Topology<Data>, e: int, m: int, p: Point, q: Point) -> bool {
    let s = t.edges@[e].points@;
    0 <= e < t.edges@.len() && 0 <= m < s.len() - 1 && ((s[m] == p && s[m + 1] == q) || (s[m] == q && s[m + 1] == p))
}
/// Each segment lies on one edge, once.
#[verifier::opaque]
pub open spec fn cut_well<Data>(t: Topology<Data>) -> bool {
    &&& forall|e: int, m: int, p: Point, q: Point| #[trigger] on_edge(t, e, m, p, q) ==> p != q
    &&& forall|e: int, m: int, e2: int, m2: int, p: Point, q: Point| #![trigger on_edge(t, e, m, p, q), on_edge(t, e2, m2, p, q)] on_edge(t, e, m, p, q) && on_edge(t, e2, m2, p, q) ==> e == e2 && m == m2
}
/// A region passes each point once.
#[verifier::opaque]
pub open spec fn no_touch<Data>(t: Topology<Data>) -> bool { forall|i: int, x: Point| #![trigger region_tot(f_leave(x), t.regions@[i])] 0 <= i < t.regions@.len() ==> region_tot(f_leave(x), t.regions@[i]) <= 1 }
/// Regions do not overlap: no two of them lie on the same side of a segment.
#[verifier::opaque]
pub open spec fn apart<Data>(t: Topology<Data>) -> bool { forall|i: int, j: int, p: Point, q: Point| #![trigger region_tot(f_seg(p, q), t.regions@[i]), region_tot(f_seg(p, q), t.regions@[j])] 0 <= i < t.regions@.len() && 0 <= j < t.regions@.len() && region_tot(f_seg(p, q), t.regions@[i]) > 0 && region_tot(f_seg(p, q), t.regions@[j]) > 0 ==> i == j }
pub open spec fn part_of<Data>(w: Seq<Side>, g: TopoRegion<Data>) -> bool { forall|f: F| nonneg(f) ==> #[trigger] tot(f, w) <= region_tot(f, g) }
/// A closed walk that is part of a region's border encloses some area.
#[verifier::opaque]
pub open spec fn areal<Data>(t: Topology<Data>) -> bool { forall|i: int, w: Seq<Side>| #![trigger part_of(w, t.regions@[i])] 0 <= i < t.regions@.len() && part_of(w, t.regions@[i]) && ring_ok(w) ==> area(w) != 0 }
/// Regions that do not overlap, none touching itself at an isolated point, with rings cut wherever three of them meet.
pub open spec fn planar<Data>(t: Topology<Data>) -> bool { cut_well(t) && no_touch(t) && apart(t) && areal(t) && all_lasting(t) }

pub open spec fn fine<Data>(t: Topology<Data>) -> bool { topo_fine(t) && heap_is(t) && sized(t) }
#[verifier::opaque]
pub open spec fn finals<Data>(t: Topology<Data>, x: Rss) -> bool { x.len() == t.regions@.len() && forall|i: int| #![trigger x[i]] 0 <= i < x.len() ==> final_rings(t.regions@[i], x[i]) }
/// The edge behind a segment of the input.
pub open spec fn edge_k<Data>(g: TopoRegion<Data>, k: int, j: int) -> int { ptr_ix(ring_k(g, k).directed_edges@[j].edge) }
pub open spec fn ixm(s: Seq<Point>, d: Direction, m: int) -> int { if d is Forward { m } else { s.len() - 2 - m } }
pub proof fn lemma_edge<Data>(t: Topology<Data>, i: int, k: int, j: int, m: int, p: Point, q: Point, a: Ptr, b: Ptr)
    requires fine(t), 0 <= i < t.regions@.len(), in_seg(t.regions@[i], k, j, m, p, q, a, b)
    ensures ({ let e = edge_k(t.regions@[i], k, j); let d = ring_k(t.regions@[i], k).directed_edges@[j]; let te = t.edges@[e]; &&& uses_edge(t.regions@, i, k, j, e) && 0 <= e < t.edges@.len()
        &&& on_edge(t, e, ixm(te.points@, d.direction, m), p, q)
        &&& slots(uses_t(t.regions@, t.regions@.len() as int, e), te.rings@) && a == ring_region(te.rings@[0]) && b == (if te.rings@[1] == Ptr::Null { Ptr::Null } else { ring_region(te.rings@[1]) }) })
{
    let g = t.regions@[i]; let r = ring_k(g, k);
    assert(region_refs_ok(g, i, t.edges@.len() as int));
    let d = r.directed_edges@[j];
    assert(edge_in(d, t.edges@.len() as int));
    let e = ptr_ix(d.edge); let te = t.edges@[e];
    assert(heap::<TopoEdge>(d.edge) == te);
    assert(sides_of(r)[j] == in_side(d));
    assert(slots(uses_t(t.regions@, t.regions@.len() as int, e), te.rings@));
}
/// What the two ring references of an edge say.
pub proof fn lemma_slot<Data>(t: Topology<Data>, e: int, y: int)
    requires fine(t), 0 <= e < t.edges@.len(), 0 <= y < uses_t(t.regions@, t.regions@.len() as int, e).len()
    ensures ({ let p = uses_t(t.regions@, t.regions@.len() as int, e)[y]; p is At && p->At_0 < t.regions@.len() && ring_region(p) == Ptr::At(p->At_0, 0) && from_ring(t.regions@, p, e) })
{
    let s = t.regions@;
    lemma_from_t(s, s.len() as int, e);
    let u = uses_t(s, s.len() as int, e); let p = u[y];
    assert(from_ring(s, u[y], e));
    let j = choose|j: int| #[trigger] uses_edge(s, p->At_0 as int, p->At_1 as int, j, e);
    let g = s[p->At_0 as int]; let k = p->At_1 as int;
    assert(region_refs_ok(g, p->At_0 as int, t.edges@.len() as int));
    assert(heap::<TopoRing>(Ptr::At(p->At_0 as int as usize, k as usize)) == ring_k(g, k));
}
pub open spec fn lab(e: Side, a: Ptr, b: Ptr) -> bool { e.a == a && e.b == b }
/// The labels of a segment name its region, in order.
pub proof fn lemma_label<Data>(t: Topology<Data>, i: int, k: int, j: int, m: int, p: Point, q: Point, e: Side)
    requires fine(t), 0 <= i < t.regions@.len(), in_seg(t.regions@[i], k, j, m, p, q, e.a, e.b), e.a != e.b
    ensures label_ok(i, e, t.regions@.len() as int), ({ let c = edge_k(t.regions@[i], k, j); e.b == Ptr::Null <==> uses_t(t.regions@, t.regions@.len() as int, c).len() == 1 })
{
    let s = t.regions@; let n = s.len() as int;
    lemma_edge(t, i, k, j, m, p, q, e.a, e.b);
    let c = edge_k(s[i], k, j); let u = uses_t(s, n, c);
    lemma_has_t(s, n, c, i, k, j);
    let y = choose|y: int| 0 <= y < u.len() && #[trigger] u[y] == Ptr::At(i as usize, k as usize);
    lemma_slot(t, c, 0); if u.len() > 1 { lemma_slot(t, c, 1); }
    lemma_from_t(s, n, c);
    if u.len() > 1 { assert(u[0]->At_0 <= u[1]->At_0); }
}
/// The neighbour has the segment the other way round.
pub proof fn lemma_neighbour<Data>(t: Topology<Data>, i: int, k: int, j: int, m: int, p: Point, q: Point, e: Side)
    requires fine(t), apart(t), 0 <= i < t.regions@.len(), in_seg(t.regions@[i], k, j, m, p, q, e.a, e.b), e.a != e.b, e.b != Ptr::Null
    ensures ({ let o = other(i, e); 0 <= o < t.regions@.len() && o != i && other(o, e) == i && region_tot(f_lab(q, p, e.a, e.b), t.regions@[o]) > 0 })
{
    let s = t.regions@; let n = s.len() as int;
    lemma_label(t, i, k, j, m, p, q, e); lemma_edge(t, i, k, j, m, p, q, e.a, e.b);
    let c = edge_k(s[i], k, j); let u = uses_t(s, n, c); let o = other(i, e); let te = t.edges@[c];
    lemma_slot(t, c, 0); lemma_slot(t, c, 1);
    let y: int = if u[0]->At_0 == o { 0 } else { 1 };
    assert(u[y]->At_0 == o);
    let v = u[y]; let k2 = v->At_1 as int;
    let j2 = choose|j2: int| #[trigger] uses_edge(s, v->At_0 as int, v->At_1 as int, j2, c);
    let g = s[o]; let r = ring_k(g, k2); let d = r.directed_edges@[j2];
    assert(region_refs_ok(g, o, t.edges@.len() as int)); assert(edge_in(d, t.edges@.len() as int));
    assert(d.edge == Ptr::At(c as usize, 0)); assert(heap::<TopoEdge>(d.edge) == te);
    assert(sides_of(r)[j2] == in_side(d));
    let d0 = ring_k(s[i], k).directed_edges@[j];
    assert(region_refs_ok(s[i], i, t.edges@.len() as int)); assert(edge_in(d0, t.edges@.len() as int)); assert(sides_of(ring_k(s[i], k))[j] == in_side(d0));
    assert(d0.edge == d.edge);
    let m0 = ixm(te.points@, d0.direction, m); let m2 = ixm(te.points@, d.direction, m0);
    let back = against(sides_of(r), order_k(g, k2));
    let f = f_seg(p, q); let h = f_lab(q, p, e.a, e.b);
    if in_seg(g, k2, j2, m2, p, q, e.a, e.b) {
        lemma_ge_region(f, g, k2, j2, m2, p, q, e.a, e.b); lemma_ge_region(f, s[i], k, j, m, p, q, e.a, e.b);
        reveal(apart); assert(region_tot(f_seg(p, q), t.regions@[i]) > 0 && region_tot(f_seg(p, q), t.regions@[o]) > 0);
        assert(false);
    }
    assert(in_seg(g, k2, j2, m2, q, p, e.a, e.b));
    lemma_ge_region(h, g, k2, j2, m2, q, p, e.a, e.b);
}
pub proof fn use_final<Data>(t: Topology<Data>, x: Rss, i: int, f: F)
    requires finals(t, x), 0 <= i < x.len()
    ensures tot_r(f, x[i]) == region_tot(f, t.regions@[i]), norm_rings(x[i]), useful_rings(x[i]), x.len() == t.regions@.len()
{ reveal(finals); reveal(same_sums); assert(final_rings(t.regions@[i], x[i])); }
/// Where a segment of the result comes from.
pub proof fn lemma_src<Data>(t: Topology<Data>, x: Rss, i: int, r: int, s: int, m: int) -> (z: (int, int, int))
    requires finals(t, x), loc(x, i, r, s, m)
    ensures ({ let e = x[i][r][s]; in_seg(t.regions@[i], z.0, z.1, z.2, e.points[m], e.points[m + 1], e.a, e.b) && e.a != e.b && i < t.regions@.len() })
{
    let e = x[i][r][s]; let f = f_lab(e.points[m], e.points[m + 1], e.a, e.b); let g = t.regions@[i];
    use_final(t, x, i, f);
    lemma_ge(f, x[i], r, s, m);
    let z = lemma_pos_region(f, g);
    let (p, q, a, b) = choose|p: Point, q: Point, a: Ptr, b: Ptr| #[trigger] in_seg(g, z.0, z.1, z.2, p, q, a, b) && f(p, q, a, b) > 0 && a != b;
    z
}
pub proof fn lemma_world_out<Data>(t: Topology<Data>, x: Rss)
    requires finals(t, x), no_touch(t)
    ensures one_out(x), one_in(x)
{
    reveal(one_out); reveal(one_in);
    assert forall|i: int, r: int, s: int, m: int, r2: int, s2: int, m2: int| #![trigger loc(x, i, r, s, m), loc(x, i, r2, s2, m2)] loc(x, i, r, s, m) && loc(x, i, r2, s2, m2) && x[i][r][s].points[m] == x[i][r2][s2].points[m2] implies r == r2 && s == s2 && m == m2 by {
        let f = f_leave(x[i][r][s].points[m]); use_final(t, x, i, f);
        if !(r == r2 && s == s2 && m == m2) { lemma_two(f, x[i], r, s, m, r2, s2, m2); reveal(no_touch); }
    }
    assert forall|i: int, r: int, s: int, m: int, r2: int, s2: int, m2: int| #![trigger loc(x, i, r, s, m), loc(x, i, r2, s2, m2)] loc(x, i, r, s, m) && loc(x, i, r2, s2, m2) && x[i][r][s].points[m + 1] == x[i][r2][s2].points[m2 + 1] implies r == r2 && s == s2 && m == m2 by {
        let p = x[i][r][s].points[m + 1]; let f = f_enter(p); use_final(t, x, i, f_leave(p));
        lemma_tele_r(p, x[i], x[i].len() as int);
        if !(r == r2 && s == s2 && m == m2) { lemma_two(f, x[i], r, s, m, r2, s2, m2); reveal(no_touch); }
    }
}
pub proof fn lemma_world_mates<Data>(t: Topology<Data>, x: Rss)
    requires fine(t), finals(t, x), apart(t)
    ensures mates(x), no_dup(x), labels(x), all_norm(x)
{
    reveal(mates); reveal(no_dup); reveal(labels); reveal(all_norm); reveal(finals);
    assert forall|i: int| #![trigger x[i]] 0 <= i < x.len() implies norm_rings(x[i]) by { use_final(t, x, i, f_one()); }
    assert forall|i: int, r: int, s: int, m: int| #[trigger] loc(x, i, r, s, m) && x[i][r][s].b != Ptr::Null implies mate(x, i, x[i][r][s], x[i][r][s].points[m], x[i][r][s].points[m + 1]) by {
        let e = x[i][r][s]; let p = e.points[m]; let q = e.points[m + 1];
        let z = lemma_src(t, x, i, r, s, m);
        lemma_neighbour(t, i, z.0, z.1, z.2, p, q, e);
        let o = other(i, e); let f = f_lab(q, p, e.a, e.b);
        use_final(t, x, o, f);
        let y = lemma_pos_r(f, x[o], x[o].len() as int);
        assert(seg(x, o, y.0, y.1, y.2, q, p) && same_sides(x[o][y.0][y.1], e));
    }
    assert forall|i: int, r: int, s: int, m: int, i2: int, r2: int, s2: int, m2: int| #![trigger loc(x, i, r, s, m), loc(x, i2, r2, s2, m2)] loc(x, i, r, s, m) && loc(x, i2, r2, s2, m2) && x[i][r][s].points[m] == x[i2][r2][s2].points[m2] && x[i][r][s].points[m + 1] == x[i2][r2][s2].points[m2 + 1] implies i == i2 by {
        let p = x[i][r][s].points[m]; let q = x[i][r][s].points[m + 1]; let f = f_seg(p, q);
        use_final(t, x, i, f); use_final(t, x, i2, f);
        lemma_ge(f, x[i], r, s, m); lemma_ge(f, x[i2], r2, s2, m2);
        reveal(apart);
        assert(region_tot(f_seg(p, q), t.regions@[i]) > 0 && region_tot(f_seg(p, q), t.regions@[i2]) > 0);
    }
    assert forall|i: int, r: int, s: int| #![trigger x[i][r][s]] 0 <= i < x.len() && 0 <= r < x[i].len() && 0 <= s < x[i][r].len() implies label_ok(i, x[i][r][s], x.len() as int) by {
        use_norm(x, i, r); lemma_around(x[i][r], s);
        assert(loc(x, i, r, s, 0));
        let e = x[i][r][s];
        let z = lemma_src(t, x, i, r, s, 0);
        lemma_label(t, i, z.0, z.1, z.2, e.points[0], e.points[1], e);
    }
}
pub proof fn lemma_world_opp<Data>(t: Topology<Data>, x: Rss)
    requires fine(t), finals(t, x), apart(t), cut_well(t), mates(x), no_dup(x)
    ensures opposite(x)
{
    reveal(opposite);
    assert forall|i: int, r: int, s: int, m: int, i2: int, r2: int, s2: int, m2: int| #![trigger loc(x, i, r, s, m), loc(x, i2, r2, s2, m2)] loc(x, i, r, s, m) && loc(x, i2, r2, s2, m2) && x[i][r][s].points[m] == x[i2][r2][s2].points[m2 + 1] && x[i][r][s].points[m + 1] == x[i2][r2][s2].points[m2] implies same_sides(x[i][r][s], x[i2][r2][s2]) && x[i][r][s].b != Ptr::Null && i2 == other(i, x[i][r][s]) by {
        lemma_opp(t, x, i, r, s, m, i2, r2, s2, m2);
    }
}
pub proof fn lemma_opp<Data>(t: Topology<Data>, x: Rss, i: int, r: int, s: int, m: int, i2: int, r2: int, s2: int, m2: int)
    requires fine(t), finals(t, x), apart(t), cut_well(t), mates(x), no_dup(x),
        loc(x, i, r, s, m), loc(x, i2, r2, s2, m2), x[i][r][s].points[m] == x[i2][r2][s2].points[m2 + 1], x[i][r][s].points[m + 1] == x[i2][r2][s2].points[m2]
    ensures same_sides(x[i][r][s], x[i2][r2][s2]) && x[i][r][s].b != Ptr::Null && i2 == other(i, x[i][r][s])
{
    let e = x[i][r][s]; let e2 = x[i2][r2][s2]; let p = e.points[m]; let q = e.points[m + 1]; let g = t.regions@;
    let z = lemma_src(t, x, i, r, s, m); let y = lemma_src(t, x, i2, r2, s2, m2);
    lemma_edge(t, i, z.0, z.1, z.2, p, q, e.a, e.b); lemma_edge(t, i2, y.0, y.1, y.2, q, p, e2.a, e2.b);
    lemma_label(t, i, z.0, z.1, z.2, p, q, e); lemma_label(t, i2, y.0, y.1, y.2, q, p, e2);
    let c = edge_k(g[i], z.0, z.1); let c2 = edge_k(g[i2], y.0, y.1);
    let mz = ixm(t.edges@[c].points@, ring_k(g[i], z.0).directed_edges@[z.1].direction, z.2);
    let my = ixm(t.edges@[c2].points@, ring_k(g[i2], y.0).directed_edges@[y.1].direction, y.2);
    assert(on_edge(t, c, mz, p, q)); assert(on_edge(t, c2, my, p, q));
    assert(c == c2 && mz == my && p != q) by { reveal(cut_well); }
    assert(same_sides(e, e2));
    if e.b == Ptr::Null {
        assert(i == i2);
        if z.0 < y.0 || (z.0 == y.0 && z.1 < y.1) { lemma_twice(g, i, z.0, z.1, y.0, y.1, c); }
        if y.0 < z.0 || (z.0 == y.0 && y.1 < z.1) { lemma_twice(g, i, y.0, y.1, z.0, z.1, c); }
        assert(z.2 == y.2);
        assert(false);
    }
    let v = use_mate(x, i, r, s, m);
    let o = other(i, e);
    assert(loc(x, o, v.0, v.1, v.2));
    reveal(no_dup);
}
pub proof fn lemma_world<Data>(t: Topology<Data>, x: Rss)
    requires fine(t), finals(t, x), planar(t)
    ensures world(x)
{ reveal(finals); lemma_world_out(t, x); lemma_world_mates(t, x); lemma_world_opp(t, x); }
// ---- the result ------------------------------------------------------------------------------------------------------------
/// Which ring of x is ring k of region i of the result.
pub open spec fn cix(x: Rss, i: int, k: int) -> int {
    let n = x[i].len() as int; let a = pick_n(x[i], true, n); let b = pick_n(x[i], false, n);
    if k < a.len() { a[k] } else { b[k - a.len()] }
}
pub open spec fn ring_link<Data>(x: Rss, r: Topology<Data>, i: int, k: int) -> bool {
    let c = cix(x, i, k); let d = ring_k(r.regions@[i], k).directed_edges@;
    0 <= c < x[i].len() && d.len() == x[i][c].len() && forall|j: int| #![trigger d[j]] 0 <= j < d.len() ==> edge_in(d[j], r.edges@.len() as int) && x[i][c][j].points == directed(r.edges@[ptr_ix(d[j].edge)].points@, d[j].direction)
}
#[verifier::opaque]
pub open spec fn link_all<Data>(x: Rss, r: Topology<Data>) -> bool { forall|i: int, k: int| #![trigger ring_k(r.regions@[i], k)] 0 <= i < x.len() && 0 <= k < n_rings(r.regions@[i]) ==> ring_link(x, r, i, k) }
#[verifier::opaque]
pub open spec fn link_inj<Data>(x: Rss, r: Topology<Data>) -> bool { forall|i: int, k: int, k2: int| #![trigger cix(x, i, k), cix(x, i, k2)] 0 <= i < x.len() && 0 <= k < n_rings(r.regions@[i]) && 0 <= k2 < n_rings(r.regions@[i]) && cix(x, i, k) == cix(x, i, k2) ==> k == k2 }
pub open spec fn hit<Data>(x: Rss, r: Topology<Data>, i: int, c: int) -> bool { exists|k: int| 0 <= k < n_rings(r.regions@[i]) && #[trigger] cix(x, i, k) == c }
#[verifier::opaque]
pub open spec fn link_onto<Data>(x: Rss, r: Topology<Data>) -> bool { forall|i: int, c: int| #![trigger x[i][c]] 0 <= i < x.len() && 0 <= c < x[i].len() ==> area(x[i][c]) != 0 && hit(x, r, i, c) }
pub open spec fn linked<Data>(x: Rss, r: Topology<Data>) -> bool { r.regions@.len() == x.len() && link_all(x, r) && link_inj(x, r) && link_onto(x, r) }
pub proof fn use_link<Data>(x: Rss, r: Topology<Data>, i: int, k: int)
    requires linked(x, r), 0 <= i < x.len(), 0 <= k < n_rings(r.regions@[i])
    ensures ring_link(x, r, i, k)
{ reveal(link_all); let z = ring_k(r.regions@[i], k); }
pub proof fn use_inj<Data>(x: Rss, r: Topology<Data>, i: int, k: int, k2: int)
    requires linked(x, r), 0 <= i < x.len(), 0 <= k < n_rings(r.regions@[i]), 0 <= k2 < n_rings(r.regions@[i]), cix(x, i, k) == cix(x, i, k2)
    ensures k == k2
{ reveal(link_inj); }
pub proof fn use_onto<Data>(x: Rss, r: Topology<Data>, i: int, c: int) -> (k: int)
    requires linked(x, r), 0 <= i < x.len(), 0 <= c < x[i].len()
    ensures 0 <= k < n_rings(r.regions@[i]), cix(x, i, k) == c, area(x[i][c]) != 0
{ assert(hit(x, r, i, c) && area(x[i][c]) != 0) by { reveal(link_onto); } choose|k: int| 0 <= k < n_rings(r.regions@[i]) && #[trigger] cix(x, i, k) == c }
pub proof fn lemma_picks(rs: Seq<Seq<Side>>, pos: bool, n: int, c: int) -> (k: int)
    requires 0 <= c < n <= rs.len(), if pos { area(rs[c]) > 0 } else { area(rs[c]) < 0 }
    ensures 0 <= k < pick_n(rs, pos, n).len(), pick_n(rs, pos, n)[k] == c
    decreases n
{ if c == n - 1 { pick_n(rs, pos, n).len() - 1 } else { lemma_picks(rs, pos, n - 1, c) } }
pub proof fn lemma_part<Data>(t: Topology<Data>, x: Rss, i: int, c: int)
    requires finals(t, x), areal(t), 0 <= i < x.len(), 0 <= c < x[i].len()
    ensures area(x[i][c]) != 0
{
    let w = x[i][c]; let g = t.regions@[i];
    use_final(t, x, i, f_one());
    assert forall|f: F| nonneg(f) implies #[trigger] tot(f, w) <= region_tot(f, g) by { use_final(t, x, i, f); lemma_ge_r(f, x[i], x[i].len() as int, c); }
    assert(part_of(w, t.regions@[i]));
    assert(norm_ring(x[i][c]));
    reveal(areal);
}
pub proof fn lemma_rings_link<Data>(x: Rss, r: Topology<Data>, i: int)
    requires 0 <= i < x.len(), i < r.regions@.len(), refs_ok(r), topo_abs(r)[i].outer == picked(x[i], true), topo_abs(r)[i].inner == picked(x[i], false)
    ensures forall|k: int| #![trigger ring_k(r.regions@[i], k)] 0 <= k < n_rings(r.regions@[i]) ==> ring_link(x, r, i, k), n_rings(r.regions@[i]) == pick_n(x[i], true, x[i].len() as int).len() + pick_n(x[i], false, x[i].len() as int).len(), r.regions@[i].outer_rings@.len() == pick_n(x[i], true, x[i].len() as int).len()
{
    let n = x[i].len() as int; let g = r.regions@[i]; let a = topo_abs(r)[i]; let paths = edge_points(r.edges@); let u = pick_n(x[i], true, n); let v = pick_n(x[i], false, n);
    lemma_pick(x[i], true, n); lemma_pick(x[i], false, n);
    assert(a.outer.len() == g.outer_rings@.len() && a.inner.len() == g.inner_rings@.len());
    assert(region_refs_ok(g, i, r.edges@.len() as int));
    assert forall|k: int| #![trigger ring_k(r.regions@[i], k)] 0 <= k < n_rings(r.regions@[i]) implies ring_link(x, r, i, k) by {
        let c = cix(x, i, k); let q = ring_k(g, k); let d = q.directed_edges@;
        let w = if k < u.len() { a.outer[k] } else { a.inner[k - u.len()] };
        assert(w == paths_in(x[i][c])) by { if k < u.len() { assert(u[k] == c); } else { assert(v[k - u.len()] == c); } }
        assert(w == topo_ring_abs(paths, q));
        assert(d.len() == w.len());
        assert forall|j: int| #![trigger d[j]] 0 <= j < d.len() implies edge_in(d[j], r.edges@.len() as int) && x[i][c][j].points == directed(r.edges@[ptr_ix(d[j].edge)].points@, d[j].direction) by {
            assert(ring_in(q, r.edges@.len() as int)); assert(edge_in(q.directed_edges@[j], r.edges@.len() as int));
            assert(w[j] == x[i][c][j].points);
        }
    }
}
pub proof fn lemma_linked<Data: Clone>(t: Topology<Data>, x: Rss, r: Topology<Data>)
    requires norm_with(t, x, r), refs_ok(r), areal(t), all_lasting(t)
    ensures linked(x, r), finals(t, x)
{
    let n = t.regions@.len() as int; let a = topo_abs(r);
    assert(finals(t, x)) by { reveal(finals); }
    assert forall|i: int| #![trigger x[i]] 0 <= i < n implies picked(x[i], true).len() > 0 by {
        use_final(t, x, i, f_cross());
        assert(region_tot(f_cross(), t.regions@[i]) > 0);
        lemma_positive(x[i], x[i].len() as int);
    }
    lemma_kept(x, n);
    assert(a.len() == n && r.regions@.len() == n);
    assert forall|i: int| 0 <= i < n implies #[trigger] a[i].outer == picked(x[i], true) && a[i].inner == picked(x[i], false) by { assert(region_norm_ok(t.regions@[kept_n(x, n)[i]], x[kept_n(x, n)[i]], a[i])); }
    assert forall|i: int| 0 <= i < x.len() implies #[trigger] told(x, r, i) by { assert(a[i].outer == picked(x[i], true)); }
    lemma_link_all(x, r); lemma_link_inj(x, r); lemma_link_onto(t, x, r);
}
pub open spec fn told<Data>(x: Rss, r: Topology<Data>, i: int) -> bool { topo_abs(r)[i].outer == picked(x[i], true) && topo_abs(r)[i].inner == picked(x[i], false) }
pub open spec fn all_told<Data>(x: Rss, r: Topology<Data>) -> bool { r.regions@.len() == x.len() && refs_ok(r) && forall|i: int| 0 <= i < x.len() ==> #[trigger] told(x, r, i) }
pub proof fn lemma_link_all<Data>(x: Rss, r: Topology<Data>)
    requires all_told(x, r)
    ensures link_all(x, r)
{
    reveal(link_all);
    assert forall|i: int, k: int| #![trigger ring_k(r.regions@[i], k)] 0 <= i < x.len() && 0 <= k < n_rings(r.regions@[i]) implies ring_link(x, r, i, k) by { assert(told(x, r, i)); lemma_rings_link(x, r, i); }
}
pub proof fn lemma_link_inj<Data>(x: Rss, r: Topology<Data>)
    requires all_told(x, r)
    ensures link_inj(x, r)
{
    reveal(link_inj);
    assert forall|i: int, k: int, k2: int| #![trigger cix(x, i, k), cix(x, i, k2)] 0 <= i < x.len() && 0 <= k < n_rings(r.regions@[i]) && 0 <= k2 < n_rings(r.regions@[i]) && cix(x, i, k) == cix(x, i, k2) implies k == k2 by {
        assert(told(x, r, i)); lemma_rings_link(x, r, i);
        let m = x[i].len() as int; lemma_pick(x[i], true, m); lemma_pick(x[i], false, m); let u = pick_n(x[i], true, m); let v = pick_n(x[i], false, m);
        let l = u.len() as int;
        if k < l && k2 < l { if k < k2 { assert(u[k] < u[k2]); } if k2 < k { assert(u[k2] < u[k]); } }
        else if k >= l && k2 >= l { if k < k2 { assert(v[k - l] < v[k2 - l]); } if k2 < k { assert(v[k2 - l] < v[k - l]); } }
        else if k < l { assert(u[k] == v[k2 - l]); } else { assert(u[k2] == v[k - l]); }
    }
}
pub proof fn lemma_link_onto<Data>(t: Topology<Data>, x: Rss, r: Topology<Data>)
    requires all_told(x, r), finals(t, x), areal(t)
    ensures link_onto(x, r)
{
    reveal(link_onto);
    assert forall|i: int, c: int| #![trigger x[i][c]] 0 <= i < x.len() && 0 <= c < x[i].len() implies area(x[i][c]) != 0 && hit(x, r, i, c) by {
        assert(told(x, r, i)); lemma_rings_link(x, r, i);
        lemma_part(t, x, i, c);
        let pos = area(x[i][c]) > 0; let m = x[i].len() as int;
        let k = lemma_picks(x[i], pos, m, c);
        let kk = if pos { k } else { k + pick_n(x[i], true, m).len() };
        assert(cix(x, i, kk) == c);
    }
}
// ---- what C17 says ------------------------------------------------------------------------------------------------------------
/// Every segment lies on one stored edge, once.
#[verifier::opaque]
pub open spec fn one_place<Data>(r: Topology<Data>) -> bool { forall|e: int, m: int, e2: int, m2: int, p: Point, q: Point| #![trigger on_edge(r, e, m, p, q), on_edge(r, e2, m2, p, q)] on_edge(r, e, m, p, q) && on_edge(r, e2, m2, p, q) ==> e == e2 && m == m2 }
pub open spec fn dir_of<Data>(r: Topology<Data>, i: int, k: int, j: int) -> Direction { ring_k(r.regions@[i], k).directed_edges@[j].direction }
/// Two uses of an edge are by two regions, one in each direction.
#[verifier::opaque]
pub open spec fn two_sided<Data>(r: Topology<Data>) -> bool { forall|i: int, k: int, j: int, i2: int, k2: int, j2: int, e: int| #![trigger uses_edge(r.regions@, i, k, j, e), uses_edge(r.regions@, i2, k2, j2, e)] uses_edge(r.regions@, i, k, j, e) && uses_edge(r.regions@, i2, k2, j2, e) ==> (i == i2 && k == k2 && j == j2) || (i != i2 && dir_of(r, i, k, j) != dir_of(r, i2, k2, j2)) }
pub open spec fn used_by<Data>(r: Topology<Data>, i: int, e: int) -> bool { exists|k: int, j: int| #[trigger] uses_edge(r.regions@, i, k, j, e) }
pub open spec fn same_users<Data>(r: Topology<Data>, e: int, e2: int) -> bool { forall|i: int| #![trigger used_by(r, i, e)] #![trigger used_by(r, i, e2)] 0 <= i < r.regions@.len() ==> used_by(r, i, e) == used_by(r, i, e2) }
pub open spec fn next_j(n: int, j: int) -> int { if j + 1 < n { j + 1 } else { 0 } }
/// Consecutive edges of a ring are used by different sets of regions.
#[verifier::opaque]
pub open spec fn few_nodes<Data>(r: Topology<Data>) -> bool { forall|i: int, k: int, j: int, e: int| #![trigger uses_edge(r.regions@, i, k, j, e)] uses_edge(r.regions@, i, k, j, e) && ring_k(r.regions@[i], k).directed_edges@.len() > 1 ==> !same_users(r, e, edge_k(r.regions@[i], k, next_j(ring_k(r.regions@[i], k).directed_edges@.len() as int, j))) }
pub open spec fn borders_shared<Data>(r: Topology<Data>) -> bool { one_place(r) && two_sided(r) && few_nodes(r) }

pub open spec fn edges_fine<Data>(r: Topology<Data>) -> bool {
    &&& forall|e: int| #![trigger r.edges@[e]] 0 <= e < r.edges@.len() ==> canonical(r.edges@[e].points@) && !degenerate(r.edges@[e].points@)
    &&& edge_points(r.edges@).no_duplicates() && all_used(edge_points(r.edges@), topo_abs(r))
}
pub open spec fn side_at(x: Rss, i: int, c: int, s: int) -> bool { 0 <= i < x.len() && 0 <= c < x[i].len() && 0 <= s < x[i][c].len() }
pub open spec fn either(p: Seq<Point>, s: Seq<Point>) -> bool { p == s || p == s.reverse() }
pub proof fn lemma_rr(s: Seq<Point>)
    ensures s.reverse().reverse() == s
{ assert(s.reverse().reverse() =~= s); }
/// A side that is closed is a whole ring, so it has an area.
pub proof fn lemma_closed_side<Data>(x: Rss, r: Topology<Data>, i: int, c: int, s: int)
    requires world(x), linked(x, r), side_at(x, i, c, s), x[i][c][s].points[0] == x[i][c][s].points.last()
    ensures shoelace(x[i][c][s].points) != 0
{
    let w = x[i][c];
    use_norm(x, i, c); lemma_around(w, s);
    assert(loc(x, i, c, s, 0)); assert(loc(x, i, c, succ(w, s), 0));
    use_out(x, i, c, s, 0, c, succ(w, s), 0);
    let k = use_onto(x, r, i, c);
    lemma_abs_area(w, 1);
    assert(w.len() == 1 && s == 0);
    let pw = paths_in(w);
    assert(pw[0] == w[0].points);
    assert(abs_area_n(pw, 1) == abs_area_n(pw, 0) + shoelace(pw[0]));
    assert(abs_area_n(pw, 0) == 0);
}
/// Edges that follow the same side are the same.
pub proof fn lemma_same_path<Data>(x: Rss, r: Topology<Data>, i: int, c: int, s: int, e: int, e2: int)
    requires world(x), linked(x, r), edges_fine(r), side_at(x, i, c, s), 0 <= e < r.edges@.len(), 0 <= e2 < r.edges@.len(),
        either(r.edges@[e].points@, x[i][c][s].points), either(r.edges@[e2].points@, x[i][c][s].points)
    ensures e == e2
{
    let y = x[i][c][s].points; let p = r.edges@[e].points@; let q = r.edges@[e2].points@;
    assert(canonical(p) && canonical(q));
    use_norm(x, i, c); lemma_around(x[i][c], s);
    assert(y.reverse()[0] == y.last() && y.reverse().last() == y[0]);
    lemma_shoelace_rev(y);
    if y[0] == y.last() { lemma_closed_side(x, r, i, c, s); }
    assert(p == q);
    assert(edge_points(r.edges@)[e] == edge_points(r.edges@)[e2]);
}
/// Every stored edge follows a side.
pub proof fn lemma_some_side<Data: Clone>(t: Topology<Data>, x: Rss, r: Topology<Data>, e: int) -> (z: (int, int, int))
    requires norm_with(t, x, r), all_used(edge_points(r.edges@), topo_abs(r)), 0 <= e < r.edges@.len(), all_lasting(t), finals(t, x)
    ensures side_at(x, z.0, z.1, z.2), either(r.edges@[e].points@, x[z.0][z.1][z.2].points)
{
    reveal(all_used); reveal(finals);
    let a = topo_abs(r); let p = edge_points(r.edges@)[e]; let n = t.regions@.len() as int;
    assert(used(p, a));
    let i0 = choose|i: int| 0 <= i < a.len() && used_region(p, #[trigger] a[i]);
    lemma_kept(x, n);
    let i = kept_n(x, n)[i0];
    assert(region_norm_ok(t.regions@[i], x[i], a[i0]));
    let pos = used_rings(p, a[i0].outer); let s = picked(x[i], pos);
    assert(used_rings(p, s));
    let j = choose|j: int| 0 <= j < s.len() && used_ring(p, #[trigger] s[j]);
    let w = s[j];
    let k = choose|k: int| 0 <= k < w.len() && (#[trigger] w[k] == p || w[k] == p.reverse());
    let c = pick_n(x[i], pos, x[i].len() as int)[j];
    lemma_pick(x[i], pos, x[i].len() as int);
    assert(w == paths_in(x[i][c])); assert(w[k] == x[i][c][k].points);
    lemma_rr(p);
    (i, c, k)
}
pub open spec fn at_either(x: Rss, i: int, c: int, s: int, m: int, p: Point, q: Point) -> bool { seg(x, i, c, s, m, p, q) || seg(x, i, c, s, m, q, p) }
pub open spec fn mir(s: Seq<Point>, same: bool, m: int) -> int { if same { m } else { s.len() - 2 - m } }
pub proof fn lemma_place<Data>(x: Rss, r: Topology<Data>, i: int, c: int, s: int, e: int, m: int, p: Point, q: Point) -> (z: int)
    requires side_at(x, i, c, s), on_edge(r, e, m, p, q), either(r.edges@[e].points@, x[i][c][s].points)
    ensures at_either(x, i, c, s, z, p, q), z == mir(r.edges@[e].points@, r.edges@[e].points@ == x[i][c][s].points, m)
{
    let y = x[i][c][s].points; let w = r.edges@[e].points@;
    mir(w, w == y, m)
}
/// Two places with the same segment are on the same side, or on facing sides.
pub proof fn lemma_meet<Data>(x: Rss, r: Topology<Data>, i: int, c: int, s: int, m: int, i2: int, c2: int, s2: int, m2: int, p: Point, q: Point)
    requires world(x), at_either(x, i, c, s, m, p, q), at_either(x, i2, c2, s2, m2, p, q)
    ensures either(x[i2][c2][s2].points, x[i][c][s].points), i == i2 ==> c == c2 && s == s2 && m == m2, i == i2 || (x[i][c][s].b != Ptr::Null && i2 == other(i, x[i][c][s])),
        i == i2 <==> x[i][c][s].points[m] == x[i2][c2][s2].points[m2] && x[i][c][s].points[m + 1] == x[i2][c2][s2].points[m2 + 1]
{
    let e = x[i][c][s]; let e2 = x[i2][c2][s2];
    assert(loc(x, i, c, s, m)); assert(loc(x, i2, c2, s2, m2));
    if e.points[m] == e2.points[m2] && e.points[m + 1] == e2.points[m2 + 1] {
        assert(i == i2) by { reveal(no_dup); }
        use_out(x, i, c, s, m, c2, s2, m2);
    } else {
        assert(same_sides(e, e2) && e.b != Ptr::Null && i2 == other(i, e)) by { reveal(opposite); }
        let y = use_mate(x, i, c, s, m);
        let z = lemma_mate_side(x, i, c, s);
        let f = x[i2][z.0][z.1]; let n = f.points.len() - 2 - m;
        assert(loc(x, i2, z.0, z.1, n));
        assert(f.points[n] == e.points[m + 1]);
        use_out(x, i2, z.0, z.1, n, c2, s2, m2);
    }
}
pub proof fn lemma_one_place<Data: Clone>(t: Topology<Data>, x: Rss, r: Topology<Data>)
    requires world(x), linked(x, r), edges_fine(r), norm_with(t, x, r), all_lasting(t), finals(t, x)
    ensures one_place(r)
{
    reveal(one_place);
    assert forall|e: int, m: int, e2: int, m2: int, p: Point, q: Point| #![trigger on_edge(r, e, m, p, q), on_edge(r, e2, m2, p, q)] on_edge(r, e, m, p, q) && on_edge(r, e2, m2, p, q) implies e == e2 && m == m2 by {
        let z = lemma_some_side(t, x, r, e); let y = lemma_some_side(t, x, r, e2);
        let a = lemma_place(x, r, z.0, z.1, z.2, e, m, p, q); let b = lemma_place(x, r, y.0, y.1, y.2, e2, m2, p, q);
        lemma_meet(x, r, z.0, z.1, z.2, a, y.0, y.1, y.2, b, p, q);
        lemma_rr(x[z.0][z.1][z.2].points);
        lemma_same_path(x, r, z.0, z.1, z.2, e, e2);
        let d = lemma_place(x, r, z.0, z.1, z.2, e, m2, p, q);
        lemma_meet(x, r, z.0, z.1, z.2, a, z.0, z.1, z.2, d, p, q);
    }
}
/// Two uses of an edge.
pub proof fn lemma_two_uses<Data>(x: Rss, r: Topology<Data>, i: int, k: int, j: int, i2: int, k2: int, j2: int, e: int)
    requires world(x), linked(x, r), edges_fine(r), uses_edge(r.regions@, i, k, j, e), uses_edge(r.regions@, i2, k2, j2, e)
    ensures (i == i2 && k == k2 && j == j2) || (i != i2 && dir_of(r, i, k, j) != dir_of(r, i2, k2, j2) && x[i][cix(x, i, k)][j].b != Ptr::Null && i2 == other(i, x[i][cix(x, i, k)][j]))
{
    use_link(x, r, i, k); use_link(x, r, i2, k2);
    let d = ring_k(r.regions@[i], k).directed_edges@[j]; let d2 = ring_k(r.regions@[i2], k2).directed_edges@[j2];
    let c = cix(x, i, k); let c2 = cix(x, i2, k2); let w = x[i][c][j].points; let w2 = x[i2][c2][j2].points;
    assert(edge_in(d, r.edges@.len() as int));
    let p = r.edges@[e].points@;
    assert(w == directed(p, d.direction)); assert(w2 == directed(p, d2.direction));
    assert(!degenerate(r.edges@[e].points@));
    lemma_rr(p);
    let n = p.len() as int;
    let m2 = if d.direction == d2.direction { 0 } else { n - 2 };
    assert(loc(x, i, c, j, 0)); assert(loc(x, i2, c2, j2, m2));
    if d.direction == d2.direction { assert(w == w2); } else { assert(w2 == w.reverse()); }
    assert(at_either(x, i, c, j, 0, w[0], w[1])); assert(at_either(x, i2, c2, j2, m2, w[0], w[1]));
    lemma_meet(x, r, i, c, j, 0, i2, c2, j2, m2, w[0], w[1]);
    if i == i2 { use_inj(x, r, i, k, k2); }
    else { assert(d.direction != d2.direction); }
}
pub open spec fn named(e: Side, i: int) -> bool { e.a == Ptr::At(i as usize, 0) || e.b == Ptr::At(i as usize, 0) }
/// An edge is used by the regions its side names.
pub proof fn lemma_users<Data>(x: Rss, r: Topology<Data>, i: int, k: int, j: int, e: int, o: int)
    requires world(x), linked(x, r), edges_fine(r), uses_edge(r.regions@, i, k, j, e), 0 <= o < x.len()
    ensures used_by(r, o, e) == named(x[i][cix(x, i, k)][j], o)
{
    use_link(x, r, i, k);
    let c = cix(x, i, k); let y = x[i][c][j]; let d = ring_k(r.regions@[i], k).directed_edges@[j];
    assert(edge_in(d, r.edges@.len() as int));
    assert(label_ok(i, y, x.len() as int)) by { reveal(labels); }
    lemma_rr(r.edges@[e].points@);
    if used_by(r, o, e) {
        let (k2, j2) = choose|k2: int, j2: int| #[trigger] uses_edge(r.regions@, o, k2, j2, e);
        lemma_two_uses(x, r, i, k, j, o, k2, j2, e);
    }
    if named(y, o) && o != i {
        let z = lemma_mate_side(x, i, c, j);
        assert(o == other(i, y));
        let k2 = use_onto(x, r, o, z.0);
        use_link(x, r, o, k2);
        let d2 = ring_k(r.regions@[o], k2).directed_edges@[z.1]; let e2 = ptr_ix(d2.edge);
        assert(edge_in(d2, r.edges@.len() as int));
        lemma_rr(r.edges@[e2].points@); lemma_rr(y.points);
        assert(either(r.edges@[e].points@, y.points)); assert(either(r.edges@[e2].points@, y.points));
        lemma_same_path(x, r, i, c, j, e, e2);
        assert(uses_edge(r.regions@, o, k2, z.1, e));
    }
}
pub proof fn lemma_few_nodes<Data>(x: Rss, r: Topology<Data>, i: int, k: int, j: int, e: int)
    requires world(x), linked(x, r), edges_fine(r), uses_edge(r.regions@, i, k, j, e), ring_k(r.regions@[i], k).directed_edges@.len() > 1
    ensures !same_users(r, e, edge_k(r.regions@[i], k, next_j(ring_k(r.regions@[i], k).directed_edges@.len() as int, j)))
{
    use_link(x, r, i, k);
    let c = cix(x, i, k); let w = x[i][c]; let n = w.len() as int; let j2 = next_j(n, j); let e2 = edge_k(r.regions@[i], k, j2);
    use_norm(x, i, c); lemma_around(w, j);
    assert(j2 == succ(w, j));
    let y = w[j]; let z = w[j2];
    assert(label_ok(i, x[i][c][j], x.len() as int) && label_ok(i, x[i][c][j2], x.len() as int)) by { reveal(labels); }
    assert(uses_edge(r.regions@, i, k, j2, e2));
    if same_users(r, e, e2) {
        assert forall|o: int| 0 <= o < x.len() implies named(y, o) == #[trigger] named(z, o) by { lemma_users(x, r, i, k, j, e, o); lemma_users(x, r, i, k, j2, e2, o); assert(used_by(r, o, e) == used_by(r, o, e2)); }
        assert(named(z, ptr_ix(y.a))); assert(named(z, ptr_ix(z.a)));
        if y.b is At { assert(named(z, ptr_ix(y.b))); }
        if z.b is At { assert(named(z, ptr_ix(z.b))); }
        assert(named(y, ptr_ix(z.a)));
        assert(y.a == z.a); assert(y.b == z.b);
    }
}
/// C17.
pub proof fn lemma_borders<Data: Clone>(t: Topology<Data>, x: Rss, r: Topology<Data>)
    requires fine(t), planar(t), norm_with(t, x, r), refs_ok(r), edges_fine(r)
    ensures borders_shared(r)
{
    lemma_linked(t, x, r);
    lemma_world(t, x);
    lemma_one_place(t, x, r);
    assert(two_sided(r)) by {
        reveal(two_sided);
        assert forall|i: int, k: int, j: int, i2: int, k2: int, j2: int, e: int| #![trigger uses_edge(r.regions@, i, k, j, e), uses_edge(r.regions@, i2, k2, j2, e)] uses_edge(r.regions@, i, k, j, e) && uses_edge(r.regions@, i2, k2, j2, e) implies (i == i2 && k == k2 && j == j2) || (i != i2 && dir_of(r, i, k, j) != dir_of(r, i2, k2, j2)) by { lemma_two_uses(x, r, i, k, j, i2, k2, j2, e); }
    }
    assert(few_nodes(r)) by {
        reveal(few_nodes);
        assert forall|i: int, k: int, j: int, e: int| #![trigger uses_edge(r.regions@, i, k, j, e)] uses_edge(r.regions@, i, k, j, e) && ring_k(r.regions@[i], k).directed_edges@.len() > 1 implies !same_users(r, e, edge_k(r.regions@[i], k, next_j(ring_k(r.regions@[i], k).directed_edges@.len() as int, j))) by { lemma_few_nodes(x, r, i, k, j, e); }
    }
}
