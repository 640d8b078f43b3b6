%module clip::topology src/clip/topology.rs
%raw
use crate::geo::*;
use crate::clip::types::*;
use crate::clip::edge::*;
use crate::topology::types::*;
use crate::topology::build::{lemma_shoelace_rev, same_ring, same_region, lemma_same_region, lemma_uses_r_same, lemma_uses_t_same, null_edge, overused, lemma_overused};
%type EdgeId
%type BuildDirectedEdge
%type BuildRing
%type BuildRegion
%type BuildEdge #[derive(Clone, Copy, PartialEq, Eq)]
%type NewEdgeSet
%type Builder
%raw
impl Key for BuildEdge { type K = BuildEdge; open spec fn key(&self) -> BuildEdge { *self } }

// ---- what is to be built (C05) ----------------------------------------------------------------
/// What is left of a path: its clipping, or nothing if that has fewer than two points.
#[verifier::opaque]
pub open spec fn rest_of(s: Seq<Point>, m: ClipMask, c: Seq<Point>) -> bool {
    exists|o: Seq<Point>| #[trigger] clip_out(s, m, o) && c == (if o.len() >= 2 { o } else { Seq::<Point>::empty() })
}
pub open spec fn clip_out(s: Seq<Point>, m: ClipMask, o: Seq<Point>) -> bool { if s.len() >= 2 { is_clipped(s, m, o) } else { o.len() == 0 } }
pub proof fn lemma_rest(s: Seq<Point>, m: ClipMask, o: Seq<Point>)
    requires clip_out(s, m, o)
    ensures rest_of(s, m, if o.len() >= 2 { o } else { Seq::<Point>::empty() })
{ reveal(rest_of); }
pub open spec fn end_of(w: AbsRing) -> Point { w.last().last() }
/// The clipped paths of the first n directed edges in order, joined by straight edges where they do not meet.
pub open spec fn join_n(d: Seq<DirectedEdge>, clipped: Seq<Seq<Point>>, n: int) -> AbsRing decreases n {
    if n <= 0 { seq![] } else {
        let w = join_n(d, clipped, n - 1);
        let c = directed(clipped[ptr_ix(d[n - 1].edge)], d[n - 1].direction);
        if c.len() < 2 { w } else if w.len() > 0 && end_of(w) != c[0] { w.push(seq![end_of(w), c[0]]).push(c) } else { w.push(c) }
    }
}
pub open spec fn close(w: AbsRing) -> AbsRing { if w.len() > 0 && w[0][0] != end_of(w) { w.push(seq![end_of(w), w[0][0]]) } else { w } }
pub open spec fn ring_clip(r: TopoRing, clipped: Seq<Seq<Point>>) -> AbsRing { close(join_n(r.directed_edges@, clipped, r.directed_edges@.len() as int)) }
/// Twice the signed area of a ring.
pub open spec fn abs_area_n(w: AbsRing, n: int) -> int decreases n { if n <= 0 { 0 } else { abs_area_n(w, n - 1) + shoelace(w[n - 1]) } }
pub open spec fn abs_area(w: AbsRing) -> int { abs_area_n(w, w.len() as int) }
pub open spec fn rings_clip_n(s: Seq<TopoRing>, clipped: Seq<Seq<Point>>, n: int) -> Seq<AbsRing> decreases n {
    if n <= 0 { seq![] } else if abs_area(ring_clip(s[n - 1], clipped)) == 0 { rings_clip_n(s, clipped, n - 1) } else { rings_clip_n(s, clipped, n - 1).push(ring_clip(s[n - 1], clipped)) }
}
/// The clipped rings of non-zero area, in order.
pub open spec fn rings_clip(s: Seq<TopoRing>, clipped: Seq<Seq<Point>>) -> Seq<AbsRing> { rings_clip_n(s, clipped, s.len() as int) }
/// The regions of which an outer ring is left.
pub open spec fn kept_n<Data>(s: Seq<TopoRegion<Data>>, clipped: Seq<Seq<Point>>, n: int) -> Seq<int> decreases n {
    if n <= 0 { seq![] } else if rings_clip(s[n - 1].outer_rings@, clipped).len() == 0 { kept_n(s, clipped, n - 1) } else { kept_n(s, clipped, n - 1).push(n - 1) }
}
pub open spec fn region_clip_ok<Data: Clone>(r: TopoRegion<Data>, clipped: Seq<Seq<Point>>, a: AbsRegion<Data>) -> bool {
    cloned(r.data, a.data) && a.outer == rings_clip(r.outer_rings@, clipped) && a.inner == rings_clip(r.inner_rings@, clipped)
}
pub open spec fn regions_clip_ok<Data: Clone>(s: Seq<TopoRegion<Data>>, clipped: Seq<Seq<Point>>, n: int, a: Seq<AbsRegion<Data>>) -> bool {
    let k = kept_n(s, clipped, n);
    a.len() == k.len() && forall|j: int| #![trigger a[j]] 0 <= j < a.len() ==> region_clip_ok(s[k[j]], clipped, a[j])
}
pub open spec fn clipped_ok(edges: Seq<TopoEdge>, m: ClipMask, clipped: Seq<Seq<Point>>) -> bool {
    clipped.len() == edges.len() && forall|e: int| #![trigger clipped[e]] 0 <= e < edges.len() ==> rest_of(edges[e].points@, m, clipped[e])
}
pub open spec fn clip_with<Data: Clone>(t: Topology<Data>, m: ClipMask, clipped: Seq<Seq<Point>>, r: Topology<Data>) -> bool {
    &&& clipped_ok(t.edges@, m, clipped)
    &&& regions_clip_ok(t.regions@, clipped, t.regions@.len() as int, topo_abs(r))
    &&& exists|n: int| #[trigger] joined_once(edge_points(r.edges@), clipped, n)
}
pub open spec fn clip_result<Data: Clone>(t: Topology<Data>, m: ClipMask, r: Topology<Data>) -> bool { exists|clipped: Seq<Seq<Point>>| #[trigger] clip_with(t, m, clipped, r) }
/// The first n stored edges are what is left of edges of the input; the others are straight, and no two of them join the same points, whichever way they are used.
pub open spec fn is_left(p: Seq<Point>, clipped: Seq<Seq<Point>>) -> bool { exists|e: int| 0 <= e < clipped.len() && #[trigger] clipped[e] == p }
pub open spec fn joined_once(p: Seq<Seq<Point>>, clipped: Seq<Seq<Point>>, n: int) -> bool {
    &&& 0 <= n <= p.len()
    &&& forall|i: int| #![trigger p[i]] 0 <= i < n ==> is_left(p[i], clipped)
    &&& forall|i: int| #![trigger p[i]] n <= i < p.len() ==> p[i].len() == 2 && !plt(p[i][1], p[i][0])
    &&& forall|i: int, j: int| #![trigger p[i], p[j]] n <= i < j < p.len() ==> p[i] != p[j]
}
/// Path i starts where the one before ends.
pub open spec fn meets(w: AbsRing, i: int) -> bool { 0 < i < w.len() ==> w[i - 1].last() == w[i][0] }
pub open spec fn side_path(p: Seq<Point>, m: ClipMask) -> bool { forall|j: int| #![trigger p[j]] 0 <= j < p.len() ==> !(loc(m, p[j]) is Outside) }
/// A closed walk.
pub open spec fn closed_walk(w: AbsRing) -> bool {
    &&& forall|i: int| #![trigger w[i]] 0 <= i < w.len() ==> w[i].len() >= 2
    &&& forall|i: int| #[trigger] meets(w, i)
    &&& w.len() > 0 ==> end_of(w) == w[0][0]
}
pub open spec fn kept_side(w: AbsRing, m: ClipMask) -> bool { forall|i: int| #![trigger w[i]] 0 <= i < w.len() ==> side_path(w[i], m) }
/// What a user sees of each ring.
pub open spec fn good_ring(w: AbsRing, m: ClipMask) -> bool { closed_walk(w) && kept_side(w, m) && abs_area(w) != 0 }
pub open spec fn good_rings(s: Seq<AbsRing>, m: ClipMask) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> good_ring(s[i], m) }

// ---- lemmas about the specification ---------------------------------------------------------
pub open spec fn open_walk(w: AbsRing) -> bool {
    &&& forall|i: int| #![trigger w[i]] 0 <= i < w.len() ==> w[i].len() >= 2
    &&& forall|i: int| #[trigger] meets(w, i)
}
pub proof fn lemma_rest_side(s: Seq<Point>, m: ClipMask, c: Seq<Point>, d: Direction)
    requires rest_of(s, m, c)
    ensures side_path(directed(c, d), m)
{
    reveal(rest_of);
    let o = choose|o: Seq<Point>| #[trigger] clip_out(s, m, o) && c == (if o.len() >= 2 { o } else { Seq::<Point>::empty() });
    if o.len() >= 2 {
        assert forall|j: int| #![trigger directed(c, d)[j]] 0 <= j < directed(c, d).len() implies !(loc(m, directed(c, d)[j]) is Outside) by {
            let i = if d is Forward { j } else { c.len() - 1 - j };
            assert(directed(c, d)[j] == o[i]);
        }
    }
}
pub proof fn lemma_push_walk(w: AbsRing, c: Seq<Point>)
    requires open_walk(w), c.len() >= 2, w.len() > 0 ==> end_of(w) == c[0]
    ensures open_walk(w.push(c))
{
    let x = w.push(c);
    assert forall|i: int| #[trigger] meets(x, i) by {
        if 0 < i < w.len() { assert(meets(w, i)); assert(x[i] == w[i] && x[i - 1] == w[i - 1]); }
        else if i == w.len() && i > 0 { assert(x[i] == c && x[i - 1] == w[i - 1]); }
    }
    assert forall|i: int| #![trigger x[i]] 0 <= i < x.len() implies x[i].len() >= 2 by { if i < w.len() { assert(x[i] == w[i]); } }
}
pub proof fn lemma_push_side(w: AbsRing, c: Seq<Point>, m: ClipMask)
    requires kept_side(w, m), side_path(c, m)
    ensures kept_side(w.push(c), m)
{
    let x = w.push(c);
    assert forall|i: int| #![trigger x[i]] 0 <= i < x.len() implies side_path(x[i], m) by { if i < w.len() { assert(x[i] == w[i]); } }
}
/// A joining edge: from the end of the walk to p.
pub proof fn lemma_gap(w: AbsRing, p: Point, m: ClipMask)
    requires open_walk(w), w.len() > 0, kept_side(w, m), !(loc(m, p) is Outside)
    ensures open_walk(w.push(seq![end_of(w), p])), kept_side(w.push(seq![end_of(w), p]), m), end_of(w.push(seq![end_of(w), p])) == p
{
    let l = w[w.len() - 1];
    assert(l.len() >= 2 && side_path(l, m));
    assert(!(loc(m, l[l.len() - 1]) is Outside));
    let g = seq![end_of(w), p];
    lemma_push_walk(w, g);
    assert(side_path(g, m));
    lemma_push_side(w, g, m);
}
pub proof fn lemma_join(d: Seq<DirectedEdge>, edges: Seq<TopoEdge>, m: ClipMask, clipped: Seq<Seq<Point>>, n: int)
    requires clipped_ok(edges, m, clipped), 0 <= n <= d.len(), forall|j: int| #![trigger d[j]] 0 <= j < d.len() ==> edge_in(d[j], edges.len() as int),
    ensures open_walk(join_n(d, clipped, n)), kept_side(join_n(d, clipped, n), m)
    decreases n
{
    if n > 0 {
        lemma_join(d, edges, m, clipped, n - 1);
        let w = join_n(d, clipped, n - 1);
        let e = ptr_ix(d[n - 1].edge);
        assert(edge_in(d[n - 1], edges.len() as int));
        assert(rest_of(edges[e].points@, m, clipped[e]));
        lemma_rest_side(edges[e].points@, m, clipped[e], d[n - 1].direction);
        let c = directed(clipped[e], d[n - 1].direction);
        if c.len() >= 2 {
            assert(!(loc(m, c[0]) is Outside));
            if w.len() > 0 && end_of(w) != c[0] {
                lemma_gap(w, c[0], m);
                let v = w.push(seq![end_of(w), c[0]]);
                lemma_push_walk(v, c); lemma_push_side(v, c, m);
            } else { lemma_push_walk(w, c); lemma_push_side(w, c, m); }
        }
    }
}
/// C05: every clipped ring is a closed walk on the kept side.
pub proof fn lemma_ring_clip(r: TopoRing, edges: Seq<TopoEdge>, m: ClipMask, clipped: Seq<Seq<Point>>)
    requires clipped_ok(edges, m, clipped), ring_in(r, edges.len() as int)
    ensures closed_walk(ring_clip(r, clipped)), kept_side(ring_clip(r, clipped), m)
{
    let d = r.directed_edges@;
    lemma_join(d, edges, m, clipped, d.len() as int);
    let w = join_n(d, clipped, d.len() as int);
    if w.len() > 0 {
        assert(w[0].len() >= 2 && side_path(w[0], m));
        assert(!(loc(m, w[0][0]) is Outside));
        if w[0][0] != end_of(w) { lemma_gap(w, w[0][0], m); assert(w.push(seq![end_of(w), w[0][0]])[0] == w[0]); }
    }
}
pub proof fn lemma_rings_clip(s: Seq<TopoRing>, edges: Seq<TopoEdge>, m: ClipMask, clipped: Seq<Seq<Point>>, n: int)
    requires clipped_ok(edges, m, clipped), 0 <= n <= s.len(), forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> ring_in(s[i], edges.len() as int)
    ensures good_rings(rings_clip_n(s, clipped, n), m)
    decreases n
{ if n > 0 { lemma_rings_clip(s, edges, m, clipped, n - 1); assert(ring_in(s[n - 1], edges.len() as int)); lemma_ring_clip(s[n - 1], edges, m, clipped); } }
pub proof fn lemma_kept_range<Data>(s: Seq<TopoRegion<Data>>, clipped: Seq<Seq<Point>>, n: int)
    requires 0 <= n <= s.len()
    ensures forall|j: int| #![trigger kept_n(s, clipped, n)[j]] 0 <= j < kept_n(s, clipped, n).len() ==> 0 <= kept_n(s, clipped, n)[j] < n
    decreases n
{
    if n > 0 {
        lemma_kept_range(s, clipped, n - 1);
        let k = kept_n(s, clipped, n); let l = kept_n(s, clipped, n - 1);
        assert forall|j: int| #![trigger k[j]] 0 <= j < k.len() implies 0 <= k[j] < n by { if j < l.len() { assert(k[j] == l[j]); } }
    }
}
// ---- ends (joining edges run along the mask line) ----------------------------------------------
/// A path that starts (ends) strictly inside keeps its start (end), and is not clipped away.
pub proof fn lemma_ends(s: Seq<Point>, m: ClipMask, o: Seq<Point>)
    requires s.len() >= 2, is_clipped(s, m, o)
    ensures
        loc(m, s[0]) is Inside ==> o.len() >= 2 && o[0] == s[0],
        loc(m, s.last()) is Inside ==> o.len() >= 2 && o.last() == s.last(),
        o.len() > 0 && loc(m, o[0]) is Inside ==> loc(m, s[0]) is Inside,
        o.len() > 0 && loc(m, o.last()) is Inside ==> loc(m, s.last()) is Inside,
{
    let n = s.len() as int;
    let (src, kind) = choose|src: Seq<int>, kind: Seq<int>| #[trigger] good(s, m, n, o, src, kind);
    if loc(m, s[0]) is Inside {
        assert(complete_at(s, m, o, src, kind, 0));
        let j = choose|j: int| 0 <= j < src.len() && #[trigger] src[j] == 0 && kind[j] == 2;
        assert(entry_ok(s, m, n, o[j], src[j], kind[j]));
        if j > 0 { assert(entry_ok(s, m, n, o[0], src[0], kind[0])); assert(src[0] < src[j] || (src[0] == src[j] && kind[0] < kind[j])); }
        assert(complete_at(s, m, o, src, kind, 1));
        let want = if straddles(m, s[0], s[1]) { 1int } else { 2int };
        assert(has(src, kind, 1, want));
        let i = choose|i: int| 0 <= i < src.len() && #[trigger] src[i] == 1 && kind[i] == want;
        assert(i != j);
    }
    if loc(m, s.last()) is Inside {
        assert(complete_at(s, m, o, src, kind, n - 1));
        let j = choose|j: int| 0 <= j < src.len() && #[trigger] src[j] == n - 1 && kind[j] == 2;
        assert(entry_ok(s, m, n, o[j], src[j], kind[j]));
        let l = o.len() - 1;
        if j < l { assert(entry_ok(s, m, n, o[l], src[l], kind[l])); assert(src[j] < src[l] || (src[j] == src[l] && kind[j] < kind[l])); }
        if loc(m, s[n - 2]) is Inside {
            assert(complete_at(s, m, o, src, kind, n - 2));
            let i = choose|i: int| 0 <= i < src.len() && #[trigger] src[i] == n - 2 && kind[i] == 2;
            assert(i != j);
        } else if loc(m, s[n - 2]) is Outside {
            let i = choose|i: int| 0 <= i < src.len() && #[trigger] src[i] == n - 1 && kind[i] == 1;
            assert(i != j);
        } else {
            let i = choose|i: int| 1 <= i < src.len() && #[trigger] src[i] == n - 1 && kind[i] == 2 && o[i - 1] == s[n - 2];
        }
    }
    if o.len() > 0 && loc(m, o[0]) is Inside {
        assert(entry_ok(s, m, n, o[0], src[0], kind[0]));
        let v = src[0];
        assert(kind[0] == 2);
        if v > 0 {
            assert(complete_at(s, m, o, src, kind, v));
            assert(complete_at(s, m, o, src, kind, v - 1));
            if loc(m, s[v - 1]) is Inside {
                let i = choose|i: int| 0 <= i < src.len() && #[trigger] src[i] == v - 1 && kind[i] == 2;
                assert(src[0] < src[i] || (src[0] == src[i] && kind[0] < kind[i]) || i == 0);
            } else if loc(m, s[v - 1]) is Outside {
                let i = choose|i: int| 0 <= i < src.len() && #[trigger] src[i] == v && kind[i] == 1;
                assert(src[0] < src[i] || (src[0] == src[i] && kind[0] < kind[i]) || i == 0);
            } else {
                let i = choose|i: int| 1 <= i < src.len() && #[trigger] src[i] == v && kind[i] == 2 && o[i - 1] == s[v - 1];
                assert(src[0] < src[i] || (src[0] == src[i] && kind[0] < kind[i]));
            }
        }
    }
    if o.len() > 0 && loc(m, o.last()) is Inside {
        let l = o.len() - 1;
        assert(entry_ok(s, m, n, o[l], src[l], kind[l]));
        let v = src[l];
        assert(kind[l] == 2);
        if v < n - 1 {
            assert(complete_at(s, m, o, src, kind, v + 1));
            let want = if straddles(m, s[v], s[v + 1]) { 1int } else { 2int };
            assert(has(src, kind, v + 1, want));
            let i = choose|i: int| 0 <= i < src.len() && #[trigger] src[i] == v + 1 && kind[i] == want;
            assert(src[i] < src[l] || (src[i] == src[l] && kind[i] < kind[l]) || i == l);
        }
    }
}
pub proof fn lemma_src_lower(s: Seq<Point>, m: ClipMask, n: int, out: Seq<Point>, src: Seq<int>, kind: Seq<int>, j: int)
    requires good(s, m, n, out, src, kind), 0 <= j < out.len()
    ensures j <= 3 * src[j] + kind[j]
    decreases j
{
    assert(entry_ok(s, m, n, out[j], src[j], kind[j]));
    if j > 0 { lemma_src_lower(s, m, n, out, src, kind, j - 1); assert(entry_ok(s, m, n, out[j - 1], src[j - 1], kind[j - 1])); assert(src[j - 1] < src[j] || (src[j - 1] == src[j] && kind[j - 1] < kind[j])); }
}
pub proof fn lemma_clip_len(s: Seq<Point>, m: ClipMask, o: Seq<Point>)
    requires clip_out(s, m, o)
    ensures o.len() <= 3 * s.len()
{
    if s.len() >= 2 && o.len() > 0 {
        let (src, kind) = choose|src: Seq<int>, kind: Seq<int>| #[trigger] good(s, m, s.len() as int, o, src, kind);
        lemma_src_lower(s, m, s.len() as int, o, src, kind, o.len() - 1);
        assert(entry_ok(s, m, s.len() as int, o[o.len() - 1], src[o.len() - 1], kind[o.len() - 1]));
    }
}

/// The path directed edge j follows in the input.
pub open spec fn src_path(d: Seq<DirectedEdge>, edges: Seq<TopoEdge>, j: int) -> Seq<Point> { directed(edges[ptr_ix(d[j].edge)].points@, d[j].direction) }
pub open spec fn cut_path(d: Seq<DirectedEdge>, clipped: Seq<Seq<Point>>, j: int) -> Seq<Point> { directed(clipped[ptr_ix(d[j].edge)], d[j].direction) }
pub open spec fn src_meets(d: Seq<DirectedEdge>, edges: Seq<TopoEdge>, j: int) -> bool { 0 < j < d.len() ==> src_path(d, edges, j - 1).last() == src_path(d, edges, j)[0] }
/// An input ring that is a closed walk.
pub open spec fn closed_src(d: Seq<DirectedEdge>, edges: Seq<TopoEdge>) -> bool {
    &&& forall|j: int| #![trigger src_path(d, edges, j)] 0 <= j < d.len() ==> src_path(d, edges, j).len() >= 2 && edge_in(d[j], edges.len() as int)
    &&& forall|j: int| #[trigger] src_meets(d, edges, j)
    &&& d.len() > 0 ==> src_path(d, edges, d.len() - 1).last() == src_path(d, edges, 0)[0]
}
pub open spec fn on_line(p: Seq<Point>, m: ClipMask) -> bool { p.len() == 2 && loc(m, p[0]) is OnEdge && loc(m, p[1]) is OnEdge }
pub open spec fn piece(p: Seq<Point>, d: Seq<DirectedEdge>, clipped: Seq<Seq<Point>>, m: ClipMask) -> bool { on_line(p, m) || exists|j: int| 0 <= j < d.len() && p == #[trigger] cut_path(d, clipped, j) }
pub open spec fn pieces(w: AbsRing, d: Seq<DirectedEdge>, clipped: Seq<Seq<Point>>, m: ClipMask) -> bool { forall|i: int| #![trigger w[i]] 0 <= i < w.len() ==> piece(w[i], d, clipped, m) }
pub proof fn lemma_cut_ends(d: Seq<DirectedEdge>, edges: Seq<TopoEdge>, m: ClipMask, clipped: Seq<Seq<Point>>, j: int)
    requires clipped_ok(edges, m, clipped), closed_src(d, edges), 0 <= j < d.len()
    ensures ({ let s = src_path(d, edges, j); let c = cut_path(d, clipped, j);
        &&& loc(m, s[0]) is Inside ==> c.len() >= 2 && c[0] == s[0]
        &&& loc(m, s.last()) is Inside ==> c.len() >= 2 && c.last() == s.last()
        &&& c.len() >= 2 && loc(m, c[0]) is Inside ==> loc(m, s[0]) is Inside
        &&& c.len() >= 2 && loc(m, c.last()) is Inside ==> loc(m, s.last()) is Inside
    })
{
    assert(src_path(d, edges, j).len() >= 2);
    let e = ptr_ix(d[j].edge);
    assert(rest_of(edges[e].points@, m, clipped[e]));
    let s = edges[e].points@; let c = clipped[e];
    reveal(rest_of);
    let o = choose|o: Seq<Point>| #[trigger] clip_out(s, m, o) && c == (if o.len() >= 2 { o } else { Seq::<Point>::empty() });
    lemma_ends(s, m, o);
}
/// Joining edges run along the mask line, for the first n directed edges.
pub proof fn lemma_gaps_n(d: Seq<DirectedEdge>, edges: Seq<TopoEdge>, m: ClipMask, clipped: Seq<Seq<Point>>, n: int)
    requires clipped_ok(edges, m, clipped), closed_src(d, edges), 0 <= n <= d.len()
    ensures ({ let w = join_n(d, clipped, n);
        &&& pieces(w, d, clipped, m)
        &&& w.len() > 0 ==> n > 0
        &&& w.len() > 0 && loc(m, end_of(w)) is Inside ==> end_of(w) == src_path(d, edges, n - 1).last()
        &&& n > 0 && loc(m, src_path(d, edges, n - 1).last()) is Inside ==> w.len() > 0 && end_of(w) == src_path(d, edges, n - 1).last()
        &&& w.len() > 0 && loc(m, w[0][0]) is Inside ==> w[0][0] == src_path(d, edges, 0)[0]
        &&& n > 0 && loc(m, src_path(d, edges, 0)[0]) is Inside ==> w.len() > 0 && w[0][0] == src_path(d, edges, 0)[0]
    })
    decreases n
{
    if n > 0 {
        lemma_gaps_n(d, edges, m, clipped, n - 1);
        lemma_cut_ends(d, edges, m, clipped, n - 1);
        assert forall|j: int| #![trigger d[j]] 0 <= j < d.len() implies edge_in(d[j], edges.len() as int) by { assert(src_path(d, edges, j).len() >= 2); }
        lemma_join(d, edges, m, clipped, n - 1);
        lemma_join(d, edges, m, clipped, n);
        let w = join_n(d, clipped, n - 1); let x = join_n(d, clipped, n);
        let c = cut_path(d, clipped, n - 1);
        assert(src_meets(d, edges, n - 1));
        if w.len() > 0 { assert(w[0].len() >= 2 && side_path(w[w.len() - 1], m)); let l = w[w.len() - 1]; assert(l.len() >= 2); assert(!(loc(m, l[l.len() - 1]) is Outside)); }
        if c.len() >= 2 {
            assert(side_path(x[x.len() - 1], m));
            assert(!(loc(m, c[0]) is Outside));
            if w.len() > 0 && end_of(w) != c[0] { assert(on_line(seq![end_of(w), c[0]], m)); }
            if w.len() > 0 { assert(x[0] == w[0]); }
            assert forall|i: int| #![trigger x[i]] 0 <= i < x.len() implies piece(x[i], d, clipped, m) by { if i < w.len() { assert(x[i] == w[i]); } }
        }
    }
}
/// C05: a clipped ring consists of the clipped paths and of edges along the mask line.
pub proof fn lemma_gaps(r: TopoRing, edges: Seq<TopoEdge>, m: ClipMask, clipped: Seq<Seq<Point>>)
    requires clipped_ok(edges, m, clipped), closed_src(r.directed_edges@, edges)
    ensures pieces(ring_clip(r, clipped), r.directed_edges@, clipped, m) //@C05
{
    let d = r.directed_edges@; let n = d.len() as int;
    assert forall|j: int| #![trigger d[j]] 0 <= j < d.len() implies edge_in(d[j], edges.len() as int) by { assert(src_path(d, edges, j).len() >= 2); }
    lemma_gaps_n(d, edges, m, clipped, n);
    lemma_join(d, edges, m, clipped, n);
    let w = join_n(d, clipped, n); let x = close(w);
    if w.len() > 0 {
        assert(w[0].len() >= 2 && side_path(w[0], m));
        assert(!(loc(m, w[0][0]) is Outside));
        let l = w[w.len() - 1]; assert(l.len() >= 2 && side_path(l, m)); assert(!(loc(m, l[l.len() - 1]) is Outside));
        if w[0][0] != end_of(w) { assert(on_line(seq![end_of(w), w[0][0]], m)); }
        assert forall|i: int| #![trigger x[i]] 0 <= i < x.len() implies piece(x[i], d, clipped, m) by { if i < w.len() { assert(x[i] == w[i]); } }
    }
}

// ---- the builder's state ----------------------------------------------------------------------
pub open spec fn keys_of(m: Map<BuildEdge, EdgeId>, first: int) -> Seq<BuildEdge> { Seq::new(m.dom().len(), |i: int| choose|k: BuildEdge| #[trigger] m.dom().contains(k) && m[k] == first + i) }
/// The ids are first, first + 1, ... and each belongs to one edge.
pub open spec fn new_ok(m: Map<BuildEdge, EdgeId>, first: int) -> bool {
    &&& forall|k: BuildEdge| #[trigger] m.dom().contains(k) ==> first <= m[k] < first + m.dom().len() && keys_of(m, first)[m[k] - first] == k
    &&& forall|i: int| #![trigger keys_of(m, first)[i]] 0 <= i < m.dom().len() ==> m.dom().contains(keys_of(m, first)[i]) && m[keys_of(m, first)[i]] == first + i
}
/// From the smaller to the larger point.
pub open spec fn canon_keys(s: Seq<BuildEdge>) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> !plt(s[i].1, s[i].0) }
impl NewEdgeSet {
    pub open spec fn wf(&self) -> bool { new_ok(self.edges@, self.first_edge_id as int) && canon_keys(self.keys()) && self.first_edge_id <= max_len() }
    pub open spec fn keys(&self) -> Seq<BuildEdge> { keys_of(self.edges@, self.first_edge_id as int) }
}
pub open spec fn key_path(k: BuildEdge) -> Seq<Point> { seq![k.0, k.1] }
pub open spec fn new_path(s: NewEdgeSet, id: int) -> Seq<Point> { key_path(s.keys()[id - s.first_edge_id]) }
pub open spec fn all_paths(old_edges: Seq<Vec<Point>>, keys: Seq<BuildEdge>) -> Seq<Seq<Point>> {
    old_edges.map_values(|v: Vec<Point>| v@) + keys.map_values(|k: BuildEdge| key_path(k))
}
pub open spec fn des_in(s: Seq<BuildDirectedEdge>, n: int) -> bool { forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> s[j].edge_id < n }
pub open spec fn des_abs(paths: Seq<Seq<Point>>, s: Seq<BuildDirectedEdge>) -> AbsRing { s.map_values(|d: BuildDirectedEdge| directed(paths[d.edge_id as int], d.direction)) }
pub open spec fn rings_in(s: Seq<BuildRing>, n: int) -> bool { forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> des_in(s[j].0@, n) }
pub open spec fn rings_abs(paths: Seq<Seq<Point>>, s: Seq<BuildRing>) -> Seq<AbsRing> { s.map_values(|b: BuildRing| des_abs(paths, b.0@)) }
pub open spec fn region_in<Data>(r: BuildRegion<Data>, n: int) -> bool {
    rings_in(r.outer_rings@, n) && rings_in(r.inner_rings@, n) && r.outer_rings@.len() <= max_len() && r.inner_rings@.len() <= max_len()
}
pub open spec fn region_abs<Data>(paths: Seq<Seq<Point>>, r: BuildRegion<Data>) -> AbsRegion<Data> {
    AbsRegion { data: r.data, outer: rings_abs(paths, r.outer_rings@), inner: rings_abs(paths, r.inner_rings@) }
}
pub open spec fn regions_in<Data>(s: Seq<BuildRegion<Data>>, n: int) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> region_in(s[i], n) }
pub open spec fn regions_abs<Data>(paths: Seq<Seq<Point>>, s: Seq<BuildRegion<Data>>) -> Seq<AbsRegion<Data>> { s.map_values(|r: BuildRegion<Data>| region_abs(paths, r)) }
pub open spec fn finder_ok(finder: Seq<Option<EdgeId>>, old_edges: Seq<Vec<Point>>) -> bool {
    forall|e: int| #![trigger finder[e]] 0 <= e < finder.len() && finder[e] is Some ==> finder[e]->Some_0 < old_edges.len() && old_edges[finder[e]->Some_0 as int]@.len() >= 2
}
/// Every old edge is found.
pub open spec fn named_by(finder: Seq<Option<EdgeId>>, i: int) -> bool { exists|e: int| 0 <= e < finder.len() && #[trigger] finder[e] == Some(i as usize) }
pub open spec fn all_named(finder: Seq<Option<EdgeId>>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] named_by(finder, i) }
pub proof fn lemma_named(f: Seq<Option<EdgeId>>, x: Option<EdgeId>, n: int)
    requires all_named(f, n)
    ensures all_named(f.push(x), n), x == Some(n as usize) ==> all_named(f.push(x), n + 1)
{
    assert forall|i: int| 0 <= i < n implies #[trigger] named_by(f.push(x), i) by { assert(named_by(f, i)); let e = choose|e: int| 0 <= e < f.len() && #[trigger] f[e] == Some(i as usize); assert(f.push(x)[e] == Some(i as usize)); }
    if x == Some(n as usize) { assert(f.push(x)[f.len() as int] == Some(n as usize)); assert(named_by(f.push(x), n)); }
}
pub open spec fn found(f: Option<EdgeId>, old_edges: Seq<Vec<Point>>) -> Seq<Point> { match f { Some(id) => old_edges[id as int]@, None => seq![] } }
impl<Data> Builder<Data> {
    pub open spec fn paths(&self) -> Seq<Seq<Point>> { all_paths(self.old_edges@, self.new_edges.keys()) }
    /// What is left of each edge of the topology.
    pub open spec fn clipped(&self) -> Seq<Seq<Point>> { self.old_edge_id_finder@.map_values(|f: Option<EdgeId>| found(f, self.old_edges@)) }
    pub open spec fn wf0(&self) -> bool {
        &&& self.new_edges.wf() && self.new_edges.first_edge_id == self.old_edges@.len()
        &&& finder_ok(self.old_edge_id_finder@, self.old_edges@) && all_named(self.old_edge_id_finder@, self.old_edges@.len() as int)
        &&& self.old_edge_0_ptr == Ptr::At(0, 0)
    }
    pub open spec fn wf(&self) -> bool { self.wf0() && regions_in(self.regions@, self.paths().len() as int) }
    pub open spec fn same_input(&self, b: Self) -> bool { self.old_edges == b.old_edges && self.old_edge_id_finder == b.old_edge_id_finder && self.old_edge_0_ptr == b.old_edge_0_ptr && self.new_edges.first_edge_id == b.new_edges.first_edge_id }
    pub open spec fn abs(&self) -> Seq<AbsRegion<Data>> { regions_abs(self.paths(), self.regions@) }
}
pub proof fn lemma_joined_once<Data>(b: Builder<Data>)
    requires b.wf()
    ensures joined_once(b.paths(), b.clipped(), b.old_edges@.len() as int)
{
    let p = b.paths(); let c = b.clipped(); let n = b.old_edges@.len() as int; let keys = b.new_edges.keys(); let m = b.new_edges.edges@; let first = b.new_edges.first_edge_id as int;
    assert forall|i: int| #![trigger p[i]] 0 <= i < n implies is_left(p[i], c) by {
        assert(named_by(b.old_edge_id_finder@, i));
        let e = choose|e: int| 0 <= e < b.old_edge_id_finder@.len() && #[trigger] b.old_edge_id_finder@[e] == Some(i as usize);
        assert(c[e] == found(b.old_edge_id_finder@[e], b.old_edges@));
        assert(c[e] == p[i]);
    }
    assert forall|i: int| #![trigger p[i]] n <= i < p.len() implies p[i].len() == 2 && !plt(p[i][1], p[i][0]) by { assert(p[i] == key_path(keys[i - n])); }
    assert forall|i: int, j: int| #![trigger p[i], p[j]] n <= i < j < p.len() implies p[i] != p[j] by {
        let x = keys[i - n]; let y = keys[j - n];
        assert(p[i] == key_path(x) && p[j] == key_path(y));
        assert(m.dom().contains(keys_of(m, first)[i - n]) && m.dom().contains(keys_of(m, first)[j - n]));
        assert(m[x] == first + i - n && m[y] == first + j - n);
        if p[i] == p[j] { assert(key_path(x)[0] == x.0 && key_path(x)[1] == x.1 && key_path(y)[0] == y.0 && key_path(y)[1] == y.1); assert(x == y); }
    }
}
/// No sum of areas overflows: points of the ring after clipping, joining edges included.
pub open spec fn cw_n(d: Seq<DirectedEdge>, clipped: Seq<Seq<Point>>, n: int) -> int decreases n { if n <= 0 { 0 } else { cw_n(d, clipped, n - 1) + clipped[ptr_ix(d[n - 1].edge)].len() + 2 } }
pub open spec fn cring_ok(r: TopoRing, clipped: Seq<Seq<Point>>) -> bool { ring_in(r, clipped.len() as int) && cw_n(r.directed_edges@, clipped, r.directed_edges@.len() as int) <= max_len() }
pub open spec fn crings_ok(s: Seq<TopoRing>, clipped: Seq<Seq<Point>>) -> bool { s.len() <= max_len() && forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> cring_ok(s[i], clipped) }
/// ... and in terms of the input.
pub open spec fn points_n(d: Seq<DirectedEdge>, edges: Seq<TopoEdge>, n: int) -> int decreases n { if n <= 0 { 0 } else { points_n(d, edges, n - 1) + edges[ptr_ix(d[n - 1].edge)].points@.len() + 1 } }
pub open spec fn tring_ok(r: TopoRing, edges: Seq<TopoEdge>) -> bool { ring_in(r, edges.len() as int) && 4 * points_n(r.directed_edges@, edges, r.directed_edges@.len() as int) <= max_len() }
pub open spec fn trings_ok(s: Seq<TopoRing>, edges: Seq<TopoEdge>) -> bool { s.len() <= max_len() && forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> tring_ok(s[i], edges) }
pub open spec fn topology_ok<Data>(t: Topology<Data>) -> bool {
    &&& t.edges@.len() <= max_len() && t.regions@.len() <= max_len()
    &&& forall|e: int| #![trigger t.edges@[e]] 0 <= e < t.edges@.len() ==> t.edges@[e].points@.len() <= max_len()
    &&& forall|i: int| #![trigger t.regions@[i]] 0 <= i < t.regions@.len() ==> trings_ok(t.regions@[i].outer_rings@, t.edges@) && trings_ok(t.regions@[i].inner_rings@, t.edges@)
}
pub proof fn lemma_cw(d: Seq<DirectedEdge>, edges: Seq<TopoEdge>, m: ClipMask, clipped: Seq<Seq<Point>>, n: int)
    requires clipped_ok(edges, m, clipped), 0 <= n <= d.len(), forall|j: int| #![trigger d[j]] 0 <= j < d.len() ==> edge_in(d[j], edges.len() as int),
    ensures cw_n(d, clipped, n) <= 3 * points_n(d, edges, n)
    decreases n
{
    if n > 0 {
        lemma_cw(d, edges, m, clipped, n - 1);
        let e = ptr_ix(d[n - 1].edge);
        assert(edge_in(d[n - 1], edges.len() as int));
        assert(rest_of(edges[e].points@, m, clipped[e]));
        let s = edges[e].points@; let c = clipped[e];
        reveal(rest_of);
        let o = choose|o: Seq<Point>| #[trigger] clip_out(s, m, o) && c == (if o.len() >= 2 { o } else { Seq::<Point>::empty() });
        lemma_clip_len(s, m, o);
    }
}
pub proof fn lemma_crings(s: Seq<TopoRing>, edges: Seq<TopoEdge>, m: ClipMask, clipped: Seq<Seq<Point>>)
    requires clipped_ok(edges, m, clipped), trings_ok(s, edges)
    ensures crings_ok(s, clipped)
{
    assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies cring_ok(s[i], clipped) by {
        assert(tring_ok(s[i], edges));
        lemma_cw(s[i].directed_edges@, edges, m, clipped, s[i].directed_edges@.len() as int);
    }
}
pub proof fn lemma_cw_mono(d: Seq<DirectedEdge>, clipped: Seq<Seq<Point>>, n: int, m: int)
    requires 0 <= n <= m <= d.len()
    ensures 2 * n <= cw_n(d, clipped, n) <= cw_n(d, clipped, m)
    decreases m, n
{ if n > 0 { lemma_cw_mono(d, clipped, n - 1, n - 1); } if n < m { lemma_cw_mono(d, clipped, n, m - 1); } }
pub proof fn lemma_area_push(w: AbsRing, c: Seq<Point>, n: int)
    requires 0 <= n <= w.len()
    ensures abs_area_n(w.push(c), n) == abs_area_n(w, n)
    decreases n
{ if n > 0 { lemma_area_push(w, c, n - 1); assert(w.push(c)[n - 1] == w[n - 1]); } }
pub proof fn lemma_area_pushed(w: AbsRing, c: Seq<Point>)
    ensures abs_area(w.push(c)) == abs_area(w) + shoelace(c)
{ lemma_area_push(w, c, w.len() as int); assert(w.push(c)[w.len() as int] == c); assert(w.push(c).len() == w.len() + 1); }
pub proof fn lemma_path_bound(s: Seq<Point>)
    ensures -s.len() * 0xffff_ffff_ffff_ffff <= shoelace(s) <= s.len() * 0xffff_ffff_ffff_ffff
{ if s.len() > 1 { lemma_shoelace_bound(s, s.len() - 1); } }
pub proof fn lemma_join_area(d: Seq<DirectedEdge>, clipped: Seq<Seq<Point>>, n: int)
    requires 0 <= n <= d.len()
    ensures -cw_n(d, clipped, n) * 0xffff_ffff_ffff_ffff <= abs_area(join_n(d, clipped, n)) <= cw_n(d, clipped, n) * 0xffff_ffff_ffff_ffff
    decreases n
{
    if n > 0 {
        lemma_join_area(d, clipped, n - 1);
        let w = join_n(d, clipped, n - 1);
        let c = directed(clipped[ptr_ix(d[n - 1].edge)], d[n - 1].direction);
        assert(c.len() == clipped[ptr_ix(d[n - 1].edge)].len());
        lemma_path_bound(c);
        lemma_area_pushed(w, c);
        let g = seq![end_of(w), c[0]];
        lemma_path_bound(g);
        lemma_area_pushed(w, g);
        lemma_area_pushed(w.push(g), c);
    } else { assert(abs_area(join_n(d, clipped, n)) == 0); }
}
pub proof fn lemma_insert(m: Map<BuildEdge, EdgeId>, first: int, k: BuildEdge, id: EdgeId)
    requires new_ok(m, first), !m.dom().contains(k), id == first + m.dom().len(),
    ensures new_ok(m.insert(k, id), first), keys_of(m.insert(k, id), first) =~= keys_of(m, first).push(k),
{
    let m2 = m.insert(k, id);
    assert(m2.dom() =~= m.dom().insert(k));
    assert(m2.dom().len() == m.dom().len() + 1);
    assert forall|i: int| 0 <= i < m2.dom().len() implies #[trigger] keys_of(m2, first)[i] == keys_of(m, first).push(k)[i] by {
        let w = keys_of(m, first).push(k)[i];
        if i < m.dom().len() { assert(keys_of(m, first)[i] == w); assert(m.dom().contains(w) && m[w] == first + i); assert(w != k); }
        assert(m2.dom().contains(w) && m2[w] == first + i);
        let c = keys_of(m2, first)[i];
        assert(m2.dom().contains(c) && m2[c] == first + i);
        if c != k { assert(m.dom().contains(c)); assert(keys_of(m, first)[m[c] - first] == c); }
    }
    assert(keys_of(m2, first) =~= keys_of(m, first).push(k));
    assert forall|x: BuildEdge| #[trigger] m2.dom().contains(x) implies first <= m2[x] < first + m2.dom().len() && keys_of(m2, first)[m2[x] - first] == x by {
        if x != k { assert(m.dom().contains(x)); }
    }
    assert forall|i: int| #![trigger keys_of(m2, first)[i]] 0 <= i < m2.dom().len() implies m2.dom().contains(keys_of(m2, first)[i]) && m2[keys_of(m2, first)[i]] == first + i by {
        if i < m.dom().len() { assert(keys_of(m, first)[i] == keys_of(m2, first)[i]); }
    }
}
pub proof fn lemma_des_prefix(s: Seq<BuildDirectedEdge>, p: Seq<Seq<Point>>, q: Seq<Seq<Point>>)
    requires des_in(s, p.len() as int), p.is_prefix_of(q)
    ensures des_in(s, q.len() as int), des_abs(p, s) == des_abs(q, s)
{
    assert forall|j: int| 0 <= j < s.len() implies des_abs(p, s)[j] == des_abs(q, s)[j] by { assert(s[j].edge_id < p.len()); }
    assert(des_abs(p, s) =~= des_abs(q, s));
}
pub proof fn lemma_rings_prefix(s: Seq<BuildRing>, p: Seq<Seq<Point>>, q: Seq<Seq<Point>>)
    requires rings_in(s, p.len() as int), p.is_prefix_of(q)
    ensures rings_in(s, q.len() as int), rings_abs(p, s) == rings_abs(q, s)
{
    assert forall|j: int| #![trigger s[j]] 0 <= j < s.len() implies des_in(s[j].0@, q.len() as int) && rings_abs(p, s)[j] == rings_abs(q, s)[j] by { lemma_des_prefix(s[j].0@, p, q); }
    assert(rings_abs(p, s) =~= rings_abs(q, s));
}
pub proof fn lemma_regions_prefix<Data>(s: Seq<BuildRegion<Data>>, p: Seq<Seq<Point>>, q: Seq<Seq<Point>>)
    requires regions_in(s, p.len() as int), p.is_prefix_of(q)
    ensures regions_in(s, q.len() as int), regions_abs(p, s) == regions_abs(q, s)
{
    assert forall|j: int| #![trigger s[j]] 0 <= j < s.len() implies region_in(s[j], q.len() as int) && regions_abs(p, s)[j] == regions_abs(q, s)[j] by {
        assert(region_in(s[j], p.len() as int));
        lemma_rings_prefix(s[j].outer_rings@, p, q); lemma_rings_prefix(s[j].inner_rings@, p, q);
    }
    assert(regions_abs(p, s) =~= regions_abs(q, s));
}
pub proof fn lemma_paths_prefix(old_edges: Seq<Vec<Point>>, a: Seq<BuildEdge>, b: Seq<BuildEdge>)
    requires a.is_prefix_of(b)
    ensures all_paths(old_edges, a).is_prefix_of(all_paths(old_edges, b))
{
    let p = all_paths(old_edges, a); let q = all_paths(old_edges, b);
    assert(p.len() <= q.len());
    assert(p =~= q.subrange(0, p.len() as int));
}
%fn first_point
%requires points@.len() > 0,
%ensures r == directed(points@, direction)[0],
%fn last_point
%requires points@.len() > 0,
%ensures r == directed(points@, direction).last(),
%fn NewEdgeSet::new
%requires first_edge_id <= max_len(),
%ensures r.wf(), r.first_edge_id == first_edge_id, r.keys() =~= seq![],
%fn NewEdgeSet::len
%ensures r == self.keys().len(), r <= max_len(),
%fn NewEdgeSet::build_directed_edge
%requires old(self).wf(),
%ensures
        final(self).wf(), final(self).first_edge_id == old(self).first_edge_id, old(self).keys().is_prefix_of(final(self).keys()),
        old(self).first_edge_id <= r.edge_id < old(self).first_edge_id + final(self).keys().len(),
        directed(new_path(*final(self), r.edge_id as int), r.direction) =~= seq![*p1, *p2],
%at let next_id 1
    proof { assert(!plt(edge.1, edge.0)); if !self.edges@.dom().contains(edge) { lemma_insert(self.edges@, self.first_edge_id as int, edge, next_id); } }
%fn NewEdgeSet::into_iter
%opt into_iter_value
%iter 1 map
%requires self.wf(),
%ensures r@ == self.keys(),
%at fn_start
    let ghost m = self.edges@; let ghost first = self.first_edge_id as int; let ghost keys = self.keys();
%loop 1
            ret@.len() == keys.len(),
            forall|i: int| #![trigger __s1[i]] 0 <= i < __k1 ==> ret@[__s1[i].1 - first] == __s1[i].0,
%at loop1.start
    proof {
        assert(m.dom().contains(__s1[__i1 as int].0.key()));
        assert forall|i: int| #![trigger __s1[i]] 0 <= i < __i1 implies m.dom().contains(__s1[i].0.key()) && (__s1[i].1 == __s1[__i1 as int].1 ==> __s1[i].0 == __s1[__i1 as int].0) by { assert(m.dom().contains(__s1[i].0.key())); }
    }
%at loop1.after
    proof {
        assert forall|j: int| #![trigger ret@[j]] 0 <= j < keys.len() implies ret@[j] == keys[j] by {
            assert(m.dom().contains(keys[j]));
            let i = choose|i: int| 0 <= i < __s1.len() && (#[trigger] __s1[i]).0.key() == keys[j];
            assert(ret@[__s1[i].1 - first] == __s1[i].0);
        }
        assert(ret@ =~= keys);
    }
%fn build_ring_to_topo_ring_with_null_ptrs
%requires des_in(build_ring.0@, edges@.len() as int),
%ensures
        topo_ring_abs(edge_points(edges@), r) == des_abs(edge_points(edges@), build_ring.0@),
        r.region == Ptr::Null, ring_in(r, edges@.len() as int),
%loop 1
            __c1@.len() == __k1,
            forall|j: int| #![trigger __c1@[j]] 0 <= j < __k1 ==> edge_in(__c1@[j], edges@.len() as int) && ptr_ix(__c1@[j].edge) == build_ring.0@[j].edge_id && __c1@[j].direction == build_ring.0@[j].direction,
%at fn_end
    proof { assert(topo_ring_abs(edge_points(edges@), __ret) =~= des_abs(edge_points(edges@), build_ring.0@)); }
%fn Builder::new
%requires
        topology.edges@.len() <= max_len(),
        forall|e: int| #![trigger topology.edges@[e]] 0 <= e < topology.edges@.len() ==> topology.edges@[e].points@.len() <= max_len(),
%ensures r.wf(), r.abs() =~= seq![], clipped_ok(topology.edges@, *mask, r.clipped()),
%loop 1
            old_edge_id_finder@.len() == __k1, clipped_edges@.len() <= __k1,
            finder_ok(old_edge_id_finder@, clipped_edges@), all_named(old_edge_id_finder@, clipped_edges@.len() as int),
            forall|e: int| #![trigger old_edge_id_finder@[e]] 0 <= e < __k1 ==> rest_of(topology.edges@[e].points@, *mask, found(old_edge_id_finder@[e], clipped_edges@)),
%at let clipped 1
    let ghost f0 = old_edge_id_finder@; let ghost c0 = clipped_edges@;
    proof { assert(clip_out(edge.points@, *mask, clipped@)); lemma_rest(edge.points@, *mask, clipped@); }
%at loop1.end
    proof {
        assert(old_edge_id_finder@ =~= f0.push(old_edge_id_finder@[__i1 as int])); lemma_named(f0, old_edge_id_finder@[__i1 as int], c0.len() as int);
        assert forall|e: int| #![trigger old_edge_id_finder@[e]] 0 <= e < __k1 implies rest_of(topology.edges@[e].points@, *mask, found(old_edge_id_finder@[e], clipped_edges@)) by {
            if e < __i1 { assert(old_edge_id_finder@[e] == f0[e]); assert(found(f0[e], c0) == found(f0[e], clipped_edges@)); }
        }
    }
%at fn_end
    proof {
        assert forall|e: int| #![trigger __ret.clipped()[e]] 0 <= e < topology.edges@.len() implies rest_of(topology.edges@[e].points@, *mask, __ret.clipped()[e]) by {
            assert(__ret.clipped()[e] == found(__ret.old_edge_id_finder@[e], __ret.old_edges@));
        }
    }
%fn Builder::find_old_edge_id
%requires edge_in(DirectedEdge { edge: old_edge_ptr, direction: Direction::Forward }, self.old_edge_id_finder@.len() as int), self.old_edge_0_ptr == Ptr::At(0, 0),
%ensures r == self.old_edge_id_finder@[ptr_ix(old_edge_ptr)],
%at fn_start
    proof {
        let i = ptr_ix(old_edge_ptr); let z = elem_size_spec();
        assert(0 * z == 0) by (nonlinear_arith);
        assert(z > 0 ==> 0 <= i * z && (i * z) / z == i) by (nonlinear_arith) requires i >= 0;
    }
%raw
/// The walk in terms of the builder: pushing a directed edge pushes its path.
pub proof fn lemma_des_push(paths: Seq<Seq<Point>>, s: Seq<BuildDirectedEdge>, x: BuildDirectedEdge)
    requires des_in(s, paths.len() as int), x.edge_id < paths.len()
    ensures des_in(s.push(x), paths.len() as int), des_abs(paths, s.push(x)) =~= des_abs(paths, s).push(directed(paths[x.edge_id as int], x.direction))
{
    assert forall|j: int| #![trigger s.push(x)[j]] 0 <= j < s.push(x).len() implies s.push(x)[j].edge_id < paths.len() by { if j < s.len() { assert(s.push(x)[j] == s[j]); } }
}
pub open spec fn joined(w: AbsRing, p: Point) -> AbsRing { if w.len() > 0 && end_of(w) != p { w.push(seq![end_of(w), p]) } else { w } }
pub open spec fn opt_end(w: AbsRing) -> Option<Point> { if w.len() == 0 { None } else { Some(end_of(w)) } }
pub open spec fn opt_start(w: AbsRing) -> Option<Point> { if w.len() == 0 { None } else { Some(w[0][0]) } }
pub open spec fn ring_state(paths: Seq<Seq<Point>>, ret: Seq<BuildDirectedEdge>, area2: int, w: AbsRing) -> bool {
    des_in(ret, paths.len() as int) && des_abs(paths, ret) == w && area2 == abs_area(w)
}
%fn Builder::clip_ring
%requires old(self).wf0(), cring_ok(*ring, old(self).clipped()),
%ensures
        final(self).wf0(), final(self).same_input(*old(self)), final(self).regions == old(self).regions, old(self).paths().is_prefix_of(final(self).paths()),
        r is None <==> abs_area(ring_clip(*ring, old(self).clipped())) == 0,
        r is Some ==> des_in(r->Some_0.0@, final(self).paths().len() as int) && des_abs(final(self).paths(), r->Some_0.0@) == ring_clip(*ring, old(self).clipped()),
%at fn_start
    let ghost clipped = self.clipped(); let ghost d = ring.directed_edges@;
    let ghost mut w: AbsRing = seq![]; let ghost mut p0 = self.paths();
    let ghost mut r1: Seq<BuildDirectedEdge> = seq![]; let ghost mut keys1 = self.new_edges.keys();
    proof { lemma_cw_mono(d, clipped, d.len() as int, d.len() as int); }
%loop 1
            self.wf0(), self.same_input(*old(self)), self.regions == old(self).regions, old(self).paths().is_prefix_of(self.paths()),
            w == join_n(d, clipped, __k1 as int), p0 == self.paths(),
            ring_state(p0, ret@, area2 as int, w),
            previous_point == opt_end(w), start_point == opt_start(w),
            -cw_n(d, clipped, __k1 as int) * 0xffff_ffff_ffff_ffff <= area2 <= cw_n(d, clipped, __k1 as int) * 0xffff_ffff_ffff_ffff,
            0 <= cw_n(d, clipped, __k1 as int) <= max_len(),
%at loop1.before
    proof { assert(des_abs(p0, ret@) =~= w); }
%at loop1.start
    let ghost c = directed(clipped[ptr_ix(d[__i1 as int].edge)], d[__i1 as int].direction);
    let ghost r0 = ret@; let ghost keys0 = self.new_edges.keys();
    proof {
        let e = ptr_ix(d[__i1 as int].edge);
        assert(edge_in(d[__i1 as int], clipped.len() as int));
        assert(clipped[e] == found(self.old_edge_id_finder@[e], self.old_edges@));
        assert(c.len() == clipped[e].len());
        lemma_cw_mono(d, clipped, __k1 as int, d.len() as int);
        lemma_path_bound(c);
        let g = seq![end_of(w), c[0]];
        lemma_path_bound(g);
        lemma_area_pushed(w, g); lemma_area_pushed(w, c); lemma_area_pushed(w.push(g), c);
    }
%at loop1.end
    proof {
        let p1 = self.paths();
        lemma_paths_prefix(self.old_edges@, keys0, self.new_edges.keys());
        lemma_des_prefix(r0, p0, p1);
        if c.len() >= 2 {
            let y = ret@[ret@.len() - 1];
            assert(directed(p1[y.edge_id as int], y.direction) == c);
            if w.len() > 0 && end_of(w) != c[0] {
                let x = ret@[r0.len() as int];
                assert(ret@ =~= r0.push(x).push(y));
                lemma_des_push(p1, r0, x); lemma_des_push(p1, r0.push(x), y);
                assert(directed(p1[x.edge_id as int], x.direction) =~= seq![end_of(w), c[0]]);
            } else {
                assert(ret@ =~= r0.push(y));
                lemma_des_push(p1, r0, y);
            }
        }
        lemma_join_area(d, clipped, __k1 as int);
        w = join_n(d, clipped, __k1 as int);
        p0 = p1;
    }
%at loop1.after
    proof {
        r1 = ret@; keys1 = self.new_edges.keys();
        assert(d.len() == __n1);
        let g = seq![end_of(w), w[0][0]];
        lemma_path_bound(g); lemma_area_pushed(w, g);
    }
%at fn_end
    proof {
        let p1 = self.paths();
        lemma_paths_prefix(self.old_edges@, keys1, self.new_edges.keys());
        lemma_des_prefix(r1, p0, p1);
        if w.len() > 0 && w[0][0] != end_of(w) {
            if __ret is Some {
                let b = __ret->Some_0.0@;
                let x = b[b.len() - 1];
                assert(b =~= r1.push(x));
                lemma_des_push(p1, r1, x);
                assert(directed(p1[x.edge_id as int], x.direction) =~= seq![end_of(w), w[0][0]]);
            }
        }
    }
%fn Builder::clip_rings
%iter 1 ref
%requires old(self).wf0(), crings_ok(rings@, old(self).clipped()),
%ensures
        final(self).wf0(), final(self).same_input(*old(self)), final(self).regions == old(self).regions, old(self).paths().is_prefix_of(final(self).paths()),
        rings_in(r@, final(self).paths().len() as int), rings_abs(final(self).paths(), r@) == rings_clip(rings@, old(self).clipped()), r@.len() <= rings@.len(),
%loop 1
            self.wf0(), self.same_input(*old(self)), self.regions == old(self).regions, old(self).paths().is_prefix_of(self.paths()), p0 == self.paths(),
            self.clipped() == old(self).clipped(),
            rings_in(__c1@, p0.len() as int), rings_abs(p0, __c1@) =~= rings_clip_n(rings@, old(self).clipped(), __k1 as int), __c1@.len() <= __k1,
%at loop1.before
    let ghost mut p0 = self.paths();
%at loop1.start
    proof { lemma_rings_prefix(__c1@, p0, self.paths()); p0 = self.paths(); assert(self.clipped() =~= old(self).clipped()); }
%at loop1.none
    proof { lemma_rings_prefix(__c1@, p0, self.paths()); p0 = self.paths(); assert(self.clipped() =~= old(self).clipped()); }
%fn Builder::add_region
%requires old(self).wf(), crings_ok(region.outer_rings@, old(self).clipped()), crings_ok(region.inner_rings@, old(self).clipped()),
%ensures
        final(self).wf(), final(self).same_input(*old(self)), final(self).clipped() == old(self).clipped(),
        rings_clip(region.outer_rings@, old(self).clipped()).len() == 0 ==> final(self).abs() == old(self).abs() && final(self).regions == old(self).regions,
        rings_clip(region.outer_rings@, old(self).clipped()).len() > 0 ==> final(self).abs().len() == old(self).abs().len() + 1
            && final(self).abs().drop_last() == old(self).abs() && region_clip_ok(*region, old(self).clipped(), final(self).abs().last()) && final(self).regions@.len() == old(self).regions@.len() + 1,
%at let outer_rings 1
    let ghost p1 = self.paths();
    proof { lemma_regions_prefix(self.regions@, old(self).paths(), p1); assert(self.clipped() =~= old(self).clipped()); }
%at let inner_rings 1
    let ghost p2 = self.paths();
    proof { lemma_regions_prefix(self.regions@, p1, p2); lemma_rings_prefix(outer_rings@, p1, p2); }
%at fn_end
    proof {
        assert(self.clipped() =~= old(self).clipped());
        if outer_rings@.len() > 0 { assert(self.abs().drop_last() =~= old(self).abs()); }
    }
%fn Builder::into_topology
%iter 2 call
%panic
    proof {
        let e = ptr_ix(directed_edge.edge);
        assert(slots(uses_t(regs0, __i6 as int, e) + uses_r(regs0[__i6 as int], __i7 as int, e, __i6 as int) + uses_d(ring.directed_edges@, __i8 as int, e, Ptr::At(__i6, __i7)), edges@[e].rings@));
        lemma_overused(regs0, __i6 as int, __i7 as int, __i8 as int);
        assert(overused(regs0));
    }
%arena edges
%requires self.wf(), self.regions@.len() <= max_len(),
%ensures
        topo_abs(r) == self.abs(), //@C05
        edge_points(r.edges@) == self.paths(), //@C05
        refs_ok(r), //@C07
%at fn_start
    let ghost olds = self.old_edges@; let ghost keys = self.new_edges.keys(); let ghost paths = self.paths(); let ghost regs = self.regions@;
%loop 1
            edges@.len() == __k1, __n1 == olds.len(), __s1 == olds,
            forall|j: int| #![trigger edges@[j]] 0 <= j < __k1 ==> edges@[j].points@ == paths[j] && null_edge(edges@[j]),
%loop 2
            edges@.len() == olds.len() + __k2, __n2 == keys.len(), __s2 == keys,
            forall|j: int| #![trigger edges@[j]] 0 <= j < olds.len() + __k2 ==> edges@[j].points@ == paths[j] && null_edge(edges@[j]),
%loop 3
            __c3@.len() == __k3, __n3 == regs.len(), __s3 == regs, edge_points(edges@) == paths, edges@.len() == paths.len(),
            forall|i: int| #![trigger __c3@[i]] 0 <= i < __k3 ==> topo_region_abs(paths, __c3@[i]) == region_abs(paths, regs[i])
                && __c3@[i].outer_rings@.len() <= max_len() && __c3@[i].inner_rings@.len() <= max_len(),
            forall|i: int, k: int| #![trigger ring_k(__c3@[i], k)] 0 <= i < __k3 && 0 <= k < n_rings(__c3@[i]) ==> ring_in(ring_k(__c3@[i], k), paths.len() as int),
%at loop3.before
    proof { assert(edge_points(edges@) =~= paths); }
%at loop3.start
    proof {
        let x = topo_region_abs(paths, __y3); let y = region_abs(paths, regs[__i3 as int]);
        assert(x.outer =~= y.outer && x.inner =~= y.inner);
    }
%loop 4
            region_in(regs[__i3 as int], paths.len() as int), __s4 == regs[__i3 as int].outer_rings@,
            __c4@.len() == __k4,
            forall|j: int| #![trigger __c4@[j]] 0 <= j < __k4 ==> topo_ring_abs(paths, __c4@[j]) == des_abs(paths, __s4[j].0@) && ring_in(__c4@[j], paths.len() as int),
%loop 5
            __s5 == regs[__i3 as int].inner_rings@,
            __c5@.len() == __k5,
            forall|j: int| #![trigger __c5@[j]] 0 <= j < __k5 ==> topo_ring_abs(paths, __c5@[j]) == des_abs(paths, __s5[j].0@) && ring_in(__c5@[j], paths.len() as int),
%at let regions 2
    let ghost regs0 = regions@;
%loop 6
            regions@.len() == regs0.len(), edges@.len() == paths.len(), edge_points(edges@) =~= paths,
            forall|i: int| #![trigger regions@[i]] __k6 <= i < regions@.len() ==> regions@[i] == regs0[i],
            forall|i: int| #![trigger regions@[i]] 0 <= i < __k6 ==> same_region(regions@[i], regs0[i]) && region_refs_ok(regions@[i], i, paths.len() as int),
            forall|e: int| #![trigger edges@[e]] 0 <= e < edges@.len() ==> slots(uses_t(regs0, __k6 as int, e), edges@[e].rings@), //@C07
%loop 7
            edges@.len() == paths.len(), edge_points(edges@) =~= paths,
            same_region(*region, regs0[__i6 as int]),
            forall|k: int| #![trigger ring_k(*region, k)] 0 <= k < __k7 ==> ring_k(*region, k).region == Ptr::At(__i6, 0), //@C07
            forall|e: int| #![trigger edges@[e]] 0 <= e < edges@.len() ==> slots(uses_t(regs0, __i6 as int, e) + uses_r(regs0[__i6 as int], __k7 as int, e, __i6 as int), edges@[e].rings@), //@C07
            rg == *region,
%at loop7.before
    let ghost mut rg = *region;
%at loop7.end
    proof {
        assert forall|k: int| #![trigger ring_k(*region, k)] 0 <= k < __k7 implies ring_k(*region, k).region == Ptr::At(__i6, 0) by {
            if k < __i7 { assert(ring_k(*region, k) == ring_k(rg, k)); }
        }
        rg = *region;
    }
%loop 8
            edges@.len() == paths.len(), edge_points(edges@) =~= paths,
            ring.region == Ptr::At(__i6, 0), //@C07
            ring.directed_edges == ring_k(regs0[__i6 as int], __i7 as int).directed_edges,
            forall|e: int| #![trigger edges@[e]] 0 <= e < edges@.len() ==> slots(uses_t(regs0, __i6 as int, e) + uses_r(regs0[__i6 as int], __i7 as int, e, __i6 as int) + uses_d(ring.directed_edges@, __k8 as int, e, Ptr::At(__i6, __i7)), edges@[e].rings@), //@C07
%at loop8.start
    let ghost es0 = edges@;
%at loop8.end
    proof {
        assert forall|e: int| #![trigger edges@[e]] 0 <= e < edges@.len() implies slots(uses_t(regs0, __i6 as int, e) + uses_r(regs0[__i6 as int], __i7 as int, e, __i6 as int) + uses_d(ring.directed_edges@, __k8 as int, e, Ptr::At(__i6, __i7)), edges@[e].rings@) by {
            let a = uses_t(regs0, __i6 as int, e) + uses_r(regs0[__i6 as int], __i7 as int, e, __i6 as int);
            let u = uses_d(ring.directed_edges@, __i8 as int, e, Ptr::At(__i6, __i7));
            let p = Ptr::At(__i6, __i7);
            assert(slots(a + u, es0[e].rings@));
            assert(a + u.push(p) =~= (a + u).push(p));
            assert forall|j: int| 0 <= j < (a + u).len() implies (a + u)[j] != Ptr::Null by { assert((a + u).contains((a + u)[j])); }
            if ptr_ix(directed_edge.edge) == e {
                assert((a + u).len() < 2);
                assert(edges@[e].rings@ =~= es0[e].rings@.update(if (a + u).len() == 0 { 0int } else { 1int }, p));
            } else { assert(edges@[e] == es0[e]); }
        }
    }
%at fn_end
    proof {
        assert forall|i: int| 0 <= i < regs0.len() implies #[trigger] topo_region_abs(paths, __ret.regions@[i]) == region_abs(paths, regs[i]) by {
            assert(same_region(__ret.regions@[i], regs0[i]));
            lemma_same_region(__ret.regions@[i], regs0[i], paths);
        }
        assert(topo_abs(__ret) =~= regions_abs(paths, regs));
        assert forall|e: int| 0 <= e < __ret.edges@.len() implies slots(uses_t(__ret.regions@, __ret.regions@.len() as int, e), #[trigger] __ret.edges@[e].rings@) by {
            lemma_uses_t_same(__ret.regions@, regs0, regs0.len() as int, e);
        }
    }
%fn clip_topology
%requires topology_ok(*topology),
%ensures
        clip_result(*topology, *mask, r), //@C05
        forall|i: int| #![trigger topo_abs(r)[i]] 0 <= i < topo_abs(r).len() ==> good_rings(topo_abs(r)[i].outer, *mask) && good_rings(topo_abs(r)[i].inner, *mask), //@C05
        refs_ok(r), //@C07
%loop 1
            builder.wf(), builder.clipped() == clipped, clipped_ok(topology.edges@, *mask, clipped), builder.regions@.len() <= __k1,
            regions_clip_ok(topology.regions@, clipped, __k1 as int, builder.abs()),
%at let builder 1
    let ghost clipped = builder.clipped(); let ghost mut p1: Seq<Seq<Point>> = seq![]; let ghost mut n1: int = 0;
%at loop1.start
    let ghost a0 = builder.abs();
    proof { lemma_crings(region.outer_rings@, topology.edges@, *mask, clipped); lemma_crings(region.inner_rings@, topology.edges@, *mask, clipped); }
%at loop1.end
    proof {
        let a = builder.abs(); let s = topology.regions@;
        if rings_clip(region.outer_rings@, clipped).len() > 0 {
            let k = kept_n(s, clipped, __k1 as int);
            assert forall|j: int| #![trigger a[j]] 0 <= j < a.len() implies region_clip_ok(s[k[j]], clipped, a[j]) by { if j < a0.len() { assert(a.drop_last()[j] == a0[j]); } }
        }
    }
%at loop1.after
    let ghost ab = builder.abs();
    proof {
        assert forall|i: int| #![trigger ab[i]] 0 <= i < ab.len() implies good_rings(ab[i].outer, *mask) && good_rings(ab[i].inner, *mask) by {
            let n = topology.regions@.len() as int;
            lemma_kept_range(topology.regions@, clipped, n);
            let g = topology.regions@[kept_n(topology.regions@, clipped, n)[i]];
            assert(trings_ok(g.outer_rings@, topology.edges@) && trings_ok(g.inner_rings@, topology.edges@));
            assert(region_clip_ok(g, clipped, ab[i]));
            lemma_crings(g.outer_rings@, topology.edges@, *mask, clipped); lemma_crings(g.inner_rings@, topology.edges@, *mask, clipped);
            lemma_rings_clip(g.outer_rings@, topology.edges@, *mask, clipped, g.outer_rings@.len() as int);
            lemma_rings_clip(g.inner_rings@, topology.edges@, *mask, clipped, g.inner_rings@.len() as int);
        }
    }
    proof { lemma_joined_once(builder); p1 = builder.paths(); n1 = builder.old_edges@.len() as int; }
%at fn_end
    proof { assert(joined_once(p1, clipped, n1)); assert(clip_with(*topology, *mask, clipped, __ret)); }
