%module geo src/geo/mod.rs
%type Point #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
%type Edge
%type Ring
%type WindingOrder #[derive(Clone, Copy, PartialEq, Eq)]
%type Region
%raw
pub open spec fn pcmp(a: Point, b: Point) -> Ordering {
    if a.0 < b.0 { Ordering::Less } else if a.0 > b.0 { Ordering::Greater }
    else if a.1 < b.1 { Ordering::Less } else if a.1 > b.1 { Ordering::Greater } else { Ordering::Equal }
}
pub open spec fn plt(a: Point, b: Point) -> bool { a.0 < b.0 || (a.0 == b.0 && a.1 < b.1) }
impl PartialEqSpecImpl for Point {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
impl PartialOrdSpecImpl for Point {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { Some(pcmp(*self, *other)) }
}
impl OrdSpecImpl for Point {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Self) -> Ordering { pcmp(*self, *other) }
}
impl Key for Point { type K = Point; open spec fn key(&self) -> Point { *self } }
impl PartialEqSpecImpl for WindingOrder {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
impl Clone for Edge {
    fn clone(&self) -> (r: Edge) ensures r.0@ == self.0@
    { let v = self.0.clone(); proof { assert(v@ =~= self.0@); } Edge(v) }
}
/// The cross product of two consecutive points.
pub open spec fn cross(a: Point, b: Point) -> int { a.0 as int * b.1 as int - b.0 as int * a.1 as int }
/// The shoelace sum over the first n segments.
pub open spec fn shoelace_n(s: Seq<Point>, n: int) -> int decreases n {
    if n <= 0 { 0 } else { shoelace_n(s, n - 1) + cross(s[n - 1], s[n]) }
}
/// The shoelace sum over all consecutive pairs of points.
pub open spec fn shoelace(s: Seq<Point>) -> int { if s.len() <= 1 { 0 } else { shoelace_n(s, s.len() - 1) } }
pub open spec fn shoelace_edges_n(s: Seq<Edge>, n: int) -> int decreases n {
    if n <= 0 { 0 } else { shoelace_edges_n(s, n - 1) + shoelace(s[n - 1].0@) }
}
pub open spec fn shoelace_edges(s: Seq<Edge>) -> int { shoelace_edges_n(s, s.len() as int) }
pub open spec fn ring_shoelace(r: Ring) -> int { match r { Ring::Points(p) => shoelace(p@), Ring::Edges(e) => shoelace_edges(e@) } }
pub open spec fn total_len_n(s: Seq<Edge>, n: int) -> int decreases n { if n <= 0 { 0 } else { total_len_n(s, n - 1) + s[n - 1].0@.len() } }
pub open spec fn ring_fits(r: Ring) -> bool {
    match r { Ring::Points(p) => p@.len() <= max_len(), Ring::Edges(e) => total_len_n(e@, e@.len() as int) <= max_len() }
}
pub open spec fn wo(a: int) -> WindingOrder { if a >= 0 { WindingOrder::Clockwise } else { WindingOrder::CounterClockwise } }
pub open spec fn iabs(a: int) -> int { if a >= 0 { a } else { -a } }

pub proof fn lemma_cross_bound(a: Point, b: Point)
    ensures -0xffff_ffff_ffff_ffff <= cross(a, b) <= 0xffff_ffff_ffff_ffff
{
    let m = 0xffff_ffffint;
    assert(0 <= a.0 as int * b.1 as int <= m * m) by (nonlinear_arith) requires 0 <= a.0 as int <= m, 0 <= b.1 as int <= m;
    assert(0 <= b.0 as int * a.1 as int <= m * m) by (nonlinear_arith) requires 0 <= b.0 as int <= m, 0 <= a.1 as int <= m;
}
pub proof fn lemma_shoelace_bound(s: Seq<Point>, n: int)
    requires 0 <= n
    ensures -n * 0xffff_ffff_ffff_ffff <= shoelace_n(s, n) <= n * 0xffff_ffff_ffff_ffff
    decreases n
{
    if n > 0 { lemma_shoelace_bound(s, n - 1); lemma_cross_bound(s[n - 1], s[n]); }
}
pub proof fn lemma_total_len_nonneg(s: Seq<Edge>, n: int)
    requires 0 <= n <= s.len()
    ensures total_len_n(s, n) >= 0
    decreases n
{ if n > 0 { lemma_total_len_nonneg(s, n - 1); } }
pub proof fn lemma_total_len_mono(s: Seq<Edge>, n: int, m: int)
    requires 0 <= n <= m <= s.len()
    ensures 0 <= total_len_n(s, n) <= total_len_n(s, m)
    decreases m
{ lemma_total_len_nonneg(s, n); if n < m { lemma_total_len_mono(s, n, m - 1); } }
pub proof fn lemma_shoelace_edges_bound(s: Seq<Edge>, n: int)
    requires 0 <= n <= s.len()
    ensures -total_len_n(s, n) * 0xffff_ffff_ffff_ffff <= shoelace_edges_n(s, n) <= total_len_n(s, n) * 0xffff_ffff_ffff_ffff
    decreases n
{
    if n > 0 {
        lemma_shoelace_edges_bound(s, n - 1);
        let e = s[n - 1].0@;
        if e.len() > 1 { lemma_shoelace_bound(e, e.len() - 1); }
    }
}
%fn signed_area2
%requires points@.len() <= max_len(),
%ensures r as int == shoelace(points@),
%loop 1
            a as int == shoelace_n(points@, __k1 as int),
%at loop1.start
    proof {
        lemma_cross_bound(*p1, *p2);
        lemma_shoelace_bound(points@, __i1 as int);
        let m = 0xffff_ffffint;
        assert(0 <= p1.0 as int * p2.1 as int <= m * m) by (nonlinear_arith) requires 0 <= p1.0 as int <= m, 0 <= p2.1 as int <= m;
        assert(0 <= p2.0 as int * p1.1 as int <= m * m) by (nonlinear_arith) requires 0 <= p2.0 as int <= m, 0 <= p1.1 as int <= m;
    }
%fn area2_and_winding_order
%requires points@.len() <= max_len(),
%ensures r.0 as int == iabs(shoelace(points@)), r.1 == wo(shoelace(points@)),
%at fn_start
    proof { if points@.len() > 1 { lemma_shoelace_bound(points@, points@.len() - 1); } }
%fn area2
%requires points@.len() <= max_len(),
%ensures r as int == iabs(shoelace(points@)),
%fn winding_order
%requires points@.len() <= max_len(),
%ensures r == wo(shoelace(points@)),
%raw
/// The points of the first n edges, walked in order, each joint listed once.
pub open spec fn walk_n(s: Seq<Edge>, n: int) -> Seq<Point> decreases n {
    if n <= 0 { Seq::empty() } else {
        let w = walk_n(s, n - 1); let e = s[n - 1].0@;
        if w.len() > 0 && e.len() > 0 && w.last() == e[0] { w + e.subrange(1, e.len() as int) } else { w + e }
    }
}
pub open spec fn walk(s: Seq<Edge>) -> Seq<Point> { walk_n(s, s.len() as int) }
pub open spec fn edges_of(r: Ring, out: Seq<Edge>) -> bool {
    match r {
        Ring::Edges(e) => out.len() == e@.len() && forall|i: int| 0 <= i < out.len() ==> (#[trigger] out[i]).0@ == e@[i].0@,
        Ring::Points(p) => out.len() == (if p@.len() == 0 { 0 } else { p@.len() - 1 })
            && forall|i: int| 0 <= i < out.len() ==> (#[trigger] out[i]).0@ == seq![p@[i], p@[i + 1]],
    }
}
/// Conversion there and back: the edges of a point ring of two or more points walk back to its points,
/// when no two consecutive points are equal or not.
pub proof fn lemma_round_trip(p: Seq<Point>, out: Seq<Edge>, n: int)
    requires p.len() >= 2, out.len() == p.len() - 1, 0 <= n <= out.len(),
        forall|i: int| 0 <= i < out.len() ==> (#[trigger] out[i]).0@ == seq![p[i], p[i + 1]],
    ensures n > 0 ==> walk_n(out, n) =~= p.subrange(0, n + 1),
    decreases n
{
    if n > 0 {
        lemma_round_trip(p, out, n - 1);
        assert(out[n - 1].0@ == seq![p[n - 1], p[n]]);
        if n == 1 {
            assert(walk_n(out, 0) =~= Seq::empty());
            assert(walk_n(out, 1) =~= seq![p[0], p[1]]);
        } else {
            assert(walk_n(out, n - 1).last() == p[n - 1]);
            assert(seq![p[n - 1], p[n]].subrange(1, 2) =~= seq![p[n]]);
        }
    }
}
%fn Ring::points
%requires ring_fits(*self),
%ensures r@ == (match *self { Ring::Points(p) => p@, Ring::Edges(e) => walk(e@) }),
%loop 1
            __c1 as int == total_len_n(edges@, __k1 as int),
%at loop1.start
    proof { lemma_total_len_mono(edges@, __i1 as int, __i1 + 1); lemma_total_len_mono(edges@, __i1 + 1, edges@.len() as int); }
%loop 2
            ret@ == walk_n(edges@, __k2 as int),
%fn Ring::edges
%requires ring_fits(*self),
%ensures edges_of(*self, r@),
%loop 1
            __c1@.len() == __k1,
            forall|i: int| 0 <= i < __k1 ==> (#[trigger] __c1@[i]).0@ == seq![points@[i], points@[i + 1]],
%at loop1.start
    proof { assert(__y1.0@ =~= seq![points@[__i1 as int], points@[__i1 + 1]]); }
%fn Ring::area2
%requires ring_fits(*self),
%ensures r as int == iabs(ring_shoelace(*self)),
%fn Ring::area2_and_winding_order
%requires ring_fits(*self),
%ensures r.0 as int == iabs(ring_shoelace(*self)), r.1 == wo(ring_shoelace(*self)),
%loop 1
            a as int == shoelace_edges_n(edges@, __k1 as int),
%at loop1.start
    proof {
        lemma_total_len_mono(edges@, __i1 as int, __i1 + 1); lemma_total_len_mono(edges@, __i1 + 1, edges@.len() as int);
        lemma_shoelace_edges_bound(edges@, __i1 as int);
        lemma_shoelace_edges_bound(edges@, __i1 + 1);
    }
%at loop1.after
    proof { lemma_shoelace_edges_bound(edges@, edges@.len() as int); }
%fn Ring::winding_order
%requires ring_fits(*self),
%ensures r == wo(ring_shoelace(*self)),
