%module normalize src/normalize.rs
%raw
use crate::geo::*;
use crate::topology::types::*;
use crate::topology::build::*;
use crate::clip::topology::{abs_area, abs_area_n, closed_walk, meets};
use crate::borders::{planar, borders_shared, lemma_borders};
use crate::pairs::{once, paired, lemma_pairs_off};
%type NormEdge
%type NormRing
%raw
// ---- directed edges with the regions on their two sides -------------------------------------
pub ghost struct Side { pub points: Seq<Point>, pub a: Ptr, pub b: Ptr }
pub open spec fn ne(e: NormEdge) -> Side { Side { points: e.points@, a: e.regions@[0], b: e.regions@[1] } }
pub open spec fn nes(s: Seq<NormEdge>) -> Seq<Side> { s.map_values(|e: NormEdge| ne(e)) }
pub open spec fn rns(s: Seq<NormRing>) -> Seq<Seq<Side>> { s.map_values(|r: NormRing| nes(r.edges@)) }
/// What is preserved is stated for every quantity f that adds up over the directed segments: with f counting one
/// segment this says that each segment occurs as often as before, with the cross product it is the signed area.
pub type F = spec_fn(Point, Point, Ptr, Ptr) -> int;
pub open spec fn tot_p(f: F, s: Seq<Point>, a: Ptr, b: Ptr, n: int) -> int decreases n { if n <= 0 { 0 } else { tot_p(f, s, a, b, n - 1) + f(s[n - 1], s[n], a, b) } }
pub open spec fn tot_e(f: F, e: Side) -> int { tot_p(f, e.points, e.a, e.b, e.points.len() - 1) }
pub open spec fn tot_n(f: F, s: Seq<Side>, n: int) -> int decreases n { if n <= 0 { 0 } else { tot_n(f, s, n - 1) + tot_e(f, s[n - 1]) } }
pub open spec fn tot(f: F, s: Seq<Side>) -> int { tot_n(f, s, s.len() as int) }
pub open spec fn tot_rn(f: F, s: Seq<Seq<Side>>, n: int) -> int decreases n { if n <= 0 { 0 } else { tot_rn(f, s, n - 1) + tot(f, s[n - 1]) } }
pub open spec fn tot_r(f: F, s: Seq<Seq<Side>>) -> int { tot_rn(f, s, s.len() as int) }
pub open spec fn f_one() -> F { |p: Point, q: Point, a: Ptr, b: Ptr| 1int }
pub open spec fn f_cross() -> F { |p: Point, q: Point, a: Ptr, b: Ptr| cross(p, q) }
/// ... of the reversed segments
pub open spec fn f_back(f: F) -> F { |p: Point, q: Point, a: Ptr, b: Ptr| f(q, p, a, b) }
pub open spec fn f_dir(f: F, back: bool) -> F { if back { f_back(f) } else { f } }
/// ... of the segments with different regions on their two sides
pub open spec fn f_useful(f: F) -> F { |p: Point, q: Point, a: Ptr, b: Ptr| if a == b { 0int } else { f(p, q, a, b) } }
pub open spec fn area(s: Seq<Side>) -> int { tot(f_cross(), s) }
pub open spec fn n_segs(s: Seq<Side>) -> int { tot(f_one(), s) }

pub open spec fn ends_meet(s: Seq<Side>, i: int) -> bool { 0 < i < s.len() ==> s[i - 1].points.last() == s[i].points[0] }
pub open spec fn sturdy(s: Seq<Side>) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> !degenerate(s[i].points) }
pub open spec fn chain(s: Seq<Side>) -> bool { sturdy(s) && forall|i: int| #[trigger] ends_meet(s, i) }
/// A closed walk.
pub open spec fn ring_ok(s: Seq<Side>) -> bool { s.len() > 0 && chain(s) && s.last().points.last() == s[0].points[0] }
pub open spec fn same_sides(x: Side, y: Side) -> bool { x.a == y.a && x.b == y.b }
pub open spec fn differ(s: Seq<Side>, i: int) -> bool { 0 < i < s.len() ==> !same_sides(s[i - 1], s[i]) }
/// No two consecutive edges have the same regions on their sides.
pub open spec fn tight(s: Seq<Side>) -> bool { (forall|i: int| #[trigger] differ(s, i)) && (s.len() > 1 ==> !same_sides(s[0], s.last())) }
/// The first edge starts at the smallest node; a ring of one edge starts at its smallest point.
pub open spec fn first_min(s: Seq<Side>) -> bool {
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> !plt(s[i].points[0], s[0].points[0])
    &&& s.len() == 1 ==> forall|j: int| #![trigger s[0].points[j]] 0 <= j < s[0].points.len() ==> !plt(s[0].points[j], s[0].points[0])
}

// ---- lemmas about sums ------------------------------------------------------------------------
pub proof fn lemma_p_ext(f: F, s: Seq<Point>, t: Seq<Point>, k: int, a: Ptr, b: Ptr, n: int)
    requires 0 <= n, forall|i: int| #![trigger t[i]] 0 <= i <= n ==> s[i + k] == t[i], 0 <= k
    ensures tot_p(f, s, a, b, n + k) == tot_p(f, s, a, b, k) + tot_p(f, t, a, b, n)
    decreases n
{ if n > 0 { lemma_p_ext(f, s, t, k, a, b, n - 1); assert(s[n - 1 + k] == t[n - 1] && s[n + k] == t[n]); } }
/// Two paths joined at their common end.
pub open spec fn cat(x: Seq<Point>, y: Seq<Point>) -> Seq<Point> { x + y.subrange(1, y.len() as int) }
pub proof fn lemma_cat(f: F, x: Seq<Point>, y: Seq<Point>, a: Ptr, b: Ptr)
    requires x.len() >= 1, y.len() >= 1, x.last() == y[0]
    ensures tot_p(f, cat(x, y), a, b, cat(x, y).len() - 1) == tot_p(f, x, a, b, x.len() - 1) + tot_p(f, y, a, b, y.len() - 1)
{
    let z = cat(x, y); let k = x.len() - 1;
    assert forall|i: int| #![trigger x[i]] 0 <= i <= k implies z[i + 0] == x[i] by { }
    lemma_p_ext(f, z, x, 0, a, b, k);
    assert forall|i: int| #![trigger y[i]] 0 <= i <= y.len() - 1 implies z[i + k] == y[i] by { }
    lemma_p_ext(f, z, y, k, a, b, y.len() - 1);
}
pub proof fn lemma_n_ext(f: F, s: Seq<Side>, t: Seq<Side>, k: int, n: int)
    requires 0 <= n, 0 <= k, forall|i: int| #![trigger t[i]] 0 <= i < n ==> s[i + k] == t[i]
    ensures tot_n(f, s, n + k) == tot_n(f, s, k) + tot_n(f, t, n)
    decreases n
{ if n > 0 { lemma_n_ext(f, s, t, k, n - 1); assert(s[n - 1 + k] == t[n - 1]); } }
pub proof fn lemma_add(f: F, s: Seq<Side>, t: Seq<Side>)
    ensures tot(f, s + t) == tot(f, s) + tot(f, t)
{
    let u = s + t; let k = s.len() as int;
    assert forall|i: int| #![trigger s[i]] 0 <= i < k implies u[i + 0] == s[i] by { }
    lemma_n_ext(f, u, s, 0, k);
    assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies u[i + k] == t[i] by { }
    lemma_n_ext(f, u, t, k, t.len() as int);
}
pub proof fn lemma_push(f: F, s: Seq<Side>, e: Side)
    ensures tot(f, s.push(e)) == tot(f, s) + tot_e(f, e)
{
    let t = s.push(e);
    assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies t[i + 0] == s[i] by { }
    lemma_n_ext(f, t, s, 0, s.len() as int);
}
pub proof fn lemma_update(f: F, s: Seq<Side>, j: int, e: Side)
    requires 0 <= j < s.len()
    ensures tot(f, s.update(j, e)) == tot(f, s) - tot_e(f, s[j]) + tot_e(f, e)
{
    let x = s.subrange(0, j); let y = s.subrange(j + 1, s.len() as int);
    assert(s =~= x.push(s[j]) + y); assert(s.update(j, e) =~= x.push(e) + y);
    lemma_add(f, x.push(s[j]), y); lemma_add(f, x.push(e), y); lemma_push(f, x, s[j]); lemma_push(f, x, e);
}
pub proof fn lemma_remove(f: F, s: Seq<Side>, j: int)
    requires 0 <= j < s.len()
    ensures tot(f, s.remove(j)) == tot(f, s) - tot_e(f, s[j])
{
    let x = s.subrange(0, j); let y = s.subrange(j + 1, s.len() as int);
    assert(s =~= x.push(s[j]) + y); assert(s.remove(j) =~= x + y);
    lemma_add(f, x.push(s[j]), y); lemma_add(f, x, y); lemma_push(f, x, s[j]);
}
pub proof fn lemma_rev_p(f: F, s: Seq<Point>, a: Ptr, b: Ptr, n: int)
    requires 0 <= n < s.len()
    ensures tot_p(f, s.reverse(), a, b, n) == tot_p(f_back(f), s, a, b, s.len() - 1) - tot_p(f_back(f), s, a, b, s.len() - 1 - n)
    decreases n
{ if n > 0 { lemma_rev_p(f, s, a, b, n - 1); let m = s.len() - n; assert(s.reverse()[n - 1] == s[m] && s.reverse()[n] == s[m - 1]); assert(tot_p(f_back(f), s, a, b, m) == tot_p(f_back(f), s, a, b, m - 1) + f(s[m], s[m - 1], a, b)); } }
pub open spec fn turned(e: Side) -> Side { Side { points: e.points.reverse(), ..e } }
pub proof fn lemma_rev_e(f: F, e: Side)
    requires e.points.len() > 0
    ensures tot_e(f, turned(e)) == tot_e(f_back(f), e)
{ lemma_rev_p(f, e.points, e.a, e.b, e.points.len() - 1); }
/// The edges of a ring walked the other way.
pub open spec fn turned_n(s: Seq<Side>) -> Seq<Side> { Seq::new(s.len(), |i: int| turned(s[s.len() - 1 - i])) }
pub proof fn lemma_rev_n(f: F, s: Seq<Side>, n: int)
    requires sturdy(s), 0 <= n <= s.len()
    ensures tot_n(f, turned_n(s), n) == tot_n(f_back(f), s, s.len() as int) - tot_n(f_back(f), s, s.len() - n)
    decreases n
{ if n > 0 { lemma_rev_n(f, s, n - 1); let m = s.len() - n; assert(turned_n(s)[n - 1] == turned(s[m])); lemma_rev_e(f, s[m]); } }
pub proof fn lemma_turned(s: Seq<Side>)
    requires ring_ok(s)
    ensures ring_ok(turned_n(s)), tight(s) ==> tight(turned_n(s)), forall|f: F| #[trigger] tot(f, turned_n(s)) == tot(f_back(f), s), area(turned_n(s)) == -area(s)
{
    let t = turned_n(s); let n = s.len() as int;
    assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies !degenerate(t[i].points) by { assert(t[i] == turned(s[n - 1 - i])); assert(!degenerate(s[n - 1 - i].points)); }
    assert forall|i: int| #[trigger] ends_meet(t, i) by { if 0 < i < n { assert(ends_meet(s, n - i)); assert(!degenerate(s[n - 1 - i].points) && !degenerate(s[n - i].points)); } }
    assert(!degenerate(s[0].points) && !degenerate(s[n - 1].points));
    assert forall|f: F| #[trigger] tot(f, t) == tot(f_back(f), s) by { lemma_rev_n(f, s, n); }
    if tight(s) { assert forall|i: int| #[trigger] differ(t, i) by { if 0 < i < n { assert(differ(s, n - i)); } } }
    assert(tot(f_cross(), t) == tot(f_back(f_cross()), s));
    lemma_neg(f_back(f_cross()), f_cross(), s, n);
}
pub proof fn lemma_neg_p(f: F, g: F, s: Seq<Point>, a: Ptr, b: Ptr, n: int)
    requires forall|p: Point, q: Point| f(p, q, a, b) == -#[trigger] g(p, q, a, b)
    ensures tot_p(f, s, a, b, n) == -tot_p(g, s, a, b, n)
    decreases n
{ if n > 0 { lemma_neg_p(f, g, s, a, b, n - 1); assert(f(s[n - 1], s[n], a, b) == -g(s[n - 1], s[n], a, b)); } }
pub proof fn lemma_neg(f: F, g: F, s: Seq<Side>, n: int)
    requires forall|p: Point, q: Point, a: Ptr, b: Ptr| f(p, q, a, b) == -#[trigger] g(p, q, a, b)
    ensures tot_n(f, s, n) == -tot_n(g, s, n)
    decreases n
{ if n > 0 { lemma_neg(f, g, s, n - 1); let e = s[n - 1]; lemma_neg_p(f, g, e.points, e.a, e.b, e.points.len() - 1); } }
pub open spec fn rot(s: Seq<Side>, k: int) -> Seq<Side> { s.subrange(k, s.len() as int) + s.subrange(0, k) }
pub proof fn lemma_rotate(s: Seq<Side>, k: int)
    requires ring_ok(s), 0 <= k < s.len()
    ensures ring_ok(rot(s, k)), tight(s) ==> tight(rot(s, k)), forall|f: F| #[trigger] tot(f, rot(s, k)) == tot(f, s)
{
    let n = s.len() as int; let t = rot(s, k); let x = s.subrange(k, n); let y = s.subrange(0, k);
    assert forall|f: F| #[trigger] tot(f, t) == tot(f, s) by { lemma_add(f, x, y); lemma_add(f, y, x); assert(s =~= y + x); }
    assert forall|i: int| #![trigger t[i]] 0 <= i < n implies !degenerate(t[i].points) by { assert(t[i] == s[if i < n - k { i + k } else { i - (n - k) }]); }
    assert forall|i: int| #[trigger] ends_meet(t, i) by { if 0 < i < n { if i < n - k { assert(ends_meet(s, i + k)); } else if i > n - k { assert(ends_meet(s, i - (n - k))); } } }
    if k > 0 { assert(ends_meet(s, k)); assert(t.last() == s[k - 1] && t[0] == s[k]); } else { assert(t =~= s); }
    if tight(s) {
        assert forall|i: int| #[trigger] differ(t, i) by { if 0 < i < n { if i < n - k { assert(differ(s, i + k)); } else if i > n - k { assert(differ(s, i - (n - k))); } } }
        assert(differ(s, k));
    }
}
pub open spec fn all_differ(s: Seq<Side>) -> bool { forall|i: int| #[trigger] differ(s, i) }
pub open spec fn longer(x: Side, y: Side) -> Side { Side { points: cat(x.points, y.points), ..x } }
/// Extending the last edge.
pub proof fn lemma_extend(t: Seq<Side>, e: Side, u: Seq<Side>)
    requires chain(t), all_differ(t), t.len() > 0, same_sides(t.last(), e), t.last().points.last() == e.points[0], !degenerate(e.points), u == t.update(t.len() - 1, longer(t.last(), e)),
    ensures chain(u), all_differ(u), u.last().points.last() == e.points.last(), u[0].points[0] == t[0].points[0], forall|f: F| #[trigger] tot(f, u) == tot(f, t) + tot_e(f, e),
{
    let n = t.len() as int; let x = t[n - 1];
    assert(!degenerate(x.points));
    assert forall|i: int| #![trigger u[i]] 0 <= i < n implies !degenerate(u[i].points) by { if i < n - 1 { assert(u[i] == t[i]); } }
    assert forall|i: int| #[trigger] ends_meet(u, i) by { assert(ends_meet(t, i)); }
    assert forall|i: int| #[trigger] differ(u, i) by { assert(differ(t, i)); }
    assert forall|f: F| #[trigger] tot(f, u) == tot(f, t) + tot_e(f, e) by { lemma_update(f, t, n - 1, longer(x, e)); lemma_cat(f, x.points, e.points, x.a, x.b); }
}
/// Adding an edge.
pub proof fn lemma_append(t: Seq<Side>, e: Side)
    requires chain(t), t.len() > 0 ==> t.last().points.last() == e.points[0], !degenerate(e.points)
    ensures chain(t.push(e)), all_differ(t) && (t.len() > 0 ==> !same_sides(t.last(), e)) ==> all_differ(t.push(e)), forall|f: F| #[trigger] tot(f, t.push(e)) == tot(f, t) + tot_e(f, e),
{
    let u = t.push(e);
    assert forall|i: int| #![trigger u[i]] 0 <= i < u.len() implies !degenerate(u[i].points) by { if i < t.len() { assert(u[i] == t[i]); } }
    assert forall|i: int| #[trigger] ends_meet(u, i) by { assert(ends_meet(t, i)); }
    if all_differ(t) && (t.len() > 0 ==> !same_sides(t.last(), e)) { assert forall|i: int| #[trigger] differ(u, i) by { assert(differ(t, i)); } }
    assert forall|f: F| #[trigger] tot(f, u) == tot(f, t) + tot_e(f, e) by { lemma_push(f, t, e); }
}
/// Joining the last edge to the first.
pub open spec fn wrapped(t: Seq<Side>) -> Seq<Side> { t.update(0, Side { points: cat(t.last().points, t[0].points), ..t[0] }).drop_last() }
pub proof fn lemma_wrap(t: Seq<Side>)
    requires ring_ok(t), all_differ(t), t.len() > 1, same_sides(t[0], t.last())
    ensures ring_ok(wrapped(t)), tight(wrapped(t)), forall|f: F| #[trigger] tot(f, wrapped(t)) == tot(f, t),
{
    let n = t.len() as int; let e = Side { points: cat(t.last().points, t[0].points), ..t[0] }; let u = wrapped(t);
    assert(!degenerate(t[0].points) && !degenerate(t[n - 1].points));
    assert forall|i: int| #![trigger u[i]] 0 <= i < u.len() implies !degenerate(u[i].points) by { if i > 0 { assert(u[i] == t[i]); } }
    assert forall|i: int| #[trigger] ends_meet(u, i) by { assert(ends_meet(t, i)); }
    assert forall|i: int| #[trigger] differ(u, i) by { assert(differ(t, i)); }
    assert(ends_meet(t, n - 1) && differ(t, n - 1));
    assert(u.push(t[n - 1]) =~= t.update(0, e));
    assert forall|f: F| #[trigger] tot(f, u) == tot(f, t) by { lemma_update(f, t, 0, e); lemma_cat(f, t[n - 1].points, t[0].points, e.a, e.b); lemma_push(f, u, t[n - 1]); }
}
// ---- sizes and areas ----------------------------------------------------------------------------
pub proof fn lemma_one_p(s: Seq<Point>, a: Ptr, b: Ptr, n: int)
    requires 0 <= n
    ensures tot_p(f_one(), s, a, b, n) == n, tot_p(f_cross(), s, a, b, n) == shoelace_n(s, n), -n * 0xffff_ffff_ffff_ffff <= shoelace_n(s, n) <= n * 0xffff_ffff_ffff_ffff
    decreases n
{ lemma_shoelace_bound(s, n); if n > 0 { lemma_one_p(s, a, b, n - 1); } }
pub proof fn lemma_one_e(e: Side)
    requires e.points.len() > 0
    ensures tot_e(f_one(), e) == e.points.len() - 1, tot_e(f_cross(), e) == shoelace(e.points)
{ lemma_one_p(e.points, e.a, e.b, e.points.len() - 1); }
pub proof fn lemma_size(s: Seq<Side>, n: int, m: int)
    requires sturdy(s), 0 <= n <= m <= s.len()
    ensures
        n <= tot_n(f_one(), s, n), tot_n(f_one(), s, n) + (m - n) <= tot_n(f_one(), s, m),
        -tot_n(f_one(), s, n) * 0xffff_ffff_ffff_ffff <= tot_n(f_cross(), s, n) <= tot_n(f_one(), s, n) * 0xffff_ffff_ffff_ffff
    decreases m
{
    if m > 0 {
        let e = s[m - 1];
        assert(!degenerate(e.points));
        lemma_one_p(e.points, e.a, e.b, e.points.len() - 1);
        if n < m { lemma_size(s, n, m - 1); } else { lemma_size(s, n - 1, m - 1); }
    }
}
// ---- what the raw pointers of the topology say ---------------------------------------------------
pub open spec fn ring_region(p: Ptr) -> Ptr { heap::<TopoRing>(p).region }
/// A directed edge of the input, with the regions on its two sides.
pub open spec fn in_side(d: DirectedEdge) -> Side {
    let e = heap::<TopoEdge>(d.edge);
    Side { points: directed(e.points@, d.direction), a: ring_region(e.rings@[0]), b: if e.rings@[1] == Ptr::Null { Ptr::Null } else { ring_region(e.rings@[1]) } }
}
/// All its pointers can be followed.
pub open spec fn edge_good(d: DirectedEdge) -> bool {
    &&& d.edge != Ptr::Null && valid::<TopoEdge>(d.edge)
    &&& heap::<TopoEdge>(d.edge).rings@[0] != Ptr::Null && valid::<TopoRing>(heap::<TopoEdge>(d.edge).rings@[0])
    &&& heap::<TopoEdge>(d.edge).rings@[1] != Ptr::Null ==> valid::<TopoRing>(heap::<TopoEdge>(d.edge).rings@[1])
}
%fn NormEdge::with_directed_edge
%arena heap edge:TopoEdge rings:TopoRing
%requires edge_good(*directed_edge),
%ensures ne(r) == in_side(*directed_edge),
%at let points 1
    proof { assert(points@ =~= heap::<TopoEdge>(directed_edge.edge).points@); }
%fn NormEdge::is_redundant
%ensures r == (ne(*self).a == ne(*self).b),
%fn NormEdge::into_edge
%ensures r.0@ == self.points@,
%fn NormEdge::Clone::clone
%ensures ne(r) == ne(*self),
%at fn_end
    proof { assert(__ret.points@ =~= self.points@); }
%raw
pub open spec fn first_point(r: NormRing) -> Point { r.edges@[0].points@[0] }
pub open spec fn has_first(r: NormRing) -> bool { r.edges@.len() > 0 && r.edges@[0].points@.len() > 0 }
impl SortKey for NormRing {
    open spec fn sortable(&self) -> bool { has_first(*self) }
    open spec fn sort_le(a: Self, b: Self) -> bool { pcmp(first_point(a), first_point(b)) != Ordering::Greater }
}
%fn NormRing::Ord::cmp
%opt plain
%requires has_first(*self), has_first(*other),
%ensures r == pcmp(first_point(*self), first_point(*other)),
%fn NormRing::PartialOrd::partial_cmp
%opt plain
%requires has_first(*self), has_first(*other),
%ensures r == Some(pcmp(first_point(*self), first_point(*other))),
%fn NormRing::into_ring
%ensures r is Edges, r->Edges_0@.len() == self.edges@.len(), forall|i: int| #![trigger r->Edges_0@[i]] 0 <= i < self.edges@.len() ==> r->Edges_0@[i].0@ == self.edges@[i].points@,
%loop 1
            __c1@.len() == __k1, __s1 == self.edges@, __n1 == self.edges@.len(),
            forall|i: int| #![trigger __c1@[i]] 0 <= i < __k1 ==> __c1@[i].0@ == self.edges@[i].points@,
%raw
/// A closed path started at another of its points.
pub proof fn lemma_turn_island(s: Seq<Point>, k: int, t: Seq<Point>, a: Ptr, b: Ptr)
    requires s.len() >= 2, s[0] == s.last(), 0 < k < s.len(), t == s.subrange(k, s.len() - 1) + s.subrange(0, k + 1), forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> !plt(s[j], s[k])
    ensures
        t.len() == s.len(), t[0] == t.last(), degenerate(t) ==> degenerate(s), forall|j: int| #![trigger t[j]] 0 <= j < t.len() ==> !plt(t[j], t[0]),
        forall|f: F| #![trigger tot_e(f, Side { points: t, a, b })] tot_e(f, Side { points: t, a, b }) == tot_e(f, Side { points: s, a, b }),
{
    let n = s.len() as int;
    assert(!plt(s[0], s[k]));
    assert(s[k] == s[k]);
    let x = s.subrange(k, n); let y = s.subrange(0, k + 1);
    assert(s =~= cat(y, x));
    assert(t =~= cat(x, y));
    assert forall|f: F| #![trigger tot_e(f, Side { points: t, a, b })] tot_e(f, Side { points: t, a, b }) == tot_e(f, Side { points: s, a, b }) by { lemma_cat(f, x, y, a, b); lemma_cat(f, y, x, a, b); }
    assert forall|j: int| #![trigger t[j]] 0 <= j < n implies !plt(t[j], t[0]) by { let i = if j < n - k { k + j } else { j - (n - k) + 1 }; assert(t[j] == s[i]); assert(t[0] == s[k]); }
}
%fn rotate_island_edge
%requires edge.points@.len() >= 2, edge.points@[0] == edge.points@.last(),
%ensures
        r.regions@ == edge.regions@, r.points@.len() == edge.points@.len(), r.points@[0] == r.points@.last(), degenerate(r.points@) ==> degenerate(edge.points@),
        forall|j: int| #![trigger r.points@[j]] 0 <= j < r.points@.len() ==> !plt(r.points@[j], r.points@[0]), //@C10 C17
        forall|f: F| #[trigger] tot_e(f, ne(r)) == tot_e(f, ne(*edge)), //@C11
%loop 1
            __n1 == edge.points@.len(),
            forall|j: int| #![trigger edge.points@[j]] 0 <= j < __k1 ==> !plt(edge.points@[j], edge.points@[__b1 as int]),
%at after extend_from_slice 2
    proof { let n = edge.points@.len() as int; assert(points@ =~= edge.points@.subrange(index as int, n - 1) + edge.points@.subrange(0, index + 1)); lemma_turn_island(edge.points@, index as int, points@, ne(*edge).a, ne(*edge).b); }
%at fn_end
    proof { if __ret.points@ =~= edge.points@ { } assert(ne(__ret) == Side { points: __ret.points@, ..ne(*edge) }); }
%fn rotate_edges
%requires ring_ok(nes(edges@)),
%ensures
        ring_ok(nes(r@)), //@C11
        tight(nes(edges@)) ==> tight(nes(r@)),
        first_min(nes(r@)), //@C10 C17
        forall|f: F| #[trigger] tot(f, nes(r@)) == tot(f, nes(edges@)), //@C11
%loop 1
            __n1 == edges@.len(),
            forall|j: int| #![trigger edges@[j]] 0 <= j < __k1 ==> !plt(edges@[j].points@[0], edges@[__b1 as int].points@[0]),
%at loop1.start
    proof { assert(!degenerate(nes(edges@)[__i1 as int].points) && !degenerate(nes(edges@)[__b1 as int].points)); }
%at after extend_from_slice 2
    proof { assert(nes(ret@) =~= rot(nes(edges@), index as int)); lemma_rotate(nes(edges@), index as int); assert forall|i: int| #![trigger nes(ret@)[i]] 0 <= i < nes(ret@).len() implies !plt(nes(ret@)[i].points[0], nes(ret@)[0].points[0]) by { let n = edges@.len(); let k = index as int; let j = if i < n - k { i + k } else { i - (n - k) }; assert(nes(ret@)[i] == nes(edges@)[j]); assert(nes(edges@)[j].points == edges@[j].points@); } }
%at fn_start
    let ghost s = nes(edges@);
%at fn_end
    proof {
        if edges@.len() == 1 {
            assert(s[0] == ne(edges@[0])); assert(!degenerate(s[0].points));
            let t = nes(__ret@);
            assert(t.len() == 1);
            assert forall|f: F| #[trigger] tot(f, t) == tot(f, s) by { assert(tot_e(f, t[0]) == tot_e(f, s[0])); reveal_with_fuel(tot_n, 3); }
            assert forall|i: int| #[trigger] ends_meet(t, i) by { }
            assert forall|i: int| #[trigger] differ(t, i) by { }
        } else if nes(__ret@) =~= s { }
    }
%fn join_related_edges
%requires ring_ok(nes(edges@)),
%ensures
        ring_ok(nes(r@)), //@C11
        tight(nes(r@)), //@C10 C17
        forall|f: F| #[trigger] tot(f, nes(r@)) == tot(f, nes(edges@)), //@C11
%at fn_start
    let ghost s = nes(edges@); let ghost mut t1 = s; let ghost mut r0 = edges@;
    proof { axiom_arr_eq(); }
%loop 1
            __n1 == edges@.len(), chain(nes(ret@)), all_differ(nes(ret@)), ret@.len() > 0 <==> __k1 > 0,
            __k1 > 0 ==> nes(ret@)[0].points[0] == s[0].points[0] && nes(ret@).last().points.last() == s[__k1 - 1].points.last(), //@C11
            forall|f: F| #[trigger] tot(f, nes(ret@)) == tot_n(f, s, __k1 as int), //@C11
%at loop1.before
    proof { assert(nes(ret@) =~= Seq::<Side>::empty()); assert forall|i: int| #[trigger] ends_meet(nes(ret@), i) by { } assert forall|i: int| #[trigger] differ(nes(ret@), i) by { } }
%at loop1.start
    let ghost t = nes(ret@); let ghost old_ret = ret@; let ghost e = s[__i1 as int];
    proof { assert(!degenerate(e.points)); assert(ends_meet(s, __i1 as int)); assert(e == ne(edges@[__i1 as int])); if t.len() > 0 { assert(t.last() == ne(old_ret.last())); } }
%at let extended 1
    proof {
        if extended {
            assert(t.last().a == old_ret.last().regions@[0]);
            let n = t.len() - 1;
            assert(ret@.len() == n + 1);
            assert forall|i: int| 0 <= i < n implies nes(ret@)[i] == t[i] by { assert(ret@[i] == old_ret[i]); }
            assert(ret@[n].points@ =~= cat(old_ret[n].points@, e.points));
            assert(ret@[n].regions@ =~= old_ret[n].regions@);
            assert(nes(ret@) =~= t.update(t.len() - 1, longer(t.last(), e)));
            lemma_extend(t, e, nes(ret@));
        } else {
            assert(nes(ret@) =~= t);
            if t.len() > 0 && same_sides(t.last(), e) { assert(old_ret.last().regions@ =~= edges@[__i1 as int].regions@); }
        }
    }
%at loop1.end
    proof {
        if !extended { assert(nes(ret@) =~= t.push(e)); lemma_append(t, e); }
        assert forall|f: F| #[trigger] tot(f, nes(ret@)) == tot_n(f, s, __k1 as int) by { assert(tot(f, t) == tot_n(f, s, __i1 as int)); }
    }
%at loop1.after
    proof { t1 = nes(ret@); r0 = ret@; let t = t1; assert(ring_ok(t)); assert(t[0] == ne(r0[0]) && t.last() == ne(r0.last())); assert(!degenerate(t[0].points)); }
%at fn_end
    proof {
        let u = nes(__ret@); let t = t1;
        if t.len() > 1 && same_sides(t[0], t.last()) {
            assert(r0[0].regions@ =~= r0.last().regions@);
            let n = t.len() - 1;
            assert(u.len() == n);
            assert(__ret@[0].points@ =~= cat(r0[n].points@, r0[0].points@));
            assert forall|i: int| 0 < i < n implies u[i] == t[i] by { assert(__ret@[i] == r0[i]); }
            assert(u =~= wrapped(t));
            lemma_wrap(t);
        } else {
            if t.len() > 1 && r0[0].regions@ == r0.last().regions@ { assert(same_sides(t[0], t.last())); }
            assert(u =~= t);
        }
        assert forall|f: F| #[trigger] tot(f, u) == tot(f, s) by { assert(tot(f, t) == tot_n(f, s, s.len() as int)); }
    }
%fn calculate_winding_order_from_edges
%requires ring_ok(nes(edges@)), area(nes(edges@)) != 0, n_segs(nes(edges@)) <= max_len(),
%ensures r == (if area(nes(edges@)) > 0 { WindingOrder::Clockwise } else { WindingOrder::CounterClockwise }),
%at fn_start
    let ghost s = nes(edges@);
%loop 1
            __n1 == edges@.len(), a == tot_n(f_cross(), s, __k1 as int),
%at loop1.start
    proof {
        lemma_size(s, __i1 as int, __i1 + 1); lemma_size(s, __i1 + 1, s.len() as int);
        assert(s[__i1 as int] == ne(**edge)); assert(!degenerate(s[__i1 as int].points));
        lemma_one_e(s[__i1 as int]);
    }
%loop 2
            __n2 == edge.points@.len() - 1, a == tot_n(f_cross(), s, __i1 as int) + shoelace_n(edge.points@, __k2 as int),
%at loop2.start
    proof {
        lemma_cross_bound(*p1, *p2);
        lemma_shoelace_bound(edge.points@, __i2 as int);
        let m = 0xffff_ffffint;
        assert(0 <= p1.0 as int * p2.1 as int <= m * m) by (nonlinear_arith) requires 0 <= p1.0 as int <= m, 0 <= p2.1 as int <= m;
        assert(0 <= p2.0 as int * p1.1 as int <= m * m) by (nonlinear_arith) requires 0 <= p2.0 as int <= m, 0 <= p1.1 as int <= m;
    }
%raw
/// Does the ring run against this order?
pub open spec fn against(s: Seq<Side>, order: WindingOrder) -> bool { (area(s) > 0) != (order is Clockwise) }
%fn wind_edges
%requires ring_ok(nes(edges@)), area(nes(edges@)) != 0, n_segs(nes(edges@)) <= max_len(),
%ensures
        ring_ok(nes(r@)), //@C11
        tight(nes(edges@)) ==> tight(nes(r@)),
        order is Clockwise ==> area(nes(r@)) > 0, //@C10
        order is CounterClockwise ==> area(nes(r@)) < 0, //@C10
        forall|f: F| #[trigger] tot(f, nes(r@)) == tot(f_dir(f, against(nes(edges@), order)), nes(edges@)), //@C11
%at fn_start
    let ghost s = nes(edges@);
    proof { lemma_turned(s); }
%loop 1
            __n1 == edges@.len(), ret@.len() == __k1, forall|i: int| #![trigger ret@[i]] 0 <= i < __k1 ==> ne(ret@[i]) == turned(ne(edges@[i])),
%at fn_end
    proof {
        let t = nes(__ret@);
        if against(s, order) { assert(t =~= turned_n(s)); } else { assert(t =~= s); }
    }
%raw
// ---- joining the rings of a region ----------------------------------------------------------------
pub open spec fn norm_ring(s: Seq<Side>) -> bool { ring_ok(s) && tight(s) && first_min(s) }
pub open spec fn norm_rings(s: Seq<Seq<Side>>) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> norm_ring(s[i]) }
/// No edge has the same region on both sides.
pub open spec fn all_useful(s: Seq<Side>) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i].a != s[i].b }
pub open spec fn useful_rings(s: Seq<Seq<Side>>) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> all_useful(s[i]) }
/// The map, as a list of its edges.
#[verifier::opaque]
pub open spec fn pool_ok(m: Map<Point, NormEdge>, pl: Seq<Side>) -> bool {
    &&& forall|i: int| #![trigger pl[i]] 0 <= i < pl.len() ==> m.dom().contains(pl[i].points[0]) && ne(m[pl[i].points[0]]) == pl[i] && !degenerate(pl[i].points) && pl[i].a != pl[i].b
    &&& forall|k: Point| #![trigger m.dom().contains(k)] m.dom().contains(k) ==> exists|i: int| 0 <= i < pl.len() && (#[trigger] pl[i]).points[0] == k
    &&& forall|i: int, j: int| #![trigger pl[i], pl[j]] 0 <= i < j < pl.len() ==> pl[i].points[0] != pl[j].points[0]
}
pub proof fn lemma_pool_empty(m: Map<Point, NormEdge>)
    requires m == Map::<Point, NormEdge>::empty()
    ensures pool_ok(m, seq![])
{ reveal(pool_ok); }
pub proof fn lemma_pool_none(m: Map<Point, NormEdge>, pl: Seq<Side>)
    requires pool_ok(m, pl), m.dom().len() == 0
    ensures pl.len() == 0
{ reveal(pool_ok); if pl.len() > 0 { assert(m.dom().contains(pl[0].points[0])); assert(m.dom().len() > 0) by { assert(m.dom() =~= m.dom().remove(pl[0].points[0]).insert(pl[0].points[0])); } } }
pub proof fn lemma_pool_insert(m: Map<Point, NormEdge>, pl: Seq<Side>, e: NormEdge)
    requires pool_ok(m, pl), !m.dom().contains(e.points@[0]), !degenerate(e.points@), ne(e).a != ne(e).b
    ensures pool_ok(m.insert(e.points@[0], e), pl.push(ne(e)))
{
    reveal(pool_ok);
    let k = e.points@[0]; let n = m.insert(k, e); let q = pl.push(ne(e));
    assert forall|i: int| #![trigger q[i]] 0 <= i < q.len() implies n.dom().contains(q[i].points[0]) && ne(n[q[i].points[0]]) == q[i] && !degenerate(q[i].points) && q[i].a != q[i].b by { if i < pl.len() { assert(q[i] == pl[i]); assert(m.dom().contains(pl[i].points[0])); } }
    assert forall|x: Point| #![trigger n.dom().contains(x)] n.dom().contains(x) implies exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).points[0] == x by {
        if x == k { assert(q[pl.len() as int].points[0] == x); } else { assert(m.dom().contains(x)); let i = choose|i: int| 0 <= i < pl.len() && (#[trigger] pl[i]).points[0] == x; assert(q[i] == pl[i]); }
    }
    assert forall|i: int, j: int| #![trigger q[i], q[j]] 0 <= i < j < q.len() implies q[i].points[0] != q[j].points[0] by { assert(q[i] == pl[i]); if j < pl.len() { assert(q[j] == pl[j]); } else { assert(m.dom().contains(pl[i].points[0])); } }
}
/// The place in the list of the edge that starts at a point.
pub open spec fn place(pl: Seq<Side>, k: Point) -> int { choose|i: int| 0 <= i < pl.len() && (#[trigger] pl[i]).points[0] == k }
pub proof fn lemma_pool_remove(m: Map<Point, NormEdge>, pl: Seq<Side>, k: Point)
    requires pool_ok(m, pl), m.dom().contains(k)
    ensures 0 <= place(pl, k) < pl.len(), pl[place(pl, k)] == ne(m[k]), m[k].points@[0] == k, !degenerate(m[k].points@), ne(m[k]).a != ne(m[k]).b, pool_ok(m.remove(k), pl.remove(place(pl, k))),
{
    reveal(pool_ok);
    let j = place(pl, k); let q = pl.remove(j); let n = m.remove(k);
    assert(pl[j].points[0] == k);
    assert forall|i: int| #![trigger q[i]] 0 <= i < q.len() implies n.dom().contains(q[i].points[0]) && ne(n[q[i].points[0]]) == q[i] && !degenerate(q[i].points) && q[i].a != q[i].b by { let x = if i < j { i } else { i + 1 }; assert(q[i] == pl[x]); assert(pl[x].points[0] != pl[j].points[0]); }
    assert forall|x: Point| #![trigger n.dom().contains(x)] n.dom().contains(x) implies exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).points[0] == x by {
        assert(m.dom().contains(x)); let i = choose|i: int| 0 <= i < pl.len() && (#[trigger] pl[i]).points[0] == x; assert(i != j); assert(q[if i < j { i } else { i - 1 }] == pl[i]);
    }
    assert forall|i: int, l: int| #![trigger q[i], q[l]] 0 <= i < l < q.len() implies q[i].points[0] != q[l].points[0] by { let x = if i < j { i } else { i + 1 }; let y = if l < j { l } else { l + 1 }; assert(q[i] == pl[x] && q[l] == pl[y]); }
}
pub proof fn lemma_useful_p(f: F, s: Seq<Point>, a: Ptr, b: Ptr, n: int)
    ensures tot_p(f_useful(f), s, a, b, n) == (if a == b { 0 } else { tot_p(f, s, a, b, n) })
    decreases n
{ if n > 0 { lemma_useful_p(f, s, a, b, n - 1); } }
pub proof fn lemma_useful_e(f: F, e: Side)
    ensures tot_e(f_useful(f), e) == (if e.a == e.b { 0 } else { tot_e(f, e) })
{ lemma_useful_p(f, e.points, e.a, e.b, e.points.len() - 1); }
pub proof fn lemma_push_r(f: F, s: Seq<Seq<Side>>, x: Seq<Side>)
    ensures tot_r(f, s.push(x)) == tot_r(f, s) + tot(f, x)
{ lemma_r_ext(f, s.push(x), s, s.len() as int); }
pub proof fn lemma_r_ext(f: F, s: Seq<Seq<Side>>, t: Seq<Seq<Side>>, n: int)
    requires forall|i: int| #![trigger t[i]] 0 <= i < n ==> s[i] == t[i]
    ensures tot_rn(f, s, n) == tot_rn(f, t, n)
    decreases n
{ if n > 0 { lemma_r_ext(f, s, t, n - 1); assert(s[n - 1] == t[n - 1]); } }
/// The first k edges of a ring, split.
#[verifier::opaque]
pub open spec fn split(s: Seq<Side>, k: int, n_bad: int, u: Seq<Side>) -> bool {
    &&& sturdy(u) && all_useful(u)
    &&& n_bad == 0 ==> u == s.subrange(0, k)
    &&& forall|f: F| #[trigger] tot(f, u) == tot_n(f_useful(f), s, k)
}
pub proof fn lemma_split_0(s: Seq<Side>)
    ensures split(s, 0, 0, seq![])
{ reveal(split); assert(s.subrange(0, 0) =~= seq![]); }
pub proof fn lemma_split(s: Seq<Side>, k: int, n_bad: int, u: Seq<Side>)
    requires split(s, k, n_bad, u), 0 <= k < s.len(), sturdy(s), n_bad >= 0
    ensures s[k].a == s[k].b ==> split(s, k + 1, n_bad + 1, u), s[k].a != s[k].b ==> split(s, k + 1, n_bad, u.push(s[k])),
{
    reveal(split);
    let e = s[k];
    assert forall|f: F| #![trigger tot(f, u)] #![trigger tot(f, u.push(e))] tot_n(f_useful(f), s, k + 1) == tot(f, u) + (if e.a == e.b { 0 } else { tot_e(f, e) }) && tot(f, u.push(e)) == tot(f, u) + tot_e(f, e) by { lemma_useful_e(f, e); lemma_push(f, u, e); assert(tot(f, u) == tot_n(f_useful(f), s, k)); }
    let v = u.push(e);
    assert forall|i: int| #![trigger v[i]] 0 <= i < v.len() implies !degenerate(v[i].points) by { if i < u.len() { assert(v[i] == u[i]); } }
    if e.a != e.b { assert forall|i: int| #![trigger v[i]] 0 <= i < v.len() implies v[i].a != v[i].b by { if i < u.len() { assert(v[i] == u[i]); } } }
    if n_bad == 0 { assert(s.subrange(0, k).push(e) =~= s.subrange(0, k + 1)); }
}
/// The rings done and the pool hold the useful edges of the first n rings.
#[verifier::opaque]
pub open spec fn balance(done: Seq<Seq<Side>>, pl: Seq<Side>, ins: Seq<Seq<Side>>, n: int) -> bool {
    forall|f: F| #[trigger] tot_r(f, done) == tot_rn(f_useful(f), ins, n) - tot(f, pl)
}
pub proof fn lemma_balance_ring(done: Seq<Seq<Side>>, pl: Seq<Side>, ins: Seq<Seq<Side>>, n: int, n_bad: int, u: Seq<Side>)
    requires balance(done, pl, ins, n), 0 <= n < ins.len(), split(ins[n], ins[n].len() as int, n_bad, u)
    ensures
        n_bad == 0 ==> u == ins[n], balance(done.push(u), pl, ins, n + 1), u.len() == 0 ==> balance(done, pl, ins, n + 1), balance(done, pl + u, ins, n + 1),
{
    reveal(split); reveal(balance);
    assert(ins[n].subrange(0, ins[n].len() as int) =~= ins[n]);
    assert forall|f: F| #[trigger] tot_r(f, done.push(u)) == tot_rn(f_useful(f), ins, n + 1) - tot(f, pl) by { lemma_push_r(f, done, u); assert(tot_r(f, done) == tot_rn(f_useful(f), ins, n) - tot(f, pl)); assert(tot(f, u) == tot_n(f_useful(f), ins[n], ins[n].len() as int)); }
    assert forall|f: F| #[trigger] tot_r(f, done) == tot_rn(f_useful(f), ins, n + 1) - tot(f, pl + u) by { lemma_add(f, pl, u); assert(tot(f, u) == tot_n(f_useful(f), ins[n], ins[n].len() as int)); }
    if u.len() == 0 { assert(pl + u =~= pl); }
}
/// The pool's edges are taken one by one.
#[verifier::opaque]
pub open spec fn taken(pl0: Seq<Side>, pl: Seq<Side>, s: Seq<Side>) -> bool { forall|f: F| #[trigger] tot(f, pl) == tot(f, pl0) - tot(f, s) }
pub proof fn lemma_taken_0(pl: Seq<Side>)
    ensures taken(pl, pl, seq![])
{ reveal(taken); }
pub proof fn lemma_taken(pl0: Seq<Side>, pl: Seq<Side>, s: Seq<Side>, j: int)
    requires taken(pl0, pl, s), 0 <= j < pl.len()
    ensures taken(pl0, pl.remove(j), s.push(pl[j]))
{
    reveal(taken);
    assert forall|f: F| #[trigger] tot(f, pl.remove(j)) == tot(f, pl0) - tot(f, s.push(pl[j])) by { lemma_remove(f, pl, j); lemma_push(f, s, pl[j]); assert(tot(f, pl) == tot(f, pl0) - tot(f, s)); }
}
pub proof fn lemma_balance_taken(done: Seq<Seq<Side>>, pl0: Seq<Side>, pl: Seq<Side>, s: Seq<Side>, t: Seq<Side>, ins: Seq<Seq<Side>>, n: int)
    requires balance(done, pl0, ins, n), taken(pl0, pl, s), forall|f: F| #[trigger] tot(f, t) == tot(f, s)
    ensures balance(done.push(t), pl, ins, n)
{
    reveal(taken); reveal(balance);
    assert forall|f: F| #[trigger] tot_r(f, done.push(t)) == tot_rn(f_useful(f), ins, n) - tot(f, pl) by { lemma_push_r(f, done, t); assert(tot_r(f, done) == tot_rn(f_useful(f), ins, n) - tot(f, pl0)); assert(tot(f, pl) == tot(f, pl0) - tot(f, s)); assert(tot(f, t) == tot(f, s)); }
}
pub proof fn lemma_norm_push(s: Seq<Seq<Side>>, x: Seq<Side>)
    requires norm_rings(s), norm_ring(x)
    ensures norm_rings(s.push(x))
{ let t = s.push(x); assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies norm_ring(t[i]) by { if i < s.len() { assert(t[i] == s[i]); } } }
/// Sorting changes no sum.
pub proof fn lemma_perm(f: F, s: Seq<NormRing>, t: Seq<NormRing>)
    requires s.to_multiset() == t.to_multiset()
    ensures tot_r(f, rns(s)) == tot_r(f, rns(t))
    decreases t.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(s.len() == t.len()) by { assert(s.to_multiset().len() == s.len() && t.to_multiset().len() == t.len()); }
    if t.len() > 0 {
        let n = t.len() - 1; let x = t[n]; let u = t.drop_last();
        assert(t.to_multiset().count(x) > 0) by { assert(t.contains(x)); }
        assert(s.contains(x));
        let j = choose|j: int| 0 <= j < s.len() && s[j] == x;
        let v = s.remove(j);
        assert(u =~= t.remove(n));
        assert(v.to_multiset() =~= s.to_multiset().remove(x));
        assert(u.to_multiset() =~= t.to_multiset().remove(x));
        lemma_perm(f, v, u);
        assert(rns(t) =~= rns(u).push(nes(x.edges@)));
        lemma_push_r(f, rns(u), nes(x.edges@));
        lemma_remove_r(f, rns(s), j);
        assert(rns(v) =~= rns(s).remove(j));
    }
}
pub proof fn lemma_remove_r(f: F, s: Seq<Seq<Side>>, j: int)
    requires 0 <= j < s.len()
    ensures tot_r(f, s.remove(j)) == tot_r(f, s) - tot(f, s[j])
    decreases s.len()
{
    let n = s.len() - 1; let d = s.drop_last();
    assert(s =~= d.push(s[n]));
    lemma_push_r(f, d, s[n]);
    if j < n {
        lemma_remove_r(f, d, j);
        assert(s.remove(j) =~= d.remove(j).push(s[n]));
        lemma_push_r(f, d.remove(j), s[n]);
    } else { assert(s.remove(j) =~= d); }
}
pub open spec fn sorted(s: Seq<Seq<Side>>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i <= j < s.len() ==> !plt(s[j][0].points[0], s[i][0].points[0]) }
/// Sorting a region's rings.
pub proof fn lemma_sorted(s: Seq<NormRing>, t: Seq<NormRing>)
    requires s.to_multiset() == t.to_multiset(), norm_rings(rns(s)),
        forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i <= j < t.len() ==> NormRing::sort_le(t[i], t[j]),
    ensures norm_rings(rns(t)), sorted(rns(t)), forall|f: F| #[trigger] tot_r(f, rns(t)) == tot_r(f, rns(s)), useful_rings(rns(s)) ==> useful_rings(rns(t)),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|f: F| #[trigger] tot_r(f, rns(t)) == tot_r(f, rns(s)) by { lemma_perm(f, s, t); }
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] s.contains(t[i]) by { assert(t.contains(t[i])); assert(t.to_multiset().count(t[i]) > 0); }
    assert forall|i: int| #![trigger rns(t)[i]] 0 <= i < rns(t).len() implies norm_ring(rns(t)[i]) && (useful_rings(rns(s)) ==> all_useful(rns(t)[i])) by {
        assert(s.contains(t[i])); let j = choose|j: int| 0 <= j < s.len() && s[j] == t[i]; assert(rns(s)[j] == rns(t)[i]);
    }
    assert forall|i: int, j: int| #![trigger rns(t)[i], rns(t)[j]] 0 <= i <= j < rns(t).len() implies !plt(rns(t)[j][0].points[0], rns(t)[i][0].points[0]) by {
        assert(norm_ring(rns(t)[i]) && norm_ring(rns(t)[j])); assert(NormRing::sort_le(t[i], t[j]));
    }
}
pub proof fn lemma_sortable(s: Seq<NormRing>)
    requires norm_rings(rns(s))
    ensures forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i].sortable()
{ assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies s[i].sortable() by { let x = rns(s)[i]; assert(norm_ring(x)); assert(!degenerate(x[0].points)); } }
pub open spec fn f_bad() -> F { |p: Point, q: Point, a: Ptr, b: Ptr| if a == b { 1int } else { 0int } }
pub proof fn lemma_bad_p(s: Seq<Point>, a: Ptr, b: Ptr, n: int)
    requires n >= 0
    ensures tot_p(f_bad(), s, a, b, n) == (if a == b { n } else { 0 })
    decreases n
{ if n > 0 { lemma_bad_p(s, a, b, n - 1); } }
pub proof fn lemma_bad(s: Seq<Side>, n: int)
    requires sturdy(s), 0 <= n <= s.len()
    ensures tot_n(f_bad(), s, n) >= 0, tot_n(f_bad(), s, n) == 0 <==> forall|i: int| #![trigger s[i]] 0 <= i < n ==> s[i].a != s[i].b
    decreases n
{
    if n > 0 {
        lemma_bad(s, n - 1);
        let e = s[n - 1];
        assert(!degenerate(e.points));
        lemma_bad_p(e.points, e.a, e.b, e.points.len() - 1);
    }
}
pub proof fn lemma_stay_useful(s: Seq<Side>, t: Seq<Side>)
    requires sturdy(s), sturdy(t), all_useful(s), forall|f: F| #[trigger] tot(f, t) == tot(f, s)
    ensures all_useful(t)
{ lemma_bad(s, s.len() as int); lemma_bad(t, t.len() as int); assert(tot(f_bad(), t) == tot(f_bad(), s)); }
%fn join_adjacent_rings
%opt isolate allow_panic
%requires norm_rings(rns(rings@)),
%ensures
        norm_rings(rns(r@)), //@C10 C11 C17
        useful_rings(rns(r@)), //@C11
        forall|f: F| #[trigger] tot_r(f, rns(r@)) == tot_r(f_useful(f), rns(rings@)), //@C11
%at fn_start
    let ghost ins = rns(rings@);
    let ghost mut pl: Seq<Side> = seq![]; let ghost mut pl0: Seq<Side> = seq![]; let ghost mut us: Seq<Side> = seq![]; let ghost mut bad: int = 0; let ghost mut before: Seq<NormRing> = seq![]; let ghost mut s1: Seq<Side> = seq![];
%at loop1.before
    proof { lemma_pool_empty(to_merge@); assert(rns(ret@) =~= seq![]); assert(balance(rns(ret@), pl, ins, 0)) by { reveal(balance); } }
%loop 1
            __n1 == rings@.len(), ins == rns(rings@), norm_rings(ins), norm_rings(rns(ret@)), useful_rings(rns(ret@)), pool_ok(to_merge@, pl), balance(rns(ret@), pl, ins, __k1 as int),
%at loop1.start
    let ghost ret0 = ret@;
    proof { lemma_split_0(ins[__i1 as int]); assert(norm_ring(ins[__i1 as int])); assert(ins[__i1 as int] == nes(ring.edges@)); pl0 = pl; }
%at loop2.before
    proof { assert(nes(__s2) =~= nes(ring.edges@)); assert(nes(__c2b@) =~= seq![]); }
%loop 2
            __n2 == __s2.len(), nes(__s2) == ins[__i1 as int], ring_ok(ins[__i1 as int]), split(ins[__i1 as int], __k2 as int, __c2a@.len() as int, nes(__c2b@)),
%at loop2.start
    proof { assert(ne(__x2) == nes(__s2)[__i2 as int]); us = nes(__c2b@); lemma_split(ins[__i1 as int], __i2 as int, __c2a@.len() as int, us); }
%at loop2.end
    proof { if nes(__s2)[__i2 as int].a == nes(__s2)[__i2 as int].b { assert(nes(__c2b@) =~= us); } else { assert(nes(__c2b@) =~= us.push(nes(__s2)[__i2 as int])); } }
%at loop2.after
    proof { us = nes(__c2b@); bad = __c2a@.len() as int; lemma_balance_ring(rns(ret@), pl, ins, __i1 as int, bad, us); reveal(split); }
%at loop3.before
    proof { assert(nes(__s3) =~= us); assert(pl0 + us.subrange(0, 0) =~= pl); }
%loop 3
            __n3 == __s3.len(), nes(__s3) == us, sturdy(us), all_useful(us), pool_ok(to_merge@, pl), pl == pl0 + us.subrange(0, __k3 as int),
%at loop3.start
    proof { assert(ne(*edge) == us[__i3 as int]); assert(!degenerate(us[__i3 as int].points)); }
    let ghost m0 = to_merge@;
%at loop3.end
    proof {
        let v = to_merge@[edge.points@[0]];
        lemma_pool_insert(m0, pl, v);
        assert(us.subrange(0, __k3 as int) =~= us.subrange(0, __i3 as int).push(us[__i3 as int]));
        pl = pl.push(us[__i3 as int]);
        assert(pl =~= pl0 + us.subrange(0, __k3 as int));
    }
%at loop3.after
    proof { assert(us.subrange(0, us.len() as int) =~= us); }
%at loop1.end
    proof {
        if bad == 0 {
            assert(rns(ret@) =~= rns(ret0).push(us));
            lemma_norm_push(rns(ret0), us);
            assert forall|i: int| #![trigger rns(ret@)[i]] 0 <= i < rns(ret@).len() implies all_useful(rns(ret@)[i]) by { if i < ret0.len() { assert(rns(ret@)[i] == rns(ret0)[i]); } }
        }
    }
%at loop1.after
    proof { if to_merge@.dom().len() == 0 { lemma_pool_none(to_merge@, pl); reveal(balance); } }
%loop 4
            norm_rings(rns(ret@)), useful_rings(rns(ret@)), pool_ok(to_merge@, pl), balance(rns(ret@), pl, ins, ins.len() as int),
        decreases pl.len(),
%at loop4.start
    let ghost ret0 = ret@;
    proof { pl0 = pl; lemma_taken_0(pl); }
%at loop5.before
    proof { assert(nes(edges@) =~= seq![]); assert forall|i: int| #[trigger] ends_meet(nes(edges@), i) by { } }
%loop 5
            pool_ok(to_merge@, pl), taken(pl0, pl, nes(edges@)), chain(nes(edges@)), all_useful(nes(edges@)), pl.len() + edges@.len() == pl0.len(),
            edges@.len() > 0 ==> nes(edges@)[0].points[0] == start && nes(edges@).last().points.last() == end,
            edges@.len() == 0 ==> end == start,
>:          edges@.len() > 0, end == start,
        decreases pl.len(),
%at loop5.start
    let ghost m0 = to_merge@; let ghost end0 = end; let ghost s0 = nes(edges@);
    proof { if m0.dom().contains(end0) { lemma_pool_remove(m0, pl, end0); } }
%at after push 2
    proof {
        let e = ne(m0[end0]);
        assert(nes(edges@) =~= s0.push(e));
        lemma_append(s0, e);
        lemma_taken(pl0, pl, s0, place(pl, end0));
        pl = pl.remove(place(pl, end0));
        let v = nes(edges@);
        assert forall|i: int| #![trigger v[i]] 0 <= i < v.len() implies v[i].a != v[i].b by { if i < s0.len() { assert(v[i] == s0[i]); } }
    }
%at loop5.after
    proof { s1 = nes(edges@); assert(ring_ok(s1)); }
%at loop4.end
    proof {
        let t = rns(ret@).last();
        assert(rns(ret@) =~= rns(ret0).push(t));
        assert(ring_ok(t));
        lemma_stay_useful(s1, t);
        lemma_norm_push(rns(ret0), t);
        lemma_balance_taken(rns(ret0), pl0, pl, s1, t, ins, ins.len() as int);
        assert forall|i: int| #![trigger rns(ret@)[i]] 0 <= i < rns(ret@).len() implies all_useful(rns(ret@)[i]) by { if i < ret0.len() { assert(rns(ret@)[i] == rns(ret0)[i]); } }
    }
%at loop4.after
    proof { lemma_pool_none(to_merge@, pl); lemma_sortable(ret@); before = ret@; }
%at return
    proof { assert forall|f: F| #[trigger] tot_r(f, rns(__ret@)) == tot_r(f_useful(f), rns(rings@)) by { } }
%at fn_end
    proof { lemma_sorted(before, __ret@); reveal(balance); assert forall|f: F| #[trigger] tot_r(f, rns(__ret@)) == tot_r(f_useful(f), rns(rings@)) by { assert(tot_r(f, rns(before)) == tot_rn(f_useful(f), ins, ins.len() as int) - tot(f, pl)); } }
%raw
// ---- the rings of the input -------------------------------------------------------------------------
pub open spec fn sides_of(r: TopoRing) -> Seq<Side> { r.directed_edges@.map_values(|d: DirectedEdge| in_side(d)) }
pub open spec fn ring_good(r: TopoRing) -> bool {
    &&& forall|j: int| #![trigger r.directed_edges@[j]] 0 <= j < r.directed_edges@.len() ==> edge_good(r.directed_edges@[j])
    &&& ring_ok(sides_of(r)) && area(sides_of(r)) != 0 && n_segs(sides_of(r)) <= max_len()
}
pub open spec fn rings_good(s: Seq<TopoRing>) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> ring_good(s[i]) }
/// The sum over a ring, walked in the given order.
pub open spec fn wound(f: F, s: Seq<Side>, order: WindingOrder) -> int { tot(f_dir(f, against(s, order)), s) }
%fn normalize_region_rings
%requires rings_good(in_rings@),
%ensures
        r@.len() == in_rings@.len(),
        forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> norm_ring(nes(r@[i].edges@)), //@C10 C11 C17
        forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> if winding_order is Clockwise { area(nes(r@[i].edges@)) > 0 } else { area(nes(r@[i].edges@)) < 0 }, //@C10
        forall|i: int, f: F| #![trigger tot(f, nes(r@[i].edges@))] 0 <= i < r@.len() ==> tot(f, nes(r@[i].edges@)) == wound(f, sides_of(in_rings@[i]), winding_order), //@C11
%at fn_end
    proof {
        let v = rns(__ret@);
        assert forall|i: int| #![trigger __ret@[i]] 0 <= i < __ret@.len() implies norm_ring(nes(__ret@[i].edges@)) && if winding_order is Clockwise { area(nes(__ret@[i].edges@)) > 0 } else { area(nes(__ret@[i].edges@)) < 0 } by { assert(v[i] == nes(__ret@[i].edges@)); }
        assert forall|i: int, f: F| #![trigger tot(f, nes(__ret@[i].edges@))] 0 <= i < __ret@.len() implies tot(f, nes(__ret@[i].edges@)) == wound(f, sides_of(in_rings@[i]), winding_order) by { assert(v[i] == nes(__ret@[i].edges@)); assert(tot(f, v[i]) == tot(f, nes(__ret@[i].edges@))); }
    }
%loop 1
            __n1 == in_rings@.len(), rings@.len() == __k1, norm_rings(rns(rings@)),
            forall|i: int| #![trigger rns(rings@)[i]] 0 <= i < __k1 ==> if winding_order is Clockwise { area(rns(rings@)[i]) > 0 } else { area(rns(rings@)[i]) < 0 }, //@C10
            forall|i: int, f: F| #![trigger tot(f, rns(rings@)[i])] 0 <= i < __k1 ==> tot(f, rns(rings@)[i]) == wound(f, sides_of(in_rings@[i]), winding_order), //@C11
%at loop1.start
    let ghost s = sides_of(in_rings@[__i1 as int]); let ghost rings0 = rings@;
    proof { assert(ring_good(in_rings@[__i1 as int])); }
%loop 2
            __n2 == in_ring.directed_edges@.len(), edges@.len() == __k2, forall|j: int| #![trigger edges@[j]] 0 <= j < __k2 ==> ne(edges@[j]) == s[j],
%at loop2.after
    proof { assert(nes(edges@) =~= s); }
%at after join_related_edges 1
    proof { assert(tot(f_cross(), nes(edges@)) == tot(f_cross(), s)); assert(tot(f_one(), nes(edges@)) == tot(f_one(), s)); }
%at loop1.end
    proof {
        let t = nes(rings@.last().edges@);
        assert(rns(rings@) =~= rns(rings0).push(t));
        lemma_norm_push(rns(rings0), t);
        assert forall|f: F| #[trigger] tot(f, t) == wound(f, s, winding_order) by { }
        assert forall|i: int, f: F| #![trigger tot(f, rns(rings@)[i])] 0 <= i < __k1 implies tot(f, rns(rings@)[i]) == wound(f, sides_of(in_rings@[i]), winding_order) by { if i < __i1 { assert(rns(rings@)[i] == rns(rings0)[i]); } }
        assert(tot(f_cross(), t) == area(t));
        assert forall|i: int| #![trigger rns(rings@)[i]] 0 <= i < __k1 implies (if winding_order is Clockwise { area(rns(rings@)[i]) > 0 } else { area(rns(rings@)[i]) < 0 }) by { if i < __i1 { assert(rns(rings@)[i] == rns(rings0)[i]); } }
    }
%raw
// ---- what a normalized topology is -----------------------------------------------------------------
pub open spec fn wound_n(f: F, s: Seq<TopoRing>, order: WindingOrder, n: int) -> int decreases n { if n <= 0 { 0 } else { wound_n(f, s, order, n - 1) + wound(f, sides_of(s[n - 1]), order) } }
/// The sum over the boundary of a region, outer rings clockwise and inner rings counter-clockwise, without the segments
/// that have the region on both sides.
pub open spec fn region_tot<Data>(f: F, g: TopoRegion<Data>) -> int {
    wound_n(f_useful(f), g.outer_rings@, WindingOrder::Clockwise, g.outer_rings@.len() as int) + wound_n(f_useful(f), g.inner_rings@, WindingOrder::CounterClockwise, g.inner_rings@.len() as int)
}
#[verifier::opaque]
pub open spec fn same_sums<Data>(g: TopoRegion<Data>, rs: Seq<Seq<Side>>) -> bool { forall|f: F| #[trigger] tot_r(f, rs) == region_tot(f, g) }
/// These are the rings of the normalized region.
pub open spec fn final_rings<Data>(g: TopoRegion<Data>, rs: Seq<Seq<Side>>) -> bool { norm_rings(rs) && useful_rings(rs) && sorted(rs) && same_sums(g, rs) }
/// The places of the rings of positive (negative) area.
pub open spec fn pick_n(rs: Seq<Seq<Side>>, pos: bool, n: int) -> Seq<int> decreases n {
    if n <= 0 { seq![] } else if if pos { area(rs[n - 1]) > 0 } else { area(rs[n - 1]) < 0 } { pick_n(rs, pos, n - 1).push(n - 1) } else { pick_n(rs, pos, n - 1) }
}
pub open spec fn paths_in(s: Seq<Side>) -> AbsRing { s.map_values(|e: Side| e.points) }
pub open spec fn picked_n(rs: Seq<Seq<Side>>, pos: bool, n: int) -> Seq<AbsRing> { pick_n(rs, pos, n).map_values(|i: int| paths_in(rs[i])) }
pub open spec fn picked(rs: Seq<Seq<Side>>, pos: bool) -> Seq<AbsRing> { picked_n(rs, pos, rs.len() as int) }
pub open spec fn region_norm_ok<Data: Clone>(g: TopoRegion<Data>, rs: Seq<Seq<Side>>, a: AbsRegion<Data>) -> bool { cloned(g.data, a.data) && a.outer == picked(rs, true) && a.inner == picked(rs, false) }
/// The regions that have an outer ring.
pub open spec fn kept_n(rss: Seq<Seq<Seq<Side>>>, n: int) -> Seq<int> decreases n {
    if n <= 0 { seq![] } else if picked(rss[n - 1], true).len() == 0 { kept_n(rss, n - 1) } else { kept_n(rss, n - 1).push(n - 1) }
}
pub open spec fn regions_norm_ok<Data: Clone>(s: Seq<TopoRegion<Data>>, rss: Seq<Seq<Seq<Side>>>, n: int, a: Seq<AbsRegion<Data>>) -> bool {
    let k = kept_n(rss, n);
    &&& rss.len() == n && forall|i: int| #![trigger rss[i]] 0 <= i < n ==> final_rings(s[i], rss[i])
    &&& a.len() == k.len() && forall|j: int| #![trigger a[j]] 0 <= j < a.len() ==> region_norm_ok(s[k[j]], rss[k[j]], a[j])
}
pub open spec fn norm_with<Data: Clone>(t: Topology<Data>, rss: Seq<Seq<Seq<Side>>>, r: Topology<Data>) -> bool { regions_norm_ok(t.regions@, rss, t.regions@.len() as int, topo_abs(r)) }
pub open spec fn norm_result<Data: Clone>(t: Topology<Data>, r: Topology<Data>) -> bool { exists|rss: Seq<Seq<Seq<Side>>>| #[trigger] norm_with(t, rss, r) }

// ---- the input ---------------------------------------------------------------------------------------
/// The pointers point into this topology.
pub open spec fn heap_is<Data>(t: Topology<Data>) -> bool {
    &&& forall|e: int| #![trigger t.edges@[e]] 0 <= e < t.edges@.len() ==> valid::<TopoEdge>(Ptr::At(e as usize, 0)) && heap::<TopoEdge>(Ptr::At(e as usize, 0)) == t.edges@[e]
    &&& forall|i: int, k: int| #![trigger ring_k(t.regions@[i], k)] 0 <= i < t.regions@.len() && 0 <= k < n_rings(t.regions@[i]) ==> valid::<TopoRing>(Ptr::At(i as usize, k as usize)) && heap::<TopoRing>(Ptr::At(i as usize, k as usize)) == ring_k(t.regions@[i], k)
}
pub open spec fn segs_n(s: Seq<TopoRing>, n: int) -> int decreases n { if n <= 0 { 0 } else { segs_n(s, n - 1) + n_segs(sides_of(s[n - 1])) } }
pub open spec fn region_segs<Data>(g: TopoRegion<Data>) -> int { segs_n(g.outer_rings@, g.outer_rings@.len() as int) + segs_n(g.inner_rings@, g.inner_rings@.len() as int) }
pub open spec fn walk_fine(w: AbsRing) -> bool { w.len() > 0 && closed_walk(w) && abs_area(w) != 0 }
pub open spec fn walks_fine(s: Seq<AbsRing>) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> walk_fine(s[i]) }
/// What the builder makes of any regions is such a topology (sizes apart).
pub open spec fn topo_fine<Data>(t: Topology<Data>) -> bool {
    &&& refs_ok(t) && t.regions@.len() <= max_len() && t.edges@.len() <= max_len()
    &&& forall|e: int| #![trigger t.edges@[e]] 0 <= e < t.edges@.len() ==> !degenerate(t.edges@[e].points@)
    &&& forall|i: int| #![trigger topo_abs(t)[i]] 0 <= i < t.regions@.len() ==> walks_fine(topo_abs(t)[i].outer) && walks_fine(topo_abs(t)[i].inner)
    &&& forall|i: int| #![trigger t.regions@[i]] 0 <= i < t.regions@.len() ==> 2 * region_segs(t.regions@[i]) <= max_len() && n_rings(t.regions@[i]) <= max_len()
}
// ---- canonical form (C10) ------------------------------------------------------------------------------
pub open spec fn ring_canonical(w: AbsRing, pos: bool) -> bool {
    &&& w.len() > 0 && if pos { abs_area(w) > 0 } else { abs_area(w) < 0 }
    &&& forall|i: int| #![trigger w[i]] 0 <= i < w.len() ==> w[i].len() > 0 && !plt(w[i][0], w[0][0])
    &&& w.len() == 1 ==> forall|j: int| #![trigger w[0][j]] 0 <= j < w[0].len() ==> !plt(w[0][j], w[0][0])
}
pub open spec fn rings_canonical(s: Seq<AbsRing>, pos: bool) -> bool {
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> ring_canonical(s[i], pos) && closed_walk(s[i])
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i <= j < s.len() ==> !plt(s[j][0][0], s[i][0][0])
}
pub proof fn lemma_abs_area(s: Seq<Side>, n: int)
    requires sturdy(s), 0 <= n <= s.len()
    ensures abs_area_n(paths_in(s), n) == tot_n(f_cross(), s, n)
    decreases n
{ if n > 0 { lemma_abs_area(s, n - 1); assert(!degenerate(s[n - 1].points)); lemma_one_e(s[n - 1]); } }
pub proof fn lemma_pick(rs: Seq<Seq<Side>>, pos: bool, n: int)
    requires 0 <= n <= rs.len()
    ensures
        forall|j: int| #![trigger pick_n(rs, pos, n)[j]] 0 <= j < pick_n(rs, pos, n).len() ==> 0 <= pick_n(rs, pos, n)[j] < n && if pos { area(rs[pick_n(rs, pos, n)[j]]) > 0 } else { area(rs[pick_n(rs, pos, n)[j]]) < 0 },
        forall|i: int, j: int| #![trigger pick_n(rs, pos, n)[i], pick_n(rs, pos, n)[j]] 0 <= i < j < pick_n(rs, pos, n).len() ==> pick_n(rs, pos, n)[i] < pick_n(rs, pos, n)[j],
    decreases n
{
    if n > 0 {
        lemma_pick(rs, pos, n - 1);
        let x = pick_n(rs, pos, n); let y = pick_n(rs, pos, n - 1);
        assert forall|j: int| #![trigger x[j]] 0 <= j < x.len() implies 0 <= x[j] < n && if pos { area(rs[x[j]]) > 0 } else { area(rs[x[j]]) < 0 } by { if j < y.len() { assert(x[j] == y[j]); } }
        assert forall|i: int, j: int| #![trigger x[i], x[j]] 0 <= i < j < x.len() implies x[i] < x[j] by { assert(x[i] == y[i]); if j < y.len() { assert(x[j] == y[j]); } }
    }
}
pub proof fn lemma_canonical(rs: Seq<Seq<Side>>, pos: bool)
    requires norm_rings(rs), sorted(rs)
    ensures rings_canonical(picked(rs, pos), pos)
{
    let n = rs.len() as int; let ix = pick_n(rs, pos, n); let p = picked(rs, pos);
    lemma_pick(rs, pos, n);
    assert forall|i: int| #![trigger p[i]] 0 <= i < p.len() implies ring_canonical(p[i], pos) && closed_walk(p[i]) by {
        let s = rs[ix[i]]; let w = p[i];
        assert(norm_ring(s)); assert(w == paths_in(s));
        lemma_abs_area(s, s.len() as int);
        assert forall|k: int| #![trigger w[k]] 0 <= k < w.len() implies w[k].len() >= 2 && !plt(w[k][0], w[0][0]) by { assert(w[k] == s[k].points); assert(!degenerate(s[k].points)); }
        assert forall|k: int| #[trigger] meets(w, k) by { assert(ends_meet(s, k)); }
        if w.len() == 1 { assert forall|j: int| #![trigger w[0][j]] 0 <= j < w[0].len() implies !plt(w[0][j], w[0][0]) by { assert(w[0][j] == s[0].points[j]); } }
    }
    assert forall|i: int, j: int| #![trigger p[i], p[j]] 0 <= i <= j < p.len() implies !plt(p[j][0][0], p[i][0][0]) by {
        assert(norm_ring(rs[ix[i]]) && norm_ring(rs[ix[j]]));
        assert(ix[i] <= ix[j]);
    }
}
pub proof fn lemma_kept(rss: Seq<Seq<Seq<Side>>>, n: int)
    requires 0 <= n <= rss.len()
    ensures kept_n(rss, n).len() <= n, forall|j: int| #![trigger kept_n(rss, n)[j]] 0 <= j < kept_n(rss, n).len() ==> 0 <= kept_n(rss, n)[j] < n,
        (forall|i: int| #![trigger rss[i]] 0 <= i < n ==> picked(rss[i], true).len() > 0) ==> kept_n(rss, n) =~= Seq::new(n as nat, |i: int| i),
    decreases n
{ if n > 0 { lemma_kept(rss, n - 1); assert(rss[n - 1] == rss[n - 1]); } }
pub proof fn lemma_kept_ext(rss: Seq<Seq<Seq<Side>>>, rs: Seq<Seq<Side>>, n: int)
    requires 0 <= n <= rss.len()
    ensures kept_n(rss.push(rs), n) == kept_n(rss, n)
    decreases n
{ if n > 0 { lemma_kept_ext(rss, rs, n - 1); } }
// ---- sums --------------------------------------------------------------------------------------------------
pub open spec fn below(f: F, g: F) -> bool { forall|p: Point, q: Point, a: Ptr, b: Ptr| #![trigger f(p, q, a, b)] #![trigger g(p, q, a, b)] f(p, q, a, b) <= g(p, q, a, b) }
pub proof fn lemma_le_p(f: F, g: F, s: Seq<Point>, a: Ptr, b: Ptr, n: int)
    requires below(f, g)
    ensures tot_p(f, s, a, b, n) <= tot_p(g, s, a, b, n)
    decreases n
{ if n > 0 { lemma_le_p(f, g, s, a, b, n - 1); assert(f(s[n - 1], s[n], a, b) <= g(s[n - 1], s[n], a, b)); } }
pub proof fn lemma_le(f: F, g: F, s: Seq<Side>, n: int)
    requires below(f, g)
    ensures tot_n(f, s, n) <= tot_n(g, s, n)
    decreases n
{ if n > 0 { lemma_le(f, g, s, n - 1); let e = s[n - 1]; lemma_le_p(f, g, e.points, e.a, e.b, e.points.len() - 1); } }
pub proof fn lemma_wound_one(s: Seq<TopoRing>, order: WindingOrder, n: int)
    ensures wound_n(f_useful(f_one()), s, order, n) <= segs_n(s, n)
    decreases n
{
    if n > 0 {
        lemma_wound_one(s, order, n - 1);
        let r = sides_of(s[n - 1]);
        lemma_le(f_dir(f_useful(f_one()), against(r, order)), f_one(), r, r.len() as int);
    }
}
/// No ring of a region is longer than the region's whole boundary.
pub proof fn lemma_sizes(rs: Seq<Seq<Side>>, n: int, m: int)
    requires norm_rings(rs), 0 <= m <= n <= rs.len()
    ensures m <= tot_rn(f_one(), rs, m), tot_rn(f_one(), rs, m) <= tot_rn(f_one(), rs, n), m < n ==> n_segs(rs[m]) + tot_rn(f_one(), rs, m) <= tot_rn(f_one(), rs, n)
    decreases n
{
    if n > 0 {
        let s = rs[n - 1];
        assert(norm_ring(s));
        lemma_size(s, s.len() as int, s.len() as int);
        if m < n { lemma_sizes(rs, n - 1, m); } else { lemma_sizes(rs, n - 1, m - 1); }
    }
}
pub proof fn lemma_add_r(f: F, s: Seq<Seq<Side>>, t: Seq<Seq<Side>>)
    ensures tot_r(f, s + t) == tot_r(f, s) + tot_r(f, t)
    decreases t.len()
{
    if t.len() > 0 {
        let u = t.drop_last();
        lemma_add_r(f, s, u);
        assert(s + t =~= (s + u).push(t.last())); assert(t =~= u.push(t.last()));
        lemma_push_r(f, s + u, t.last()); lemma_push_r(f, u, t.last());
    } else { assert(s + t =~= s); }
}
pub proof fn lemma_wound_r(f: F, rs: Seq<Seq<Side>>, s: Seq<TopoRing>, order: WindingOrder, n: int)
    requires 0 <= n <= rs.len(), forall|i: int| #![trigger rs[i]] 0 <= i < n ==> tot(f, rs[i]) == wound(f, sides_of(s[i]), order)
    ensures tot_rn(f, rs, n) == wound_n(f, s, order, n)
    decreases n
{ if n > 0 { lemma_wound_r(f, rs, s, order, n - 1); assert(rs[n - 1] == rs[n - 1]); } }
pub proof fn lemma_region_sums<Data>(g: TopoRegion<Data>, x: Seq<Seq<Side>>, y: Seq<Seq<Side>>, rs: Seq<Seq<Side>>)
    requires
        x.len() == g.outer_rings@.len(), y.len() == g.inner_rings@.len(),
        forall|i: int, f: F| #![trigger tot(f, x[i])] 0 <= i < x.len() ==> tot(f, x[i]) == wound(f, sides_of(g.outer_rings@[i]), WindingOrder::Clockwise),
        forall|i: int, f: F| #![trigger tot(f, y[i])] 0 <= i < y.len() ==> tot(f, y[i]) == wound(f, sides_of(g.inner_rings@[i]), WindingOrder::CounterClockwise),
        forall|f: F| #[trigger] tot_r(f, rs) == tot_r(f_useful(f), x + y),
    ensures same_sums(g, rs)
{
    reveal(same_sums);
    assert forall|f: F| #[trigger] tot_r(f, rs) == region_tot(f, g) by {
        let h = f_useful(f);
        lemma_add_r(h, x, y);
        lemma_wound_r(h, x, g.outer_rings@, WindingOrder::Clockwise, x.len() as int);
        lemma_wound_r(h, y, g.inner_rings@, WindingOrder::CounterClockwise, y.len() as int);
    }
}
// ---- handing the rings to the builder ---------------------------------------------------------------------
pub open spec fn ring_is(r: Ring, s: Seq<Side>) -> bool { r is Edges && r->Edges_0@.len() == s.len() && forall|i: int| #![trigger r->Edges_0@[i]] 0 <= i < s.len() ==> r->Edges_0@[i].0@ == s[i].points }
pub proof fn lemma_ring_n(r: Ring, s: Seq<Side>, n: int)
    requires ring_is(r, s), sturdy(s), 0 <= n <= s.len()
    ensures total_len_n(r->Edges_0@, n) <= 2 * tot_n(f_one(), s, n), shoelace_edges_n(r->Edges_0@, n) == tot_n(f_cross(), s, n), keep_n(ring_paths(r), n) =~= paths_in(s).subrange(0, n)
    decreases n
{
    if n > 0 {
        lemma_ring_n(r, s, n - 1);
        assert(r->Edges_0@[n - 1].0@ == s[n - 1].points); assert(!degenerate(s[n - 1].points));
        lemma_one_e(s[n - 1]);
        assert(ring_paths(r)[n - 1] == s[n - 1].points);
        assert(paths_in(s).subrange(0, n) =~= paths_in(s).subrange(0, n - 1).push(s[n - 1].points));
    }
}
pub proof fn lemma_ring(r: Ring, s: Seq<Side>)
    requires ring_is(r, s), sturdy(s), 2 * n_segs(s) <= max_len()
    ensures ring_fits(r), ring_shoelace(r) == area(s), ring_want(r) == paths_in(s)
{ lemma_ring_n(r, s, s.len() as int); assert(paths_in(s).subrange(0, s.len() as int) =~= paths_in(s)); }
pub proof fn lemma_want_ext(s: Seq<Ring>, y: Ring, n: int)
    requires 0 <= n <= s.len()
    ensures rings_want_n(s.push(y), n) == rings_want_n(s, n)
    decreases n
{ if n > 0 { lemma_want_ext(s, y, n - 1); } }
/// The rings so far, as handed to the builder.
pub open spec fn handed(s: Seq<Ring>, rs: Seq<Seq<Side>>, pos: bool, n: int) -> bool {
    s.len() <= n && rings_want(s) =~= picked_n(rs, pos, n) && forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> ring_fits(s[i])
}
pub proof fn lemma_handed(s: Seq<Ring>, rs: Seq<Seq<Side>>, pos: bool, n: int, y: Ring)
    requires handed(s, rs, pos, n), 0 <= n < rs.len(), ring_is(y, rs[n]), sturdy(rs[n]), 2 * n_segs(rs[n]) <= max_len()
    ensures
        (if pos { area(rs[n]) >= 0 } else { area(rs[n]) < 0 }) ==> handed(s.push(y), rs, pos, n + 1),
        (if pos { area(rs[n]) < 0 } else { area(rs[n]) >= 0 }) ==> handed(s, rs, pos, n + 1),
{
    lemma_ring(y, rs[n]);
    let t = s.push(y);
    lemma_want_ext(s, y, s.len() as int);
    assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies ring_fits(t[i]) by { if i < s.len() { assert(t[i] == s[i]); } }
    let ix = pick_n(rs, pos, n);
    assert(ix.push(n).map_values(|i: int| paths_in(rs[i])) =~= ix.map_values(|i: int| paths_in(rs[i])).push(paths_in(rs[n])));
}
// ---- the input's pointers -------------------------------------------------------------------------------------
pub open spec fn good_ptr<Data>(s: Seq<TopoRegion<Data>>, p: Ptr) -> bool { match p { Ptr::At(i, k) => i < s.len() && k < n_rings(s[i as int]), Ptr::Null => false } }
pub open spec fn good_ptrs<Data>(s: Seq<TopoRegion<Data>>, u: Seq<Ptr>) -> bool { forall|j: int| #![trigger u[j]] 0 <= j < u.len() ==> good_ptr(s, u[j]) }
pub proof fn lemma_ptrs_d<Data>(s: Seq<TopoRegion<Data>>, d: Seq<DirectedEdge>, n: int, e: int, p: Ptr)
    requires good_ptr(s, p)
    ensures good_ptrs(s, uses_d(d, n, e, p))
    decreases n
{ if n > 0 { lemma_ptrs_d(s, d, n - 1, e, p); } }
pub proof fn lemma_ptrs_r<Data>(s: Seq<TopoRegion<Data>>, n: int, e: int, i: int)
    requires 0 <= i < s.len(), s.len() <= usize::MAX, 0 <= n <= n_rings(s[i]), n_rings(s[i]) <= usize::MAX
    ensures good_ptrs(s, uses_r(s[i], n, e, i))
    decreases n
{
    if n > 0 {
        lemma_ptrs_r(s, n - 1, e, i);
        let d = ring_k(s[i], n - 1).directed_edges@;
        lemma_ptrs_d(s, d, d.len() as int, e, Ptr::At(i as usize, (n - 1) as usize));
    }
}
pub proof fn lemma_ptrs_t<Data>(s: Seq<TopoRegion<Data>>, n: int, e: int)
    requires 0 <= n <= s.len(), s.len() <= usize::MAX, forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> n_rings(s[i]) <= usize::MAX
    ensures good_ptrs(s, uses_t(s, n, e))
    decreases n
{ if n > 0 { lemma_ptrs_t(s, n - 1, e); assert(n_rings(s[n - 1]) <= usize::MAX); lemma_ptrs_r(s, n_rings(s[n - 1]), e, n - 1); } }
/// An edge of a ring is used.
pub proof fn lemma_used<Data>(s: Seq<TopoRegion<Data>>, i: int, k: int, j: int)
    requires 0 <= i < s.len(), 0 <= k < n_rings(s[i]), 0 <= j < ring_k(s[i], k).directed_edges@.len()
    ensures uses_t(s, s.len() as int, ptr_ix(ring_k(s[i], k).directed_edges@[j].edge)).len() > 0
{
    let d = ring_k(s[i], k).directed_edges@; let e = ptr_ix(d[j].edge);
    lemma_uses_d_mono(d, j + 1, d.len() as int, e, Ptr::At(i as usize, k as usize));
    lemma_uses_r_mono(s[i], k + 1, n_rings(s[i]), e, i);
    lemma_uses_t_mono(s, i + 1, s.len() as int, e);
}
pub open spec fn sized<Data>(t: Topology<Data>) -> bool { t.regions@.len() <= usize::MAX && t.edges@.len() <= usize::MAX && forall|i: int| #![trigger t.regions@[i]] 0 <= i < t.regions@.len() ==> n_rings(t.regions@[i]) <= usize::MAX }
/// Ring k of region i of the input can be read, and its sides say which regions of the topology it borders.
pub proof fn lemma_ring_good<Data>(t: Topology<Data>, i: int, k: int)
    requires topo_fine(t), heap_is(t), sized(t), 0 <= i < t.regions@.len(), 0 <= k < n_rings(t.regions@[i]), walk_fine(topo_ring_abs(edge_points(t.edges@), ring_k(t.regions@[i], k))), n_segs(sides_of(ring_k(t.regions@[i], k))) <= max_len()
    ensures ring_good(ring_k(t.regions@[i], k)), paths_in(sides_of(ring_k(t.regions@[i], k))) =~= topo_ring_abs(edge_points(t.edges@), ring_k(t.regions@[i], k))
{
    let g = t.regions@[i]; let r = ring_k(g, k); let s = sides_of(r); let w = topo_ring_abs(edge_points(t.edges@), r); let ue = |e: int| uses_t(t.regions@, t.regions@.len() as int, e);
    assert(region_refs_ok(g, i, t.edges@.len() as int));
    assert forall|j: int| #![trigger r.directed_edges@[j]] 0 <= j < r.directed_edges@.len() implies edge_good(r.directed_edges@[j]) && s[j].points == w[j] && !degenerate(s[j].points) by {
        let d = r.directed_edges@[j]; let e = ptr_ix(d.edge);
        assert(edge_in(d, t.edges@.len() as int));
        let te = t.edges@[e];
        assert(heap::<TopoEdge>(d.edge) == te);
        assert(w[j] == directed(edge_points(t.edges@)[e], d.direction));
        assert(!degenerate(te.points@));
        lemma_used(t.regions@, i, k, j);
        let u = uses_t(t.regions@, t.regions@.len() as int, e);
        assert(slots(u, te.rings@));
        lemma_ptrs_t(t.regions@, t.regions@.len() as int, e);
        assert(good_ptr(t.regions@, u[0]));
        let q = ring_k(t.regions@[u[0]->At_0 as int], u[0]->At_1 as int);
        if u.len() > 1 { assert(good_ptr(t.regions@, u[1])); let q = ring_k(t.regions@[u[1]->At_0 as int], u[1]->At_1 as int); }
    }
    assert forall|j: int| 0 <= j < s.len() implies paths_in(s)[j] == w[j] by { let d = r.directed_edges@[j]; }
    assert(paths_in(s) =~= w);
    assert forall|j: int| #![trigger s[j]] 0 <= j < s.len() implies !degenerate(s[j].points) by { let d = r.directed_edges@[j]; }
    assert forall|j: int| #[trigger] ends_meet(s, j) by { assert(meets(w, j)); if 0 < j < s.len() { assert(paths_in(s)[j] == s[j].points && paths_in(s)[j - 1] == s[j - 1].points); } }
    assert(paths_in(s)[0] == s[0].points && paths_in(s).last() == s.last().points);
    lemma_abs_area(s, s.len() as int);
}
pub proof fn lemma_segs_n(s: Seq<TopoRing>, n: int, m: int)
    requires 0 <= m <= n
    ensures 0 <= segs_n(s, m) <= segs_n(s, n), m < n ==> segs_n(s, m) + n_segs(sides_of(s[m])) <= segs_n(s, n)
    decreases n
{ if n > 0 { let r = sides_of(s[n - 1]); let z: F = |p: Point, q: Point, a: Ptr, b: Ptr| 0int; lemma_le(z, f_one(), r, r.len() as int); lemma_zero(z, r, r.len() as int); if m < n { lemma_segs_n(s, n - 1, m); } else { lemma_segs_n(s, n - 1, m - 1); } } }
pub proof fn lemma_zero_p(z: F, s: Seq<Point>, a: Ptr, b: Ptr, n: int)
    requires forall|p: Point, q: Point, a: Ptr, b: Ptr| #[trigger] z(p, q, a, b) == 0
    ensures tot_p(z, s, a, b, n) == 0
    decreases n
{ if n > 0 { lemma_zero_p(z, s, a, b, n - 1); } }
pub proof fn lemma_zero(z: F, s: Seq<Side>, n: int)
    requires forall|p: Point, q: Point, a: Ptr, b: Ptr| #[trigger] z(p, q, a, b) == 0
    ensures tot_n(z, s, n) == 0
    decreases n
{ if n > 0 { lemma_zero(z, s, n - 1); let e = s[n - 1]; lemma_zero_p(z, e.points, e.a, e.b, e.points.len() - 1); } }
pub proof fn lemma_region_good<Data>(t: Topology<Data>, i: int)
    requires topo_fine(t), heap_is(t), sized(t), 0 <= i < t.regions@.len()
    ensures rings_good(t.regions@[i].outer_rings@), rings_good(t.regions@[i].inner_rings@)
{
    let g = t.regions@[i]; let a = topo_abs(t)[i]; let n = g.outer_rings@.len() as int; let m = g.inner_rings@.len() as int;
    assert(2 * region_segs(g) <= max_len());
    lemma_segs_n(g.outer_rings@, n, 0); lemma_segs_n(g.inner_rings@, m, 0);
    assert forall|k: int| #![trigger g.outer_rings@[k]] 0 <= k < n implies ring_good(g.outer_rings@[k]) by { assert(walk_fine(a.outer[k])); lemma_segs_n(g.outer_rings@, n, k); assert(ring_k(g, k) == g.outer_rings@[k]); lemma_ring_good(t, i, k); }
    assert forall|k: int| #![trigger g.inner_rings@[k]] 0 <= k < m implies ring_good(g.inner_rings@[k]) by { assert(walk_fine(a.inner[k])); lemma_segs_n(g.inner_rings@, m, k); assert(ring_k(g, n + k) == g.inner_rings@[k]); lemma_ring_good(t, i, n + k); }
}
%raw
/// Every region has an area left, when the segments with the region on both sides are left out.
pub open spec fn all_lasting<Data>(t: Topology<Data>) -> bool { forall|i: int| #![trigger t.regions@[i]] 0 <= i < t.regions@.len() ==> region_tot(f_cross(), t.regions@[i]) > 0 }
pub proof fn lemma_positive(rs: Seq<Seq<Side>>, n: int)
    requires 0 <= n <= rs.len(), tot_rn(f_cross(), rs, n) > 0
    ensures picked_n(rs, true, n).len() > 0
    decreases n
{ if n > 0 && area(rs[n - 1]) <= 0 { lemma_positive(rs, n - 1); } }
/// The same regions in the same order, with their data.
pub open spec fn same_data<Data: Clone>(t: Topology<Data>, a: Seq<AbsRegion<Data>>) -> bool { a.len() == t.regions@.len() && forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> cloned(t.regions@[i].data, a[i].data) }
pub proof fn lemma_all_kept<Data: Clone>(t: Topology<Data>, rss: Seq<Seq<Seq<Side>>>, a: Seq<AbsRegion<Data>>)
    requires regions_norm_ok(t.regions@, rss, t.regions@.len() as int, a), all_lasting(t), topo_fine(t), heap_is(t), sized(t)
    ensures same_data(t, a), same_areas(t, a)
{
    let n = t.regions@.len() as int;
    assert forall|i: int| #![trigger rss[i]] 0 <= i < n implies picked(rss[i], true).len() > 0 by {
        assert(final_rings(t.regions@[i], rss[i]));
        assert(tot_r(f_cross(), rss[i]) == region_tot(f_cross(), t.regions@[i])) by { reveal(same_sums); }
        lemma_positive(rss[i], rss[i].len() as int);
    }
    lemma_kept(rss, n);
    assert(a.len() == n);
    assert forall|i: int| #![trigger a[i]] 0 <= i < a.len() implies cloned(t.regions@[i].data, a[i].data) by { assert(region_norm_ok(t.regions@[kept_n(rss, n)[i]], rss[kept_n(rss, n)[i]], a[i])); }
    assert forall|i: int| #![trigger once(t, i)] 0 <= i < a.len() && once(t, i) implies paired(t, i) && net_area(a[i]) == net_area(topo_abs(t)[i]) by {
        assert(region_norm_ok(t.regions@[kept_n(rss, n)[i]], rss[kept_n(rss, n)[i]], a[i]));
        assert(final_rings(t.regions@[i], rss[i]));
        assert(tot_r(f_cross(), rss[i]) == region_tot(f_cross(), t.regions@[i])) by { reveal(same_sums); }
        lemma_out_area(rss[i], rss[i].len() as int);
        lemma_pairs_off(t, i); lemma_in_area(t, i);
    }
}
// ---- net areas (C11) ---------------------------------------------------------------------------------------------
pub open spec fn f_red(f: F) -> F { |p: Point, q: Point, a: Ptr, b: Ptr| if a == b { f(p, q, a, b) } else { 0int } }
/// The same sum over the segments that have the region on both sides.
pub open spec fn region_red<Data>(f: F, g: TopoRegion<Data>) -> int {
    wound_n(f_red(f), g.outer_rings@, WindingOrder::Clockwise, g.outer_rings@.len() as int) + wound_n(f_red(f), g.inner_rings@, WindingOrder::CounterClockwise, g.inner_rings@.len() as int)
}
/// Those come in opposite pairs; they do when the region's rings do not overlap (`once`).
#[verifier::opaque]
pub open spec fn pairs_off<Data>(g: TopoRegion<Data>) -> bool { forall|f: F| #[trigger] region_red(f, g) == region_red(f_back(f), g) }
pub open spec fn areas_n(s: Seq<AbsRing>, n: int) -> int decreases n { if n <= 0 { 0 } else { areas_n(s, n - 1) + iabs(abs_area(s[n - 1])) } }
pub open spec fn areas(s: Seq<AbsRing>) -> int { areas_n(s, s.len() as int) }
/// Twice the area of a region.
pub open spec fn net_area<Data>(a: AbsRegion<Data>) -> int { areas(a.outer) - areas(a.inner) }
pub open spec fn sum_of(f: F, g: F, h: F) -> bool { forall|p: Point, q: Point, a: Ptr, b: Ptr| #[trigger] h(p, q, a, b) == f(p, q, a, b) + g(p, q, a, b) }
pub proof fn lemma_sum_p(f: F, g: F, h: F, s: Seq<Point>, a: Ptr, b: Ptr, n: int)
    requires sum_of(f, g, h)
    ensures tot_p(h, s, a, b, n) == tot_p(f, s, a, b, n) + tot_p(g, s, a, b, n)
    decreases n
{ if n > 0 { lemma_sum_p(f, g, h, s, a, b, n - 1); assert(h(s[n - 1], s[n], a, b) == f(s[n - 1], s[n], a, b) + g(s[n - 1], s[n], a, b)); } }
pub proof fn lemma_sum(f: F, g: F, h: F, s: Seq<Side>, n: int)
    requires sum_of(f, g, h)
    ensures tot_n(h, s, n) == tot_n(f, s, n) + tot_n(g, s, n)
    decreases n
{ if n > 0 { lemma_sum(f, g, h, s, n - 1); let e = s[n - 1]; lemma_sum_p(f, g, h, e.points, e.a, e.b, e.points.len() - 1); } }
/// A ring wound clockwise (counter-clockwise) has a positive (negative) area.
pub proof fn lemma_wound_area(s: Seq<Side>, order: WindingOrder)
    ensures wound(f_cross(), s, order) == (if order is Clockwise { iabs(area(s)) } else { -iabs(area(s)) })
{ lemma_neg(f_back(f_cross()), f_cross(), s, s.len() as int); }
pub proof fn lemma_wound_split(s: Seq<Side>, order: WindingOrder)
    ensures wound(f_cross(), s, order) == wound(f_useful(f_cross()), s, order) + wound(f_red(f_cross()), s, order), wound(f_red(f_back(f_cross())), s, order) == -wound(f_red(f_cross()), s, order)
{
    let k = against(s, order); let n = s.len() as int; let f = f_dir(f_useful(f_cross()), k); let g = f_dir(f_red(f_cross()), k); let h = f_dir(f_cross(), k); let o = f_dir(f_red(f_back(f_cross())), k);
    assert forall|p: Point, q: Point, a: Ptr, b: Ptr| #[trigger] h(p, q, a, b) == f(p, q, a, b) + g(p, q, a, b) by { }
    lemma_sum(f, g, h, s, n);
    assert forall|p: Point, q: Point, a: Ptr, b: Ptr| o(p, q, a, b) == -#[trigger] g(p, q, a, b) by { }
    lemma_neg(o, g, s, n);
}
pub proof fn lemma_wound_split_n(s: Seq<TopoRing>, order: WindingOrder, paths: Seq<Seq<Point>>, n: int)
    requires 0 <= n <= s.len(), forall|i: int| #![trigger s[i]] 0 <= i < n ==> sturdy(sides_of(s[i])) && paths_in(sides_of(s[i])) =~= topo_ring_abs(paths, s[i])
    ensures
        wound_n(f_useful(f_cross()), s, order, n) + wound_n(f_red(f_cross()), s, order, n) == (if order is Clockwise { areas_n(topo_rings_abs(paths, s), n) } else { -areas_n(topo_rings_abs(paths, s), n) }),
        wound_n(f_red(f_back(f_cross())), s, order, n) == -wound_n(f_red(f_cross()), s, order, n),
    decreases n
{
    if n > 0 {
        lemma_wound_split_n(s, order, paths, n - 1);
        let r = sides_of(s[n - 1]);
        assert(sturdy(r)); assert(topo_rings_abs(paths, s)[n - 1] == topo_ring_abs(paths, s[n - 1]));
        lemma_wound_split(r, order); lemma_wound_area(r, order); lemma_abs_area(r, r.len() as int);
    }
}
pub proof fn lemma_in_area<Data>(t: Topology<Data>, i: int)
    requires topo_fine(t), heap_is(t), sized(t), 0 <= i < t.regions@.len(), pairs_off(t.regions@[i])
    ensures region_tot(f_cross(), t.regions@[i]) == net_area(topo_abs(t)[i])
{
    let g = t.regions@[i]; let paths = edge_points(t.edges@); let n = g.outer_rings@.len() as int; let m = g.inner_rings@.len() as int;
    let a = topo_abs(t)[i];
    lemma_region_good(t, i);
    lemma_segs_n(g.outer_rings@, n, 0); lemma_segs_n(g.inner_rings@, m, 0);
    assert forall|k: int| #![trigger g.outer_rings@[k]] 0 <= k < n implies sturdy(sides_of(g.outer_rings@[k])) && paths_in(sides_of(g.outer_rings@[k])) =~= topo_ring_abs(paths, g.outer_rings@[k]) by { assert(ring_good(g.outer_rings@[k])); assert(walk_fine(a.outer[k])); lemma_segs_n(g.outer_rings@, n, k); assert(ring_k(g, k) == g.outer_rings@[k]); lemma_ring_good(t, i, k); }
    assert forall|k: int| #![trigger g.inner_rings@[k]] 0 <= k < m implies sturdy(sides_of(g.inner_rings@[k])) && paths_in(sides_of(g.inner_rings@[k])) =~= topo_ring_abs(paths, g.inner_rings@[k]) by { assert(ring_good(g.inner_rings@[k])); assert(walk_fine(a.inner[k])); lemma_segs_n(g.inner_rings@, m, k); assert(ring_k(g, n + k) == g.inner_rings@[k]); lemma_ring_good(t, i, n + k); }
    lemma_wound_split_n(g.outer_rings@, WindingOrder::Clockwise, paths, n);
    lemma_wound_split_n(g.inner_rings@, WindingOrder::CounterClockwise, paths, m);
    reveal(pairs_off);
    assert(region_red(f_cross(), g) == region_red(f_back(f_cross()), g));
}
pub proof fn lemma_areas_ext(s: Seq<AbsRing>, x: AbsRing, n: int)
    requires 0 <= n <= s.len()
    ensures areas_n(s.push(x), n) == areas_n(s, n)
    decreases n
{ if n > 0 { lemma_areas_ext(s, x, n - 1); } }
pub proof fn lemma_out_area(rs: Seq<Seq<Side>>, n: int)
    requires norm_rings(rs), 0 <= n <= rs.len()
    ensures areas(picked_n(rs, true, n)) - areas(picked_n(rs, false, n)) == tot_rn(f_cross(), rs, n)
    decreases n
{
    if n > 0 {
        lemma_out_area(rs, n - 1);
        let s = rs[n - 1];
        assert(norm_ring(s));
        lemma_abs_area(s, s.len() as int);
        let p = picked_n(rs, true, n - 1); let q = picked_n(rs, false, n - 1);
        lemma_areas_ext(p, paths_in(s), p.len() as int); lemma_areas_ext(q, paths_in(s), q.len() as int);
        if area(s) > 0 { assert(picked_n(rs, true, n) =~= p.push(paths_in(s))); } else { assert(picked_n(rs, true, n) =~= p); }
        if area(s) < 0 { assert(picked_n(rs, false, n) =~= q.push(paths_in(s))); } else { assert(picked_n(rs, false, n) =~= q); }
    } else {
        assert(picked_n(rs, true, 0) =~= seq![]); assert(picked_n(rs, false, 0) =~= seq![]);
    }
}
/// Every region whose rings do not overlap keeps its net area.
pub open spec fn same_areas<Data: Clone>(t: Topology<Data>, a: Seq<AbsRegion<Data>>) -> bool { forall|i: int| #![trigger once(t, i)] 0 <= i < a.len() && once(t, i) ==> paired(t, i) && net_area(a[i]) == net_area(topo_abs(t)[i]) }
// ---- points (C11) -------------------------------------------------------------------------------------------------
pub open spec fn f_at(x: Point) -> F { |p: Point, q: Point, a: Ptr, b: Ptr| if p == x || q == x { 1int } else { 0int } }
pub open spec fn at_only(f: F, x: Point) -> bool { forall|p: Point, q: Point, a: Ptr, b: Ptr| #![trigger f(p, q, a, b)] f(p, q, a, b) > 0 ==> p == x || q == x }
pub open spec fn path_has(s: Seq<Point>, x: Point) -> bool { exists|j: int| 0 <= j < s.len() && #[trigger] s[j] == x }
pub open spec fn ring_has(w: AbsRing, x: Point) -> bool { exists|i: int| 0 <= i < w.len() && path_has(#[trigger] w[i], x) }
pub open spec fn rings_have(s: Seq<AbsRing>, x: Point) -> bool { exists|i: int| 0 <= i < s.len() && ring_has(#[trigger] s[i], x) }
pub open spec fn region_has<Data>(a: AbsRegion<Data>, x: Point) -> bool { rings_have(a.outer, x) || rings_have(a.inner, x) }
pub proof fn lemma_at_p(f: F, x: Point, s: Seq<Point>, a: Ptr, b: Ptr, n: int)
    requires at_only(f, x), 0 <= n < s.len(), tot_p(f, s, a, b, n) > 0
    ensures path_has(s, x)
    decreases n
{ if n > 0 { if tot_p(f, s, a, b, n - 1) > 0 { lemma_at_p(f, x, s, a, b, n - 1); } else { assert(f(s[n - 1], s[n], a, b) > 0); assert(s[n - 1] == x || s[n] == x); } } }
pub proof fn lemma_at(f: F, x: Point, s: Seq<Side>, n: int)
    requires at_only(f, x), 0 <= n <= s.len(), tot_n(f, s, n) > 0
    ensures ring_has(paths_in(s), x)
    decreases n
{
    if n > 0 {
        if tot_n(f, s, n - 1) > 0 { lemma_at(f, x, s, n - 1); } else {
            let e = s[n - 1];
            assert(tot_e(f, e) > 0);
            assert(e.points.len() >= 1);
            lemma_at_p(f, x, e.points, e.a, e.b, e.points.len() - 1);
            assert(paths_in(s)[n - 1] == e.points);
        }
    }
}
pub proof fn lemma_at_n(x: Point, s: Seq<TopoRing>, order: WindingOrder, paths: Seq<Seq<Point>>, n: int)
    requires 0 <= n <= s.len(), wound_n(f_useful(f_at(x)), s, order, n) > 0, forall|i: int| #![trigger s[i]] 0 <= i < n ==> paths_in(sides_of(s[i])) =~= topo_ring_abs(paths, s[i])
    ensures rings_have(topo_rings_abs(paths, s), x)
    decreases n
{
    if n > 0 {
        if wound_n(f_useful(f_at(x)), s, order, n - 1) > 0 { lemma_at_n(x, s, order, paths, n - 1); } else {
            let r = sides_of(s[n - 1]); let f = f_dir(f_useful(f_at(x)), against(r, order));
            assert forall|p: Point, q: Point, a: Ptr, b: Ptr| #![trigger f(p, q, a, b)] f(p, q, a, b) > 0 implies p == x || q == x by { }
            lemma_at(f, x, r, r.len() as int);
            assert(paths_in(sides_of(s[n - 1])) =~= topo_ring_abs(paths, s[n - 1]));
            assert(topo_rings_abs(paths, s)[n - 1] == topo_ring_abs(paths, s[n - 1]));
        }
    }
}
pub proof fn lemma_has_p(x: Point, s: Seq<Point>, a: Ptr, b: Ptr, j: int, n: int)
    requires 0 <= j <= n < s.len(), s[j] == x, n > 0
    ensures tot_p(f_at(x), s, a, b, n) > 0
    decreases n
{ let z: F = |p: Point, q: Point, a: Ptr, b: Ptr| 0int; lemma_le_p(z, f_at(x), s, a, b, n - 1); lemma_zero_p(z, s, a, b, n - 1); if j < n - 1 { lemma_has_p(x, s, a, b, j, n - 1); } }
pub proof fn lemma_has(x: Point, s: Seq<Side>, i: int, n: int)
    requires sturdy(s), 0 <= i < n <= s.len(), path_has(s[i].points, x)
    ensures tot_n(f_at(x), s, n) > 0
    decreases n
{
    let z: F = |p: Point, q: Point, a: Ptr, b: Ptr| 0int; let e = s[n - 1];
    lemma_le(z, f_at(x), s, n - 1); lemma_zero(z, s, n - 1); lemma_le_p(z, f_at(x), e.points, e.a, e.b, e.points.len() - 1); lemma_zero_p(z, e.points, e.a, e.b, e.points.len() - 1);
    if i < n - 1 { lemma_has(x, s, i, n - 1); } else {
        assert(!degenerate(s[i].points));
        let j = choose|j: int| 0 <= j < e.points.len() && #[trigger] e.points[j] == x;
        lemma_has_p(x, e.points, e.a, e.b, j, e.points.len() - 1);
    }
}
pub proof fn lemma_has_r(x: Point, rs: Seq<Seq<Side>>, i: int, n: int)
    requires norm_rings(rs), 0 <= i < n <= rs.len(), ring_has(paths_in(rs[i]), x)
    ensures tot_rn(f_at(x), rs, n) > 0
    decreases n
{
    let z: F = |p: Point, q: Point, a: Ptr, b: Ptr| 0int; let s = rs[n - 1];
    lemma_le(z, f_at(x), s, s.len() as int); lemma_zero(z, s, s.len() as int);
    assert(norm_ring(s));
    if i < n - 1 { lemma_has_r(x, rs, i, n - 1); } else {
        let k = choose|k: int| 0 <= k < paths_in(s).len() && path_has(#[trigger] paths_in(s)[k], x);
        lemma_has(x, s, k, s.len() as int);
        lemma_nonneg_r(x, rs, n - 1);
    }
}
pub proof fn lemma_nonneg_r(x: Point, rs: Seq<Seq<Side>>, n: int)
    ensures tot_rn(f_at(x), rs, n) >= 0
    decreases n
{ if n > 0 { lemma_nonneg_r(x, rs, n - 1); let z: F = |p: Point, q: Point, a: Ptr, b: Ptr| 0int; let s = rs[n - 1]; lemma_le(z, f_at(x), s, s.len() as int); lemma_zero(z, s, s.len() as int); } }
pub proof fn lemma_points<Data>(t: Topology<Data>, i: int, rs: Seq<Seq<Side>>, pos: bool, x: Point)
    requires topo_fine(t), heap_is(t), sized(t), 0 <= i < t.regions@.len(), final_rings(t.regions@[i], rs), rings_have(picked(rs, pos), x)
    ensures region_has(topo_abs(t)[i], x)
{
    let g = t.regions@[i]; let paths = edge_points(t.edges@); let n = g.outer_rings@.len() as int; let m = g.inner_rings@.len() as int; let a = topo_abs(t)[i];
    lemma_pick(rs, pos, rs.len() as int);
    let k = choose|k: int| 0 <= k < picked(rs, pos).len() && ring_has(#[trigger] picked(rs, pos)[k], x);
    let c = pick_n(rs, pos, rs.len() as int)[k];
    lemma_has_r(x, rs, c, rs.len() as int);
    assert(tot_r(f_at(x), rs) == region_tot(f_at(x), g)) by { reveal(same_sums); }
    lemma_segs_n(g.outer_rings@, n, 0); lemma_segs_n(g.inner_rings@, m, 0);
    assert forall|k: int| #![trigger g.outer_rings@[k]] 0 <= k < n implies paths_in(sides_of(g.outer_rings@[k])) =~= topo_ring_abs(paths, g.outer_rings@[k]) by { assert(walk_fine(a.outer[k])); lemma_segs_n(g.outer_rings@, n, k); assert(ring_k(g, k) == g.outer_rings@[k]); lemma_ring_good(t, i, k); }
    assert forall|k: int| #![trigger g.inner_rings@[k]] 0 <= k < m implies paths_in(sides_of(g.inner_rings@[k])) =~= topo_ring_abs(paths, g.inner_rings@[k]) by { assert(walk_fine(a.inner[k])); lemma_segs_n(g.inner_rings@, m, k); assert(ring_k(g, n + k) == g.inner_rings@[k]); lemma_ring_good(t, i, n + k); }
    if wound_n(f_useful(f_at(x)), g.outer_rings@, WindingOrder::Clockwise, n) > 0 { lemma_at_n(x, g.outer_rings@, WindingOrder::Clockwise, paths, n); } else { lemma_at_n(x, g.inner_rings@, WindingOrder::CounterClockwise, paths, m); }
}
/// Every point of the output is a point of a region of the input.
pub open spec fn no_new_points<Data: Clone>(t: Topology<Data>, a: Seq<AbsRegion<Data>>) -> bool {
    forall|i: int, x: Point| #![trigger region_has(a[i], x)] 0 <= i < a.len() && region_has(a[i], x) ==> exists|k: int| 0 <= k < t.regions@.len() && region_has(#[trigger] topo_abs(t)[k], x)
}
pub proof fn lemma_no_new_points<Data: Clone>(t: Topology<Data>, rss: Seq<Seq<Seq<Side>>>, a: Seq<AbsRegion<Data>>)
    requires topo_fine(t), heap_is(t), sized(t), regions_norm_ok(t.regions@, rss, t.regions@.len() as int, a)
    ensures no_new_points(t, a)
{
    let n = t.regions@.len() as int;
    lemma_kept(rss, n);
    assert forall|i: int, x: Point| #![trigger region_has(a[i], x)] 0 <= i < a.len() && region_has(a[i], x) implies exists|k: int| 0 <= k < t.regions@.len() && region_has(#[trigger] topo_abs(t)[k], x) by {
        let k = kept_n(rss, n)[i];
        assert(region_norm_ok(t.regions@[k], rss[k], a[i])); assert(final_rings(t.regions@[k], rss[k]));
        if rings_have(a[i].outer, x) { lemma_points(t, k, rss[k], true, x); } else { lemma_points(t, k, rss[k], false, x); }
        assert(region_has(topo_abs(t)[k], x));
    }
}
%fn normalize
%opt isolate
%requires topo_fine(*topo), heap_is(*topo),
%ensures
        norm_result(*topo, r), //@C10 C11 C17
        forall|i: int| #![trigger topo_abs(r)[i]] 0 <= i < topo_abs(r).len() ==> rings_canonical(topo_abs(r)[i].outer, true) && rings_canonical(topo_abs(r)[i].inner, false), //@C10
        all_lasting(*topo) ==> same_data(*topo, topo_abs(r)) && same_areas(*topo, topo_abs(r)), //@C11
        no_new_points(*topo, topo_abs(r)), //@C11
        refs_ok(r), //@C07
        planar(*topo) ==> borders_shared(r), //@C17
%at fn_start
    let ghost mut rss: Seq<Seq<Seq<Side>>> = seq![]; let ghost mut xs: Seq<Seq<Side>> = seq![]; let ghost mut ys: Seq<Seq<Side>> = seq![]; let ghost mut rs: Seq<Seq<Side>> = seq![]; let ghost mut b1: Seq<NormRing> = seq![]; let ghost mut ab: Seq<AbsRegion<Data>> = seq![];
%loop 1
            topo_fine(*topo), heap_is(*topo), sized(*topo), __n1 == topo.regions@.len(),
            builder.wf(), builder.regions@.len() <= __k1, regions_norm_ok(topo.regions@, rss, __k1 as int, builder.abs()), //@C10 C11 C17
%at loop1.before
    proof { assert(sized(*topo)); assert(builder.abs().len() == builder.regions@.len()); }
%at loop1.start
    let ghost a0 = builder.abs(); let ghost rss0 = rss;
    proof { assert(a0.len() == builder.regions@.len()); lemma_region_good(*topo, __i1 as int); assert(**region == topo.regions@[__i1 as int]); }
%at let rings 1
    proof { xs = rns(rings@); }
%at after extend 1
    proof {
        ys = rns(rings@).subrange(xs.len() as int, rings@.len() as int); assert(rns(rings@) =~= xs + ys);
        let n = xs.len() as int;
        let v = rns(rings@);
        assert forall|i: int| #![trigger v[i]] 0 <= i < v.len() implies norm_ring(v[i]) by { let x = rings@[i]; assert(v[i] == nes(x.edges@)); }
        assert forall|i: int, f: F| #![trigger tot(f, ys[i])] 0 <= i < ys.len() implies tot(f, ys[i]) == wound(f, sides_of(region.inner_rings@[i]), WindingOrder::CounterClockwise) by { let x = rings@[n + i]; assert(ys[i] == nes(x.edges@)); assert(tot(f, nes(x.edges@)) == tot(f, ys[i])); }
        assert forall|i: int, f: F| #![trigger tot(f, xs[i])] 0 <= i < xs.len() implies tot(f, xs[i]) == wound(f, sides_of(region.outer_rings@[i]), WindingOrder::Clockwise) by { let x = rings@[i]; assert(xs[i] == nes(x.edges@)); assert(tot(f, nes(x.edges@)) == tot(f, xs[i])); }
    }
%at after join_adjacent_rings 1
    proof { lemma_sortable(rings@); b1 = rings@; }
%at after sort 1
    proof {
        rs = rns(rings@);
        lemma_sorted(b1, rings@);
        lemma_region_sums(**region, xs, ys, rs);
        lemma_sizes(rs, rs.len() as int, rs.len() as int);
        lemma_wound_one(region.outer_rings@, WindingOrder::Clockwise, region.outer_rings@.len() as int);
        lemma_wound_one(region.inner_rings@, WindingOrder::CounterClockwise, region.inner_rings@.len() as int);
        assert(tot_r(f_one(), rs) == region_tot(f_one(), **region)) by { reveal(same_sums); }
    }
%at loop2.before
    proof { assert(rings_want(seq![]) =~= picked_n(rs, true, 0)); assert(rings_want(seq![]) =~= picked_n(rs, false, 0)); }
%loop 2
            rs == rns(__s2), __n2 == rs.len(), norm_rings(rs), 2 * tot_r(f_one(), rs) <= max_len(),
            handed(__c2a@, rs, true, __k2 as int), handed(__c2b@, rs, false, __k2 as int), //@C10 C11 C17
%at loop2.start
    proof {
        assert(norm_ring(rs[__i2 as int]));
        lemma_sizes(rs, rs.len() as int, __i2 as int);
        assert(ring_is(__y2, rs[__i2 as int]));
        lemma_handed(__c2a@, rs, true, __i2 as int, __y2); lemma_handed(__c2b@, rs, false, __i2 as int, __y2);
        lemma_ring(__y2, rs[__i2 as int]);
    }
%at loop1.end
    proof {
        let a = builder.abs(); let s = topo.regions@;
        assert(a.len() == builder.regions@.len());
        rss = rss0.push(rs);
        assert(final_rings(s[__i1 as int], rs));
        assert forall|i: int| #![trigger rss[i]] 0 <= i < __k1 implies final_rings(s[i], rss[i]) by { if i < __i1 { assert(rss[i] == rss0[i]); } }
        lemma_kept_ext(rss0, rs, __i1 as int); lemma_kept(rss0, __i1 as int);
        let k = kept_n(rss, __k1 as int); let k0 = kept_n(rss0, __i1 as int);
        assert forall|j: int| #![trigger a[j]] 0 <= j < a.len() implies region_norm_ok(s[k[j]], rss[k[j]], a[j]) by { if j < a0.len() { assert(a[j] == a0[j]); assert(k[j] == k0[j]); assert(rss[k[j]] == rss0[k0[j]]); } }
    }
%at loop1.after
    proof {
        ab = builder.abs();
        let n = topo.regions@.len() as int;
        lemma_kept(rss, n);
        assert forall|i: int| #![trigger ab[i]] 0 <= i < ab.len() implies rings_canonical(ab[i].outer, true) && rings_canonical(ab[i].inner, false) by {
            let k = kept_n(rss, n)[i];
            assert(final_rings(topo.regions@[k], rss[k])); assert(region_norm_ok(topo.regions@[k], rss[k], ab[i]));
            lemma_canonical(rss[k], true); lemma_canonical(rss[k], false);
        }
        if all_lasting(*topo) { lemma_all_kept(*topo, rss, ab); }
        lemma_no_new_points(*topo, rss, ab);
    }
%at fn_end
    proof { assert(topo_abs(__ret) == ab); assert(norm_with(*topo, rss, __ret)); if planar(*topo) { lemma_borders(*topo, rss, __ret); } }
