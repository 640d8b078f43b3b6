%module simplify::simplify_edge src/simplify/simplify_edge.rs
%raw
use crate::geo;
use crate::topology::types::*;
use std::cmp;
%type Point
%type PointHeap
%raw
pub open spec fn wcmp(a: u64, b: u64) -> cmp::Ordering { if a < b { cmp::Ordering::Less } else if a > b { cmp::Ordering::Greater } else { cmp::Ordering::Equal } }
impl PartialEqSpecImpl for Point {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { self.weight == other.weight }
}
impl PartialOrdSpecImpl for Point {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<cmp::Ordering> { Some(wcmp(self.weight, other.weight)) }
}
impl Eq for Point {}
impl OrdSpecImpl for Point {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Self) -> cmp::Ordering { wcmp(self.weight, other.weight) }
}
// ---- what is to be computed (C08, C09) ---------------------------------------------------------
/// Twice the area of a triangle.
pub open spec fn tri(a: geo::Point, b: geo::Point, c: geo::Point) -> int {
    geo::iabs((b.0 - a.0) * (c.1 - a.1) - (c.0 - a.0) * (b.1 - a.1))
}
pub proof fn lemma_tri_bound(a: geo::Point, b: geo::Point, c: geo::Point)
    ensures 0 <= tri(a, b, c) <= 0xffff_fffe_0000_0001,
        geo::iabs((b.0 - a.0) * (c.1 - a.1)) <= 0xffff_fffe_0000_0001, geo::iabs((c.0 - a.0) * (b.1 - a.1)) <= 0xffff_fffe_0000_0001,
{
    let m = 0xffff_ffffint;
    let (u, v, w) = (b.1 - c.1, c.1 - a.1, a.1 - b.1);
    assert((b.0 - a.0) * (c.1 - a.1) - (c.0 - a.0) * (b.1 - a.1) == a.0 * u + b.0 * v + c.0 * w) by (nonlinear_arith)
        requires u == b.1 - c.1, v == c.1 - a.1, w == a.1 - b.1;
    lemma_part(a.0 as int, u); lemma_part(b.0 as int, v); lemma_part(c.0 as int, w);
    let (x, y, z) = (b.0 - a.0, c.1 - a.1, c.0 - a.0);
    assert(-m * m <= x * y <= m * m) by (nonlinear_arith) requires -m <= x <= m, -m <= y <= m, m == 0xffff_ffff;
    let t = b.1 - a.1;
    assert(-m * m <= z * t <= m * m) by (nonlinear_arith) requires -m <= z <= m, -m <= t <= m, m == 0xffff_ffff;
}
pub proof fn lemma_part(p: int, u: int)
    requires 0 <= p <= 0xffff_ffff
    ensures (if u < 0 { 0xffff_ffff * u } else { 0 }) <= p * u <= (if u > 0 { 0xffff_ffff * u } else { 0 })
{
    if u >= 0 { assert(0 <= p * u <= 0xffff_ffff * u) by (nonlinear_arith) requires 0 <= p <= 0xffff_ffff, u >= 0; }
    else { assert(0xffff_ffff * u <= p * u <= 0) by (nonlinear_arith) requires 0 <= p <= 0xffff_ffff, u < 0; }
}
/// The triangle of an interior point with its neighbours.
pub open spec fn tri_at(s: Seq<geo::Point>, i: int) -> int { tri(s[i - 1], s[i], s[i + 1]) }
/// Point i may be dropped: it is interior, its triangle is below the limit and no interior point's is smaller.
pub open spec fn may_drop(s: Seq<geo::Point>, limit: int, i: int) -> bool {
    0 < i < s.len() - 1 && tri_at(s, i) < limit && forall|j: int| #![trigger tri_at(s, j)] 0 < j < s.len() - 1 ==> tri_at(s, i) <= tri_at(s, j)
}
pub open spec fn drops(s: Seq<geo::Point>, t: Seq<geo::Point>, limit: int) -> bool { exists|i: int| #[trigger] may_drop(s, limit, i) && t == s.remove(i) }
/// Dropping points one after the other.
pub open spec fn step_at(h: Seq<Seq<geo::Point>>, k: int, limit: int) -> bool { drops(h[k - 1], h[k], limit) }
pub open spec fn history(h: Seq<Seq<geo::Point>>, s: Seq<geo::Point>, limit: int) -> bool {
    h.len() > 0 && h[0] == s && forall|k: int| #![trigger step_at(h, k, limit)] 0 < k < h.len() ==> step_at(h, k, limit)
}
/// No interior point's triangle is below the limit.
pub open spec fn done(s: Seq<geo::Point>, limit: int) -> bool { forall|j: int| #![trigger tri_at(s, j)] 0 < j < s.len() - 1 ==> tri_at(s, j) >= limit }
pub open spec fn reduced_by(h: Seq<Seq<geo::Point>>, s: Seq<geo::Point>, limit: int, t: Seq<geo::Point>) -> bool { history(h, s, limit) && t == h.last() && done(t, limit) }
pub open spec fn reduced(s: Seq<geo::Point>, limit: int, t: Seq<geo::Point>) -> bool { exists|h: Seq<Seq<geo::Point>>| #[trigger] reduced_by(h, s, limit, t) }
pub proof fn lemma_longer(h: Seq<Seq<geo::Point>>, s: Seq<geo::Point>, limit: int, t: Seq<geo::Point>)
    requires history(h, s, limit), drops(h.last(), t, limit)
    ensures history(h.push(t), s, limit)
{
    let h2 = h.push(t);
    assert forall|k: int| #![trigger step_at(h2, k, limit)] 0 < k < h2.len() implies step_at(h2, k, limit) by { if k < h.len() { assert(step_at(h, k, limit)); } }
}
/// A subsequence with the same ends.
pub open spec fn picks(ix: Seq<int>, s: Seq<geo::Point>, r: Seq<geo::Point>) -> bool {
    &&& ix.len() == r.len() && ix.len() >= 2 && ix[0] == 0 && ix.last() == s.len() - 1
    &&& forall|i: int, j: int| #![trigger ix[i], ix[j]] 0 <= i < j < ix.len() ==> ix[i] < ix[j]
    &&& forall|i: int| #![trigger ix[i]] 0 <= i < ix.len() ==> 0 <= ix[i] < s.len() && r[i] == s[ix[i]]
}
pub open spec fn subseq_same_ends(s: Seq<geo::Point>, r: Seq<geo::Point>) -> bool { exists|ix: Seq<int>| #[trigger] picks(ix, s, r) }
pub open spec fn closed(s: Seq<geo::Point>) -> bool { s[0] == s.last() }
/// The rule, with the exception for rings.
pub open spec fn simplified(s: Seq<geo::Point>, limit: int, r: Seq<geo::Point>) -> bool {
    reduced(s, limit, r) || (closed(s) && r.len() == 4 && exists|t: Seq<geo::Point>| #[trigger] reduced(s, limit, t) && t.len() < 4)
}

// ---- the heap's state ----------------------------------------------------------------------------
impl PointHeap {
    pub open spec fn n(&self) -> int { self.points@.len() as int }
    /// The point at place k of the heap.
    pub open spec fn at(&self, k: int) -> int { ptr_ix(self.heap@[k]) }
    pub open spec fn w(&self, k: int) -> u64 { self.points@[self.at(k)].weight }
    pub open spec fn heap_ok(&self) -> bool {
        &&& self.n() >= 2 && self.n() <= max_len() && self.heap@.len() + 2 <= self.n()
        &&& forall|k: int| #![trigger self.heap@[k]] 0 <= k < self.heap@.len() ==> self.heap@[k] == Ptr::At(self.at(k) as usize, 0) && 0 < self.at(k) < self.n() - 1 && self.points@[self.at(k)].heap_index == k
    }
    pub open spec fn in_heap(&self, i: int) -> bool { self.points@[i].heap_index < self.heap@.len() && self.heap@[self.points@[i].heap_index as int] == Ptr::At(i as usize, 0) }
    pub open spec fn live(&self, i: int) -> bool { i == 0 || i == self.n() - 1 || (0 < i < self.n() - 1 && self.in_heap(i)) }
    pub open spec fn ends_ok(&self) -> bool { self.points@[0].previous == Ptr::Null && self.points@[self.n() - 1].next == Ptr::Null }
    pub open spec fn adjacent(&self, a: int, b: int) -> bool { 0 <= a < b < self.n() && self.live(a) && self.live(b) && forall|x: int| a < x < b ==> !#[trigger] self.live(x) }
    /// Point i is linked to the points before and after it.
    pub open spec fn linked(&self, i: int) -> bool {
        let p = self.points@[i];
        p.previous == Ptr::At(ptr_ix(p.previous) as usize, 0) && p.next == Ptr::At(ptr_ix(p.next) as usize, 0) && self.adjacent(ptr_ix(p.previous), i) && self.adjacent(i, ptr_ix(p.next))
    }
    pub open spec fn links_ok(&self) -> bool { self.ends_ok() && forall|i: int| #![trigger self.linked(i)] 0 < i < self.n() - 1 && self.live(i) ==> self.linked(i) }
    pub open spec fn geo(&self) -> Seq<geo::Point> { self.points@.map_values(|p: Point| p.geo_point) }
    pub open spec fn weighed(&self, i: int) -> bool { let p = self.points@[i]; p.weight == tri(self.points@[ptr_ix(p.previous)].geo_point, p.geo_point, self.points@[ptr_ix(p.next)].geo_point) }
    /// Place k is not above its parent.
    pub open spec fn fair(&self, k: int) -> bool { self.w((k - 1) / 2) <= self.w(k) }
    /// The places lo..=end are in heap order.
    pub open spec fn order(&self, lo: int, end: int) -> bool { forall|k: int| #![trigger self.fair(k)] 0 < k <= end && (k - 1) / 2 >= lo ==> self.fair(k) }
    /// ... except that x may be above its children.
    pub open spec fn order_down(&self, lo: int, end: int, x: int) -> bool {
        &&& forall|k: int| #![trigger self.fair(k)] 0 < k <= end && (k - 1) / 2 >= lo && (k - 1) / 2 != x ==> self.fair(k)
        &&& x > 0 && (x - 1) / 2 >= lo ==> forall|k: int| #![trigger self.w(k)] 0 < k <= end && (k - 1) / 2 == x ==> self.w((x - 1) / 2) <= self.w(k)
    }
    /// ... except that x may be below its parent.
    pub open spec fn order_up(&self, end: int, x: int) -> bool {
        &&& forall|k: int| #![trigger self.fair(k)] 0 < k <= end && k != x ==> self.fair(k)
        &&& x > 0 ==> forall|k: int| #![trigger self.w(k)] 0 < k <= end && (k - 1) / 2 == x ==> self.w((x - 1) / 2) <= self.w(k)
    }
    /// Same points but for their places in the heap.
    pub open spec fn same_points(&self, o: Self) -> bool {
        &&& self.n() == o.n()
        &&& forall|i: int| #![trigger self.points@[i]] 0 <= i < self.n() ==> self.points@[i].geo_point == o.points@[i].geo_point && self.points@[i].weight == o.points@[i].weight
                && self.points@[i].next == o.points@[i].next && self.points@[i].previous == o.points@[i].previous
    }
    pub open spec fn same_live(&self, o: Self) -> bool { self.heap@.len() == o.heap@.len() && forall|i: int| #![trigger self.live(i)] 0 <= i < self.n() ==> self.live(i) == o.live(i) }
}
%fn Point::PartialEq::eq
%fn Point::PartialOrd::partial_cmp
%fn Point::Ord::cmp
%fn area2
%ensures r as int == tri(*a, *b, *c), r < u64::MAX,
%at fn_start
    proof { lemma_tri_bound(*a, *b, *c); }
%fn area2::i
%ensures r as int == u as int,
%fn parent
%requires i > 0,
%ensures r as int == (i - 1) / 2,
%fn left_child
%requires i <= max_len(),
%ensures r as int == 2 * i + 1,
%fn PointHeap::swap
%arena self.points
%requires old(self).heap_ok(), a < old(self).heap@.len(), b < old(self).heap@.len(),
%ensures
        final(self).heap_ok(), final(self).same_points(*old(self)), final(self).same_live(*old(self)),
        final(self).heap@ == old(self).heap@.update(a as int, old(self).heap@[b as int]).update(b as int, old(self).heap@[a as int]),
%raw
/// b is a with places x and y swapped.
pub open spec fn swapped(a: PointHeap, b: PointHeap, x: int, y: int) -> bool {
    &&& a.heap_ok() && b.heap_ok() && b.same_points(a) && 0 <= x < a.heap@.len() && 0 <= y < a.heap@.len()
    &&& b.heap@ == a.heap@.update(x, a.heap@[y]).update(y, a.heap@[x])
}
pub proof fn lemma_swapped(a: PointHeap, b: PointHeap, x: int, y: int)
    requires swapped(a, b, x, y)
    ensures forall|k: int| #![trigger a.w(k)] #![trigger b.w(k)] 0 <= k < a.heap@.len() ==> b.w(k) == (if k == x { a.w(y) } else if k == y { a.w(x) } else { a.w(k) })
{
    assert forall|k: int| #![trigger a.w(k)] #![trigger b.w(k)] 0 <= k < a.heap@.len() implies b.w(k) == (if k == x { a.w(y) } else if k == y { a.w(x) } else { a.w(k) }) by {
        let j = if k == x { y } else if k == y { x } else { k };
        assert(b.heap@[k] == a.heap@[j]);
        assert(b.points@[b.at(k)].weight == a.points@[b.at(k)].weight);
    }
}
pub proof fn lemma_swap_down(a: PointHeap, b: PointHeap, lo: int, end: int, x: int, y: int)
    requires swapped(a, b, x, y), a.order_down(lo, end, x), 0 <= x < y <= end < a.heap@.len(), (y - 1) / 2 == x, 0 <= lo <= x,
        a.w(y) <= a.w(x), forall|k: int| #![trigger a.w(k)] 0 < k <= end && (k - 1) / 2 == x ==> a.w(y) <= a.w(k)
    ensures b.order_down(lo, end, y)
{
    lemma_swapped(a, b, x, y);
    assert forall|k: int| #![trigger b.fair(k)] 0 < k <= end && (k - 1) / 2 >= lo && (k - 1) / 2 != y implies b.fair(k) by {
        let p = (k - 1) / 2;
        assert(b.w(p) == b.w(p) && b.w(k) == b.w(k));
        if k == x { } else if p == x { } else { assert(a.fair(k)); }
    }
    assert forall|k: int| #![trigger b.w(k)] 0 < k <= end && (k - 1) / 2 == y implies b.w((y - 1) / 2) <= b.w(k) by { assert(a.fair(k)); }
}
pub proof fn lemma_swap_up(a: PointHeap, b: PointHeap, end: int, x: int, p: int)
    requires swapped(a, b, p, x), a.order_up(end, x), 0 < x <= end < a.heap@.len(), p == (x - 1) / 2, a.w(x) <= a.w(p),
    ensures b.order_up(end, p)
{
    lemma_swapped(a, b, p, x);
    assert forall|k: int| #![trigger b.fair(k)] 0 < k <= end && k != p implies b.fair(k) by {
        let q = (k - 1) / 2;
        assert(b.w(q) == b.w(q) && b.w(k) == b.w(k));
        if k == x { } else if q == x { } else { assert(a.fair(k)); }
    }
    if p > 0 {
        assert(a.fair(p));
        assert forall|k: int| #![trigger b.w(k)] 0 < k <= end && (k - 1) / 2 == p implies b.w((p - 1) / 2) <= b.w(k) by {
            assert(b.w((p - 1) / 2) == a.w((p - 1) / 2));
            if k != x { assert(a.fair(k)); }
        }
    }
}
%fn PointHeap::sift_down
%arena self.points
%requires old(self).heap_ok(), start < old(self).heap@.len(), end < old(self).heap@.len(),
%ensures
        final(self).heap_ok(), final(self).same_points(*old(self)), final(self).same_live(*old(self)),
        forall|lo: int| #[trigger] old(self).order_down(lo, end as int, start as int) && 0 <= lo <= start ==> final(self).order(lo, end as int),
%loop 1
            self.heap_ok(), self.same_points(*old(self)), self.same_live(*old(self)), start <= root < self.heap@.len(), end < self.heap@.len(),
            forall|lo: int| #[trigger] old(self).order_down(lo, end as int, start as int) && 0 <= lo <= start ==> self.order_down(lo, end as int, root as int),
        decreases self.heap@.len() - root,
%at loop1.start
    let ghost h0 = *self; let ghost x = root as int;
%at loop1.end
    proof {
        let y = root as int;
        assert(swapped(h0, *self, x, y));
        assert forall|k: int| #![trigger h0.w(k)] 0 < k <= end && (k - 1) / 2 == x implies h0.w(y) <= h0.w(k) by { assert(k == 2 * x + 1 || k == 2 * x + 2); }
        assert forall|lo: int| #[trigger] old(self).order_down(lo, end as int, start as int) && 0 <= lo <= start implies self.order_down(lo, end as int, root as int) by {
            lemma_swap_down(h0, *self, lo, end as int, x, y);
        }
    }
%fn PointHeap::sift_up
%arena self.points
%requires old(self).heap_ok(), end < old(self).heap@.len(),
%ensures
        final(self).heap_ok(), final(self).same_points(*old(self)), final(self).same_live(*old(self)),
        start == 0 && old(self).order_up(old(self).heap@.len() - 1, end as int) ==> final(self).order(0, final(self).heap@.len() - 1),
%loop 1
            self.heap_ok(), self.same_points(*old(self)), self.same_live(*old(self)), child < self.heap@.len(),
            start == 0 && old(self).order_up(old(self).heap@.len() - 1, end as int) ==> self.order_up(self.heap@.len() - 1, child as int),
        decreases child,
%at loop1.start
    let ghost h0 = *self; let ghost x = child as int;
%at loop1.end
    proof {
        assert(swapped(h0, *self, child as int, x));
        if start == 0 && old(self).order_up(old(self).heap@.len() - 1, end as int) { lemma_swap_up(h0, *self, self.heap@.len() - 1, x, child as int); }
    }
%fn PointHeap::heapify
%requires old(self).heap_ok(),
%ensures final(self).heap_ok(), final(self).same_points(*old(self)), final(self).same_live(*old(self)), final(self).order(0, final(self).heap@.len() - 1),
%loop 1
            self.heap_ok(), self.same_points(*old(self)), self.same_live(*old(self)), start < len, len == self.heap@.len(),
!:          self.order(start + 1, len - 1),
>:          self.order(0, len - 1),
        decreases start,
%at loop1.start
    proof { assert(self.order_down(start as int, len - 1, start as int)); }
%raw
pub proof fn lemma_links_frame(a: PointHeap, b: PointHeap)
    requires a.links_ok(), b.same_points(a), b.same_live(a), a.n() >= 2
    ensures b.links_ok(), forall|i: int| #![trigger a.weighed(i)] #![trigger b.weighed(i)] 0 < i < a.n() - 1 && a.live(i) ==> (a.weighed(i) == b.weighed(i))
{
    assert(b.points@[0].previous == a.points@[0].previous);
    assert(b.points@[b.n() - 1].next == a.points@[a.n() - 1].next);
    assert forall|i: int| #![trigger b.linked(i)] 0 < i < b.n() - 1 && b.live(i) implies b.linked(i) by {
        assert(a.live(i)); assert(a.linked(i));
        let p = ptr_ix(a.points@[i].previous); let c = ptr_ix(a.points@[i].next);
        assert(b.live(p) == a.live(p) && b.live(c) == a.live(c));
        assert forall|x: int| p < x < i implies !#[trigger] b.live(x) by { assert(!a.live(x)); }
        assert forall|x: int| i < x < c implies !#[trigger] b.live(x) by { assert(!a.live(x)); }
    }
    assert forall|i: int| #![trigger a.weighed(i)] #![trigger b.weighed(i)] 0 < i < a.n() - 1 && a.live(i) implies (a.weighed(i) == b.weighed(i)) by {
        assert(a.linked(i));
        let p = ptr_ix(a.points@[i].previous); let c = ptr_ix(a.points@[i].next);
        assert(b.points@[p].geo_point == a.points@[p].geo_point && b.points@[c].geo_point == a.points@[c].geo_point);
        assert(b.points@[i].weight == a.points@[i].weight);
    }
}
/// A live interior point's neighbours are unique.
pub proof fn lemma_adjacent(h: PointHeap, a: int, b: int, x: int, y: int)
    requires h.adjacent(a, b), h.adjacent(x, y)
    ensures (a == x) == (b == y)
{
    if a == x && b < y { assert(!h.live(b)); }
    if a == x && y < b { assert(!h.live(y)); }
    if b == y && a < x { assert(!h.live(x)); }
    if b == y && x < a { assert(!h.live(a)); }
}
/// b is a with point t dropped.
pub open spec fn dropped(a: PointHeap, b: PointHeap, t: int) -> bool {
    &&& b.n() == a.n() && b.heap@.len() == a.heap@.len() - 1 && 0 < t < a.n() - 1 && a.live(t) && !b.live(t)
    &&& forall|i: int| #![trigger b.live(i)] 0 <= i < a.n() && i != t ==> b.live(i) == a.live(i)
    &&& forall|i: int| #![trigger b.points@[i]] 0 <= i < a.n() ==> b.points@[i].geo_point == a.points@[i].geo_point && b.points@[i].weight == a.points@[i].weight
}
/// The weights of the live interior points are right, x and y apart.
pub open spec fn weights_ok(h: PointHeap, x: int, y: int) -> bool { forall|i: int| #![trigger h.weighed(i)] 0 < i < h.n() - 1 && h.live(i) && i != x && i != y ==> h.weighed(i) }
pub proof fn lemma_unlink(a: PointHeap, b: PointHeap, t: int)
    requires
        a.links_ok(), dropped(a, b, t), a.heap_ok(),
        ({ let p = ptr_ix(a.points@[t].previous); let c = ptr_ix(a.points@[t].next);
            forall|i: int| #![trigger b.points@[i]] 0 <= i < a.n() ==> b.points@[i].next == (if i == p { a.points@[t].next } else { a.points@[i].next }) && b.points@[i].previous == (if i == c { a.points@[t].previous } else { a.points@[i].previous }) }),
    ensures b.links_ok(), weights_ok(a, -1, -1) ==> weights_ok(b, ptr_ix(a.points@[t].previous), ptr_ix(a.points@[t].next)), b.points@[t].next == a.points@[t].next, b.points@[t].previous == a.points@[t].previous,
{
    assert(a.linked(t));
    let p = ptr_ix(a.points@[t].previous); let c = ptr_ix(a.points@[t].next);
    assert(b.points@[0].previous == a.points@[0].previous);
    assert(b.points@[a.n() - 1].next == a.points@[a.n() - 1].next);
    assert(a.live(p) && a.live(c) && p < t < c);
    assert forall|i: int| #![trigger b.linked(i)] 0 < i < b.n() - 1 && b.live(i) implies b.linked(i) && (i != p && i != c ==> (a.weighed(i) == b.weighed(i))) by {
        assert(a.live(i)); assert(a.linked(i));
        let q = ptr_ix(a.points@[i].previous); let d = ptr_ix(a.points@[i].next);
        lemma_adjacent(a, q, i, t, c); lemma_adjacent(a, i, d, p, t);
        assert(b.points@[i].next == b.points@[i].next);
        let q2 = if i == c { p } else { q }; let d2 = if i == p { c } else { d };
        assert(b.live(q2) && b.live(d2));
        assert forall|x: int| q2 < x < i implies !#[trigger] b.live(x) by { if x != t { assert(!a.live(x)); } }
        assert forall|x: int| i < x < d2 implies !#[trigger] b.live(x) by { if x != t { assert(!a.live(x)); } }
        assert(b.points@[q].geo_point == a.points@[q].geo_point && b.points@[d].geo_point == a.points@[d].geo_point);
    }
    if weights_ok(a, -1, -1) {
        assert forall|i: int| #![trigger b.weighed(i)] 0 < i < b.n() - 1 && b.live(i) && i != p && i != c implies b.weighed(i) by { assert(a.live(i)); assert(a.weighed(i)); assert(b.linked(i)); }
    }
}
/// The top of the heap is the smallest.
pub proof fn lemma_top(h: PointHeap, k: int)
    requires h.order(0, h.heap@.len() - 1), 0 <= k < h.heap@.len()
    ensures h.w(0) <= h.w(k)
    decreases k
{ if k > 0 { lemma_top(h, (k - 1) / 2); assert(h.fair(k)); } }
/// Heap and links are as they should be.
#[verifier::opaque]
pub open spec fn sound(h: PointHeap) -> bool { h.heap_ok() && h.links_ok() && h.order(0, h.heap@.len() - 1) }
/// b is a but for the weight of point j.
pub open spec fn only_weight(a: PointHeap, b: PointHeap, j: int) -> bool {
    &&& a.n() == b.n()
    &&& forall|i: int| #![trigger b.points@[i]] 0 <= i < a.n() ==> b.points@[i].geo_point == a.points@[i].geo_point && (i != j ==> b.points@[i].weight == a.points@[i].weight)
            && b.points@[i].next == a.points@[i].next && b.points@[i].previous == a.points@[i].previous
}
%fn PointHeap::pop
%arena self.points
%requires old(self).heap@.len() > 0, sound(*old(self)),
%ensures
        sound(*final(self)),
        r == old(self).heap@[0], dropped(*old(self), *final(self), ptr_ix(r)),
        weights_ok(*old(self), -1, -1) ==> weights_ok(*final(self), ptr_ix(final(self).points@[ptr_ix(r)].previous), ptr_ix(final(self).points@[ptr_ix(r)].next)),
        final(self).points@[ptr_ix(r)].next == old(self).points@[ptr_ix(r)].next, final(self).points@[ptr_ix(r)].previous == old(self).points@[ptr_ix(r)].previous,
%at fn_start
    let ghost mut h1 = *self; let ghost mut h2 = *self; let ghost t = self.at(0);
    proof { reveal(sound); assert(self.heap@[0] == self.heap@[0]); assert(self.live(t)); assert(self.linked(t)); }
%at call sift_down 1
    proof {
        h1 = *self;
        assert forall|k: int| #![trigger self.heap@[k]] 0 <= k < self.heap@.len() implies self.heap@[k] == Ptr::At(self.at(k) as usize, 0) && 0 < self.at(k) < self.n() - 1 && self.points@[self.at(k)].heap_index == k by {
            assert(old(self).heap@[if k == 0 { len - 1 } else { k }] == self.heap@[k]);
        }
        assert forall|k: int| #![trigger self.fair(k)] 0 < k <= len - 2 && (k - 1) / 2 >= 0 && (k - 1) / 2 != 0 implies self.fair(k) by {
            assert(old(self).fair(k));
            let p = (k - 1) / 2;
            assert(self.heap@[k] == old(self).heap@[k] && self.heap@[p] == old(self).heap@[p]);
        }
        assert(self.order_down(0, len - 2, 0));
    }
%at after sift_down 1
    proof { h2 = *self; }
%at fn_end
    proof {
        if len > 1 {
            assert forall|i: int| #![trigger self.live(i)] 0 <= i < self.n() && i != t implies self.live(i) == old(self).live(i) by {
                assert(h2.live(i) == h1.live(i));
                assert(self.points@[i].heap_index == h2.points@[i].heap_index);
                if 0 < i < self.n() - 1 {
                    assert(h1.live(i) == old(self).live(i)) by {
                        let k = old(self).points@[i].heap_index as int;
                        if old(self).live(i) { assert(old(self).heap@[k] == Ptr::At(i as usize, 0)); assert(k == 0 ==> i == t); assert(h1.heap@[if k == len - 1 { 0 } else { k }] == Ptr::At(i as usize, 0)); }
                        if h1.live(i) { let j = h1.points@[i].heap_index as int; assert(h1.heap@[j] == Ptr::At(i as usize, 0)); assert(old(self).heap@[if j == 0 { len - 1 } else { j }] == Ptr::At(i as usize, 0)); }
                    }
                }
            }
            assert(!h1.live(t)); assert(h2.live(t) == h1.live(t));
            assert forall|k: int| #![trigger self.fair(k)] 0 < k <= len - 2 implies self.fair(k) by {
                assert(h2.fair(k));
                assert(h2.heap@[k] == self.heap@[k] && h2.heap@[(k - 1) / 2] == self.heap@[(k - 1) / 2]);
            }
            lemma_unlink(*old(self), *self, t);
        } else {
            assert forall|i: int| #![trigger self.live(i)] 0 < i < self.n() - 1 implies !self.live(i) && (i != t ==> !old(self).live(i)) by { }
        }
    }
%raw
/// b is a with another weight for point j.
pub proof fn lemma_reweighed(a: PointHeap, b: PointHeap, j: int)
    requires a.heap_ok(), a.links_ok(), 0 < j < a.n() - 1, a.live(j), b.heap@ == a.heap@, b.n() == a.n(),
        forall|i: int| #![trigger b.points@[i]] 0 <= i < a.n() ==> b.points@[i].geo_point == a.points@[i].geo_point && (i != j ==> b.points@[i].weight == a.points@[i].weight)
            && b.points@[i].next == a.points@[i].next && b.points@[i].previous == a.points@[i].previous && b.points@[i].heap_index == a.points@[i].heap_index,
    ensures b.heap_ok(), b.links_ok(), b.same_live(a), b.points@[j].heap_index < b.heap@.len(),
        forall|k: int| #![trigger a.w(k)] #![trigger b.w(k)] 0 <= k < a.heap@.len() && k != a.points@[j].heap_index ==> b.w(k) == a.w(k),
        b.w(a.points@[j].heap_index as int) == b.points@[j].weight, a.w(a.points@[j].heap_index as int) == a.points@[j].weight,
{
    assert forall|i: int| #![trigger b.live(i)] 0 <= i < a.n() implies b.live(i) == a.live(i) by { assert(b.points@[i].heap_index == a.points@[i].heap_index); }
    assert forall|k: int| #![trigger b.heap@[k]] 0 <= k < b.heap@.len() implies b.heap@[k] == Ptr::At(b.at(k) as usize, 0) && 0 < b.at(k) < b.n() - 1 && b.points@[b.at(k)].heap_index == k by { assert(a.heap@[k] == b.heap@[k]); }
    assert forall|k: int| #![trigger a.w(k)] #![trigger b.w(k)] 0 <= k < a.heap@.len() && k != a.points@[j].heap_index implies b.w(k) == a.w(k) by {
        assert(a.heap@[k] == b.heap@[k]); assert(b.points@[b.at(k)].heap_index == k);
    }
    assert(b.points@[0].previous == a.points@[0].previous);
    assert(b.points@[b.n() - 1].next == a.points@[a.n() - 1].next);
    assert forall|i: int| #![trigger b.linked(i)] 0 < i < b.n() - 1 && b.live(i) implies b.linked(i) by {
        assert(a.live(i)); assert(a.linked(i));
        let p = ptr_ix(a.points@[i].previous); let c = ptr_ix(a.points@[i].next);
        assert(b.live(p) == a.live(p) && b.live(c) == a.live(c));
        assert(b.points@[i].next == a.points@[i].next);
        assert forall|x: int| p < x < i implies !#[trigger] b.live(x) by { assert(!a.live(x)); }
        assert forall|x: int| i < x < c implies !#[trigger] b.live(x) by { assert(!a.live(x)); }
    }
}
%fn PointHeap::recalculate_point_weight
%arena self.points
%requires
        sound(*old(self)),
        point_ptr == Ptr::At(ptr_ix(point_ptr) as usize, 0), 0 <= ptr_ix(point_ptr) < old(self).n(), old(self).live(ptr_ix(point_ptr)),
%ensures
        sound(*final(self)), final(self).same_live(*old(self)), only_weight(*old(self), *final(self), ptr_ix(point_ptr)),
        0 < ptr_ix(point_ptr) < old(self).n() - 1 ==> final(self).weighed(ptr_ix(point_ptr)),
        ptr_ix(point_ptr) == 0 || ptr_ix(point_ptr) == old(self).n() - 1 ==> final(self).points@[ptr_ix(point_ptr)].weight == old(self).points@[ptr_ix(point_ptr)].weight,
%at fn_start
    let ghost mut h1 = *self; let ghost j = ptr_ix(point_ptr);
    proof { reveal(sound); if 0 < j < self.n() - 1 { assert(self.linked(j)); } }
%at call sift_up 1
    proof {
        h1 = *self;
        lemma_reweighed(*old(self), h1, j);
        let x = h1.points@[j].heap_index as int;
        assert forall|k: int| #![trigger h1.fair(k)] 0 < k < h1.heap@.len() && k != x implies h1.fair(k) by { assert(old(self).fair(k)); }
        if x > 0 { assert forall|k: int| #![trigger h1.w(k)] 0 < k < h1.heap@.len() && (k - 1) / 2 == x implies h1.w((x - 1) / 2) <= h1.w(k) by { assert(old(self).fair(k)); assert(old(self).fair(x)); } }
        assert(h1.order_up(h1.heap@.len() - 1, x));
    }
%at call sift_down 1
    proof {
        h1 = *self;
        lemma_reweighed(*old(self), h1, j);
        let x = h1.points@[j].heap_index as int;
        assert forall|k: int| #![trigger h1.fair(k)] 0 < k < h1.heap@.len() && (k - 1) / 2 != x implies h1.fair(k) by { assert(old(self).fair(k)); }
        if x > 0 { assert forall|k: int| #![trigger h1.w(k)] 0 < k < h1.heap@.len() && (k - 1) / 2 == x implies h1.w((x - 1) / 2) <= h1.w(k) by { assert(old(self).fair(k)); assert(old(self).fair(x)); } }
        assert(h1.order_down(0, h1.heap@.len() - 1, x));
    }
%at fn_end
    proof {
        if *self != *old(self) {
            lemma_links_frame(h1, *self);
            assert(h1.live(j));
            assert(h1.weighed(j) == self.weighed(j));
        }
    }
%raw
/// A fresh heap for the points s.
#[verifier::opaque]
pub open spec fn fresh(h: PointHeap, s: Seq<geo::Point>) -> bool {
    &&& h.heap_ok() && h.links_ok() && h.geo() == s && weights_ok(h, -1, -1) && h.heap@.len() == h.n() - 2
    &&& forall|i: int| #![trigger h.live(i)] 0 <= i < h.n() ==> h.live(i)
    &&& h.points@[0].weight == u64::MAX && h.points@[h.n() - 1].weight == u64::MAX
}
%fn PointHeap::from
%arena points
%requires vec@.len() >= 2, vec@.len() <= max_len(), closed(vec@) ==> vec@.len() >= 4,
%ensures fresh(r, vec@), r.order(0, r.heap@.len() - 1),
%loop 1
            __n1 == __s1.len(), __c1@.len() == __k1,
            forall|i: int| #![trigger __c1@[i]] 0 <= i < __k1 ==> __c1@[i] == (Point { geo_point: __s1[i], heap_index: 0, weight: 0, next: Ptr::Null, previous: Ptr::Null }),
%at loop1.end
    proof { assert(__x1 == __s1[__i1 as int]); }
%loop 2
            __n2 == len - 2, len >= 2, len <= max_len(), points@.len() == len, s0.len() == len,
            forall|i: int| #![trigger points@[i]] 0 <= i < len ==> points@[i].geo_point == s0[i],
            points@[0].previous == Ptr::Null, points@[len - 1].next == Ptr::Null, points@[0].weight == u64::MAX, points@[len - 1].weight == u64::MAX,
            forall|i: int| #![trigger points@[i]] 0 < i <= __k2 ==> points@[i].heap_index == i - 1 && points@[i].previous == Ptr::At((i - 1) as usize, 0) && points@[i].next == Ptr::At((i + 1) as usize, 0)
                && points@[i].weight == tri(s0[i - 1], s0[i], s0[i + 1]),
%at fn_start
    let ghost s0 = vec@;
%loop 3
            __n3 == len - 2, len >= 2, points@.len() == len, __c3@.len() == __k3,
            forall|i: int| #![trigger __c3@[i]] 0 <= i < __k3 ==> __c3@[i] == Ptr::At((i + 1) as usize, 0),
%at call heapify 1
    let ghost h1 = ret;
    proof {
        assert forall|k: int| #![trigger h1.heap@[k]] 0 <= k < h1.heap@.len() implies h1.heap@[k] == Ptr::At(h1.at(k) as usize, 0) && 0 < h1.at(k) < h1.n() - 1 && h1.points@[h1.at(k)].heap_index == k by { }
        assert forall|i: int| #![trigger h1.live(i)] 0 <= i < h1.n() implies h1.live(i) by { if 0 < i < h1.n() - 1 { assert(h1.heap@[i - 1] == Ptr::At(i as usize, 0)); } }
        assert forall|i: int| #![trigger h1.linked(i)] 0 < i < h1.n() - 1 && h1.live(i) implies h1.linked(i) by { assert(h1.live(i - 1) && h1.live(i + 1)); }
        assert forall|i: int| #![trigger h1.weighed(i)] 0 < i < h1.n() - 1 implies h1.weighed(i) by { assert(h1.points@[i - 1].geo_point == s0[i - 1] && h1.points@[i + 1].geo_point == s0[i + 1]); }
        assert(h1.links_ok());
    }
%at after heapify 1
    proof {
        reveal(fresh);
        lemma_links_frame(h1, ret);
        assert(ret.geo() =~= s0);
        assert forall|i: int| #![trigger ret.live(i)] 0 <= i < ret.n() implies ret.live(i) by { assert(h1.live(i)); }
        assert forall|i: int| #![trigger ret.weighed(i)] 0 < i < ret.n() - 1 implies ret.weighed(i) by { assert(h1.weighed(i)); }
        assert(ret.points@[0].weight == h1.points@[0].weight && ret.points@[ret.n() - 1].weight == h1.points@[ret.n() - 1].weight);
    }
%raw
/// ix are the points still there, in order.
pub open spec fn lists(ix: Seq<int>, h: PointHeap) -> bool {
    &&& forall|i: int, j: int| #![trigger ix[i], ix[j]] 0 <= i < j < ix.len() ==> ix[i] < ix[j]
    &&& forall|k: int| #![trigger ix[k]] 0 <= k < ix.len() ==> 0 <= ix[k] < h.n() && h.live(ix[k])
    &&& forall|i: int| #![trigger h.live(i)] 0 <= i < h.n() && h.live(i) ==> ix.contains(i)
}
pub open spec fn picked(s: Seq<geo::Point>, ix: Seq<int>) -> Seq<geo::Point> { Seq::new(ix.len(), |k: int| s[ix[k]]) }
pub proof fn lemma_ends(ix: Seq<int>, h: PointHeap)
    requires lists(ix, h), h.n() >= 2
    ensures ix.len() >= 2, ix[0] == 0, ix.last() == h.n() - 1
{
    assert(h.live(0) && h.live(h.n() - 1));
    assert(ix.contains(0) && ix.contains(h.n() - 1));
    let a = choose|k: int| 0 <= k < ix.len() && ix[k] == 0;
    let b = choose|k: int| 0 <= k < ix.len() && ix[k] == h.n() - 1;
    if a > 0 { assert(ix[0] < ix[a]); }
    if b < ix.len() - 1 { assert(ix[b] < ix[ix.len() - 1]); }
}
/// The points before and after a point are those it is linked to.
pub proof fn lemma_around(ix: Seq<int>, h: PointHeap, k: int)
    requires lists(ix, h), h.links_ok(), h.n() >= 2, 0 < k < ix.len() - 1
    ensures 0 < ix[k] < h.n() - 1, h.live(ix[k]), ptr_ix(h.points@[ix[k]].previous) == ix[k - 1], ptr_ix(h.points@[ix[k]].next) == ix[k + 1]
{
    lemma_ends(ix, h);
    let t = ix[k];
    assert(ix[0] < ix[k] < ix[ix.len() - 1]);
    assert(h.live(t)); assert(h.linked(t));
    let p = ptr_ix(h.points@[t].previous); let c = ptr_ix(h.points@[t].next);
    assert(ix[k - 1] < ix[k] < ix[k + 1]);
    assert(h.live(ix[k - 1]) && h.live(ix[k + 1]));
    assert(ix.contains(p) && ix.contains(c));
    let a = choose|q: int| 0 <= q < ix.len() && ix[q] == p;
    let b = choose|q: int| 0 <= q < ix.len() && ix[q] == c;
    assert(!(p < ix[k - 1])); assert(!(ix[k + 1] < c));
    if a > k - 1 { if a > k { assert(ix[k] < ix[a]); } }
    if a < k - 1 { assert(ix[a] < ix[k - 1]); }
    if b < k + 1 { if b < k { assert(ix[b] < ix[k]); } }
    if b > k + 1 { assert(ix[k + 1] < ix[b]); }
}
pub proof fn lemma_tri_at(ix: Seq<int>, h: PointHeap, s: Seq<geo::Point>, k: int)
    requires lists(ix, h), h.heap_ok(), h.links_ok(), s == h.geo(), weights_ok(h, -1, -1), 0 < k < ix.len() - 1
    ensures tri_at(picked(s, ix), k) == h.points@[ix[k]].weight, 0 < ix[k] < h.n() - 1, h.live(ix[k])
{
    lemma_around(ix, h, k);
    assert(h.weighed(ix[k]));
    assert(0 <= ix[k - 1] < h.n() && 0 <= ix[k + 1] < h.n());
}
pub proof fn lemma_drop_list(ix: Seq<int>, h: PointHeap, b: PointHeap, pos: int)
    requires lists(ix, h), 0 <= pos < ix.len(), dropped(h, b, ix[pos])
    ensures lists(ix.remove(pos), b)
{
    let t = ix[pos];
    let iy = ix.remove(pos);
    assert forall|i: int, j: int| #![trigger iy[i], iy[j]] 0 <= i < j < iy.len() implies iy[i] < iy[j] by { let a = if i < pos { i } else { i + 1 }; let c = if j < pos { j } else { j + 1 }; assert(ix[a] < ix[c]); }
    assert forall|k: int| #![trigger iy[k]] 0 <= k < iy.len() implies 0 <= iy[k] < b.n() && b.live(iy[k]) by {
        let a = if k < pos { k } else { k + 1 };
        assert(ix[a] == iy[k]); assert(h.live(ix[a]));
        if a < pos { assert(ix[a] < ix[pos]); } else { assert(ix[pos] < ix[a]); }
        assert(b.live(iy[k]) == h.live(iy[k]));
    }
    assert forall|i: int| #![trigger b.live(i)] 0 <= i < b.n() && b.live(i) implies iy.contains(i) by {
        assert(i != t); assert(h.live(i)); assert(ix.contains(i));
        let a = choose|q: int| 0 <= q < ix.len() && ix[q] == i;
        assert(iy[if a < pos { a } else { a - 1 }] == i);
    }
}
/// Dropping the top of the heap is a step of the rule.
pub proof fn lemma_drop(ix: Seq<int>, h: PointHeap, s: Seq<geo::Point>, limit: int, b: PointHeap) -> (pos: int)
    requires lists(ix, h), h.heap_ok(), h.links_ok(), s == h.geo(), weights_ok(h, -1, -1), h.order(0, h.heap@.len() - 1), h.heap@.len() > 0, h.points@[h.at(0)].weight < limit, dropped(h, b, h.at(0)),
    ensures 0 < pos < ix.len() - 1, ix[pos] == h.at(0), lists(ix.remove(pos), b), may_drop(picked(s, ix), limit, pos), picked(s, ix.remove(pos)) == picked(s, ix).remove(pos), drops(picked(s, ix), picked(s, ix.remove(pos)), limit)
{
    let t = h.at(0);
    assert(h.heap@[0] == h.heap@[0]);
    assert(h.live(t));
    let pos = choose|q: int| 0 <= q < ix.len() && ix[q] == t;
    assert(ix.contains(t));
    lemma_ends(ix, h);
    lemma_tri_at(ix, h, s, pos);
    assert forall|j: int| #![trigger tri_at(picked(s, ix), j)] 0 < j < picked(s, ix).len() - 1 implies tri_at(picked(s, ix), pos) <= tri_at(picked(s, ix), j) by {
        lemma_tri_at(ix, h, s, j);
        lemma_heap_min(h, ix[j]);
    }
    let iy = ix.remove(pos);
    lemma_drop_list(ix, h, b, pos);
    assert(picked(s, iy) =~= picked(s, ix).remove(pos));
    assert(may_drop(picked(s, ix), limit, pos));
    assert(drops(picked(s, ix), picked(s, iy), limit));
    pos
}
pub proof fn lemma_heap_min(h: PointHeap, i: int)
    requires h.heap_ok(), h.order(0, h.heap@.len() - 1), 0 < i < h.n() - 1, h.live(i)
    ensures h.heap@.len() > 0, h.points@[h.at(0)].weight <= h.points@[i].weight
{ lemma_top(h, h.points@[i].heap_index as int); }
/// b is a but for point j's weight (and places in the heap).
pub proof fn lemma_weights(a: PointHeap, b: PointHeap, j: int, x: int, y: int)
    requires a.links_ok(), a.heap_ok(), b.n() == a.n(), b.same_live(a), weights_ok(a, x, y), 0 <= j < a.n(),
        forall|i: int| #![trigger b.points@[i]] 0 <= i < a.n() ==> b.points@[i].geo_point == a.points@[i].geo_point && (i != j ==> b.points@[i].weight == a.points@[i].weight)
            && b.points@[i].next == a.points@[i].next && b.points@[i].previous == a.points@[i].previous,
    ensures b.geo() == a.geo(), !a.live(j) ==> weights_ok(b, x, y), j == x && (0 < j < a.n() - 1 ==> b.weighed(j)) ==> weights_ok(b, -1, y), j == y && x == -1 && (0 < j < a.n() - 1 ==> b.weighed(j)) ==> weights_ok(b, -1, -1)
{
    assert(b.geo() =~= a.geo());
    assert forall|i: int| #![trigger b.weighed(i)] 0 < i < b.n() - 1 && b.live(i) && i != j implies b.weighed(i) == a.weighed(i) by {
        assert(a.live(i)); assert(a.linked(i));
        let p = ptr_ix(a.points@[i].previous); let c = ptr_ix(a.points@[i].next);
        assert(b.points@[p].geo_point == a.points@[p].geo_point && b.points@[c].geo_point == a.points@[c].geo_point);
        assert(b.points@[i].weight == a.points@[i].weight);
    }
    assert forall|i: int| #![trigger b.weighed(i)] 0 < i < b.n() - 1 && b.live(i) && i != j && i != x && i != y implies b.weighed(i) by { assert(b.live(i) == a.live(i)); assert(a.weighed(i)); }
    assert(b.live(j) == a.live(j));
}
/// b is a with another weight for a point that is gone.
pub proof fn lemma_gone(a: PointHeap, b: PointHeap, t: int)
    requires sound(a), 0 < t < a.n() - 1, !a.live(t), b.heap@ == a.heap@, b.n() == a.n(),
        forall|i: int| #![trigger b.points@[i]] 0 <= i < a.n() ==> b.points@[i].geo_point == a.points@[i].geo_point && (i != t ==> b.points@[i].weight == a.points@[i].weight)
            && b.points@[i].next == a.points@[i].next && b.points@[i].previous == a.points@[i].previous && b.points@[i].heap_index == a.points@[i].heap_index,
    ensures sound(b), b.same_live(a), !b.live(t)
{
    reveal(sound);
    assert forall|i: int| #![trigger b.live(i)] 0 <= i < a.n() implies b.live(i) == a.live(i) by { assert(b.points@[i].heap_index == a.points@[i].heap_index); }
    assert forall|k: int| #![trigger b.heap@[k]] 0 <= k < b.heap@.len() implies b.heap@[k] == Ptr::At(b.at(k) as usize, 0) && 0 < b.at(k) < b.n() - 1 && b.points@[b.at(k)].heap_index == k && b.at(k) != t by {
        assert(a.heap@[k] == b.heap@[k]); assert(b.at(k) == a.at(k)); assert(a.live(a.at(k))); assert(b.points@[b.at(k)].heap_index == a.points@[a.at(k)].heap_index);
    }
    assert forall|k: int| #![trigger b.fair(k)] 0 < k < b.heap@.len() implies b.fair(k) by {
        assert(a.fair(k));
        assert(b.heap@[k] == a.heap@[k] && b.heap@[(k - 1) / 2] == a.heap@[(k - 1) / 2]);
    }
    assert(b.points@[0].previous == a.points@[0].previous);
    assert(b.points@[b.n() - 1].next == a.points@[a.n() - 1].next);
    assert forall|i: int| #![trigger b.linked(i)] 0 < i < b.n() - 1 && b.live(i) implies b.linked(i) by {
        assert(a.live(i)); assert(a.linked(i));
        let p = ptr_ix(a.points@[i].previous); let c = ptr_ix(a.points@[i].next);
        assert(b.live(p) == a.live(p) && b.live(c) == a.live(c));
        assert(b.points@[i].next == a.points@[i].next);
        assert forall|x: int| p < x < i implies !#[trigger] b.live(x) by { assert(!a.live(x)); }
        assert forall|x: int| i < x < c implies !#[trigger] b.live(x) by { assert(!a.live(x)); }
    }
}
/// The points to be kept are those in ix.
#[verifier::opaque]
pub open spec fn kept(ix: Seq<int>, h: PointHeap, limit: u64) -> bool {
    &&& forall|i: int| #![trigger h.points@[i]] 0 <= i < h.n() ==> (h.points@[i].weight >= limit) == ix.contains(i)
    &&& forall|i: int, j: int| #![trigger ix[i], ix[j]] 0 <= i < j < ix.len() ==> ix[i] < ix[j]
    &&& forall|k: int| #![trigger ix[k]] 0 <= k < ix.len() ==> 0 <= ix[k] < h.n()
    &&& ix.len() >= 2 && ix[0] == 0 && ix.last() == h.n() - 1
}
/// Points that are gone have a weight below the limit, ends have the greatest.
pub open spec fn gone_below(h: PointHeap, limit: u64) -> bool {
    &&& forall|i: int| #![trigger h.live(i)] 0 < i < h.n() - 1 && !h.live(i) ==> h.points@[i].weight < limit
    &&& h.points@[0].weight == u64::MAX && h.points@[h.n() - 1].weight == u64::MAX
}
pub proof fn lemma_stop(ix: Seq<int>, h: PointHeap, s: Seq<geo::Point>, limit: u64)
    requires lists(ix, h), h.heap_ok(), h.links_ok(), s == h.geo(), weights_ok(h, -1, -1), h.order(0, h.heap@.len() - 1), h.heap@.len() == 0 || h.points@[h.at(0)].weight >= limit, gone_below(h, limit),
    ensures kept(ix, h, limit), done(picked(s, ix), limit as int)
{
    reveal(kept);
    lemma_ends(ix, h);
    assert forall|i: int| #![trigger h.points@[i]] 0 <= i < h.n() implies (h.points@[i].weight >= limit) == ix.contains(i) by {
        if h.live(i) { assert(ix.contains(i)); if 0 < i < h.n() - 1 { lemma_heap_min(h, i); } }
        else if ix.contains(i) { let k = choose|q: int| 0 <= q < ix.len() && ix[q] == i; assert(h.live(ix[k])); }
    }
    assert forall|j: int| #![trigger tri_at(picked(s, ix), j)] 0 < j < picked(s, ix).len() - 1 implies tri_at(picked(s, ix), j) >= limit by {
        lemma_tri_at(ix, h, s, j); lemma_heap_min(h, ix[j]);
    }
}
/// The state before each round.
#[verifier::opaque]
pub open spec fn going(h: PointHeap, ix: Seq<int>, s: Seq<geo::Point>, limit: u64) -> bool {
    &&& h.geo() == s && h.heap_ok() && h.links_ok() && h.order(0, h.heap@.len() - 1) && weights_ok(h, -1, -1) && lists(ix, h) && gone_below(h, limit)
}
pub open spec fn popped(h: PointHeap, hp: PointHeap, t: int, p: int, c: int) -> bool {
    &&& dropped(h, hp, t) && sound(hp)
    &&& hp.points@[t].previous == h.points@[t].previous && hp.points@[t].next == h.points@[t].next && hp.points@[t].weight == h.points@[t].weight && hp.geo() == h.geo()
    &&& p == ptr_ix(h.points@[t].previous) && c == ptr_ix(h.points@[t].next)
    &&& h.points@[t].previous == Ptr::At(p as usize, 0) && h.points@[t].next == Ptr::At(c as usize, 0) && 0 <= p < t < c < h.n() && hp.live(p) && hp.live(c) && !hp.live(t)
    &&& weights_ok(hp, p, c)
}
pub proof fn lemma_popped(h: PointHeap, ix: Seq<int>, s: Seq<geo::Point>, limit: u64, hp: PointHeap)
    requires going(h, ix, s, limit), h.heap@.len() > 0, dropped(h, hp, h.at(0)), sound(hp),
        hp.points@[h.at(0)].previous == h.points@[h.at(0)].previous, hp.points@[h.at(0)].next == h.points@[h.at(0)].next,
        weights_ok(h, -1, -1) ==> weights_ok(hp, ptr_ix(hp.points@[h.at(0)].previous), ptr_ix(hp.points@[h.at(0)].next)),
    ensures popped(h, hp, h.at(0), ptr_ix(h.points@[h.at(0)].previous), ptr_ix(h.points@[h.at(0)].next)),
        h.points@[h.at(0)].weight >= limit ==> kept(ix, hp, limit) && done(picked(s, ix), limit as int),
{
    reveal(going); reveal(sound);
    let t = h.at(0);
    assert(h.heap@[0] == h.heap@[0]); assert(h.live(t)); assert(h.linked(t));
    let p = ptr_ix(h.points@[t].previous); let c = ptr_ix(h.points@[t].next);
    assert(hp.live(p) && hp.live(c));
    assert(hp.geo() =~= h.geo());
    if h.points@[t].weight >= limit {
        lemma_stop(ix, h, s, limit);
        reveal(kept);
    }
}
pub proof fn lemma_round(h: PointHeap, ix: Seq<int>, s: Seq<geo::Point>, limit: u64, hp: PointHeap, h2: PointHeap, h3: PointHeap, b: PointHeap, p: int, c: int, tr: Seq<Seq<geo::Point>>) -> (pos: int)
    requires going(h, ix, s, limit), h.heap@.len() > 0, popped(h, hp, h.at(0), p, c), h.points@[h.at(0)].weight < limit, h2.points@[h.at(0)].weight < limit,
        h2.same_live(hp), only_weight(hp, h2, h.at(0)), sound(h2),
        h3.same_live(h2), only_weight(h2, h3, p), sound(h3), 0 < p ==> h3.weighed(p), p == 0 ==> h3.points@[p].weight == h2.points@[p].weight,
        b.same_live(h3), only_weight(h3, b, c), sound(b), c < h.n() - 1 ==> b.weighed(c), c == h.n() - 1 ==> b.points@[c].weight == h3.points@[c].weight,
        history(tr, s, limit as int), tr.last() == picked(s, ix),
    ensures going(b, ix.remove(pos), s, limit), history(tr.push(picked(s, ix.remove(pos))), s, limit as int), b.heap@.len() < h.heap@.len(),
{
    reveal(going); reveal(sound);
    let t = h.at(0);
    lemma_weights(hp, h2, t, p, c);
    assert(h2.live(p) == hp.live(p) && h2.live(c) == hp.live(c) && h3.live(c) == h2.live(c));
    lemma_weights(h2, h3, p, p, c);
    lemma_weights(h3, b, c, -1, c);
    assert forall|i: int| #![trigger b.live(i)] 0 <= i < b.n() implies b.live(i) == hp.live(i) by { assert(b.live(i) == h3.live(i)); assert(h3.live(i) == h2.live(i)); assert(h2.live(i) == hp.live(i)); }
    let pos = lemma_drop(ix, h, s, limit as int, hp);
    let iy = ix.remove(pos);
    assert(lists(iy, b)) by {
        assert forall|k: int| #![trigger iy[k]] 0 <= k < iy.len() implies 0 <= iy[k] < b.n() && b.live(iy[k]) by { assert(hp.live(iy[k])); assert(b.live(iy[k]) == hp.live(iy[k])); }
        assert forall|i: int| #![trigger b.live(i)] 0 <= i < b.n() && b.live(i) implies iy.contains(i) by { assert(hp.live(i)); }
    }
    assert forall|i: int| #![trigger b.live(i)] 0 < i < b.n() - 1 && !b.live(i) implies b.points@[i].weight < limit by {
        assert(!hp.live(i));
        if i != t { assert(!h.live(i)) by { assert(hp.live(i) == h.live(i)); } assert(hp.points@[i].weight == h.points@[i].weight); }
        assert(b.points@[i].weight == h3.points@[i].weight); assert(h3.points@[i].weight == h2.points@[i].weight);
        if i != t { assert(h2.points@[i].weight == hp.points@[i].weight); }
    }
    assert(b.points@[0].weight == h.points@[0].weight) by { assert(b.points@[0].weight == h3.points@[0].weight); assert(h3.points@[0].weight == h2.points@[0].weight); assert(h2.points@[0].weight == hp.points@[0].weight); assert(hp.points@[0].weight == h.points@[0].weight); }
    let z = h.n() - 1;
    assert(b.points@[z].weight == h.points@[z].weight) by { assert(b.points@[z].weight == h3.points@[z].weight); assert(h3.points@[z].weight == h2.points@[z].weight); assert(h2.points@[z].weight == hp.points@[z].weight); assert(hp.points@[z].weight == h.points@[z].weight); }
    lemma_longer(tr, s, limit as int, picked(s, iy));
    pos
}
pub proof fn lemma_empty(h: PointHeap, ix: Seq<int>, s: Seq<geo::Point>, limit: u64)
    requires going(h, ix, s, limit)
    ensures h.heap@.len() == 0 ==> kept(ix, h, limit) && done(picked(s, ix), limit as int), h.geo() == s, sound(h), weights_ok(h, -1, -1),
{ reveal(going); reveal(sound); if h.heap@.len() == 0 { lemma_stop(ix, h, s, limit); } }
pub proof fn lemma_begin(h: PointHeap, ix: Seq<int>, s: Seq<geo::Point>, limit: u64)
    requires fresh(h, s), h.order(0, h.heap@.len() - 1), ix == Seq::new(h.n() as nat, |i: int| i),
    ensures going(h, ix, s, limit), picked(s, ix) == s, 2 <= h.n() <= max_len(), h.heap@.len() == 0 ==> kept(ix, h, limit) && done(picked(s, ix), limit as int), history(seq![s], s, limit as int),
{
    reveal(fresh);
    assert(picked(s, ix) =~= s);
    assert forall|i: int| #![trigger h.live(i)] 0 <= i < h.n() && h.live(i) implies ix.contains(i) by { assert(ix[i] == i); }
    reveal(going);
    lemma_empty(h, ix, s, limit);
}
/// Collecting the points to be kept: m of them are before k.
pub open spec fn collected(ix: Seq<int>, m: int, k: int) -> bool { 0 <= m <= ix.len() && (m > 0 ==> ix[m - 1] < k) && (m < ix.len() ==> ix[m] >= k) }
pub proof fn lemma_collect(ix: Seq<int>, h: PointHeap, limit: u64, s: Seq<geo::Point>, m: int, k: int)
    requires kept(ix, h, limit), s == h.geo(), collected(ix, m, k), 0 <= k < h.n()
    ensures
        h.points@[k].geo_point == s[k],
        h.points@[k].weight >= limit ==> collected(ix, m + 1, k + 1) && picked(s, ix.take(m + 1)) == picked(s, ix.take(m)).push(s[k]),
        h.points@[k].weight < limit ==> collected(ix, m, k + 1),
{
    reveal(kept);
    assert((h.points@[k].weight >= limit) == ix.contains(k));
    if ix.contains(k) {
        let q = choose|q: int| 0 <= q < ix.len() && ix[q] == k;
        if q < m { if q < m - 1 { assert(ix[q] < ix[m - 1]); } } else if q > m { assert(ix[m] < ix[q]); }
        assert(q == m);
        assert(picked(s, ix.take(m + 1)) =~= picked(s, ix.take(m)).push(s[k]));
        if m + 1 < ix.len() { assert(ix[m] < ix[m + 1]); }
    }
}
pub proof fn lemma_all_kept(ix: Seq<int>, h: PointHeap, limit: u64, s: Seq<geo::Point>, m: int)
    requires kept(ix, h, limit), s == h.geo(), collected(ix, m, h.n())
    ensures m == ix.len(), ix.take(m) == ix, picks(ix, s, picked(s, ix))
{
    reveal(kept);
    if m < ix.len() { assert(0 <= ix[m] < h.n()); }
    assert(ix.take(ix.len() as int) =~= ix);
}
pub proof fn lemma_collected(ix: Seq<int>, h: PointHeap, limit: u64, s: Seq<geo::Point>, m: int, tr: Seq<Seq<geo::Point>>)
    requires kept(ix, h, limit), s == h.geo(), collected(ix, m, h.n()), history(tr, s, limit as int), tr.last() == picked(s, ix), done(picked(s, ix), limit as int), h.n() >= 2,
    ensures ({ let r = picked(s, ix.take(m)); reduced(s, limit as int, r) && subseq_same_ends(s, r) && r.len() >= 2 && r[0] == s[0] && r.last() == s.last() })
{
    lemma_all_kept(ix, h, limit, s, m);
    assert(reduced_by(tr, s, limit as int, picked(s, ix)));
}
pub proof fn lemma_four(h: PointHeap, s: Seq<geo::Point>, lo: int, hi: int, r: Seq<geo::Point>)
    requires s == h.geo(), 0 < lo < hi < h.n() - 1, r =~= seq![h.points@[0].geo_point, h.points@[lo].geo_point, h.points@[hi].geo_point, h.points@[h.n() - 1].geo_point]
    ensures subseq_same_ends(s, r)
{ assert(picks(seq![0int, lo, hi, h.n() - 1], s, r)); }
/// Two different interior points among the first m; flag: the first comes first.
pub open spec fn two(h: PointHeap, m: int, first: Point, second: Point, flag: bool, f: int, g: int) -> bool {
    0 < f < m && 0 < g < m && m <= h.n() - 1 && f != g && first == h.points@[f] && second == h.points@[g] && flag == (f < g)
}
%fn PointHeap::visvalingam_whyatt
%opt isolate
%arena self.points
%requires fresh(*old(self), old(self).geo()), old(self).order(0, old(self).heap@.len() - 1),
    closed(old(self).geo()) ==> old(self).n() >= 4,
%ensures
    simplified(old(self).geo(), smallest_weight as int, r@), //@C09
    subseq_same_ends(old(self).geo(), r@), closed(old(self).geo()) ==> r@.len() >= 4, //@C08
%at fn_start
    let ghost s0 = self.geo();
    let ghost mut ix = Seq::new(self.n() as nat, |i: int| i);
    let ghost mut tr: Seq<Seq<geo::Point>> = seq![s0];
    let ghost mut hp = *self; let ghost mut h2 = *self; let ghost mut h3 = *self; let ghost mut lo: int = 0; let ghost mut hi: int = 0;
    proof {
        lemma_begin(*self, ix, s0, smallest_weight);
    }
%loop 1
            self.n() == old(self).n(), self.geo() == s0, history(tr, s0, smallest_weight as int), tr.last() == picked(s0, ix),
!:          going(*self, ix, s0, smallest_weight), self.heap@.len() == 0 ==> kept(ix, *self, smallest_weight) && done(picked(s0, ix), smallest_weight as int),
            last_weight == 0 || last_weight < smallest_weight,
>:          kept(ix, *self, smallest_weight), done(picked(s0, ix), smallest_weight as int),
        decreases self.heap@.len(),
%at loop1.start
    let ghost h0 = *self; let ghost t = self.at(0); let ghost pp = ptr_ix(h0.points@[t].previous); let ghost cc = ptr_ix(h0.points@[t].next);
    proof { lemma_empty(*self, ix, s0, smallest_weight); }
%at let small_point 1
    proof { hp = *self; lemma_popped(h0, ix, s0, smallest_weight, hp); }
%at call recalculate_point_weight 1
    proof { h2 = *self; lemma_gone(hp, h2, t); assert(h2.live(pp) == hp.live(pp) && h2.live(cc) == hp.live(cc)); }
%at after recalculate_point_weight 1
    proof { h3 = *self; assert(h3.points@[t].next == h2.points@[t].next); assert(h3.live(cc) == h2.live(cc)); }
%at loop1.end
    proof {
        let pos = lemma_round(h0, ix, s0, smallest_weight, hp, h2, h3, *self, pp, cc, tr);
        ix = ix.remove(pos);
        tr = tr.push(picked(s0, ix));
        lemma_empty(*self, ix, s0, smallest_weight);
    }
%at loop2.before
    let ghost mut m: int = 0;
    proof { assert(collected(ix, 0, 0)) by { reveal(kept); } assert(picked(s0, ix.take(0)) =~= Seq::empty()); }
%loop 2
            __n2 == self.points@.len(), kept(ix, *self, smallest_weight), self.geo() == s0, collected(ix, m, __k2 as int),
            __c2@ == picked(s0, ix.take(m)),
%at loop2.end
    proof {
        lemma_collect(ix, *self, smallest_weight, s0, m, __i2 as int);
        if self.points@[__i2 as int].weight >= smallest_weight { m = m + 1; }
    }
%at loop2.after
    proof { lemma_collected(ix, *self, smallest_weight, s0, m, tr); }
%at let is_ring 1
    proof { assert(is_ring ==> closed(s0)); assert(closed(s0) ==> is_ring); }
    let ghost ret0 = ret@;
%loop 3
            two(*self, 3 + __k3, *first, *second, first_has_lower_index, gf, gs), __n3 + 4 == self.n(), self.n() >= 4, self.n() <= max_len(),
%at loop3.end
    proof {
        let m = 2 + __k3;
        let (a, b, c) = (*first, *second, first_has_lower_index);
        if two(*self, m + 1, a, b, c, gf, gs) { }
        else if two(*self, m + 1, a, b, c, gf, m) { gs = m; }
        else if two(*self, m + 1, a, b, c, m, gs) { gf = m; }
        else if two(*self, m + 1, a, b, c, m, gf) { gs = gf; gf = m; }
        else { gf = gs; gs = m; }
    }
%at loop3.before
    let ghost mut gf: int = 1; let ghost mut gs: int = 2;
    proof { if *first != self.points@[1] || !first_has_lower_index { gf = 2; gs = 1; } }
%at loop3.after
    proof { lo = if gf < gs { gf } else { gs }; hi = if gf < gs { gs } else { gf }; }
%at fn_end
    proof {
        if lo > 0 { lemma_four(*self, s0, lo, hi, __ret@); }
    }
%raw
/// What becomes of an edge's points.
pub open spec fn keeps_shape(s: Seq<geo::Point>, r: Seq<geo::Point>) -> bool {
    &&& s.len() <= 2 ==> r == s
    &&& s.len() >= 2 ==> subseq_same_ends(s, r)
    &&& s.len() >= 4 && closed(s) ==> r.len() >= 4
}
/// The rule: removing a point may morph the line by up to and including smallest_area2 (areas are always less than u64::MAX).
pub open spec fn limit(smallest_area2: u64) -> int { if smallest_area2 == u64::MAX { u64::MAX as int } else { smallest_area2 + 1 } }
pub open spec fn follows_rule(s: Seq<geo::Point>, smallest_area2: u64, r: Seq<geo::Point>) -> bool {
    if s.len() <= 2 || (s.len() < 4 && closed(s)) { r == s } else { simplified(s, limit(smallest_area2), r) }
}
pub proof fn lemma_unchanged(s: Seq<geo::Point>, r: Seq<geo::Point>)
    ensures r =~= s ==> r == s && (s.len() >= 2 ==> subseq_same_ends(s, r))
{ if r =~= s && s.len() >= 2 { assert(picks(Seq::new(s.len(), |i: int| i), s, r)); } }
pub proof fn lemma_fresh(h: PointHeap, s: Seq<geo::Point>)
    requires fresh(h, h.geo()) || exists|v: Seq<geo::Point>| #[trigger] fresh(h, v) && v =~= s,
    ensures fresh(h, h.geo()), h.n() == h.geo().len(), (exists|v: Seq<geo::Point>| #[trigger] fresh(h, v) && v =~= s) ==> h.geo() == s
{ reveal(fresh); }
%fn simplify_edge
%requires points@.len() <= max_len(),
%ensures
        keeps_shape(points@, r@), //@C08
        follows_rule(points@, smallest_area2, r@), //@C09
%at return
    proof { lemma_unchanged(points@, __ret@); }
%at let point_heap 1
    proof { lemma_fresh(point_heap, points@); }
%raw
/// C09: in the result every interior point spans a triangle above the threshold, and an edge that has only such points is left alone.
pub proof fn lemma_c09(s: Seq<geo::Point>, a: u64, r: Seq<geo::Point>)
    requires simplified(s, limit(a), r), s.len() >= 4 || !closed(s)
    ensures
        !closed(s) ==> forall|j: int| #![trigger tri_at(r, j)] 0 < j < r.len() - 1 ==> tri_at(r, j) > a,
        done(s, limit(a)) ==> r == s,
{
    assert forall|j: int| #![trigger tri_at(r, j)] 0 < j < r.len() - 1 && reduced(s, limit(a), r) implies tri_at(r, j) > a by { lemma_tri_bound(r[j - 1], r[j], r[j + 1]); }
    if done(s, limit(a)) {
        assert forall|t: Seq<geo::Point>| #[trigger] reduced(s, limit(a), t) implies t == s by {
            let h = choose|h: Seq<Seq<geo::Point>>| #[trigger] reduced_by(h, s, limit(a), t);
            if h.len() > 1 {
                assert(step_at(h, 1, limit(a)));
                assert(drops(h[0], h[1], limit(a)));
                let i = choose|i: int| #[trigger] may_drop(h[0], limit(a), i) && h[1] == h[0].remove(i);
                assert(tri_at(s, i) >= limit(a));
            }
        }
    }
}
%module simplify src/simplify/mod.rs
%raw
use crate::topology::types as topology;
use simplify_edge::*;
%fn simplify
%requires forall|i: int| #![trigger topology.edges@[i]] 0 <= i < topology.edges@.len() ==> topology.edges@[i].points@.len() <= max_len(),
%ensures
        r.regions@ == topology.regions@ && r.edges@.len() == topology.edges@.len(), //@C08
        forall|i: int| #![trigger r.edges@[i]] 0 <= i < r.edges@.len() ==> r.edges@[i].rings@ == topology.edges@[i].rings@ && keeps_shape(topology.edges@[i].points@, r.edges@[i].points@), //@C08
        forall|i: int| #![trigger r.edges@[i]] 0 <= i < r.edges@.len() ==> follows_rule(topology.edges@[i].points@, smallest_area, r.edges@[i].points@), //@C09
%at fn_start
    let ghost e0 = topology.edges@;
%loop 1
            __n1 == e0.len(), topology.edges@.len() == e0.len(), forall|i: int| #![trigger e0[i]] 0 <= i < e0.len() ==> e0[i].points@.len() <= max_len(),
            forall|i: int| #![trigger topology.edges@[i]] __k1 <= i < __n1 ==> topology.edges@[i] == e0[i],
            forall|i: int| #![trigger topology.edges@[i]] 0 <= i < __k1 ==> topology.edges@[i].rings@ == e0[i].rings@ && keeps_shape(e0[i].points@, topology.edges@[i].points@)
                && follows_rule(e0[i].points@, smallest_area, topology.edges@[i].points@),
