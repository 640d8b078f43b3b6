%module topology::types src/topology/types.rs
%raw
use crate::geo::*;
%type Direction #[derive(Clone, Copy, PartialEq, Eq)]
%type TopoEdge
%type DirectedEdge
%type TopoRing
%type TopoRegion
%type Topology
%raw
impl PartialEqSpecImpl for Direction {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
pub open spec fn directed(s: Seq<Point>, d: Direction) -> Seq<Point> { match d { Direction::Forward => s, Direction::Backward => s.reverse() } }

/// A ring as the paths its directed edges follow.
pub type AbsRing = Seq<Seq<Point>>;
pub ghost struct AbsRegion<Data> { pub data: Data, pub outer: Seq<AbsRing>, pub inner: Seq<AbsRing> }
pub open spec fn edge_points(edges: Seq<TopoEdge>) -> Seq<Seq<Point>> { edges.map_values(|e: TopoEdge| e.points@) }
/// The paths of a ring whose pointers point into a list of paths.
pub open spec fn topo_ring_abs(paths: Seq<Seq<Point>>, r: TopoRing) -> AbsRing {
    r.directed_edges@.map_values(|d: DirectedEdge| directed(paths[ptr_ix(d.edge)], d.direction))
}
pub open spec fn topo_rings_abs(paths: Seq<Seq<Point>>, r: Seq<TopoRing>) -> Seq<AbsRing> { r.map_values(|x: TopoRing| topo_ring_abs(paths, x)) }
pub open spec fn topo_region_abs<Data>(paths: Seq<Seq<Point>>, r: TopoRegion<Data>) -> AbsRegion<Data> {
    AbsRegion { data: r.data, outer: topo_rings_abs(paths, r.outer_rings@), inner: topo_rings_abs(paths, r.inner_rings@) }
}
/// What a topology says: its regions, each with its data and its rings.
pub open spec fn topo_abs<Data>(t: Topology<Data>) -> Seq<AbsRegion<Data>> {
    t.regions@.map_values(|r: TopoRegion<Data>| topo_region_abs(edge_points(t.edges@), r))
}
// ---- back references (C07) ---------------------------------------------------------------
/// Each directed edge points to an edge of the list.
pub open spec fn ring_in(r: TopoRing, n: int) -> bool {
    forall|j: int| #![trigger r.directed_edges@[j]] 0 <= j < r.directed_edges@.len() ==> edge_in(r.directed_edges@[j], n)
}
pub open spec fn edge_in(d: DirectedEdge, n: int) -> bool { match d.edge { Ptr::At(i, z) => z == 0 && i < n, Ptr::Null => false } }
/// Ring k of a region: the outer rings first.
pub open spec fn ring_k<Data>(r: TopoRegion<Data>, k: int) -> TopoRing { if k < r.outer_rings@.len() { r.outer_rings@[k] } else { r.inner_rings@[k - r.outer_rings@.len()] } }
pub open spec fn n_rings<Data>(r: TopoRegion<Data>) -> int { (r.outer_rings@.len() + r.inner_rings@.len()) as int }
/// The uses of edge e by the first n directed edges of a ring: the ring's address for each.
pub open spec fn uses_d(s: Seq<DirectedEdge>, n: int, e: int, p: Ptr) -> Seq<Ptr> decreases n {
    if n <= 0 { seq![] } else if ptr_ix(s[n - 1].edge) == e { uses_d(s, n - 1, e, p).push(p) } else { uses_d(s, n - 1, e, p) }
}
/// ... by the first n rings of region i, ...
pub open spec fn uses_r<Data>(r: TopoRegion<Data>, n: int, e: int, i: int) -> Seq<Ptr> decreases n {
    if n <= 0 { seq![] } else { uses_r(r, n - 1, e, i) + uses_d(ring_k(r, n - 1).directed_edges@, ring_k(r, n - 1).directed_edges@.len() as int, e, Ptr::At(i as usize, (n - 1) as usize)) }
}
/// ... by the first n regions.
pub open spec fn uses_t<Data>(s: Seq<TopoRegion<Data>>, n: int, e: int) -> Seq<Ptr> decreases n {
    if n <= 0 { seq![] } else { uses_t(s, n - 1, e) + uses_r(s[n - 1], n_rings(s[n - 1]), e, n - 1) }
}
pub open spec fn slots(u: Seq<Ptr>, a: Seq<Ptr>) -> bool {
    &&& u.len() <= 2 && !u.contains(Ptr::Null)
    &&& a.len() == 2
    &&& a[0] == (if u.len() > 0 { u[0] } else { Ptr::Null })
    &&& a[1] == (if u.len() > 1 { u[1] } else { Ptr::Null })
}
/// Every reference of the topology is right.
pub open spec fn refs_ok<Data>(t: Topology<Data>) -> bool {
    &&& forall|i: int| #![trigger t.regions@[i]] 0 <= i < t.regions@.len() ==> region_refs_ok(t.regions@[i], i, t.edges@.len() as int)
    &&& forall|e: int| #![trigger t.edges@[e]] 0 <= e < t.edges@.len() ==> slots(uses_t(t.regions@, t.regions@.len() as int, e), t.edges@[e].rings@)
}
pub open spec fn region_refs_ok<Data>(r: TopoRegion<Data>, i: int, n: int) -> bool {
    forall|k: int| #![trigger ring_k(r, k)] 0 <= k < n_rings(r) ==> ring_k(r, k).region == Ptr::At(i as usize, 0) && ring_in(ring_k(r, k), n)
}
%module topology::build src/topology/build.rs
%raw
use crate::geo::*;
use crate::topology::types::*;
%type EdgeId
%type BuildDirectedEdge
%type BuildRing
%type BuildRegion
%type BuildEdge
%type TopologyBuilder
%raw
impl Key for BuildEdge { type K = Seq<Point>; open spec fn key(&self) -> Seq<Point> { self.0@ } }

// ---- what is to be built -------------------------------------------------------------------
/// A zero-length edge.
pub open spec fn degenerate(s: Seq<Point>) -> bool { s.len() < 2 || (s.len() == 2 && s[0] == s[1]) }
pub open spec fn ring_paths(r: Ring) -> AbsRing {
    match r {
        Ring::Edges(e) => e@.map_values(|x: Edge| x.0@),
        Ring::Points(p) => Seq::new(if p@.len() == 0 { 0 } else { (p@.len() - 1) as nat }, |i: int| seq![p@[i], p@[i + 1]]),
    }
}
pub open spec fn keep_n(s: AbsRing, n: int) -> AbsRing decreases n {
    if n <= 0 { seq![] } else if degenerate(s[n - 1]) { keep_n(s, n - 1) } else { keep_n(s, n - 1).push(s[n - 1]) }
}
/// A ring's edges in order, except zero-length ones.
pub open spec fn ring_want(r: Ring) -> AbsRing { keep_n(ring_paths(r), ring_paths(r).len() as int) }
/// The rings of non-zero area, in order.
pub open spec fn rings_want_n(s: Seq<Ring>, n: int) -> Seq<AbsRing> decreases n {
    if n <= 0 { seq![] } else if ring_shoelace(s[n - 1]) == 0 { rings_want_n(s, n - 1) } else { rings_want_n(s, n - 1).push(ring_want(s[n - 1])) }
}
pub open spec fn rings_want(s: Seq<Ring>) -> Seq<AbsRing> { rings_want_n(s, s.len() as int) }
pub open spec fn region_want<Data>(r: Region<Data>) -> AbsRegion<Data> { AbsRegion { data: r.data, outer: rings_want(r.outer_rings@), inner: rings_want(r.inner_rings@) } }
/// From the smaller to the larger end, or clockwise when closed.
pub open spec fn canonical(s: Seq<Point>) -> bool { s.len() >= 2 && (plt(s[0], s.last()) || (s[0] == s.last() && shoelace(s) >= 0)) }

// ---- the builder's state ----------------------------------------------------------------------
pub open spec fn paths_of(m: Map<Seq<Point>, EdgeId>) -> Seq<Seq<Point>> { Seq::new(m.dom().len(), |i: int| choose|k: Seq<Point>| #[trigger] m.dom().contains(k) && m[k] == i) }
/// The ids are 0, 1, 2, ... and each belongs to one path, in its canonical direction.
pub open spec fn ids_ok(m: Map<Seq<Point>, EdgeId>) -> bool {
    &&& forall|k: Seq<Point>| #[trigger] m.dom().contains(k) ==> m[k] < m.dom().len() && paths_of(m)[m[k] as int] == k && canonical(k) && !degenerate(k)
    &&& forall|i: int| #![trigger paths_of(m)[i]] 0 <= i < m.dom().len() ==> m.dom().contains(paths_of(m)[i]) && m[paths_of(m)[i]] == i
}
pub open spec fn des_in(s: Seq<BuildDirectedEdge>, n: int) -> bool { forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> s[j].edge_id < n }
pub open spec fn des_abs(paths: Seq<Seq<Point>>, s: Seq<BuildDirectedEdge>) -> AbsRing { s.map_values(|d: BuildDirectedEdge| directed(paths[d.edge_id as int], d.direction)) }
pub open spec fn rings_in(s: Seq<BuildRing>, n: int) -> bool { forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> des_in(s[j].0@, n) }
pub open spec fn rings_abs(paths: Seq<Seq<Point>>, s: Seq<BuildRing>) -> Seq<AbsRing> { s.map_values(|b: BuildRing| des_abs(paths, b.0@)) }
pub open spec fn region_in<Data>(r: BuildRegion<Data>, n: int) -> bool {
    rings_in(r.outer_rings@, n) && rings_in(r.inner_rings@, n) && r.outer_rings@.len() <= max_len() && r.inner_rings@.len() <= max_len()
}
pub open spec fn region_abs<Data>(paths: Seq<Seq<Point>>, r: BuildRegion<Data>) -> AbsRegion<Data> {
    AbsRegion { data: r.data, outer: rings_abs(paths, r.outer_rings@), inner: rings_abs(paths, r.inner_rings@) }
}
pub open spec fn regions_in<Data>(s: Seq<BuildRegion<Data>>, n: int) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> region_in(s[i], n) }
pub open spec fn regions_abs<Data>(paths: Seq<Seq<Point>>, s: Seq<BuildRegion<Data>>) -> Seq<AbsRegion<Data>> { s.map_values(|r: BuildRegion<Data>| region_abs(paths, r)) }
/// A path is used, one way or the other.
pub open spec fn used_ring(p: Seq<Point>, w: AbsRing) -> bool { exists|k: int| 0 <= k < w.len() && (#[trigger] w[k] == p || w[k] == p.reverse()) }
pub open spec fn used_rings(p: Seq<Point>, s: Seq<AbsRing>) -> bool { exists|j: int| 0 <= j < s.len() && used_ring(p, #[trigger] s[j]) }
pub open spec fn used_region<Data>(p: Seq<Point>, a: AbsRegion<Data>) -> bool { used_rings(p, a.outer) || used_rings(p, a.inner) }
pub open spec fn used<Data>(p: Seq<Point>, a: Seq<AbsRegion<Data>>) -> bool { exists|i: int| 0 <= i < a.len() && used_region(p, #[trigger] a[i]) }
/// C06: every stored edge belongs to a ring.
#[verifier::opaque]
pub open spec fn all_used<Data>(paths: Seq<Seq<Point>>, a: Seq<AbsRegion<Data>>) -> bool { forall|i: int| 0 <= i < paths.len() ==> used(#[trigger] paths[i], a) }
/// ... those from the n-th on belong to these rings.
pub open spec fn tail_used_d(paths: Seq<Seq<Point>>, n: int, w: AbsRing) -> bool { forall|i: int| n <= i < paths.len() ==> used_ring(#[trigger] paths[i], w) }
pub open spec fn tail_used(paths: Seq<Seq<Point>>, n: int, s: Seq<AbsRing>) -> bool { forall|i: int| n <= i < paths.len() ==> used_rings(#[trigger] paths[i], s) }
pub proof fn lemma_tail_d(p: Seq<Seq<Point>>, q: Seq<Seq<Point>>, n: int, w: AbsRing, c: Seq<Point>)
    requires tail_used_d(p, n, w), p.is_prefix_of(q), 0 <= n <= p.len(), forall|i: int| p.len() <= i < q.len() ==> c == #[trigger] q[i] || c == q[i].reverse(),
    ensures tail_used_d(q, n, w.push(c))
{
    assert forall|i: int| n <= i < q.len() implies used_ring(#[trigger] q[i], w.push(c)) by {
        if i < p.len() { assert(q[i] == p[i]); assert(used_ring(p[i], w)); let k = choose|k: int| 0 <= k < w.len() && (#[trigger] w[k] == p[i] || w[k] == p[i].reverse()); assert(w.push(c)[k] == w[k]); }
        else { assert(w.push(c)[w.len() as int] == c); }
    }
}
pub proof fn lemma_tail(p: Seq<Seq<Point>>, q: Seq<Seq<Point>>, n: int, s: Seq<AbsRing>, w: AbsRing)
    requires tail_used(p, n, s), p.is_prefix_of(q), 0 <= n <= p.len(), tail_used_d(q, p.len() as int, w)
    ensures tail_used(q, n, s.push(w))
{
    assert forall|i: int| n <= i < q.len() implies used_rings(#[trigger] q[i], s.push(w)) by {
        if i < p.len() { assert(q[i] == p[i]); assert(used_rings(p[i], s)); let j = choose|j: int| 0 <= j < s.len() && used_ring(p[i], #[trigger] s[j]); assert(s.push(w)[j] == s[j]); }
        else { assert(s.push(w)[s.len() as int] == w); assert(used_ring(q[i], w)); }
    }
}
pub proof fn lemma_all_used<Data>(p: Seq<Seq<Point>>, p1: Seq<Seq<Point>>, p2: Seq<Seq<Point>>, a: Seq<AbsRegion<Data>>, g: AbsRegion<Data>)
    requires all_used(p, a), p.is_prefix_of(p1), p1.is_prefix_of(p2), tail_used(p1, p.len() as int, g.outer), tail_used(p2, p1.len() as int, g.inner)
    ensures all_used(p2, a.push(g))
{
    reveal(all_used);
    assert forall|i: int| 0 <= i < p2.len() implies used(#[trigger] p2[i], a.push(g)) by {
        if i < p.len() { assert(p2[i] == p1[i] && p1[i] == p[i]); assert(used(p[i], a)); let j = choose|j: int| 0 <= j < a.len() && used_region(p[i], #[trigger] a[j]); assert(a.push(g)[j] == a[j]); }
        else {
            assert(a.push(g)[a.len() as int] == g);
            if i < p1.len() { assert(p2[i] == p1[i]); assert(used_rings(p1[i], g.outer)); } else { assert(used_rings(p2[i], g.inner)); }
        }
    }
}
impl<Data> TopologyBuilder<Data> {
    pub open spec fn paths(&self) -> Seq<Seq<Point>> { paths_of(self.edges@) }
    pub open spec fn wf(&self) -> bool { ids_ok(self.edges@) && regions_in(self.regions@, self.paths().len() as int) && all_used(self.paths(), self.abs()) }
    /// What has been added so far.
    pub open spec fn abs(&self) -> Seq<AbsRegion<Data>> { regions_abs(self.paths(), self.regions@) }
}
pub open spec fn rings_fit(s: Seq<Ring>) -> bool { s.len() <= max_len() && forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> ring_fits(s[i]) }

// ---- lemmas -------------------------------------------------------------------------------------
pub proof fn lemma_insert(m: Map<Seq<Point>, EdgeId>, k: Seq<Point>, id: EdgeId)
    requires ids_ok(m), !m.dom().contains(k), canonical(k), !degenerate(k), id == m.dom().len(),
    ensures ids_ok(m.insert(k, id)), paths_of(m.insert(k, id)) =~= paths_of(m).push(k),
{
    let m2 = m.insert(k, id);
    assert(m2.dom() =~= m.dom().insert(k));
    assert(m2.dom().len() == m.dom().len() + 1);
    assert forall|i: int| 0 <= i < m2.dom().len() implies #[trigger] paths_of(m2)[i] == paths_of(m).push(k)[i] by {
        let w = paths_of(m).push(k)[i];
        if i < m.dom().len() { assert(paths_of(m)[i] == w); assert(m.dom().contains(w) && m[w] == i); assert(w != k); }
        assert(m2.dom().contains(w) && m2[w] == i);
        let c = paths_of(m2)[i];
        assert(m2.dom().contains(c) && m2[c] == i);
        if c != k { assert(m.dom().contains(c)); assert(paths_of(m)[m[c] as int] == c); }
    }
    assert(paths_of(m2) =~= paths_of(m).push(k));
    assert forall|x: Seq<Point>| #[trigger] m2.dom().contains(x) implies m2[x] < m2.dom().len() && paths_of(m2)[m2[x] as int] == x && canonical(x) && !degenerate(x) by {
        if x != k { assert(m.dom().contains(x)); }
    }
    assert forall|i: int| #![trigger paths_of(m2)[i]] 0 <= i < m2.dom().len() implies m2.dom().contains(paths_of(m2)[i]) && m2[paths_of(m2)[i]] == i by {
        if i < m.dom().len() { assert(paths_of(m)[i] == paths_of(m2)[i]); }
    }
}
pub proof fn lemma_des_prefix(s: Seq<BuildDirectedEdge>, p: Seq<Seq<Point>>, q: Seq<Seq<Point>>)
    requires des_in(s, p.len() as int), p.is_prefix_of(q)
    ensures des_in(s, q.len() as int), des_abs(p, s) == des_abs(q, s)
{
    assert forall|j: int| 0 <= j < s.len() implies des_abs(p, s)[j] == des_abs(q, s)[j] by { assert(s[j].edge_id < p.len()); }
    assert(des_abs(p, s) =~= des_abs(q, s));
}
pub proof fn lemma_rings_prefix(s: Seq<BuildRing>, p: Seq<Seq<Point>>, q: Seq<Seq<Point>>)
    requires rings_in(s, p.len() as int), p.is_prefix_of(q)
    ensures rings_in(s, q.len() as int), rings_abs(p, s) == rings_abs(q, s)
{
    assert forall|j: int| #![trigger s[j]] 0 <= j < s.len() implies des_in(s[j].0@, q.len() as int) && rings_abs(p, s)[j] == rings_abs(q, s)[j] by { lemma_des_prefix(s[j].0@, p, q); }
    assert(rings_abs(p, s) =~= rings_abs(q, s));
}
pub proof fn lemma_regions_prefix<Data>(s: Seq<BuildRegion<Data>>, p: Seq<Seq<Point>>, q: Seq<Seq<Point>>)
    requires regions_in(s, p.len() as int), p.is_prefix_of(q)
    ensures regions_in(s, q.len() as int), regions_abs(p, s) == regions_abs(q, s)
{
    assert forall|j: int| #![trigger s[j]] 0 <= j < s.len() implies region_in(s[j], q.len() as int) && regions_abs(p, s)[j] == regions_abs(q, s)[j] by {
        assert(region_in(s[j], p.len() as int));
        lemma_rings_prefix(s[j].outer_rings@, p, q); lemma_rings_prefix(s[j].inner_rings@, p, q);
    }
    assert(regions_abs(p, s) =~= regions_abs(q, s));
}
pub proof fn lemma_shoelace_rev_n(s: Seq<Point>, n: int)
    requires 0 <= n < s.len()
    ensures shoelace_n(s.reverse(), s.len() - 1) == shoelace_n(s.reverse(), s.len() - 1 - n) - shoelace_n(s, n)
    decreases n
{
    if n > 0 {
        lemma_shoelace_rev_n(s, n - 1);
        let m = s.len() - n;
        let r = s.reverse();
        assert(shoelace_n(r, m) == shoelace_n(r, m - 1) + cross(r[m - 1], r[m]));
        assert(r[m - 1] == s[n] && r[m] == s[n - 1]);
        assert(cross(s[n], s[n - 1]) == -cross(s[n - 1], s[n]));
    }
}
/// Walking a path backwards turns the sign of its area.
pub proof fn lemma_shoelace_rev(s: Seq<Point>)
    ensures shoelace(s.reverse()) == -shoelace(s)
{ if s.len() > 1 { lemma_shoelace_rev_n(s, s.len() - 1); } }
/// C06: a path and its reverse are not both canonical, closed paths of zero area apart.
pub proof fn lemma_one_direction(s: Seq<Point>)
    ensures canonical(s) && canonical(s.reverse()) ==> s[0] == s.last() && shoelace(s) == 0
{ lemma_shoelace_rev(s); }
%fn build_ring_to_topo_ring_with_null_ptrs
%requires des_in(build_ring.0@, edges@.len() as int),
%ensures
        topo_ring_abs(edge_points(edges@), r) == des_abs(edge_points(edges@), build_ring.0@),
        r.region == Ptr::Null, ring_in(r, edges@.len() as int),
%loop 1
            __c1@.len() == __k1,
            forall|j: int| #![trigger __c1@[j]] 0 <= j < __k1 ==> edge_in(__c1@[j], edges@.len() as int) && ptr_ix(__c1@[j].edge) == build_ring.0@[j].edge_id && __c1@[j].direction == build_ring.0@[j].direction,
%at fn_end
    proof { assert(topo_ring_abs(edge_points(edges@), __ret) =~= des_abs(edge_points(edges@), build_ring.0@)); }
%fn TopologyBuilder::new
%ensures r.wf(), r.abs() =~= seq![], r.paths() =~= seq![],
%at fn_end
    proof { reveal(all_used); }
%fn TopologyBuilder::add_region
%requires old(self).wf(), rings_fit(region.outer_rings@), rings_fit(region.inner_rings@),
%ensures
        final(self).wf(),
        final(self).abs() == (if rings_want(region.outer_rings@).len() == 0 { old(self).abs() } else { old(self).abs().push(region_want(region)) }),
%at let build_outer_rings 1
    let ghost p1 = self.paths();
    proof { lemma_regions_prefix(self.regions@, old(self).paths(), p1); }
%at let build_inner_rings 1
    let ghost p2 = self.paths();
    proof { lemma_regions_prefix(self.regions@, p1, p2); lemma_rings_prefix(build_outer_rings@, p1, p2); }
%at fn_end
    proof {
        if build_outer_rings@.len() > 0 {
            assert(self.abs() =~= old(self).abs().push(region_want(region)));
            lemma_all_used(old(self).paths(), p1, self.paths(), old(self).abs(), region_want(region));
        } else {
            if p1.len() > old(self).paths().len() { assert(used_rings(p1[old(self).paths().len() as int], rings_want(region.outer_rings@))); }
            assert(p1 =~= old(self).paths());
        }
    }
%fn TopologyBuilder::build_rings
%requires ids_ok(old(self).edges@), rings_fit(rings@),
%ensures
        ids_ok(final(self).edges@), final(self).regions == old(self).regions, old(self).paths().is_prefix_of(final(self).paths()),
        rings_in(r@, final(self).paths().len() as int), rings_abs(final(self).paths(), r@) == rings_want(rings@), r@.len() <= rings@.len(),
        tail_used(final(self).paths(), old(self).paths().len() as int, rings_want(rings@)),
%iter 1 ref
%loop 1
            ids_ok(self.edges@), self.regions == old(self).regions, old(self).paths().is_prefix_of(self.paths()), p0 == self.paths(),
            rings_in(__c1@, p0.len() as int), rings_abs(p0, __c1@) =~= rings_want_n(rings@, __k1 as int), __c1@.len() <= __k1,
            tail_used(p0, old(self).paths().len() as int, rings_want_n(rings@, __k1 as int)),
%at loop1.before
    let ghost mut p0 = self.paths();
%at loop1.start
    proof {
        lemma_rings_prefix(__c1@, p0, self.paths());
        lemma_tail(p0, self.paths(), old(self).paths().len() as int, rings_want_n(rings@, __i1 as int), ring_want(rings@[__i1 as int]));
        p0 = self.paths();
    }
%at loop1.none
    proof { assert(self.paths() =~= p0); }
%fn TopologyBuilder::build_ring
%requires ids_ok(old(self).edges@), ring_fits(*ring),
%ensures
        ids_ok(final(self).edges@), final(self).regions == old(self).regions, old(self).paths().is_prefix_of(final(self).paths()),
        r is None <==> ring_shoelace(*ring) == 0,
        r is None ==> final(self).paths().len() == old(self).paths().len(),
        tail_used_d(final(self).paths(), old(self).paths().len() as int, ring_want(*ring)),
        r is Some ==> des_in(r->Some_0.0@, final(self).paths().len() as int) && des_abs(final(self).paths(), r->Some_0.0@) == ring_want(*ring),
%loop 1
            ids_ok(self.edges@), self.regions == old(self).regions, old(self).paths().is_prefix_of(self.paths()), p0 == self.paths(),
            des_in(__c1@, p0.len() as int), des_abs(p0, __c1@) =~= keep_n(ring_paths(*ring), __k1 as int),
            __n1 == ring_paths(*ring).len(), tail_used_d(p0, old(self).paths().len() as int, keep_n(ring_paths(*ring), __k1 as int)),
            forall|i: int| #![trigger __e1@[i]] 0 <= i < __n1 ==> __e1@[i].0@ == ring_paths(*ring)[i] && __e1@[i].0@.len() <= max_len(),
%at loop1.before
    let ghost mut p0 = self.paths();
    proof {
        assert forall|i: int| #![trigger __e1@[i]] 0 <= i < __n1 implies __e1@[i].0@ == ring_paths(*ring)[i] && __e1@[i].0@.len() <= max_len() by {
            match *ring { Ring::Edges(e) => { lemma_total_len_mono(e@, 0, i); lemma_total_len_mono(e@, i + 1, e@.len() as int); } Ring::Points(_) => { } }
        }
    }
%at loop1.start
    proof {
        lemma_des_prefix(__c1@, p0, self.paths());
        lemma_tail_d(p0, self.paths(), old(self).paths().len() as int, keep_n(ring_paths(*ring), __i1 as int), ring_paths(*ring)[__i1 as int]);
        p0 = self.paths();
    }
%at loop1.none
    proof { assert(self.paths() =~= p0); }
%fn TopologyBuilder::build_directed_edge
%requires ids_ok(old(self).edges@), edge.0@.len() <= max_len(),
%ensures
        ids_ok(final(self).edges@), final(self).regions == old(self).regions, old(self).paths().is_prefix_of(final(self).paths()),
        r is None <==> degenerate(edge.0@),
        r is None ==> final(self).paths().len() == old(self).paths().len(),
        forall|i: int| old(self).paths().len() <= i < final(self).paths().len() ==> (edge.0@ == #[trigger] final(self).paths()[i] || edge.0@ == final(self).paths()[i].reverse()),
        r is Some ==> r->Some_0.edge_id < final(self).paths().len() && directed(final(self).paths()[r->Some_0.edge_id as int], r->Some_0.direction) == edge.0@,
%at let points 1
    proof { assert(points@ =~= edge.0@); }
%at let next_id 1
    proof {
        lemma_shoelace_rev(edge.0@);
        assert(canonical(points@));
        assert(directed(points@, direction) =~= edge.0@);
        assert(edge.0@.reverse().reverse() =~= edge.0@);
        if !self.edges@.dom().contains(points@) { lemma_insert(self.edges@, points@, next_id); }
    }
%raw
/// Everything but the ring's region pointer.
pub open spec fn same_ring(a: TopoRing, b: TopoRing) -> bool { a.directed_edges == b.directed_edges }
pub open spec fn same_region<Data>(a: TopoRegion<Data>, b: TopoRegion<Data>) -> bool {
    &&& a.data == b.data && a.outer_rings@.len() == b.outer_rings@.len() && a.inner_rings@.len() == b.inner_rings@.len()
    &&& forall|k: int| #![trigger ring_k(a, k)] #![trigger ring_k(b, k)] 0 <= k < n_rings(a) ==> same_ring(ring_k(a, k), ring_k(b, k))
}
pub proof fn lemma_same_region<Data>(a: TopoRegion<Data>, b: TopoRegion<Data>, paths: Seq<Seq<Point>>)
    requires same_region(a, b)
    ensures topo_region_abs(paths, a) == topo_region_abs(paths, b)
{
    let x = topo_region_abs(paths, a); let y = topo_region_abs(paths, b);
    assert forall|k: int| 0 <= k < x.outer.len() implies x.outer[k] == y.outer[k] by { assert(same_ring(ring_k(a, k), ring_k(b, k))); }
    assert forall|k: int| 0 <= k < x.inner.len() implies x.inner[k] == y.inner[k] by {
        let j = k + a.outer_rings@.len();
        assert(same_ring(ring_k(a, j), ring_k(b, j)));
        assert(ring_k(a, j) == a.inner_rings@[k] && ring_k(b, j) == b.inner_rings@[k]);
    }
    assert(x.outer =~= y.outer && x.inner =~= y.inner);
}
pub proof fn lemma_uses_r_same<Data>(a: TopoRegion<Data>, b: TopoRegion<Data>, n: int, e: int, i: int)
    requires same_region(a, b), 0 <= n <= n_rings(a)
    ensures uses_r(a, n, e, i) == uses_r(b, n, e, i)
    decreases n
{ if n > 0 { lemma_uses_r_same(a, b, n - 1, e, i); assert(same_ring(ring_k(a, n - 1), ring_k(b, n - 1))); } }
pub proof fn lemma_uses_t_same<Data>(a: Seq<TopoRegion<Data>>, b: Seq<TopoRegion<Data>>, n: int, e: int)
    requires a.len() == b.len(), 0 <= n <= a.len(), forall|i: int| #![trigger a[i]] 0 <= i < n ==> same_region(a[i], b[i])
    ensures uses_t(a, n, e) == uses_t(b, n, e)
    decreases n
{ if n > 0 { lemma_uses_t_same(a, b, n - 1, e); assert(same_region(a[n - 1], b[n - 1])); lemma_uses_r_same(a[n - 1], b[n - 1], n_rings(a[n - 1]), e, n - 1); } }
pub open spec fn null_edge(e: TopoEdge) -> bool { e.rings@ =~= seq![Ptr::Null, Ptr::Null] }
/// Some edge has more than two uses.
pub open spec fn overused<Data>(s: Seq<TopoRegion<Data>>) -> bool { exists|e: int| #[trigger] uses_t(s, s.len() as int, e).len() > 2 }
pub proof fn lemma_uses_d_mono(s: Seq<DirectedEdge>, n: int, m: int, e: int, p: Ptr)
    requires 0 <= n <= m <= s.len()
    ensures uses_d(s, n, e, p).len() <= uses_d(s, m, e, p).len()
    decreases m
{ if n < m { lemma_uses_d_mono(s, n, m - 1, e, p); } }
pub proof fn lemma_uses_r_mono<Data>(r: TopoRegion<Data>, n: int, m: int, e: int, i: int)
    requires 0 <= n <= m <= n_rings(r)
    ensures uses_r(r, n, e, i).len() <= uses_r(r, m, e, i).len()
    decreases m
{ if n < m { lemma_uses_r_mono(r, n, m - 1, e, i); } }
pub proof fn lemma_uses_t_mono<Data>(s: Seq<TopoRegion<Data>>, n: int, m: int, e: int)
    requires 0 <= n <= m <= s.len()
    ensures uses_t(s, n, e).len() <= uses_t(s, m, e).len()
    decreases m
{ if n < m { lemma_uses_t_mono(s, n, m - 1, e); } }
/// A third use of an edge while the references are filled in.
pub proof fn lemma_overused<Data>(s: Seq<TopoRegion<Data>>, i: int, k: int, j: int)
    requires 0 <= i < s.len(), 0 <= k < n_rings(s[i]), 0 <= j < ring_k(s[i], k).directed_edges@.len(),
        ({ let d = ring_k(s[i], k).directed_edges@; let e = ptr_ix(d[j].edge);
            uses_t(s, i, e).len() + uses_r(s[i], k, e, i).len() + uses_d(d, j, e, Ptr::At(i as usize, k as usize)).len() >= 2 }),
    ensures overused(s)
{
    let d = ring_k(s[i], k).directed_edges@; let e = ptr_ix(d[j].edge);
    lemma_uses_d_mono(d, j + 1, d.len() as int, e, Ptr::At(i as usize, k as usize));
    lemma_uses_r_mono(s[i], k + 1, n_rings(s[i]), e, i);
    lemma_uses_t_mono(s, i + 1, s.len() as int, e);
}
%fn TopologyBuilder::into_topology
%panic
    proof {
        let e = ptr_ix(directed_edge.edge);
        assert(slots(uses_t(regs0, __i7 as int, e) + uses_r(regs0[__i7 as int], __i8 as int, e, __i7 as int) + uses_d(ring.directed_edges@, __i9 as int, e, Ptr::At(__i7, __i8)), edges@[e].rings@));
        lemma_overused(regs0, __i7 as int, __i8 as int, __i9 as int);
        assert(overused(regs0));
    }
%arena edges
%requires self.wf(), self.regions@.len() <= max_len(),
%ensures
        topo_abs(r) == self.abs(), //@C06
        edge_points(r.edges@) == self.paths(), //@C06
        all_used(edge_points(r.edges@), topo_abs(r)), //@C06
        forall|e: int| #![trigger r.edges@[e]] 0 <= e < r.edges@.len() ==> canonical(r.edges@[e].points@) && !degenerate(r.edges@[e].points@), //@C06
        edge_points(r.edges@).no_duplicates(), //@C06
        refs_ok(r), //@C07
%at fn_start
    let ghost m = self.edges@; let ghost paths = self.paths(); let ghost regs = self.regions@;
%loop 1
            edges_sort@.len() == __k1, __n1 == paths.len(),
            forall|j: int| #![trigger edges_sort@[j]] 0 <= j < __k1 ==> edges_sort@[j] is None,
%iter 2 map
%loop 2
            edges_sort@.len() == paths.len(), __n2 == paths.len(),
            forall|j: int| #![trigger edges_sort@[j]] 0 <= j < paths.len() && edges_sort@[j] is Some ==> edges_sort@[j]->Some_0.points@ == paths[j] && null_edge(edges_sort@[j]->Some_0),
            forall|i: int| #![trigger __s2[i]] 0 <= i < __k2 ==> edges_sort@[__s2[i].1 as int] is Some,
%at loop2.start
    proof { assert(m.dom().contains(__s2[__i2 as int].0.key())); }
%at loop2.after
    proof {
        assert forall|j: int| #![trigger edges_sort@[j]] 0 <= j < paths.len() implies edges_sort@[j] is Some by {
            assert(m.dom().contains(paths[j]));
            let i = choose|i: int| 0 <= i < __s2.len() && (#[trigger] __s2[i]).0.key() == paths[j];
            assert(edges_sort@[__s2[i].1 as int] is Some);
        }
    }
%loop 3
            __c3@.len() == __k3, __s3.len() == paths.len(), __n3 == paths.len(),
            forall|j: int| #![trigger __s3[j]] 0 <= j < paths.len() ==> __s3[j] is Some && __s3[j]->Some_0.points@ == paths[j] && null_edge(__s3[j]->Some_0),
            forall|j: int| #![trigger __c3@[j]] 0 <= j < __k3 ==> __c3@[j].points@ == paths[j] && null_edge(__c3@[j]),
%loop 4
            __c4@.len() == __k4, __n4 == regs.len(), __s4 == regs, edge_points(edges@) == paths, edges@.len() == paths.len(),
            forall|i: int| #![trigger __c4@[i]] 0 <= i < __k4 ==> topo_region_abs(paths, __c4@[i]) == region_abs(paths, regs[i])
                && __c4@[i].outer_rings@.len() <= max_len() && __c4@[i].inner_rings@.len() <= max_len(),
            forall|i: int, k: int| #![trigger ring_k(__c4@[i], k)] 0 <= i < __k4 && 0 <= k < n_rings(__c4@[i]) ==> ring_in(ring_k(__c4@[i], k), paths.len() as int),
%at loop4.before
    proof { assert(edge_points(edges@) =~= paths); }
%at loop4.start
    proof {
        let x = topo_region_abs(paths, __y4); let y = region_abs(paths, regs[__i4 as int]);
        assert(x.outer =~= y.outer && x.inner =~= y.inner);
    }
%loop 5
            region_in(regs[__i4 as int], paths.len() as int), __s5 == regs[__i4 as int].outer_rings@,
            __c5@.len() == __k5,
            forall|j: int| #![trigger __c5@[j]] 0 <= j < __k5 ==> topo_ring_abs(paths, __c5@[j]) == des_abs(paths, __s5[j].0@) && ring_in(__c5@[j], paths.len() as int),
%loop 6
            __s6 == regs[__i4 as int].inner_rings@,
            __c6@.len() == __k6,
            forall|j: int| #![trigger __c6@[j]] 0 <= j < __k6 ==> topo_ring_abs(paths, __c6@[j]) == des_abs(paths, __s6[j].0@) && ring_in(__c6@[j], paths.len() as int),
%at let regions 2
    let ghost regs0 = regions@;
%loop 7
            regions@.len() == regs0.len(), edges@.len() == paths.len(), edge_points(edges@) =~= paths,
            forall|i: int| #![trigger regions@[i]] __k7 <= i < regions@.len() ==> regions@[i] == regs0[i],
            forall|i: int| #![trigger regions@[i]] 0 <= i < __k7 ==> same_region(regions@[i], regs0[i]) && region_refs_ok(regions@[i], i, paths.len() as int),
            forall|e: int| #![trigger edges@[e]] 0 <= e < edges@.len() ==> slots(uses_t(regs0, __k7 as int, e), edges@[e].rings@), //@C07
%loop 8
            edges@.len() == paths.len(), edge_points(edges@) =~= paths,
            same_region(*region, regs0[__i7 as int]),
            forall|k: int| #![trigger ring_k(*region, k)] 0 <= k < __k8 ==> ring_k(*region, k).region == Ptr::At(__i7, 0), //@C07
            forall|e: int| #![trigger edges@[e]] 0 <= e < edges@.len() ==> slots(uses_t(regs0, __i7 as int, e) + uses_r(regs0[__i7 as int], __k8 as int, e, __i7 as int), edges@[e].rings@), //@C07
            rg == *region,
%at loop8.before
    let ghost mut rg = *region;
%at loop8.end
    proof {
        assert forall|k: int| #![trigger ring_k(*region, k)] 0 <= k < __k8 implies ring_k(*region, k).region == Ptr::At(__i7, 0) by {
            if k < __i8 { assert(ring_k(*region, k) == ring_k(rg, k)); }
        }
        rg = *region;
    }
%loop 9
            edges@.len() == paths.len(), edge_points(edges@) =~= paths,
            ring.region == Ptr::At(__i7, 0), //@C07
            ring.directed_edges == ring_k(regs0[__i7 as int], __i8 as int).directed_edges,
            forall|e: int| #![trigger edges@[e]] 0 <= e < edges@.len() ==> slots(uses_t(regs0, __i7 as int, e) + uses_r(regs0[__i7 as int], __i8 as int, e, __i7 as int) + uses_d(ring.directed_edges@, __k9 as int, e, Ptr::At(__i7, __i8)), edges@[e].rings@), //@C07
%at loop9.start
    let ghost es0 = edges@;
%at loop9.end
    proof {
        assert forall|e: int| #![trigger edges@[e]] 0 <= e < edges@.len() implies slots(uses_t(regs0, __i7 as int, e) + uses_r(regs0[__i7 as int], __i8 as int, e, __i7 as int) + uses_d(ring.directed_edges@, __k9 as int, e, Ptr::At(__i7, __i8)), edges@[e].rings@) by {
            let a = uses_t(regs0, __i7 as int, e) + uses_r(regs0[__i7 as int], __i8 as int, e, __i7 as int);
            let u = uses_d(ring.directed_edges@, __i9 as int, e, Ptr::At(__i7, __i8));
            let p = Ptr::At(__i7, __i8);
            assert(slots(a + u, es0[e].rings@));
            assert(a + u.push(p) =~= (a + u).push(p));
            assert forall|j: int| 0 <= j < (a + u).len() implies (a + u)[j] != Ptr::Null by { assert((a + u).contains((a + u)[j])); }
            if ptr_ix(directed_edge.edge) == e {
                assert((a + u).len() < 2);
                assert(edges@[e].rings@ =~= es0[e].rings@.update(if (a + u).len() == 0 { 0int } else { 1int }, p));
            } else { assert(edges@[e] == es0[e]); }
        }
    }
%at fn_end
    proof {
        assert forall|e: int| #![trigger __ret.edges@[e]] 0 <= e < __ret.edges@.len() implies canonical(__ret.edges@[e].points@) && !degenerate(__ret.edges@[e].points@) by {
            assert(edge_points(__ret.edges@)[e] == paths[e]); assert(m.dom().contains(paths[e]));
        }
        assert forall|e: int, f: int| 0 <= e < paths.len() && 0 <= f < paths.len() && e != f implies paths[e] != paths[f] by { assert(m[paths[e]] == e && m[paths[f]] == f); }
        assert forall|i: int| 0 <= i < regs0.len() implies #[trigger] topo_region_abs(paths, __ret.regions@[i]) == region_abs(paths, regs[i]) by {
            assert(same_region(__ret.regions@[i], regs0[i]));
            lemma_same_region(__ret.regions@[i], regs0[i], paths);
        }
        assert(topo_abs(__ret) =~= regions_abs(paths, regs));
        assert forall|e: int| 0 <= e < __ret.edges@.len() implies slots(uses_t(__ret.regions@, __ret.regions@.len() as int, e), #[trigger] __ret.edges@[e].rings@) by {
            lemma_uses_t_same(__ret.regions@, regs0, regs0.len() as int, e);
        }
    }
