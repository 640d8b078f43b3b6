%module pairs
%raw
use crate::geo::*;
use crate::topology::types::*;
use crate::topology::build::*;
use crate::normalize::*;
use crate::borders::{uses_edge, order_k, fine, has, lemma_has_t, lemma_from_r, lemma_slot};
// ---- edges with one region on both sides come in opposite pairs (C11) ------------------------------------------------
/// Does a directed edge walk its edge forward, when the ring is turned (or not)?
pub open spec fn fwd(d: DirectedEdge, back: bool) -> bool { (d.direction is Forward) != back }
/// Has ring k to be turned to be wound as it should?
pub open spec fn back_k<Data>(g: TopoRegion<Data>, k: int) -> bool { against(sides_of(ring_k(g, k)), order_k(g, k)) }
pub open spec fn fwd_k<Data>(g: TopoRegion<Data>, k: int, j: int) -> bool { fwd(ring_k(g, k).directed_edges@[j], back_k(g, k)) }
/// No edge has the region on the same side twice: its rings, wound as they should, do not overlap.
#[verifier::opaque]
pub open spec fn once<Data>(t: Topology<Data>, i: int) -> bool {
    forall|k: int, j: int, k2: int, j2: int, e: int| #![trigger uses_edge(t.regions@, i, k, j, e), uses_edge(t.regions@, i, k2, j2, e)]
        uses_edge(t.regions@, i, k, j, e) && uses_edge(t.regions@, i, k2, j2, e) && fwd_k(t.regions@[i], k, j) == fwd_k(t.regions@[i], k2, j2) ==> k == k2 && j == j2
}
pub type W = spec_fn(int) -> int;
pub open spec fn val_d(s: Seq<DirectedEdge>, n: int, w: W, back: bool) -> int decreases n {
    if n <= 0 { 0 } else { val_d(s, n - 1, w, back) + (if fwd(s[n - 1], back) { w(ptr_ix(s[n - 1].edge)) } else { -w(ptr_ix(s[n - 1].edge)) }) }
}
pub open spec fn val_r<Data>(g: TopoRegion<Data>, n: int, w: W) -> int decreases n {
    if n <= 0 { 0 } else { val_r(g, n - 1, w) + val_d(ring_k(g, n - 1).directed_edges@, ring_k(g, n - 1).directed_edges@.len() as int, w, back_k(g, n - 1)) }
}
/// How often edge e is walked that way.
pub open spec fn cnt_d(s: Seq<DirectedEdge>, n: int, e: int, f: bool, back: bool) -> int decreases n {
    if n <= 0 { 0 } else { cnt_d(s, n - 1, e, f, back) + (if ptr_ix(s[n - 1].edge) == e && fwd(s[n - 1], back) == f { 1int } else { 0 }) }
}
pub open spec fn cnt_r<Data>(g: TopoRegion<Data>, n: int, e: int, f: bool) -> int decreases n {
    if n <= 0 { 0 } else { cnt_r(g, n - 1, e, f) + cnt_d(ring_k(g, n - 1).directed_edges@, ring_k(g, n - 1).directed_edges@.len() as int, e, f, back_k(g, n - 1)) }
}
pub open spec fn drops(w: W, w2: W, e: int) -> bool { w2(e) == 0 && forall|x: int| #![trigger w(x)] #![trigger w2(x)] x != e ==> w(x) == w2(x) }
pub proof fn lemma_mul(x: int, a: int, b: int)
    ensures x * (a + b) == x * a + x * b
{ assert(x * (a + b) == x * a + x * b) by(nonlinear_arith); }
pub proof fn lemma_drop_d(s: Seq<DirectedEdge>, n: int, w: W, w2: W, e: int, back: bool)
    requires drops(w, w2, e)
    ensures val_d(s, n, w, back) == val_d(s, n, w2, back) + w(e) * (cnt_d(s, n, e, true, back) - cnt_d(s, n, e, false, back))
    decreases n
{
    if n > 0 {
        lemma_drop_d(s, n - 1, w, w2, e, back);
        let c = cnt_d(s, n - 1, e, true, back) - cnt_d(s, n - 1, e, false, back);
        let x = ptr_ix(s[n - 1].edge);
        let k: int = if x != e { 0 } else if fwd(s[n - 1], back) { 1 } else { -1 };
        let v = w(e);
        lemma_mul(v, c, k);
        assert(v * 1 == v && v * (-1) == -v && v * 0 == 0) by(nonlinear_arith);
        assert(cnt_d(s, n, e, true, back) - cnt_d(s, n, e, false, back) == c + k);
        assert(v * (cnt_d(s, n, e, true, back) - cnt_d(s, n, e, false, back)) == v * c + v * k);
        if x != e { assert(w(x) == w2(x)); }
    } else { let v = w(e); assert(v * 0 == 0) by(nonlinear_arith); assert(cnt_d(s, n, e, true, back) - cnt_d(s, n, e, false, back) == 0); assert(v * (cnt_d(s, n, e, true, back) - cnt_d(s, n, e, false, back)) == 0); }
}
pub proof fn lemma_drop_r<Data>(g: TopoRegion<Data>, n: int, w: W, w2: W, e: int)
    requires drops(w, w2, e)
    ensures val_r(g, n, w) == val_r(g, n, w2) + w(e) * (cnt_r(g, n, e, true) - cnt_r(g, n, e, false))
    decreases n
{
    if n > 0 {
        lemma_drop_r(g, n - 1, w, w2, e);
        let d = ring_k(g, n - 1).directed_edges@; let b = back_k(g, n - 1); let m = d.len() as int;
        lemma_drop_d(d, m, w, w2, e, b);
        let v = w(e); let x = cnt_r(g, n - 1, e, true) - cnt_r(g, n - 1, e, false); let y = cnt_d(d, m, e, true, b) - cnt_d(d, m, e, false, b);
        lemma_mul(v, x, y);
        assert(cnt_r(g, n, e, true) - cnt_r(g, n, e, false) == x + y);
        assert(v * (cnt_r(g, n, e, true) - cnt_r(g, n, e, false)) == v * x + v * y);
    } else { let v = w(e); assert(v * 0 == 0) by(nonlinear_arith); assert(cnt_r(g, n, e, true) - cnt_r(g, n, e, false) == 0); assert(v * (cnt_r(g, n, e, true) - cnt_r(g, n, e, false)) == 0); }
}
pub open spec fn above(w: W, e: int) -> W { |x: int| if x < e { 0int } else { w(x) } }
pub proof fn lemma_none_d(s: Seq<DirectedEdge>, n: int, w: W, back: bool)
    requires forall|x: int| #[trigger] w(x) == 0
    ensures val_d(s, n, w, back) == 0
    decreases n
{ if n > 0 { lemma_none_d(s, n - 1, w, back); assert(w(ptr_ix(s[n - 1].edge)) == 0); } }
pub proof fn lemma_none_r<Data>(g: TopoRegion<Data>, n: int, w: W)
    requires forall|x: int| #[trigger] w(x) == 0
    ensures val_r(g, n, w) == 0
    decreases n
{ if n > 0 { lemma_none_r(g, n - 1, w); lemma_none_d(ring_k(g, n - 1).directed_edges@, ring_k(g, n - 1).directed_edges@.len() as int, w, back_k(g, n - 1)); } }
/// An edge that counts is walked as often forward as backward.
pub open spec fn even<Data>(g: TopoRegion<Data>, n: int, w: W, e: int) -> bool { w(e) == 0 || cnt_r(g, n, e, true) == cnt_r(g, n, e, false) }
pub proof fn lemma_above<Data>(g: TopoRegion<Data>, n: int, w: W, e: int, top: int)
    requires 0 <= e <= top, forall|x: int| 0 <= x < top ==> #[trigger] even(g, n, w, x), forall|x: int| !(0 <= x < top) ==> #[trigger] w(x) == 0
    ensures val_r(g, n, above(w, e)) == 0
    decreases top - e
{
    if e == top { lemma_none_r(g, n, above(w, e)); } else {
        lemma_above(g, n, w, e + 1, top);
        let v = above(w, e); let v2 = above(w, e + 1);
        assert(drops(v, v2, e));
        lemma_drop_r(g, n, v, v2, e);
        assert(even(g, n, w, e));
        let c = cnt_r(g, n, e, true) - cnt_r(g, n, e, false);
        assert(v(e) * c == 0) by(nonlinear_arith) requires v(e) == 0 || c == 0;
    }
}
pub proof fn lemma_even<Data>(g: TopoRegion<Data>, n: int, w: W, top: int)
    requires 0 <= top, forall|x: int| 0 <= x < top ==> #[trigger] even(g, n, w, x), forall|x: int| !(0 <= x < top) ==> #[trigger] w(x) == 0
    ensures val_r(g, n, w) == 0
{ lemma_above(g, n, w, 0, top); assert(above(w, 0) =~= w); }
// ---- counting the uses ------------------------------------------------------------------------------------------------
pub proof fn lemma_cnt_d_ex(s: Seq<DirectedEdge>, n: int, e: int, f: bool, back: bool) -> (j: int)
    requires cnt_d(s, n, e, f, back) > 0
    ensures 0 <= j < n, ptr_ix(s[j].edge) == e, fwd(s[j], back) == f
    decreases n
{ if ptr_ix(s[n - 1].edge) == e && fwd(s[n - 1], back) == f { n - 1 } else { lemma_cnt_d_ex(s, n - 1, e, f, back) } }
pub proof fn lemma_cnt_d_one<Data>(t: Topology<Data>, i: int, k: int, n: int, e: int, f: bool)
    requires once(t, i), 0 <= i < t.regions@.len(), 0 <= k < n_rings(t.regions@[i]), 0 <= n <= ring_k(t.regions@[i], k).directed_edges@.len()
    ensures 0 <= cnt_d(ring_k(t.regions@[i], k).directed_edges@, n, e, f, back_k(t.regions@[i], k)) <= 1
    decreases n
{
    if n > 0 {
        lemma_cnt_d_one(t, i, k, n - 1, e, f);
        let g = t.regions@[i]; let s = ring_k(g, k).directed_edges@; let b = back_k(g, k);
        if ptr_ix(s[n - 1].edge) == e && fwd(s[n - 1], b) == f && cnt_d(s, n - 1, e, f, b) > 0 {
            let j = lemma_cnt_d_ex(s, n - 1, e, f, b);
            reveal(once);
            assert(uses_edge(t.regions@, i, k, j, e) && uses_edge(t.regions@, i, k, n - 1, e));
            assert(fwd_k(g, k, j) == fwd_k(g, k, n - 1));
            assert(false);
        }
    }
}
pub proof fn lemma_cnt_r_ex<Data>(s: Seq<TopoRegion<Data>>, i: int, n: int, e: int, f: bool) -> (z: (int, int))
    requires 0 <= i < s.len(), n <= n_rings(s[i]), cnt_r(s[i], n, e, f) > 0
    ensures 0 <= z.0 < n, uses_edge(s, i, z.0, z.1, e), fwd_k(s[i], z.0, z.1) == f
    decreases n
{
    let d = ring_k(s[i], n - 1).directed_edges@; let b = back_k(s[i], n - 1);
    if cnt_d(d, d.len() as int, e, f, b) > 0 { (n - 1, lemma_cnt_d_ex(d, d.len() as int, e, f, b)) } else { lemma_cnt_r_ex(s, i, n - 1, e, f) }
}
pub proof fn lemma_cnt_r_one<Data>(t: Topology<Data>, i: int, n: int, e: int, f: bool)
    requires once(t, i), 0 <= i < t.regions@.len(), 0 <= n <= n_rings(t.regions@[i])
    ensures 0 <= cnt_r(t.regions@[i], n, e, f) <= 1
    decreases n
{
    if n > 0 {
        lemma_cnt_r_one(t, i, n - 1, e, f);
        let g = t.regions@[i]; let s = ring_k(g, n - 1).directed_edges@; let b = back_k(g, n - 1);
        lemma_cnt_d_one(t, i, n - 1, s.len() as int, e, f);
        if cnt_d(s, s.len() as int, e, f, b) > 0 && cnt_r(g, n - 1, e, f) > 0 {
            let j = lemma_cnt_d_ex(s, s.len() as int, e, f, b);
            let z = lemma_cnt_r_ex(t.regions@, i, n - 1, e, f);
            reveal(once);
            assert(uses_edge(t.regions@, i, n - 1, j, e) && uses_edge(t.regions@, i, z.0, z.1, e));
            assert(fwd_k(g, n - 1, j) == fwd_k(g, z.0, z.1));
            assert(false);
        }
    }
}
pub proof fn lemma_cnt_uses_d(s: Seq<DirectedEdge>, n: int, e: int, p: Ptr, back: bool)
    ensures cnt_d(s, n, e, true, back) + cnt_d(s, n, e, false, back) == uses_d(s, n, e, p).len()
    decreases n
{ if n > 0 { lemma_cnt_uses_d(s, n - 1, e, p, back); } }
pub proof fn lemma_cnt_uses_r<Data>(g: TopoRegion<Data>, n: int, e: int, i: int)
    ensures cnt_r(g, n, e, true) + cnt_r(g, n, e, false) == uses_r(g, n, e, i).len()
    decreases n
{ if n > 0 { lemma_cnt_uses_r(g, n - 1, e, i); lemma_cnt_uses_d(ring_k(g, n - 1).directed_edges@, ring_k(g, n - 1).directed_edges@.len() as int, e, Ptr::At(i as usize, (n - 1) as usize), back_k(g, n - 1)); } }
pub open spec fn all_in(u: Seq<Ptr>, i: int) -> bool { forall|y: int| #![trigger u[y]] 0 <= y < u.len() ==> u[y]->At_0 == i }
pub proof fn lemma_in_region<Data>(s: Seq<TopoRegion<Data>>, n: int, e: int, i: int)
    requires 0 <= n <= s.len(), s.len() <= usize::MAX, forall|x: int| #![trigger s[x]] 0 <= x < s.len() ==> n_rings(s[x]) <= usize::MAX, 0 <= i < s.len(), all_in(uses_t(s, n, e), i)
    ensures uses_t(s, n, e).len() == (if i < n { uses_r(s[i], n_rings(s[i]), e, i).len() } else { 0 })
    decreases n
{
    if n > 0 {
        let u = uses_t(s, n, e); let v = uses_t(s, n - 1, e); let x = uses_r(s[n - 1], n_rings(s[n - 1]), e, n - 1);
        assert forall|y: int| #![trigger v[y]] 0 <= y < v.len() implies v[y]->At_0 == i by { assert(u[y] == v[y]); }
        lemma_in_region(s, n - 1, e, i);
        assert(n_rings(s[n - 1]) <= usize::MAX);
        lemma_from_r(s, n - 1, n_rings(s[n - 1]), e);
        if x.len() > 0 { assert(u[v.len() as int] == x[0]); assert(x[0]->At_0 == n - 1); }
    }
}
/// An edge as it is stored, with the regions on its sides.
pub open spec fn stored<Data>(t: Topology<Data>, e: int) -> Side {
    let te = t.edges@[e];
    Side { points: te.points@, a: ring_region(te.rings@[0]), b: if te.rings@[1] == Ptr::Null { Ptr::Null } else { ring_region(te.rings@[1]) } }
}
pub proof fn lemma_both<Data>(t: Topology<Data>, i: int, e: int)
    requires fine(t), once(t, i), 0 <= i < t.regions@.len(), 0 <= e < t.edges@.len(), stored(t, e).a == stored(t, e).b
    ensures cnt_r(t.regions@[i], n_rings(t.regions@[i]), e, true) == cnt_r(t.regions@[i], n_rings(t.regions@[i]), e, false)
{
    let s = t.regions@; let g = s[i]; let n = n_rings(g); let u = uses_t(s, s.len() as int, e); let te = t.edges@[e];
    assert(slots(u, te.rings@));
    lemma_cnt_r_one(t, i, n, e, true); lemma_cnt_r_one(t, i, n, e, false);
    lemma_cnt_uses_r(g, n, e, i);
    if cnt_r(g, n, e, true) + cnt_r(g, n, e, false) > 0 {
        let z = if cnt_r(g, n, e, true) > 0 { lemma_cnt_r_ex(s, i, n, e, true) } else { lemma_cnt_r_ex(s, i, n, e, false) };
        lemma_has_t(s, s.len() as int, e, i, z.0, z.1);
        let y = choose|y: int| 0 <= y < u.len() && #[trigger] u[y] == Ptr::At(i as usize, z.0 as usize);
        lemma_slot(t, e, 0);
        if u.len() > 1 {
            lemma_slot(t, e, 1);
            assert(u[0]->At_0 == i && u[1]->At_0 == i);
            assert(all_in(u, i));
            lemma_in_region(s, s.len() as int, e, i);
        }
    }
}
// ---- and the sums over them -------------------------------------------------------------------------------------------
/// What edge e walked forward contributes to the sum of f, less what it contributes walked backward.
pub open spec fn w_of<Data>(t: Topology<Data>, f: F) -> W { |e: int| if 0 <= e < t.edges@.len() { tot_e(f_red(f), stored(t, e)) - tot_e(f_red(f_back(f)), stored(t, e)) } else { 0int } }
pub proof fn lemma_w_zero<Data>(t: Topology<Data>, f: F, e: int)
    requires stored(t, e).a != stored(t, e).b
    ensures w_of(t, f)(e) == 0
{
    let s = stored(t, e); let f1 = f_red(f); let f2 = f_red(f_back(f));
    assert forall|p: Point, q: Point| f1(p, q, s.a, s.b) == -#[trigger] f1(p, q, s.a, s.b) by { }
    assert forall|p: Point, q: Point| f2(p, q, s.a, s.b) == -#[trigger] f2(p, q, s.a, s.b) by { }
    lemma_neg_p(f1, f1, s.points, s.a, s.b, s.points.len() - 1); lemma_neg_p(f2, f2, s.points, s.a, s.b, s.points.len() - 1);
}
pub proof fn lemma_one_use<Data>(t: Topology<Data>, f: F, d: DirectedEdge, back: bool)
    requires heap_is(t), edge_in(d, t.edges@.len() as int), !degenerate(t.edges@[ptr_ix(d.edge)].points@)
    ensures tot_e(f_dir(f_red(f), back), in_side(d)) - tot_e(f_dir(f_red(f_back(f)), back), in_side(d)) == (if fwd(d, back) { w_of(t, f)(ptr_ix(d.edge)) } else { -w_of(t, f)(ptr_ix(d.edge)) })
{
    let e = ptr_ix(d.edge); let s = stored(t, e); let f1 = f_red(f); let f2 = f_red(f_back(f));
    assert(heap::<TopoEdge>(Ptr::At(e as usize, 0)) == t.edges@[e]);
    assert(d.edge == Ptr::At(e as usize, 0));
    assert(f_back(f1) =~= f2); assert(f_back(f2) =~= f1);
    if d.direction is Forward { assert(in_side(d) == s); } else {
        assert(in_side(d) == turned(s));
        lemma_rev_e(f1, s); lemma_rev_e(f2, s);
    }
}
pub proof fn lemma_ring_val<Data>(t: Topology<Data>, f: F, r: TopoRing, back: bool, n: int)
    requires heap_is(t), topo_fine(t), 0 <= n <= r.directed_edges@.len(), ring_in(r, t.edges@.len() as int)
    ensures tot_n(f_dir(f_red(f), back), sides_of(r), n) - tot_n(f_dir(f_red(f_back(f)), back), sides_of(r), n) == val_d(r.directed_edges@, n, w_of(t, f), back)
    decreases n
{
    if n > 0 {
        lemma_ring_val(t, f, r, back, n - 1);
        let d = r.directed_edges@[n - 1];
        assert(edge_in(d, t.edges@.len() as int));
        assert(!degenerate(t.edges@[ptr_ix(d.edge)].points@));
        assert(sides_of(r)[n - 1] == in_side(d));
        lemma_one_use(t, f, d, back);
    }
}
pub proof fn lemma_outer_val<Data>(t: Topology<Data>, f: F, i: int, n: int)
    requires heap_is(t), topo_fine(t), 0 <= i < t.regions@.len(), 0 <= n <= t.regions@[i].outer_rings@.len()
    ensures ({ let g = t.regions@[i]; let o = WindingOrder::Clockwise; wound_n(f_red(f), g.outer_rings@, o, n) - wound_n(f_red(f_back(f)), g.outer_rings@, o, n) == val_r(g, n, w_of(t, f)) })
    decreases n
{
    if n > 0 {
        lemma_outer_val(t, f, i, n - 1);
        let g = t.regions@[i]; let r = ring_k(g, n - 1);
        assert(region_refs_ok(g, i, t.edges@.len() as int));
        assert(ring_in(r, t.edges@.len() as int));
        lemma_ring_val(t, f, r, back_k(g, n - 1), r.directed_edges@.len() as int);
        assert(sides_of(r).len() == r.directed_edges@.len());
    }
}
pub proof fn lemma_inner_val<Data>(t: Topology<Data>, f: F, i: int, n: int)
    requires heap_is(t), topo_fine(t), 0 <= i < t.regions@.len(), 0 <= n <= t.regions@[i].inner_rings@.len()
    ensures ({ let g = t.regions@[i]; let o = WindingOrder::CounterClockwise; let m = g.outer_rings@.len() as int; wound_n(f_red(f), g.inner_rings@, o, n) - wound_n(f_red(f_back(f)), g.inner_rings@, o, n) == val_r(g, m + n, w_of(t, f)) - val_r(g, m, w_of(t, f)) })
    decreases n
{
    if n > 0 {
        lemma_inner_val(t, f, i, n - 1);
        let g = t.regions@[i]; let k = g.outer_rings@.len() + n - 1; let r = ring_k(g, k);
        assert(region_refs_ok(g, i, t.edges@.len() as int));
        assert(ring_in(r, t.edges@.len() as int));
        assert(r == g.inner_rings@[n - 1]);
        lemma_ring_val(t, f, r, back_k(g, k), r.directed_edges@.len() as int);
        assert(sides_of(r).len() == r.directed_edges@.len());
    }
}
/// The segments with region i on both sides come in opposite pairs.
pub open spec fn paired<Data>(t: Topology<Data>, i: int) -> bool { pairs_off(t.regions@[i]) }
pub proof fn lemma_pairs_off<Data>(t: Topology<Data>, i: int)
    requires fine(t), once(t, i), 0 <= i < t.regions@.len()
    ensures paired(t, i), pairs_off(t.regions@[i])
{
    reveal(pairs_off);
    let g = t.regions@[i]; let n = n_rings(g); let top = t.edges@.len() as int;
    assert forall|f: F| #[trigger] region_red(f, g) == region_red(f_back(f), g) by {
        let w = w_of(t, f);
        assert forall|x: int| 0 <= x < top implies #[trigger] even(g, n, w, x) by { if stored(t, x).a == stored(t, x).b { lemma_both(t, i, x); } else { lemma_w_zero(t, f, x); } }
        lemma_even(g, n, w, top);
        lemma_outer_val(t, f, i, g.outer_rings@.len() as int); lemma_inner_val(t, f, i, g.inner_rings@.len() as int);
    }
}
