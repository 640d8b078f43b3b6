%module clip::types src/clip/types.rs
%raw
use crate::geo::*;
%type ClipMask
%type ClipLocation #[derive(PartialEq, Eq)]
%raw
impl PartialEqSpecImpl for ClipLocation {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
pub open spec fn loc(m: ClipMask, p: Point) -> ClipLocation {
    match m {
        ClipMask::MinX(x) => if p.0 == x { ClipLocation::OnEdge } else if p.0 > x { ClipLocation::Inside } else { ClipLocation::Outside },
        ClipMask::MaxX(x) => if p.0 == x { ClipLocation::OnEdge } else if p.0 < x { ClipLocation::Inside } else { ClipLocation::Outside },
        ClipMask::MinY(y) => if p.1 == y { ClipLocation::OnEdge } else if p.1 > y { ClipLocation::Inside } else { ClipLocation::Outside },
        ClipMask::MaxY(y) => if p.1 == y { ClipLocation::OnEdge } else if p.1 < y { ClipLocation::Inside } else { ClipLocation::Outside },
    }
}
pub open spec fn mask_at(m: ClipMask) -> u32 { match m { ClipMask::MinX(x) => x, ClipMask::MaxX(x) => x, ClipMask::MinY(x) => x, ClipMask::MaxY(x) => x } }
pub open spec fn is_x(m: ClipMask) -> bool { m is MinX || m is MaxX }
/// The coordinate the mask tests, and the other one.
pub open spec fn main_c(m: ClipMask, p: Point) -> int { if is_x(m) { p.0 as int } else { p.1 as int } }
pub open spec fn other_c(m: ClipMask, p: Point) -> int { if is_x(m) { p.1 as int } else { p.0 as int } }
pub open spec fn straddles(m: ClipMask, a: Point, b: Point) -> bool {
    (loc(m, a) is Inside && loc(m, b) is Outside) || (loc(m, a) is Outside && loc(m, b) is Inside)
}
pub open spec fn between(a: int, x: int, b: int) -> bool { (a <= x && x <= b) || (b <= x && x <= a) }
/// c is on the mask line, between the ends in the other coordinate, and less than one unit from the exact crossing:
/// the exact other coordinate is oa + (m - ma) * (ob - oa) / (mb - ma), so |(oc - oa) * (mb - ma) - (m - ma) * (ob - oa)| < |mb - ma|.
pub open spec fn is_crossing(m: ClipMask, a: Point, b: Point, c: Point) -> bool {
    let d = main_c(m, b) - main_c(m, a);
    let e = (other_c(m, c) - other_c(m, a)) * d - (mask_at(m) as int - main_c(m, a)) * (other_c(m, b) - other_c(m, a));
    main_c(m, c) == mask_at(m) as int && between(other_c(m, a), other_c(m, c), other_c(m, b)) && iabs(e) < iabs(d)
}
/// Truncating division, as the machine does it (the spec's `/` leaves a non-negative remainder).
pub open spec fn tdiv(a: int, b: int) -> int { vstd::arithmetic::div_mod::rust_div(a, b) }
pub proof fn lemma_mul_bound(a: int, b: int, m: int)
    requires -m <= a <= m, -m <= b <= m, m >= 0
    ensures -m * m <= a * b <= m * m
{
    assert(-m * m <= a * b <= m * m) by (nonlinear_arith) requires -m <= a <= m, -m <= b <= m, m >= 0;
}
/// The interpolation's quotient: between 0 and ob - oa, and off by less than one.
pub proof fn lemma_interp(u: int, d: int, w: int)
    requires d != 0, (0 < u && u < d) || (d < u && u < 0),
    ensures ({ let q = tdiv(u * w, d); between(0, q, w) && iabs(q * d - u * w) < iabs(d) })
{
    let n = iabs(u * w);
    let k = n / d;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, d);
    assert(0 <= n % d < iabs(d)) by (nonlinear_arith) requires d != 0, iabs(d) == (if d >= 0 { d } else { -d });
    assert(n == d * k + n % d);
    let ak = if d > 0 { k } else { -k };
    let ad = iabs(d);
    assert(d * k == ad * ak) by (nonlinear_arith) requires (d > 0 && ak == k && ad == d) || (d < 0 && ak == -k && ad == -d);
    assert(n == iabs(u) * iabs(w)) by (nonlinear_arith) requires n == (if u * w >= 0 { u * w } else { -(u * w) }), iabs(u) == (if u >= 0 { u } else { -u }), iabs(w) == (if w >= 0 { w } else { -w });
    assert(n <= ad * iabs(w)) by (nonlinear_arith) requires n == iabs(u) * iabs(w), 0 <= iabs(u) < ad, iabs(w) >= 0;
    assert(ak <= iabs(w)) by (nonlinear_arith) requires n >= ad * ak, n <= ad * iabs(w), ad > 0;
    assert(ak >= 0) by (nonlinear_arith) requires n == ad * ak + n % d, n % d < ad, n >= 0, ad > 0;
    let q = tdiv(u * w, d);
    if u * w >= 0 {
        if u * w == 0 { assert(ak == 0) by (nonlinear_arith) requires n == ad * ak + n % d, n == 0, n % d >= 0, ak >= 0, ad > 0; }
        assert(q == k);
        assert(q * d == d * k) by (nonlinear_arith) requires q == k;
        if w < 0 && d > 0 { assert(u * w < 0) by (nonlinear_arith) requires u > 0, w < 0; }
        if w > 0 && d < 0 { assert(u * w < 0) by (nonlinear_arith) requires u < 0, w > 0; }
        if w == 0 { assert(ak == 0); }
    } else {
        assert(q == -k);
        assert(q * d == -(d * k)) by (nonlinear_arith) requires q == -k;
        if w >= 0 && d > 0 { assert(u * w >= 0) by (nonlinear_arith) requires u > 0, w >= 0; }
        if w <= 0 && d < 0 { assert(u * w >= 0) by (nonlinear_arith) requires u < 0, w <= 0; }
    }
}
%fn ClipMask::test::t
%ensures r == (if inside { ClipLocation::Inside } else { ClipLocation::Outside }),
%fn ClipMask::test
%ensures r == loc(*self, *point),
%fn ClipMask::intersect::i
%ensures r == u as i128,
%fn ClipMask::intersect
%requires straddles(*self, *p1, *p2),
%ensures is_crossing(*self, *p1, *p2, r),
%at fn_start
    proof {
        let u = mask_at(*self) as int - main_c(*self, *p1);
        let d = main_c(*self, *p2) - main_c(*self, *p1);
        let w = other_c(*self, *p2) - other_c(*self, *p1);
        lemma_interp(u, d, w);
        lemma_mul_bound(u, w, 0xffff_ffff);
        let q = tdiv(u * w, d);
        assert(forall|c: Point| #![trigger is_crossing(*self, *p1, *p2, c)] main_c(*self, c) == mask_at(*self) as int && other_c(*self, c) == other_c(*self, *p1) + q ==> is_crossing(*self, *p1, *p2, c));
    }
%module clip::edge src/clip/edge.rs
%raw
use crate::geo::*;
use crate::clip::types::*;

/// `out` is a correct clipping of the first n vertices of s: src[j] is the index of the vertex out[j] comes from
/// (or of the segment's second vertex, for crossings), kind[j] says what it is:
/// 2: the vertex itself; 1: the crossing between it and the one before; 0: the on-line vertex just before it.
pub open spec fn good(s: Seq<Point>, m: ClipMask, n: int, out: Seq<Point>, src: Seq<int>, kind: Seq<int>) -> bool {
    &&& src.len() == out.len() && kind.len() == out.len()
    // nothing else: each entry is an inside vertex, a crossing, or an on-line vertex next to an inside one
    &&& forall|j: int| #![trigger out[j]] 0 <= j < out.len() ==> entry_ok(s, m, n, out[j], src[j], kind[j])
    // in order, and none twice
    &&& forall|i: int, j: int| #![trigger src[i], src[j]] 0 <= i < j < out.len() ==> src[i] < src[j] || (src[i] == src[j] && kind[i] < kind[j])
    // an on-line vertex is not listed twice in a row
    &&& forall|j: int| #![trigger kind[j]] 1 <= j < out.len() && kind[j] == 0 ==> out[j - 1] != out[j]
    // complete
    &&& forall|v: int| #![trigger complete_at(s, m, out, src, kind, v)] 0 <= v < n ==> complete_at(s, m, out, src, kind, v)
}
/// Vertex v is accounted for: it is there if inside or if the path gets to the line there from the inside; the crossing
/// before it is there; and coming in from the line, the on-line vertex is just before it.
pub open spec fn complete_at(s: Seq<Point>, m: ClipMask, out: Seq<Point>, src: Seq<int>, kind: Seq<int>, v: int) -> bool {
    &&& loc(m, s[v]) is Inside ==> has(src, kind, v, 2)
    &&& v > 0 && straddles(m, s[v - 1], s[v]) ==> has(src, kind, v, 1)
    &&& v > 0 && loc(m, s[v - 1]) is Inside && loc(m, s[v]) is OnEdge ==> has(src, kind, v, 2)
    &&& v > 0 && loc(m, s[v - 1]) is OnEdge && loc(m, s[v]) is Inside ==> comes_from_line(s, out, src, kind, v)
}
pub open spec fn entry_ok(s: Seq<Point>, m: ClipMask, n: int, p: Point, v: int, k: int) -> bool {
    &&& 0 <= v < n
    &&& k == 2 ==> p == s[v] && (loc(m, s[v]) is Inside || (v > 0 && loc(m, s[v]) is OnEdge && loc(m, s[v - 1]) is Inside))
    &&& k == 1 ==> v > 0 && straddles(m, s[v - 1], s[v]) && is_crossing(m, s[v - 1], s[v], p)
    &&& k == 0 ==> v > 0 && p == s[v - 1] && loc(m, s[v - 1]) is OnEdge && loc(m, s[v]) is Inside
    &&& (k == 0 || k == 1 || k == 2)
    &&& !(loc(m, p) is Outside)
}
pub open spec fn has(src: Seq<int>, kind: Seq<int>, v: int, k: int) -> bool {
    exists|j: int| 0 <= j < src.len() && #[trigger] src[j] == v && kind[j] == k
}
pub open spec fn comes_from_line(s: Seq<Point>, out: Seq<Point>, src: Seq<int>, kind: Seq<int>, v: int) -> bool {
    exists|j: int| 1 <= j < src.len() && #[trigger] src[j] == v && kind[j] == 2 && out[j - 1] == s[v - 1]
}
pub open spec fn all_inside(s: Seq<Point>, m: ClipMask) -> bool { forall|v: int| #![trigger s[v]] 0 <= v < s.len() ==> loc(m, s[v]) is Inside }
pub open spec fn none_inside(s: Seq<Point>, m: ClipMask) -> bool { forall|v: int| #![trigger s[v]] 0 <= v < s.len() ==> !(loc(m, s[v]) is Inside) }
pub open spec fn is_clipped(s: Seq<Point>, m: ClipMask, out: Seq<Point>) -> bool {
    &&& exists|src: Seq<int>, kind: Seq<int>| #[trigger] good(s, m, s.len() as int, out, src, kind)
    &&& all_inside(s, m) ==> out =~= s
    &&& none_inside(s, m) ==> out.len() == 0
    &&& forall|j: int| #![trigger out[j]] 0 <= j < out.len() ==> !(loc(m, out[j]) is Outside)
}
/// One more entry, and one more vertex or not.
pub proof fn lemma_push(s: Seq<Point>, m: ClipMask, n: int, out: Seq<Point>, src: Seq<int>, kind: Seq<int>, p: Point, v: int, k: int)
    requires src.len() == out.len() && kind.len() == out.len(), entry_ok(s, m, n, p, v, k),
        forall|j: int| #![trigger out[j]] 0 <= j < out.len() ==> entry_ok(s, m, n, out[j], src[j], kind[j]),
    ensures
        ({ let o = out.push(p); let s2 = src.push(v); let k2 = kind.push(k);
            &&& o.len() == s2.len() && s2.len() == k2.len()
            &&& forall|j: int| #![trigger o[j]] 0 <= j < o.len() ==> entry_ok(s, m, n, o[j], s2[j], k2[j])
            &&& forall|u: int| #![trigger complete_at(s, m, o, s2, k2, u)] complete_at(s, m, out, src, kind, u) ==> complete_at(s, m, o, s2, k2, u)
            &&& has(s2, k2, v, k)
            &&& forall|u: int, l: int| #![trigger has(src, kind, u, l)] has(src, kind, u, l) ==> has(s2, k2, u, l)
        }),
{
    let s2 = src.push(v); let k2 = kind.push(k); let o = out.push(p);
    assert forall|u: int, l: int| #![trigger has(src, kind, u, l)] has(src, kind, u, l) implies has(s2, k2, u, l) by {
        let j = choose|j: int| 0 <= j < src.len() && #[trigger] src[j] == u && kind[j] == l;
        assert(s2[j] == u && k2[j] == l);
    }
    assert(s2[src.len() as int] == v && k2[src.len() as int] == k);
    assert forall|u: int| #![trigger comes_from_line(s, out, src, kind, u)] comes_from_line(s, out, src, kind, u) implies comes_from_line(s, o, s2, k2, u) by {
        let j = choose|j: int| 1 <= j < src.len() && #[trigger] src[j] == u && kind[j] == 2 && out[j - 1] == s[u - 1];
        assert(s2[j] == u && k2[j] == 2 && o[j - 1] == s[u - 1]);
    }
    assert forall|u: int| #![trigger complete_at(s, m, o, s2, k2, u)] complete_at(s, m, out, src, kind, u) implies complete_at(s, m, o, s2, k2, u) by {
        assert(has(src, kind, u, 2) ==> has(s2, k2, u, 2));
        assert(has(src, kind, u, 1) ==> has(s2, k2, u, 1));
        assert(comes_from_line(s, out, src, kind, u) ==> comes_from_line(s, o, s2, k2, u));
    }
}
/// What vertex n adds.
pub open spec fn step_out(s: Seq<Point>, m: ClipMask, n: int, out: Seq<Point>, new: Seq<Point>) -> bool {
    let c = new[out.len() as int];
    match (loc(m, s[n - 1]), loc(m, s[n])) {
        (ClipLocation::Inside, ClipLocation::Outside) => new =~= out.push(c) && is_crossing(m, s[n - 1], s[n], c),
        (ClipLocation::Inside, _) => new =~= out.push(s[n]),
        (ClipLocation::Outside, ClipLocation::Inside) => new =~= out.push(c).push(s[n]) && is_crossing(m, s[n - 1], s[n], c),
        (ClipLocation::OnEdge, ClipLocation::Inside) =>
            if out.len() > 0 && out.last() == s[n - 1] { new =~= out.push(s[n]) } else { new =~= out.push(s[n - 1]).push(s[n]) },
        _ => new =~= out,
    }
}
pub open spec fn upto(s: Seq<Point>, m: ClipMask, n: int, out: Seq<Point>) -> bool {
    &&& exists|src: Seq<int>, kind: Seq<int>| #[trigger] good(s, m, n, out, src, kind)
    &&& all_inside(s.take(n), m) ==> out =~= s.take(n)
}
pub proof fn lemma_first(s: Seq<Point>, m: ClipMask, out: Seq<Point>)
    requires s.len() > 0, out =~= (if loc(m, s[0]) is Inside { seq![s[0]] } else { seq![] }),
    ensures upto(s, m, 1, out)
{
    if loc(m, s[0]) is Inside {
        let src = seq![0int]; let kind = seq![2int];
        assert(src[0] == 0 && kind[0] == 2);
        assert(complete_at(s, m, out, src, kind, 0));
        assert(good(s, m, 1, out, src, kind));
    } else {
        assert(good(s, m, 1, out, seq![], seq![]));
        assert(s.take(1)[0] == s[0]);
    }
}
/// Entries appended for vertex n keep everything in order.
pub proof fn lemma_good(s: Seq<Point>, m: ClipMask, n: int, out: Seq<Point>, src: Seq<int>, kind: Seq<int>, p: Point, v: int, k: int)
    requires good(s, m, n, out, src, kind), 0 <= n < s.len(), entry_ok(s, m, n + 1, p, v, k), v == n, k == 0 && out.len() > 0 ==> out.last() != p,
        complete_at(s, m, out.push(p), src.push(v), kind.push(k), n),
    ensures good(s, m, n + 1, out.push(p), src.push(v), kind.push(k))
{
    assert forall|j: int| #![trigger out[j]] 0 <= j < out.len() implies entry_ok(s, m, n + 1, out[j], src[j], kind[j]) by { }
    lemma_push(s, m, n + 1, out, src, kind, p, v, k);
    let s2 = src.push(v);
    assert forall|i: int, j: int| #![trigger s2[i], s2[j]] 0 <= i < j < out.len() + 1 implies s2[i] < s2[j] || (s2[i] == s2[j] && kind.push(k)[i] < kind.push(k)[j]) by {
        assert(entry_ok(s, m, n, out[i], src[i], kind[i]));
        if j < out.len() { assert(src[i] == s2[i] && src[j] == s2[j]); }
    }
    assert forall|u: int| #![trigger complete_at(s, m, out.push(p), s2, kind.push(k), u)] 0 <= u < n + 1 implies complete_at(s, m, out.push(p), s2, kind.push(k), u) by {
        if u < n { assert(complete_at(s, m, out, src, kind, u)); }
    }
}
pub proof fn lemma_good2(s: Seq<Point>, m: ClipMask, n: int, out: Seq<Point>, src: Seq<int>, kind: Seq<int>, p: Point, k: int, q: Point)
    requires good(s, m, n, out, src, kind), 0 <= n < s.len(), entry_ok(s, m, n + 1, p, n, k), k < 2, entry_ok(s, m, n + 1, q, n, 2), k == 0 && out.len() > 0 ==> out.last() != p,
        complete_at(s, m, out.push(p).push(q), src.push(n).push(n), kind.push(k).push(2), n),
    ensures good(s, m, n + 1, out.push(p).push(q), src.push(n).push(n), kind.push(k).push(2))
{
    assert forall|j: int| #![trigger out[j]] 0 <= j < out.len() implies entry_ok(s, m, n + 1, out[j], src[j], kind[j]) by { }
    lemma_push(s, m, n + 1, out, src, kind, p, n, k);
    let o1 = out.push(p); let s1 = src.push(n); let k1 = kind.push(k);
    lemma_push(s, m, n + 1, o1, s1, k1, q, n, 2);
    let o2 = o1.push(q); let s2 = s1.push(n); let k2 = k1.push(2);
    assert forall|i: int, j: int| #![trigger s2[i], s2[j]] 0 <= i < j < o2.len() implies s2[i] < s2[j] || (s2[i] == s2[j] && k2[i] < k2[j]) by {
        if i < out.len() { assert(entry_ok(s, m, n, out[i], src[i], kind[i])); assert(src[i] == s2[i]); }
        if j < out.len() { assert(src[j] == s2[j]); }
    }
    assert forall|u: int| #![trigger complete_at(s, m, o2, s2, k2, u)] 0 <= u < n + 1 implies complete_at(s, m, o2, s2, k2, u) by {
        if u < n { assert(complete_at(s, m, out, src, kind, u)); assert(complete_at(s, m, o1, s1, k1, u)); }
    }
}
pub proof fn lemma_step(s: Seq<Point>, m: ClipMask, n: int, out: Seq<Point>, new: Seq<Point>)
    requires 1 <= n < s.len(), upto(s, m, n, out), step_out(s, m, n, out, new),
    ensures upto(s, m, n + 1, new)
{
    let (src, kind) = choose|src: Seq<int>, kind: Seq<int>| #[trigger] good(s, m, n, out, src, kind);
    let c = new[out.len() as int];
    let t = s.take(n + 1);
    if all_inside(t, m) {
        assert forall|v: int| 0 <= v < n implies loc(m, #[trigger] s.take(n)[v]) is Inside by { assert(t[v] == s.take(n)[v]); }
        assert(t[n] == s[n] && t[n - 1] == s[n - 1]);
        assert(s.take(n).push(s[n]) =~= t);
        assert(new =~= t);
    }
    let e = out.len() as int;
    match (loc(m, s[n - 1]), loc(m, s[n])) {
        (ClipLocation::Inside, ClipLocation::Outside) => {
            assert(src.push(n)[e] == n && kind.push(1)[e] == 1);
            lemma_good(s, m, n, out, src, kind, c, n, 1);
        }
        (ClipLocation::Inside, _) => {
            assert(src.push(n)[e] == n && kind.push(2)[e] == 2);
            lemma_good(s, m, n, out, src, kind, s[n], n, 2);
        }
        (ClipLocation::Outside, ClipLocation::Inside) => {
            assert(src.push(n).push(n)[e] == n && kind.push(1).push(2)[e] == 1);
            assert(src.push(n).push(n)[e + 1] == n && kind.push(1).push(2)[e + 1] == 2);
            lemma_good2(s, m, n, out, src, kind, c, 1, s[n]);
        }
        (ClipLocation::OnEdge, ClipLocation::Inside) => {
            if out.len() > 0 && out.last() == s[n - 1] {
                assert(src.push(n)[e] == n && kind.push(2)[e] == 2 && out.push(s[n])[e - 1] == s[n - 1]);
                lemma_good(s, m, n, out, src, kind, s[n], n, 2);
            } else {
                assert(src.push(n).push(n)[e + 1] == n && kind.push(0).push(2)[e + 1] == 2 && out.push(s[n - 1]).push(s[n])[e] == s[n - 1]);
                lemma_good2(s, m, n, out, src, kind, s[n - 1], 0, s[n]);
            }
        }
        _ => {
            assert forall|u: int| #![trigger complete_at(s, m, out, src, kind, u)] 0 <= u < n + 1 implies complete_at(s, m, out, src, kind, u) by { }
            assert(good(s, m, n + 1, new, src, kind));
        }
    }
}
pub proof fn lemma_last(s: Seq<Point>, m: ClipMask, out: Seq<Point>)
    requires s.len() >= 1, upto(s, m, s.len() as int, out),
    ensures is_clipped(s, m, out)
{
    assert(s.take(s.len() as int) =~= s);
    let (src, kind) = choose|src: Seq<int>, kind: Seq<int>| #[trigger] good(s, m, s.len() as int, out, src, kind);
    if none_inside(s, m) && out.len() > 0 {
        let v = src[0];
        assert(entry_ok(s, m, s.len() as int, out[0], src[0], kind[0]));
        assert(!(loc(m, s[v]) is Inside));
        if v > 0 { assert(!(loc(m, s[v - 1]) is Inside)); }
    }
}
%fn clip_edge
%requires points@.len() <= max_len(),
%ensures points@.len() >= 2 ==> is_clipped(points@, *mask, r@), points@.len() < 2 ==> r@.len() == 0,
%at loop1.before
    proof { lemma_first(points@, *mask, ret@); }
%loop 1
    points@.len() >= 2, __n1 == points@.len() - 1,
    *previous_point == points@[__k1 as int],
    previous_location == loc(*mask, *previous_point),
    upto(points@, *mask, __k1 + 1, ret@),
%at loop1.start
    let ghost out0 = ret@;
%at loop1.end
    proof { lemma_step(points@, *mask, __k1 as int, out0, ret@); }
%at loop1.after
    proof { lemma_last(points@, *mask, ret@); }
%end
