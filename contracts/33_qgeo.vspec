%module read::shapefile::geo src/read/shapefile/geo.rs
%raw
use crate::prelude::*;
use crate::geo;
use crate::read::shapefile::shp;
use crate::read::shapefile::dbf;
use crate::read::shapefile::shapefile;
%type ShapefileQuantizer
%type ShapefileGeoIterator
%raw
/// Finite corners and positive finite extent.
pub open spec fn good_box(b: shp::ShpBoundingBox) -> bool {
    fin(b.0) && fin(b.1) && fin(b.2) && fin(b.3) && fpos(fsub(b.2, b.0)) && fneg(fsub(b.1, b.3))
}
pub open spec fn quantizer_of(b: shp::ShpBoundingBox, q: ShapefileQuantizer) -> bool {
    q.x == b.0 && q.y == b.3 && q.w == fsub(b.2, b.0) && q.h == fsub(b.1, b.3)
}
pub open spec fn scaled(v: f64, origin: f64, extent: f64) -> u32 { u32_of_f(fmul(fdiv(fsub(v, origin), extent), f_of_u32(0xffff_ffff))) }
pub open spec fn quantized(q: ShapefileQuantizer, p: shp::ShpPoint) -> geo::Point { geo::Point(scaled(p.0, q.x, q.w), scaled(p.1, q.y, q.h)) }
/// C15: the corners of the box are the corners of the u32 square.
pub proof fn lemma_corners(b: shp::ShpBoundingBox, q: ShapefileQuantizer, p: shp::ShpPoint)
    requires good_box(b), quantizer_of(b, q)
    ensures
        p.0 == b.0 ==> quantized(q, p).0 == 0,
        p.0 == b.2 ==> quantized(q, p).0 == 0xffff_ffff,
        p.1 == b.3 ==> quantized(q, p).1 == 0,
        p.1 == b.1 ==> quantized(q, p).1 == 0xffff_ffff,
{
    axiom_f_zero(b.0, q.w, 0xffff_ffff);
    axiom_f_one(q.w, 0xffff_ffff);
    axiom_f_zero(b.3, q.h, 0xffff_ffff);
    axiom_f_one(q.h, 0xffff_ffff);
}
/// C15: x grows with x, y grows as the source y falls.
pub proof fn lemma_monotone(b: shp::ShpBoundingBox, q: ShapefileQuantizer, p: shp::ShpPoint, r: shp::ShpPoint)
    requires good_box(b), quantizer_of(b, q), fin(p.0), fin(p.1), fin(r.0), fin(r.1)
    ensures
        fle(p.0, r.0) ==> quantized(q, p).0 <= quantized(q, r).0,
        fle(r.1, p.1) ==> quantized(q, p).1 <= quantized(q, r).1,
{
    if fle(p.0, r.0) {
        axiom_f_sub_mono(p.0, r.0, q.x);
        axiom_f_div_pos(fsub(p.0, q.x), fsub(r.0, q.x), q.w);
        axiom_f_mul_pos(fdiv(fsub(p.0, q.x), q.w), fdiv(fsub(r.0, q.x), q.w), 0xffff_ffff);
        axiom_f_to_u32(fmul(fdiv(fsub(p.0, q.x), q.w), f_of_u32(0xffff_ffff)), fmul(fdiv(fsub(r.0, q.x), q.w), f_of_u32(0xffff_ffff)));
    }
    if fle(r.1, p.1) {
        axiom_f_sub_mono(r.1, p.1, q.y);
        axiom_f_div_neg(fsub(r.1, q.y), fsub(p.1, q.y), q.h);
        axiom_f_mul_pos(fdiv(fsub(p.1, q.y), q.h), fdiv(fsub(r.1, q.y), q.h), 0xffff_ffff);
        axiom_f_to_u32(fmul(fdiv(fsub(p.1, q.y), q.h), f_of_u32(0xffff_ffff)), fmul(fdiv(fsub(r.1, q.y), q.h), f_of_u32(0xffff_ffff)));
    }
}
pub open spec fn q_ring(q: ShapefileQuantizer, r: shp::ShpPolygonRing) -> Seq<geo::Point> { r.0@.map_values(|p: shp::ShpPoint| quantized(q, p)) }
/// The quantized rings among the first n that turn that way, in order.
pub open spec fn turning(q: ShapefileQuantizer, rings: Seq<shp::ShpPolygonRing>, n: int, cw: bool) -> Seq<Seq<geo::Point>> decreases n {
    if n <= 0 { Seq::empty() } else {
        let t = turning(q, rings, n - 1, cw); let r = q_ring(q, rings[n - 1]);
        if (geo::shoelace(r) >= 0) == cw { t.push(r) } else { t }
    }
}
pub open spec fn point_rings(v: Seq<geo::Ring>, s: Seq<Seq<geo::Point>>) -> bool {
    v.len() == s.len() && forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> v[i] is Points && v[i]->Points_0@ == s[i]
}
pub open spec fn region_of(q: ShapefileQuantizer, rec: shapefile::ShapefileRecord, g: geo::Region<dbf::DbfRecord>) -> bool {
    let n = rec.rings@.len() as int;
    g.data == rec.data && point_rings(g.outer_rings@, turning(q, rec.rings@, n, true)) && point_rings(g.inner_rings@, turning(q, rec.rings@, n, false))
}
%fn ShapefileQuantizer::new
%opt floats
%ensures quantizer_of(*bbox, r),
%fn ShapefileQuantizer::quantize
%opt floats
%ensures r == quantized(*self, *shp_point),
%fn ShapefileGeoIterator::new
%ensures quantizer_of(old(reader).shp_reader.header.bounding_box, r.quantizer), *r.reader == *old(reader),
%fn ShapefileGeoIterator::shp_polygon_ring_to_ring
%ensures r is Points && r->Points_0@ == q_ring(self.quantizer, *shp_ring),
%loop 1
            __c1@.len() == __k1, forall|i: int| #![trigger __c1@[i]] 0 <= i < __k1 ==> __c1@[i] == quantized(self.quantizer, shp_ring.0@[i]),
%at loop1.after
    proof { assert(__c1@ =~= q_ring(self.quantizer, *shp_ring)); }
%fn ShapefileGeoIterator::next
%iter 1 ref
%requires shapefile::wf(*old(self).reader),
%ensures
        exists|item: Option<Result<shapefile::ShapefileRecord, shapefile::ShapefileError>>| #[trigger] shapefile::joint_step(*old(self).reader, *final(self).reader, item) && ({
            &&& item is None ==> r is None
            &&& item is Some && item->Some_0 is Err ==> r == Some(Err::<geo::Region<dbf::DbfRecord>, shapefile::ShapefileError>(item->Some_0->Err_0))
            &&& item is Some && item->Some_0 is Ok ==> r is Some && r->Some_0 is Ok && region_of(old(self).quantizer, item->Some_0->Ok_0, r->Some_0->Ok_0)
        }),
%loop 1
            point_rings(__c1a@, turning(self.quantizer, record.rings@, __k1 as int, true)), point_rings(__c1b@, turning(self.quantizer, record.rings@, __k1 as int, false)),
%at match 1
    let ghost item = __t1_0;
    proof { assert(shapefile::joint_step(*old(self).reader, *self.reader, item)); }
