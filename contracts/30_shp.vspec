%module read::shapefile::shp src/read/shapefile/shp.rs
%raw
use crate::prelude::*;
%type ShpError
%type ShpShapeType #[derive(Clone, Copy)]
%type ShpBoundingBox #[derive(Clone, Copy)]
%type ShpHeader #[derive(Clone, Copy)]
%type ShpPolygonRecord
%type ShpPolygonRing
%type ShpPoint #[derive(Clone, Copy)]
%type ShpReader
%const SHP_HEADER_LENGTH
%const SHP_RECORD_HEADER_LENGTH
%const SHP_MAGIC_NUMBER
%const SHP_VERSION
%const SHP_POINT_LENGTH
%const SHP_POLYGON_HEADER_LENGTH
%raw
// ---- the format, as ESRI describes it ---------------------------------------
pub open spec fn sub(b: Seq<u8>, at: int, n: int) -> Seq<u8> { b.subrange(at, at + n) }
pub open spec fn header_ok(b: Seq<u8>) -> bool {
    b.len() >= 100 && be32(sub(b, 0, 4)) == 9994 && le32(sub(b, 28, 4)) == 1000 && le32(sub(b, 32, 4)) == 5
}
pub open spec fn header_is(b: Seq<u8>, h: ShpHeader) -> bool {
    &&& h.file_n_bytes == 2 * be32(sub(b, 24, 4))
    &&& h.shape_type is Polygon
    &&& h.bounding_box == ShpBoundingBox(le_f64(sub(b, 36, 8)), le_f64(sub(b, 44, 8)), le_f64(sub(b, 52, 8)), le_f64(sub(b, 60, 8)))
}
pub open spec fn n_parts(b: Seq<u8>) -> int { le32(sub(b, 36, 4)) as int }
pub open spec fn n_points(b: Seq<u8>) -> int { le32(sub(b, 40, 4)) as int }
pub open spec fn part_lo(b: Seq<u8>, i: int) -> int { le32(sub(b, 44 + 4 * i, 4)) as int }
pub open spec fn part_hi(b: Seq<u8>, i: int) -> int { if i + 1 < n_parts(b) { part_lo(b, i + 1) } else { n_points(b) } }
pub open spec fn point_at(b: Seq<u8>, k: int) -> ShpPoint {
    let o = 44 + 4 * n_parts(b) + 16 * k;
    ShpPoint(le_f64(sub(b, o, 8)), le_f64(sub(b, o + 8, 8)))
}
/// Part i is a ring of at least four points that lies within the record.
pub open spec fn part_ok(b: Seq<u8>, i: int) -> bool { part_lo(b, i) + 4 <= part_hi(b, i) <= n_points(b) }
pub open spec fn record_ok(b: Seq<u8>) -> bool {
    &&& b.len() >= 44 && le32(sub(b, 0, 4)) == 5
    &&& n_parts(b) > 0
    &&& b.len() == 44 + 4 * n_parts(b) + 16 * n_points(b)
    &&& forall|i: int| #![trigger part_ok(b, i)] 0 <= i < n_parts(b) ==> part_ok(b, i)
}
pub open spec fn ring_is(b: Seq<u8>, i: int, r: ShpPolygonRing) -> bool {
    &&& r.0@.len() == part_hi(b, i) - part_lo(b, i)
    &&& forall|j: int| #![trigger r.0@[j]] 0 <= j < r.0@.len() ==> r.0@[j] == point_at(b, part_lo(b, i) + j)
}
pub open spec fn rings_are(b: Seq<u8>, rings: Seq<ShpPolygonRing>, n: int) -> bool {
    rings.len() == n && forall|i: int| #![trigger rings[i]] 0 <= i < n ==> ring_is(b, i, rings[i])
}
pub open spec fn record_is(b: Seq<u8>, r: ShpPolygonRecord) -> bool { rings_are(b, r.rings@, n_parts(b)) }
/// The record at the head of the stream b: its header's content length counts 16-bit words.
pub open spec fn content_len(b: Seq<u8>) -> int { 2 * be32(sub(b, 4, 4)) as int }
pub open spec fn content(b: Seq<u8>) -> Seq<u8> { sub(b, 8, content_len(b)) }
pub open spec fn whole_record(b: Seq<u8>) -> bool { b.len() >= 8 && b.len() >= 8 + content_len(b) }
pub open spec fn decoded(b: Seq<u8>, r: Result<ShpPolygonRecord, ShpError>) -> bool {
    &&& r is Ok <==> record_ok(content(b))
    &&& r is Ok ==> record_is(content(b), r->Ok_0) && r->Ok_0.record_number == be32(sub(b, 0, 4))
}
pub open spec fn reader_wf(r: ShpReader) -> bool { r.header.file_n_bytes <= 2 * 0xffff_ffff }
/// One step of the iteration.
pub open spec fn shp_step(o: ShpReader, n: ShpReader, r: Option<Result<ShpPolygonRecord, ShpError>>) -> bool {
    let b = o.file.bytes();
    let end = o.n_bytes_already_read + 8 + content_len(b);
    &&& n.header == o.header
    &&& r is None <==> o.n_bytes_already_read >= o.header.file_n_bytes
    &&& r is None ==> n == o
    // it ends: every step gets nearer to the stated length
    &&& r is Some ==> n.n_bytes_already_read > o.n_bytes_already_read
    // a record read: it is the next one in the stream, and lies within the stated length
    &&& r is Some && r->Some_0 is Ok ==> whole_record(b) && decoded(b, r->Some_0) && n.n_bytes_already_read == end && end <= o.header.file_n_bytes
            && n.file.bytes() == b.skip(8 + content_len(b))
    // an error: the record does not decode or goes beyond the stated length, and the next one follows; or the stream is over
    &&& r is Some && r->Some_0 is Err ==> {
            ||| n.n_bytes_already_read == n.header.file_n_bytes && (!whole_record(b) || io_failed(n.file))
            ||| whole_record(b) && n.n_bytes_already_read == end && n.file.bytes() == b.skip(8 + content_len(b))
                && (end > o.header.file_n_bytes || !record_ok(content(b)))
        }
}
%fn ShpShapeType::with_u32
%ensures
        r == Some(ShpShapeType::Polygon) <==> u == 5,
%fn read_shp_header
%opt arrays_as_vec
%ensures
        r is Ok ==> header_ok(old(file).bytes()) && header_is(old(file).bytes(), r->Ok_0) && final(file).bytes() == old(file).bytes().skip(100),
        r is Err ==> !header_ok(old(file).bytes()) || io_failed(*final(file)),
%fn parse_point
%requires buf@.len() >= 16,
%ensures r == Ok::<ShpPoint, ShpError>(ShpPoint(le_f64(sub(buf@, 0, 8)), le_f64(sub(buf@, 8, 8)))),
%fn parse_polygon_record
%ensures
        r is Ok <==> record_ok(buf@),
        r is Ok ==> record_is(buf@, r->Ok_0) && r->Ok_0.record_number == record_number,
%loop 1
            points@.len() == __k1, num_parts == n_parts(buf@), num_points == n_points(buf@), buf@.len() == 44 + 4 * num_parts + 16 * num_points,
            __n1 == num_points, __e1@ == buf@.subrange(44 + 4 * num_parts, buf@.len() as int),
            forall|k: int| #![trigger points@[k]] 0 <= k < __k1 ==> points@[k] == point_at(buf@, k),
%loop 2
            __n2 == num_parts, __e2@ == buf@.subrange(44, 44 + 4 * num_parts), __c2@.len() == __k2,
            forall|k: int| #![trigger __c2@[k]] 0 <= k < __k2 ==> __c2@[k] == part_lo(buf@, k),
%at let parts 1
    assert(parts@.len() == num_parts);
%loop 3
            rings_are(buf@, rings@, __k3 as int),
            forall|i: int| #![trigger part_ok(buf@, i)] 0 <= i < __k3 ==> part_ok(buf@, i),
%at loop3.start
    proof {
        assert(part_lo(buf@, __i3 as int) == parts@[__i3 as int] && part_lo(buf@, __i3 + 1) == parts@[__i3 + 1]);
        assert(part_hi(buf@, __i3 as int) == parts@[__i3 + 1]);
        if !part_ok(buf@, __i3 as int) { assert(!record_ok(buf@)); }
        if part_lo(buf@, __i3 as int) > n_points(buf@) { assert(!part_ok(buf@, __i3 as int)); }
    }
%at let last_part 1
    proof { if !part_ok(buf@, num_parts - 1) { assert(!record_ok(buf@)); } }
%fn read_polygon_record
%opt arrays_as_vec
%ensures
        r is Ok ==> whole_record(old(file).bytes()) && decoded(old(file).bytes(), r->Ok_0.0)
            && r->Ok_0.1 == 8 + content_len(old(file).bytes()) && final(file).bytes() == old(file).bytes().skip(8 + content_len(old(file).bytes())),
        r is Err ==> !whole_record(old(file).bytes()) || io_failed(*final(file)),
%at fn_start
    proof {
        let b = file.bytes(); let n = content_len(b);
        assert(whole_record(b) ==> b.skip(8).subrange(0, n) =~= content(b));
        assert(whole_record(b) ==> b.skip(8).skip(n) =~= b.skip(8 + n));
    }
%fn ShpReader::new
%ensures
        r is Ok ==> header_ok(file.bytes()) && header_is(file.bytes(), r->Ok_0.header) && r->Ok_0.file.bytes() == file.bytes().skip(100)
            && r->Ok_0.n_bytes_already_read == 100 && reader_wf(r->Ok_0),
%fn open
%ensures
        r is Ok ==> header_ok(file_bytes(path.name())) && header_is(file_bytes(path.name()), r->Ok_0.header) && r->Ok_0.file.bytes() == file_bytes(path.name()).skip(100)
            && r->Ok_0.n_bytes_already_read == 100 && reader_wf(r->Ok_0),
%fn ShpReader::next
%requires reader_wf(*old(self)),
%ensures shp_step(*old(self), *final(self), r),
%fn ShpError::Display::fmt
%opt plain
%fn ShpPoint::Display::fmt
%opt plain
%raw
impl Show for ShpPoint { open spec fn showable(&self) -> bool { true } }
%fn ShpPolygonRing::Display::fmt
%opt plain
%raw
impl Show for ShpPolygonRing { open spec fn showable(&self) -> bool { true } }
