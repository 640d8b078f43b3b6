%module read::shapefile::shapefile src/read/shapefile/shapefile.rs
%raw
use crate::prelude::*;
use crate::read::shapefile::shp;
use crate::read::shapefile::dbf;
%type ShapefileReader
%type ShapefileError
%type ShapefileRecord
%raw
pub open spec fn wf(r: ShapefileReader) -> bool { shp::reader_wf(r.shp_reader) && dbf::dbf_wf(r.dbf_reader) }
/// How a geometry step and an attribute step make one item.
pub open spec fn joined(a: Option<Result<shp::ShpPolygonRecord, shp::ShpError>>, b: Option<Result<dbf::DbfRecord, dbf::DbfError>>, r: Option<Result<ShapefileRecord, ShapefileError>>) -> bool {
    match (a, b) {
        (None, None) => r is None,
        (Some(_), None) => r is Some && r->Some_0 is Err && r->Some_0->Err_0 is JoinError,
        (None, Some(_)) => r is Some && r->Some_0 is Err && r->Some_0->Err_0 is JoinError,
        (Some(Err(e)), Some(_)) => r == Some(Err::<ShapefileRecord, ShapefileError>(ShapefileError::ShpError(e))),
        (Some(Ok(_)), Some(Err(e))) => r == Some(Err::<ShapefileRecord, ShapefileError>(ShapefileError::DbfError(e))),
        (Some(Ok(s)), Some(Ok(d))) => r is Some && r->Some_0 is Ok && r->Some_0->Ok_0.rings@ == s.rings@ && r->Some_0->Ok_0.data == d,
    }
}
/// One step: each file advances by exactly one record, and the item joins the two.
pub open spec fn joint_step(o: ShapefileReader, n: ShapefileReader, r: Option<Result<ShapefileRecord, ShapefileError>>) -> bool {
    exists|a: Option<Result<shp::ShpPolygonRecord, shp::ShpError>>, b: Option<Result<dbf::DbfRecord, dbf::DbfError>>|
        #![trigger shp::shp_step(o.shp_reader, n.shp_reader, a), dbf::dbf_step(o.dbf_reader, n.dbf_reader, b)]
        shp::shp_step(o.shp_reader, n.shp_reader, a) && dbf::dbf_step(o.dbf_reader, n.dbf_reader, b) && joined(a, b, r)
}
%fn ShapefileReader::new
%ret res
%ensures
        res is Ok ==> wf(res->Ok_0)
            && shp::header_ok(r.bytes()) && shp::header_is(r.bytes(), res->Ok_0.shp_reader.header) && res->Ok_0.shp_reader.file.bytes() == r.bytes().skip(100) && res->Ok_0.shp_reader.n_bytes_already_read == 100
            && dbf::meta_is(s.bytes(), encoding, *res->Ok_0.dbf_reader.meta) && res->Ok_0.dbf_reader.n_records_already_iterated == 0
            && res->Ok_0.dbf_reader.file.bytes() == s.bytes().skip(le16(shp::sub(s.bytes(), 8, 2)) as int),
        res is Err ==> !(res->Err_0 is JoinError),
%fn ShapefileReader::dbf_fields
%ensures r@.len() == self.dbf_reader.meta.fields@.len(), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> r@[i] == self.dbf_reader.meta.fields@[i],
%fn ShapefileReader::bounding_box
%ensures *r == self.shp_reader.header.bounding_box,
%fn ShapefileReader::get_field
%ensures
        r is Some ==> exists|i: int| 0 <= i < self.dbf_reader.meta.fields@.len() && #[trigger] self.dbf_reader.meta.fields@[i] == r->Some_0 && r->Some_0.name@ == name@,
        r is None ==> forall|i: int| 0 <= i < self.dbf_reader.meta.fields@.len() ==> (#[trigger] self.dbf_reader.meta.fields@[i]).name@ != name@,
%fn ShapefileReader::next
%requires wf(*old(self)),
%ensures
        joint_step(*old(self), *final(self), r), wf(*final(self)),
        r is Some && r->Some_0 is Ok ==> dbf::fields_wf(r->Some_0->Ok_0.data.meta.fields@), //@C16
%at match 1
    proof { assert(shp::shp_step(old(self).shp_reader, self.shp_reader, __t1_0)); assert(dbf::dbf_step(old(self).dbf_reader, self.dbf_reader, __t1_1)); }
%fn open
%ensures
        r is Ok ==> wf(r->Ok_0)
            && shp::header_ok(file_bytes(shp_path.name())) && shp::header_is(file_bytes(shp_path.name()), r->Ok_0.shp_reader.header) && r->Ok_0.shp_reader.file.bytes() == file_bytes(shp_path.name()).skip(100) && r->Ok_0.shp_reader.n_bytes_already_read == 100
            && dbf::opened(file_bytes(with_extension(shp_path.name(), "dbf"@)), encoding, r->Ok_0.dbf_reader),
        r is Err ==> !(r->Err_0 is JoinError),
%fn ShapefileError::Display::fmt
%opt plain
%fn ShapefileRecord::Display::fmt
%opt plain
%requires dbf::fields_wf(self.data.meta.fields@),
