%module read::shapefile::dbf src/read/shapefile/dbf.rs
%raw
use crate::prelude::*;
use crate::read::shapefile::shp::sub;
use std::sync::Arc;
%type DbfType #[derive(Clone, Copy)]
%type DbfField
%type DbfHeader #[derive(Clone, Copy)]
%type DbfMeta
%type DbfRecord
%type DbfError
%type DbfReader
%const DBF_HEADER_LENGTH
%const DBF_FIELD_DESCRIPTOR_LENGTH
%raw
// derived
impl Clone for DbfField {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
// ---- the format ---------------------------------------------------------------
pub open spec fn type_of(code: u8, e: encoding::EncodingRef) -> DbfType {
    match code as char {
        'C' => DbfType::Character(e), 'N' => DbfType::Numeric, 'L' => DbfType::Logical, 'D' => DbfType::Date, 'F' => DbfType::FloatingPoint,
        '@' => DbfType::Timestamp, 'O' => DbfType::Double, '+' => DbfType::Long, '|' => DbfType::Long, _ => DbfType::Unsupported,
    }
}
pub open spec fn is_trimmed(b: Seq<u8>, t: Seq<u8>) -> bool {
    &&& t.len() <= b.len() && t == b.subrange(0, t.len() as int)
    &&& forall|i: int| #![trigger b[i]] t.len() <= i < b.len() ==> b[i] == 0x20
    &&& t.len() > 0 ==> t[t.len() - 1] != 0x20
}
pub open spec fn digit(x: u8) -> bool { 0x30 <= x <= 0x39 }
pub open spec fn digits(b: Seq<u8>, lo: int, hi: int) -> bool { lo < hi && forall|i: int| #![trigger b[i]] lo <= i < hi ==> digit(b[i]) }
pub open spec fn minus(b: Seq<u8>) -> int { if b.len() > 0 && b[0] == 0x2d { 1 } else { 0 } }
/// An optional minus sign, digits, and possibly a point and more digits.
pub open spec fn is_decimal(b: Seq<u8>) -> bool {
    digits(b, minus(b), b.len() as int) || exists|p: int| 0 <= p < b.len() && #[trigger] b[p] == 0x2e && digits(b, minus(b), p) && digits(b, p + 1, b.len() as int)
}
pub open spec fn spaces(b: Seq<u8>, k: int) -> bool { 0 <= k <= b.len() && forall|i: int| #![trigger b[i]] 0 <= i < k ==> b[i] == 0x20 }
/// d is the number that b holds after its leading spaces.
pub open spec fn number_in(b: Seq<u8>, d: Seq<u8>) -> bool { is_decimal(d) && d.len() <= b.len() && d == b.subrange(b.len() - d.len(), b.len() as int) && spaces(b, b.len() - d.len()) }
pub open spec fn numeric_pattern() -> Seq<char> { "^ *(-?[0-9]+(?:\\.[0-9]+)?)$"@ }
/// T6: what the regex crate makes of this pattern.
#[verifier::external_body]
pub proof fn axiom_numeric_pattern(b: Seq<u8>)
    ensures
        regex::bytes::valid_pattern(numeric_pattern()),
        ({ let g = regex::bytes::groups_of(numeric_pattern(), b);
            &&& g is Some <==> exists|d: Seq<u8>| #[trigger] number_in(b, d)
            &&& g is Some ==> g->Some_0.len() == 2 && g->Some_0[1] is Some && number_in(b, g->Some_0[1]->Some_0) }),
{ }
pub proof fn lemma_decimal_ascii(d: Seq<u8>, i: int)
    requires is_decimal(d), 0 <= i < d.len()
    ensures d[i] < 128
{
    if digits(d, minus(d), d.len() as int) { assert(i < minus(d) || digit(d[i])); } else {
        let p = choose|p: int| 0 <= p < d.len() && #[trigger] d[p] == 0x2e && digits(d, minus(d), p) && digits(d, p + 1, d.len() as int);
        assert(i < minus(d) || i == p || digit(d[i]));
    }
}
/// There is at most one such number.
pub proof fn lemma_number_unique(b: Seq<u8>, d: Seq<u8>, e: Seq<u8>)
    requires number_in(b, d), number_in(b, e)
    ensures d == e
{
    if d.len() < e.len() { assert(b[b.len() - e.len()] == e[0]); }
    if e.len() < d.len() { assert(b[b.len() - d.len()] == d[0]); }
}
pub open spec fn field_bytes(f: DbfField, r: DbfRecord) -> Seq<u8> { r.bytes@.subrange(f.offset as int, f.offset + f.len) }
pub open spec fn field_wf(f: DbfField) -> bool { f.offset <= 0xffff_ffff && f.len <= 255 }
/// What reading field f of record r must give.
pub open spec fn field_value(f: DbfField, r: DbfRecord, v: Result<String, DbfError>) -> bool {
    if f.offset + f.len > r.bytes@.len() { v is Err } else {
        let b = field_bytes(f, r);
        match f.data_type {
            DbfType::Character(e) => forall|t: Seq<u8>| #[trigger] is_trimmed(b, t) ==> (v is Ok <==> encoding::decoding(e, t) is Some) && (v is Ok ==> v->Ok_0@ == encoding::decoding(e, t)->Some_0),
            DbfType::Long => (v is Ok <==> b.len() >= 4) && (v is Ok ==> v->Ok_0@ == numeral(le32(b) as int)),
            DbfType::Numeric => (v is Ok <==> exists|d: Seq<u8>| #[trigger] number_in(b, d)) && (v is Ok ==> exists|d: Seq<u8>| #[trigger] number_in(b, d) && v->Ok_0@ == ascii(d)),
            _ => v is Err,
        }
    }
}
pub open spec fn dbf_header_is(b: Seq<u8>, h: DbfHeader) -> bool {
    b.len() >= 32 && h.n_records == le32(sub(b, 4, 4)) && h.n_header_bytes == le16(sub(b, 8, 2)) && h.n_bytes_per_record == le16(sub(b, 10, 2))
}
/// The field name ends at the first NUL of the first 11 bytes.
pub open spec fn name_end(b: Seq<u8>, n: int) -> bool { 0 <= n <= 11 && (n < 11 ==> b[n] == 0) && forall|i: int| #![trigger b[i]] 0 <= i < n ==> b[i] != 0 }
pub open spec fn field_is(b: Seq<u8>, e: encoding::EncodingRef, offset: int, f: DbfField) -> bool {
    &&& f.data_type == type_of(b[11], e) && f.offset == offset && f.len == b[16]
    &&& forall|n: int| #[trigger] name_end(b, n) ==> encoding::decoding(e, sub(b, 0, n)) == Some(f.name@)
}
pub open spec fn bad_name(b: Seq<u8>, e: encoding::EncodingRef) -> bool { forall|n: int| #[trigger] name_end(b, n) ==> encoding::decoding(e, sub(b, 0, n)) is None }
pub open spec fn desc(b: Seq<u8>, i: int) -> Seq<u8> { sub(b, 32 * i, 32) }
/// Field i comes after the deletion flag and the fields before it.
pub open spec fn field_offset(b: Seq<u8>, i: int) -> int decreases i { if i <= 0 { 1 } else { field_offset(b, i - 1) + desc(b, i - 1)[16] } }
pub open spec fn fields_are(b: Seq<u8>, e: encoding::EncodingRef, n: int, v: Seq<DbfField>) -> bool {
    v.len() == n && forall|i: int| #![trigger v[i]] 0 <= i < n ==> field_is(desc(b, i), e, field_offset(b, i), v[i]) && field_wf(v[i])
}
pub open spec fn meta_is(b: Seq<u8>, e: encoding::EncodingRef, m: DbfMeta) -> bool {
    let h = le16(sub(b, 8, 2)) as int;
    &&& b.len() >= 32 && 32 <= h <= b.len()
    &&& m.n_records == le32(sub(b, 4, 4)) && m.n_bytes_per_record == le16(sub(b, 10, 2))
    &&& fields_are(b.subrange(32, h), e, (h - 32) / 32, m.fields@)
}
pub open spec fn fields_wf(s: Seq<DbfField>) -> bool { forall|i: int| 0 <= i < s.len() ==> field_wf(#[trigger] s[i]) }
pub open spec fn dbf_wf(r: DbfReader) -> bool { fields_wf(r.meta.fields@) && r.n_records_already_iterated <= r.meta.n_records <= 0xffff_ffff && r.meta.n_bytes_per_record <= 0xffff }
/// One step of the iteration.
pub open spec fn dbf_step(o: DbfReader, f: DbfReader, r: Option<Result<DbfRecord, DbfError>>) -> bool {
    let b = o.file.bytes(); let n = o.meta.n_bytes_per_record as int;
    &&& dbf_wf(f) && f.meta == o.meta
    &&& r is None <==> o.n_records_already_iterated == o.meta.n_records
    &&& r is None ==> f == o
    &&& r is Some ==> f.n_records_already_iterated == o.n_records_already_iterated + 1
    &&& r is Some && r->Some_0 is Ok ==> b.len() >= n && r->Some_0->Ok_0.bytes@ == b.subrange(0, n) && r->Some_0->Ok_0.meta == o.meta && f.file.bytes() == b.skip(n)
    &&& r is Some && r->Some_0 is Err ==> b.len() < n || io_failed(f.file)
}
%fn DbfType::with_code
%param encoding: encoding::EncodingRef
%ensures r == type_of(u, encoding),
%fn trim_end_spaces
%ensures is_trimmed(bytes@, r@),
%loop 1
            !: forall|i: int| #![trigger bytes@[i]] __n1 - __k1 <= i < __n1 ==> bytes@[i] == 0x20,
            >: __c1 is None ==> forall|i: int| #![trigger bytes@[i]] 0 <= i < __n1 ==> bytes@[i] == 0x20,
            >: __c1 is Some ==> __c1->Some_0 < __n1 && bytes@[__n1 - 1 - __c1->Some_0] != 0x20 && forall|i: int| #![trigger bytes@[i]] __n1 - __c1->Some_0 <= i < __n1 ==> bytes@[i] == 0x20,
%fn dbf_numeric_to_valid_string
%ensures
        r is Ok <==> exists|d: Seq<u8>| #[trigger] number_in(bytes@, d),
        r is Ok ==> exists|d: Seq<u8>| #[trigger] number_in(bytes@, d) && r->Ok_0@ == ascii(d),
%at fn_start
    proof {
        axiom_numeric_pattern(bytes@);
        assert forall|d: Seq<u8>, i: int| number_in(bytes@, d) && 0 <= i < d.len() implies #[trigger] d[i] < 128 by { lemma_decimal_ascii(d, i); }
    }
%fn DbfField::read_string
%requires field_wf(*self),
%ensures field_value(*self, *record, r),
%fn read_dbf_header
%opt arrays_as_vec
%ensures
        r is Ok ==> dbf_header_is(old(file).bytes(), r->Ok_0) && final(file).bytes() == old(file).bytes().skip(32),
        r is Err ==> old(file).bytes().len() < 32 || io_failed(*final(file)) || old(file).bytes()[2] > 12 || old(file).bytes()[3] > 31,
%fn parse_dbf_field
%requires bytes@.len() >= 17,
%ensures
        r is Ok ==> field_is(bytes@, encoding, offset as int, r->Ok_0),
        r is Err ==> bad_name(bytes@, encoding),
%loop 1
            !: forall|i: int| #![trigger bytes@[i]] 0 <= i < __k1 ==> bytes@[i] != 0,
            >: __c1 is None ==> name_end(bytes@, 11),
            >: __c1 is Some ==> name_end(bytes@, __c1->Some_0 as int),
%at let last_index 1
    proof {
        assert(name_end(bytes@, last_index as int));
        assert forall|n: int| #[trigger] name_end(bytes@, n) implies n == last_index by {
            if n < last_index { assert(bytes@[n] == 0); } else if last_index < n { assert(bytes@[last_index as int] == 0); }
        }
    }
%fn read_dbf_fields
%requires dbf_header.n_header_bytes <= 0xffff,
%ensures
        r is Ok ==> 32 <= dbf_header.n_header_bytes && dbf_header.n_header_bytes - 32 <= old(file).bytes().len()
            && fields_are(old(file).bytes().subrange(0, dbf_header.n_header_bytes - 32), encoding, (dbf_header.n_header_bytes - 32) / 32, r->Ok_0@)
            && final(file).bytes() == old(file).bytes().skip(dbf_header.n_header_bytes - 32),
        r is Err ==> dbf_header.n_header_bytes < 32 || dbf_header.n_header_bytes - 32 > old(file).bytes().len() || io_failed(*final(file))
            || exists|i: int| 0 <= i < (dbf_header.n_header_bytes - 32) / 32 && bad_name(#[trigger] desc(old(file).bytes().subrange(0, dbf_header.n_header_bytes - 32), i), encoding),
%loop 1
            __e1@ == buf@, v@.len() <= __k1, v@.len() <= buf@.len() / 32, fields_are(buf@, encoding, v@.len() as int, v@),
            !: v@.len() == __k1, offset == field_offset(buf@, __k1 as int), offset <= 1 + 255 * __k1,
            >: v@.len() == buf@.len() / 32,
%at loop1.start
    assert(chunk@.len() == 32 ==> chunk@ =~= desc(buf@, __i1 as int));
%fn read_dbf_meta
%ensures
        r is Ok ==> meta_is(old(file).bytes(), encoding, r->Ok_0) && final(file).bytes() == old(file).bytes().skip(le16(sub(old(file).bytes(), 8, 2)) as int),
%at fn_start
    proof {
        let b = file.bytes(); let h = le16(sub(b, 8, 2)) as int;
        if b.len() >= 32 && h >= 32 && h - 32 <= b.skip(32).len() {
            assert(b.skip(32).subrange(0, h - 32) =~= b.subrange(32, h));
            assert(b.skip(32).skip(h - 32) =~= b.skip(h));
        }
    }
%fn read_dbf_record
%requires dbf_meta.n_bytes_per_record <= 0xffff,
%ensures
        r is Ok ==> r->Ok_0.meta == dbf_meta && dbf_meta.n_bytes_per_record <= old(file).bytes().len()
            && r->Ok_0.bytes@ == old(file).bytes().subrange(0, dbf_meta.n_bytes_per_record as int)
            && final(file).bytes() == old(file).bytes().skip(dbf_meta.n_bytes_per_record as int),
        r is Err ==> old(file).bytes().len() < dbf_meta.n_bytes_per_record || io_failed(*final(file)),
%fn DbfReader::new
%ensures
        r is Ok ==> meta_is(file.bytes(), encoding, *r->Ok_0.meta) && r->Ok_0.file.bytes() == file.bytes().skip(le16(sub(file.bytes(), 8, 2)) as int)
            && r->Ok_0.n_records_already_iterated == 0 && dbf_wf(r->Ok_0),
%raw
pub open spec fn opened(b: Seq<u8>, e: encoding::EncodingRef, r: DbfReader) -> bool { meta_is(b, e, *r.meta) && r.file.bytes() == b.skip(le16(sub(b, 8, 2)) as int) && r.n_records_already_iterated == 0 && dbf_wf(r) }
%fn open
%ensures r is Ok ==> opened(file_bytes(path.name()), encoding, r->Ok_0),
%fn open_ascii
%ensures r is Ok ==> opened(file_bytes(path.name()), encoding::labelled("ascii"@)->Some_0, r->Ok_0),
%at fn_start
    proof { encoding::axiom_ascii(); }
%fn DbfReader::get_field
%ensures
        r is Some ==> exists|i: int| 0 <= i < self.meta.fields@.len() && #[trigger] self.meta.fields@[i] == r->Some_0 && r->Some_0.name@ == name@,
        r is None ==> forall|i: int| 0 <= i < self.meta.fields@.len() ==> (#[trigger] self.meta.fields@[i]).name@ != name@,
%loop 1
            forall|i: int| 0 <= i < __k1 ==> (#[trigger] self.meta.fields@[i]).name@ != name@,
%at fn_start
    proof { axiom_string_eq_str(); }
%fn DbfReader::next
%requires dbf_wf(*old(self)),
%ensures
        dbf_step(*old(self), *final(self), r),
        r is Some && r->Some_0 is Ok ==> fields_wf(r->Some_0->Ok_0.meta.fields@), //@C16
%fn DbfError::Display::fmt
%opt plain
%fn DbfRecord::Display::fmt
%opt plain
%requires fields_wf(self.meta.fields@),
%raw
impl Show for DbfRecord { open spec fn showable(&self) -> bool { fields_wf(self.meta.fields@) } }
