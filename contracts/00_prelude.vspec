%module prelude
%raw
pub use vstd::std_specs::cmp::*;
pub use std::cmp::Ordering;

// ---------------------------------------------------------------------------
// Assumed contracts on the standard library (T1..): listed in DESIGN.md
// ---------------------------------------------------------------------------
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: std::vec::Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| #![trigger s@[i]] #![trigger r@[i]] 0 <= i < s@.len() ==> cloned::<T>(s@[i], r@[i]);
pub assume_specification<T> [<[T]>::reverse] (s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();
pub assume_specification<T> [<[T]>::swap] (s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
pub assume_specification [i128::abs] (a: i128) -> (r: i128)
    requires a > i128::MIN, ensures r == (if a < 0 { -a } else { a as int });

/// The address of an element of one of the slices a raw pointer may point into:
/// `At(i, 0)` is element i; `At(r, k)` is ring k of region r.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Ptr { Null, At(usize, usize) }
impl PartialEqSpecImpl for Ptr {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
pub open spec fn ptr_ix(p: Ptr) -> int { match p { Ptr::Null => -1, Ptr::At(i, _) => i as int } }
impl Ptr {
    pub fn null() -> (r: Ptr) ensures r == Ptr::Null { Ptr::Null }
    pub fn at(i: usize) -> (r: Ptr) ensures r == Ptr::At(i, 0) { Ptr::At(i, 0) }
    /// `&x[i]`: indexing out of bounds is a panic, so it is forbidden.
    pub fn at_of(i: usize, len: usize) -> (r: Ptr) requires i < len, ensures r == Ptr::At(i, 0) { Ptr::At(i, 0) }
    pub fn at2(i: usize, k: usize) -> (r: Ptr) ensures r == Ptr::At(i, k) { Ptr::At(i, k) }
    pub fn is_null(&self) -> (r: bool) ensures r == (*self == Ptr::Null) { match *self { Ptr::Null => true, _ => false } }
    pub fn as_opt(&self) -> (r: Option<Ptr>) ensures r == (if *self == Ptr::Null { None } else { Some(*self) }) { match *self { Ptr::Null => None, p => Some(p) } }
    /// Dereferencing null is forbidden.
    pub fn ix(&self) -> (r: usize) requires *self != Ptr::Null, ensures r as int == ptr_ix(*self) { match *self { Ptr::Null => 0, Ptr::At(i, _) => i } }
    /// Elements of one allocation sit at base + i * size.
    #[verifier::external_body]
    pub fn addr(&self) -> (r: usize) requires *self != Ptr::Null, ensures r as int == base_addr() + ptr_ix(*self) * elem_size_spec() { unimplemented!() }
}
pub uninterp spec fn base_addr() -> int;
pub uninterp spec fn elem_size_spec() -> int;
#[verifier::external_body]
pub fn elem_size() -> (r: usize) ensures r as int == elem_size_spec(), r > 0 { unimplemented!() }

// ---- iteration helpers used by the lowering ---------------------------------
/// Length of `s[lo .. hi]`; slicing out of bounds is a panic, so it is forbidden.
pub fn slice_len(lo: usize, hi: usize, len: usize) -> (r: usize)
    requires lo <= hi, hi <= len, ensures r == hi - lo { hi - lo }
pub fn range_len(a: usize, b: usize) -> (r: usize)
    ensures r == (if a <= b { b - a } else { 0 }) { if a <= b { b - a } else { 0 } }
/// Two slices in memory have fewer than usize::MAX elements together.
pub fn chain_len(a: usize, b: usize) -> (r: usize)
    requires a + b <= usize::MAX, ensures r == a + b { a + b }
pub open spec fn n_chunks_spec(len: int, sz: int) -> int { (len + sz - 1) / sz }
pub fn n_chunks<T>(s: &[T], sz: usize) -> (r: usize)
    requires sz > 0, s@.len() + sz <= usize::MAX, ensures r as int == n_chunks_spec(s@.len() as int, sz as int)
{ (s.len() + (sz - 1)) / sz }
pub open spec fn chunk_end(len: int, sz: int, i: int) -> int { if (i + 1) * sz <= len { (i + 1) * sz } else { len } }
pub fn chunk<T>(s: &[T], sz: usize, i: usize) -> (r: &[T])
    requires sz > 0, i < n_chunks_spec(s@.len() as int, sz as int), s@.len() + sz <= usize::MAX,
    ensures r@ == s@.subrange(i as int * sz as int, chunk_end(s@.len() as int, sz as int, i as int)),
        i as int * sz as int <= chunk_end(s@.len() as int, sz as int, i as int) <= s@.len(),
{
    proof {
        let len = s@.len() as int; let z = sz as int; let q = (len + z - 1) / z;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(len + z - 1, z);
        assert(z * q <= len + z - 1);
        assert(i + 1 <= q);
        assert((i + 1) * z <= q * z) by (nonlinear_arith) requires i + 1 <= q, z > 0;
        assert(q * z == z * q) by (nonlinear_arith);
        assert((i + 1) * z == i * z + z) by (nonlinear_arith);
        assert(i * z < len);
        assert(0 <= i * z) by (nonlinear_arith) requires i >= 0, z > 0;
    }
    let a = i * sz;
    let b = if sz <= s.len() - a { a + sz } else { s.len() };
    &s[a..b]
}
pub fn rev_copy<T: Copy>(s: &[T]) -> (r: Vec<T>)
    ensures r@ == s@.reverse()
{
    let mut r: Vec<T> = Vec::new();
    let mut i = s.len();
    while i > 0
        invariant i <= s@.len(), r@.len() == s@.len() - i, forall|j: int| 0 <= j < r@.len() ==> r@[j] == s@[s@.len() - 1 - j]
        decreases i
    { i = i - 1; r.push(s[i]); }
    proof { assert(r@ =~= s@.reverse()); }
    r
}

// ---- panics and opaque text --------------------------------------------------
#[verifier::external_body]
pub fn forbidden_panic() -> ! requires false { unimplemented!() }
/// A panic the contract allows (DESIGN.md says which): the function has no result then.
#[verifier::external_body]
pub fn allowed_panic() -> ! ensures false { unimplemented!() }
#[verifier::external_body]
pub fn opaque_string() -> (r: String) { unimplemented!() }

/// A slice of T in memory has at most isize::MAX bytes; every element type here has at least 8 bytes.
pub open spec fn max_len() -> int { 0x0fff_ffff_ffff_ffff }

/// `&x[..]`
pub trait AsSl<T> {
    spec fn sview(&self) -> Seq<T>;
    fn as_sl(&self) -> (r: &[T]) ensures r@ == self.sview();
}
impl<T> AsSl<T> for Vec<T> {
    open spec fn sview(&self) -> Seq<T> { self@ }
    fn as_sl(&self) -> (r: &[T]) { self.as_slice() }
}
impl<T> AsSl<T> for [T] {
    open spec fn sview(&self) -> Seq<T> { self@ }
    fn as_sl(&self) -> (r: &[T]) { self }
}
impl<T, const N: usize> AsSl<T> for [T; N] {
    open spec fn sview(&self) -> Seq<T> { self@ }
    fn as_sl(&self) -> (r: &[T]) { self }
}

// ---- maps (T8): std's HashMap and BTreeMap, for keys whose Eq/Hash/Ord are derived --------
/// What derived equality compares.
pub trait Key { type K; spec fn key(&self) -> Self::K; }
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<A: Key, V> { p: std::marker::PhantomData<(A, V)> }
impl<A: Key, V> HashMap<A, V> {
    pub uninterp spec fn view(&self) -> Map<A::K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<A::K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len(), r <= max_len() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &A) -> (r: bool) ensures r == self@.dom().contains(k.key()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_ref(&self, k: &A) -> (r: &V) requires self@.dom().contains(k.key()), ensures *r == self@[k.key()] { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_new(&mut self, k: A, v: V) requires !old(self)@.dom().contains(k.key()), ensures final(self)@ == old(self)@.insert(k.key(), v) { unimplemented!() }
    /// The entries, in no particular order.
    #[verifier::external_body]
    pub fn into_entries(self) -> (r: Vec<(A, V)>)
        ensures
            r@.len() == self@.dom().len(),
            forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> self@.dom().contains(r@[i].0.key()) && self@[r@[i].0.key()] == r@[i].1,
            forall|k: A::K| #![trigger self@.dom().contains(k)] self@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0.key() == k,
    { unimplemented!() }
}

/// std's BTreeMap, for keys whose Ord is derived.
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<A: Key, V> { p: std::marker::PhantomData<(A, V)> }
impl<A: Key, V> BTreeMap<A, V> {
    pub uninterp spec fn view(&self) -> Map<A::K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<A::K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len(), r <= max_len() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &A) -> (r: bool) ensures r == self@.dom().contains(k.key()) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_new(&mut self, k: A, v: V) requires !old(self)@.dom().contains(k.key()), ensures final(self)@ == old(self)@.insert(k.key(), v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &A) -> (r: Option<V>)
        ensures r is Some <==> old(self)@.dom().contains(k.key()), r is Some ==> r->Some_0 == old(self)@[k.key()], final(self)@ == old(self)@.remove(k.key()),
    { unimplemented!() }
    /// `keys().next()`
    #[verifier::external_body]
    pub fn first_key(&self) -> (r: Option<&A>)
        ensures r is None ==> self@.dom().len() == 0, r is Some ==> self@.dom().contains(r->Some_0.key()),
    { unimplemented!() }
}
// ---- sorting (T9): std's sort, which compares with Ord::cmp ---------------------------------
/// What a type's Ord::cmp compares (it has a contract of its own saying so).
pub trait SortKey: Sized { spec fn sortable(&self) -> bool; spec fn sort_le(a: Self, b: Self) -> bool; }
#[verifier::external_body]
pub fn sort<T: SortKey>(v: &mut Vec<T>)
    requires forall|i: int| #![trigger old(v)@[i]] 0 <= i < old(v)@.len() ==> old(v)@[i].sortable(),
    ensures
        final(v)@.len() == old(v)@.len(), final(v)@.to_multiset() == old(v)@.to_multiset(),
        forall|i: int, j: int| #![trigger final(v)@[i], final(v)@[j]] 0 <= i <= j < final(v)@.len() ==> T::sort_le(final(v)@[i], final(v)@[j]),
{ unimplemented!() }
// ---- what raw pointers of a borrowed value point to (T10) -----------------------------------
pub uninterp spec fn heap<T>(p: Ptr) -> T;
pub uninterp spec fn valid<T>(p: Ptr) -> bool;
/// Only a valid pointer may be dereferenced.
#[verifier::external_body]
pub fn heap_ref<'a, T>(p: Ptr) -> (r: &'a T) requires p != Ptr::Null, valid::<T>(p), ensures *r == heap::<T>(p) { unimplemented!() }
/// Arrays are equal when their elements are.
#[verifier::external_body]
pub proof fn axiom_arr_eq()
    ensures
        <[Ptr; 2] as PartialEqSpec<[Ptr; 2]>>::obeys_eq_spec(),
        forall|a: [Ptr; 2], b: [Ptr; 2]| #[trigger] <[Ptr; 2] as PartialEqSpec<[Ptr; 2]>>::eq_spec(&a, &b) == (a@ == b@),
{ }

// ---- byte streams (T2) --------------------------------------------------------
/// std::io::Read: a stream of bytes. bytes() are the ones still to come; io_failed says that the system reported an error
/// although enough bytes were left.
#[verifier::external_body]
pub struct Reader { }
#[verifier::external_body]
pub struct IoError { }
pub mod io {
    pub use super::IoError as Error;
    use vstd::prelude::*;
    use super::Reader;
    /// A buffered reader reads what the reader behind it reads.
    pub struct BufReader;
    impl BufReader {
        #[verifier::external_body]
        pub fn new(f: Reader) -> (r: Reader) ensures r.bytes() == f.bytes() { unimplemented!() }
    }
}
// std::fs and std::path: a name, and what the file of that name holds.
#[verifier::external_body]
pub struct Path { }
#[verifier::external_body]
pub struct PathBuf { }
pub uninterp spec fn file_bytes(name: Seq<char>) -> Seq<u8>;
pub uninterp spec fn with_extension(name: Seq<char>, ext: Seq<char>) -> Seq<char>;
impl Path { pub uninterp spec fn name(&self) -> Seq<char>; }
impl PathBuf {
    pub uninterp spec fn name(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn from(p: &Path) -> (r: PathBuf) ensures r.name() == p.name() { unimplemented!() }
    #[verifier::external_body]
    pub fn set_extension(&mut self, ext: &str) -> (r: bool) ensures final(self).name() == with_extension(old(self).name(), ext@) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_path(&self) -> (r: &Path) ensures r.name() == self.name() { unimplemented!() }
}
pub mod fs {
    use vstd::prelude::*;
    use super::*;
    pub struct File;
    impl File {
        #[verifier::external_body]
        pub fn open(p: &Path) -> (r: Result<Reader, IoError>) ensures r is Ok ==> r->Ok_0.bytes() == file_bytes(p.name()) { unimplemented!() }
    }
}
pub uninterp spec fn io_failed(r: Reader) -> bool;
impl Reader {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn read_exact(&mut self, buf: &mut Vec<u8>) -> (r: Result<(), IoError>)
        ensures
            final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> old(self).bytes().len() >= old(buf)@.len() && final(buf)@ == old(self).bytes().subrange(0, old(buf)@.len() as int)
                && final(self).bytes() == old(self).bytes().skip(old(buf)@.len() as int),
            r is Err ==> old(self).bytes().len() < old(buf)@.len() || io_failed(*final(self)),
    { unimplemented!() }
}
// ---- byteorder (T3) -----------------------------------------------------------
/// The number whose bytes these are, most significant first.
pub closed spec fn num32(a: u8, b: u8, c: u8, d: u8) -> u32 { (a * 0x100_0000 + b * 0x1_0000 + c * 0x100 + d) as u32 }
pub closed spec fn num16(a: u8, b: u8) -> u16 { (a * 0x100 + b) as u16 }
pub uninterp spec fn num_f64(a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8) -> f64;
pub open spec fn be32(b: Seq<u8>) -> u32 { num32(b[0], b[1], b[2], b[3]) }
pub open spec fn le32(b: Seq<u8>) -> u32 { num32(b[3], b[2], b[1], b[0]) }
pub open spec fn le16(b: Seq<u8>) -> u16 { num16(b[1], b[0]) }
pub open spec fn le_f64(b: Seq<u8>) -> f64 { num_f64(b[7], b[6], b[5], b[4], b[3], b[2], b[1], b[0]) }
pub struct BigEndian;
pub struct LittleEndian;
impl BigEndian {
    #[verifier::external_body]
    pub fn read_u32(b: &[u8]) -> (r: u32) requires b@.len() >= 4, ensures r == be32(b@) { unimplemented!() }
}
impl LittleEndian {
    #[verifier::external_body]
    pub fn read_u32(b: &[u8]) -> (r: u32) requires b@.len() >= 4, ensures r == le32(b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u16(b: &[u8]) -> (r: u16) requires b@.len() >= 2, ensures r == le16(b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_f64(b: &[u8]) -> (r: f64) requires b@.len() >= 8, ensures r == le_f64(b@) { unimplemented!() }
}
// ---- text (T4) ------------------------------------------------------------------
/// `x.to_string()`
pub trait ToStr { spec fn text(&self) -> Seq<char>; fn to_str(&self) -> (r: String) ensures r@ == self.text(); }
/// The decimal numeral of x.
pub uninterp spec fn numeral(x: int) -> Seq<char>;
impl ToStr for u32 {
    open spec fn text(&self) -> Seq<char> { numeral(*self as int) }
    #[verifier::external_body]
    fn to_str(&self) -> (r: String) { unimplemented!() }
}
/// `write!(f, ..)`: the text itself is not specified; every argument shown with `{}` must be fit to be shown.
pub mod fmt {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct Formatter { }
    #[verifier::external_body]
    pub struct Error { }
    pub type Result = core::result::Result<(), Error>;
    #[verifier::external_body]
    pub fn put(f: &mut Formatter) -> Result { unimplemented!() }
}
pub trait Show { spec fn showable(&self) -> bool; }
pub fn show<T: Show + ?Sized>(x: &T) requires x.showable() { }
impl<T: Show + ?Sized> Show for &T { open spec fn showable(&self) -> bool { (*self).showable() } }
impl Show for String { open spec fn showable(&self) -> bool { true } }
impl Show for str { open spec fn showable(&self) -> bool { true } }
impl Show for f64 { open spec fn showable(&self) -> bool { true } }
impl Show for u32 { open spec fn showable(&self) -> bool { true } }
impl IoError {
    #[verifier::external_body]
    pub fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { unimplemented!() }
}
/// String == &str compares the characters.
#[verifier::external_body]
pub proof fn axiom_string_eq_str()
    ensures
        <String as PartialEqSpec<&str>>::obeys_eq_spec(),
        forall|a: String, b: &str| #[trigger] <String as PartialEqSpec<&str>>::eq_spec(&a, &b) == (a@ == b@),
{ }
// ---- encoding (T5) --------------------------------------------------------------
pub mod encoding {
    use vstd::prelude::*;
    #[verifier::external_body]
    #[derive(Clone, Copy)]
    pub struct EncodingRef { }
    pub enum DecoderTrap { Strict, Replace, Ignore }
    #[verifier::external_body]
    pub struct DecodeError { }
    impl super::ToStr for DecodeError {
        uninterp spec fn text(&self) -> Seq<char>;
        #[verifier::external_body]
        fn to_str(&self) -> (r: String) { unimplemented!() }
    }
    pub uninterp spec fn labelled(l: Seq<char>) -> Option<EncodingRef>;
    pub mod label {
        use vstd::prelude::*;
        use super::*;
        #[verifier::external_body]
        pub fn encoding_from_whatwg_label(l: &str) -> (r: Option<EncodingRef>) ensures r == labelled(l@) { unimplemented!() }
    }
    /// ASCII is among the encodings.
    #[verifier::external_body]
    pub proof fn axiom_ascii() ensures labelled("ascii"@) is Some { }
    /// What the encoding makes of these bytes, if they are valid in it.
    pub uninterp spec fn decoding(e: EncodingRef, b: Seq<u8>) -> Option<Seq<char>>;
    impl EncodingRef {
        #[verifier::external_body]
        pub fn decode(&self, b: &[u8], t: DecoderTrap) -> (r: Result<String, DecodeError>)
            requires t is Strict,
            ensures r is Ok <==> decoding(*self, b@) is Some, r is Ok ==> r->Ok_0@ == decoding(*self, b@)->Some_0,
        { unimplemented!() }
    }
}
// ---- regex (T6) -------------------------------------------------------------------
pub mod regex { pub mod bytes {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct Regex { }
    #[verifier::external_body]
    #[derive(Debug)]
    pub struct RegexError { }
    #[verifier::external_body]
    pub struct Captures { }
    #[verifier::external_body]
    pub struct Match<'t> { p: std::marker::PhantomData<&'t u8> }
    /// The groups of the leftmost match of a pattern.
    pub uninterp spec fn valid_pattern(p: Seq<char>) -> bool;
    pub uninterp spec fn groups_of(p: Seq<char>, b: Seq<u8>) -> Option<Seq<Option<Seq<u8>>>>;
    impl Regex {
        pub uninterp spec fn pattern(&self) -> Seq<char>;
        #[verifier::external_body]
        pub fn new(p: &str) -> (r: Result<Regex, RegexError>)
            ensures r is Ok <==> valid_pattern(p@), r is Ok ==> r->Ok_0.pattern() == p@,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn captures(&self, b: &[u8]) -> (r: Option<Captures>)
            ensures r is Some <==> groups_of(self.pattern(), b@) is Some, r is Some ==> r->Some_0.groups() == groups_of(self.pattern(), b@)->Some_0,
        { unimplemented!() }
    }
    impl Captures {
        pub uninterp spec fn groups(&self) -> Seq<Option<Seq<u8>>>;
        #[verifier::external_body]
        pub fn get<'t>(&'t self, i: usize) -> (r: Option<Match<'t>>)
            ensures r is Some <==> i < self.groups().len() && self.groups()[i as int] is Some, r is Some ==> r->Some_0.bytes() == self.groups()[i as int]->Some_0,
        { unimplemented!() }
    }
    impl<'t> Match<'t> {
        pub uninterp spec fn bytes(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn as_bytes(&self) -> (r: &'t [u8]) ensures r@ == self.bytes() { unimplemented!() }
    }
} }
pub open spec fn ascii(b: Seq<u8>) -> Seq<char> { b.map_values(|x: u8| x as char) }
/// String::from_utf8_unchecked: only for valid UTF-8; all its uses here are ASCII.
#[verifier::external_body]
pub fn string_from_ascii(v: Vec<u8>) -> (r: String)
    requires forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> v@[i] < 128,
    ensures r@ == ascii(v@),
{ unimplemented!() }
// ---- f64 (T7): IEEE 754 binary64, round to nearest -------------------------------------
pub uninterp spec fn fsub(a: f64, b: f64) -> f64;
pub uninterp spec fn fadd(a: f64, b: f64) -> f64;
pub uninterp spec fn fmul(a: f64, b: f64) -> f64;
pub uninterp spec fn fdiv(a: f64, b: f64) -> f64;
/// a <= b (false when either is not a number)
pub uninterp spec fn fle(a: f64, b: f64) -> bool;
pub uninterp spec fn fin(a: f64) -> bool;
/// finite and above (below) zero
pub uninterp spec fn fpos(a: f64) -> bool;
pub uninterp spec fn fneg(a: f64) -> bool;
pub uninterp spec fn f_of_u32(a: u32) -> f64;
/// `as u32`: truncates and saturates
pub uninterp spec fn u32_of_f(a: f64) -> u32;
#[verifier::external_body]
pub fn f64_sub(a: f64, b: f64) -> (r: f64) ensures r == fsub(a, b) { unimplemented!() }
#[verifier::external_body]
pub fn f64_add(a: f64, b: f64) -> (r: f64) ensures r == fadd(a, b) { unimplemented!() }
#[verifier::external_body]
pub fn f64_mul(a: f64, b: f64) -> (r: f64) ensures r == fmul(a, b) { unimplemented!() }
#[verifier::external_body]
pub fn f64_div(a: f64, b: f64) -> (r: f64) ensures r == fdiv(a, b) { unimplemented!() }
#[verifier::external_body]
pub fn f64_of(a: u32) -> (r: f64) ensures r == f_of_u32(a) { unimplemented!() }
#[verifier::external_body]
pub fn f64_to_u32(a: f64) -> (r: u32) ensures r == u32_of_f(a) { unimplemented!() }
/// Rounding is monotone, so subtraction of, division by and multiplication by a constant, and truncation, are.
#[verifier::external_body]
pub proof fn axiom_f_sub_mono(a: f64, b: f64, c: f64) requires fin(a), fin(b), fin(c), fle(a, b) ensures fle(fsub(a, c), fsub(b, c)) { }
#[verifier::external_body]
pub proof fn axiom_f_div_pos(a: f64, b: f64, c: f64) requires fle(a, b), fpos(c) ensures fle(fdiv(a, c), fdiv(b, c)) { }
#[verifier::external_body]
pub proof fn axiom_f_div_neg(a: f64, b: f64, c: f64) requires fle(a, b), fneg(c) ensures fle(fdiv(b, c), fdiv(a, c)) { }
#[verifier::external_body]
pub proof fn axiom_f_mul_pos(a: f64, b: f64, n: u32) requires fle(a, b), n > 0 ensures fle(fmul(a, f_of_u32(n)), fmul(b, f_of_u32(n))) { }
#[verifier::external_body]
pub proof fn axiom_f_to_u32(a: f64, b: f64) requires fle(a, b) ensures u32_of_f(a) <= u32_of_f(b) { }
/// (a - a) / c * n is a zero, and c / c * n is n.
#[verifier::external_body]
pub proof fn axiom_f_zero(a: f64, c: f64, n: u32) requires fin(a), fpos(c) || fneg(c) ensures u32_of_f(fmul(fdiv(fsub(a, a), c), f_of_u32(n))) == 0 { }
#[verifier::external_body]
pub proof fn axiom_f_one(c: f64, n: u32) requires fpos(c) || fneg(c) ensures u32_of_f(fmul(fdiv(c, c), f_of_u32(n))) == n { }
