macro_rules! track {
    ($e:expr) => { $e };
    ($e:expr; $($v:tt)*) => { $e };
    ($e:expr, $($v:tt)*) => { $e };
}
macro_rules! track_panic {
    ($k:expr) => { return Err(crate::shim::mk_err($k)) };
    ($k:expr; $($v:expr),+) => { return Err(crate::shim::mk_err($k)) };
    ($k:expr, $($v:tt)*) => { return Err(crate::shim::mk_err($k)) };
}
macro_rules! track_assert {
    ($c:expr, $k:expr) => { if !$c { return Err(crate::shim::mk_err($k)); } };
    ($c:expr, $k:expr; $($v:tt)*) => { if !$c { return Err(crate::shim::mk_err($k)); } };
    ($c:expr, $k:expr, $($v:tt)*) => { if !$c { return Err(crate::shim::mk_err($k)); } };
}
macro_rules! track_assert_eq {
    ($a:expr, $b:expr, $k:expr) => { { let left = $a; let right = $b; if !(left == right) { return Err(crate::shim::mk_err($k)); } } };
    ($a:expr, $b:expr, $k:expr; $($v:tt)*) => { { let left = $a; let right = $b; if !(left == right) { return Err(crate::shim::mk_err($k)); } } };
    ($a:expr, $b:expr, $k:expr, $($v:tt)*) => { { let left = $a; let right = $b; if !(left == right) { return Err(crate::shim::mk_err($k)); } } };
}
macro_rules! track_assert_ne {
    ($a:expr, $b:expr, $k:expr) => { { let left = $a; let right = $b; if !(left != right) { return Err(crate::shim::mk_err($k)); } } };
    ($a:expr, $b:expr, $k:expr; $($v:tt)*) => { { let left = $a; let right = $b; if !(left != right) { return Err(crate::shim::mk_err($k)); } } };
    ($a:expr, $b:expr, $k:expr, $($v:tt)*) => { { let left = $a; let right = $b; if !(left != right) { return Err(crate::shim::mk_err($k)); } } };
}
macro_rules! track_assert_some {
    ($e:expr, $k:expr) => { if let Some(v) = $e { v } else { return Err(crate::shim::mk_err($k)); } };
    ($e:expr, $k:expr; $($v:tt)*) => { if let Some(v) = $e { v } else { return Err(crate::shim::mk_err($k)); } };
    ($e:expr, $k:expr, $($v:tt)*) => { if let Some(v) = $e { v } else { return Err(crate::shim::mk_err($k)); } };
}
//==SHIM-MODULES==
pub type Result<T> = std::result::Result<T, Error>;
pub mod shim {
use vstd::prelude::*;
verus! {
pub fn mk_err(k: crate::ErrorKind) -> (r: crate::Error) ensures r.0.kind == k {
    crate::Error(trackable::error::TrackableError { kind: k })
}
pub assume_specification<T, F: FnOnce(T) -> bool + std::marker::Destruct> [std::option::Option::<T>::is_some_and] (o: std::option::Option<T>, f: F) -> (r: bool)
    requires o matches Some(x) ==> call_requires(f, (x,)),
    ensures o is None ==> !r, o matches Some(x) ==> call_ensures(f, (x,), r);
pub assume_specification<T, U, F: FnOnce(T) -> U + std::marker::Destruct> [std::option::Option::<T>::map_or] (o: std::option::Option<T>, d: U, f: F) -> (r: U)
    where U: std::marker::Destruct
    requires o matches Some(x) ==> call_requires(f, (x,)),
    ensures o is None ==> r == d, o matches Some(x) ==> call_ensures(f, (x,), r);
pub assume_specification<T: Ord + std::marker::Destruct> [std::cmp::min] (a: T, b: T) -> (r: T)
    ensures r == spec_min(a, b);
pub assume_specification<T: Ord + std::marker::Destruct> [std::cmp::max] (a: T, b: T) -> (r: T)
    ensures r == spec_max(a, b);
pub assume_specification<T: Default> [std::mem::take] (d: &mut T) -> (r: T)
    ensures r == *old(d), call_ensures(T::default, (), *final(d));
pub uninterp spec fn spec_min<T>(a: T, b: T) -> T;
pub uninterp spec fn spec_max<T>(a: T, b: T) -> T;
pub broadcast axiom fn max_usize(a: usize, b: usize) ensures #[trigger] spec_max(a, b) == if a <= b { b } else { a };
pub broadcast axiom fn max_u64(a: u64, b: u64) ensures #[trigger] spec_max(a, b) == if a <= b { b } else { a };
pub broadcast axiom fn min_usize(a: usize, b: usize) ensures #[trigger] spec_min(a, b) == if a <= b { a } else { b };
pub broadcast axiom fn min_u64(a: u64, b: u64) ensures #[trigger] spec_min(a, b) == if a <= b { a } else { b };
/// `u64::from(bool)` is 1 or 0 (std)
pub assume_specification [<u64 as core::convert::From<bool>>::from] (b: bool) -> (r: u64)
    ensures r == (if b { 1u64 } else { 0u64 });
/// the `?` operator converts errors with From::from
pub broadcast axiom fn question_mark_from<T, U: vstd::std_specs::convert::FromSpec<T>>(v: T, r: U)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<U, T>(v, r) && U::obeys_from_spec() ==> r == U::from_spec(v);
pub broadcast group group_shim { group_base, den::at_index, den::room_within, den::room_suffix }
pub broadcast group group_io { group_shim, stream::reader_gone, stream::writer_gone }
pub broadcast group group_base { min_usize, min_u64, max_usize, max_u64, den::here_within, den::here_suffix, den::slice_bound, question_mark_from }
/// no allocation exceeds isize::MAX bytes (std::vec: "Vec will never allocate more than isize::MAX bytes")
pub axiom fn vec_bound(v: &std::vec::Vec<u8>) ensures v@.len() < usize::MAX, v@.len() <= isize::MAX;
pub assume_specification [std::string::String::from_utf8] (b: std::vec::Vec<u8>) -> (r: std::result::Result<std::string::String, std::string::FromUtf8Error>)
    ensures r matches Ok(s) ==> vstd::utf8::encode_utf8(s@) == b@,
        r is Ok == vstd::utf8::valid_utf8(b@);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
/// `unreachable!()`: does not return
#[verifier::external_body]
pub fn panics() -> ! { panic!() }
pub assume_specification<T, A: std::alloc::Allocator> [std::vec::Vec::<T, A>::try_reserve_exact] (v: &mut std::vec::Vec<T, A>, n: usize) -> (r: std::result::Result<(), std::collections::TryReserveError>)
    ensures final(v)@ == old(v)@;
}
pub mod prelude {
    pub use super::*;
    pub use super::bytes::{AsRef, AsMut, SeqLike, BView};
    pub use super::den::*;
    pub use crate::decode::{uni_end, uni_item, uni_fail};
    pub use super::iter::{Iterator, Extend, extended};
    pub use super::io::{ReadExt, WriteExt, Said};
    pub use super::stream::*;
}
pub mod den {
use vstd::prelude::*;
use crate::{ErrorKind, Eos, ByteCount};
verus! {
/// What can be observed of decoding one item from a stream, with absolute positions:
/// the item's bytes end at q / the item is x and its bytes end at q / decoding fails with kind k.
pub enum Out<T> { End(int), Item(int, T), Fail(ErrorKind) }
/// What can be observed of encoding from position p of the output stream on: the output still to come is exactly
/// the bytes of the stream up to q / it has q - p bytes / encoding fails with kind k.
pub enum EOut { Bytes(int), Len(int), Fail(ErrorKind) }
/// the bytes b are what the stream s holds at position p
pub open spec fn at(s: Seq<u8>, p: int, b: Seq<u8>) -> bool {
    0 <= p && p + b.len() <= s.len() && forall|i: int| 0 <= i < b.len() ==> s[p + i] == #[trigger] b[i]
}
pub broadcast proof fn at_index(s: Seq<u8>, p: int, b: Seq<u8>, j: int)
    requires #[trigger] at(s, p, b), p <= j < p + b.len(),
    ensures #[trigger] s[j] == b[j - p],
{ assert(s[p + (j - p)] == b[j - p]); }
pub broadcast proof fn at_part(s: Seq<u8>, p: int, b: Seq<u8>, p2: int, b2: Seq<u8>)
    requires #[trigger] at(s, p, b), p <= p2, p2 + b2.len() <= p + b.len(), forall|i: int| 0 <= i < b2.len() ==> b2[i] == #[trigger] b[p2 - p + i],
    ensures #[trigger] at(s, p2, b2),
{ assert forall|i: int| 0 <= i < b2.len() implies s[p2 + i] == #[trigger] b2[i] by { assert(s[p + (p2 - p + i)] == b[p2 - p + i]); } }
/// marks the buffer of the call being verified (keeps the lemmas below from being applied to everything)
pub closed spec fn root(b: Seq<u8>) -> bool { true }
pub proof fn mark_root(b: Seq<u8>) ensures root(b) {}
impl Eos {
    pub open spec fn reached(&self) -> bool { self.0 == ByteCount::Finite(0) }
    /// n bytes of the stream are still to come after the buffer this Eos describes
    /// (counts saturate: u64::MAX stands for at least that many; an infinite rest is one longer than any count)
    pub open spec fn fits(&self, n: int) -> bool {
        n >= 0 && match self.0 { ByteCount::Finite(k) => n == k || (k == u64::MAX && n >= k), ByteCount::Infinite => n > u64::MAX, ByteCount::Unknown => true }
    }
}
/// a call is given the bytes b, which the stream s holds at p, and the end-of-stream mark e, which is true of s
pub open spec fn here(s: Seq<u8>, p: int, b: Seq<u8>, e: Eos) -> bool { at(s, p, b) && e.fits(s.len() - p - b.len()) }
/// a call is given room for n bytes of the output stream s at p, and the end-of-stream mark e, which is true of s
pub open spec fn room(s: Seq<u8>, p: int, n: int, e: Eos) -> bool { 0 <= p && 0 <= n && p + n <= s.len() && e.fits(s.len() - p - n) }
pub broadcast proof fn here_within(s: Seq<u8>, p: int, b: Seq<u8>, e: Eos)
    requires #[trigger] here(s, p, b, e), #[trigger] root(b),
    ensures within(s, p),
{ }
pub broadcast proof fn here_suffix(s: Seq<u8>, p: int, b: Seq<u8>, e: Eos, n: int, m: int)
    requires #[trigger] here(s, p, b, e), #[trigger] root(b), 0 <= n <= b.len(), m == b.len(),
    ensures here(s, p + n, #[trigger] b.subrange(n, m), e), within(s, p + n),
{
    assert forall|i: int| 0 <= i < b.subrange(n, m).len() implies s[p + n + i] == #[trigger] b.subrange(n, m)[i] by { assert(b.subrange(n, m)[i] == b[n + i]); }
}
/// marks the number of bytes of the call being verified
pub closed spec fn rootn(n: int) -> bool { true }
pub proof fn mark_rootn(n: int) ensures rootn(n) {}
pub broadcast proof fn room_within(s: Seq<u8>, p: int, n: int, e: Eos)
    requires #[trigger] room(s, p, n, e), #[trigger] rootn(n),
    ensures within(s, p),
{ }
pub broadcast proof fn room_suffix(s: Seq<u8>, p: int, b: Seq<u8>, e: Eos, n: int, m: int)
    requires #[trigger] room(s, p, m, e), #[trigger] rootn(m), 0 <= n <= m, b.len() == m,
    ensures room(s, p + n, (#[trigger] b.subrange(n, m)).len() as int, e), within(s, p + n),
{ }
pub broadcast proof fn slice_bound(b: &[u8])
    ensures #[trigger] b@.len() <= usize::MAX,
{ assert(b@.len() == vstd::slice::spec_slice_len(b)); }
/// encoding that writes exactly w, and fails only when the stream has no room for it
pub open spec fn writes(w: Seq<u8>, s: Seq<u8>, p: int, o: EOut) -> bool {
    match o {
        EOut::Bytes(q) => q == p + w.len() && at(s, p, w),
        EOut::Len(q) => q == p + w.len(),
        EOut::Fail(k) => k == ErrorKind::UnexpectedEos && s.len() - p < w.len(),
    }
}
pub open spec fn within(s: Seq<u8>, p: int) -> bool { 0 <= p <= s.len() }
/// nothing is written
pub open spec fn nothing(s: Seq<u8>, p: int, o: EOut) -> bool {
    within(s, p) && match o { EOut::Bytes(q) => q == p, EOut::Len(q) => q == p, EOut::Fail(_) => false }
}
/// the item x, of which no bytes are left
pub open spec fn done<T>(x: T, s: Seq<u8>, p: int, o: Out<T>) -> bool {
    within(s, p) && match o { Out::End(q) => q == p, Out::Item(q, y) => q == p && y == x, Out::Fail(_) => false }
}
}
}
pub mod bytes {
use vstd::prelude::*;
verus! {
/// unsized sequence types handed out by AsRef/AsMut
pub trait SeqLike { type E; spec fn sv(&self) -> Seq<Self::E>; }
impl<T> SeqLike for [T] { type E = T; open spec fn sv(&self) -> Seq<T> { self@ } }
impl SeqLike for str { type E = char; open spec fn sv(&self) -> Seq<char> { self@ } }
/// the bytes an owned buffer denotes: one view shared by AsRef and AsMut
pub trait BView<E> { spec fn bv(&self) -> Seq<E>; }
pub trait AsRef<T: ?Sized + SeqLike>: BView<T::E> {
    fn as_ref(&self) -> (r: &T) ensures r.sv() == self.bv();
}
impl<E, const N: usize> BView<E> for [E; N] { open spec fn bv(&self) -> Seq<E> { self@ } }
impl<E, const N: usize> AsRef<[E]> for [E; N] { #[verifier::external_body] fn as_ref(&self) -> (r: &[E]) { self } }
impl<E, const N: usize> AsMut<[E]> for [E; N] { #[verifier::external_body] fn as_mut(&mut self) -> (r: &mut [E]) { self } }
impl<E> BView<E> for Vec<E> { open spec fn bv(&self) -> Seq<E> { self@ } }
impl<E> AsRef<[E]> for Vec<E> { #[verifier::external_body] fn as_ref(&self) -> (r: &[E]) { self } }
impl<E> AsMut<[E]> for Vec<E> { #[verifier::external_body] fn as_mut(&mut self) -> (r: &mut [E]) { self } }
pub trait AsMut<T: ?Sized + SeqLike>: BView<T::E> {
    fn as_mut(&mut self) -> (r: &mut T)
        ensures (*r).sv() == (*old(self)).bv(), (*final(r)).sv() == (*final(self)).bv();
}
/// `&s[a..b]` as the language defines it: panics for a bad range, so it returns only for a good one
#[verifier::external_body]
pub fn range_of<T>(s: &[T], a: usize, b: usize) -> (r: &[T])
    ensures a <= b <= s@.len(), r@ == s@.subrange(a as int, b as int)
{ &s[a..b] }
#[verifier::external_body]
pub fn range_of_mut<T>(s: &mut [T], a: usize, b: usize) -> (r: &mut [T])
    ensures a <= b <= old(s)@.len(), (*r)@ == old(s)@.subrange(a as int, b as int), (*final(r))@.len() == b - a,
        (*final(s))@ == old(s)@.subrange(0, a as int) + (*final(r))@ + old(s)@.subrange(b as int, old(s)@.len() as int)
{ &mut s[a..b] }
}
}
pub mod byteorder {
use vstd::prelude::*;
verus! {
pub open spec fn pow256(i: int) -> int {
    if i == 0 { 1 } else if i == 1 { 0x100 } else if i == 2 { 0x1_0000 } else if i == 3 { 0x100_0000 } else if i == 4 { 0x1_0000_0000 }
    else if i == 5 { 0x100_0000_0000 } else if i == 6 { 0x1_0000_0000_0000 } else if i == 7 { 0x100_0000_0000_0000 } else { 0x1_0000_0000_0000_0000 }
}
/// the i-th byte of a number, counted from its least significant end; negative numbers in two's complement
pub open spec fn byte(v: int, i: int) -> u8 { ((v / pow256(i)) % 256) as u8 }
/// v in w bytes, be: most significant byte first
pub open spec fn layout(v: int, w: int, be: bool) -> Seq<u8> { Seq::new(w as nat, |i: int| byte(v, if be { w - 1 - i } else { i })) }
pub uninterp spec fn f32_bits(x: f32) -> u32;
pub uninterp spec fn f64_bits(x: f64) -> u64;
pub trait ByteOrder {
    spec fn be() -> bool;
    fn read_u16(b: &[u8]) -> (r: u16) requires b@.len() >= 2 ensures layout(r as int, 2, Self::be()) == b@.take(2);
    fn write_u16(b: &mut [u8], n: u16) requires old(b)@.len() >= 2 ensures final(b)@ == layout(n as int, 2, Self::be()) + old(b)@.subrange(2, old(b)@.len() as int);
    fn read_i16(b: &[u8]) -> (r: i16) requires b@.len() >= 2 ensures layout(r as int, 2, Self::be()) == b@.take(2);
    fn write_i16(b: &mut [u8], n: i16) requires old(b)@.len() >= 2 ensures final(b)@ == layout(n as int, 2, Self::be()) + old(b)@.subrange(2, old(b)@.len() as int);
    fn read_u24(b: &[u8]) -> (r: u32) requires b@.len() >= 3 ensures layout(r as int, 3, Self::be()) == b@.take(3), r < 0x100_0000;
    fn write_u24(b: &mut [u8], n: u32) requires old(b)@.len() >= 3, n < 0x100_0000 ensures final(b)@ == layout(n as int, 3, Self::be()) + old(b)@.subrange(3, old(b)@.len() as int);
    fn read_u32(b: &[u8]) -> (r: u32) requires b@.len() >= 4 ensures layout(r as int, 4, Self::be()) == b@.take(4);
    fn write_u32(b: &mut [u8], n: u32) requires old(b)@.len() >= 4 ensures final(b)@ == layout(n as int, 4, Self::be()) + old(b)@.subrange(4, old(b)@.len() as int);
    fn read_i32(b: &[u8]) -> (r: i32) requires b@.len() >= 4 ensures layout(r as int, 4, Self::be()) == b@.take(4);
    fn write_i32(b: &mut [u8], n: i32) requires old(b)@.len() >= 4 ensures final(b)@ == layout(n as int, 4, Self::be()) + old(b)@.subrange(4, old(b)@.len() as int);
    fn read_u64(b: &[u8]) -> (r: u64) requires b@.len() >= 8 ensures layout(r as int, 8, Self::be()) == b@.take(8);
    fn write_u64(b: &mut [u8], n: u64) requires old(b)@.len() >= 8 ensures final(b)@ == layout(n as int, 8, Self::be()) + old(b)@.subrange(8, old(b)@.len() as int);
    fn read_i64(b: &[u8]) -> (r: i64) requires b@.len() >= 8 ensures layout(r as int, 8, Self::be()) == b@.take(8);
    fn write_i64(b: &mut [u8], n: i64) requires old(b)@.len() >= 8 ensures final(b)@ == layout(n as int, 8, Self::be()) + old(b)@.subrange(8, old(b)@.len() as int);
    fn read_f32(b: &[u8]) -> (r: f32) requires b@.len() >= 4 ensures layout(f32_bits(r) as int, 4, Self::be()) == b@.take(4);
    fn write_f32(b: &mut [u8], n: f32) requires old(b)@.len() >= 4 ensures final(b)@ == layout(f32_bits(n) as int, 4, Self::be()) + old(b)@.subrange(4, old(b)@.len() as int);
    fn read_f64(b: &[u8]) -> (r: f64) requires b@.len() >= 8 ensures layout(f64_bits(r) as int, 8, Self::be()) == b@.take(8);
    fn write_f64(b: &mut [u8], n: f64) requires old(b)@.len() >= 8 ensures final(b)@ == layout(f64_bits(n) as int, 8, Self::be()) + old(b)@.subrange(8, old(b)@.len() as int);
    fn read_uint(b: &[u8], n: usize) -> (r: u64) requires 1 <= n <= 8, n <= b@.len() ensures layout(r as int, n as int, Self::be()) == b@.take(n as int), (r as int) < pow256(n as int);
    fn write_uint(b: &mut [u8], x: u64, n: usize) requires 1 <= n <= 8, n <= old(b)@.len(), (x as int) < pow256(n as int) ensures final(b)@ == layout(x as int, n as int, Self::be()) + old(b)@.subrange(n as int, old(b)@.len() as int);
}
pub struct BigEndian;
pub struct LittleEndian;
impl ByteOrder for BigEndian {
    open spec fn be() -> bool { true }
    #[verifier::external_body] fn read_u16(b: &[u8]) -> (r: u16) { unimplemented!() }
    #[verifier::external_body] fn write_u16(b: &mut [u8], n: u16) { unimplemented!() }
    #[verifier::external_body] fn read_i16(b: &[u8]) -> (r: i16) { unimplemented!() }
    #[verifier::external_body] fn write_i16(b: &mut [u8], n: i16) { unimplemented!() }
    #[verifier::external_body] fn read_u24(b: &[u8]) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn write_u24(b: &mut [u8], n: u32) { unimplemented!() }
    #[verifier::external_body] fn read_u32(b: &[u8]) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn write_u32(b: &mut [u8], n: u32) { unimplemented!() }
    #[verifier::external_body] fn read_i32(b: &[u8]) -> (r: i32) { unimplemented!() }
    #[verifier::external_body] fn write_i32(b: &mut [u8], n: i32) { unimplemented!() }
    #[verifier::external_body] fn read_u64(b: &[u8]) -> (r: u64) { unimplemented!() }
    #[verifier::external_body] fn write_u64(b: &mut [u8], n: u64) { unimplemented!() }
    #[verifier::external_body] fn read_i64(b: &[u8]) -> (r: i64) { unimplemented!() }
    #[verifier::external_body] fn write_i64(b: &mut [u8], n: i64) { unimplemented!() }
    #[verifier::external_body] fn read_f32(b: &[u8]) -> (r: f32) { unimplemented!() }
    #[verifier::external_body] fn write_f32(b: &mut [u8], n: f32) { unimplemented!() }
    #[verifier::external_body] fn read_f64(b: &[u8]) -> (r: f64) { unimplemented!() }
    #[verifier::external_body] fn write_f64(b: &mut [u8], n: f64) { unimplemented!() }
    #[verifier::external_body] fn read_uint(b: &[u8], n: usize) -> (r: u64) { unimplemented!() }
    #[verifier::external_body] fn write_uint(b: &mut [u8], x: u64, n: usize) { unimplemented!() }
}
impl ByteOrder for LittleEndian {
    open spec fn be() -> bool { false }
    #[verifier::external_body] fn read_u16(b: &[u8]) -> (r: u16) { unimplemented!() }
    #[verifier::external_body] fn write_u16(b: &mut [u8], n: u16) { unimplemented!() }
    #[verifier::external_body] fn read_i16(b: &[u8]) -> (r: i16) { unimplemented!() }
    #[verifier::external_body] fn write_i16(b: &mut [u8], n: i16) { unimplemented!() }
    #[verifier::external_body] fn read_u24(b: &[u8]) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn write_u24(b: &mut [u8], n: u32) { unimplemented!() }
    #[verifier::external_body] fn read_u32(b: &[u8]) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn write_u32(b: &mut [u8], n: u32) { unimplemented!() }
    #[verifier::external_body] fn read_i32(b: &[u8]) -> (r: i32) { unimplemented!() }
    #[verifier::external_body] fn write_i32(b: &mut [u8], n: i32) { unimplemented!() }
    #[verifier::external_body] fn read_u64(b: &[u8]) -> (r: u64) { unimplemented!() }
    #[verifier::external_body] fn write_u64(b: &mut [u8], n: u64) { unimplemented!() }
    #[verifier::external_body] fn read_i64(b: &[u8]) -> (r: i64) { unimplemented!() }
    #[verifier::external_body] fn write_i64(b: &mut [u8], n: i64) { unimplemented!() }
    #[verifier::external_body] fn read_f32(b: &[u8]) -> (r: f32) { unimplemented!() }
    #[verifier::external_body] fn write_f32(b: &mut [u8], n: f32) { unimplemented!() }
    #[verifier::external_body] fn read_f64(b: &[u8]) -> (r: f64) { unimplemented!() }
    #[verifier::external_body] fn write_f64(b: &mut [u8], n: f64) { unimplemented!() }
    #[verifier::external_body] fn read_uint(b: &[u8], n: usize) -> (r: u64) { unimplemented!() }
    #[verifier::external_body] fn write_uint(b: &mut [u8], x: u64, n: usize) { unimplemented!() }
}
}
}
pub mod fmt {}
pub mod iter {
use vstd::prelude::*;
verus! {
/// std::iter::Iterator, restricted to what the crate uses; items() is what is still to come (a finite sequence)
pub trait Iterator {
    type Item;
    spec fn items(&self) -> Seq<Self::Item>;
    fn next(&mut self) -> (r: Option<Self::Item>)
        ensures r matches Some(x) ==> (*old(self)).items().len() > 0 && x == (*old(self)).items()[0] && (*final(self)).items() == (*old(self)).items().skip(1),
            r is None ==> (*old(self)).items().len() == 0 && (*final(self)).items().len() == 0;
}
pub struct Once<T> { pub t: T }
pub fn once<T>(t: T) -> (r: Once<T>) ensures r.t == t { Once { t } }
/// appending x to the collection a may give b (whatever the collection makes of it)
pub uninterp spec fn extended<T, X>(a: T, x: X, b: T) -> bool;
pub trait Extend<X>: Sized {
    fn extend(&mut self, i: Once<X>) ensures extended(*old(self), i.t, *final(self));
}
}
}
pub mod trackable { pub mod error {
use vstd::prelude::*;
verus! {
pub struct TrackableError<K> { pub kind: K }
pub struct Failure { pub x: u8 }
pub trait ErrorKind {}
pub trait ErrorKindExt: Sized {
    fn cause<E>(self, e: E) -> (r: TrackableError<Self>) ensures r.kind == self { TrackableError { kind: self } }
    fn takes_over<E>(self, e: E) -> (r: TrackableError<Self>) ensures r.kind == self { TrackableError { kind: self } }
}
impl<K: ErrorKind> ErrorKindExt for K {}
}
} }
pub mod io {
use vstd::prelude::*;
verus! {
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum ErrorKind { NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, HostUnreachable, NetworkUnreachable, ConnectionAborted,
    NotConnected, AddrInUse, AddrNotAvailable, NetworkDown, BrokenPipe, AlreadyExists, WouldBlock, NotADirectory, IsADirectory, DirectoryNotEmpty,
    ReadOnlyFilesystem, StaleNetworkFileHandle, InvalidInput, InvalidData, TimedOut, WriteZero, StorageFull, NotSeekable, QuotaExceeded,
    FileTooLarge, ResourceBusy, ExecutableFileBusy, Deadlock, TooManyLinks, InvalidFilename, ArgumentListTooLong, Interrupted, Unsupported,
    UnexpectedEof, OutOfMemory, Other, Unlisted }
pub struct Error { pub kind: ErrorKind }
impl Error { pub fn kind(&self) -> (r: ErrorKind) ensures r == self.kind { self.kind } }
pub type Result<T> = std::result::Result<T, Error>;
/// how a call of the stream ended: it moved so many bytes, or it failed
pub enum Said { Bytes(nat), Fail(ErrorKind) }

/// std::io::Read.  The bytes still to come from a reader are the finite sequence src(); no bytes for a non-empty buffer means that none are left.
/// end(rest)/last(o): once this reader value is gone, rest is what is left in the source behind it / its last call ended with o.
pub trait Read {
    spec fn rinv(&self) -> bool;
    spec fn src(&self) -> Seq<u8>;
    spec fn said(&self, o: Said) -> bool;
    #[verifier::prophetic]
    spec fn end(&self, rest: Seq<u8>) -> bool;
    #[verifier::prophetic]
    spec fn last(&self, o: Said) -> bool;
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>)
        requires (*old(self)).rinv(),
        ensures (*final(self)).rinv(), final(buf)@.len() == old(buf)@.len(),
            r matches Ok(n) ==> n <= old(buf)@.len() && (*old(self)).src() == final(buf)@.take(n as int) + (*final(self)).src() && (*final(self)).said(Said::Bytes(n as nat)), //@ C14 reading takes bytes from the front, in order and once
            r matches Ok(n) ==> n == 0 && old(buf)@.len() > 0 ==> (*final(self)).src() == Seq::<u8>::empty(), //@ C14 reading nothing means that nothing is left
            r matches Err(e) ==> (*final(self)).src() == (*old(self)).src() && (*final(self)).said(Said::Fail(e.kind)),
            forall|x: Seq<u8>| #[trigger] (*final(self)).end(x) ==> (*old(self)).end(x),
            forall|o: Said| #[trigger] (*final(self)).last(o) ==> (*old(self)).last(o);
    proof fn gone(self) where Self: Sized
        requires has_resolved(self), self.rinv(),
        ensures self.end(self.src()), forall|o: Said| #[trigger] self.said(o) ==> self.last(o);
}
impl<R: Read + ?Sized> Read for &mut R {
    open spec fn rinv(&self) -> bool { (**self).rinv() }
    open spec fn src(&self) -> Seq<u8> { (**self).src() }
    open spec fn said(&self, o: Said) -> bool { (**self).said(o) }
    #[verifier::prophetic]
    open spec fn end(&self, x: Seq<u8>) -> bool { (*final(*self)).src() == x && (*final(*self)).rinv() && tail_of(x, (**self).src()) }
    #[verifier::prophetic]
    open spec fn last(&self, o: Said) -> bool { (*final(*self)).said(o) }
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) { let r = (**self).read(buf); proof { broadcast use tails; assert(Seq::<u8>::empty() + (**old(self)).src() =~= (**old(self)).src()); } r }
    proof fn gone(self) { assert((*self).src().skip(0) =~= (*self).src()); }
}
impl Read for &[u8] {
    open spec fn rinv(&self) -> bool { true }
    open spec fn src(&self) -> Seq<u8> { self@ }
    open spec fn said(&self, o: Said) -> bool { o is Bytes }
    #[verifier::prophetic]
    open spec fn end(&self, x: Seq<u8>) -> bool { tail_of(x, self@) }
    #[verifier::prophetic]
    open spec fn last(&self, o: Said) -> bool { o is Bytes }
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) {
        let n = if buf.len() <= self.len() { buf.len() } else { self.len() };
        let ghost s0 = self@; let ghost b0 = buf@;
        buf[..n].copy_from_slice(&self[..n]);
        *self = &self[n..];
        proof { assert(buf@.take(n as int) =~= s0.take(n as int)); assert(s0 =~= buf@.take(n as int) + self@); broadcast use tails; }
        Ok(n)
    }
    proof fn gone(self) { assert(self@.skip(0) =~= self@); }
}
/// x is what is left at the end of s
pub open spec fn tail_of(x: Seq<u8>, s: Seq<u8>) -> bool { x.len() <= s.len() && x == s.skip(s.len() - x.len()) }
pub broadcast proof fn tails(x: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    requires #[trigger] tail_of(x, b),
    ensures tail_of(x, #[trigger] (a + b)),
{ assert((a + b).skip((a + b).len() - x.len()) =~= x); }
pub struct Chain<A, B> { pub first: A, pub second: B, pub done_first: bool }
/// the methods of std::io::Read that make new readers
pub trait ReadExt: Read {
    fn chain<R2: Read>(self, next: R2) -> (r: Chain<Self, R2>) where Self: Sized
        ensures r.first == self, r.second == next, !r.done_first { Chain { first: self, second: next, done_first: false } }
    fn by_ref(&mut self) -> (r: &mut Self) where Self: Sized
        ensures *r == *old(self), *final(r) == *final(self) { self }
}
impl<T: Read> ReadExt for T {}
impl<A: Read, B: Read> Read for Chain<A, B> {
    open spec fn rinv(&self) -> bool { self.first.rinv() && self.second.rinv() && (self.done_first ==> self.first.src().len() == 0) }
    open spec fn src(&self) -> Seq<u8> { self.first.src() + self.second.src() }
    open spec fn said(&self, o: Said) -> bool { self.first.said(o) || self.second.said(o) }
    #[verifier::prophetic]
    open spec fn end(&self, x: Seq<u8>) -> bool { chain_ends(self.first, self.second, x) }
    #[verifier::prophetic]
    open spec fn last(&self, o: Said) -> bool { self.first.last(o) || self.second.last(o) }
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) {
        let ghost f0 = self.first; let ghost s0 = self.second; let ghost n0 = buf@.len();
        if !self.done_first {
            let n = match self.first.read(buf) { Ok(n) => n, Err(e) => { proof { assert(Seq::<u8>::empty() + f0.src() =~= f0.src()); chain_step(f0, s0, self.first, self.second, Seq::<u8>::empty()); } return Err(e); } };
            if n == 0 && buf.len() > 0 { self.done_first = true; } else {
                proof { chain_step(f0, s0, self.first, self.second, buf@.take(n as int)); }
                return Ok(n);
            }
        }
        proof { assert(buf@.take(0) =~= Seq::<u8>::empty()); }
        let r = self.second.read(buf);
        proof {
            assert(f0.src() =~= Seq::<u8>::empty());
            assert(f0.src() =~= self.first.src());
            let t = if let Ok(n) = r { buf@.take(n as int) } else { Seq::<u8>::empty() };
            assert(s0.src() =~= t + self.second.src());
            assert(f0.src() + s0.src() =~= t + (self.first.src() + self.second.src()));
            chain_step(f0, s0, self.first, self.second, t);
        }
        r
    }
    proof fn gone(self) {
        assert(has_resolved::<Chain<A, B>>(self)); chain_gone(self);
        assert(self.first.src().skip(0) =~= self.first.src()); assert(self.second.src().skip(0) =~= self.second.src());
        assert(chain_end(self.first, self.second, self.first.src(), self.second.src()));
    }
}
proof fn chain_gone<A: Read, B: Read>(c: Chain<A, B>)
    requires has_resolved(c), c.first.rinv(), c.second.rinv(),
    ensures c.first.end(c.first.src()), c.second.end(c.second.src()), forall|o: Said| #[trigger] c.first.said(o) ==> c.first.last(o), forall|o: Said| #[trigger] c.second.said(o) ==> c.second.last(o),
{ A::gone(c.first); B::gone(c.second); }
#[verifier::prophetic]
pub open spec fn chain_end<A: Read, B: Read>(first: A, second: B, a: Seq<u8>, b: Seq<u8>) -> bool {
    first.end(a) && second.end(b) && tail_of(a, first.src()) && tail_of(b, second.src()) && (a.len() > 0 ==> b == second.src())
}
#[verifier::prophetic]
pub open spec fn chain_ends<A: Read, B: Read>(first: A, second: B, x: Seq<u8>) -> bool {
    exists|a: Seq<u8>, b: Seq<u8>| #[trigger] chain_end(first, second, a, b) && x == a + b
}
/// what is left of the whole includes what is left of the second part
pub broadcast proof fn chain_left(f: &[u8], g: &mut &[u8], x: Seq<u8>)
    requires #[trigger] chain_ends(f, g, x),
    ensures (*final(g))@.len() <= x.len(),
{
    let (a, b) = choose|a: Seq<u8>, b: Seq<u8>| #[trigger] chain_end(f, g, a, b) && x == a + b;
    assert(b == (*final(g))@);
}
proof fn chain_step<A: Read, B: Read>(f0: A, s0: B, f: A, s: B, t: Seq<u8>)
    requires forall|x: Seq<u8>| #[trigger] f.end(x) ==> f0.end(x), forall|x: Seq<u8>| #[trigger] s.end(x) ==> s0.end(x),
        (f0.src() == t + f.src() && s0 == s) || (f0.src().len() == 0 && f.src().len() == 0 && s0.src() == t + s.src()),
    ensures forall|x: Seq<u8>| #[trigger] chain_ends(f, s, x) ==> chain_ends(f0, s0, x),
{
    assert forall|x: Seq<u8>| #[trigger] chain_ends(f, s, x) implies chain_ends(f0, s0, x) by {
        let (a, b) = choose|a: Seq<u8>, b: Seq<u8>| #[trigger] chain_end(f, s, a, b) && x == a + b;
        assert(chain_end(f0, s0, a, b)) by { broadcast use tails; if a.len() == 0 { assert(a =~= f0.src().skip(f0.src().len() as int)); } }
    }
}
/// std::io::Write.  wrote(a, b, w): between the states a and b exactly the bytes w were written.
/// puts(w)/last(o): from now on until this writer value is gone, exactly w is written through it / its last call ended with o.
/// full(): it takes no more bytes.  puts_full(w): puts(w), and then it is full.  safe(): it never fails.  endless(): it never fails and is never full.
pub trait Write {
    spec fn winv(&self) -> bool;
    spec fn full(&self) -> bool;
    spec fn safe(&self) -> bool;
    spec fn endless(&self) -> bool;
    spec fn told(&self, o: Said) -> bool;
    #[verifier::prophetic]
    spec fn wrote(&self, b: &Self, w: Seq<u8>) -> bool;
    #[verifier::prophetic]
    spec fn puts(&self, w: Seq<u8>) -> bool;
    #[verifier::prophetic]
    spec fn puts_full(&self, w: Seq<u8>) -> bool;
    #[verifier::prophetic]
    spec fn last_told(&self, o: Said) -> bool;
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize>)
        requires (*old(self)).winv(),
        ensures (*final(self)).winv(),
            r matches Ok(n) ==> n <= buf@.len() && (*old(self)).wrote(&*final(self), buf@.take(n as int)) && (*final(self)).told(Said::Bytes(n as nat)), //@ C14 writing appends the bytes it reports, in order and once
            r matches Ok(n) ==> (forall|w: Seq<u8>| #[trigger] (*final(self)).puts(w) ==> (*old(self)).puts(buf@.take(n as int) + w)),
            r matches Ok(n) ==> (forall|w: Seq<u8>| #[trigger] (*final(self)).puts_full(w) ==> (*old(self)).puts_full(buf@.take(n as int) + w)),
            r matches Ok(n) ==> n == 0 && buf@.len() > 0 ==> (*final(self)).full(), //@ C14 taking nothing means being full
            (*old(self)).safe() ==> r is Ok && (*final(self)).safe(),
            (*old(self)).endless() ==> r is Ok && (*final(self)).endless(),
            (*old(self)).endless() ==> (r matches Ok(n) ==> (n == 0 ==> buf@.len() == 0)),
            (*old(self)).full() ==> (*final(self)).full() && (r matches Ok(n) ==> n == 0), //@ C14 a full writer takes nothing
            r matches Err(e) ==> (*old(self)).wrote(&*final(self), Seq::<u8>::empty()) && (*final(self)).told(Said::Fail(e.kind)),
            r is Err ==> (forall|w: Seq<u8>| #[trigger] (*final(self)).puts(w) ==> (*old(self)).puts(w)),
            r is Err ==> (forall|w: Seq<u8>| #[trigger] (*final(self)).puts_full(w) ==> (*old(self)).puts_full(w)),
            forall|o: Said| #[trigger] (*final(self)).last_told(o) ==> (*old(self)).last_told(o);
    fn flush(&mut self) -> (r: Result<()>)
        requires (*old(self)).winv(),
        ensures (*final(self)).winv(), (*old(self)).wrote(&*final(self), Seq::<u8>::empty()), (*old(self)).full() ==> (*final(self)).full(),
            (*old(self)).safe() ==> r is Ok && (*final(self)).safe(),
            (*old(self)).endless() ==> r is Ok && (*final(self)).endless(),
            forall|w: Seq<u8>| #[trigger] (*final(self)).puts(w) ==> (*old(self)).puts(w),
            forall|w: Seq<u8>| #[trigger] (*final(self)).puts_full(w) ==> (*old(self)).puts_full(w),
            forall|o: Said| #[trigger] (*final(self)).last_told(o) ==> (*old(self)).last_told(o);
    proof fn gone_w(self) where Self: Sized
        requires has_resolved(self), self.winv(),
        ensures self.puts(Seq::<u8>::empty()), self.full() ==> self.puts_full(Seq::<u8>::empty()), forall|o: Said| #[trigger] self.told(o) ==> self.last_told(o);
    /// a full writer takes nothing any more
    proof fn full_stays(&self, b: &Self, w: Seq<u8>) requires self.full(), self.wrote(b, w) ensures w.len() == 0, b.full();
    proof fn full_puts(self, w: Seq<u8>) where Self: Sized requires self.full(), self.puts(w) ensures w.len() == 0, self.puts_full(w);
    proof fn puts_fully(self, w: Seq<u8>) where Self: Sized requires self.puts_full(w) ensures self.puts(w);
    proof fn wrote_none(&self) requires self.winv() ensures self.wrote(self, Seq::<u8>::empty());
    proof fn wrote_both(&self, b: &Self, c: &Self, v: Seq<u8>, w: Seq<u8>)
        requires self.wrote(b, v), b.wrote(c, w),
        ensures self.wrote(c, v + w);
}
/// the methods of std::io::Write built on write
pub trait WriteExt: Write + Sized {
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>)
        requires (*old(self)).winv(),
        ensures (*final(self)).winv(),
            r is Ok ==> (*old(self)).wrote(&*final(self), buf@) && (forall|w: Seq<u8>| #[trigger] (*final(self)).puts(w) ==> (*old(self)).puts(buf@ + w)),
            r matches Err(e) ==> exists|n: int| 0 <= n <= buf@.len() && #[trigger] wrote_part(*old(self), *final(self), buf@, n),
            r matches Err(e) ==> (*final(self)).told(Said::Fail(e.kind)) || ((*final(self)).full() && e.kind == ErrorKind::WriteZero),
            forall|o: Said| #[trigger] (*final(self)).last_told(o) ==> (*old(self)).last_told(o)
    {
        let mut rest = buf;
        let ghost mut n: int = 0;
        proof { Self::wrote_none(&*self); assert(buf@.take(0) =~= Seq::<u8>::empty()); assert(buf@.skip(0) =~= buf@);
            assert forall|w: Seq<u8>| #[trigger] (*self).puts(w) implies (*old(self)).puts(buf@.take(0) + w) by { assert(buf@.take(0) + w =~= w); } }
        while rest.len() > 0
            invariant (*self).winv(), 0 <= n <= buf@.len(), rest@ == buf@.skip(n), wrote_part(*old(self), *self, buf@, n),
                forall|o: Said| #[trigger] (*self).last_told(o) ==> (*old(self)).last_told(o),
        {
            let ghost s0 = *self;
            match self.write(rest) {
                Ok(k) => {
                    proof {
                        (*old(self)).wrote_both(&s0, &*self, buf@.take(n), rest@.take(k as int));
                        assert(buf@.take(n) + rest@.take(k as int) =~= buf@.take(n + k));
                        assert forall|w: Seq<u8>| #[trigger] (*self).puts(w) implies (*old(self)).puts(buf@.take(n + k) + w) by {
                            assert(s0.puts(rest@.take(k as int) + w));
                            assert(buf@.take(n) + (rest@.take(k as int) + w) =~= buf@.take(n + k) + w);
                        }
                        assert(rest@.skip(k as int) =~= buf@.skip(n + k));
                        n = n + k;
                    }
                    if k == 0 { assert(wrote_part(*old(self), *self, buf@, n)); return Err(Error { kind: ErrorKind::WriteZero }); }
                    rest = &rest[k..];
                }
                Err(e) => {
                    proof {
                        (*old(self)).wrote_both(&s0, &*self, buf@.take(n), Seq::<u8>::empty());
                        assert(buf@.take(n) + Seq::<u8>::empty() =~= buf@.take(n));
                        assert(wrote_part(*old(self), *self, buf@, n));
                    }
                    if e.kind != ErrorKind::Interrupted { return Err(e); }
                }
            }
        }
        proof { assert(buf@.take(n) =~= buf@); }
        Ok(())
    }
}
#[verifier::prophetic]
pub open spec fn wrote_part<W: Write>(a: W, b: W, buf: Seq<u8>, n: int) -> bool {
    a.wrote(&b, buf.take(n)) && (forall|w: Seq<u8>| #[trigger] b.puts(w) ==> a.puts(buf.take(n) + w))
}
impl<T: Write> WriteExt for T {}
proof fn writes_on<W: Write>(a: W, b: W, c: W, v: Seq<u8>)
    requires a.wrote(&b, v),
    ensures forall|w: Seq<u8>| #[trigger] b.wrote(&c, w) ==> a.wrote(&c, v + w), v.len() == 0 ==> forall|w: Seq<u8>| #[trigger] b.wrote(&c, w) ==> a.wrote(&c, w),
{
    assert forall|w: Seq<u8>| #[trigger] b.wrote(&c, w) implies a.wrote(&c, v + w) && (v.len() == 0 ==> a.wrote(&c, w)) by { a.wrote_both(&b, &c, v, w); if v.len() == 0 { assert(v + w =~= w); } }
}
impl<W: Write> Write for &mut W {
    open spec fn winv(&self) -> bool { (**self).winv() }
    open spec fn full(&self) -> bool { (**self).full() }
    open spec fn safe(&self) -> bool { (**self).safe() }
    open spec fn endless(&self) -> bool { (**self).endless() }
    #[verifier::prophetic]
    open spec fn puts_full(&self, w: Seq<u8>) -> bool { (**self).wrote(&*final(*self), w) && (*final(*self)).winv() && (*final(*self)).full() }
    open spec fn told(&self, o: Said) -> bool { (**self).told(o) }
    #[verifier::prophetic]
    open spec fn wrote(&self, b: &Self, w: Seq<u8>) -> bool { (**self).wrote(&**b, w) && *final(*self) == *final(*b) }
    #[verifier::prophetic]
    open spec fn puts(&self, w: Seq<u8>) -> bool { (**self).wrote(&*final(*self), w) && (*final(*self)).winv() }
    #[verifier::prophetic]
    open spec fn last_told(&self, o: Said) -> bool { (*final(*self)).told(o) }
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize>) {
        let r = (**self).write(buf);
        proof { writes_on(**old(self), **self, *final(*self), if let Ok(n) = r { buf@.take(n as int) } else { Seq::<u8>::empty() }); }
        r
    }
    fn flush(&mut self) -> (r: Result<()>) {
        let r = (**self).flush();
        proof { writes_on(**old(self), **self, *final(*self), Seq::<u8>::empty()); }
        r
    }
    proof fn gone_w(self) { W::wrote_none(&*self); }
    proof fn wrote_none(&self) { W::wrote_none(&**self); }
    proof fn full_stays(&self, b: &Self, w: Seq<u8>) { W::full_stays(&**self, &**b, w); }
    proof fn full_puts(self, w: Seq<u8>) { W::full_stays(&*self, &*final(self), w); }
    proof fn puts_fully(self, w: Seq<u8>) { }
    proof fn wrote_both(&self, b: &Self, c: &Self, v: Seq<u8>, w: Seq<u8>) { (**self).wrote_both(&**b, &**c, v, w); }
}
impl Write for Vec<u8> {
    open spec fn winv(&self) -> bool { true }
    open spec fn full(&self) -> bool { false }
    open spec fn safe(&self) -> bool { true }
    open spec fn endless(&self) -> bool { true }
    #[verifier::prophetic]
    open spec fn puts_full(&self, w: Seq<u8>) -> bool { true }
    open spec fn told(&self, o: Said) -> bool { o is Bytes }
    #[verifier::prophetic]
    open spec fn wrote(&self, b: &Self, w: Seq<u8>) -> bool { b@ == self@ + w }
    #[verifier::prophetic]
    open spec fn puts(&self, w: Seq<u8>) -> bool { true }
    #[verifier::prophetic]
    open spec fn last_told(&self, o: Said) -> bool { true }
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize>) { self.extend_from_slice(buf); proof { assert(buf@.take(buf@.len() as int) =~= buf@); assert(self@ =~= old(self)@ + buf@); } Ok(buf.len()) }
    fn flush(&mut self) -> (r: Result<()>) { proof { assert(self@ =~= self@ + Seq::<u8>::empty()); } Ok(()) }
    proof fn gone_w(self) { }
    proof fn wrote_none(&self) { assert(self@ =~= self@ + Seq::<u8>::empty()); }
    proof fn full_stays(&self, b: &Self, w: Seq<u8>) { }
    proof fn full_puts(self, w: Seq<u8>) { }
    proof fn puts_fully(self, w: Seq<u8>) { }
    proof fn wrote_both(&self, b: &Self, c: &Self, v: Seq<u8>, w: Seq<u8>) { assert(c@ =~= self@ + (v + w)); }
}
/// a writer that fills a slice: what is left of it shrinks
impl Write for &mut [u8] {
    open spec fn winv(&self) -> bool { true }
    open spec fn full(&self) -> bool { self@.len() == 0 }
    open spec fn safe(&self) -> bool { true }
    open spec fn endless(&self) -> bool { false }
    #[verifier::prophetic]
    open spec fn puts_full(&self, w: Seq<u8>) -> bool { w.len() == self@.len() && final(*self)@ == w }
    open spec fn told(&self, o: Said) -> bool { o is Bytes }
    #[verifier::prophetic]
    open spec fn wrote(&self, b: &Self, w: Seq<u8>) -> bool { w.len() + b@.len() == self@.len() && b@ == self@.skip(w.len() as int) && final(*self)@ == w + final(*b)@ }
    #[verifier::prophetic]
    open spec fn puts(&self, w: Seq<u8>) -> bool { w.len() <= self@.len() && final(*self)@ == w + self@.skip(w.len() as int) }
    #[verifier::prophetic]
    open spec fn last_told(&self, o: Said) -> bool { true }
    #[verifier::external_body] fn write(&mut self, buf: &[u8]) -> (r: Result<usize>) { unimplemented!() }
    fn flush(&mut self) -> (r: Result<()>) { proof { assert(self@ =~= self@.skip(0)); assert(final(*self)@ =~= Seq::<u8>::empty() + final(*self)@); } Ok(()) }
    proof fn gone_w(self) { assert(self@ =~= Seq::<u8>::empty() + self@.skip(0)); }
    proof fn wrote_none(&self) { assert(self@ =~= self@.skip(0)); assert(final(*self)@ =~= Seq::<u8>::empty() + final(*self)@); }
    proof fn full_stays(&self, b: &Self, w: Seq<u8>) { }
    proof fn full_puts(self, w: Seq<u8>) { assert(w =~= Seq::<u8>::empty()); assert(final(self)@ =~= w); }
    proof fn puts_fully(self, w: Seq<u8>) { assert(w.len() == self@.len()); assert(final(self)@ == w); assert(w + self@.skip(w.len() as int) =~= w); assert(final(self)@ == w + self@.skip(w.len() as int)); assert(self.puts(w)); }
    proof fn wrote_both(&self, b: &Self, c: &Self, v: Seq<u8>, w: Seq<u8>) {
        assert(c@ =~= self@.skip((v + w).len() as int)); assert(final(*self)@ =~= (v + w) + final(*c)@);
    }
}
}
}
pub mod serde {
use vstd::prelude::*;
verus! {
pub trait Serialize {}
pub trait Deserialize<'de>: Sized {}
}
}
/// The bincode library (an assumption): deserialising reads from the front of the reader and depends on nothing but the bytes
/// still to come; serialising writes bytes that depend on nothing but the value.
pub mod bincode {
use vstd::prelude::*;
use super::io::{Read, Write, Said};
use super::serde::{Serialize, Deserialize};
verus! {
pub struct Error { pub x: u8 }
/// deserialising from the bytes s takes the first n of them and gives x / gives an error
pub uninterp spec fn reads<T>(s: Seq<u8>, n: int, x: T) -> bool;
pub uninterp spec fn refuses<T>(s: Seq<u8>, n: int) -> bool;
/// serialising x writes the bytes w / writes the bytes w and then fails
pub uninterp spec fn writes_as<T>(x: T, w: Seq<u8>) -> bool;
pub uninterp spec fn breaks<T>(x: T, w: Seq<u8>) -> bool;
#[verifier::external_body]
pub fn deserialize_from<R: Read, T: for<'de> Deserialize<'de>>(reader: R) -> (r: Result<T, Error>)
    requires reader.rinv(),
    ensures exists|n: int| 0 <= n <= reader.src().len() && #[trigger] reader.end(reader.src().skip(n))
        && (match r { Ok(x) => reads::<T>(reader.src(), n, x), Err(_) => refuses::<T>(reader.src(), n) } || r is Err && exists|k: super::io::ErrorKind| #[trigger] reader.last(Said::Fail(k)))
{ unimplemented!() }
#[verifier::external_body]
pub fn serialize_into<W: Write, T: Serialize>(writer: W, x: &T) -> (r: Result<(), Error>)
    requires writer.winv(),
    ensures exists|w: Seq<u8>| #[trigger] writer.puts(w) && (match r { Ok(_) => writes_as(*x, w), Err(_) => breaks(*x, w) } || r is Err && !writer.endless())
{ unimplemented!() }
}
}
/// The serde_json library (an assumption): deserialising reads from the front of the reader and depends on nothing but the bytes
/// still to come; serialising writes bytes that depend on nothing but the value.
pub mod serde_json {
use vstd::prelude::*;
use super::io::{Read, Write, Said};
use super::serde::{Serialize, Deserialize};
verus! {
pub struct Error { pub x: u8 }
/// deserialising from the bytes s takes the first n of them and gives x / gives an error
pub uninterp spec fn reads<T>(s: Seq<u8>, n: int, x: T) -> bool;
pub uninterp spec fn refuses<T>(s: Seq<u8>, n: int) -> bool;
/// serialising x writes the bytes w / writes the bytes w and then fails
pub uninterp spec fn writes_as<T>(x: T, w: Seq<u8>) -> bool;
pub uninterp spec fn breaks<T>(x: T, w: Seq<u8>) -> bool;
#[verifier::external_body]
pub fn from_reader<R: Read, T: for<'de> Deserialize<'de>>(reader: R) -> (r: Result<T, Error>)
    requires reader.rinv(),
    ensures exists|n: int| 0 <= n <= reader.src().len() && #[trigger] reader.end(reader.src().skip(n))
        && (match r { Ok(x) => reads::<T>(reader.src(), n, x), Err(_) => refuses::<T>(reader.src(), n) } || r is Err && exists|k: super::io::ErrorKind| #[trigger] reader.last(Said::Fail(k)))
{ unimplemented!() }
#[verifier::external_body]
pub fn to_writer<W: Write, T: Serialize>(writer: W, x: &T) -> (r: Result<(), Error>)
    requires writer.winv(),
    ensures exists|w: Seq<u8>| #[trigger] writer.puts(w) && (match r { Ok(_) => writes_as(*x, w), Err(_) => breaks(*x, w) } || r is Err && !writer.endless())
{ unimplemented!() }
}
}
pub mod stream {
use vstd::prelude::*;
use super::io::{Read, Write, Said};
verus! {
pub broadcast proof fn reader_gone<R: Read>(r: R)
    requires #[trigger] has_resolved(r), r.rinv(),
    ensures r.end(r.src()), forall|o: Said| #[trigger] r.said(o) ==> r.last(o),
{ r.gone() }
pub broadcast proof fn writer_gone<W: Write>(r: W)
    requires #[trigger] has_resolved(r), r.winv(),
    ensures r.puts(Seq::<u8>::empty()), forall|o: Said| #[trigger] r.told(o) ==> r.last_told(o),
{ r.gone_w() }
}
}
pub mod pin_project {}
pub mod pin {
/// Pin<P> holds a P and nothing else; only its data matters here
pub type Pin<P> = P;
pub use core::task::{Context, Poll, Waker};
use vstd::prelude::*;
verus! {
pub assume_specification<T, E, F: core::convert::From<E>> [<Poll<core::result::Result<T, F>> as core::ops::FromResidual<core::result::Result<core::convert::Infallible, E>>>::from_residual] (x: core::result::Result<core::convert::Infallible, E>) -> (r: Poll<core::result::Result<T, F>>)
    ensures match (x, r) { (Err(e), Poll::Ready(Err(f))) => vstd::std_specs::control_flow::spec_from::<F, E>(e, f), _ => false };
pub trait PinExt: Sized {
    fn as_mut(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(r) == *final(self) { self }
}
impl<T> PinExt for T {}
#[verifier::external_type_specification]
pub struct ExPoll<T>(Poll<T>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExContext<'a>(Context<'a>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExWaker(Waker);
/// the task a waker wakes
pub uninterp spec fn task(w: Waker) -> int;
/// the task a poll runs in
pub uninterp spec fn ctask(c: Context<'_>) -> int;
/// the task was woken
pub uninterp spec fn woken(t: int) -> bool;
pub assume_specification [core::task::Waker::wake_by_ref] (w: &Waker) ensures woken(task(*w));
pub assume_specification<'a> [core::task::Context::<'a>::waker] (c: &Context<'a>) -> (r: &'a Waker) ensures task(*r) == ctask(*c);
pub assume_specification [<Waker as Clone>::clone] (w: &Waker) -> (r: Waker) ensures task(r) == task(*w);
}
}
pub mod tio {
use vstd::prelude::*;
use crate::shim::io;
use crate::shim::pin::{Context, Poll, ctask};
verus! {
/// how the last poll of the stream ended
pub enum Heard { Bytes(nat), Fail(io::ErrorKind), Pending }
/// tokio::io::ReadBuf, made over memory that is already initialized
pub struct ReadBuf<'a> { pub b: &'a mut [u8], pub n: usize }
impl<'a> ReadBuf<'a> {
    pub open spec fn mem(&self) -> Seq<u8> { self.b@ }
    pub fn new(b: &'a mut [u8]) -> (r: ReadBuf<'a>) ensures r.n == 0, r.b@ == old(b)@, (*final(b))@ == (*final(r.b))@ { ReadBuf { b, n: 0 } }
    pub fn filled(&self) -> (r: &[u8])
        requires self.n <= self.mem().len(),
        ensures r@ == self.mem().take(self.n as int)
    { let r: &[u8] = &self.b[..self.n]; proof { assert(r@ =~= self.b@.take(self.n as int)); } r }
}
/// tokio::io::AsyncRead.  The bytes still to come are the finite sequence asrc(); filling nothing of a non-empty buffer means that none are left.
pub trait AsyncRead {
    spec fn asrc(&self) -> Seq<u8>;
    spec fn heard(&self, o: Heard) -> bool;
    /// the task is registered to be woken when more can be read
    spec fn rwaits(&self, t: int) -> bool;
    fn poll_read(&mut self, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> (r: Poll<io::Result<()>>)
        requires old(buf).n <= old(buf).b@.len(),
        ensures final(buf).b@.len() == old(buf).b@.len(), old(buf).n <= final(buf).n <= final(buf).b@.len(), (*final(final(buf).b))@ == (*final(old(buf).b))@,
            r matches Poll::Ready(Ok(_)) ==> final(buf).b@.take(old(buf).n as int) == old(buf).b@.take(old(buf).n as int)
                && (*old(self)).asrc() == final(buf).b@.subrange(old(buf).n as int, final(buf).n as int) + (*final(self)).asrc()
                && (*final(self)).heard(Heard::Bytes((final(buf).n - old(buf).n) as nat))
                && (final(buf).n == old(buf).n && old(buf).n < old(buf).b@.len() ==> (*final(self)).asrc() == Seq::<u8>::empty()),
            r matches Poll::Ready(Err(e)) ==> (*final(self)).asrc() == (*old(self)).asrc() && (*final(self)).heard(Heard::Fail(e.kind)),
            r is Pending ==> (*final(self)).asrc() == (*old(self)).asrc() && (*final(self)).heard(Heard::Pending) && (*final(self)).rwaits(ctask(*old(cx))),
            ctask(*final(cx)) == ctask(*old(cx));
}
/// tokio::io::AsyncWrite.  awrote(a, b, w): between the states a and b exactly the bytes w were written.
pub trait AsyncWrite {
    spec fn awrote(&self, b: &Self, w: Seq<u8>) -> bool;
    spec fn atold(&self, o: Heard) -> bool;
    /// the task is registered to be woken when more can be written
    spec fn wwaits(&self, t: int) -> bool;
    fn poll_write(&mut self, cx: &mut Context<'_>, buf: &[u8]) -> (r: Poll<io::Result<usize>>)
        ensures
            r matches Poll::Ready(Ok(n)) ==> n <= buf@.len() && (*old(self)).awrote(&*final(self), buf@.take(n as int)) && (*final(self)).atold(Heard::Bytes(n as nat)),
            r matches Poll::Ready(Err(e)) ==> (*old(self)).awrote(&*final(self), Seq::<u8>::empty()) && (*final(self)).atold(Heard::Fail(e.kind)),
            r is Pending ==> (*old(self)).awrote(&*final(self), Seq::<u8>::empty()) && (*final(self)).atold(Heard::Pending) && (*final(self)).wwaits(ctask(*old(cx))),
            ctask(*final(cx)) == ctask(*old(cx));
    proof fn awrote_none(&self) ensures self.awrote(self, Seq::<u8>::empty());
    proof fn awrote_both(&self, b: &Self, c: &Self, v: Seq<u8>, w: Seq<u8>)
        requires self.awrote(b, v), b.awrote(c, w),
        ensures self.awrote(c, v + w);
}
}
}
}
