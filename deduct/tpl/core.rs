// Environment for the extracted functions: stub declarations of `nom` items (trusted contracts),
// types extracted from /repo, specification functions and lemmas.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_upper_case_globals)]
#![feature(allocator_api, const_destruct)]
use vstd::prelude::*;
use vstd::slice::*;
use vstd::arithmetic::power2::*;
use std::borrow::Cow;
use core::ops::Range;
use core::convert::TryFrom;
use core::marker::PhantomData;
use std::collections::{BTreeSet, HashSet};
use std::hash::{BuildHasher, RandomState};

verus! {
broadcast use {seqlem::group_sub, cowlem::axiom_cow_deref};

// ------------------------------------------------------------------ nom (trusted declarations)
pub enum Needed { Unknown, Size(usize) }
pub enum ErrorKind { Other }
pub enum Err<E> { Incomplete(Needed), Error(E), Failure(E) }
pub type IResult<I, O, E> = core::result::Result<(I, O), Err<E>>;
pub mod nom { pub use super::{Err, Needed, IResult}; }

//@item src/error.rs | enum DerConstraint
//@item src/error.rs | enum InnerError | #[allow(inconsistent_fields)] | sub:nom::Needed==>Needed
//@item src/error.rs | enum Error | #[allow(inconsistent_fields)] | sub:nom::Needed==>Needed
//@item src/error.rs | struct BerError | sub:I: Input==>I
pub type Result<T, E = Error> = core::result::Result<T, E>;

//@item src/class.rs | enum Class | #[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@item src/class.rs | struct BerClassFromIntError
//@item src/tag.rs | struct Tag | #[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@tagconsts src/tag.rs
//@item src/length.rs | enum Length | #[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@item src/input.rs | struct Input
//@item src/header.rs | struct Header

pub assume_specification<'a, T: ?Sized + ToOwned>[ <Cow<'a, T> as Clone>::clone ](b: &Cow<'a, T>) -> (r: Cow<'a, T>)
    ensures r == *b;

pub assume_specification<'a, 'b, B: ?Sized + ToOwned>[ <Cow<'a, B> as core::ops::Deref>::deref ](b: &'b Cow<'a, B>) -> (r: &'b B)
    ensures r == cow_deref(b);
pub mod cowlem { use super::*; verus! {
pub uninterp spec fn cow_deref<'a, 'b, B: ?Sized + ToOwned>(c: &'b Cow<'a, B>) -> &'b B;
pub open spec fn cow_seq<'a>(c: Cow<'a, [u8]>) -> Seq<u8> {
    match c { Cow::Borrowed(s) => s@, Cow::Owned(v) => v@ }
}
pub broadcast axiom fn axiom_cow_deref<'a, 'b>(c: &'b Cow<'a, [u8]>)
    ensures (#[trigger] cow_deref::<[u8]>(c))@ == cow_seq(*c);
} }
pub use cowlem::{cow_deref, cow_seq};
/// slice denoted by the iterated expression of a rewritten `for` loop
pub trait VerifSlice { spec fn vs(&self) -> Seq<u8>; }
impl<'a> VerifSlice for Input<'a> { open spec fn vs(&self) -> Seq<u8> { self.data@ } }
impl<'a> VerifSlice for &'a [u8] { open spec fn vs(&self) -> Seq<u8> { self@ } }
impl VerifSlice for [u8] { open spec fn vs(&self) -> Seq<u8> { self@ } }
impl VerifSlice for Vec<u8> { open spec fn vs(&self) -> Seq<u8> { self@ } }
impl<const N: usize> VerifSlice for [u8; N] { open spec fn vs(&self) -> Seq<u8> { self@ } }
#[verifier::external_body]
pub fn verif_slice<'x, T: VerifSlice + ?Sized>(x: &'x T) -> (r: &'x [u8]) ensures r@ == x.vs() { unimplemented!() }

global size_of usize == 8;

pub mod seqlem {
use vstd::prelude::*;
pub broadcast proof fn lemma_subsub<A>(s: Seq<A>, a: int, b: int, c: int, d: int)
    requires 0 <= a <= b <= s.len(), 0 <= c <= d <= b - a
    ensures #[trigger] s.subrange(a, b).subrange(c, d) == s.subrange(a + c, a + d)
{
    assert(s.subrange(a, b).subrange(c, d) =~= s.subrange(a + c, a + d));
}
pub broadcast proof fn lemma_subfull<A>(s: Seq<A>, a: int, b: int)
    requires a == 0, b == s.len()
    ensures #[trigger] s.subrange(a, b) == s
{
    assert(s.subrange(a, b) =~= s);
}
pub broadcast group group_sub { lemma_subsub, lemma_subfull }

}
// spec view of the span-carrying input
impl<'a> Input<'a> {
    pub open spec fn b(&self) -> Seq<u8> { self.data@ }
    pub open spec fn wf(&self) -> bool { self.span.start + self.data@.len() == self.span.end }
    /// `r` is the sub-range [from, to) of `self`
    pub open spec fn sub(&self, r: &Input<'a>, from: int, to: int) -> bool {
        &&& 0 <= from <= to <= self.b().len()
        &&& r.b() == self.b().subrange(from, to)
        &&& r.span.start == self.span.start + from
        &&& r.span.end == self.span.start + to
    }
}

impl<'a> Clone for Input<'a> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<'a> Clone for Header<'a> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

impl<'a> Input<'a> {
//@fn src/input.rs | Input<'a> | new
//@ret r
//@contract
    ensures r.data == data, r.span == span
//@endfn
//@fn src/input.rs | Input<'a> | from_slice
//@ret r
//@contract
    ensures r.data@ == data@, r.span.start == 0, r.span.end == data@.len(), r.wf()
//@endfn
//@fn src/input.rs | Input<'a> | const_clone
//@ret r
//@contract
    ensures r.data == self.data, r.span.start == self.span.start, r.span.end == self.span.end, r.wf() == self.wf()
//@endfn
//@fn src/input.rs | Input<'a> | span
//@ret r
//@contract
    ensures *r == self.span
//@endfn
//@fn src/input.rs | Input<'a> | start
//@ret r
//@contract
    ensures r == self.span.start
//@endfn
//@fn src/input.rs | Input<'a> | end
//@ret r
//@contract
    ensures r == self.span.end
//@endfn
//@fn src/input.rs | Input<'a> | len
//@ret r
//@contract
    ensures r == self.b().len()
//@endfn
//@fn src/input.rs | Input<'a> | is_empty
//@ret r
//@contract
    ensures r == (self.b().len() == 0)
//@endfn
//@fn src/input.rs | Input<'a> | as_bytes2
//@ret r
//@contract
    ensures r == self.data
//@endfn
//@fn src/input.rs | Input<'a> | into_bytes
//@ret r
//@contract
    ensures r == self.data
//@endfn
//@fn src/input.rs | nom::Input for Input<'a> | input_len
//@ret r
//@contract
    ensures r == self.b().len()
//@endfn
//@fn src/input.rs | nom::Input for Input<'a> | take
//@ret r
//@contract
    requires self.wf(), index <= self.b().len()
    ensures r.wf(), self.sub(&r, 0, index as int)
//@endfn
//@fn src/input.rs | nom::Input for Input<'a> | take_from
//@ret r
//@contract
    requires self.wf(), index <= self.b().len()
    ensures r.wf(), self.sub(&r, index as int, self.b().len() as int)
//@endfn
//@fn src/input.rs | nom::Input for Input<'a> | take_split
//@ret r
//@contract
    requires self.wf(), index <= self.b().len()
    ensures r.0.wf(), r.1.wf(), self.sub(&r.0, index as int, self.b().len() as int), self.sub(&r.1, 0, index as int)
//@endfn
//@fn src/input.rs | nom::Input for Input<'a> | slice_index
//@ret r
//@sigsub Result<usize, Needed> ==> core::result::Result<usize, Needed>
//@contract
    ensures match r { Ok(n) => n == count && count <= self.b().len(), Err(_) => count > self.b().len() }
//@endfn
}
impl Needed {
    #[verifier::external_body]
    pub fn new(n: usize) -> (r: Needed) { unimplemented!() }
}

// constructors as functions
pub fn verif_err_error<E>(e: E) -> (r: Err<E>) ensures r == Err::Error(e) { Err::Error(e) }
pub fn verif_some<T>(e: T) -> (r: Option<T>) ensures r == Some(e) { Some(e) }
pub fn verif_ok<T, E>(e: T) -> (r: core::result::Result<T, E>) ensures r == core::result::Result::<T, E>::Ok(e) { Ok(e) }

// nom primitives (trusted contracts on the dependency, from the nom 8 documentation)
#[verifier::external_body]
pub fn be_u8<'a>(i: Input<'a>) -> (r: IResult<Input<'a>, u8, BerError<Input<'a>>>)
    requires i.wf()
    ensures match r {
        Ok((rem, b)) => i.b().len() > 0 && b == i.b()[0] && rem.wf() && i.sub(&rem, 1, i.b().len() as int),
        Err(_) => i.b().len() == 0,
    }
{ unimplemented!() }

pub trait ToUsize { spec fn spec_to_usize(&self) -> usize; }
impl ToUsize for u8 { open spec fn spec_to_usize(&self) -> usize { *self as usize } }
impl ToUsize for usize { open spec fn spec_to_usize(&self) -> usize { *self } }

#[verifier::external_body]
pub fn take<'a, C: ToUsize, E>(n: C) -> (r: impl Fn(Input<'a>) -> IResult<Input<'a>, Input<'a>, E>)
    ensures
        forall|i: Input<'a>| i.wf() ==> #[trigger] r.requires((i,)),
        forall|i: Input<'a>, o: IResult<Input<'a>, Input<'a>, E>| i.wf() && #[trigger] r.ensures((i,), o) ==>
            match o {
                Ok((rem, t)) => n.spec_to_usize() <= i.b().len() && rem.wf() && t.wf()
                    && i.sub(&rem, n.spec_to_usize() as int, i.b().len() as int) && i.sub(&t, 0, n.spec_to_usize() as int),
                Err(_) => n.spec_to_usize() > i.b().len(),
            }
{ |i| unimplemented!() }

impl<I> BerError<I> {
//@fn src/error.rs | BerError<I> | new
//@ret r
//@contract
    ensures r.inner_error == inner
//@endfn
//@fn src/error.rs | BerError<I> | nom_err
//@ret r
//@contract
    ensures r is Error, r->Error_0.inner_error == inner_error
//@endfn
    #[verifier::external_body]
    pub fn convert(input: I) -> (r: impl Fn(InnerError) -> Err<Self>)
        ensures forall|e: InnerError| #[trigger] r.requires((e,)),
            forall|e: InnerError, o: Err<Self>| #[trigger] r.ensures((e,), o) ==> o is Error && o->Error_0.inner_error == e
    { |e| unimplemented!() }
    #[verifier::external_body]
    pub fn convert_into<E>(input: I) -> (r: impl Fn(InnerError) -> Err<E>)
        ensures forall|e: InnerError| #[trigger] r.requires((e,)),
            forall|e: InnerError, o: Err<E>| #[trigger] r.ensures((e,), o) ==> o is Error
    { |e| unimplemented!() }
//@fn src/error.rs | BerError<I> | unexpected_tag
//@ret r
//@contract
//@endfn
//@fn src/error.rs | BerError<I> | unexpected_class
//@ret r
//@contract
//@endfn
}
impl<'i> BerError<Input<'i>> {
//@fn src/error.rs | BerError<crate::Input<'i>> | err_input
//@ret r
//@contract
//@endfn
//@fn src/error.rs | BerError<crate::Input<'i>> | nom_err_input
//@ret r
//@contract
    ensures r is Error
//@endfn
}

impl Class {
//@fn src/class.rs | TryFrom<u8> for Class | try_from
//@ret r
//@sigsub Result<Self, Self::Error> ==> core::result::Result<Self, BerClassFromIntError>
//@contract
    ensures match r { Ok(c) => value < 4 && c == spec_class(value as int), Err(_) => value >= 4 }
//@endfn
//@fn src/class.rs | Class | assert_eq
//@ret r
//@contract
    ensures r is Ok == (*self == class)
//@endfn
}
impl Tag {
//@fn src/tag.rs | Tag | assert_eq
//@ret r
//@contract
    ensures r is Ok == (*self == tag)
//@endfn
//@fn src/tag.rs | Tag | assert_eq_inner
//@ret r
//@contract
    ensures r is Ok == (*self == tag)
//@endfn
}

impl Length {
//@fn src/length.rs | Length | is_null
//@ret r
//@contract
    ensures r == (*self == Length::Definite(0))
//@endfn
//@fn src/length.rs | Length | definite
//@ret r
//@contract
    ensures match r { Ok(n) => *self == Length::Definite(n), Err(_) => *self is Indefinite }
//@endfn
//@fn src/length.rs | Length | definite_inner
//@ret r
//@contract
    ensures match r { Ok(n) => *self == Length::Definite(n), Err(_) => *self is Indefinite }
//@endfn
//@fn src/length.rs | Length | is_definite
//@ret r
//@contract
    ensures r == (*self is Definite)
//@endfn
//@fn src/length.rs | Length | assert_definite
//@ret r
//@contract
    ensures r is Ok == (*self is Definite)
//@endfn
//@fn src/length.rs | Length | assert_definite_inner
//@ret r
//@contract
    ensures r is Ok == (*self is Definite)
//@endfn
}

impl<'a> Header<'a> {
//@fn src/header.rs | Header<'a> | new
//@ret r
//@contract
    ensures r.class == class, r.constructed == constructed, r.tag == tag, r.length == length, r.raw_tag is None, r.raw_header is None
//@endfn
//@fn src/header.rs | Header<'a> | new_simple
//@ret r
//@contract
    ensures r.class == Class::Universal, r.constructed == (tag == Tag::Sequence || tag == Tag::Set), r.tag == tag, r.length == Length::Definite(0), r.raw_tag is None, r.raw_header is None
//@endfn
//@fn src/header.rs | Header<'a> | with_class
//@ret r
//@contract
    ensures r == (Header { class, ..self })
//@endfn
//@fn src/header.rs | Header<'a> | with_constructed
//@ret r
//@contract
    ensures r == (Header { constructed, ..self })
//@endfn
//@fn src/header.rs | Header<'a> | with_tag
//@ret r
//@contract
    ensures r == (Header { tag, ..self })
//@endfn
//@fn src/header.rs | Header<'a> | with_length
//@ret r
//@contract
    ensures r == (Header { length, ..self })
//@endfn
//@fn src/header.rs | Header<'a> | with_raw_tag
//@ret r
//@contract
    ensures r == (Header { raw_tag, ..self })
//@endfn
//@fn src/header.rs | Header<'a> | with_raw_header
//@ret r
//@contract
    ensures r == (Header { raw_header, ..self })
//@endfn
//@fn src/header.rs | Header<'a> | class
//@ret r
//@contract
    ensures r == self.class
//@endfn
//@fn src/header.rs | Header<'a> | constructed
//@ret r
//@contract
    ensures r == self.constructed
//@endfn
//@fn src/header.rs | Header<'a> | tag
//@ret r
//@contract
    ensures r == self.tag
//@endfn
//@fn src/header.rs | Header<'a> | length
//@ret r
//@contract
    ensures r == self.length
//@endfn
//@fn src/header.rs | Header<'a> | is_primitive
//@ret r
//@contract
    ensures r == !self.constructed
//@endfn
//@fn src/header.rs | Header<'a> | is_constructed
//@ret r
//@contract
    ensures r == self.constructed
//@endfn
//@fn src/header.rs | Header<'a> | assert_class
//@ret r
//@contract
    ensures r is Ok == (self.class == class)
//@endfn
//@fn src/header.rs | Header<'a> | assert_tag
//@ret r
//@contract
    ensures r is Ok == (self.tag == tag)
//@endfn
//@fn src/header.rs | Header<'a> | assert_primitive
//@ret r
//@contract
    ensures r is Ok == !self.constructed
//@endfn
//@fn src/header.rs | Header<'a> | assert_primitive_inner
//@ret r
//@contract
    ensures r is Ok == !self.constructed
//@endfn
//@fn src/header.rs | Header<'a> | assert_primitive_input
//@ret r
//@contract
    ensures r is Ok == !self.constructed
//@endfn
//@fn src/header.rs | Header<'a> | assert_constructed
//@ret r
//@contract
    ensures r is Ok == self.constructed
//@endfn
//@fn src/header.rs | Header<'a> | assert_constructed_inner
//@ret r
//@contract
    ensures r is Ok == self.constructed
//@endfn
//@fn src/header.rs | Header<'a> | assert_constructed_input
//@ret r
//@contract
    ensures r is Ok == self.constructed
//@endfn
//@fn src/header.rs | Header<'a> | is_universal
//@ret r
//@contract
    ensures r == (self.class == Class::Universal)
//@endfn
//@fn src/header.rs | Header<'a> | is_application
//@ret r
//@contract
    ensures r == (self.class == Class::Application)
//@endfn
//@fn src/header.rs | Header<'a> | is_contextspecific
//@ret r
//@contract
    ensures r == (self.class == Class::ContextSpecific)
//@endfn
//@fn src/header.rs | Header<'a> | is_private
//@ret r
//@contract
    ensures r == (self.class == Class::Private)
//@endfn
//@fn src/header.rs | Header<'a> | assert_definite
//@ret r
//@contract
    ensures r is Ok == (self.length is Definite)
//@endfn
//@fn src/header.rs | Header<'a> | assert_definite_inner
//@ret r
//@contract
    ensures r is Ok == (self.length is Definite)
//@endfn
}

// ------------------------------------------------------------------ specification of identifier/length octets (X.690 8.1.2, 8.1.3)
pub open spec fn spec_class(v: int) -> Class {
    if v == 0 { Class::Universal } else if v == 1 { Class::Application } else if v == 2 { Class::ContextSpecific } else { Class::Private }
}
pub open spec fn class_num(c: Class) -> int {
    match c { Class::Universal => 0, Class::Application => 1, Class::ContextSpecific => 2, Class::Private => 3 }
}

/// index of the last subsequent identifier octet (first octet < 0x80 at or after k); -1 if none
pub open spec fn tag_last(b: Seq<u8>, k: int) -> int
    decreases b.len() - k
{
    if k >= b.len() { -1 } else if b[k] < 128 { k } else { tag_last(b, k + 1) }
}
/// value of the groups b[1..=n]
pub open spec fn tag_val(b: Seq<u8>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { tag_val(b, n - 1) * 128 + (b[n] as int) % 128 }
}
/// big-endian value
pub open spec fn be_val(b: Seq<u8>) -> int
    decreases b.len()
{
    if b.len() == 0 { 0 } else { be_val(b.drop_last()) * 256 + b.last() as int }
}

pub struct SHdr { pub class: Class, pub cons: bool, pub tag: int, pub len: Option<int>, pub tag_octets: int, pub octets: int }

/// number of identifier octets; -1: malformed or truncated
pub open spec fn id_octets(b: Seq<u8>) -> int {
    if b.len() == 0 { -1 }
    else if b[0] % 32 != 31 { 1 }
    else {
        let l = tag_last(b, 1);
        if l < 0 || l > 5 || tag_val(b, l) > u32::MAX { -1 } else { l + 1 }
    }
}
pub open spec fn id_tag(b: Seq<u8>) -> int {
    if b[0] % 32 != 31 { (b[0] as int) % 32 } else { tag_val(b, tag_last(b, 1)) }
}

pub open spec fn hdr_spec(b: Seq<u8>) -> Option<SHdr> {
    let t = id_octets(b);
    if t < 0 || t >= b.len() { None }
    else {
        let cons = (b[0] / 32) % 2 == 1;
        let l0 = b[t];
        let mk = |len: Option<int>, octets: int| SHdr { class: spec_class((b[0] / 64) as int), cons, tag: id_tag(b), len, tag_octets: t, octets };
        if l0 < 128 { Some(mk(Some(l0 as int), t + 1)) }
        else if l0 == 128 { if cons { Some(mk(None, t + 1)) } else { None } }
        else if l0 == 255 { None }
        else {
            let n = l0 - 128;
            if t + 1 + n > b.len() { None }
            else {
                let v = be_val(b.subrange(t + 1, t + 1 + n));
                if v > u64::MAX { None } else { Some(mk(Some(v), t + 1 + n)) }
            }
        }
    }
}

/// the decoded header is the one specified for octets `b`
pub open spec fn hdr_matches(h: &Header, s: SHdr, i: &Input) -> bool {
    &&& h.class == s.class
    &&& h.constructed == s.cons
    &&& h.tag.0 as int == s.tag
    &&& match s.len { Some(n) => h.length is Definite && h.length->Definite_0 as int == n, None => h.length is Indefinite }
    &&& h.raw_tag is Some && cow_seq(h.raw_tag->Some_0) == i.b().subrange(0, s.tag_octets)
    &&& h.raw_header is Some && i.sub(&h.raw_header->Some_0, 0, s.octets)
}

pub proof fn lemma_bits()
    ensures
        forall|b: u8| #![trigger (b >> 6u8)] (b >> 6u8) == b / 64,
        forall|b: u8| #![trigger (b & 0x1fu8)] (b & 0x1fu8) == b % 32,
        forall|b: u8| #![trigger (b & 0x20u8)] ((b & 0x20u8) != 0) == ((b / 32) % 2 == 1),
        forall|b: u8| #![trigger (b & 0x80u8)] ((b & 0x80u8) == 0) == (b < 128),
        forall|b: u8| #![trigger (b & !0x80u8)] (b & !0x80u8) == b % 128,
        forall|b: u8| #![trigger (b & 0x7fu8)] (b & 0x7fu8) == b % 128,
        forall|b: u32| #![trigger (b & 0x7fu32)] (b & 0x7fu32) == b % 128,
        (u32::MAX >> 7u32) == 0x1ffffff,
        forall|c: u32, d: u32| #![trigger ((c << 7u32) | d)] c <= 0x1ffffff && d < 128 ==> ((c << 7u32) | d) == c * 128 + d,
        forall|u: u64| #![trigger (u & 0xff00_0000_0000_0000u64)] ((u & 0xff00_0000_0000_0000u64) != 0) == (u >= 0x100_0000_0000_0000),
        forall|u: u64, c: u64| #![trigger ((u << 8u64) | c)] u < 0x100_0000_0000_0000 && c < 256 ==> ((u << 8u64) | c) == u * 256 + c,
{
    assert(forall|b: u8| #![trigger (b >> 6u8)] (b >> 6u8) == b / 64) by(bit_vector);
    assert(forall|b: u8| #![trigger (b & 0x1fu8)] (b & 0x1fu8) == b % 32) by(bit_vector);
    assert(forall|b: u8| #![trigger (b & 0x20u8)] ((b & 0x20u8) != 0) == ((b / 32) % 2 == 1)) by(bit_vector);
    assert(forall|b: u8| #![trigger (b & 0x80u8)] ((b & 0x80u8) == 0) == (b < 128)) by(bit_vector);
    assert(forall|b: u8| #![trigger (b & !0x80u8)] (b & !0x80u8) == b % 128) by(bit_vector);
    assert(forall|b: u8| #![trigger (b & 0x7fu8)] (b & 0x7fu8) == b % 128) by(bit_vector);
    assert(forall|b: u32| #![trigger (b & 0x7fu32)] (b & 0x7fu32) == b % 128) by(bit_vector);
    assert((u32::MAX >> 7u32) == 0x1ffffff) by(bit_vector);
    assert(forall|c: u32, d: u32| #![trigger ((c << 7u32) | d)] c <= 0x1ffffff && d < 128 ==> ((c << 7u32) | d) == c * 128 + d) by(bit_vector);
    assert(forall|u: u64| #![trigger (u & 0xff00_0000_0000_0000u64)] ((u & 0xff00_0000_0000_0000u64) != 0) == (u >= 0x100_0000_0000_0000)) by(bit_vector);
    assert(forall|u: u64, c: u64| #![trigger ((u << 8u64) | c)] u < 0x100_0000_0000_0000 && c < 256 ==> ((u << 8u64) | c) == u * 256 + c) by(bit_vector);
}

pub open spec fn pow256(n: int) -> int
    decreases n
{ if n <= 0 { 1 } else { 256 * pow256(n - 1) } }
// trusted specifications of core functions
pub trait BeBytes: Sized {
    type A;
    spec fn be_ok(self, a: Self::A) -> bool;
    fn verif_to_be_bytes(self) -> (r: Self::A) ensures self.be_ok(r);
    fn verif_from_be_bytes(a: Self::A) -> (r: Self) ensures r.be_ok(a);
}
//@repeat $ty,$n : u8,1 ; u16,2 ; u32,4 ; u64,8 ; u128,16 ; usize,8 ; i8,1 ; i16,2 ; i32,4 ; i64,8 ; i128,16 ; isize,8
impl BeBytes for $ty {
    type A = [u8; $n];
    open spec fn be_ok(self, a: [u8; $n]) -> bool { be_val(a@) == (if self < 0 { self + pow256($n) } else { self as int }) }
    #[verifier::external_body]
    fn verif_to_be_bytes(self) -> (r: [u8; $n]) { unimplemented!() }
    #[verifier::external_body]
    fn verif_from_be_bytes(a: [u8; $n]) -> (r: $ty) { unimplemented!() }
}
//@endrepeat
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, E>[ core::result::Result::<T, E>::unwrap_or ](s: core::result::Result<T, E>, d: T) -> (r: T)
    where E: core::marker::Destruct, T: core::marker::Destruct
    ensures r == (match s { Ok(v) => v, Err(_) => d });

}
