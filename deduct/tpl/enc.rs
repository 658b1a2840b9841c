
use vstd::std_specs::ops::*;
verus! {
// ------------------------------------------------------------------ encoding environment
pub mod io {
    use vstd::prelude::*;
    pub enum ErrorKind { InvalidData, Other }
    pub struct Error { x: u8 }
    impl Error {
        #[verifier::external_body]
        pub fn new(k: ErrorKind, s: &str) -> (r: Error) { unimplemented!() }
    }
}
/// std::io::Write: `out` is the sequence of octets written so far
pub trait Write {
    spec fn out(&self) -> Seq<u8>;
    spec fn infallible(&self) -> bool;
    fn write_all(&mut self, buf: &[u8]) -> (r: core::result::Result<(), io::Error>)
        ensures
            r is Ok ==> final(self).out() == old(self).out() + buf@,
            final(self).infallible() == old(self).infallible(),
            old(self).infallible() ==> r is Ok;
}
impl Write for Vec<u8> {
    open spec fn out(&self) -> Seq<u8> { self@ }
    open spec fn infallible(&self) -> bool { true }
    #[verifier::external_body]
    fn write_all(&mut self, buf: &[u8]) -> (r: core::result::Result<(), io::Error>) { unimplemented!() }
}
//@item src/error.rs | enum SerializeError
pub type SerializeResult<T> = core::result::Result<T, SerializeError>;
impl From<io::Error> for SerializeError {
    #[verifier::external_body]
    fn from(e: io::Error) -> Self { unimplemented!() }
}
impl From<Error> for SerializeError {
    #[verifier::external_body]
    fn from(e: Error) -> Self { unimplemented!() }
}

// trusted specifications of core functions
#[verifier::external_body]
pub fn verif_leading_zeros(n: usize) -> (r: u32)
    ensures r <= 64, n == 0 <==> r == 64, n > 0 ==> pow2((63 - r) as nat) <= n < pow2((64 - r) as nat)
{ unimplemented!() }

// ------------------------------------------------------------------ specification
pub open spec fn b128_hi(v: int) -> Seq<u8>
    decreases v
{
    if v <= 0 { Seq::empty() } else { b128_hi(v / 128).push((v % 128 + 128) as u8) }
}
/// minimal base-128 octets (continuation bit on all but the last)
pub open spec fn b128(v: int) -> Seq<u8> { b128_hi(v / 128).push((v % 128) as u8) }

pub open spec fn id_first(class: Class, cons: bool) -> int { class_num(class) * 64 + (if cons { 32int } else { 0 }) }
pub open spec fn id_enc(class: Class, cons: bool, tag: Tag) -> Seq<u8> {
    if tag.0 < 31 { seq![(id_first(class, cons) + tag.0) as u8] }
    else { seq![(id_first(class, cons) + 31) as u8] + b128(tag.0 as int) }
}
pub open spec fn be_min(n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { Seq::empty() } else { be_min(n / 256).push((n % 256) as u8) }
}
pub open spec fn len_enc(l: Length) -> Seq<u8> {
    match l {
        Length::Indefinite => seq![0x80u8],
        Length::Definite(n) => if n < 128 { seq![n as u8] } else { seq![(0x80 + be_min(n as int).len()) as u8] + be_min(n as int) },
    }
}

pub proof fn lemma_be_min_len(n: int)
    requires 0 <= n <= usize::MAX
    ensures
        be_min(n).len() == (if n == 0 { 0int } else if n < 0x100 { 1 } else if n < 0x1_0000 { 2 } else if n < 0x100_0000 { 3 } else if n < 0x1_0000_0000 { 4 }
            else if n < 0x100_0000_0000 { 5 } else if n < 0x1_0000_0000_0000 { 6 } else if n < 0x100_0000_0000_0000 { 7 } else { 8 }),
        be_val(be_min(n)) == n,
        n > 0 ==> be_min(n)[0] > 0,
    decreases n
{
    reveal_with_fuel(be_min, 2);
    if n > 0 {
        lemma_be_min_len(n / 256);
        assert(be_min(n).drop_last() =~= be_min(n / 256));
        if n < 256 { assert(be_min(n) =~= seq![n as u8]); }
    }
}
pub proof fn lemma_b128_hi_len(v: int)
    requires 0 <= v <= u32::MAX
    ensures b128_hi(v).len() == (if v == 0 { 0int } else if v < 0x80 { 1 } else if v < 0x4000 { 2 } else if v < 0x20_0000 { 3 } else if v < 0x1000_0000 { 4 } else { 5 })
    decreases v
{
    if v > 0 { lemma_b128_hi_len(v / 128); }
}
/// a big-endian octet string without leading zero is the minimal one
pub proof fn lemma_be_min_unique(b: Seq<u8>)
    requires b.len() > 0, b[0] > 0
    ensures be_val(b) > 0, be_min(be_val(b)) == b
    decreases b.len()
{
    if b.len() == 1 {
        assert(b.drop_last() =~= Seq::<u8>::empty());
        assert(be_val(b.drop_last()) == 0);
        assert(be_val(b) == b.last());
        assert(be_min(0) =~= Seq::<u8>::empty());
        assert(be_min(be_val(b)) =~= be_min(be_val(b) / 256).push((be_val(b) % 256) as u8));
        assert(be_min(be_val(b)) =~= b);
    } else {
        lemma_be_min_unique(b.drop_last());
        let h = be_val(b.drop_last());
        assert(be_val(b) == h * 256 + b.last() as int);
        assert(be_val(b) / 256 == h && be_val(b) % 256 == b.last() as int);
        assert(be_min(be_val(b)) =~= b.drop_last().push(b.last()));
        assert(b.drop_last().push(b.last()) =~= b);
    }
}
pub proof fn lemma_be_val_zeros(b: Seq<u8>, k: int)
    requires 0 <= k <= b.len(), forall|j: int| 0 <= j < k ==> b[j] == 0
    ensures be_val(b) == be_val(b.subrange(k, b.len() as int))
    decreases b.len()
{
    if b.len() == k {
        assert(b.subrange(k, k) =~= Seq::<u8>::empty());
        if k > 0 {
            lemma_be_val_zeros(b.drop_last(), k - 1);
            assert(b.drop_last().subrange(k - 1, k - 1) =~= Seq::<u8>::empty());
        }
    } else {
        lemma_be_val_zeros(b.drop_last(), k);
        assert(b.subrange(k, b.len() as int).drop_last() =~= b.drop_last().subrange(k, b.len() - 1));
        assert(b.subrange(k, b.len() as int).last() == b.last());
    }
}
pub proof fn lemma_bits_enc()
    ensures
        forall|c: u8, t: u8| #![trigger ((c << 6u8) | 0u8 | t)] c < 4 && t < 32 ==> ((c << 6u8) | 0u8 | t) == c * 64 + t,
        forall|c: u8, t: u8| #![trigger ((c << 6u8) | 0x20u8 | t)] c < 4 && t < 32 ==> ((c << 6u8) | 0x20u8 | t) == c * 64 + 32 + t,
        forall|v: u32| #![trigger (v >> 7u32)] (v >> 7u32) == v / 128,
        forall|v: u32| #![trigger (v & 0x7fu32)] (v & 0x7fu32) == v % 128,
        forall|b: u8| #![trigger (b | 0x80u8)] b < 128 ==> (b | 0x80u8) == b + 128,
        forall|b: u8| #![trigger (0x80u8 | b)] b < 128 ==> (0x80u8 | b) == b + 128,
{
    assert(forall|c: u8, t: u8| #![trigger ((c << 6u8) | 0u8 | t)] c < 4 && t < 32 ==> ((c << 6u8) | 0u8 | t) == c * 64 + t) by(bit_vector);
    assert(forall|c: u8, t: u8| #![trigger ((c << 6u8) | 0x20u8 | t)] c < 4 && t < 32 ==> ((c << 6u8) | 0x20u8 | t) == c * 64 + 32 + t) by(bit_vector);
    assert(forall|v: u32| #![trigger (v >> 7u32)] (v >> 7u32) == v / 128) by(bit_vector);
    assert(forall|v: u32| #![trigger (v & 0x7fu32)] (v & 0x7fu32) == v % 128) by(bit_vector);
    assert(forall|b: u8| #![trigger (b | 0x80u8)] b < 128 ==> (b | 0x80u8) == b + 128) by(bit_vector);
    assert(forall|b: u8| #![trigger (0x80u8 | b)] b < 128 ==> (0x80u8 | b) == b + 128) by(bit_vector);
}

// ------------------------------------------------------------------ encoders
pub trait BerEncoder: Sized {
    /// identifier octets written by this encoder
    spec fn tag_spec(class: Class, constructed: bool, tag: Tag) -> Seq<u8>;

    fn new() -> Self;

    fn write_tag_info<W: Write>(&mut self, class: Class, constructed: bool, tag: Tag, target: &mut W) -> (r: core::result::Result<usize, io::Error>)
        ensures
            r matches Ok(n) ==> n == Self::tag_spec(class, constructed, tag).len() && final(target).out() == old(target).out() + Self::tag_spec(class, constructed, tag),
            final(target).infallible() == old(target).infallible(),
            old(target).infallible() ==> r is Ok;

//@fn src/to_ber/encoder.rs | BerEncoder | write_tag_generic | key=P02
//@ret r
//@sigsub Result<usize, io::Error> ==> core::result::Result<usize, io::Error>
//@contract
        ensures
            r matches Ok(n) ==> n == id_enc(class, constructed, tag).len() && final(target).out() == old(target).out() + id_enc(class, constructed, tag),
            final(target).infallible() == old(target).infallible(),
            old(target).infallible() ==> r is Ok,
//@ghost entry
        let ghost cls = class;
        proof { lemma_bits_enc(); lemma_b128_hi_len(tag.0 as int / 128); }
//@nloops 1
//@loop 0
        invariant
            tag.0 >= 31, BUF_SZ == 8, current_index <= 7,
            sz == 1, target.infallible() == old(target).infallible(),
            target.out() == old(target).out() + seq![(id_first(cls, constructed) + 31) as u8],
            b128(tag.0 as int) =~= b128_hi(val as int) + buffer@.subrange(current_index as int, 8),
            (current_index == 7 && val <= 0x1ffffff) || (current_index == 6 && val <= 0x3ffff) || (current_index == 5 && val <= 0x7ff) || (current_index == 4 && val <= 0xf) || (current_index == 3 && val == 0),
        decreases val
//@ghost loop0.before
        proof {
            lemma_bits_enc();
            assert(b128(tag.0 as int) =~= b128_hi(val as int) + buffer@.subrange(current_index as int, 8));
        }
//@ghost loop0.begin
        let ghost val0 = val;
        let ghost buf0 = buffer@;
        let ghost ci0 = current_index as int;
        proof { lemma_bits_enc(); }
//@ghost loop0.end
        proof {
            assert(b128_hi(val0 as int) == b128_hi(val as int).push((val0 % 128 + 128) as u8));
            assert(buffer@.subrange(current_index as int, 8) =~= seq![(val0 % 128 + 128) as u8] + buf0.subrange(ci0, 8));
        }
//@ghost loop0.after
        proof { assert(b128_hi(0) =~= Seq::<u8>::empty()); assert(b128(tag.0 as int) =~= buffer@.subrange(current_index as int, 8)); }
//@endfn

//@fn src/to_ber/encoder.rs | BerEncoder | write_length | key=P02
//@ret r
//@subst \.to_be_bytes\(\) ==> .verif_to_be_bytes()
//@sigsub Result<usize, io::Error> ==> core::result::Result<usize, io::Error>
//@contract
        ensures
            r matches Ok(n) ==> n == len_enc(length).len() && final(target).out() == old(target).out() + len_enc(length),
            final(target).infallible() == old(target).infallible(),
            old(target).infallible() ==> r is Ok,
//@ghost entry
        proof { lemma_bits_enc(); }
//@nloops 1
//@loop 0
        invariant 0 <= idx < 8, be_val(b@) == n, n > 127, forall|j: int| 0 <= j < idx ==> b@[j] == 0
        decreases 8 - idx
//@ghost loop0.before
        proof {
            lemma_be_val_zeros(b@, 0);
            if b@[0] == 0 && b@[1] == 0 && b@[2] == 0 && b@[3] == 0 && b@[4] == 0 && b@[5] == 0 && b@[6] == 0 && b@[7] == 0 {
                lemma_be_val_zeros(b@, 8);
                assert(b@.subrange(8, 8) =~= Seq::<u8>::empty());
            }
        }
//@ghost loop0.begin
        proof {
            if idx == 7 {
                lemma_be_val_zeros(b@, 8);
                assert(b@.subrange(8, 8) =~= Seq::<u8>::empty());
            }
        }
//@ghost loop0.after
        proof {
            lemma_be_val_zeros(b@, idx as int);
            lemma_be_min_unique(b@.subrange(idx as int, 8));
            lemma_be_min_len(n as int);
            assert(b@.subrange(idx as int, 8) == be_min(n as int));
        }
//@endfn
}

//@item src/to_ber/generic.rs | struct BerGenericEncoder
//@item src/to_ber/primitive.rs | struct Primitive
//@item src/to_ber/constructed.rs | struct Constructed
//@item src/to_ber/constructed_indefinite.rs | struct ConstructedIndefinite

impl BerGenericEncoder {
//@fn src/to_ber/generic.rs | BerGenericEncoder | new
//@ret r
//@contract
//@endfn
}
impl BerEncoder for BerGenericEncoder {
    open spec fn tag_spec(class: Class, constructed: bool, tag: Tag) -> Seq<u8> { id_enc(class, constructed, tag) }
    fn new() -> Self { BerGenericEncoder::new() }
//@fn src/to_ber/encoder.rs | BerEncoder | write_tag_info | key=P02
//@ret r
//@sigsub Result<usize, io::Error> ==> core::result::Result<usize, io::Error>
//@contract
//@endfn
}
impl<const TAG: u32> Primitive<TAG> {
//@fn src/to_ber/primitive.rs | Primitive<TAG> | new
//@ret r
//@contract
//@endfn
}
impl<const TAG: u32> BerEncoder for Primitive<TAG> {
    open spec fn tag_spec(class: Class, constructed: bool, tag: Tag) -> Seq<u8> { id_enc(Class::Universal, false, Tag(TAG)) }
//@fn src/to_ber/primitive.rs | BerEncoder for Primitive<TAG> | new
//@ret r
//@contract
//@endfn
//@fn src/to_ber/primitive.rs | BerEncoder for Primitive<TAG> | write_tag_info | key=P02
//@ret r
//@sigsub Result<usize, io::Error> ==> core::result::Result<usize, io::Error>
//@contract
//@endfn
}
impl Constructed {
//@fn src/to_ber/constructed.rs | Constructed | new
//@ret r
//@contract
//@endfn
}
impl BerEncoder for Constructed {
    open spec fn tag_spec(class: Class, constructed: bool, tag: Tag) -> Seq<u8> { id_enc(class, true, tag) }
//@fn src/to_ber/constructed.rs | BerEncoder for Constructed | new
//@ret r
//@contract
//@endfn
//@fn src/to_ber/constructed.rs | BerEncoder for Constructed | write_tag_info | key=P02
//@ret r
//@sigsub Result<usize, io::Error> ==> core::result::Result<usize, io::Error>
//@contract
//@endfn
}
impl ConstructedIndefinite {
//@fn src/to_ber/constructed_indefinite.rs | ConstructedIndefinite | new
//@ret r
//@contract
//@endfn
}
impl BerEncoder for ConstructedIndefinite {
    open spec fn tag_spec(class: Class, constructed: bool, tag: Tag) -> Seq<u8> { id_enc(class, true, tag) }
//@fn src/to_ber/constructed_indefinite.rs | BerEncoder for ConstructedIndefinite | new
//@ret r
//@contract
//@endfn
//@fn src/to_ber/constructed_indefinite.rs | BerEncoder for ConstructedIndefinite | write_tag_info | key=P02
//@ret r
//@sigsub Result<usize, io::Error> ==> core::result::Result<usize, io::Error>
//@contract
//@endfn
}

// ------------------------------------------------------------------ predicted lengths
impl AddSpecImpl<usize> for Length {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: usize) -> bool { self is Definite ==> self->Definite_0 + rhs <= usize::MAX }
    open spec fn add_spec(self, rhs: usize) -> Length { match self { Length::Definite(l) => Length::Definite((l + rhs) as usize), Length::Indefinite => self } }
}
impl core::ops::Add<usize> for Length {
    type Output = Self;
//@fn src/length.rs | ops::Add<usize> for Length | add | key=P03
//@ret r
//@contract
//@endfn
}
impl AddSpecImpl<Length> for Length {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: Length) -> bool { self is Definite && rhs is Definite ==> self->Definite_0 + rhs->Definite_0 <= usize::MAX }
    open spec fn add_spec(self, rhs: Length) -> Length { len_add(self, rhs) }
}
impl core::ops::Add<Length> for Length {
    type Output = Self;
//@fn src/length.rs | ops::Add<Length> for Length | add | key=P03
//@ret r
//@contract
//@endfn
}
impl AddSpecImpl<Length> for usize {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: Length) -> bool { rhs is Definite ==> self + rhs->Definite_0 <= usize::MAX }
    open spec fn add_spec(self, rhs: Length) -> Length { match rhs { Length::Definite(l) => Length::Definite((l + self) as usize), Length::Indefinite => rhs } }
}
impl core::ops::Add<Length> for usize {
    type Output = Length;
//@fn src/length.rs | ops::Add<Length> for usize | add | key=P03
//@ret r
//@contract
//@endfn
}
pub open spec fn len_add(a: Length, b: Length) -> Length {
    match (a, b) { (Length::Definite(x), Length::Definite(y)) => Length::Definite((x + y) as usize), _ => Length::Indefinite }
}

//@fn src/to_ber.rs | ber_tag_length | key=P03
//@ret r
//@contract
    ensures r == id_enc(Class::Universal, false, tag).len(), forall|c: Class, k: bool| r == #[trigger] id_enc(c, k, tag).len(), r <= 6
//@nloops 1
//@loop 0
    invariant t >= 31, tag.0 == t, sz + b128_hi(val as int / 128).len() == 1 + b128_hi(t as int / 128).len(), 1 <= sz <= 5,
      (sz == 1 && val <= u32::MAX) || (sz == 2 && val <= 0x1ffffff) || (sz == 3 && val <= 0x3ffff) || (sz == 4 && val <= 0x7ff) || (sz == 5 && val <= 0xf),
    decreases val
//@ghost entry
    proof { lemma_bits_enc(); lemma_b128_hi_len(tag.0 as int / 128); }
//@ghost loop0.begin
    proof { lemma_bits_enc(); lemma_b128_hi_len(val as int / 128); lemma_b128_hi_len((val as int / 128) / 128); lemma_b128_hi_len(tag.0 as int / 128); }
//@endfn

//@fn src/to_ber.rs | ber_length_length | key=P03
//@ret r
//@subst \bl\.leading_zeros\(\) ==> verif_leading_zeros(l)
//@subst usize::BITS ==> 64u32
//@contract
    ensures r is Ok, r->Ok_0 == len_enc(length).len(), r->Ok_0 <= 9
//@ghost entry
    proof {
        if length is Definite {
            lemma_be_min_len(length->Definite_0 as int);
        }
        lemma_pow2_consts();
    }
//@endfn

pub proof fn lemma_pow2_consts()
    ensures forall|k: nat| k <= 64 ==> (k <= 24 ==> #[trigger] pow2(k) <= 0x1000000) && (k >= 24 ==> pow2(k) >= 0x1000000) && (k <= 32 ==> pow2(k) <= 0x100000000) && (k >= 32 ==> pow2(k) >= 0x100000000) && (k <= 40 ==> pow2(k) <= 0x10000000000) && (k >= 40 ==> pow2(k) >= 0x10000000000) && (k <= 48 ==> pow2(k) <= 0x1000000000000) && (k >= 48 ==> pow2(k) >= 0x1000000000000) && (k <= 56 ==> pow2(k) <= 0x100000000000000) && (k >= 56 ==> pow2(k) >= 0x100000000000000), pow2(64) == 0x1_0000_0000_0000_0000,
{
    lemma2_to64();
    lemma2_to64_rest();
    assert forall|k: nat| k <= 64 implies (k <= 24 ==> #[trigger] pow2(k) <= 0x1000000) && (k >= 24 ==> pow2(k) >= 0x1000000) && (k <= 32 ==> pow2(k) <= 0x100000000) && (k >= 32 ==> pow2(k) >= 0x100000000) && (k <= 40 ==> pow2(k) <= 0x10000000000) && (k >= 40 ==> pow2(k) >= 0x10000000000) && (k <= 48 ==> pow2(k) <= 0x1000000000000) && (k >= 48 ==> pow2(k) >= 0x1000000000000) && (k <= 56 ==> pow2(k) <= 0x100000000000000) && (k >= 56 ==> pow2(k) >= 0x100000000000000) by {
        lemma_pow2_mono(k, 24); lemma_pow2_mono(24, k); lemma_pow2_mono(k, 32); lemma_pow2_mono(32, k); lemma_pow2_mono(k, 40); lemma_pow2_mono(40, k); lemma_pow2_mono(k, 48); lemma_pow2_mono(48, k); lemma_pow2_mono(k, 56); lemma_pow2_mono(56, k); 
    }
}
pub proof fn lemma_pow2_mono(a: nat, b: nat)
    ensures a <= b ==> pow2(a) <= pow2(b)
{
    if a < b { lemma_pow2_strictly_increases(a, b); }
}

//@fn src/to_ber.rs | ber_header_length | key=P03
//@ret r
//@contract
    ensures r is Ok, forall|c: Class, k: bool| r->Ok_0 == #[trigger] id_enc(c, k, tag).len() + len_enc(length).len(), r->Ok_0 <= 15
//@endfn

//@fn src/to_ber.rs | ber_total_length | key=P03
//@ret r
//@contract
    requires content_length is Definite ==> content_length->Definite_0 <= usize::MAX - 15
    ensures
        content_length is Indefinite ==> r is Indefinite,
        content_length is Definite ==> r is Definite && forall|c: Class, k: bool| r->Definite_0 == #[trigger] id_enc(c, k, tag).len() + len_enc(content_length).len() + content_length->Definite_0,
//@endfn
}
