verus! {
// ------------------------------------------------------------------ octet and bit strings, primitive and segmented (X.690 8.6, 8.7)
/// bits of octets, most significant first
pub open spec fn bits_of(b: Seq<u8>) -> Seq<bool> { Seq::new((8 * b.len()) as nat, |i: int| (b[i / 8] >> ((7 - i % 8) as u8)) & 1 == 1) }
/// the bit vector of crate bitvec (trusted contracts)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(O)]
pub struct BitVec<T, O> { t: T, o: O }
pub struct Msb0;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(O)]
pub struct BitSlice<T, O> { t: T, o: O }
impl<O> BitSlice<u8, O> { pub uninterp spec fn bits(&self) -> Seq<bool>; }
impl<O> BitVec<u8, O> {
    pub uninterp spec fn bits(&self) -> Seq<bool>;
    /// the first bit of the vector is the first bit of the storage
    pub uninterp spec fn aligned(&self) -> bool;
    #[verifier::external_body]
    pub fn from_slice(s: &[u8]) -> (r: Self) ensures r.bits() == bits_of(s@), r.bits().len() <= usize::MAX / 8, r.aligned() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_bitslice(s: &BitSlice<u8, O>) -> (r: Self) ensures r.bits() == s.bits() { unimplemented!() }
    /// moves the first bit to the first bit of the storage
    #[verifier::external_body]
    pub fn force_align(&mut self) ensures final(self).bits() == old(self).bits(), final(self).aligned() { unimplemented!() }
    /// the storage; its first bits are the bits of the vector if the vector is aligned
    #[verifier::external_body]
    pub fn as_raw_slice(&self) -> (r: &[u8])
        ensures self.aligned() ==> r@.len() == (self.bits().len() + 7) / 8 && 8 * r@.len() <= usize::MAX && bits_of(r@).subrange(0, self.bits().len() as int) == self.bits()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.bits().len(), r <= usize::MAX / 8 { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.bits().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize) ensures final(self).aligned() == old(self).aligned(), final(self).bits() == (if n <= old(self).bits().len() { old(self).bits().subrange(0, n as int) } else { old(self).bits() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn append(&mut self, other: &mut Self) ensures old(self).aligned() ==> final(self).aligned(), final(self).bits() == old(self).bits() + old(other).bits() { unimplemented!() }
}
//@item src/asn1_types/octetstring.rs | struct OctetString
//@item src/asn1_types/bitstring.rs | struct BitString
//@item src/asn1_types/octetstring.rs | const OCTETSTRING_MAX_RECURSION
//@item src/asn1_types/bitstring.rs | const BITSTRING_MAX_RECURSION
pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned::<T>(s@[i], #[trigger] r@[i]), forall|i: int| 0 <= i < s@.len() ==> cloned::<T>(#[trigger] s@[i], r@[i]);
impl InnerError {
    #[verifier::external_body]
    pub fn invalid_value(tag: Tag, msg: &str) -> (r: Self) { unimplemented!() }
}
impl Default for OctetString<'_> {
    #[verifier::external_body]
    fn default() -> (r: Self) ensures cow_seq(r.data) == Seq::<u8>::empty() { unimplemented!() }
}
impl Default for BitString {
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r.bitvec.bits() == Seq::<bool>::empty(), r.bitvec.aligned() { unimplemented!() }
}
impl<'a> Tagged for OctetString<'a> {
//@consts src/asn1_types/octetstring.rs | Tagged for OctetString<'_>
}
impl Tagged for BitString {
//@consts src/asn1_types/bitstring.rs | Tagged for BitString
}
impl<'a> Tagged for &'a [u8] {
//@consts src/asn1_types/octetstring.rs | Tagged for &'_ [u8]
}
pub proof fn lemma_seg_dec(b: Seq<u8>)
    ensures ber_obj(b) matches Some(o) ==> obj_content(b, o).len() < b.len() && rest(b, o.end).len() < b.len()
{ lemma_obj(b); }
/// content of a primitive octet string
pub open spec fn leaf_oct(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { Some(c) }
/// content of a primitive bit string: unused-bits octet, then the bits
pub open spec fn leaf_bit(h: HV, c0: Seq<u8>) -> Option<Seq<bool>> {
    match content_spec(c0, h, 50) { None => None, Some((n, m)) => {
        let c = c0.subrange(0, n);
        if c.len() == 0 || c[0] > 7 || 8 * (c.len() - 1) < c[0] { None }
        else { Some(bits_of(c.subrange(1, n)).subrange(0, 8 * (n - 1) - c[0])) } } }
}

/// value of one (primitive or constructed) segment with at most lim levels of nesting
pub open spec fn seg_oct(h: HV, c: Seq<u8>, lim: nat) -> Option<Seq<u8>>
    decreases lim, 0nat
{
    if lim == 0 || c.len() == 0 { None }
    else if h.cons {
        match h.len {
            Length::Definite(_) => match content_spec(c, h, 50) { None => None, Some((n, m)) => segs_oct(c.subrange(0, n), true, (lim - 1) as nat) },
            Length::Indefinite => segs_oct(c, false, (lim - 1) as nat),
        }
    } else { match content_spec(c, h, 50) { None => None, Some((n, m)) => leaf_oct(h, c.subrange(0, n)) } }
}
/// concatenation of the segments in b
pub open spec fn segs_oct(b: Seq<u8>, definite: bool, lim: nat) -> Option<Seq<u8>>
    decreases lim, b.len() + 1
{
    if b.len() == 0 { Some(Seq::empty()) }
    else { match ber_obj(b) {
        None => None,
        Some(o) =>
            if !definite && is_eoc(o.h) { Some(Seq::empty()) }
            else if o.h.tag != Tag(4) || o.end <= 0 || o.end > b.len() { None }
            else if obj_content(b, o).len() == 0 { segs_oct(rest(b, o.end), definite, lim) }
            else if lim == 0 { None }
            else { match seg_oct(o.h, obj_content(b, o), lim) { None => None, Some(p) => cat_oct(p, segs_oct(rest(b, o.end), definite, lim)) } },
    } }
}
pub open spec fn cat_oct(p: Seq<u8>, r: Option<Seq<u8>>) -> Option<Seq<u8>> { match r { None => None, Some(q) => Some(p + q) } }
pub proof fn lemma_cat_oct(a: Seq<u8>, p: Seq<u8>, r: Option<Seq<u8>>)
    ensures cat_oct(a, cat_oct(p, r)) == cat_oct(a + p, r), cat_oct(Seq::<u8>::empty(), r) == r, cat_oct(a, Some(Seq::<u8>::empty())) == Some(a)
{ if let Some(q) = r { assert(a + (p + q) =~= a + p + q); assert(Seq::<u8>::empty() + q =~= q); } assert(a + Seq::<u8>::empty() =~= a); }
//@fn src/ber/appendable.rs | parse_ber_segmented | key=P10 | rename=parse_ber_segmented_oct | inst=T:=OctetString<'i>
//@ret res
//@subst parse_ber_segmented\( ==> parse_ber_segmented_oct(
//@subst <OctetString<'i>>::from_ber_content ==> <OctetString<'i>>::from_ber_content_oct
//@contract
    requires input.wf()
    ensures match res {
        Ok((rem, v)) => rem.wf() && seg_oct(hv(header), input.b(), recursion_limit as nat) == Some(cow_seq(v.data)),
        Err(_) => seg_oct(hv(header), input.b(), recursion_limit as nat) is None,
    }
    decreases recursion_limit + 1
//@ghost loop0.before
    let ghost i0 = __it0.input; let ghost lm = (recursion_limit - 1) as nat; let ghost df = header.length is Definite;
    proof { lemma_cat_oct(Seq::<u8>::empty(), Seq::<u8>::empty(), segs_oct(i0.b(), df, lm)); assert(cow_seq(v.data) =~= Seq::<u8>::empty()); }
//@loop 0
    invariant_except_break
        !__it0.has_error, segs_oct(i0.b(), df, lm) == cat_oct(cow_seq(v.data), segs_oct(__it0.input.b(), df, lm)),
    invariant
        __it0.input.wf(), rem.wf(), lm + 1 == recursion_limit, df == (header.length is Definite),
        i0.b() == data.b(), data.wf(),
        (if df { content_spec(input.b(), hv(header), 50) matches Some((n, m)) && input.b().subrange(0, n) == i0.b() } else { i0.b() == input.b() }),
        input.b().len() > 0, header.constructed,
    ensures segs_oct(i0.b(), df, lm) == Some(cow_seq(v.data))
    decreases __it0.input.b().len()
//@ghost loop0.begin
    let ghost ib = __it0.input.b(); let ghost v0 = cow_seq(v.data);
    proof {
        lemma_obj(ib); lemma_cat_oct(v0, Seq::<u8>::empty(), None);
        if let Some(o) = ber_obj(ib) {
            if let Some(p) = seg_oct(o.h, obj_content(ib, o), lm) { lemma_cat_oct(v0, p, segs_oct(rest(ib, o.end), df, lm)); }
        }
    }
//@endfn

/// value of one (primitive or constructed) segment with at most lim levels of nesting
pub open spec fn seg_bit(h: HV, c: Seq<u8>, lim: nat) -> Option<Seq<bool>>
    decreases lim, 0nat
{
    if lim == 0 || c.len() == 0 { None }
    else if h.cons {
        match h.len {
            Length::Definite(_) => match content_spec(c, h, 50) { None => None, Some((n, m)) => segs_bit(c.subrange(0, n), true, (lim - 1) as nat) },
            Length::Indefinite => segs_bit(c, false, (lim - 1) as nat),
        }
    } else { match content_spec(c, h, 50) { None => None, Some((n, m)) => leaf_bit(h, c.subrange(0, n)) } }
}
/// concatenation of the segments in b
pub open spec fn segs_bit(b: Seq<u8>, definite: bool, lim: nat) -> Option<Seq<bool>>
    decreases lim, b.len() + 1
{
    if b.len() == 0 { Some(Seq::empty()) }
    else { match ber_obj(b) {
        None => None,
        Some(o) =>
            if !definite && is_eoc(o.h) { Some(Seq::empty()) }
            else if o.h.tag != Tag(3) || o.end <= 0 || o.end > b.len() { None }
            else if obj_content(b, o).len() == 0 { segs_bit(rest(b, o.end), definite, lim) }
            else if lim == 0 { None }
            else { match seg_bit(o.h, obj_content(b, o), lim) { None => None, Some(p) => cat_bit(p, segs_bit(rest(b, o.end), definite, lim)) } },
    } }
}
pub open spec fn cat_bit(p: Seq<bool>, r: Option<Seq<bool>>) -> Option<Seq<bool>> { match r { None => None, Some(q) => Some(p + q) } }
pub proof fn lemma_cat_bit(a: Seq<bool>, p: Seq<bool>, r: Option<Seq<bool>>)
    ensures cat_bit(a, cat_bit(p, r)) == cat_bit(a + p, r), cat_bit(Seq::<bool>::empty(), r) == r, cat_bit(a, Some(Seq::<bool>::empty())) == Some(a)
{ if let Some(q) = r { assert(a + (p + q) =~= a + p + q); assert(Seq::<bool>::empty() + q =~= q); } assert(a + Seq::<bool>::empty() =~= a); }
//@fn src/ber/appendable.rs | parse_ber_segmented | key=P10 | rename=parse_ber_segmented_bit | inst=T:=BitString
//@ret res
//@subst parse_ber_segmented\( ==> parse_ber_segmented_bit(
//@subst <BitString>::from_ber_content ==> <BitString>::from_ber_content_bit
//@contract
    requires input.wf()
    ensures match res {
        Ok((rem, v)) => rem.wf() && seg_bit(hv(header), input.b(), recursion_limit as nat) == Some(v.bitvec.bits()) && v.bitvec.aligned(),
        Err(_) => seg_bit(hv(header), input.b(), recursion_limit as nat) is None,
    }
    decreases recursion_limit + 1
//@ghost loop0.before
    let ghost i0 = __it0.input; let ghost lm = (recursion_limit - 1) as nat; let ghost df = header.length is Definite;
    proof { lemma_cat_bit(Seq::<bool>::empty(), Seq::<bool>::empty(), segs_bit(i0.b(), df, lm)); assert(v.bitvec.bits() =~= Seq::<bool>::empty()); }
//@loop 0
    invariant_except_break
        !__it0.has_error, v.bitvec.aligned(), segs_bit(i0.b(), df, lm) == cat_bit(v.bitvec.bits(), segs_bit(__it0.input.b(), df, lm)),
    invariant
        __it0.input.wf(), rem.wf(), lm + 1 == recursion_limit, df == (header.length is Definite),
        i0.b() == data.b(), data.wf(),
        (if df { content_spec(input.b(), hv(header), 50) matches Some((n, m)) && input.b().subrange(0, n) == i0.b() } else { i0.b() == input.b() }),
        input.b().len() > 0, header.constructed,
    ensures segs_bit(i0.b(), df, lm) == Some(v.bitvec.bits()), v.bitvec.aligned()
    decreases __it0.input.b().len()
//@ghost loop0.begin
    let ghost ib = __it0.input.b(); let ghost v0 = v.bitvec.bits();
    proof {
        lemma_obj(ib); lemma_cat_bit(v0, Seq::<bool>::empty(), None);
        if let Some(o) = ber_obj(ib) {
            if let Some(p) = seg_bit(o.h, obj_content(ib, o), lm) { lemma_cat_bit(v0, p, segs_bit(rest(ib, o.end), df, lm)); }
        }
    }
//@endfn

impl<'a> OctetString<'a> {
//@fn src/asn1_types/octetstring.rs | OctetString<'a> | new | key=P10
//@ret r
//@contract
    ensures cow_seq(r.data) == s@, r.data is Borrowed
//@endfn
//@fn src/asn1_types/octetstring.rs | OctetString<'a> | as_cow | key=P10
//@ret r
//@contract
    ensures *r == self.data
//@endfn
//@fn src/asn1_types/octetstring.rs | OctetString<'a> | into_cow | key=P10
//@ret r
//@contract
    ensures r == self.data
//@endfn
//@fn src/asn1_types/octetstring.rs | AsRef<[u8]> for OctetString<'_> | as_ref | key=P10
//@ret r
//@contract
    ensures r@ == cow_seq(self.data)
//@endfn
//@fn src/asn1_types/octetstring.rs | From<&'a [u8]> for OctetString<'a> | from | key=P10
//@ret r
//@contract
    ensures cow_seq(r.data) == b@
//@endfn
//@fn src/asn1_types/octetstring.rs | Appendable for OctetString<'_> | append | key=P10
//@contract
    ensures cow_seq(final(self).data) == cow_seq(old(self).data) + cow_seq(old(other).data)
//@endfn
}
impl BitString {
//@fn src/asn1_types/bitstring.rs | Appendable for BitString | append | key=P10
//@contract
    ensures final(self).bitvec.bits() == old(self).bitvec.bits() + old(other).bitvec.bits(), old(self).bitvec.aligned() ==> final(self).bitvec.aligned()
//@endfn
//@fn src/asn1_types/bitstring.rs | BitString | new | key=P10
//@ret r
//@contract
    requires unused_bits < 8, unused_bits < 8 * s@.len()
    ensures r.bitvec.bits() == bits_of(s@).subrange(0, 8 * s@.len() - unused_bits), r.bitvec.aligned()
//@endfn
//@fn src/asn1_types/bitstring.rs | From<&BitSlice<u8,Msb0>> for BitString | from | key=P10
//@ret r
//@contract
    ensures r.bitvec.bits() == slice.bits(), r.bitvec.aligned()
//@endfn
//@fn src/asn1_types/bitstring.rs | BitString | as_raw_slice | key=P10
//@ret r
//@contract
    ensures self.bitvec.aligned() ==> r@.len() == (self.bitvec.bits().len() + 7) / 8 && 8 * r@.len() <= usize::MAX && bits_of(r@).subrange(0, self.bitvec.bits().len() as int) == self.bitvec.bits()
//@endfn
//@fn src/asn1_types/bitstring.rs | BitString | len | key=P10
//@ret r
//@contract
    ensures r == self.bitvec.bits().len(), r <= usize::MAX / 8
//@endfn
//@fn src/asn1_types/bitstring.rs | BitString | is_empty | key=P10
//@ret r
//@contract
    ensures r == (self.bitvec.bits().len() == 0)
//@endfn
}
/// the bits of the last octet that are declared unused are zero
pub open spec fn bit_pad_ok(c: Seq<u8>) -> bool {
    c.len() >= 2 ==> vstd::std_specs::bits::u8_trailing_zeros(c.last()) >= (if c[0] < 7 { c[0] as u32 } else { 7u32 })
}

/// decoding of a content: primitive, or constructed from segments
pub open spec fn ber_oct(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { if h.cons { seg_oct(h, c, 5) } else { leaf_oct(h, c) } }
pub open spec fn der_oct(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { if h.cons { None } else { leaf_oct(h, c) } }
impl<'i> OctetString<'i> {
//@fn src/asn1_types/octetstring.rs | BerParser<'i> for OctetString<'i> | from_ber_content | key=P10 | rename=from_ber_content_oct

//@ret res

//@sigsub Self::Error ==> BerError<Input<'i>>
//@subst parse_ber_segmented\( ==> parse_ber_segmented_oct(
//@contract
    requires input.wf()
    ensures match res {
        Ok((rem, v)) => rem.wf() && ber_oct(hv(header), input.b()) == Some(cow_seq(v.data)),
        Err(_) => ber_oct(hv(header), input.b()) is None,
    }
    decreases (if header.constructed { 7int } else { 0int })
//@endfn
}
impl<'i> BerContent<'i> for OctetString<'i> {
    type Error = BerError<Input<'i>>;
    type V = Seq<u8>;
    open spec fn sp_val(&self) -> Seq<u8> { cow_seq(self.data) }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { ber_oct(h, c) }
//@fn src/asn1_types/octetstring.rs | BerParser<'i> for OctetString<'i> | from_ber_content | key=P10
//@ret res
//@subst parse_ber_segmented\( ==> parse_ber_segmented_oct(
//@contract
        ensures res matches Ok((rem, v)) ==> rem.wf()
//@endfn
}
impl<'i> DerContent<'i> for OctetString<'i> {
    type Error = BerError<Input<'i>>;
    type DV = Seq<u8>;
    open spec fn sp_dval(&self) -> Seq<u8> { cow_seq(self.data) }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { der_oct(h, c) }
//@fn src/asn1_types/octetstring.rs | DerParser<'i> for OctetString<'i> | from_der_content | key=P10+P09
//@ret res
//@contract
//@endfn
}
impl CheckDerConstraints for OctetString<'_> {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { !h.cons  }
//@fn src/asn1_types/octetstring.rs | CheckDerConstraints for OctetString<'_> | check_constraints | key=P10+P09
//@ret res
//@contract
//@endfn
}

pub open spec fn ber_bit(h: HV, c: Seq<u8>) -> Option<Seq<bool>> { if h.cons { seg_bit(h, c, 5) } else { leaf_bit(h, c) } }
pub open spec fn der_bit(h: HV, c: Seq<u8>) -> Option<Seq<bool>> { if h.cons || !bit_pad_ok(c) { None } else { leaf_bit(h, c) } }
impl BitString {
//@fn src/asn1_types/bitstring.rs | BerParser<'i> for BitString | from_ber_content | key=P10 | rename=from_ber_content_bit
//@sigsub fn from_ber_content( ==> fn from_ber_content<'i>(
//@ret res

//@sigsub Self::Error ==> BerError<Input<'i>>
//@subst parse_ber_segmented\( ==> parse_ber_segmented_bit(
//@contract
    requires input.wf()
    ensures match res {
        Ok((rem, v)) => rem.wf() && ber_bit(hv(header), input.b()) == Some(v.bitvec.bits()) && v.bitvec.aligned(),
        Err(_) => ber_bit(hv(header), input.b()) is None,
    }
    decreases (if header.constructed { 7int } else { 0int })
//@endfn
}
impl<'i> BerContent<'i> for BitString {
    type Error = BerError<Input<'i>>;
    type V = Seq<bool>;
    open spec fn sp_val(&self) -> Seq<bool> { self.bitvec.bits() }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<Seq<bool>> { ber_bit(h, c) }
//@fn src/asn1_types/bitstring.rs | BerParser<'i> for BitString | from_ber_content | key=P10
//@ret res
//@subst parse_ber_segmented\( ==> parse_ber_segmented_bit(
//@contract
        ensures res matches Ok((rem, v)) ==> rem.wf() && v.bitvec.aligned()
//@endfn
}
impl<'i> DerContent<'i> for BitString {
    type Error = BerError<Input<'i>>;
    type DV = Seq<bool>;
    open spec fn sp_dval(&self) -> Seq<bool> { self.bitvec.bits() }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<Seq<bool>> { der_bit(h, c) }
//@fn src/asn1_types/bitstring.rs | DerParser<'i> for BitString | from_der_content | key=P10+P09
//@ret res
//@contract
        ensures res matches Ok((rem, v)) ==> v.bitvec.aligned()
//@endfn
}
impl CheckDerConstraints for BitString {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { !h.cons && c.len() > 0 && (if c.len() == 1 { c[0] == 0 } else { vstd::std_specs::bits::u8_trailing_zeros(c.last()) >= c[0] as u32 }) }
//@fn src/asn1_types/bitstring.rs | CheckDerConstraints for BitString | check_constraints | key=P10+P09
//@ret res
//@contract
//@endfn
}

impl<'i> BerContent<'i> for &'i [u8] {
    type Error = BerError<Input<'i>>;
    type V = Seq<u8>;
    open spec fn sp_val(&self) -> Seq<u8> { self@ }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { if h.cons { None } else { Some(c) } }
//@fn src/asn1_types/octetstring.rs | BerParser<'i> for &'i [u8] | from_ber_content | key=P10
//@ret res
//@contract
//@endfn
}
impl<'i> DerContent<'i> for &'i [u8] {
    type Error = BerError<Input<'i>>;
    type DV = Seq<u8>;
    open spec fn sp_dval(&self) -> Seq<u8> { self@ }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { if h.cons { None } else { Some(c) } }
//@fn src/asn1_types/octetstring.rs | DerParser<'i> for &'i [u8] | from_der_content | key=P10+P09
//@ret res
//@contract
//@endfn
}
impl CheckDerConstraints for &'_ [u8] {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { !h.cons }
//@fn src/asn1_types/octetstring.rs | CheckDerConstraints for &'_ [u8] | check_constraints | key=P10+P09
//@ret res
//@contract
//@endfn
}
}
