verus! {
// ------------------------------------------------------------------ UTCTime, GeneralizedTime (X.680 46, 47; X.690 11.7, 11.8)
//@item src/datetime.rs | enum ASN1TimeZone | #[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@item src/datetime.rs | struct ASN1DateTime
//@item src/asn1_types/utctime.rs | struct UtcTime
//@item src/asn1_types/generalizedtime.rs | struct GeneralizedTime
pub open spec fn dig(b: Seq<u8>, i: int) -> bool { 0 <= i < b.len() && 0x30 <= b[i] <= 0x39 }
pub open spec fn d1(b: Seq<u8>, i: int) -> int { b[i] - 0x30 }
/// two decimal digits
pub open spec fn dd(b: Seq<u8>, i: int) -> bool { dig(b, i) && dig(b, i + 1) }
pub open spec fn v2(b: Seq<u8>, i: int) -> int { d1(b, i) * 10 + d1(b, i + 1) }
/// month, day, hour, minute and second in range
pub open spec fn mdhms(mo: int, d: int, h: int, mi: int, s: int) -> bool { 1 <= mo <= 12 && 1 <= d <= 31 && 0 <= h <= 23 && 0 <= mi <= 59 && 0 <= s <= 59 }
/// `Z`, or a local time differential of four digits and its sign
pub open spec fn tz_of(b: Seq<u8>, i: int) -> Option<ASN1TimeZone> {
    if b.len() == i + 1 && b[i] == 0x5a { Some(ASN1TimeZone::Z) }
    else if b.len() == i + 5 && b[i] == 0x2b && dd(b, i + 1) && dd(b, i + 3) { Some(ASN1TimeZone::Offset(v2(b, i + 1) as i8, v2(b, i + 3) as i8)) }
    else if b.len() == i + 5 && b[i] == 0x2d && dd(b, i + 1) && dd(b, i + 3) {
        // the sign of a differential below one hour is that of its minutes
        Some(ASN1TimeZone::Offset(-v2(b, i + 1) as i8, if v2(b, i + 1) == 0 { -v2(b, i + 3) as i8 } else { v2(b, i + 3) as i8 }))
    } else { None }
}
/// YYMMDDhhmm[ss](Z|+hhmm|-hhmm); without seconds only Z
pub open spec fn utc_of(b: Seq<u8>) -> Option<ASN1DateTime> {
    if !(dd(b, 0) && dd(b, 2) && dd(b, 4) && dd(b, 6) && dd(b, 8)) || b.len() < 11 { None }
    else if b.len() > 11 && !dd(b, 10) { None }
    else {
        let (s, i) = if b.len() == 11 { (0int, 10int) } else { (v2(b, 10), 12int) };
        if !mdhms(v2(b, 2), v2(b, 4), v2(b, 6), v2(b, 8), s) { None }
        else { match tz_of(b, i) { None => None, Some(tz) => Some(ASN1DateTime { year: v2(b, 0) as u32, month: v2(b, 2) as u8, day: v2(b, 4) as u8, hour: v2(b, 6) as u8, minute: v2(b, 8) as u8, second: s as u8, millisecond: None, tz }) } }
    }
}
/// number of leading digits from i
pub open spec fn ndig(b: Seq<u8>, i: int) -> int
    decreases b.len() - i
{ if dig(b, i) { 1 + ndig(b, i + 1) } else { 0 } }
pub proof fn lemma_ndig(b: Seq<u8>, i: int, n: int)
    requires 0 <= n, forall|j: int| i <= j < i + n ==> dig(b, j)
    ensures ndig(b, i) >= n, !dig(b, i + n) ==> ndig(b, i) == n
    decreases n
{ lemma_ndig_at(b, i); if n > 0 { assert(dig(b, i)); lemma_ndig(b, i + 1, n - 1); } }
pub proof fn lemma_ndig_at(b: Seq<u8>, i: int)
    ensures ndig(b, i) >= 0, forall|j: int| i <= j < i + ndig(b, i) ==> dig(b, j), !dig(b, i + ndig(b, i))
    decreases b.len() - i
{ if dig(b, i) { lemma_ndig_at(b, i + 1); } }
/// milliseconds of a fraction of n digits
pub open spec fn ms_of(b: Seq<u8>, i: int, n: int) -> int {
    if n == 1 { d1(b, i) * 100 } else if n == 2 { d1(b, i) * 100 + d1(b, i + 1) * 10 } else { d1(b, i) * 100 + d1(b, i + 1) * 10 + d1(b, i + 2) }
}
/// fraction and zone from position i
pub open spec fn frac_tz(b: Seq<u8>, i: int) -> Option<(Option<u16>, ASN1TimeZone)> {
    if i == b.len() { Some((None, ASN1TimeZone::Undefined)) }
    else if b[i] == 0x2e || b[i] == 0x2c {
        let n = ndig(b, i + 1);
        if !(1 <= n <= 3) { None }
        else if i + 1 + n == b.len() { Some((Some(ms_of(b, i + 1, n) as u16), ASN1TimeZone::Undefined)) }
        else { match tz_of(b, i + 1 + n) { None => None, Some(tz) => Some((Some(ms_of(b, i + 1, n) as u16), tz)) } }
    } else { match tz_of(b, i) { None => None, Some(tz) => Some((None, tz)) } }
}
/// YYYYMMDDhhmm[ss[(.|,)f[f[f]]]][Z|+hhmm|-hhmm]; without seconds only Z
pub open spec fn gen_of(b: Seq<u8>) -> Option<ASN1DateTime> {
    if !(dd(b, 0) && dd(b, 2) && dd(b, 4) && dd(b, 6) && dd(b, 8) && dd(b, 10)) || b.len() < 13 { None }
    else if b.len() > 13 && !dd(b, 12) { None }
    else {
        let (s, i) = if b.len() == 13 { (0int, 12int) } else { (v2(b, 12), 14int) };
        if !mdhms(v2(b, 4), v2(b, 6), v2(b, 8), v2(b, 10), s) { None }
        else { match frac_tz(b, i) { None => None, Some((millisecond, tz)) => Some(ASN1DateTime { year: (v2(b, 0) * 100 + v2(b, 2)) as u32, month: v2(b, 4) as u8, day: v2(b, 6) as u8, hour: v2(b, 8) as u8, minute: v2(b, 10) as u8, second: s as u8, millisecond, tz }) } }
    }
}
impl Tag {
    #[verifier::external_body]
    pub fn invalid_value(&self, msg: &str) -> (r: Error) { unimplemented!() }
}
#[verifier::external_body]
pub fn verif_is_digit(b: u8) -> (r: bool) ensures r == (0x30 <= b <= 0x39) { unimplemented!() }
//@fn src/datetime.rs | decode_decimal | key=P13
//@ret r
//@subst (\w+)\.is_ascii_digit\(\) ==> verif_is_digit(\1)
//@contract
    ensures match r { Ok(v) => 0x30 <= hi <= 0x39 && 0x30 <= lo <= 0x39 && v == (hi - 0x30) * 10 + (lo - 0x30) && v <= 99, Err(_) => !(0x30 <= hi <= 0x39 && 0x30 <= lo <= 0x39) }
//@endfn
impl ASN1DateTime {
//@fn src/datetime.rs | ASN1DateTime | new | key=P13
//@ret r
//@contract
    ensures r == (ASN1DateTime { year, month, day, hour, minute, second, millisecond, tz })
//@endfn
}
impl UtcTime {
//@fn src/asn1_types/utctime.rs | UtcTime | new | key=P13
//@ret r
//@contract
    ensures r.0 == datetime
//@endfn
//@fn src/asn1_types/utctime.rs | UtcTime | from_bytes | key=P13
//@ret r
//@contract
    ensures match r { Ok(t) => utc_of(bytes@) == Some(t.0), Err(_) => utc_of(bytes@) is None }
//@endfn
}
impl Tagged for UtcTime {
//@consts src/asn1_types/utctime.rs | Tagged for UtcTime
}
impl Tagged for GeneralizedTime {
//@consts src/asn1_types/generalizedtime.rs | Tagged for GeneralizedTime
}
impl GeneralizedTime {
//@fn src/asn1_types/generalizedtime.rs | GeneralizedTime | new | key=P13
//@ret r
//@contract
    ensures r.0 == datetime
//@endfn
//@fn src/asn1_types/generalizedtime.rs | GeneralizedTime | from_bytes | key=P13
//@ret r
//@contract
    ensures match r { Ok(t) => gen_of(bytes@) == Some(t.0), Err(_) => gen_of(bytes@) is None }
//@nloops 1
//@ghost loop0.before
    let ghost q = (bytes@.len() - rem@.len()) as int;
    proof { lemma_ndig_at(bytes@, q); }
//@loop 0
    invariant_except_break
        digits == 0, __r0 <= 4, __r0 == 0 ==> fsecond == 0, __r0 == 1 ==> fsecond == d1(bytes@, q), __r0 == 2 ==> fsecond == d1(bytes@, q) * 10 + d1(bytes@, q + 1),
        __r0 == 3 ==> fsecond == d1(bytes@, q) * 100 + d1(bytes@, q + 1) * 10 + d1(bytes@, q + 2), __r0 == 4 ==> fsecond < 10000,
        rem@ == bytes@.subrange(q + __r0, bytes@.len() as int), q + __r0 <= bytes@.len(),
        forall|j: int| q <= j < q + __r0 ==> dig(bytes@, j),
    invariant
        0 <= __r0 <= 5, 0 <= q <= bytes@.len(), bytes@.len() >= 13, q == (if bytes@.len() == 13 { 13int } else { 15 }), bytes@[q - 1] == 0x2e || bytes@[q - 1] == 0x2c, gen_of(bytes@) is Some ==> 1 <= ndig(bytes@, q) <= 3,
        forall|j: int| q <= j < q + ndig(bytes@, q) ==> dig(bytes@, j), !dig(bytes@, q + ndig(bytes@, q)), ndig(bytes@, q) >= 0,
    ensures
        1 <= digits <= 3, ndig(bytes@, q) == digits, rem@ == bytes@.subrange(q + digits, bytes@.len() as int), q + digits <= bytes@.len(),
        digits == 1 ==> fsecond == d1(bytes@, q), digits == 2 ==> fsecond == d1(bytes@, q) * 10 + d1(bytes@, q + 1),
        digits == 3 ==> fsecond == d1(bytes@, q) * 100 + d1(bytes@, q + 1) * 10 + d1(bytes@, q + 2),
    decreases 5 - __r0
//@ghost loop0.begin
    proof { lemma_ndig(bytes@, q, __r0 as int); if __r0 >= 1 { assert(dig(bytes@, q)); } if __r0 >= 2 { assert(dig(bytes@, q + 1)); } if __r0 >= 3 { assert(dig(bytes@, q + 2)); } if rem@.len() > 0 { assert(rem@[0] == bytes@[q + __r0]); } }
//@endfn
}

pub open spec fn all_visible(c: Seq<u8>) -> bool { forall|i: int| #![trigger c[i]] 0 <= i < c.len() ==> 0x20 <= c[i] <= 0x7f }
/// `input.iter_elements().all(f)`
#[verifier::external_body]
pub fn verif_all_elems<'a, F: FnMut(u8) -> bool>(s: &Input<'a>, f: F) -> (r: bool)
    requires forall|x: u8| #[trigger] f.requires((x,))
    ensures
        r ==> forall|i: int| #![trigger s.b()[i]] 0 <= i < s.b().len() ==> f.ensures((s.b()[i],), true),
        !r ==> exists|i: int| #![trigger s.b()[i]] 0 <= i < s.b().len() && f.ensures((s.b()[i],), false),
{ unimplemented!() }
#[verifier::external_body]
pub fn verif_has(s: &[u8], x: u8) -> (r: bool) ensures r == s@.contains(x) { unimplemented!() }
#[verifier::external_body]
pub fn verif_last_is(s: &[u8], x: u8) -> (r: bool) ensures r == (s@.len() > 0 && s@.last() == x) { unimplemented!() }
pub proof fn lemma_tz_visible(c: Seq<u8>, k: int)
    requires 0 <= k < c.len(), tz_of(c, k) is Some
    ensures forall|i: int| #![trigger c[i]] k <= i < c.len() ==> 0x20 <= c[i] <= 0x7f
{}
pub proof fn lemma_utc_visible(c: Seq<u8>)
    requires utc_of(c) is Some
    ensures all_visible(c)
{
    let k = if c.len() == 11 { 10int } else { 12int };
    lemma_tz_visible(c, k);
    assert forall|i: int| 0 <= i < c.len() implies 0x20 <= #[trigger] c[i] <= 0x7f by { if i < k { assert(i == 0 || i == 1 || i == 2 || i == 3 || i == 4 || i == 5 || i == 6 || i == 7 || i == 8 || i == 9 || i == 10 || i == 11); } }
}
pub proof fn lemma_gen_visible(c: Seq<u8>)
    requires gen_of(c) is Some
    ensures all_visible(c)
{
    let k = if c.len() == 13 { 12int } else { 14int };
    assert forall|i: int| 0 <= i < c.len() implies 0x20 <= #[trigger] c[i] <= 0x7f by {
        if i < k { assert(i == 0 || i == 1 || i == 2 || i == 3 || i == 4 || i == 5 || i == 6 || i == 7 || i == 8 || i == 9 || i == 10 || i == 11 || i == 12 || i == 13); }
        else if c[k] == 0x2e || c[k] == 0x2c {
            let n = ndig(c, k + 1);
            lemma_ndig_at(c, k + 1);
            if k + 1 + n < c.len() { lemma_tz_visible(c, k + 1 + n); }
            if k < i < k + 1 + n { assert(dig(c, i)); }
        } else { lemma_tz_visible(c, k); }
    }
}
pub open spec fn der_gen_of(c: Seq<u8>) -> Option<ASN1DateTime> { if c.len() > 0 && c.last() == 0x5a && !c.contains(0x2c) { gen_of(c) } else { None } }
//@repeat $T,$f,$of,$dof,$lem : UtcTime,utctime,utc_of,utc_of,lemma_utc_visible ; GeneralizedTime,generalizedtime,gen_of,der_gen_of,lemma_gen_visible
impl<'i> BerContent<'i> for $T {
    type Error = BerError<Input<'i>>;
    type V = ASN1DateTime;
    open spec fn sp_val(&self) -> ASN1DateTime { self.0 }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<ASN1DateTime> { if h.cons { None } else { $of(c) } }
//@fn src/asn1_types/$f.rs | BerParser<'i> for $T | from_ber_content | key=P13+P08
//@ret res
//@subst \((\w+)\.\.=(\w+)\)\.contains\(&(\w+)\) ==> (\1 <= \3 && \3 <= \2)
//@subst input\.iter_elements\(\)\.all\( ==> verif_all_elems(&input, 
//@nclosures 2
//@closure 0 |__c0: u8| -> (r: bool) ensures r == (0x20 <= __c0 <= 0x7f)
//@contract
//@ghost entry
    proof { if $of(input.b()) is Some { $lem(input.b()); } }
//@endfn
}
impl<'i> DerContent<'i> for $T {
    type Error = BerError<Input<'i>>;
    type DV = ASN1DateTime;
    open spec fn sp_dval(&self) -> ASN1DateTime { self.0 }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<ASN1DateTime> { if h.cons { None } else { $dof(c) } }
//@fn src/asn1_types/$f.rs | DerParser<'i> for $T | from_der_content | key=P13+P09
//@ret res
//@subst \((\w+)\.\.=(\w+)\)\.contains\(&(\w+)\) ==> (\1 <= \3 && \3 <= \2)
//@subst input\.iter_elements\(\)\.all\( ==> verif_all_elems(&input, 
//@subst (?#opt)([\w.]+)\.as_bytes2\(\)\.last\(\) != Some\(&(b'.')\) ==> !verif_last_is(\1.as_bytes2(), \2)
//@subst (?#opt)([\w.]+)\.as_bytes2\(\)\.contains\(&(b'.')\) ==> verif_has(\1.as_bytes2(), \2)
//@nclosures 2
//@closure 0 |__c0: u8| -> (r: bool) ensures r == (0x20 <= __c0 <= 0x7f)
//@contract
//@ghost entry
    proof { if $of(input.b()) is Some { $lem(input.b()); } }
//@endfn
}
//@endrepeat
impl CheckDerConstraints for UtcTime {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { true }
//@fn src/asn1_types/utctime.rs | CheckDerConstraints for UtcTime | check_constraints | key=P09+P13
//@ret res
//@contract
//@endfn
}
impl CheckDerConstraints for GeneralizedTime {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { c.len() > 0 && c.last() == 0x5a && !c.contains(0x2c) }
//@fn src/asn1_types/generalizedtime.rs | CheckDerConstraints for GeneralizedTime | check_constraints | key=P09+P13
//@ret res
//@subst (?#opt)([\w.]+)\.as_bytes2?\(\)\.last\(\) != Some\(&(b'.')\) ==> !verif_last_is(\1.as_bytes2(), \2)
//@subst (?#opt)([\w.]+)\.as_bytes2?\(\)\.contains\(&(b'.')\) ==> verif_has(\1.as_bytes2(), \2)
//@contract
//@endfn
}

// ------------------------------------------------------------------ text written by `write!` / `format!`: literal characters, {} and {:0N}
/// decimal digits, most significant first
pub open spec fn dec(n: nat) -> Seq<u8>
    decreases n
{ if n < 10 { seq![(0x30 + n) as u8] } else { dec(n / 10).push((0x30 + n % 10) as u8) } }
/// at least w digits, padded with zeros
#[verifier::opaque]
pub open spec fn dec_pad(n: nat, w: nat) -> Seq<u8>
    decreases w
{ let d = dec(n); if d.len() >= w { d } else { Seq::new((w - d.len()) as nat, |i: int| 0x30u8) + d } }
#[verifier::opaque]
pub open spec fn dg(n: int) -> u8 { (0x30 + n % 10) as u8 }
pub proof fn lemma_dec2(n: nat)
    requires n <= 99
    ensures dec_pad(n, 2) == seq![dg((n / 10) as int), dg(n as int)]
{
    reveal(dec_pad); reveal(dg);
    if n < 10 { assert(dec(n) == seq![(0x30 + n) as u8]); assert(dec_pad(n, 2) =~= seq![0x30u8, (0x30 + n) as u8]); }
    else { assert(dec(n / 10) == seq![(0x30 + n / 10) as u8]); assert(dec_pad(n, 2) =~= seq![(0x30 + n / 10) as u8, (0x30 + n % 10) as u8]); }
}
pub proof fn lemma_dec3(n: nat)
    requires n <= 999
    ensures dec_pad(n, 3) == seq![dg((n / 100) as int), dg((n / 10) as int), dg(n as int)]
{
    reveal(dec_pad); reveal(dg);
    if n >= 100 { lemma_dec2(n / 10); assert(dec(n / 10) == dec_pad(n / 10, 2)); assert((n / 10) / 10 == n / 100); assert(dec_pad(n, 3) =~= seq![dg((n / 100) as int), dg((n / 10) as int), dg(n as int)]); }
    else { lemma_dec2(n); assert(dec_pad(n, 3) =~= seq![0x30u8] + dec_pad(n, 2)) by { if n < 10 { assert(dec(n).len() == 1); } else { assert(dec(n / 10).len() == 1); assert(dec(n).len() == 2); } } }
}
pub proof fn lemma_dec4(n: nat)
    requires n <= 9999
    ensures dec_pad(n, 4) == seq![dg((n / 1000) as int), dg((n / 100) as int), dg((n / 10) as int), dg(n as int)]
{
    reveal(dec_pad); reveal(dg);
    if n >= 1000 { lemma_dec3(n / 10); assert(dec(n / 10).len() >= 3) by { lemma_dec_len(n / 10); } assert((n / 10) / 10 == n / 100); assert((n / 10) / 100 == n / 1000); assert(dec_pad(n, 4) =~= seq![dg((n / 1000) as int), dg((n / 100) as int), dg((n / 10) as int), dg(n as int)]); }
    else { lemma_dec3(n); lemma_dec_len(n); assert(dec_pad(n, 4) =~= seq![0x30u8] + dec_pad(n, 3)); }
}
pub proof fn lemma_dec_len(n: nat)
    requires n <= 9999
    ensures dec(n).len() == (if n < 10 { 1int } else if n < 100 { 2 } else if n < 1000 { 3 } else { 4 })
{ if n >= 10 { assert(dec(n / 10).len() <= 3) by { if n >= 100 { assert(dec(n / 100).len() <= 2) by { if n >= 1000 { assert((n / 100) / 10 < 10); assert(dec((n / 100) / 10).len() == 1); } } assert((n / 10) / 10 == n / 100); } } if n >= 100 { assert((n / 10) / 10 == n / 100); if n >= 1000 { assert((n / 100) / 10 == n / 1000); assert(dec(n / 1000).len() == 1); } else { assert(dec(n / 100).len() == 1); } } } }
pub trait VerifNum { spec fn n(&self) -> nat; }
impl VerifNum for u8 { open spec fn n(&self) -> nat { *self as nat } }
impl VerifNum for u16 { open spec fn n(&self) -> nat { *self as nat } }
impl VerifNum for u32 { open spec fn n(&self) -> nat { *self as nat } }
pub trait VerifDisp { spec fn disp(&self) -> Seq<u8>; }
impl VerifDisp for String { open spec fn disp(&self) -> Seq<u8> { string_bytes(*self) } }
impl VerifDisp for &str { open spec fn disp(&self) -> Seq<u8> { str_bytes(*self) } }
impl VerifDisp for u8 { open spec fn disp(&self) -> Seq<u8> { dec(*self as nat) } }
pub struct VNum { pub v: Ghost<nat> }
#[verifier::external_body]
pub fn verif_num<T: VerifNum>(t: T) -> (r: VNum) ensures r.v@ == t.n() { unimplemented!() }
#[verifier::external_body]
pub struct VFmt { s: String }
impl VFmt {
    pub uninterp spec fn out(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new() -> (r: VFmt) ensures r.out() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn ch(&mut self, c: u8) requires c < 0x80 ensures final(self).out() == old(self).out().push(c) { unimplemented!() }
    /// {:0N} of an unsigned integer
    #[verifier::external_body]
    pub fn num(&mut self, w: u8, n: VNum) ensures final(self).out() == old(self).out() + dec_pad(n.v@, w as nat) { unimplemented!() }
    /// {} of a string or number
    #[verifier::external_body]
    pub fn str<T: VerifDisp>(&mut self, s: &T) ensures final(self).out() == old(self).out() + s.disp() { unimplemented!() }
}
/// `write!`: the text written with write_all
#[verifier::external_body]
pub fn verif_write_fmt<W: Write>(w: &mut W, f: VFmt) -> (r: core::result::Result<(), io::Error>)
    ensures r is Ok ==> final(w).out() == old(w).out() + f.out(), final(w).infallible() == old(w).infallible(), old(w).infallible() ==> r is Ok
{ unimplemented!() }
/// `format!`
#[verifier::external_body]
pub fn verif_format(f: VFmt) -> (r: String) ensures string_bytes(r) == f.out() { unimplemented!() }
#[verifier::external_body]
pub fn verif_string_new() -> (r: String) ensures string_bytes(r) == Seq::<u8>::empty() { unimplemented!() }
/// String::truncate at a position known to be a character boundary (an ASCII string)
#[verifier::external_body]
pub fn verif_truncate(s: &mut String, n: usize)
    requires forall|i: int| 0 <= i < string_bytes(*old(s)).len() ==> string_bytes(*old(s))[i] < 0x80
    ensures string_bytes(*final(s)) == (if n <= string_bytes(*old(s)).len() { string_bytes(*old(s)).subrange(0, n as int) } else { string_bytes(*old(s)) })
{ unimplemented!() }

pub open spec fn fd(ms: Option<u16>) -> int { match ms { None => 0, Some(v) => if v == 0 { 0 } else if v % 100 == 0 { 1 } else if v % 10 == 0 { 2 } else { 3 } } }
//@fn src/asn1_types/generalizedtime.rs | fractional_digits | key=P13+P03
//@ret r
//@contract
    ensures r == fd(millisecond)
//@endfn
/// the fraction without trailing zeros, and the point (nothing when the fraction is zero): X.690 11.7.3
pub open spec fn frac_enc(ms: Option<u16>) -> Seq<u8> { if fd(ms) == 0 { Seq::empty() } else { seq![0x2eu8] + dec_pad((ms->Some_0 % 1000) as nat, 3).subrange(0, fd(ms)) } }
pub open spec fn mdhms_enc(t: ASN1DateTime) -> Seq<u8> { dec_pad(t.month as nat, 2) + dec_pad(t.day as nat, 2) + dec_pad(t.hour as nat, 2) + dec_pad(t.minute as nat, 2) + dec_pad(t.second as nat, 2) }
pub open spec fn utc_enc(t: ASN1DateTime) -> Seq<u8> { dec_pad((t.year % 100) as nat, 2) + mdhms_enc(t) + seq![0x5au8] }
pub open spec fn gen_enc(t: ASN1DateTime) -> Seq<u8> { dec_pad(t.year as nat, 4) + mdhms_enc(t) + frac_enc(t.millisecond) + seq![0x5au8] }
/// every field fits its two positions
pub open spec fn two(t: ASN1DateTime) -> bool { t.month <= 99 && t.day <= 99 && t.hour <= 99 && t.minute <= 99 && t.second <= 99 }
pub open spec fn t_ok(t: ASN1DateTime) -> bool { t.tz == ASN1TimeZone::Z && mdhms(t.month as int, t.day as int, t.hour as int, t.minute as int, t.second as int) }
pub proof fn lemma_mdhms(t: ASN1DateTime)
    requires two(t)
    ensures mdhms_enc(t) == seq![dg(t.month as int / 10), dg(t.month as int), dg(t.day as int / 10), dg(t.day as int), dg(t.hour as int / 10), dg(t.hour as int), dg(t.minute as int / 10), dg(t.minute as int), dg(t.second as int / 10), dg(t.second as int)]
{
    lemma_dec2(t.month as nat); lemma_dec2(t.day as nat); lemma_dec2(t.hour as nat); lemma_dec2(t.minute as nat); lemma_dec2(t.second as nat);
    assert(mdhms_enc(t) =~= seq![dg(t.month as int / 10), dg(t.month as int), dg(t.day as int / 10), dg(t.day as int), dg(t.hour as int / 10), dg(t.hour as int), dg(t.minute as int / 10), dg(t.minute as int), dg(t.second as int / 10), dg(t.second as int)]);
}
pub proof fn lemma_utc_enc(t: ASN1DateTime)
    requires two(t)
    ensures utc_enc(t).len() == 13, utc_enc(t)[0] == dg((t.year % 100) as int / 10), utc_enc(t)[1] == dg((t.year % 100) as int), utc_enc(t)[12] == 0x5a, utc_enc(t).subrange(2, 12) == mdhms_enc(t), mdhms_enc(t).len() == 10,
{ lemma_mdhms(t); lemma_dec2((t.year % 100) as nat); assert(utc_enc(t).subrange(2, 12) =~= mdhms_enc(t)); }
pub proof fn lemma_frac(ms: Option<u16>)
    ensures frac_enc(ms).len() == (if fd(ms) == 0 { 0 } else { 1 + fd(ms) }), ms matches Some(v) ==> dec_pad((v % 1000) as nat, 3).len() == 3
{ if let Some(v) = ms { lemma_dec3((v % 1000) as nat); } }
pub proof fn lemma_gen_enc(t: ASN1DateTime)
    requires two(t), t.year <= 9999
    ensures
        gen_enc(t).len() == 15 + frac_enc(t.millisecond).len(), gen_enc(t).subrange(0, 4) == seq![dg(t.year as int / 1000), dg(t.year as int / 100), dg(t.year as int / 10), dg(t.year as int)],
        gen_enc(t).subrange(4, 14) == mdhms_enc(t), gen_enc(t).subrange(14, gen_enc(t).len() - 1) == frac_enc(t.millisecond), gen_enc(t).last() == 0x5a, mdhms_enc(t).len() == 10,
{
    lemma_mdhms(t); lemma_dec4(t.year as nat); let f = frac_enc(t.millisecond); let g = gen_enc(t);
    assert(g.subrange(0, 4) =~= dec_pad(t.year as nat, 4)); assert(g.subrange(4, 14) =~= mdhms_enc(t)); assert(g.subrange(14, g.len() - 1) =~= f);
}
pub open spec fn utc_fit(t: ASN1DateTime) -> bool { two(t) }
pub open spec fn gen_fit(t: ASN1DateTime) -> bool { two(t) && t.year <= 9999 }
pub open spec fn utc_len(t: ASN1DateTime) -> int { 13 }
pub open spec fn gen_len(t: ASN1DateTime) -> int { if fd(t.millisecond) == 0 { 15 } else { 16 + fd(t.millisecond) } }
pub proof fn lemma_utc_len(t: ASN1DateTime)
    requires utc_fit(t)
    ensures utc_enc(t).len() == utc_len(t)
{ lemma_utc_enc(t); }
pub proof fn lemma_gen_len(t: ASN1DateTime)
    requires gen_fit(t)
    ensures gen_enc(t).len() == gen_len(t)
{ lemma_gen_enc(t); lemma_frac(t.millisecond); }
pub open spec fn md_out(x: Seq<u8>, t: ASN1DateTime) -> Seq<u8> { x + dec_pad(t.month as nat, 2) + dec_pad(t.day as nat, 2) + dec_pad(t.hour as nat, 2) + dec_pad(t.minute as nat, 2) + dec_pad(t.second as nat, 2) }
pub proof fn lemma_md_out(x: Seq<u8>, t: ASN1DateTime)
    ensures md_out(x, t) == x + mdhms_enc(t)
{ assert(md_out(x, t) =~= x + mdhms_enc(t)); }
/// the pieces written one after the other
pub proof fn lemma_utc_out(t: ASN1DateTime)
    ensures md_out(Seq::<u8>::empty() + dec_pad((t.year % 100) as nat, 2), t).push(0x5a) == utc_enc(t)
{
    let y = dec_pad((t.year % 100) as nat, 2);
    assert(Seq::<u8>::empty() + y =~= y);
    lemma_md_out(y, t);
    assert((y + mdhms_enc(t)).push(0x5a) =~= utc_enc(t));
}
pub proof fn lemma_gen_out(t: ASN1DateTime)
    ensures
        (md_out(Seq::<u8>::empty() + dec_pad(t.year as nat, 4), t) + frac_enc(t.millisecond)).push(0x5a) == gen_enc(t),
        (md_out(Seq::<u8>::empty() + dec_pad(t.year as nat, 4), t) + frac_enc(t.millisecond)).push(0x5a).len() == gen_enc(t).len(),
        fd(t.millisecond) > 0 ==> ({
            let f = Seq::<u8>::empty().push(0x2e) + dec_pad((t.millisecond->Some_0 % 1000) as nat, 3);
            f.len() == 4 && f.subrange(0, 1 + fd(t.millisecond)) == frac_enc(t.millisecond) && forall|i: int| 0 <= i < f.len() ==> f[i] < 0x80 }),
        fd(t.millisecond) == 0 ==> frac_enc(t.millisecond) == Seq::<u8>::empty(),
{
    let y = dec_pad(t.year as nat, 4);
    assert(Seq::<u8>::empty() + y =~= y);
    lemma_md_out(y, t);
    assert((y + mdhms_enc(t) + frac_enc(t.millisecond)).push(0x5a) =~= gen_enc(t));
    if fd(t.millisecond) > 0 {
        reveal(dg);
        lemma_dec3((t.millisecond->Some_0 % 1000) as nat);
        let f = dec_pad((t.millisecond->Some_0 % 1000) as nat, 3);
        assert(Seq::<u8>::empty().push(0x2e) + f =~= seq![0x2eu8] + f);
        assert((seq![0x2eu8] + f).subrange(0, 1 + fd(t.millisecond)) =~= frac_enc(t.millisecond));
    }
}
//@repeat $T,$f,$n,$p : UtcTime,utctime,23,utc ; GeneralizedTime,generalizedtime,24,gen
//@default src/asn1_types/$f.rs | ToBer for $T | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber
impl ToBer for $T {
//@assoctype src/asn1_types/$f.rs | ToBer for $T | Encoder
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag($n)) }
    open spec fn ber_l(&self) -> Length { Length::Definite($p_len(self.0) as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { $p_enc(self.0) }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { $p_fit(self.0) }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) { lemma_$p_len(self.0); }
//@fn src/asn1_types/$f.rs | ToBer for $T | ber_content_len | key=P03+P13
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/$f.rs | ToBer for $T | ber_tag_info | key=P02+P13
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/$f.rs | ToBer for $T | ber_write_content | key=P03+P13
//@ret r
//@subst (?#opt)String::new\(\) ==> verif_string_new()
//@subst (?#opt)(\w+)\.truncate\( ==> verif_truncate(&mut \1, 
//@contract
//@ghost entry
    proof { lemma_$p_out(self.0); if $p_fit(self.0) { lemma_$p_len(self.0); } }
//@endfn
}
impl ToBerX for $T {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@require src/asn1_types/$f.rs | impl_toder_from_tober!(TY $T)
//@default src/to_der.rs | ToDer for $T | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=impl_toder_from_tober#0(ty:=$T)
impl ToDer for $T {
//@assoctype src/to_der.rs | ToDer for $T | Encoder | macro=impl_toder_from_tober#0(ty:=$T)
    open spec fn der_i(&self) -> (Class, bool, Tag) { self.ber_i() }
    open spec fn der_l(&self) -> Length { self.ber_l() }
    open spec fn der_c(&self) -> Seq<u8> { self.ber_c() }
    open spec fn der_pre(&self) -> bool { self.ber_pre() }
    open spec fn der_ok(&self) -> bool { self.ber_ok() }
    proof fn lemma_der_i(&self) { self.lemma_ber_i(); }
    proof fn lemma_der_l(&self) { self.lemma_ber_l(); }
//@fn src/to_der.rs | ToDer for $T | der_content_len | key=P03+P13 | macro=impl_toder_from_tober#0(ty:=$T)
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for $T | der_tag_info | key=P02+P13 | macro=impl_toder_from_tober#0(ty:=$T)
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for $T | der_write_content | key=P03+P13 | macro=impl_toder_from_tober#0(ty:=$T)
//@ret r
//@contract
//@endfn
}
impl ToDerX for $T {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@endrepeat
// ---- what is written decodes to the same fields; canonical text is written back as read
pub proof fn lemma_dg(n: int)
    requires 0 <= n <= 99
    ensures 0x30 <= dg(n / 10) <= 0x39, 0x30 <= dg(n) <= 0x39, (dg(n / 10) - 0x30) * 10 + (dg(n) - 0x30) == n
{ reveal(dg); }
pub proof fn lemma_two(c: Seq<u8>, i: int, n: int)
    requires 0 <= i < c.len() - 1, 0 <= n <= 99, c[i] == dg(n / 10), c[i + 1] == dg(n)
    ensures dd(c, i), v2(c, i) == n
{ reveal(dg); }
pub proof fn lemma_year4(c: Seq<u8>, y: int)
    requires c.len() >= 4, 0 <= y <= 9999, c[0] == dg(y / 1000), c[1] == dg(y / 100), c[2] == dg(y / 10), c[3] == dg(y)
    ensures dd(c, 0), dd(c, 2), v2(c, 0) * 100 + v2(c, 2) == y
{ reveal(dg); }
pub proof fn lemma_ms3(v: int)
    requires 1 <= v <= 999
    ensures 0x30 <= dg(v / 100) <= 0x39, 0x30 <= dg(v / 10) <= 0x39, 0x30 <= dg(v) <= 0x39, (dg(v / 100) - 0x30) * 100 + (dg(v / 10) - 0x30) * 10 + (dg(v) - 0x30) == v,
        v % 100 == 0 ==> dg(v / 10) == 0x30, v % 10 == 0 ==> dg(v) == 0x30
{ reveal(dg); }
pub proof fn lemma_utc_rt(t: ASN1DateTime)
    requires t_ok(t), t.year < 100, t.millisecond is None
    ensures utc_of(utc_enc(t)) == Some(t)
{
    let c = utc_enc(t); lemma_utc_enc(t); lemma_mdhms(t); let m = mdhms_enc(t);
    assert forall|i: int| 2 <= i < 12 implies #[trigger] c[i] == m[i - 2] by { assert(c.subrange(2, 12)[i - 2] == c[i]); }
    lemma_two(c, 0, t.year as int); lemma_two(c, 2, t.month as int); lemma_two(c, 4, t.day as int); lemma_two(c, 6, t.hour as int); lemma_two(c, 8, t.minute as int); lemma_two(c, 10, t.second as int);
    assert(tz_of(c, 12) == Some(ASN1TimeZone::Z));
}
pub open spec fn gms(ms: Option<u16>) -> bool { match ms { None => true, Some(v) => 1 <= v <= 999 } }
pub proof fn lemma_gen_rt(t: ASN1DateTime)
    requires t_ok(t), t.year <= 9999, gms(t.millisecond)
    ensures gen_of(gen_enc(t)) == Some(t), gen_enc(t).len() > 0, gen_enc(t).last() == 0x5a, !gen_enc(t).contains(0x2c)
{
    let c = gen_enc(t); lemma_gen_enc(t); lemma_mdhms(t); lemma_frac(t.millisecond); let m = mdhms_enc(t); let f = frac_enc(t.millisecond);
    assert forall|i: int| 0 <= i < 4 implies #[trigger] c[i] == c.subrange(0, 4)[i] by {}
    assert forall|i: int| 4 <= i < 14 implies #[trigger] c[i] == m[i - 4] by { assert(c.subrange(4, 14)[i - 4] == c[i]); }
    assert forall|i: int| 14 <= i < c.len() - 1 implies #[trigger] c[i] == f[i - 14] by { assert(c.subrange(14, c.len() - 1)[i - 14] == c[i]); }
    let y = t.year as int;
    lemma_year4(c, y);
    lemma_two(c, 4, t.month as int); lemma_two(c, 6, t.day as int); lemma_two(c, 8, t.hour as int); lemma_two(c, 10, t.minute as int); lemma_two(c, 12, t.second as int);
    let n = fd(t.millisecond);
    if n > 0 {
        let v = t.millisecond->Some_0 as int;
        lemma_dec3(v as nat); lemma_ms3(v);
        assert(f[0] == 0x2e);
        assert forall|i: int| 1 <= i <= n implies #[trigger] f[i] == dec_pad(v as nat, 3)[i - 1] by {}
        assert forall|j: int| 15 <= j < 15 + n implies dig(c, j) by { assert(c[j] == f[j - 14]); }
        assert(!dig(c, 15 + n)) by { assert(15 + n == c.len() - 1); }
        lemma_ndig(c, 15, n);
        assert(c[15] == f[1]);
        if n >= 2 { assert(c[16] == f[2]); }
        if n >= 3 { assert(c[17] == f[3]); }
        assert(ms_of(c, 15, n) == v);
        assert(tz_of(c, 15 + n) == Some(ASN1TimeZone::Z));
    } else { assert(tz_of(c, 14) == Some(ASN1TimeZone::Z)); }
    assert(frac_tz(c, 14) == Some((t.millisecond, ASN1TimeZone::Z)));
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] c[i] != 0x2c by {
        if i < 4 { assert(i == 0 || i == 1 || i == 2 || i == 3); }
        else if i < 14 { assert(i == 4 || i == 5 || i == 6 || i == 7 || i == 8 || i == 9 || i == 10 || i == 11 || i == 12 || i == 13); }
        else if i < c.len() - 1 { assert(c[i] == f[i - 14]); assert(i == 14 || i == 15 || i == 16 || i == 17); }
    }
}
/// the text is the one X.690 11.7 / 11.8 prescribe: seconds, no trailing zero in the fraction, Z
pub open spec fn utc_canon(c: Seq<u8>) -> bool { c.len() == 13 }
pub open spec fn gen_canon(c: Seq<u8>) -> bool { c.len() == 15 || (17 <= c.len() && c[14] == 0x2e && c[c.len() - 2] != 0x30) }
pub proof fn lemma_v2(c: Seq<u8>, i: int)
    requires dd(c, i)
    ensures 0 <= v2(c, i) <= 99, dg(v2(c, i) / 10) == c[i], dg(v2(c, i)) == c[i + 1]
{ reveal(dg); }
pub proof fn lemma_y4(c: Seq<u8>)
    requires dd(c, 0), dd(c, 2)
    ensures ({ let y = v2(c, 0) * 100 + v2(c, 2); 0 <= y <= 9999 && dg(y / 1000) == c[0] && dg(y / 100) == c[1] && dg(y / 10) == c[2] && dg(y) == c[3] })
{ reveal(dg); }
pub proof fn lemma_ms_canon(c: Seq<u8>, n: int)
    requires 1 <= n <= 3, forall|j: int| 15 <= j < 15 + n ==> dig(c, j), c[14 + n] != 0x30
    ensures ({ let v = ms_of(c, 15, n); 1 <= v <= 999 && fd(Some(v as u16)) == n && dg(v / 100) == c[15] && (n >= 2 ==> dg(v / 10) == c[16]) && (n >= 3 ==> dg(v) == c[17]) })
{ reveal(dg); assert(dig(c, 15)); if n >= 2 { assert(dig(c, 16)); } if n >= 3 { assert(dig(c, 17)); } }
pub proof fn lemma_utc_canon(c: Seq<u8>)
    requires utc_canon(c), utc_of(c) is Some
    ensures utc_enc(utc_of(c)->Some_0) == c
{
    let t = utc_of(c)->Some_0; let w = utc_enc(t);
    lemma_utc_enc(t); lemma_mdhms(t); let m = mdhms_enc(t);
    lemma_v2(c, 0); lemma_v2(c, 2); lemma_v2(c, 4); lemma_v2(c, 6); lemma_v2(c, 8); lemma_v2(c, 10);
    assert forall|i: int| 2 <= i < 12 implies #[trigger] w[i] == m[i - 2] by { assert(w.subrange(2, 12)[i - 2] == w[i]); }
    assert(w =~= c);
}
pub proof fn lemma_gen_canon(c: Seq<u8>)
    requires gen_canon(c), der_gen_of(c) is Some
    ensures gen_enc(gen_of(c)->Some_0) == c
{
    let t = gen_of(c)->Some_0; let w = gen_enc(t);
    lemma_v2(c, 0); lemma_v2(c, 2); lemma_v2(c, 4); lemma_v2(c, 6); lemma_v2(c, 8); lemma_v2(c, 10); lemma_v2(c, 12);
    lemma_gen_enc(t); lemma_mdhms(t); let m = mdhms_enc(t); let f = frac_enc(t.millisecond); lemma_frac(t.millisecond);
    let y = t.year as int;
    lemma_y4(c);
    assert forall|i: int| 0 <= i < 4 implies #[trigger] w[i] == w.subrange(0, 4)[i] by {}
    assert forall|i: int| 4 <= i < 14 implies #[trigger] w[i] == m[i - 4] by { assert(w.subrange(4, 14)[i - 4] == w[i]); }
    assert forall|i: int| 14 <= i < w.len() - 1 implies #[trigger] w[i] == f[i - 14] by { assert(w.subrange(14, w.len() - 1)[i - 14] == w[i]); }
    if c.len() > 15 {
        let n = ndig(c, 15); lemma_ndig_at(c, 15);
        assert(15 + n == c.len() - 1) by {
            if 15 + n == c.len() { assert(dig(c, 14 + n)); }
            else if 15 + n < c.len() - 1 { assert(tz_of(c, 15 + n) is Some); assert(dd(c, 15 + n + 3)); assert(dig(c, 15 + n + 4)); assert(c.len() == 15 + n + 5); assert(c.last() == c[15 + n + 4]); }
        }
        lemma_ms_canon(c, n);
        let v = ms_of(c, 15, n);
        assert(t.millisecond == Some(v as u16));
        lemma_dec3(v as nat);
        assert forall|i: int| 1 <= i <= n implies #[trigger] f[i] == c[14 + i] by { assert(i == 1 || i == 2 || i == 3); }
    }
    assert(w =~= c);
}
pub open spec fn utc_val(t: ASN1DateTime) -> bool { t_ok(t) && t.year < 100 && t.millisecond is None }
pub open spec fn gen_val(t: ASN1DateTime) -> bool { t_ok(t) && t.year <= 9999 && gms(t.millisecond) }
//@repeat $T,$p : UtcTime,utc ; GeneralizedTime,gen
impl<'i> RtBer<'i> for $T {
    open spec fn ber_rt_ok(&self) -> bool { $p_val(self.0) }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) { lemma_$p_rt(self.0); }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for $T {
    open spec fn der_rt_ok(&self) -> bool { $p_val(self.0) }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) { lemma_$p_rt(self.0); }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> DerBer<'i> for $T {
    open spec fn conv(d: ASN1DateTime) -> ASN1DateTime { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {}
    proof fn lemma_db(h: HV, c: Seq<u8>) {}
}
impl<'i> Canon<'i> for $T {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { $p_canon(c) }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) { lemma_$p_canon(c); }
}
//@endrepeat
// ------------------------------------------------------------------ instants (the `time` crate is trusted: its constructors check ranges and keep what they are given)
pub open spec fn leap(y: int) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
pub open spec fn month_days(y: int, m: int) -> int { if m == 2 { if leap(y) { 29 } else { 28 } } else if m == 4 || m == 6 || m == 9 || m == 11 { 30 } else { 31 } }
/// the calendar has such a day (range of years of the `time` crate without its feature large-dates)
pub open spec fn cal(y: int, m: int, d: int) -> bool { -9999 <= y <= 9999 && 1 <= m <= 12 && 1 <= d <= month_days(y, m) }
/// seconds of a local time differential; the sign of the hours rules the minutes
pub open spec fn off_secs(h: int, m: int) -> int { if h == 0 { m * 60 } else if (h < 0) == (m < 0) || m == 0 { h * 3600 + m * 60 } else { h * 3600 - m * 60 } }
pub open spec fn off_ok(h: int, m: int) -> bool { -25 <= h <= 25 && -59 <= m <= 59 }
pub struct DateV { pub y: int, pub m: int, pub d: int }
pub struct TimeV { pub h: int, pub mi: int, pub s: int, pub ms: int }
pub mod time {
    use super::*;
    pub mod error { pub struct ComponentRange { pub x: u8 } }
    #[derive(Copy, Clone)]
    pub struct Month { pub m: u8 }
    impl Month {
        #[verifier::external_body]
        pub fn try_from(m: u8) -> (r: core::result::Result<Month, error::ComponentRange>) ensures (r is Ok) == (1 <= m <= 12), r matches Ok(x) ==> x.m == m { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Date { x: u8 }
    impl Date {
        pub uninterp spec fn v(&self) -> DateV;
        #[verifier::external_body]
        pub fn from_calendar_date(y: i32, m: Month, d: u8) -> (r: core::result::Result<Date, error::ComponentRange>)
            ensures (r is Ok) == cal(y as int, m.m as int, d as int), r matches Ok(x) ==> x.v() == (DateV { y: y as int, m: m.m as int, d: d as int })
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Time { x: u8 }
    impl Time {
        pub uninterp spec fn v(&self) -> TimeV;
        #[verifier::external_body]
        pub fn from_hms_milli(h: u8, mi: u8, s: u8, ms: u16) -> (r: core::result::Result<Time, error::ComponentRange>)
            ensures (r is Ok) == (h <= 23 && mi <= 59 && s <= 59 && ms <= 999), r matches Ok(x) ==> x.v() == (TimeV { h: h as int, mi: mi as int, s: s as int, ms: ms as int })
        { unimplemented!() }
    }
    #[verifier::external_body]
    #[derive(Copy, Clone)]
    pub struct UtcOffset { x: u8 }
    impl UtcOffset {
        pub uninterp spec fn secs(&self) -> int;
        #[verifier::external_body]
        pub fn verif_utc() -> (r: UtcOffset) ensures r.secs() == 0 { unimplemented!() }
        #[verifier::external_body]
        pub fn from_hms(h: i8, m: i8, s: i8) -> (r: core::result::Result<UtcOffset, error::ComponentRange>)
            requires s == 0
            ensures (r is Ok) == off_ok(h as int, m as int), r matches Ok(x) ==> x.secs() == off_secs(h as int, m as int)
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct PrimitiveDateTime { x: u8 }
    impl PrimitiveDateTime {
        pub uninterp spec fn date(&self) -> DateV;
        pub uninterp spec fn time(&self) -> TimeV;
        #[verifier::external_body]
        pub fn new(d: Date, t: Time) -> (r: PrimitiveDateTime) ensures r.date() == d.v(), r.time() == t.v() { unimplemented!() }
        #[verifier::external_body]
        pub fn assume_offset(self, o: UtcOffset) -> (r: OffsetDateTime) ensures r.local_date() == self.date(), r.local_time() == self.time(), r.off() == o.secs() { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct OffsetDateTime { x: u8 }
    impl OffsetDateTime {
        /// date, time of day and offset (seconds) of local time
        pub uninterp spec fn local_date(&self) -> DateV;
        pub uninterp spec fn local_time(&self) -> TimeV;
        pub uninterp spec fn off(&self) -> int;
        #[verifier::external_body]
        pub fn year(&self) -> (r: i32) ensures r == self.local_date().y, -9999 <= r <= 9999 { unimplemented!() }
        #[verifier::external_body]
        pub fn month(&self) -> (r: Month) ensures r.m == self.local_date().m { unimplemented!() }
        #[verifier::external_body]
        pub fn day(&self) -> (r: u8) ensures r == self.local_date().d { unimplemented!() }
        #[verifier::external_body]
        pub fn replace_date(self, d: Date) -> (r: OffsetDateTime) ensures r.local_date() == d.v(), r.local_time() == self.local_time(), r.off() == self.off() { unimplemented!() }
        #[verifier::external_body]
        pub fn unix_timestamp(self) -> (r: i64) ensures r == unix(self.local_date(), self.local_time(), self.off()) { unimplemented!() }
    }
}
pub use time::{Date, Month, PrimitiveDateTime, Time, UtcOffset, OffsetDateTime};
/// seconds since 1970-01-01T00:00:00Z
pub uninterp spec fn unix(d: DateV, t: TimeV, off: int) -> int;
/// the instant the fields denote (fields in local time and the offset); None when there is no such day, time or offset
pub open spec fn inst(t: ASN1DateTime) -> Option<(DateV, TimeV, int)> {
    let ms = match t.millisecond { None => 0int, Some(v) => v as int };
    if !cal(t.year as int, t.month as int, t.day as int) || t.hour > 23 || t.minute > 59 || t.second > 59 || ms > 999 { None }
    else { match t.tz {
        ASN1TimeZone::Offset(h, m) => if off_ok(h as int, m as int) { Some((DateV { y: t.year as int, m: t.month as int, d: t.day as int }, TimeV { h: t.hour as int, mi: t.minute as int, s: t.second as int, ms }, off_secs(h as int, m as int))) } else { None },
        _ => Some((DateV { y: t.year as int, m: t.month as int, d: t.day as int }, TimeV { h: t.hour as int, mi: t.minute as int, s: t.second as int, ms }, 0)),
    } }
}
pub open spec fn dt_is(r: OffsetDateTime, t: ASN1DateTime) -> bool { inst(t) matches Some((d, tm, o)) && r.local_date() == d && r.local_time() == tm && r.off() == o }
/// two-digit years: 50..=99 are 1950..=1999, 0..=49 are 2000..=2049
pub open spec fn adj(y: int) -> int { if y >= 50 { y + 1900 } else { y + 2000 } }
impl ASN1DateTime {
//@fn src/datetime.rs | ASN1DateTime | to_time_datetime | key=P13
//@ret r
//@subst (?#opt)\bUtcOffset::UTC\b ==> UtcOffset::verif_utc()
//@contract
    ensures self.year <= 0x7fff_ffff ==> match r { Ok(v) => dt_is(v, *self), Err(_) => inst(*self) is None }
//@endfn
//@fn src/datetime.rs | ASN1DateTime | to_datetime | key=P13
//@ret r
//@contract
    ensures self.year <= 0x7fff_ffff ==> match r { Ok(v) => dt_is(v, *self), Err(_) => inst(*self) is None }
//@endfn
}
pub assume_specification<T, E, U, F: FnOnce(T) -> core::result::Result<U, E>> [core::result::Result::<T, E>::and_then] (r: core::result::Result<T, E>, f: F) -> (o: core::result::Result<U, E>)
    requires r matches Ok(t) ==> f.requires((t,))
    ensures match r { Ok(t) => f.ensures((t,), o), Err(e) => o == Err::<U, E>(e) };
impl UtcTime {
//@fn src/asn1_types/utctime.rs | UtcTime | utc_datetime | key=P13
//@ret r
//@contract
    ensures self.0.year <= 0x7fff_ffff ==> match r { Ok(v) => dt_is(v, self.0), Err(_) => inst(self.0) is None }
//@endfn
//@fn src/asn1_types/utctime.rs | UtcTime | utc_adjusted_datetime | key=P13
//@ret r
//@nclosures 3
//@closure 0 |__c0: OffsetDateTime| -> (q: Result<OffsetDateTime>) ensures ({ let d = __c0.local_date(); match q { Ok(v) => cal(adj(d.y), d.m, d.d) && v.local_date() == (DateV { y: adj(d.y), m: d.m, d: d.d }) && v.local_time() == __c0.local_time() && v.off() == __c0.off(), Err(_) => !cal(adj(d.y), d.m, d.d) } })
//@closure 1 |__c0: Date| -> (q: OffsetDateTime) ensures q.local_date() == __c0.v(), q.local_time() == dt.local_time(), q.off() == dt.off()
//@contract
    ensures self.0.year <= 99 ==> match r {
        Ok(v) => inst(self.0) matches Some((d, tm, o)) && v.local_date() == (DateV { y: adj(d.y), m: d.m, d: d.d }) && v.local_time() == tm && v.off() == o,
        Err(_) => inst(self.0) is None }
//@endfn
//@fn src/asn1_types/utctime.rs | UtcTime | timestamp | key=P13
//@ret r
//@contract
    ensures self.0.year <= 99 ==> match r {
        Ok(v) => inst(self.0) matches Some((d, tm, o)) && v == unix(DateV { y: adj(d.y), m: d.m, d: d.d }, tm, o),
        Err(_) => inst(self.0) is None }
//@endfn
}
impl GeneralizedTime {
//@fn src/asn1_types/generalizedtime.rs | GeneralizedTime | utc_datetime | key=P13
//@ret r
//@contract
    ensures self.0.year <= 0x7fff_ffff ==> match r { Ok(v) => dt_is(v, self.0), Err(_) => inst(self.0) is None }
//@endfn
}
}
