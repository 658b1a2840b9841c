use vstd::std_specs::cmp::*;
use vstd::std_specs::bits::u64_leading_zeros;
verus! {
// ------------------------------------------------------------------ object identifiers (X.690 8.19, 8.20)
/// value of base-128 octets, most significant first
pub open spec fn bval(s: Seq<u8>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { bval(s.drop_last()) * 128 + s.last() % 128 }
}
/// value of the octets k..m of c
#[verifier::opaque]
pub open spec fn bsub(c: Seq<u8>, k: int, m: int) -> int { bval(c.subrange(k, m)) }
/// end of the sub-identifier that starts at k
pub open spec fn sub_end(c: Seq<u8>, k: int) -> int
    decreases c.len() - k
{
    if k >= c.len() { c.len() as int } else if c[k] < 128 { k + 1 } else { sub_end(c, k + 1) }
}
/// sub-identifiers from position k on
pub open spec fn ids(c: Seq<u8>, k: int) -> Seq<int>
    decreases c.len() - k via ids_dec
{
    if k < 0 || k >= c.len() { Seq::empty() } else { seq![bsub(c, k, sub_end(c, k))] + ids(c, sub_end(c, k)) }
}
#[via_fn]
proof fn ids_dec(c: Seq<u8>, k: int) { if 0 <= k < c.len() { lemma_sub_end(c, k); } }
pub proof fn lemma_sub_end(c: Seq<u8>, k: int)
    requires 0 <= k < c.len()
    ensures k < sub_end(c, k) <= c.len(), forall|j: int| k <= j < sub_end(c, k) - 1 ==> c[j] >= 128, sub_end(c, k) == c.len() || c[sub_end(c, k) - 1] < 128
    decreases c.len() - k
{
    if c[k] >= 128 && k + 1 < c.len() { lemma_sub_end(c, k + 1); }
    if c[k] >= 128 && k + 1 >= c.len() { assert(sub_end(c, k + 1) == c.len()); }
}
/// octets k..m all have the continuation bit
pub proof fn lemma_sub_skip(c: Seq<u8>, k: int, m: int)
    requires 0 <= k <= m <= c.len(), forall|j: int| k <= j < m ==> c[j] >= 128
    ensures sub_end(c, k) == sub_end(c, m)
    decreases m - k
{
    if k < m { lemma_sub_skip(c, k + 1, m); }
}
pub proof fn lemma_end(c: Seq<u8>) ensures sub_end(c, c.len() as int) == c.len() {}
/// the arcs of the two first components (X.690 8.19.4)
pub open spec fn split1(v: int) -> Seq<int> { if v < 40 { seq![0int, v] } else if v < 80 { seq![1int, v - 40] } else { seq![2int, v - 80] } }
pub open spec fn arcs(rel: bool, c: Seq<u8>) -> Seq<int> {
    let s = ids(c, 0);
    if rel || s.len() == 0 { s } else { split1(s[0]) + s.skip(1) }
}
pub open spec fn fit(c: Seq<u8>, k: int) -> bool
    decreases c.len() - k via fit_dec
{
    if k < 0 || k >= c.len() { true } else { bsub(c, k, sub_end(c, k)) <= u64::MAX && fit(c, sub_end(c, k)) }
}
#[via_fn]
proof fn fit_dec(c: Seq<u8>, k: int) { if 0 <= k < c.len() { lemma_sub_end(c, k); } }
pub proof fn lemma_bval_push(c: Seq<u8>, k: int, m: int)
    requires 0 <= k <= m < c.len()
    ensures bsub(c, k, m + 1) == bsub(c, k, m) * 128 + c[m] % 128
{
    reveal(bsub);
    assert(c.subrange(k, m + 1).drop_last() =~= c.subrange(k, m));
}
pub proof fn lemma_bsub0(c: Seq<u8>, k: int)
    requires 0 <= k <= c.len()
    ensures bsub(c, k, k) == 0
{
    reveal(bsub);
    assert(c.subrange(k, k) =~= Seq::<u8>::empty());
}
pub proof fn lemma_bval_mono(c: Seq<u8>, k: int, m: int, e: int)
    requires 0 <= k <= m <= e <= c.len()
    ensures 0 <= bsub(c, k, m) <= bsub(c, k, e)
    decreases e
{
    if m < e { lemma_bval_mono(c, k, m, e - 1); lemma_bval_push(c, k, e - 1); }
    else if k == e { lemma_bsub0(c, k); }
    else if k < e { lemma_bval_mono(c, k, e - 1, e - 1); lemma_bval_push(c, k, e - 1); }
}
/// one octet of a sub-identifier that starts at p
pub proof fn lemma_oct(c: Seq<u8>, p: int, i: int)
    requires 0 <= p <= i < c.len(), forall|j: int| p <= j < i ==> c[j] >= 128
    ensures
        bsub(c, p, i + 1) == bsub(c, p, i) * 128 + c[i] % 128, bsub(c, p, i) >= 0,
        c[i] < 128 ==> sub_end(c, p) == i + 1,
        bsub(c, p, i + 1) <= bsub(c, p, sub_end(c, p)),
        fit(c, p) ==> bsub(c, p, i + 1) <= u64::MAX,
{
    lemma_bval_push(c, p, i);
    lemma_sub_skip(c, p, i);
    lemma_sub_end(c, p);
    lemma_sub_end(c, i);
    lemma_bval_mono(c, p, i, i + 1);
    lemma_bval_mono(c, p, i + 1, sub_end(c, p));
}
/// the first sub-identifier and the rest
pub proof fn lemma_ids(c: Seq<u8>, p: int)
    requires 0 <= p <= c.len()
    ensures
        p == c.len() ==> ids(c, p).len() == 0 && fit(c, p),
        p < c.len() ==> ({
            let e = sub_end(c, p); let v = bsub(c, p, e); let sp = split1(v);
            &&& p < e <= c.len() && ids(c, p) == seq![v] + ids(c, e) && ids(c, p)[0] == v && ids(c, p).skip(1) == ids(c, e)
            &&& fit(c, p) == (v <= u64::MAX && fit(c, e))
            &&& (sp + ids(c, e))[0] == sp[0] && (sp + ids(c, e)).skip(1) == seq![sp[1]] + ids(c, e)
        }),
        bsub(c, p, p) == 0,
{
    lemma_bsub0(c, p);
    if p < c.len() {
        lemma_sub_end(c, p);
        let e = sub_end(c, p);
        let v = bsub(c, p, e);
        let sp = split1(v);
        assert(ids(c, p).skip(1) =~= ids(c, e));
        assert((sp + ids(c, e)).skip(1) =~= seq![sp[1]] + ids(c, e));
    }
}
pub proof fn lemma_oid_bits()
    ensures
        forall|v: u64, d: u64| #![trigger ((v << 7u64) | d)] v <= (u64::MAX >> 7u64) && d < 128 ==> ((v << 7u64) | d) == v * 128 + d,
        forall|v: u64| #![trigger (v << 7usize)] v <= (u64::MAX >> 7u64) ==> (v << 7usize) == v * 128,
        (u64::MAX >> 7u64) == 0x1ff_ffff_ffff_ffff, (u64::MAX >> 7) == 0x1ff_ffff_ffff_ffff,
        forall|o: u8| #![trigger (o & 0x7fu8)] (o & 0x7fu8) == o % 128 && (o & 0x7fu8) < 128,
        forall|o: u8| #![trigger (o >> 7u8)] ((o >> 7u8) == 0) == (o < 128),
        forall|o: u8| #![trigger (o >> 7i32)] ((o >> 7i32) == 0) == (o < 128),
{
    assert(forall|v: u64, d: u64| #![trigger ((v << 7u64) | d)] v <= 0x1ff_ffff_ffff_ffff && d < 128 ==> ((v << 7u64) | d) == v * 128 + d) by(bit_vector);
    assert(forall|v: u64| #![trigger (v << 7usize)] v <= 0x1ff_ffff_ffff_ffff ==> (v << 7usize) == v * 128) by(bit_vector);
    assert((u64::MAX >> 7u64) == 0x1ff_ffff_ffff_ffff) by(bit_vector);
    assert((u64::MAX >> 7) == 0x1ff_ffff_ffff_ffff) by(bit_vector);
    assert(forall|o: u8| #![trigger (o & 0x7fu8)] (o & 0x7fu8) == o % 128 && (o & 0x7fu8) < 128) by(bit_vector);
    assert(forall|o: u8| #![trigger (o >> 7u8)] ((o >> 7u8) == 0) == (o < 128)) by(bit_vector);
    assert(forall|o: u8| #![trigger (o >> 7i32)] ((o >> 7i32) == 0) == (o < 128)) by(bit_vector);
}
/// `Cow::from(v)` of a vector
#[verifier::external_body]
pub fn verif_cow_from<'a>(v: Vec<u8>) -> (r: Cow<'a, [u8]>) ensures cow_seq(r) == v@ { unimplemented!() }
/// `<[u8]>::starts_with`
#[verifier::external_body]
pub fn verif_starts_with(s: &[u8], p: &[u8]) -> (r: bool) ensures r == (p@.len() <= s@.len() && s@.subrange(0, p@.len() as int) == p@) { unimplemented!() }
/// num_bigint::BigUint: unsigned integers without limit (trusted: the operators are those of the mathematical integers)
#[verifier::external_body]
pub struct BigUint { x: u8 }
pub uninterp spec fn bv(b: BigUint) -> int;
pub uninterp spec fn bn(v: int) -> BigUint;
pub broadcast axiom fn axiom_bn(v: int) requires v >= 0 ensures bv(#[trigger] bn(v)) == v;
pub broadcast axiom fn axiom_bn_pos(b: BigUint) ensures #[trigger] bv(b) >= 0;
impl ShlSpecImpl<usize> for BigUint {
    open spec fn obeys_shl_spec() -> bool { true }
    open spec fn shl_req(self, k: usize) -> bool { true }
    open spec fn shl_spec(self, k: usize) -> BigUint { bn(bv(self) * pow2(k as nat)) }
}
impl core::ops::Shl<usize> for BigUint { type Output = BigUint;
    #[verifier::external_body]
    fn shl(self, k: usize) -> BigUint { unimplemented!() }
}
impl AddSpecImpl<BigUint> for BigUint {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, k: BigUint) -> bool { true }
    open spec fn add_spec(self, k: BigUint) -> BigUint { bn(bv(self) + bv(k)) }
}
impl core::ops::Add for BigUint { type Output = BigUint;
    #[verifier::external_body]
    fn add(self, k: BigUint) -> BigUint { unimplemented!() }
}
impl SubSpecImpl<BigUint> for BigUint {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, k: BigUint) -> bool { bv(self) >= bv(k) }
    open spec fn sub_spec(self, k: BigUint) -> BigUint { bn(bv(self) - bv(k)) }
}
impl core::ops::Sub for BigUint { type Output = BigUint;
    #[verifier::external_body]
    fn sub(self, k: BigUint) -> BigUint { unimplemented!() }
}
impl PartialEqSpecImpl for BigUint {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &BigUint) -> bool { bv(*self) == bv(*o) }
}
impl PartialEq for BigUint {
    #[verifier::external_body]
    fn eq(&self, k: &BigUint) -> bool { unimplemented!() }
}
impl PartialOrdSpecImpl for BigUint {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &BigUint) -> Option<core::cmp::Ordering> {
        if bv(*self) < bv(*o) { Some(core::cmp::Ordering::Less) } else if bv(*self) == bv(*o) { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) }
    }
}
impl PartialOrd for BigUint {
    #[verifier::external_body]
    fn partial_cmp(&self, k: &BigUint) -> Option<core::cmp::Ordering> { unimplemented!() }
}
pub open spec fn nv(x: u64) -> int { x as int }
pub open spec fn fit_any(c: Seq<u8>, k: int) -> bool { true }
/// `BigUint::from(u8)`
#[verifier::external_body]
pub fn verif_bn(x: u8) -> (r: BigUint) ensures bv(r) == x { unimplemented!() }
/// `N::from(u8)` at N = u64
pub fn verif_n(x: u8) -> (r: u64) ensures r == x { x as u64 }
/// `c[from..]`
pub fn verif_from<'b, 'a>(c: &'b Cow<'a, [u8]>, from: usize) -> (r: &'b [u8])
    requires from <= cow_seq(*c).len()
    ensures r@.len() == cow_seq(*c).len() - from, forall|j: int| 0 <= j < r@.len() ==> r@[j] == cow_seq(*c)[from + j]
{ vstd::slice::slice_subrange(verif_cow_ref(c), from, verif_cow_ref(c).len()) }
/// `s.iter().filter(f).count()` (a slice has at most isize::MAX elements)
pub open spec fn cnt(s: Seq<u8>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { cnt(s, n - 1) + (if s[n - 1] < 128 { 1int } else { 0 }) } }
#[verifier::external_body]
pub fn verif_filter_count<F: Fn(&u8) -> bool>(s: &[u8], f: F) -> (r: usize)
    requires forall|i: int| 0 <= i < s@.len() ==> #[trigger] f.requires((&s@[i],)), forall|x: &u8, b: bool| #[trigger] f.ensures((x,), b) ==> b == (*x < 128)
    ensures r == cnt(s@, s@.len() as int), r <= s@.len(), r <= isize::MAX
{ s.iter().filter(|x| f(x)).count() }
/// `o.map_or(d, f)`
pub fn verif_map_or<F: Fn(&u8) -> bool>(o: Option<&u8>, d: bool, f: F) -> (r: bool)
    requires o is Some ==> f.requires((o->Some_0,))
    ensures match o { None => r == d, Some(x) => f.ensures((x,), r) }
{ match o { None => d, Some(x) => f(x) } }
/// number of octets below 128 in c[k..]
pub open spec fn cntf(c: Seq<u8>, k: int) -> int
    decreases c.len() - k
{ if k >= c.len() { 0 } else { cntf(c, k + 1) + (if c[k] < 128 { 1int } else { 0 }) } }
pub proof fn lemma_cnt(c: Seq<u8>, k: int, s: Seq<u8>, n: int)
    requires 0 <= k <= c.len(), s.len() == c.len() - k, forall|j: int| 0 <= j < s.len() ==> s[j] == c[k + j], 0 <= n <= s.len()
    ensures cnt(s, s.len() as int) == cnt(s, n) + cntf(c, k + n)
    decreases s.len() - n
{
    if n < s.len() { lemma_cnt(c, k, s, n + 1); }
}
pub proof fn lemma_cntf_skip(c: Seq<u8>, k: int, m: int)
    requires 0 <= k <= m <= c.len(), forall|j: int| k <= j < m ==> c[j] >= 128
    ensures cntf(c, k) == cntf(c, m)
    decreases m - k
{ if k < m { lemma_cntf_skip(c, k + 1, m); } }
/// number of sub-identifiers: one for each final octet, and one more if the last is not terminated
pub proof fn lemma_count(c: Seq<u8>, k: int)
    requires 0 <= k <= c.len()
    ensures
        ids(c, k).len() == cntf(c, k) + (if k < c.len() && c.last() >= 128 { 1int } else { 0 }),
        forall|s: Seq<u8>| #![trigger cnt(s, s.len() as int)] s.len() == c.len() - k && (forall|j: int| 0 <= j < s.len() ==> s[j] == c[k + j]) ==> cnt(s, s.len() as int) == cntf(c, k),
    decreases c.len() - k
{
    if k < c.len() {
        lemma_sub_end(c, k);
        let e = sub_end(c, k);
        lemma_count(c, e);
        lemma_cntf_skip(c, k, e - 1);
        assert(cntf(c, e - 1) == cntf(c, e) + (if c[e - 1] < 128 { 1int } else { 0 }));
        if e < c.len() { assert(c[e - 1] < 128); } else { assert(c.last() == c[e - 1]); }
    }
    assert forall|s: Seq<u8>| #![trigger cnt(s, s.len() as int)] s.len() == c.len() - k && (forall|j: int| 0 <= j < s.len() ==> s[j] == c[k + j]) implies cnt(s, s.len() as int) == cntf(c, k) by {
        lemma_cnt(c, k, s, 0);
    }
}
/// `c.as_ref() == [x]`
pub fn verif_is1<'a>(c: &Cow<'a, [u8]>, x: u8) -> (r: bool) ensures r == (cow_seq(*c) == seq![x])
{
    let s = verif_cow_ref(c);
    proof { assert(s@.len() == 1 && s@[0] == x ==> s@ =~= seq![x]); }
    s.len() == 1 && s[0] == x
}
impl<'a> VerifSlice for Cow<'a, [u8]> { open spec fn vs(&self) -> Seq<u8> { cow_seq(*self) } }
//@item src/asn1_types/oid.rs | enum OidParseError
impl From<Error> for Err<Error> {
    #[verifier::external_body]
    fn from(e: Error) -> Self { unimplemented!() }
}
/// decoding of a content: (relative?, octets)
pub open spec fn oid_dec(h: HV, c: Seq<u8>) -> Option<(bool, Seq<u8>)> {
    if h.cons || c.len() == 0 { None } else { Some((h.class == Class::Universal && h.tag == Tag(13), c)) }
}
impl<'i> BerContent<'i> for Oid<'i> {
    type Error = BerError<Input<'i>>;
    type V = (bool, Seq<u8>);
    open spec fn sp_val(&self) -> (bool, Seq<u8>) { (self.relative, cow_seq(self.asn1)) }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<(bool, Seq<u8>)> { oid_dec(h, c) }
//@fn src/asn1_types/oid.rs | BerParser<'i> for Oid<'i> | from_ber_content | key=P11+P08
//@ret res
//@contract
//@endfn
}
impl<'i> DerContent<'i> for Oid<'i> {
    type Error = BerError<Input<'i>>;
    type DV = (bool, Seq<u8>);
    open spec fn sp_dval(&self) -> (bool, Seq<u8>) { (self.relative, cow_seq(self.asn1)) }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<(bool, Seq<u8>)> { oid_dec(h, c) }
//@fn src/asn1_types/oid.rs | DerParser<'i> for Oid<'i> | from_der_content | key=P11+P08
//@ret res
//@subst Self::from_ber_content\( ==> <Self as BerContent>::from_ber_content(
//@contract
//@endfn
}
impl<'a> CheckDerConstraints for Oid<'a> {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { !h.cons && h.len is Definite }
//@fn src/asn1_types/oid.rs | CheckDerConstraints for Oid<'_> | check_constraints | key=P09
//@ret res
//@contract
//@endfn
}
/// X.690 8.19.2: each sub-identifier in the fewest octets
pub open spec fn ids_enc(s: Seq<int>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { ids_enc(s.drop_last()) + b128(s.last()) }
}
pub proof fn lemma_ids_enc_cat(a: Seq<int>, b: Seq<int>)
    ensures ids_enc(a + b) == ids_enc(a) + ids_enc(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(ids_enc(a) + ids_enc(b) =~= ids_enc(a)); }
    else {
        lemma_ids_enc_cat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(ids_enc(a + b) =~= ids_enc(a) + ids_enc(b));
    }
}
pub proof fn lemma_ids_enc_one(v: int)
    ensures ids_enc(seq![v]) == b128(v)
{
    reveal_with_fuel(ids_enc, 2);
    assert(seq![v].drop_last() =~= Seq::<int>::empty());
    assert(ids_enc(seq![v]) =~= b128(v));
}
pub open spec fn u64s(s: Seq<u64>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }
pub open spec fn arcs_ids(s: Seq<int>) -> Seq<int> { seq![s[0] * 40 + s[1]] + s.skip(2) }
pub open spec fn arcs_ok(s: Seq<int>) -> bool { s.len() >= 2 && 0 <= s[0] <= 2 && 0 <= s[1] && (s[0] < 2 ==> s[1] < 40) }
/// i.leading_zeros(), `a.max(b)`
pub trait VMax: Sized { fn verif_max(self, o: Self) -> Self; }
impl VMax for u32 {
    fn verif_max(self, o: u32) -> (r: u32) ensures r == (if self >= o { self } else { o }) { if self >= o { self } else { o } }
}
/// a.chain(b).collect()
pub fn verif_chain(a: Vec<u8>, b: Vec<u8>) -> (r: Vec<u8>) ensures r@ == a@ + b@
{ let mut r = a; let mut b = b; r.append(&mut b); r }
/// octets still to come of a value v cut into n groups of seven bits, i of them written
pub open spec fn grp(v: u64, k: int) -> int { if k >= 10 { 0 } else { (v >> ((7 * k) as u32)) as int } }
pub proof fn lemma_grp(v: u64, k: int)
    requires 0 <= k <= 9
    ensures grp(v, k + 1) == grp(v, k) / 128, grp(v, 0) == v
{
    let s = (7 * k) as u32;
    assert(v >> 0u32 == v) by(bit_vector);
    if k < 9 {
        assert(s <= 56 ==> v >> ((s + 7) as u32) == (v >> s) >> 7u32) by(bit_vector);
        let w = v >> s;
        assert(w >> 7u32 == w / 128) by(bit_vector);
        assert((7 * (k + 1)) as u32 == (s + 7) as u32);
    } else {
        assert(v >> 63u32 < 128) by(bit_vector);
    }
}
pub proof fn lemma_groups(v: u64, n: u32)
    requires ({ let b = (64 - u64_leading_zeros(v) + 6) / 7; n == (if b == 0 { 1int } else { b }) })
    ensures 1 <= n <= 10, grp(v, n as int) == 0, n > 1 ==> grp(v, n - 1) > 0
{
    vstd::std_specs::bits::axiom_u64_leading_zeros(v);
    let lz = u64_leading_zeros(v);
    if v > 0 {
        let b = (63 - lz) as u64;
        let s = (7 * (n - 1)) as u32;
        assert((v >> b) & 1 != 0);
        assert((s as u64) <= b && b < 64 && (v >> b) & 1 != 0 ==> v >> s > 0) by(bit_vector);
        if n < 10 {
            let t = (7 * n) as u32;
            if lz == 0 { assert(false); }
            let u = (64 - lz) as u64;
            assert(u <= (t as u64) && t < 64 && v >> u == 0 ==> v >> t == 0) by(bit_vector);
        }
    } else {
        assert(v >> 7u32 == 0) by(bit_vector) requires v == 0;
    }
}
pub proof fn lemma_grp_pos(v: u64, k: int, n: int)
    requires 0 <= k < n <= 10, grp(v, n - 1) > 0
    ensures grp(v, k) > 0
    decreases n - k
{
    if k < n - 1 { lemma_grp_pos(v, k + 1, n); lemma_grp(v, k); }
}
//@fn src/asn1_types/oid.rs | encode_relative | key=P11
//@sigsub impl Iterator<Item = u8> + '_ ==> Vec<u8>
//@ret r
//@subst (?#opt)\.max\( ==> .verif_max(
//@subst (?#opt)\(id >> ==> (*id >>
//@contract
    ensures r@ == ids_enc(u64s(ids@))
//@nloops 2
//@loop 0
    invariant __k <= ids@.len(), __out@ == ids_enc(u64s(ids@).subrange(0, __k as int))
    decreases ids@.len() - __k
//@ghost loop0.begin
    let ghost out0 = __out@;
    let ghost vals = u64s(ids@);
//@loop 1
    invariant
        1 <= octets_needed <= 10, 0 <= __r <= octets_needed, grp(*id, octets_needed as int) == 0, octets_needed > 1 ==> grp(*id, octets_needed - 1) > 0,
        __r < octets_needed ==> __out@ == out0 + b128_hi(grp(*id, octets_needed - __r)),
        __r == octets_needed ==> __out@ == out0 + b128(*id as int),
    decreases octets_needed - __r
//@ghost loop1.before
    proof {
        lemma_groups(*id, octets_needed);
        assert(out0 + b128_hi(0) =~= out0);
    }
//@ghost loop1.begin
    let ghost o1 = __out@;
    proof {
        let k = octets_needed - 1 - __r;
        lemma_grp(*id, k);
        lemma_grp(*id, 0);
        if octets_needed > 1 { lemma_grp_pos(*id, k, octets_needed as int); }
        assert((1u8 << 7) == 128) by(bit_vector);
        assert(forall|v: u64| #![trigger (v & 0x7fu64)] (v & 0x7fu64) == v % 128) by(bit_vector);
        assert(forall|x: u8| #![trigger (x | 0x80u8)] x < 128 ==> (x | 0x80u8) == x + 128) by(bit_vector);
        assert(forall|x: u8| #![trigger (x | 0u8)] (x | 0u8) == x) by(bit_vector);
    }
//@ghost loop1.end
    proof {
        let x = grp(*id, octets_needed - __r);
        assert(o1 == out0 + b128_hi(x / 128));
        assert(__out@ == o1.push((x % 128 + (if __r < octets_needed { 128int } else { 0 })) as u8));
        if __r < octets_needed { assert(b128_hi(x) == b128_hi(x / 128).push((x % 128 + 128) as u8)); assert(__out@ =~= out0 + b128_hi(x)); }
        else { assert(__out@ =~= out0 + b128(x)); }
    }
//@ghost loop1.after
    proof {
        assert(vals.subrange(0, __k as int).drop_last() =~= vals.subrange(0, __k - 1));
        assert(vals.subrange(0, __k as int).last() == *id);
    }
//@ghost loop0.after
    proof { assert(u64s(ids@).subrange(0, __k as int) =~= u64s(ids@)); }
//@endfn
/// `v.reverse()`
#[verifier::external_body]
pub fn verif_reverse(v: &mut Vec<u8>) ensures final(v)@ == old(v)@.reverse() { unimplemented!() }
//@fn impl/src/lib.rs | encode_base128 | key=P11
//@ret r
//@subst (?#opt)\b(\w+)\.reverse\(\) ==> verif_reverse(&mut \1)
//@contract
    ensures r@ == b128(int_v as int)
//@nloops 1
//@loop 0
    invariant
        b128(int_v as int) == b128_hi(val as int) + base128@.reverse(),
    decreases val
//@ghost entry
    proof {
        assert(forall|v: u128| #![trigger (v & 0x7fu128)] (v & 0x7fu128) == v % 128) by(bit_vector);
        assert(forall|v: u128| #![trigger (v >> 7i32)] (v >> 7i32) == v / 128) by(bit_vector);
        assert(forall|x: u8| #![trigger (x | 0x80u8)] x < 128 ==> (x | 0x80u8) == x + 128) by(bit_vector);
    }
//@ghost loop0.before
    proof { assert(b128(int_v as int) =~= b128_hi(val as int) + base128@.reverse()); }
//@ghost loop0.begin
    let ghost v0 = val as int;
    let ghost b0 = base128@;
    proof {
        assert(forall|v: u128| #![trigger (v & 0x7fu128)] (v & 0x7fu128) == v % 128) by(bit_vector);
        assert(forall|v: u128| #![trigger (v >> 7i32)] (v >> 7i32) == v / 128) by(bit_vector);
        assert(forall|x: u8| #![trigger (x | 0x80u8)] x < 128 ==> (x | 0x80u8) == x + 128) by(bit_vector);
        assert(b128_hi(0) + base128@.reverse() =~= base128@.reverse());
    }
//@ghost loop0.end
    proof {
        assert(b128_hi(v0) == b128_hi(v0 / 128).push((v0 % 128 + 128) as u8));
        assert(base128@.reverse() =~= seq![(v0 % 128 + 128) as u8] + b0.reverse());
        assert(b128_hi(v0) + b0.reverse() =~= b128_hi(val as int) + base128@.reverse());
    }
//@endfn
impl<'a> Oid<'a> {
//@fn src/asn1_types/oid.rs | Oid<'a> | new | key=P11
//@ret r
//@contract
    ensures r.asn1 == asn1, !r.relative
//@endfn
//@fn src/asn1_types/oid.rs | Oid<'a> | new_relative | key=P11
//@ret r
//@contract
    ensures r.asn1 == asn1, r.relative
//@endfn
//@fn src/asn1_types/oid.rs | Oid<'a> | from | key=P11
//@ret r
//@subst (?#opt)Cow::from\( ==> verif_cow_from(
//@subst (?s)(encode_relative\(.*?\))\s*\.chain\(\s*(encode_relative\(.*?\))\s*\)\s*\.collect\(\) ==> verif_chain(\1, \2)
//@contract
    ensures s@ != seq![0u64] ==> match r {
        Ok(o) => arcs_ok(u64s(s@)) && s@[0] * 40 + s@[1] <= u64::MAX && !o.relative && cow_seq(o.asn1) == ids_enc(arcs_ids(u64s(s@))),
        Err(_) => !(arcs_ok(u64s(s@)) && s@[0] * 40 + s@[1] <= u64::MAX),
    }
//@ghost entry
    proof {
        assert(s@.len() == 1 && s@[0] == 0 ==> s@ =~= seq![0u64]);
        broadcast use vstd::array::group_array_axioms;
        if s@.len() >= 2 {
            let a = u64s(s@);
            lemma_ids_enc_cat(seq![a[0] * 40 + a[1]], a.skip(2));
            assert(a.skip(2) =~= u64s(s@.subrange(2, s@.len() as int)));
            assert(forall|x: u64| #![trigger seq![x]] u64s(seq![x]) =~= seq![x as int]);
        }
    }
//@ghost letasn1_encoded#0.before
    proof { assert([first]@ =~= seq![first]); assert(u64s(seq![first]) =~= seq![s@[0] * 40 + s@[1]]); }
//@endfn
//@fn src/asn1_types/oid.rs | Oid<'a> | from_relative | key=P11
//@ret r
//@subst (?#opt)Cow::from\( ==> verif_cow_from(
//@subst (encode_relative\(\w+\))\s*\.collect\(\) ==> \1
//@contract
    ensures match r {
        Ok(o) => s@.len() > 0 && o.relative && cow_seq(o.asn1) == ids_enc(u64s(s@)),
        Err(_) => s@.len() == 0,
    }
//@endfn
//@fn src/asn1_types/oid.rs | Oid<'a> | from_ber_relative | key=P11
//@ret res
//@contract
    ensures match res {
        Ok((rem, v)) => ber_obj(bytes@) matches Some(o) && !o.h.cons && o.h.tag == Tag(13) && v.relative && cow_seq(v.asn1) == obj_content(bytes@, o) && rem@ == bytes@.subrange(o.end, bytes@.len() as int),
        Err(_) => ber_obj(bytes@) is None || ber_obj(bytes@)->Some_0.h.cons || ber_obj(bytes@)->Some_0.h.tag != Tag(13),
    }
//@endfn
//@fn src/asn1_types/oid.rs | Oid<'a> | from_der_relative | key=P11
//@ret res
//@contract
    ensures match res {
        Ok((rem, v)) => der_obj(bytes@) matches Some(o) && !o.h.cons && o.h.tag == Tag(13) && v.relative && cow_seq(v.asn1) == obj_content(bytes@, o) && rem@ == bytes@.subrange(o.end, bytes@.len() as int),
        Err(_) => der_obj(bytes@) is None || der_obj(bytes@)->Some_0.h.cons || der_obj(bytes@)->Some_0.h.tag != Tag(13),
    }
//@endfn
//@fn src/asn1_types/oid.rs | Oid<'a> | as_bytes | key=P11
//@ret r
//@subst self\.asn1\.as_ref\(\) ==> verif_cow_ref(&self.asn1)
//@contract
    ensures r@ == cow_seq(self.asn1)
//@endfn
//@fn src/asn1_types/oid.rs | Oid<'a> | bytes | key=P11
//@ret r
//@contract
    ensures r@ == cow_seq(self.asn1)
//@endfn
//@fn src/asn1_types/oid.rs | Oid<'a> | into_cow | key=P11
//@ret r
//@contract
    ensures r == self.asn1
//@endfn
//@fn src/asn1_types/oid.rs | Oid<'a> | to_owned | key=P11+P20
//@ret r
//@subst Cow::from\( ==> verif_cow_from(
//@contract
    ensures cow_seq(r.asn1) == cow_seq(self.asn1), r.relative == self.relative
//@endfn
//@fn src/asn1_types/oid.rs | Oid<'a> | starts_with | key=P11
//@ret r
//@subst \.len\(\) >= needle\.asn1\.len\(\) ==> .len() >= verif_cow_ref(&needle.asn1).len()
//@subst self\.asn1\.len\(\) ==> verif_cow_ref(&self.asn1).len()
//@subst self\.asn1\.starts_with\( ==> verif_starts_with(verif_cow_ref(&self.asn1), 
//@contract
    ensures r == (cow_seq(needle.asn1).len() <= cow_seq(self.asn1).len() && cow_seq(self.asn1).subrange(0, cow_seq(needle.asn1).len() as int) == cow_seq(needle.asn1))
//@endfn
//@fn src/asn1_types/oid.rs | Oid<'a> | iter_bigint | key=P11
//@sigsub impl FusedIterator<Item = BigUint> + ExactSizeIterator + '_ ==> SubIdentifierIterator<'_, BigUint>
//@ret it
//@contract
    ensures it.wf(), it.oid == self, it.rem() == arcs(self.relative, cow_seq(self.asn1))
//@endfn
//@fn src/asn1_types/oid.rs | Oid<'a> | iter | key=P11
//@sigsub impl FusedIterator<Item = u64> + ExactSizeIterator + '_ ==> SubIdentifierIterator<'_, u64>
//@ret r
//@subst (?#opt)\(o & ==> (*o &
//@subst (?#opt)\bo >> ==> *o >>
//@contract
    ensures match r {
        None => !fit(cow_seq(self.asn1), 0),
        Some(it) => fit(cow_seq(self.asn1), 0) && it.wf() && it.oid == self && it.rem() == arcs(self.relative, cow_seq(self.asn1)),
    }
//@ghost entry
    proof { lemma_oid_bits(); }
    let ghost c = cow_seq(self.asn1);
    let ghost mut k0: int = 0;
    proof { lemma_bsub0(c, 0); }
//@nloops 1
//@loop 0
    invariant
        __b0@ == c, c == cow_seq(self.asn1), 0 <= k0 <= __i0 <= c.len(), value == bsub(c, k0, __i0 as int),
        forall|j: int| k0 <= j < __i0 ==> c[j] >= 128,
        fit(c, 0) == fit(c, k0),
        forall|v: u64, d: u64| #![trigger ((v << 7u64) | d)] v <= (u64::MAX >> 7u64) && d < 128 ==> ((v << 7u64) | d) == v * 128 + d,
        (u64::MAX >> 7u64) == 0x1ff_ffff_ffff_ffff, (u64::MAX >> 7) == 0x1ff_ffff_ffff_ffff,
        forall|o: u8| #![trigger (o & 0x7fu8)] (o & 0x7fu8) == o % 128 && (o & 0x7fu8) < 128,
        forall|o: u8| #![trigger (o >> 7u8)] ((o >> 7u8) == 0) == (o < 128),
        forall|o: u8| #![trigger (o >> 7i32)] ((o >> 7i32) == 0) == (o < 128),
    decreases c.len() - __i0
//@ghost loop0.begin
    proof {
        let i = __i0 as int;
        lemma_bval_push(c, k0, i);
        lemma_sub_skip(c, k0, i);
        lemma_sub_end(c, k0);
        lemma_sub_end(c, i);
        lemma_bval_mono(c, k0, i + 1, sub_end(c, k0));
    }
//@ghost loop0.end
    proof {
        if *o < 128 {
            k0 = __i0 as int;
            lemma_bsub0(c, k0);
        }
    }
//@ghost loop0.after
    proof {
        assert(fit(c, c.len() as int));
        if k0 < c.len() { lemma_sub_skip(c, k0, c.len() as int); assert(fit(c, k0)); }
        assert(fit(c, 0));
    }
//@endfn
}
//@item src/asn1_types/oid.rs | struct SubIdentifierIterator | sub:N: Repr==>N
//@repeat $N,$n,$v,$fit : u64,verif_n,nv,fit ; BigUint,verif_bn,bv,fit_any
impl<'a> SubIdentifierIterator<'a, $N> {
    pub open spec fn c(&self) -> Seq<u8> { cow_seq(self.oid.asn1) }
    pub open spec fn wf(&self) -> bool {
        self.pos <= self.c().len() && $fit(self.c(), self.pos as int) && (self.second is Some ==> self.pos > 0)
    }
    /// arcs still to be returned
    pub open spec fn rem(&self) -> Seq<int> {
        if self.second is Some { seq![$v(self.second->Some_0)] + ids(self.c(), self.pos as int) }
        else if self.pos == 0 { arcs(self.oid.relative, self.c()) } else { ids(self.c(), self.pos as int) }
    }
    pub open spec fn next_ok(&self, f: &Self, r: Option<$N>) -> bool {
        &&& f.wf() && f.oid == self.oid
        &&& match r {
            None => self.rem().len() == 0 && f.rem().len() == 0,
            Some(x) => self.rem().len() > 0 && $v(x) == self.rem()[0] && f.rem() == self.rem().skip(1),
        }
    }
//@fn src/asn1_types/oid.rs | Iterator for SubIdentifierIterator<'_,N> | next | key=P11 | inst=N:=$N
//@sigsub Self::Item ==> $N
//@ret r
//@subst <$N>::zero\(\) ==> $n(0)
//@subst (?#opt)\(o & ==> (*o &
//@subst (?#opt)\bo >> ==> *o >>
//@subst (\([^()]*\)|\b\w+)\.into\(\) ==> $n(\1)
//@subst self\.oid\.asn1\[self\.pos\.\.\]\.iter\(\) ==> (*verif_from(&self.oid.asn1, self.pos)).iter()
//@subst (?#opt)self\.oid\.asn1\.as_ref\(\) == \[(\w+)\] ==> verif_is1(&self.oid.asn1, \1)
//@subst (?#opt)self\.oid\.asn1\.as_ref\(\) != \[(\w+)\] ==> !verif_is1(&self.oid.asn1, \1)
//@subst (?#opt)self\.oid\.asn1\.len\(\) ==> verif_cow_ref(&self.oid.asn1).len()
//@contract
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).oid == old(self).oid,
        old(self).oid.relative || old(self).c() != seq![0u8] ==> old(self).next_ok(final(self), r),
//@nloops 1
//@loop 0
    invariant_except_break
        forall|j: int| p0 <= j < p0 + __i0 ==> c[j] >= 128, self.pos == p0 + __i0,
    invariant
        __b0@.len() == c.len() - p0, forall|j: int| 0 <= j < __b0@.len() ==> __b0@[j] == c[p0 + j], c == old(self).c(), self.oid == old(self).oid, 0 <= p0 < c.len(), p0 == old(self).pos, c.len() <= usize::MAX,
        __i0 <= c.len() - p0, self.second is None, $fit(c, p0),
        $v(res) == bsub(c, p0, self.pos as int), p0 <= self.pos <= c.len(),
        forall|v: u64| #![trigger (v << 7usize)] v <= (u64::MAX >> 7u64) ==> (v << 7usize) == v * 128,
        pow2(7) == 128,
        (u64::MAX >> 7u64) == 0x1ff_ffff_ffff_ffff,
        forall|o: u8| #![trigger (o & 0x7fu8)] (o & 0x7fu8) == o % 128 && (o & 0x7fu8) < 128,
        forall|o: u8| #![trigger (o >> 7i32)] ((o >> 7i32) == 0) == (o < 128),
    ensures self.pos == sub_end(c, p0) || (self.pos == c.len() && forall|j: int| p0 <= j < c.len() ==> c[j] >= 128)
    decreases c.len() - p0 - __i0
//@ghost entry

    broadcast use axiom_bn, axiom_bn_pos;
    let ghost c = self.c();
    let ghost p0 = self.pos as int;
    proof {
        lemma_oid_bits(); vstd::arithmetic::power2::lemma2_to64();
        lemma_ids(c, p0);
        if self.second is Some { assert((seq![$v(self.second->Some_0)] + ids(c, p0)).skip(1) =~= ids(c, p0)); }
    }
//@ghost loop0.begin
    proof {
        lemma_oct(c, p0, p0 + __i0);
        assert(__b0@[__i0 as int] == c[p0 + __i0]);
        axiom_bn_pos(bn(0));
        broadcast use axiom_bn, axiom_bn_pos;
        assert(forall|x: int| #![trigger bn(x * 128)] x >= 0 ==> bv(bn(x * 128)) == x * 128);
    }
//@ghost loop0.after
    proof {
        if self.pos != sub_end(c, p0) { lemma_sub_skip(c, p0, c.len() as int); lemma_end(c); }
        assert(self.pos == sub_end(c, p0));
    }
//@endfn
//@fn src/asn1_types/oid.rs | Iterator for SubIdentifierIterator<'_,N> | size_hint | key=P11
//@ret r
//@subst &self\.oid\.asn1\[self\.pos\.\.\] ==> verif_from(&self.oid.asn1, self.pos)
//@subst (?#opt)rem\.iter\(\)\.filter\((\|\w+\| .*?)\)\.count\(\) ==> verif_filter_count(rem, \1)
//@subst (?#opt)rem\.last\(\)\.map_or\( ==> verif_map_or(rem.last(), 
//@subst (?#opt)self\.oid\.asn1\.as_ref\(\) == \[(\w+)\] ==> verif_is1(&self.oid.asn1, \1)
//@subst (?#opt)self\.oid\.asn1\.as_ref\(\) != \[(\w+)\] ==> !verif_is1(&self.oid.asn1, \1)
//@closure 0 |__c0: &u8| -> (b: bool) ensures b == (*__c0 < 128)
//@closure 1 |__c0: &u8| -> (b: bool) ensures b == (*__c0 >= 128)
//@nclosures 2
//@subst (?#opt)\bo >> ==> *o >>
//@subst (?#opt)\*\*o >> ==> *o >>
//@contract
    requires self.wf()
    ensures self.oid.relative || self.c() != seq![0u8] ==> r.0 == self.rem().len() && r.1 == Some(r.0)
//@ghost entry
    proof { lemma_oid_bits(); lemma_count(self.c(), self.pos as int); lemma_ids(self.c(), self.pos as int); }
//@endfn
}
//@endrepeat
// ------------------------------------------------------------------ laws: arcs and octets are inverse to each other
pub proof fn lemma_b128_hi_val(v: int)
    requires v >= 0
    ensures bval(b128_hi(v)) == v, forall|j: int| 0 <= j < b128_hi(v).len() ==> b128_hi(v)[j] >= 128, v > 0 ==> b128_hi(v).len() > 0 && b128_hi(v)[0] != 128
    decreases v
{
    if v > 0 {
        lemma_b128_hi_val(v / 128);
        assert(b128_hi(v).drop_last() =~= b128_hi(v / 128));
        if v / 128 == 0 { assert(b128_hi(0) =~= Seq::<u8>::empty()); }
    }
}
pub proof fn lemma_b128_val(v: int)
    requires v >= 0
    ensures bval(b128(v)) == v, b128(v).len() > 0, b128(v).last() < 128, forall|j: int| 0 <= j < b128(v).len() - 1 ==> b128(v)[j] >= 128, b128(v)[0] != 128
{
    lemma_b128_hi_val(v / 128);
    assert(b128(v).drop_last() =~= b128_hi(v / 128));
}
/// a sub-identifier written at k is read back
pub proof fn lemma_b128_at(c: Seq<u8>, k: int, v: int)
    requires v >= 0, 0 <= k, k + b128(v).len() <= c.len(), c.subrange(k, k + b128(v).len()) == b128(v)
    ensures sub_end(c, k) == k + b128(v).len(), bsub(c, k, sub_end(c, k)) == v
{
    lemma_b128_val(v);
    let e = k + b128(v).len();
    assert forall|j: int| k <= j < e - 1 implies c[j] >= 128 by { assert(c[j] == b128(v)[j - k]); }
    assert(c[e - 1] == b128(v)[e - 1 - k]);
    lemma_sub_skip(c, k, e - 1);
    reveal(bsub);
}
pub proof fn lemma_ids_enc(pre: Seq<u8>, s: Seq<int>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] >= 0
    ensures ids(pre + ids_enc(s), pre.len() as int) == s, s.len() > 0 ==> ids_enc(s).len() > 0, s.len() > 0 ==> (pre + ids_enc(s)).last() < 128
    decreases s.len()
{
    let c = pre + ids_enc(s);
    let k = pre.len() as int;
    if s.len() == 0 { assert(ids(c, k) =~= s); } else {
        let t = s.skip(1);
        lemma_ids_enc_cat(seq![s[0]], t);
        assert(seq![s[0]] + t =~= s);
        lemma_ids_enc_one(s[0]);
        let p2 = pre + b128(s[0]);
        assert(p2 + ids_enc(t) =~= c);
        lemma_b128_val(s[0]);
        assert(c.subrange(k, k + b128(s[0]).len()) =~= b128(s[0]));
        lemma_b128_at(c, k, s[0]);
        lemma_ids_enc(p2, t);
        assert(ids(c, k) =~= seq![s[0]] + t);
        if t.len() == 0 { assert(ids_enc(t) =~= Seq::<u8>::empty()); assert(c =~= p2); }
    }
}
/// building an identifier from its arcs and reading the arcs: the same arcs
pub proof fn law_oid_arcs(s: Seq<int>)
    requires arcs_ok(s), forall|i: int| 0 <= i < s.len() ==> s[i] >= 0
    ensures arcs(false, ids_enc(arcs_ids(s))) == s, ids_enc(arcs_ids(s)).len() > 0
{
    let t = arcs_ids(s);
    assert forall|i: int| 0 <= i < t.len() implies t[i] >= 0 by { if i > 0 { assert(t[i] == s[i + 1]); } }
    lemma_ids_enc(Seq::empty(), t);
    assert(Seq::<u8>::empty() + ids_enc(t) =~= ids_enc(t));
    assert(t.skip(1) =~= s.skip(2));
    assert(split1(t[0]) =~= seq![s[0], s[1]]);
    assert(split1(t[0]) + t.skip(1) =~= s);
}
pub proof fn law_oid_rel_arcs(s: Seq<int>)
    requires s.len() > 0, forall|i: int| 0 <= i < s.len() ==> s[i] >= 0
    ensures arcs(true, ids_enc(s)) == s, ids_enc(s).len() > 0
{
    lemma_ids_enc(Seq::empty(), s);
    assert(Seq::<u8>::empty() + ids_enc(s) =~= ids_enc(s));
}
/// contents in the form X.690 8.19.2 requires: every sub-identifier complete and without leading 0x80
pub open spec fn oid_min(c: Seq<u8>, k: int) -> bool
    decreases c.len() - k via oid_min_dec
{ if k < 0 || k >= c.len() { true } else { c[k] != 128 && c[sub_end(c, k) - 1] < 128 && oid_min(c, sub_end(c, k)) } }
#[via_fn]
proof fn oid_min_dec(c: Seq<u8>, k: int) { if 0 <= k < c.len() { lemma_sub_end(c, k); } }
pub proof fn lemma_hi_min(t: Seq<u8>)
    requires forall|j: int| 0 <= j < t.len() ==> t[j] >= 128, t.len() > 0 ==> t[0] != 128
    ensures b128_hi(bval(t)) == t, bval(t) >= 0, t.len() > 0 ==> bval(t) > 0
    decreases t.len()
{
    if t.len() > 0 {
        let d = t.drop_last();
        assert(d.len() > 0 ==> d[0] == t[0]);
        lemma_hi_min(d);
        assert(bval(t) / 128 == bval(d));
        if d.len() == 0 { assert(bval(d) == 0); assert(b128_hi(0) =~= Seq::<u8>::empty()); assert(d =~= Seq::<u8>::empty()); }
        assert(b128_hi(bval(t)) =~= t);
    } else { assert(b128_hi(0) =~= t); }
}
/// reading the sub-identifiers of well-formed contents and writing them: the same octets
pub proof fn law_oid_octets(c: Seq<u8>, k: int)
    requires 0 <= k <= c.len(), oid_min(c, k)
    ensures ids_enc(ids(c, k)) == c.subrange(k, c.len() as int), forall|i: int| 0 <= i < ids(c, k).len() ==> ids(c, k)[i] >= 0
    decreases c.len() - k
{
    if k == c.len() { assert(ids_enc(ids(c, k)) =~= c.subrange(k, c.len() as int)); } else {
        lemma_sub_end(c, k);
        let e = sub_end(c, k);
        law_oid_octets(c, e);
        let t = c.subrange(k, e);
        let v = bsub(c, k, e);
        reveal(bsub);
        assert forall|j: int| 0 <= j < t.len() - 1 implies t[j] >= 128 by { assert(t[j] == c[k + j]); }
        lemma_hi_min(t.drop_last());
        assert(v / 128 == bval(t.drop_last()));
        assert(b128(v) =~= t);
        lemma_ids_enc_cat(seq![v], ids(c, e));
        lemma_ids_enc_one(v);
        assert(ids_enc(ids(c, k)) =~= c.subrange(k, c.len() as int));
    }
}
/// different well-formed contents have different sub-identifiers (comparison of identifiers is comparison of octets)
pub proof fn law_oid_inj(a: Seq<u8>, b: Seq<u8>)
    requires oid_min(a, 0), oid_min(b, 0), ids(a, 0) == ids(b, 0)
    ensures a == b
{
    law_oid_octets(a, 0);
    law_oid_octets(b, 0);
    assert(a.subrange(0, a.len() as int) =~= a);
    assert(b.subrange(0, b.len() as int) =~= b);
}
impl<'i> RtBer<'i> for Oid<'i> {
    open spec fn ber_rt_ok(&self) -> bool { cow_seq(self.asn1).len() > 0 }
    open spec fn ber_rt_h(&self, h: HV) -> bool { self.relative == (h.class == Class::Universal && h.tag == Tag(13)) }
    proof fn lemma_ber_rt(&self, h: HV) {  }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for Oid<'i> {
    open spec fn der_rt_ok(&self) -> bool { cow_seq(self.asn1).len() > 0 }
    open spec fn der_rt_h(&self, h: HV) -> bool { self.relative == (h.class == Class::Universal && h.tag == Tag(13)) }
    proof fn lemma_der_rt(&self, h: HV) {  }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> DerBer<'i> for Oid<'i> {
    open spec fn conv(d: (bool, Seq<u8>)) -> (bool, Seq<u8>) { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {}
    proof fn lemma_db(h: HV, c: Seq<u8>) {}
}
impl<'i> Canon<'i> for Oid<'i> {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) {}
}
}
