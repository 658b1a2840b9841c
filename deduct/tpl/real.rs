// floating-point numbers: the operators and methods used by the code, with the cases IEEE 754 rounds exactly
use vstd::std_specs::ops::{MulSpecImpl, DivSpecImpl, NegSpecImpl};
use vstd::std_specs::cmp::{PartialEqSpecImpl, PartialOrdSpecImpl};
use core::cmp::Ordering;
verus! {
/// value of a float: neg, m * 2^k with m odd (or m == 0 and k == 0)
#[verifier::ext_equal]
pub enum FV { Fin { neg: bool, m: int, k: int }, Inf { neg: bool }, NaN }
pub open spec fn p2(n: int) -> int
    decreases n
{ if n <= 0 { 1 } else { 2 * p2(n - 1) } }
pub proof fn lemma_p2_vals()
    ensures p2(0) == 1, p2(1) == 2, p2(2) == 4, p2(3) == 8, p2(4) == 16, p2(53) == 0x20_0000_0000_0000, p2(56) == 0x100_0000_0000_0000, p2(64) == 0x1_0000_0000_0000_0000
{ reveal_with_fuel(p2, 66); }
pub open spec fn twos(n: int) -> int
    decreases n
{ if n > 0 && n % 2 == 0 { 1 + twos(n / 2) } else { 0 } }
pub open spec fn odd(n: int) -> int
    decreases n
{ if n > 0 && n % 2 == 0 { odd(n / 2) } else { n } }
/// the value n * 2^k
pub open spec fn fin(neg: bool, n: int, k: int) -> FV { if n == 0 { FV::Fin { neg, m: 0, k: 0 } } else { FV::Fin { neg, m: odd(n), k: k + twos(n) } } }
pub proof fn lemma_fin_vals()
    ensures fin(false, 2, 0) == (FV::Fin { neg: false, m: 1, k: 1 }), fin(false, 0, 0) == (FV::Fin { neg: false, m: 0, k: 0 }),
        fin(false, 8, 0) == (FV::Fin { neg: false, m: 1, k: 3 }), fin(false, 16, 0) == (FV::Fin { neg: false, m: 1, k: 4 })
{ reveal_with_fuel(odd, 7); reveal_with_fuel(twos, 7); }
/// odd multiples of powers of two in this range are floats
pub open spec fn f_range(m: int, k: int) -> bool { 0 < m < p2(53) && -1022 <= k <= 970 }
pub open spec fn f_pow(a: FV) -> bool { a matches FV::Fin { m, .. } && m == 1 }
pub uninterp spec fn f_mul_rnd(a: FV, b: FV) -> FV;
pub uninterp spec fn f_div_rnd(a: FV, b: FV) -> FV;
pub uninterp spec fn f_powi_rnd(a: FV, n: int) -> FV;
pub uninterp spec fn f_fract_rnd(a: FV) -> FV;
pub uninterp spec fn f_ge_rnd(a: FV, b: FV) -> bool;
pub uninterp spec fn f_u64_rnd(a: FV) -> int;
pub uninterp spec fn f_normal_rnd(a: FV) -> bool;
/// an integer rounded to the nearest float
pub uninterp spec fn f_int_rnd(n: int) -> FV;
pub open spec fn f_int(n: int) -> FV { if -p2(53) <= n <= p2(53) { fin(n < 0, if n < 0 { -n } else { n }, 0) } else { f_int_rnd(n) } }
/// rounding an unsigned 64-bit integer: some integer of at most 53 significant bits, up to 2^64
pub axiom fn ax_f_int(n: int)
    requires 0 < n < p2(64)
    ensures f_int(n) matches FV::Fin { neg, m, k } && !neg && 0 < m < p2(53) && m % 2 == 1 && 0 <= k <= 64;
/// a product with a power of two is exact as long as it stays in range
pub open spec fn f_mul(a: FV, b: FV) -> FV {
    match (a, b) {
        (FV::Fin { neg: s, m, k }, FV::Fin { neg: t, m: n, k: l }) => if m == 0 || n == 0 { FV::Fin { neg: s != t, m: 0, k: 0 } } else if (m == 1 || n == 1) && f_range(m * n, k + l) { FV::Fin { neg: s != t, m: m * n, k: k + l } } else { f_mul_rnd(a, b) },
        _ => f_mul_rnd(a, b),
    }
}
pub open spec fn f_div(a: FV, b: FV) -> FV {
    match (a, b) {
        (FV::Fin { neg: s, m, k }, FV::Fin { neg: t, m: n, k: l }) => if n == 1 && f_range(m, k - l) { FV::Fin { neg: s != t, m, k: k - l } } else { f_div_rnd(a, b) },
        _ => f_div_rnd(a, b),
    }
}
pub open spec fn f_neg(a: FV) -> FV { match a { FV::Fin { neg, m, k } => FV::Fin { neg: !neg, m, k }, FV::Inf { neg } => FV::Inf { neg: !neg }, FV::NaN => FV::NaN } }
pub open spec fn f_abs(a: FV) -> FV { match a { FV::Fin { neg, m, k } => FV::Fin { neg: false, m, k }, FV::Inf { neg } => FV::Inf { neg: false }, FV::NaN => FV::NaN } }
pub open spec fn f_eq(a: FV, b: FV) -> bool {
    match (a, b) { (FV::Fin { m, .. }, FV::Fin { m: n, .. }) => (m == 0 && n == 0) || a == b, (FV::Inf { .. }, FV::Inf { .. }) => a == b, _ => false }
}
/// comparison of non-negative integers
pub open spec fn f_ge(a: FV, b: FV) -> bool {
    match (a, b) { (FV::Fin { neg: s, m, k }, FV::Fin { neg: t, m: n, k: l }) => if !s && !t && k >= 0 && l >= 0 { m * p2(k) >= n * p2(l) } else { f_ge_rnd(a, b) }, _ => f_ge_rnd(a, b) }
}
/// integral powers of 2.0
pub open spec fn f_powi(a: FV, n: int) -> FV { if a == (FV::Fin { neg: false, m: 1, k: 1 }) { if -1022 <= n <= 1023 { FV::Fin { neg: false, m: 1, k: n } } else if n > 1023 { FV::Inf { neg: false } } else if n >= -1074 { FV::Fin { neg: false, m: 1, k: n } } else { FV::Fin { neg: false, m: 0, k: 0 } } } else { f_powi_rnd(a, n) } }
pub open spec fn f_normal(a: FV) -> bool { match a { FV::Fin { m, k, .. } => if m == 0 { false } else if m == 1 { k >= -1022 } else { f_normal_rnd(a) }, _ => false } }
/// the fractional part: not zero exactly for numbers that are no integers
pub open spec fn f_fract_ok(a: FV, r: FV) -> bool { match a { FV::Fin { m, k, .. } => (r matches FV::Fin { m: n, .. } && (n == 0) == (m == 0 || k >= 0)), _ => r is NaN } }
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct F64 { x: f64 }
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct F32 { x: f32 }
pub uninterp spec fn f32_of(a: FV) -> FV;
impl F32 { pub uninterp spec fn v(&self) -> FV; }
impl F64 {
    pub uninterp spec fn v(&self) -> FV;
    #[verifier::external_body]
    pub fn lit(n: u64) -> (r: F64) requires n <= 0x20_0000_0000_0000 ensures r.v() == fin(false, n as int, 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn nan() -> (r: F64) ensures r.v() is NaN { unimplemented!() }
    #[verifier::external_body]
    pub fn infinity() -> (r: F64) ensures r.v() == (FV::Inf { neg: false }) { unimplemented!() }
    #[verifier::external_body]
    pub fn neg_infinity() -> (r: F64) ensures r.v() == (FV::Inf { neg: true }) { unimplemented!() }
    #[verifier::external_body]
    pub fn abs(self) -> (r: F64) ensures r.v() == f_abs(self.v()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_sign_positive(self) -> (r: bool) ensures self.v() matches FV::Fin { neg, .. } ==> r == !neg, self.v() matches FV::Inf { neg } ==> r == !neg { unimplemented!() }
    #[verifier::external_body]
    pub fn is_sign_negative(self) -> (r: bool) ensures self.v() matches FV::Fin { neg, .. } ==> r == neg, self.v() matches FV::Inf { neg } ==> r == neg { unimplemented!() }
    #[verifier::external_body]
    pub fn is_finite(self) -> (r: bool) ensures r == (self.v() is Fin) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_infinite(self) -> (r: bool) ensures r == (self.v() is Inf) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_nan(self) -> (r: bool) ensures r == (self.v() is NaN) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_normal(self) -> (r: bool) ensures r == f_normal(self.v()) { unimplemented!() }
    #[verifier::external_body]
    pub fn fract(self) -> (r: F64) ensures f_fract_ok(self.v(), r.v()) { unimplemented!() }
    #[verifier::external_body]
    pub fn powi(self, n: i32) -> (r: F64) ensures r.v() == f_powi(self.v(), n as int) { unimplemented!() }
}
impl core::ops::Mul for F64 { type Output = F64; #[verifier::external_body] fn mul(self, o: F64) -> (r: F64) ensures r.v() == f_mul(self.v(), o.v()) { unimplemented!() } }
impl MulSpecImpl for F64 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: F64) -> bool { true } open spec fn mul_spec(self, o: F64) -> F64 { arbitrary() } }
impl core::ops::Div for F64 { type Output = F64; #[verifier::external_body] fn div(self, o: F64) -> (r: F64) ensures r.v() == f_div(self.v(), o.v()) { unimplemented!() } }
impl DivSpecImpl for F64 { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: F64) -> bool { true } open spec fn div_spec(self, o: F64) -> F64 { arbitrary() } }
impl core::ops::Neg for F64 { type Output = F64; #[verifier::external_body] fn neg(self) -> (r: F64) ensures r.v() == f_neg(self.v()) { unimplemented!() } }
impl NegSpecImpl for F64 { open spec fn obeys_neg_spec() -> bool { false } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> F64 { arbitrary() } }
impl PartialEq for F64 {
    #[verifier::external_body] fn eq(&self, o: &F64) -> (r: bool) ensures r == f_eq(self.v(), o.v()) { unimplemented!() }
    #[verifier::external_body] fn ne(&self, o: &F64) -> (r: bool) ensures r == !f_eq(self.v(), o.v()) { unimplemented!() }
}
impl PartialEqSpecImpl for F64 { open spec fn obeys_eq_spec() -> bool { false } open spec fn eq_spec(&self, o: &F64) -> bool { arbitrary() } }
impl PartialOrd for F64 {
    #[verifier::external_body] fn partial_cmp(&self, o: &F64) -> (r: Option<Ordering>) { unimplemented!() }
    #[verifier::external_body] fn ge(&self, o: &F64) -> (r: bool) ensures r == f_ge(self.v(), o.v()) { unimplemented!() }
}
impl PartialOrdSpecImpl for F64 { open spec fn obeys_partial_cmp_spec() -> bool { false } open spec fn partial_cmp_spec(&self, o: &F64) -> Option<Ordering> { arbitrary() } }
pub trait ToFloat { spec fn fvi(self) -> FV; }
//@repeat $t : u8 ; u32 ; u64 ; i64
impl ToFloat for $t { open spec fn fvi(self) -> FV { f_int(self as int) } }
//@endrepeat
/// `as f64`
#[verifier::external_body]
pub fn verif_to_f64<T: ToFloat>(t: T) -> (r: F64) ensures r.v() == t.fvi() { unimplemented!() }
/// `as f32`
#[verifier::external_body]
pub fn verif_to_f32(t: F64) -> (r: F32) ensures r.v() == f32_of(t.v()) { unimplemented!() }
/// `as u64` of a float
#[verifier::external_body]
pub fn verif_f64_u64(t: F64) -> (r: u64)
    ensures t.v() matches FV::Fin { neg, m, k } ==> (!neg && (m == 0 || k >= 0) && m * p2(k) < p2(64) ==> r == m * p2(k))
{ unimplemented!() }

// ------------------------------------------------------------------ REAL (X.690 8.5)
//@item src/asn1_types/real.rs | enum Real | sub:f64==>F64
pub enum RV { Zero, Inf, NegInf, NaN, Bin { m: FV, base: int, e: int, enc: int } }
pub open spec fn rv(r: Real) -> RV {
    match r { Real::Zero => RV::Zero, Real::Infinity => RV::Inf, Real::NegInfinity => RV::NegInf, Real::NaN => RV::NaN,
        Real::Binary { mantissa, base, exponent, enc_base } => RV::Bin { m: mantissa.v(), base: base as int, e: exponent as int, enc: enc_base as int } }
}
pub open spec fn lg(enc: int) -> int { if enc == 2 { 1 } else if enc == 8 { 3 } else { 4 } }
pub open spec fn i32r(e: int) -> bool { -0x8000_0000 <= e <= 0x7fff_ffff }
/// number of exponent octets and where they start
pub open spec fn exp_at(c: Seq<u8>) -> Option<(int, int)> { if c[0] % 4 == 3 { if c.len() < 2 { None } else { Some((c[1] as int, 2int)) } } else { Some((c[0] % 4 + 1, 1int)) } }
/// the float nearest to p * 2^sf
pub open spec fn mant(neg: bool, p: int, sf: int) -> FV { match f_int(p) { FV::Fin { m, k, .. } => if m == 0 { FV::Fin { neg, m: 0, k: 0 } } else { FV::Fin { neg, m, k: k + sf } }, v => v } }
pub open spec fn real_bin(c: Seq<u8>) -> Option<RV> {
    match exp_at(c) { None => None, Some((n, o)) => {
        let l = c.len() - o;
        let bb = (c[0] / 16) % 4;
        let enc = if bb == 0 { 2int } else if bb == 1 { 8int } else { 16int };
        if n == 0 || n >= l || n > 4 || bb == 3 || l - n > 8 { None }
        else { let e = int_val(c.subrange(o, o + n)) * lg(enc); if !i32r(e) { None } else {
            Some(RV::Bin { m: mant((c[0] / 64) % 2 == 1, be_val(c.subrange(o + n, c.len() as int)), (c[0] as int / 4) % 4), base: 2, e, enc }) } }
    } }
}
/// decimal text (grammar and rounding of core: trusted and not specified further)
pub uninterp spec fn text_i64(b: Seq<u8>) -> Option<int>;
pub uninterp spec fn text_f64(b: Seq<u8>) -> Option<FV>;
/// the empty text is no number
pub axiom fn ax_no_text()
    ensures text_i64(Seq::<u8>::empty()) is None, text_f64(Seq::<u8>::empty()) is None;
#[verifier::external_body]
pub struct ParseError { x: u8 }
#[verifier::external_body]
pub fn verif_parse_i64(s: &str) -> (r: core::result::Result<i64, ParseError>) ensures match r { Ok(v) => text_i64(str_bytes(s)) == Some(v as int), Err(_) => text_i64(str_bytes(s)) is None } { unimplemented!() }
#[verifier::external_body]
pub fn verif_parse_f64(s: &str) -> (r: core::result::Result<F64, ParseError>) ensures match r { Ok(v) => text_f64(str_bytes(s)) == Some(v.v()), Err(_) => text_f64(str_bytes(s)) is None } { unimplemented!() }
/// Real::new (decimal normalisation; not under contract)
pub uninterp spec fn real_new(f: FV) -> RV;
pub open spec fn real_dec(h: HV, c: Seq<u8>) -> Option<RV> {
    if h.cons { None }
    else if c.len() == 0 { Some(RV::Zero) }
    else if c[0] >= 128 { real_bin(c) }
    else if c[0] >= 64 { if h.len != Length::Definite(1) { None } else if c[0] == 0x40 { Some(RV::Inf) } else if c[0] == 0x41 { Some(RV::NegInf) } else if c[0] == 0x42 { Some(RV::NaN) } else { None } }
    else {
        let s = c.subrange(1, c.len() as int);
        if !is_utf8(s) || c[0] % 4 == 0 { None }
        else if c[0] % 4 == 1 { match text_i64(s) { None => None, Some(v) => Some(real_new(f_int(v))) } }
        else { match text_f64(s) { None => None, Some(v) => Some(real_new(v)) } }
    }
}
pub proof fn lemma_real_bits()
    ensures
        forall|x: u8| #![trigger (x & 0x80)] (x & 0x80 != 0) == (x >= 128),
        forall|x: u8| #![trigger (x & 0x40)] (x & 0x40 != 0) == ((x / 64) % 2 == 1),
        forall|x: u8| #![trigger (x & 0x03)] (x & 0x03) == x % 4,
        forall|x: u8| #![trigger (x >> 4u8)] (x >> 4u8) & 0x03 == (x / 16) % 4,
        forall|x: u8| #![trigger (x >> 2u8)] (x >> 2u8) & 0x03 == (x / 4) % 4,
{
    assert(forall|x: u8| #![trigger (x & 0x80)] (x & 0x80 != 0) == (x >= 128)) by(bit_vector);
    assert(forall|x: u8| #![trigger (x & 0x40)] (x & 0x40 != 0) == ((x / 64) % 2 == 1)) by(bit_vector);
    assert(forall|x: u8| #![trigger (x & 0x03)] (x & 0x03) == x % 4) by(bit_vector);
    assert(forall|x: u8| #![trigger (x >> 4u8)] (x >> 4u8) & 0x03 == (x / 16) % 4) by(bit_vector);
    assert(forall|x: u8| #![trigger (x >> 2u8)] (x >> 2u8) & 0x03 == (x / 4) % 4) by(bit_vector);
}
impl Real {
    #[verifier::external_body]
    pub fn new(f: F64) -> (r: Real) ensures rv(r) == real_new(f.v()) { unimplemented!() }
}
/// the signed value of the first i octets (0 or -1 for none)
#[verifier::opaque]
pub open spec fn ev(b: Seq<u8>, i: int) -> int { (if b[0] >= 128 { -pow256(i) } else { 0int }) + be_val(b.subrange(0, i)) }
pub proof fn real_exp_0(b: Seq<u8>)
    requires b.len() > 0
    ensures ev(b, 0) == (if b[0] >= 128 { -1int } else { 0int })
{ reveal(ev); assert(b.subrange(0, 0) =~= Seq::<u8>::empty()); lemma_pow256_vals(); }
pub proof fn real_exp_end(b: Seq<u8>)
    requires b.len() > 0
    ensures ev(b, b.len() as int) == int_val(b)
{ reveal(ev); assert(b.subrange(0, b.len() as int) =~= b); }
pub proof fn real_exp_step(b: Seq<u8>, i: int)
    requires 0 <= i < b.len() <= 4
    ensures -0x80_0000 <= ev(b, i) < 0x80_0000, ev(b, i + 1) == ev(b, i) * 256 + b[i]
{
    reveal(ev);
    let p = b.subrange(0, i); let q = b.subrange(0, i + 1);
    lemma_pow256_vals();
    assert(q.drop_last() =~= p);
    assert(be_val(q) == be_val(p) * 256 + b[i]);
    lemma_be_ub(p);
    if i > 0 { lemma_be_first(p); assert(p[0] == b[0]); }
    if i == 0 { assert(p =~= Seq::<u8>::empty()); }
    else if i == 1 { assert(p[0] * pow256(0) == p[0] && (p[0] + 1) * pow256(0) == p[0] + 1); }
    else if i == 2 { assert(p[0] * pow256(1) == p[0] * 256 && (p[0] + 1) * pow256(1) == (p[0] + 1) * 256); }
    else { assert(p[0] * pow256(2) == p[0] * 65536 && (p[0] + 1) * pow256(2) == (p[0] + 1) * 65536); }
}
/// the value of the first i octets
#[verifier::opaque]
pub open spec fn mv(b: Seq<u8>, i: int) -> int { be_val(b.subrange(0, i)) }
pub proof fn real_man_0(b: Seq<u8>) ensures mv(b, 0) == 0 { reveal(mv); assert(b.subrange(0, 0) =~= Seq::<u8>::empty()); }
pub proof fn real_man_end(b: Seq<u8>) requires b.len() <= 8 ensures mv(b, b.len() as int) == be_val(b), 0 <= be_val(b) < p2(64) { reveal(mv); assert(b.subrange(0, b.len() as int) =~= b); lemma_be_ub(b); lemma_pow256_vals(); lemma_pow256_mono(b.len() as int, 8); lemma_p2_vals(); }
pub proof fn real_man_step(b: Seq<u8>, i: int)
    requires 0 <= i < b.len() <= 8
    ensures mv(b, i + 1) == mv(b, i) * 256 + b[i], 0 <= mv(b, i) < 0x100_0000_0000_0000
{
    reveal(mv);
    let p = b.subrange(0, i); let q = b.subrange(0, i + 1);
    assert(q.drop_last() =~= p);
    lemma_pow256_vals(); lemma_be_ub(p); lemma_pow256_mono(i, 7);
}
pub proof fn lemma_shl8()
    ensures
        forall|p: u64, b: u64| #![trigger ((p << 8u64) | b)] p < 0x100_0000_0000_0000 && b < 256 ==> (p << 8u64) | b == p * 256 + b,
        forall|e: i32, b: i32| #![trigger ((e << 8i32) | b)] -0x80_0000 <= e < 0x80_0000 && 0 <= b < 256 ==> (e << 8i32) | b == e * 256 + b,
{
    assert(forall|p: u64, b: u64| #![trigger ((p << 8u64) | b)] p < 0x100_0000_0000_0000 && b < 256 ==> (p << 8u64) | b == p * 256 + b) by(bit_vector);
    assert(forall|e: i32, b: i32| #![trigger ((e << 8i32) | b)] -0x80_0000 <= e < 0x80_0000 && 0 <= b < 256 ==> (e << 8i32) | b == e * 256 + b) by(bit_vector);
}
pub proof fn lemma_mant(neg: bool, p: int, sf: int)
    requires 0 <= p < p2(64), 0 <= sf <= 3
    ensures ({ let f = if neg { f_neg(f_int(p)) } else { f_int(p) }; f_mul(f, f_powi(fin(false, 2, 0), sf)) == mant(neg, p, sf) && (sf == 0 ==> f == mant(neg, p, 0)) })
{
    lemma_fin_vals(); lemma_p2_vals();
    if p > 0 { ax_f_int(p); if let FV::Fin { m, .. } = f_int(p) { assert(m * 1 == m); } } else { assert(f_int(0) == fin(false, 0, 0)); }
}
//@fn src/asn1_types/real.rs | decode_real | key=P14
//@attr #[verifier::rlimit(60)]
//@floats
//@ret res
//@subst (?#opt)alloc::str::from_utf8\( ==> verif_from_utf8(
//@subst (?#opt)for (\w+) in (\w+) \{ ==> for \1 in \2.iter() {
//@subst (?#opt)(\w+)\.parse::<i64>\(\) ==> verif_parse_i64(\1)
//@subst (?#opt)(\w+)\.parse::<F64>\(\) ==> verif_parse_f64(\1)
//@contract
    requires !hv(header).cons
    ensures match res { Ok(r) => real_dec(hv(header), bytes@) is Some && real_dec(hv(header), bytes@)->Some_0 == rv(r), Err(_) => real_dec(hv(header), bytes@) is None }
//@nloops 2
//@ghost entry
    proof { lemma_real_bits(); }
//@ghost loop0.before
    proof { real_exp_0(eo@); assert(eo@ =~= bytes@.subrange(exp_at(bytes@)->Some_0.1, exp_at(bytes@)->Some_0.1 + n)); }
//@loop 0
    invariant 0 <= __i0 <= __b0@.len(), __b0@ == eo@, 1 <= eo@.len() <= 4, e == ev(eo@, __i0 as int),
    decreases __b0@.len() - __i0
//@ghost loop0.begin
    proof { real_exp_step(eo@, __i0 as int); lemma_shl8(); }
//@ghost loop0.after
    proof { real_exp_end(eo@); }
//@ghost loop1.before
    proof { real_man_0(rem@); assert(rem@ =~= bytes@.subrange(exp_at(bytes@)->Some_0.1 + n, bytes@.len() as int)); }
//@loop 1
    invariant 0 <= __i1 <= __b1@.len(), __b1@ == rem@, rem@.len() <= 8, p == mv(rem@, __i1 as int),
    decreases __b1@.len() - __i1
//@ghost loop1.begin
    proof { real_man_step(rem@, __i1 as int); lemma_shl8(); }
//@ghost loop1.after
    proof { let c = bytes@; assert(exp_at(c) is Some); let (n1, o1) = exp_at(c)->Some_0; assert(n1 == n); assert(c.subrange(o1 + n1, c.len() as int) == rem@); assert(real_bin(c) is Some && real_bin(c)->Some_0->e == e && real_bin(c)->Some_0->enc == _enc_base); real_man_end(rem@); lemma_mant((bytes@[0] / 64) % 2 == 1, p as int, (bytes@[0] as int / 4) % 4); }
    let ghost p0 = p as int;
//@ghost letp#3.after
    proof { assert(p.v() == mant((bytes@[0] / 64) % 2 == 1, p0, (bytes@[0] as int / 4) % 4)); }
//@endfn
impl Tagged for Real {
//@consts src/asn1_types/real.rs | Tagged for Real
}
impl<'i> BerContent<'i> for Real {
    type Error = BerError<Input<'i>>;
    type V = RV;
    open spec fn sp_val(&self) -> RV { rv(*self) }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<RV> { real_dec(h, c) }
//@fn src/asn1_types/real.rs | BerParser<'i> for Real | from_ber_content | key=P14+P08
//@ret res
//@nclosures 1
//@contract
//@endfn
}
impl<'i> DerContent<'i> for Real {
    type Error = BerError<Input<'i>>;
    type DV = RV;
    open spec fn sp_dval(&self) -> RV { rv(*self) }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<RV> { real_dec(h, c) }
//@fn src/asn1_types/real.rs | DerParser<'i> for Real | from_der_content | key=P14+P09
//@ret res
//@contract
//@endfn
}
impl CheckDerConstraints for Real {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { !h.cons && h.len is Definite }
//@fn src/asn1_types/real.rs | CheckDerConstraints for Real | check_constraints | key=P09+P14
//@ret res
//@contract
//@endfn
}
impl<'i> DerBer<'i> for Real {
    open spec fn conv(d: RV) -> RV { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {}
    proof fn lemma_db(h: HV, c: Seq<u8>) {}
}
// ---- constructors, predicates and the value as a float
/// mantissa * base^exponent, for the powers of two that are floats (and zero mantissas); the other cases are rounded
pub open spec fn real_f64(r: RV) -> FV {
    match r {
        RV::Zero => fin(false, 0, 0), RV::NaN => FV::NaN, RV::Inf => FV::Inf { neg: false }, RV::NegInf => FV::Inf { neg: true },
        RV::Bin { m, base, e, .. } => {
            let b = f_int(base);
            if f_eq(m, fin(false, 0, 0)) { m }
            else if f_normal(f_powi(b, e)) { f_mul(m, f_powi(b, e)) }
            else { let half = if e >= 0 { e / 2 } else { -((-e) / 2) }; f_mul(f_mul(m, f_powi(b, half)), f_powi(b, e - half)) }
        },
    }
}
pub open spec fn real_f32(r: RV) -> FV { f32_of(real_f64(r)) }
impl Real {
//@fn src/asn1_types/real.rs | Real | with_enc_base | key=P14
//@ret r
//@contract
    ensures rv(r) == (match rv(self) { RV::Bin { m, base, e, .. } => RV::Bin { m, base, e, enc: enc_base as int }, v => v })
//@endfn
//@fn src/asn1_types/real.rs | Real | binary | key=P14
//@floats
//@ret r
//@contract
    ensures rv(r) == (RV::Bin { m: mantissa.v(), base: base as int, e: exponent as int, enc: 2 })
//@endfn
//@fn src/asn1_types/real.rs | Real | is_infinite | key=P14
//@ret r
//@contract
    ensures r == (rv(*self) is Inf || rv(*self) is NegInf)
//@endfn
//@fn src/asn1_types/real.rs | Real | is_finite | key=P14
//@ret r
//@contract
    ensures r == (rv(*self) is Zero || rv(*self) is Bin)
//@endfn
//@fn src/asn1_types/real.rs | Real | f64 | key=P14
//@floats
//@ret r
//@contract
    ensures r.v() == real_f64(rv(*self))
//@ghost entry
    proof { lemma_fin_vals(); }
//@endfn
//@fn src/asn1_types/real.rs | Real | f32 | key=P14
//@floats
//@ret r
//@contract
    ensures r.v() == f32_of(real_f64(rv(*self)))
//@endfn
}
/// a binary number whose value is a float is returned exactly
pub proof fn lemma_real_f64(r: RV)
    requires r matches RV::Bin { m: FV::Fin { m, k, .. }, base, e, .. } && base == 2 && (m == 0 || (0 < m < p2(53) && -1022 <= k <= 970 && -1022 <= e <= 1023 && -1022 <= k + e <= 970))
    ensures (r matches RV::Bin { m: FV::Fin { neg, m, k }, e, .. } && real_f64(r) == FV::Fin { neg, m, k: if m == 0 { k } else { k + e } })
{
    lemma_fin_vals(); lemma_p2_vals();
    if let RV::Bin { m, base, e, .. } = r {
        assert(f_int(base) == fin(false, 2, 0));
        if let FV::Fin { m: mm, k, .. } = m { assert(mm * 1 == mm); }
    }
}
//@repeat $T,$f,$of : F64,f64,real_f64 ; F32,f32,real_f32
impl Tagged for $T {
//@consts src/asn1_types/real/$f.rs | Tagged for $f
}
impl<'i> BerContent<'i> for $T {
    type Error = BerError<Input<'i>>;
    type V = FV;
    open spec fn sp_val(&self) -> FV { self.v() }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<FV> { match real_dec(h, c) { None => None, Some(r) => Some($of(r)) } }
//@fn src/asn1_types/real/$f.rs | BerParser<'i> for $f | from_ber_content | key=P14+P08
//@floats
//@ret res
//@subst (?#opt)\breal\b ==> real_v
//@contract
//@endfn
}
impl<'i> DerContent<'i> for $T {
    type Error = BerError<Input<'i>>;
    type DV = FV;
    open spec fn sp_dval(&self) -> FV { self.v() }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<FV> { match real_dec(h, c) { None => None, Some(r) => Some($of(r)) } }
//@fn src/asn1_types/real/$f.rs | DerParser<'i> for $f | from_der_content | key=P14+P09
//@floats
//@ret res
//@subst (?#opt)\breal\b ==> real_v
//@contract
//@endfn
}
impl CheckDerConstraints for $T {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { !h.cons && h.len is Definite }
//@fn src/asn1_types/real/$f.rs | CheckDerConstraints for $f | check_constraints | key=P09+P14
//@ret res
//@contract
//@endfn
}
impl<'i> DerBer<'i> for $T {
    open spec fn conv(d: FV) -> FV { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {}
    proof fn lemma_db(h: HV, c: Seq<u8>) {}
}
//@endrepeat
// ------------------------------------------------------------------ encoding
/// every finite f64 is an odd multiple below 2^53 of a power of two
pub axiom fn ax_f64(x: F64)
    ensures x.v() matches FV::Fin { m, k, .. } ==> 0 <= m < p2(53) && (m == 0 ==> k == 0) && (m > 0 ==> m % 2 == 1 && -1074 <= k <= 1023);
pub open spec fn sc(e: int, b: int) -> int { if b == 2 { e } else if b == 8 { 3 * e } else { 4 * e } }
pub open spec fn bb_of(enc: int) -> int { if enc == 2 { 0 } else if enc == 8 { 1 } else { 2 } }
pub open spec fn encb(b: int) -> bool { b == 2 || b == 8 || b == 16 }
/// contents octets of the number (neg) m * 2^t, m odd: exponent in base enc, scaling factor 0 to 3, minimal exponent and mantissa
pub open spec fn real_cont(neg: bool, m: int, t: int, enc: int) -> Seq<u8> {
    let eo = int_enc(t / lg(enc));
    seq![(128 + (if neg { 64int } else { 0 }) + bb_of(enc) * 16 + (t % lg(enc)) * 4 + (eo.len() - 1)) as u8] + (if eo.len() == 4 { seq![4u8] } else { Seq::<u8>::empty() }) + eo + be_min(m)
}
pub proof fn lemma_p2(a: int, b: int)
    requires 0 <= a <= b
    ensures 1 <= p2(a) <= p2(b), p2(a + 1) == 2 * p2(a)
    decreases b - a
{ if a < b { lemma_p2(a, b - 1); lemma_p2(b - 1, b - 1); } else { lemma_p2_pos(a); } }
pub proof fn lemma_p2_pos(a: int) ensures p2(a) >= 1 decreases a { if a > 0 { lemma_p2_pos(a - 1); } }
pub proof fn lemma_odd_mul(m: int, k: int)
    requires m > 0, m % 2 == 1, k >= 0
    ensures m * p2(k) >= m, odd(m * p2(k)) == m, twos(m * p2(k)) == k
    decreases k
{
    if k == 0 { assert(m * p2(0) == m); } else {
        lemma_odd_mul(m, k - 1);
        let x = m * p2(k - 1);
        assert(m * p2(k) == 2 * x) by(nonlinear_arith) requires p2(k) == 2 * p2(k - 1), x == m * p2(k - 1);
        assert((2 * x) % 2 == 0 && (2 * x) / 2 == x);
    }
}
pub proof fn lemma_big(m: int, k: int)
    requires 0 < m < p2(53), 0 <= k, m * p2(k) >= p2(64)
    ensures k >= 8
{
    lemma_p2_vals();
    if k < 8 { lemma_p2(k, 8); assert(p2(8) == 256) by { reveal_with_fuel(p2, 10); } assert(m * p2(k) <= m * 256) by(nonlinear_arith) requires p2(k) <= 256, m > 0; }
}
/// shifting out zero bits
pub proof fn lemma_shift(m: int)
    requires m > 0
    ensures
        m % 2 == 0 ==> odd(m / 2) == odd(m) && twos(m / 2) == twos(m) - 1,
        m % 2 != 0 ==> odd(m) == m && twos(m) == 0,
        m % 8 == 0 ==> odd(m / 8) == odd(m) && twos(m / 8) == twos(m) - 3,
        m % 8 != 0 ==> twos(m) < 3,
        m % 16 == 0 ==> odd(m / 16) == odd(m) && twos(m / 16) == twos(m) - 4,
        m % 16 != 0 ==> twos(m) < 4,
{
    assert(m / 2 / 2 == m / 4 && m / 4 / 2 == m / 8 && m / 8 / 2 == m / 16);
    reveal_with_fuel(odd, 6); reveal_with_fuel(twos, 6);
}
pub proof fn lemma_twos_ge(m: int) requires m > 0 ensures twos(m) >= 0, odd(m) > 0, odd(m) % 2 == 1, m < p2(64) ==> twos(m) < 64 decreases m
{ lemma_twos_n(m, 64); }
pub proof fn lemma_twos_n(m: int, n: int) requires m > 0, n >= 0 ensures twos(m) >= 0, odd(m) > 0, odd(m) % 2 == 1, odd(m) <= m, m < p2(n) ==> twos(m) < n decreases m
{ if m % 2 == 0 { if n > 0 { lemma_twos_n(m / 2, n - 1); } else { lemma_twos_n(m / 2, 0); } } }
//@fn src/asn1_types/real.rs | drop_floating_point | key=P14
//@floats
//@ret r
//@subst (\w+) as u64 ==> verif_f64_u64(\1)
//@contract
    requires encb(b as int), m.v() matches FV::Fin { m: mm, k, .. } && mm > 0 && -1000 <= k <= 900
    ensures
        r.2 == b, 0 < r.1,
        (r.0 < 0) == m.v()->Fin_neg,
        odd(r.1 as int) == m.v()->m,
        twos(r.1 as int) + sc(r.3 as int, b as int) == m.v()->k + e,
        -0x8000_0000 - 3000 <= r.3 <= 0x8000_0000 + 3000
//@nloops 2
//@ghost entry
    let ghost m0 = m.v(); let ghost e0 = e as int;
    proof { ax_f64(m); lemma_fin_vals(); lemma_p2_vals(); assert(m0->m * 1 == m0->m); }
//@ghost lete#1.after
    proof { assert(m.v() matches FV::Fin { neg, m: mm, k } && !neg && mm == m0->m && -1010 <= k <= 910); assert(b == 2 ==> m.v()->k + e == m0->k + e0); assert(b == 8 ==> m.v()->k + 3 * e == m0->k + e0); assert(b == 16 ==> m.v()->k + 4 * e == m0->k + e0); }
//@loop 0
    invariant
        encb(b as int), m0 matches FV::Fin { m: mm, k, .. } && 0 < mm < p2(53) && mm % 2 == 1 && -1000 <= k <= 900,
        m.v() matches FV::Fin { neg, m: mm, k } && !neg && mm == m0->m && -1010 <= k <= 910 && k + sc(e as int, b as int) == m0->k + e0,
        -0x8000_0000 <= e0 <= 0x7fff_ffff, p2(53) == 0x20_0000_0000_0000,
        fin(false, 2, 0) == (FV::Fin { neg: false, m: 1, k: 1 }), fin(false, 8, 0) == (FV::Fin { neg: false, m: 1, k: 3 }), fin(false, 16, 0) == (FV::Fin { neg: false, m: 1, k: 4 }), fin(false, 0, 0) == (FV::Fin { neg: false, m: 0, k: 0 }),
    decreases (if m.v()->k < 0 { -m.v()->k } else { 0int })
//@ghost loop0.after
    proof { assert(m.v()->k >= 0); }
//@loop 1
    invariant
        encb(b as int), m0 matches FV::Fin { m: mm, k, .. } && 0 < mm < p2(53) && mm % 2 == 1 && -1000 <= k <= 900,
        m.v() matches FV::Fin { neg, m: mm, k } && !neg && mm == m0->m && 0 <= k <= 910 && k + sc(e as int, b as int) == m0->k + e0,
        -0x8000_0000 <= e0 <= 0x7fff_ffff, p2(53) == 0x20_0000_0000_0000,
        fin(false, 2, 0) == (FV::Fin { neg: false, m: 1, k: 1 }), fin(false, 8, 0) == (FV::Fin { neg: false, m: 1, k: 3 }), fin(false, 16, 0) == (FV::Fin { neg: false, m: 1, k: 4 }), fin(false, 0, 0) == (FV::Fin { neg: false, m: 0, k: 0 }),
    decreases m.v()->k
//@ghost loop1.begin
    proof { assert(1 * p2(64) == p2(64)); lemma_big(m.v()->m, m.v()->k); }
//@ghost loop1.after
    proof { assert(1 * p2(64) == p2(64)); assert(m.v()->m * p2(m.v()->k) < p2(64)); lemma_odd_mul(m.v()->m, m.v()->k); lemma_p2_vals(); }
//@endfn
/// std::io::sink()
pub struct Sink { x: u8 }
pub uninterp spec fn sink_out(s: Sink) -> Seq<u8>;
impl Write for Sink {
    open spec fn out(&self) -> Seq<u8> { sink_out(*self) }
    open spec fn infallible(&self) -> bool { true }
    #[verifier::external_body]
    fn write_all(&mut self, buf: &[u8]) -> (r: core::result::Result<(), io::Error>) { unimplemented!() }
}
#[verifier::external_body]
pub fn verif_sink() -> (r: Sink) { unimplemented!() }
/// text of a float or of a signed integer written by `{}` (core::fmt, trusted): not empty, at most 1100 characters
pub uninterp spec fn f_text(v: FV) -> Seq<u8>;
pub uninterp spec fn i_text(n: int) -> Seq<u8>;
pub axiom fn ax_text(v: FV, n: int)
    requires -0x8000_0000 <= n <= 0x7fff_ffff
    ensures 1 <= f_text(v).len() <= 1100, 1 <= i_text(n).len() <= 11;
pub axiom fn ax_plus()
    ensures str_bytes("+") == seq![0x2bu8], str_bytes("") == Seq::<u8>::empty();
impl VerifDisp for &F64 { open spec fn disp(&self) -> Seq<u8> { f_text(self.v()) } }
impl VerifDisp for &i32 { open spec fn disp(&self) -> Seq<u8> { i_text(**self as int) } }
/// NR3 text: mantissa, E, exponent (a zero exponent with a sign)
pub open spec fn dec_text(m: FV, e: int) -> Seq<u8> { seq![3u8] + f_text(m) + seq![0x45u8] + (if e == 0 { seq![0x2bu8] } else { Seq::<u8>::empty() }) + i_text(e) }
/// the numbers the encoder writes: decimal ones, and binary ones whose exponent in the encoding base is a 32-bit number
/// (mantissa within the middle of the range of f64; other mantissas: bounded layer)
pub open spec fn real_ok(r: RV) -> bool {
    match r {
        RV::Bin { m, base, e, enc } => base == 10 || (base == 2 && encb(enc) && i32r(e) && (m matches FV::Fin { m: mm, k, .. } && 0 < mm < p2(53) && mm % 2 == 1 && -1000 <= k <= 900 && i32r((k + e) / lg(enc)))),
        _ => true,
    }
}
pub open spec fn real_enc(r: RV) -> Seq<u8> {
    match r {
        RV::Zero => Seq::empty(), RV::Inf => seq![0x40u8], RV::NegInf => seq![0x41u8], RV::NaN => seq![0x42u8],
        RV::Bin { m, base, e, enc } => if base == 10 { dec_text(m, e) } else { real_cont(m->Fin_neg, m->Fin_m, m->Fin_k + e, enc) },
    }
}
pub proof fn lemma_real_cont_len(neg: bool, m: int, t: int, enc: int)
    requires encb(enc), 0 < m < p2(64), i32r(t / lg(enc))
    ensures 3 <= real_cont(neg, m, t, enc).len() <= 14, 1 <= int_enc(t / lg(enc)).len() <= 4
{ lemma_p2_vals(); lemma_be_min_len(m); lemma_pow256_vals(); lemma_int_enc_len(4, t / lg(enc)); }
pub proof fn lemma_i32_enc(v: int, b: Seq<u8>, n: int)
    requires b.len() == 4, be_val(b) == (if v < 0 { v + 0x1_0000_0000 } else { v }), -0x8000_0000 <= v <= 0x7fff_ffff,
        n == (if -0x80 <= v <= 0x7f { 1int } else if -0x8000 <= v <= 0x7fff { 2 } else if -0x80_0000 <= v <= 0x7f_ffff { 3 } else { 4 }),
    ensures b.subrange(4 - n, 4) == int_enc(v)
{
    let s = b.subrange(4 - n, 4);
    lemma_pow256_vals();
    lemma_be4(b);
    lemma_be4(s);
    assert(int_val(s) == v);
    assert(int_min(s));
    lemma_int_enc_unique(s);
}
pub proof fn lemma_be4(b: Seq<u8>)
    requires 1 <= b.len() <= 4
    ensures be_val(b) == (if b.len() == 1 { b[0] as int } else if b.len() == 2 { b[0] * 256 + b[1] } else if b.len() == 3 { b[0] * 65536 + b[1] * 256 + b[2] } else { b[0] * 16777216 + b[1] * 65536 + b[2] * 256 + b[3] })
    decreases b.len()
{
    let d = b.drop_last();
    if b.len() == 1 { assert(d =~= Seq::<u8>::empty()); assert(be_val(d) == 0); } else {
        lemma_be4(d);
        assert(be_val(b) == be_val(d) * 256 + b.last());
        assert(d[0] == b[0]); if b.len() > 2 { assert(d[1] == b[1]); } if b.len() > 3 { assert(d[2] == b[2]); }
    }
}
pub proof fn lemma_zeros8(b: Seq<u8>)
    requires b.len() == 8, be_val(b) > 0
    ensures bytes_nz(b)
{ if !bytes_nz(b) { lemma_be_val_zeros(b, 8); assert(b.subrange(8, 8) =~= Seq::<u8>::empty()); } }
pub open spec fn bytes_nz(b: Seq<u8>) -> bool { b[7] != 0 || b[6] != 0 || b[5] != 0 || b[4] != 0 || b[3] != 0 || b[2] != 0 || b[1] != 0 || b[0] != 0 }
pub proof fn lemma_real_enc_bits()
    ensures
        forall|x: u64| #![trigger (x & 0x1)] (x & 0x1 == 0) == (x % 2 == 0), forall|x: u64| #![trigger (x & 0x7)] (x & 0x7 == 0) == (x % 8 == 0), forall|x: u64| #![trigger (x & 0xf)] (x & 0xf == 0) == (x % 16 == 0),
        forall|x: u64| #![trigger (x >> 1u64)] x >> 1u64 == x / 2, forall|x: u64| #![trigger (x >> 3u64)] x >> 3u64 == x / 8, forall|x: u64| #![trigger (x >> 4u64)] x >> 4u64 == x / 16,
        0x80u8 | 0x40u8 == 0xc0u8,
        forall|x: u8| #![trigger (x | 0x10u8)] x % 64 == 0 ==> x | 0x10u8 == x + 0x10, forall|x: u8| #![trigger (x | 0x20u8)] x % 64 == 0 ==> x | 0x20u8 == x + 0x20,
        forall|x: u8, s: u8| #![trigger (x | (s << 2u8))] x % 16 == 0 && s < 4 ==> x | (s << 2u8) == x + 4 * s,
        forall|x: u8, s: u8| #![trigger (x | (s & 0x3u8))] x % 4 == 0 && s < 4 ==> x | (s & 0x3u8) == x + s,
        4u8 & 0xffu8 == 4,
{
    assert(forall|x: u64| #![trigger (x & 0x1)] (x & 0x1 == 0) == (x % 2 == 0)) by(bit_vector);
    assert(forall|x: u64| #![trigger (x & 0x7)] (x & 0x7 == 0) == (x % 8 == 0)) by(bit_vector);
    assert(forall|x: u64| #![trigger (x & 0xf)] (x & 0xf == 0) == (x % 16 == 0)) by(bit_vector);
    assert(forall|x: u64| #![trigger (x >> 1u64)] x >> 1u64 == x / 2) by(bit_vector);
    assert(forall|x: u64| #![trigger (x >> 3u64)] x >> 3u64 == x / 8) by(bit_vector);
    assert(forall|x: u64| #![trigger (x >> 4u64)] x >> 4u64 == x / 16) by(bit_vector);
    assert(0x80u8 | 0x40u8 == 0xc0u8) by(bit_vector);
    assert(forall|x: u8| #![trigger (x | 0x10u8)] x % 64 == 0 ==> x | 0x10u8 == x + 0x10) by(bit_vector);
    assert(forall|x: u8| #![trigger (x | 0x20u8)] x % 64 == 0 ==> x | 0x20u8 == x + 0x20) by(bit_vector);
    assert(forall|x: u8, s: u8| #![trigger (x | (s << 2u8))] x % 16 == 0 && s < 4 ==> x | (s << 2u8) == x + 4 * s) by(bit_vector);
    assert(forall|x: u8, s: u8| #![trigger (x | (s & 0x3u8))] x % 4 == 0 && s < 4 ==> x | (s & 0x3u8) == x + s) by(bit_vector);
    assert(4u8 & 0xffu8 == 4) by(bit_vector);
}
//@default src/asn1_types/real.rs | ToBer for Real | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber
impl ToBer for Real {
//@assoctype src/asn1_types/real.rs | ToBer for Real | Encoder
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(9)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(real_enc(rv(*self)).len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { real_enc(rv(*self)) }
    open spec fn ber_pre(&self) -> bool { real_ok(rv(*self)) }
    open spec fn ber_ok(&self) -> bool { real_ok(rv(*self)) }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {
        lemma_p2_vals();
        if let RV::Bin { m, base, e, enc } = rv(*self) {
            ax_text(m, e);
            if base != 10 { lemma_real_cont_len(m->Fin_neg, m->Fin_m, m->Fin_k + e, enc); }
        }
    }
//@fn src/asn1_types/real.rs | ToBer for Real | ber_content_len | key=P03+P14
//@ret r
//@subst io::sink\(\) ==> verif_sink()
//@contract
//@ghost entry
    proof { self.lemma_ber_l(); }
//@endfn
//@fn src/asn1_types/real.rs | ToBer for Real | ber_tag_info | key=P02+P14
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/real.rs | ToBer for Real | ber_write_content | key=P03+P14
//@attr #[verifier::rlimit(120)]
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@ret r
//@subst \.to_be_bytes\(\) ==> .verif_to_be_bytes()
//@subst for &(\w+) in (\w+)\.iter\(\) \{ ==> for __b in \2.iter() { let \1 = *__b;
//@contract
//@nloops 5
//@ghost entry
    proof { self.lemma_ber_l(); lemma_real_enc_bits(); lemma_p2_vals(); ax_plus(); if let RV::Bin { m, e, .. } = rv(*self) { ax_text(m, e); } }
    proof { assert(target.out() + Seq::<u8>::empty() =~= target.out()); assert([0x40u8]@ =~= seq![0x40u8]); assert([0x41u8]@ =~= seq![0x41u8]); assert([0x42u8]@ =~= seq![0x42u8]); assert(rv(*self) is Bin || real_enc(rv(*self)).len() <= 1); }
    let ghost mm = rv(*self)->m->Fin_m; let ghost tt = rv(*self)->m->Fin_k + rv(*self)->e; let ghost neg = rv(*self)->m->Fin_neg;
//@loop 0
    invariant 0 < m, odd(m as int) == mm, twos(m as int) + e == tt, -0x9000_0000 < e < 0x9000_0000
    decreases m
//@ghost loop0.begin
    proof { lemma_shift(m as int); lemma_twos_ge(m as int); }
//@ghost loop0.after
    proof { lemma_shift(m as int); }
//@loop 1
    invariant 0 < m, odd(m as int) == mm, twos(m as int) + 3 * e == tt, -0x9000_0000 < e < 0x9000_0000
    decreases m
//@ghost loop1.begin
    proof { lemma_shift(m as int); lemma_twos_ge(m as int); }
//@ghost loop1.after
    proof { lemma_shift(m as int); lemma_twos_ge(m as int); }
//@loop 2
    invariant 0 < m, odd(m as int) == mm, twos(m as int) + 4 * e == tt, -0x9000_0000 < e < 0x9000_0000
    decreases m
//@ghost loop2.begin
    proof { lemma_shift(m as int); lemma_twos_ge(m as int); }
//@ghost loop2.after
    proof { lemma_shift(m as int); lemma_twos_ge(m as int); }
//@ghost letsf#0.after
    let ghost s0 = twos(m as int);
    let ghost en = enc_base as int;
    proof { assert(e == tt / lg(en) && s0 == tt % lg(en) && s0 <= 3); assert(first == 128 + (if neg { 64int } else { 0 }) + bb_of(en) * 16); }
//@loop 3
    invariant 0 < m, odd(m as int) == mm, twos(m as int) + sf == s0, 0 <= sf <= 3, s0 <= 3
    decreases m
//@ghost loop3.begin
    proof { lemma_shift(m as int); lemma_twos_ge(m as int); assert(m % 2 == 0); lemma_twos_ge(m as int / 2); assert(twos(m as int) >= 1); }
//@ghost loop3.after
    proof { lemma_shift(m as int); lemma_twos_ge(m as int); assert(m as int == mm && sf == s0); }
//@ghost lets#0.after
    proof { assert(string_bytes(s) =~= dec_text(mantissa.v(), *exponent as int)); }
//@ghost letlen_e#0.after
    proof { assert(1 <= len_e <= 4); }
//@ghost letbytes#0.after
    proof { lemma_pow256_vals(); lemma_i32_enc(e as int, bytes@, len_e as int); }
//@ghost letbuf#1.after
    proof {
        let eo = int_enc(tt / lg(en));
        assert(eo.len() == len_e);
        assert(target.out() =~= old(target).out() + (seq![first] + (if len_e == 4 { seq![4u8] } else { Seq::<u8>::empty() }) + eo));
        assert(target.out() + buf@ =~= old(target).out() + real_cont(neg, mm, tt, en));
        assert(n + buf@.len() == real_cont(neg, mm, tt, en).len());
    }
//@ghost loop4.before
    proof { lemma_zeros8(bytes@); }
//@loop 4
    invariant idx == __i0, 0 <= idx < 8, be_val(bytes@) == m, forall|j: int| 0 <= j < idx ==> bytes@[j] == 0, bytes_nz(bytes@)
    ensures 0 <= idx < 8, bytes@[idx as int] != 0, forall|j: int| 0 <= j < idx ==> bytes@[j] == 0
    decreases 8 - __i0
//@ghost loop4.after
    proof { lemma_be_val_zeros(bytes@, idx as int); lemma_be_min_unique(bytes@.subrange(idx as int, 8)); assert(bytes@.subrange(idx as int, 8) == be_min(mm)); }
//@endfn
}impl ToBerX for Real {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@require src/asn1_types/real.rs | impl_toder_from_tober!(TY Real)
//@default src/to_der.rs | ToDer for Real | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=impl_toder_from_tober#0(ty:=Real)
impl ToDer for Real {
//@assoctype src/to_der.rs | ToDer for Real | Encoder | macro=impl_toder_from_tober#0(ty:=Real)
    open spec fn der_i(&self) -> (Class, bool, Tag) { self.ber_i() }
    open spec fn der_l(&self) -> Length { self.ber_l() }
    open spec fn der_c(&self) -> Seq<u8> { self.ber_c() }
    open spec fn der_pre(&self) -> bool { self.ber_pre() }
    open spec fn der_ok(&self) -> bool { self.ber_ok() }
    proof fn lemma_der_i(&self) { self.lemma_ber_i(); }
    proof fn lemma_der_l(&self) { self.lemma_ber_l(); }
//@fn src/to_der.rs | ToDer for Real | der_content_len | key=P03+P14 | macro=impl_toder_from_tober#0(ty:=Real)
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for Real | der_tag_info | key=P02+P14 | macro=impl_toder_from_tober#0(ty:=Real)
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for Real | der_write_content | key=P03+P14 | macro=impl_toder_from_tober#0(ty:=Real)
//@ret r
//@contract
//@endfn
}
impl ToDerX for Real {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}

/// the number a value denotes: neg, odd mantissa, power of two
pub open spec fn real_num(r: RV) -> (bool, int, int) { (r->m->Fin_neg, r->m->Fin_m, r->m->Fin_k + r->e) }
/// what is written is read as the same special value or the same number (in the same encoding base)
pub open spec fn real_same(r: RV, w: RV) -> bool {
    match r { RV::Bin { enc, .. } => w is Bin && w->base == 2 && w->m is Fin && w->enc == enc && real_num(w) == real_num(r) && w->m->Fin_k <= 3 && w->m->Fin_k >= 0, _ => w == r }
}
pub open spec fn real_back(r: RV) -> bool { real_ok(r) && (r matches RV::Bin { m, base, e, enc } ==> base == 2 && i32r(m->Fin_k + e) && i32r(m->Fin_k + e - (m->Fin_k + e) % lg(enc))) }
#[verifier::rlimit(60)]
pub proof fn lemma_real_cont_dec(h: HV, neg: bool, m: int, t: int, enc: int)
    requires !h.cons, encb(enc), 0 < m < p2(53), m % 2 == 1, i32r(t), i32r(t - t % lg(enc))
    ensures real_dec(h, real_cont(neg, m, t, enc)) == Some(RV::Bin { m: FV::Fin { neg, m, k: t % lg(enc) }, base: 2, e: t - t % lg(enc), enc })
{
    lemma_p2_vals(); lemma_pow256_vals();
    let q = t / lg(enc); let eo = int_enc(q); let sf = t % lg(enc);
    assert(i32r(q));
    assert(q * lg(enc) == t - sf) by { if enc == 2 { assert(q * 1 == t); } else if enc == 8 { assert(q * 3 == t - sf); } else { assert(q * 4 == t - sf); } }
    lemma_int_enc(q); lemma_int_enc_len(4, q); lemma_be_min_len(m);
    let c = real_cont(neg, m, t, enc);
    let o = if eo.len() == 4 { 2int } else { 1int };
    assert(c.subrange(o, o + eo.len()) =~= eo);
    assert(c.subrange(o + eo.len(), c.len() as int) =~= be_min(m));
    let f = c[0] as int;
    let l1 = eo.len() - 1;
    assert(f == 128 + (if neg { 64int } else { 0 }) + bb_of(enc) * 16 + sf * 4 + l1);
    assert(f % 4 == l1 && (f / 4) % 4 == sf && (f / 16) % 4 == bb_of(enc) && ((f / 64) % 2 == 1) == neg);
    if eo.len() == 4 { assert(c[1] == 4); }
    assert(exp_at(c) == Some((eo.len() as int, o)));
    assert(mant(neg, m, sf) == FV::Fin { neg, m, k: sf }) by { reveal_with_fuel(odd, 2); reveal_with_fuel(twos, 2); }
}
pub proof fn lemma_real_rt(h: HV, r: RV)
    requires real_back(r), !h.cons, h.len == Length::Definite(real_enc(r).len() as usize)
    ensures real_dec(h, real_enc(r)) matches Some(w) && real_same(r, w)
{ if let RV::Bin { m, base, e, enc } = r { lemma_real_cont_dec(h, m->Fin_neg, m->Fin_m, m->Fin_k + e, enc); } }
/// two equal numbers are written as the same octets
pub proof fn lemma_real_enc_eq(r: RV, w: RV)
    requires r is Bin, w is Bin, r->base == 2, w->base == 2, real_num(r) == real_num(w), r->enc == w->enc
    ensures real_enc(r) == real_enc(w)
{}
/// canonical contents: normalised mantissa, minimal octets, a single way to write zero
pub open spec fn real_canon(c: Seq<u8>) -> bool {
    c.len() <= 1 || exists|neg: bool, m: int, t: int, enc: int| 0 < m < p2(53) && m % 2 == 1 && encb(enc) && i32r(t) && i32r(t - t % lg(enc)) && c == #[trigger] real_cont(neg, m, t, enc)
}
impl<'i> Canon<'i> for Real {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { !h.cons && real_canon(c) }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) {
        lemma_p2_vals();
        if c.len() == 0 { assert(real_enc(RV::Zero) =~= c); }
        else if c.len() == 1 { assert(c =~= seq![c[0]]); if c[0] < 64 { assert(c.subrange(1, 1) =~= Seq::<u8>::empty()); ax_no_text(); } }
        else {
            let (neg, m, t, enc) = choose|neg: bool, m: int, t: int, enc: int| 0 < m < p2(53) && m % 2 == 1 && encb(enc) && i32r(t) && i32r(t - t % lg(enc)) && c == #[trigger] real_cont(neg, m, t, enc);
            lemma_real_cont_dec(h, neg, m, t, enc);
        }
    }
}
}
