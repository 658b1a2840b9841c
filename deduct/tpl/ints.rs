verus! {
// ------------------------------------------------------------------ INTEGER (X.690 8.3)
pub trait VToVec { spec fn tv(&self) -> Seq<u8>; fn verif_to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.tv(); }
impl VToVec for [u8] {
    open spec fn tv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn verif_to_vec(&self) -> (r: Vec<u8>) { unimplemented!() }
}
/// `s.iter().position(f)`
#[verifier::external_body]
pub fn verif_position<F: FnMut(&u8) -> bool>(s: &[u8], f: F) -> (r: Option<usize>)
    requires forall|i: int| 0 <= i < s@.len() ==> #[trigger] f.requires((&s@[i],))
    ensures match r {
        Some(p) => p < s@.len() && f.ensures((&s@[p as int],), true) && forall|i: int| #![trigger s@[i]] 0 <= i < p ==> f.ensures((&s@[i],), false),
        None => forall|i: int| #![trigger s@[i]] 0 <= i < s@.len() ==> f.ensures((&s@[i],), false),
    }
{ unimplemented!() }
/// `s.windows(2).position(f)`
#[verifier::external_body]
pub fn verif_position2<F: FnMut(&[u8]) -> bool>(s: &[u8], f: F) -> (r: Option<usize>)
    requires forall|w: &[u8]| w@.len() == 2 ==> #[trigger] f.requires((w,))
    ensures match r {
        Some(p) => p + 1 < s@.len() && (exists|w: &[u8]| w@ == s@.subrange(p as int, p + 2) && #[trigger] f.ensures((w,), true))
            && forall|i: int| #![trigger s@[i]] 0 <= i < p ==> exists|w: &[u8]| w@ == s@.subrange(i, i + 2) && #[trigger] f.ensures((w,), false),
        None => forall|i: int| #![trigger s@[i]] 0 <= i && i + 1 < s@.len() ==> exists|w: &[u8]| w@ == s@.subrange(i, i + 2) && #[trigger] f.ensures((w,), false),
    }
{ unimplemented!() }

/// two's complement big-endian value
pub open spec fn int_val(c: Seq<u8>) -> int {
    if c.len() > 0 && c[0] >= 128 { be_val(c) - pow256(c.len() as int) } else { be_val(c) }
}
/// one or more octets, the first nine bits not all equal (X.690 8.3.2)
pub open spec fn int_min(c: Seq<u8>) -> bool {
    c.len() > 0 && !(c.len() > 1 && ((c[0] == 0 && c[1] < 128) || (c[0] == 255 && c[1] >= 128)))
}
pub proof fn lemma_pow256(n: int)
    requires 0 <= n
    ensures pow256(n) >= 1, pow256(n + 1) == 256 * pow256(n)
    decreases n
{ if n > 0 { lemma_pow256(n - 1); } }
pub proof fn lemma_pow256_add(a: int, b: int)
    requires 0 <= a, 0 <= b
    ensures pow256(a + b) == pow256(a) * pow256(b)
    decreases b
{
    lemma_pow256(a);
    if b > 0 {
        lemma_pow256_add(a, b - 1);
        lemma_pow256(b - 1);
        lemma_pow256(a + b - 1);
        assert(pow256(a + b) == 256 * (pow256(a) * pow256(b - 1)));
        assert(256 * (pow256(a) * pow256(b - 1)) == pow256(a) * (256 * pow256(b - 1))) by(nonlinear_arith);
    }
}
pub proof fn lemma_pow256_mono(a: int, b: int)
    requires 0 <= a <= b
    ensures pow256(a) <= pow256(b)
    decreases b - a
{ if a < b { lemma_pow256(b - 1); lemma_pow256_mono(a, b - 1); } }
/// value of a concatenation
pub proof fn lemma_be_cat(a: Seq<u8>, b: Seq<u8>)
    ensures be_val(a + b) == be_val(a) * pow256(b.len() as int) + be_val(b)
    decreases b.len()
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        lemma_be_cat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        lemma_pow256(b.len() - 1);
        assert((be_val(a) * pow256(b.len() - 1)) * 256 == be_val(a) * (256 * pow256(b.len() - 1))) by(nonlinear_arith);
    }
}
pub proof fn lemma_be_ub(b: Seq<u8>)
    ensures 0 <= be_val(b) < pow256(b.len() as int)
    decreases b.len()
{
    if b.len() > 0 { lemma_be_ub(b.drop_last()); lemma_pow256(b.len() - 1); }
}
pub proof fn lemma_be_first(b: Seq<u8>)
    requires b.len() > 0
    ensures b[0] * pow256(b.len() - 1) <= be_val(b) < (b[0] + 1) * pow256(b.len() - 1)
{
    let h = b.subrange(0, 1);
    let t = b.subrange(1, b.len() as int);
    assert(h + t =~= b);
    lemma_be_cat(h, t);
    lemma_be_ub(t);
    assert(h.drop_last() =~= Seq::<u8>::empty());
    assert(be_val(h.drop_last()) == 0);
    assert(be_val(h) == b[0]);
    assert((b[0] + 1) * pow256(b.len() - 1) == b[0] * pow256(b.len() - 1) + pow256(b.len() - 1)) by(nonlinear_arith);
}
/// leading zeroes do not change the value
pub proof fn lemma_be_zeros(b: Seq<u8>, k: int)
    requires 0 <= k <= b.len(), forall|i: int| 0 <= i < k ==> b[i] == 0
    ensures be_val(b) == be_val(b.subrange(k, b.len() as int))
    decreases k
{
    if k == 0 { assert(b.subrange(0, b.len() as int) =~= b); }
    else {
        let h = b.subrange(0, 1);
        let t = b.subrange(1, b.len() as int);
        assert(h + t =~= b);
        lemma_be_cat(h, t);
        assert(h.drop_last() =~= Seq::<u8>::empty());
        assert(be_val(h.drop_last()) == 0);
        assert(be_val(h) == 0);
        assert(0 * pow256(t.len() as int) == 0);
        lemma_be_zeros(t, k - 1);
        assert(t.subrange(k - 1, t.len() as int) =~= b.subrange(k, b.len() as int));
    }
}
/// a leading FF followed by a set bit does not change the value
pub proof fn lemma_int_ff(b: Seq<u8>, k: int)
    requires 0 <= k < b.len(), forall|i: int| 0 <= i < k ==> b[i] == 255, b[k] >= 128
    ensures int_val(b) == int_val(b.subrange(k, b.len() as int))
    decreases k
{
    if k == 0 { assert(b.subrange(0, b.len() as int) =~= b); }
    else {
        let h = b.subrange(0, 1);
        let t = b.subrange(1, b.len() as int);
        assert(h + t =~= b);
        lemma_be_cat(h, t);
        assert(h.drop_last() =~= Seq::<u8>::empty());
        assert(be_val(h.drop_last()) == 0);
        assert(be_val(h) == 255);
        lemma_pow256(t.len() as int);
        if k > 1 { assert(t[0] == 255); }
        let p = pow256(t.len() as int);
        assert(pow256(b.len() as int) == 256 * p);
        assert(be_val(h) * p == 255 * p);
        assert(be_val(b) == 255 * p + be_val(t));
        assert(t[0] == b[1] && t[0] >= 128);
        assert(b[0] == 255);
        assert(int_val(b) == be_val(b) - 256 * p);
        assert(int_val(t) == be_val(t) - p);
        assert(t[k - 1] == b[k]);
        assert forall|i: int| 0 <= i < k - 1 implies t[i] == 255 by { assert(t[i] == b[i + 1]); }
        assert(int_val(b) == int_val(t));
        lemma_int_ff(t, k - 1);
        assert(t.subrange(k - 1, t.len() as int) =~= b.subrange(k, b.len() as int));
    }
}
/// sign and range of the value of n octets
pub proof fn lemma_int_range(c: Seq<u8>)
    requires c.len() > 0
    ensures c[0] >= 128 <==> int_val(c) < 0, -128 * pow256(c.len() - 1) <= int_val(c) < 128 * pow256(c.len() - 1)
{
    lemma_be_first(c);
    lemma_be_ub(c);
    let p = pow256(c.len() - 1);
    lemma_pow256(c.len() - 1);
    if c[0] >= 128 {
        assert(c[0] * p >= 128 * p) by(nonlinear_arith) requires c[0] >= 128, p >= 1;
    } else {
        assert((c[0] + 1) * p <= 128 * p) by(nonlinear_arith) requires c[0] < 128, p >= 1;
    }
}
/// a minimal encoding of n octets is out of the range of n-1 octets
pub proof fn lemma_int_min_range(c: Seq<u8>)
    requires int_min(c), c.len() > 1
    ensures int_val(c) < -128 * pow256(c.len() - 2) || int_val(c) >= 128 * pow256(c.len() - 2)
{
    let t = c.subrange(1, c.len() as int);
    let h = c.subrange(0, 1);
    assert(h + t =~= c);
    lemma_be_cat(h, t);
    lemma_be_first(t);
    lemma_be_ub(t);
    assert(h.drop_last() =~= Seq::<u8>::empty());
    assert(be_val(h.drop_last()) == 0);
    assert(be_val(h) == c[0]);
    let p = pow256(c.len() - 2);
    lemma_pow256(c.len() - 2);
    lemma_pow256(c.len() - 1);
    assert(be_val(c) == c[0] * (256 * p) + be_val(t));
    if c[0] >= 128 {
        if c[0] == 255 {
            assert(c[0] * (256 * p) == 255 * (256 * p));
            assert((t[0] + 1) * p <= 128 * p) by(nonlinear_arith) requires t[0] < 128, p >= 1;
        } else {
            assert(c[0] * (256 * p) <= 254 * (256 * p)) by(nonlinear_arith) requires c[0] <= 254, p >= 1;
        }
    } else {
        if c[0] == 0 {
            assert(c[0] * (256 * p) == 0);
            assert(t[0] * p >= 128 * p) by(nonlinear_arith) requires t[0] >= 128, p >= 1;
        } else {
            assert(c[0] * (256 * p) >= 256 * p) by(nonlinear_arith) requires c[0] >= 1, p >= 1;
        }
    }
}
/// minimal encodings of values in the range of n octets have at most n octets
pub proof fn lemma_int_min_len(c: Seq<u8>, n: int)
    requires int_min(c), n >= 1, -128 * pow256(n - 1) <= int_val(c) < 128 * pow256(n - 1)
    ensures c.len() <= n
{
    if c.len() > n {
        lemma_int_min_range(c);
        lemma_pow256_mono(n - 1, c.len() - 2);
    }
}
/// two minimal encodings of the same value are equal
pub proof fn lemma_int_min_unique(a: Seq<u8>, b: Seq<u8>)
    requires int_min(a), int_min(b), int_val(a) == int_val(b)
    ensures a == b
{
    lemma_int_range(a);
    lemma_int_range(b);
    lemma_int_min_len(a, b.len() as int);
    lemma_int_min_len(b, a.len() as int);
    lemma_be_inj(a, b);
}
pub proof fn lemma_be_inj(a: Seq<u8>, b: Seq<u8>)
    requires a.len() == b.len(), be_val(a) == be_val(b)
    ensures a == b
    decreases a.len()
{
    if a.len() == 0 { assert(a =~= b); }
    else {
        assert(a.last() == b.last() && be_val(a.drop_last()) == be_val(b.drop_last())) by {
            let x = be_val(a.drop_last()); let y = be_val(b.drop_last());
            let p = a.last() as int; let q = b.last() as int;
            assert(x * 256 + p == y * 256 + q);
        }
        lemma_be_inj(a.drop_last(), b.drop_last());
        assert(a =~= a.drop_last().push(a.last()));
        assert(b =~= b.drop_last().push(b.last()));
    }
}
pub proof fn lemma_pow256_vals()
    ensures pow256(0) == 1, pow256(1) == 0x100, pow256(2) == 0x1_0000, pow256(4) == 0x1_0000_0000, pow256(8) == 0x1_0000_0000_0000_0000, pow256(16) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000,
        pow256(3) == 0x100_0000, pow256(7) == 0x100_0000_0000_0000, pow256(15) == 0x100_0000_0000_0000_0000_0000_0000_0000,
{
    reveal_with_fuel(pow256, 18);
}

//@fn src/asn1_types/integer.rs | is_highest_bit_set | key=P04
//@ret r
//@closure 0 |__c0: &u8| -> (o: bool) ensures o == (*__c0 >= 128)
//@subst byte & 0b10000000 ==> *byte & 0b10000000
//@contract
    ensures r == (bytes@.len() > 0 && bytes@[0] >= 128)
//@ghost entry
    proof { lemma_bits(); assert(forall|b: u8| #![trigger (b & 0b10000000u8)] ((b & 0b10000000u8) != 0) == (b >= 128)) by(bit_vector); }
//@endfn

//@fn src/asn1_types/integer.rs | trim_slice | key=P04
//@ret r
//@subst bytes\s*\.iter\(\)\s*\.position\( ==> verif_position(bytes, 
//@subst bytes\s*\.windows\(2\)\s*\.position\( ==> verif_position2(bytes, 
//@closure 0 |__c0: &u8| -> (o: bool) ensures o == (*__c0 != 0)
//@closure 1 |__c0: &[u8]| -> (o: bool) ensures __c0@.len() == 2 ==> o == !(__c0@[0] == 0xff && __c0@[1] >= 0x80)
//@contract
    ensures
        bytes@.len() == 0 ==> r@.len() == 0,
        bytes@.len() > 0 ==> 1 <= r@.len() <= bytes@.len(),
        bytes@.len() > 0 && bytes@[0] < 128 ==> be_val(r@) == be_val(bytes@) && (r@.len() == 1 || r@[0] != 0),
        bytes@.len() > 0 && bytes@[0] >= 128 ==> int_val(r@) == int_val(bytes@) && int_min(r@),
//@ghost entry
    proof {
        assert forall|k: int| 0 <= k <= bytes@.len() && (forall|i: int| 0 <= i < k ==> bytes@[i] == 0) implies be_val(bytes@) == be_val(#[trigger] bytes@.subrange(k, bytes@.len() as int)) by { lemma_be_zeros(bytes@, k); }
        assert forall|k: int| 0 <= k < bytes@.len() && (forall|i: int| 0 <= i < k ==> #[trigger] bytes@[i] == 255 && bytes@[i + 1] >= 128) && bytes@[0] >= 128 implies int_val(bytes@) == int_val(#[trigger] bytes@.subrange(k, bytes@.len() as int)) && bytes@[k] >= 128 by { if k > 0 { assert(bytes@[k - 1] == 255); } lemma_int_ff(bytes@, k); }
        assert(forall|i: int| 0 <= i && i + 1 < bytes@.len() ==> (#[trigger] bytes@.subrange(i, i + 2))[0] == bytes@[i] && bytes@.subrange(i, i + 2)[1] == bytes@[i + 1]);
    }
//@endfn

//@fn src/asn1_types/integer.rs | decode_array_uint | key=P04
//@ret r
//@sigsub Result<[u8; N]> ==> core::result::Result<[u8; N], Error>
//@contract
    requires N >= 1
    ensures match r {
        Ok(ar) => bytes@.len() > 0 && bytes@[0] < 128 && be_val(ar@) == be_val(bytes@),
        Err(_) => bytes@.len() == 0 || bytes@[0] >= 128 || be_val(bytes@) >= pow256(N as int),
    }
//@ghost letinput#0.after
    proof {
        if input@.len() > N {
            lemma_be_first(input@);
            lemma_pow256_mono(N as int, input@.len() - 1);
            let p = pow256(input@.len() - 1);
            lemma_pow256(input@.len() - 1);
            assert(input@[0] * p >= p) by(nonlinear_arith) requires input@[0] >= 1, p >= 1;
        }
    }
//@ghost copy_from_slice#0.after
    proof {
        let k = N - input@.len();
        assert(output@.subrange(k, N as int) =~= input@);
        assert(forall|i: int| 0 <= i < k ==> output@[i] == 0);
        lemma_be_zeros(output@, k);
    }
//@endfn

//@fn src/asn1_types/integer.rs | decode_array_int | key=P04
//@ret r
//@sigsub Result<[u8; N]> ==> core::result::Result<[u8; N], Error>
//@contract
    ensures match r {
        Ok(ar) => bytes@.len() <= N && ar@ == Seq::new((N - bytes@.len()) as nat, |i: int| 255u8) + bytes@
            && (bytes@.len() > 0 && bytes@[0] >= 128 ==> ar@[0] >= 128 && int_val(ar@) == int_val(bytes@) && be_val(ar@) >= 128 * pow256(N - 1)),
        Err(_) => bytes@.len() > N,
    }
//@ghost copy_from_slice#0.after
    proof {
        let k = N - bytes@.len();
        assert(output@.subrange(k, N as int) =~= bytes@);
        assert(output@ =~= Seq::new((N - bytes@.len()) as nat, |i: int| 255u8) + bytes@);
        if bytes@.len() > 0 && bytes@[0] >= 128 { lemma_int_ff(output@, k); lemma_be_first(output@); lemma_pow256(N - 1); let p = pow256(N - 1); assert(output@[0] * p >= 128 * p) by(nonlinear_arith) requires output@[0] >= 128, p >= 1; }
    }
//@endfn
//@fn src/asn1_types/integer.rs | check_der_int_constraints_input | key=P09
//@ret r
//@sigsub Result<(), DerConstraint> ==> core::result::Result<(), DerConstraint>
//@contract
    ensures r is Ok == int_min(input.b())
//@endfn
//@fn src/asn1_types/integer.rs | check_der_int_constraints | key=P09
//@ret r
//@contract
    ensures r is Ok == (!any.header.constructed && any.header.length is Definite && int_min(any.data.b()))
//@endfn

// ------------------------------------------------------------------ primitive integers
/// decoding of an INTEGER content into a type of n octets
pub open spec fn uint_dec(n: int, h: HV, c: Seq<u8>) -> Option<int> {
    if h.cons || c.len() == 0 || c[0] >= 128 || be_val(c) >= pow256(n) { None } else { Some(int_val(c)) }
}
/// negative values are only read from at most n octets (longer encodings are not minimal, hence invalid: X.690 8.3.2)
pub open spec fn sint_dec(n: int, h: HV, c: Seq<u8>) -> Option<int> {
    if h.cons || c.len() == 0 || (c[0] >= 128 && c.len() > n) || (c[0] < 128 && be_val(c) >= 128 * pow256(n - 1)) { None } else { Some(int_val(c)) }
}
pub open spec fn der_only(c: Seq<u8>, v: Option<int>) -> Option<int> { if int_min(c) { v } else { None } }
/// a minimal encoding is accepted exactly if the value fits the type
pub proof fn lemma_int_dec(n: int, h: HV, c: Seq<u8>)
    requires n >= 1, int_min(c)
    ensures
        !h.cons && 0 <= int_val(c) < pow256(n) ==> uint_dec(n, h, c) == Some(int_val(c)),
        !h.cons && -128 * pow256(n - 1) <= int_val(c) < 128 * pow256(n - 1) ==> sint_dec(n, h, c) == Some(int_val(c)),
        uint_dec(n, h, c) is Some ==> 0 <= int_val(c) < pow256(n),
        sint_dec(n, h, c) is Some ==> -128 * pow256(n - 1) <= int_val(c) < 128 * pow256(n - 1),
{
    lemma_int_range(c);
    lemma_be_ub(c);
    lemma_pow256(n - 1);
    if -128 * pow256(n - 1) <= int_val(c) < 128 * pow256(n - 1) { lemma_int_min_len(c, n); }
    if c.len() <= n { lemma_pow256_mono(c.len() - 1, n - 1); }
}
//@repeat $ty,$n : u8,1 ; u16,2 ; u32,4 ; u64,8 ; u128,16 ; usize,8
impl Tagged for $ty {
//@consts src/asn1_types/integer.rs | Tagged for $ty | macro=impl_uint#0(ty:=$ty)
}
impl<'i> BerContent<'i> for $ty {
    type Error = BerError<Input<'i>>;
    type V = int;
    open spec fn sp_val(&self) -> int { *self as int }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<int> { uint_dec($n, h, c) }
//@fn src/asn1_types/integer.rs | BerParser<'i> for $ty | from_ber_content | key=P04 | macro=impl_uint#0(ty:=$ty)
//@ret res
//@subst \bSelf::from_be_bytes\( ==> $ty::verif_from_be_bytes(
//@contract
//@ghost entry
    proof { lemma_pow256_vals(); }
//@endfn
}
impl<'i> DerContent<'i> for $ty {
    type Error = BerError<Input<'i>>;
    type DV = int;
    open spec fn sp_dval(&self) -> int { *self as int }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<int> { der_only(c, uint_dec($n, h, c)) }
//@fn src/asn1_types/integer.rs | DerParser<'i> for $ty | from_der_content | key=P09 | macro=impl_uint#0(ty:=$ty)
//@ret res
//@subst \bSelf::from_ber_content\( ==> <Self as BerContent>::from_ber_content(
//@contract
//@endfn
}
impl CheckDerConstraints for $ty {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { !h.cons && h.len is Definite && int_min(c) }
//@fn src/asn1_types/integer.rs | CheckDerConstraints for $ty | check_constraints | key=P09 | macro=impl_uint#0(ty:=$ty)
//@ret res
//@contract
//@endfn
}
//@endrepeat
//@repeat $int,$uint,$n,$half : i8,u8,1,0x80 ; i16,u16,2,0x8000 ; i32,u32,4,0x8000_0000 ; i64,u64,8,0x8000_0000_0000_0000 ; i128,u128,16,0x8000_0000_0000_0000_0000_0000_0000_0000 ; isize,usize,8,0x8000_0000_0000_0000
impl Tagged for $int {
//@consts src/asn1_types/integer.rs | Tagged for $int | macro=impl_int#0(int:=$int,uint:=$uint)
}
impl<'i> BerContent<'i> for $int {
    type Error = BerError<Input<'i>>;
    type V = int;
    open spec fn sp_val(&self) -> int { *self as int }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<int> { sint_dec($n, h, c) }
//@fn src/asn1_types/integer.rs | BerParser<'i> for $int | from_ber_content | key=P04 | macro=impl_int#0(int:=$int,uint:=$uint)
//@ret res
//@subst <$uint>::from_be_bytes\( ==> $uint::verif_from_be_bytes(
//@contract
//@ghost entry
    proof {
        lemma_pow256_vals();
        assert(forall|u: $uint| #![trigger (u as $int)] u >= $half ==> (u as $int) == add(sub(u, $half) as $int, $int::MIN)) by(bit_vector);
        assert(forall|u: $uint| #![trigger (u as $int)] u >= $half ==> (u as $int) == u - $half - $half);
    }
//@endfn
}
impl<'i> DerContent<'i> for $int {
    type Error = BerError<Input<'i>>;
    type DV = int;
    open spec fn sp_dval(&self) -> int { *self as int }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<int> { der_only(c, sint_dec($n, h, c)) }
//@fn src/asn1_types/integer.rs | DerParser<'i> for $int | from_der_content | key=P09 | macro=impl_int#0(int:=$int,uint:=$uint)
//@ret res
//@subst \bSelf::from_ber_content\( ==> <Self as BerContent>::from_ber_content(
//@contract
//@endfn
}
impl CheckDerConstraints for $int {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { !h.cons && h.len is Definite && int_min(c) }
//@fn src/asn1_types/integer.rs | CheckDerConstraints for $int | check_constraints | key=P09 | macro=impl_int#0(int:=$int,uint:=$uint)
//@ret res
//@contract
//@endfn
}
//@endrepeat

// ------------------------------------------------------------------ Integer (any size)
//@item src/asn1_types/integer.rs | struct Integer
impl Tagged for Integer<'_> {
//@consts src/asn1_types/integer.rs | Tagged for Integer<'_>
}
pub open spec fn integer_dec(h: HV, c: Seq<u8>) -> Option<Seq<u8>> {
    match der_content_spec(c, h) { Some((n, m)) => if h.cons || n == 0 { None } else { Some(c.subrange(0, n)) }, None => None }
}
impl<'i> BerContent<'i> for Integer<'i> {
    type Error = BerError<Input<'i>>;
    type V = Seq<u8>;
    open spec fn sp_val(&self) -> Seq<u8> { cow_seq(self.data) }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { integer_dec(h, c) }
//@fn src/asn1_types/integer.rs | BerParser<'i> for Integer<'i> | from_ber_content | key=P04
//@ret res
//@contract
//@endfn
}
impl<'i> DerContent<'i> for Integer<'i> {
    type Error = BerError<Input<'i>>;
    type DV = Seq<u8>;
    open spec fn sp_dval(&self) -> Seq<u8> { cow_seq(self.data) }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { if int_min(c) { integer_dec(h, c) } else { None } }
//@fn src/asn1_types/integer.rs | DerParser<'i> for Integer<'i> | from_der_content | key=P09
//@ret res
//@subst \bSelf::from_ber_content\( ==> <Self as BerContent>::from_ber_content(
//@contract
//@endfn
}
impl CheckDerConstraints for Integer<'_> {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { !h.cons && h.len is Definite && int_min(c) }
//@fn src/asn1_types/integer.rs | CheckDerConstraints for Integer<'_> | check_constraints | key=P09
//@ret res
//@contract
//@endfn
}
impl<'a> Integer<'a> {
//@fn src/asn1_types/integer.rs | Integer<'a> | new | key=P05
//@ret r
//@contract
    ensures cow_seq(r.data) == s@
//@endfn
//@fn src/asn1_types/integer.rs | Integer<'a> | from_const_array | key=P05
//@ret r
//@subst \.to_vec\(\) ==> .verif_to_vec()
//@contract
    requires N > 0
    ensures int_val(cow_seq(r.data)) == be_val(b@), int_min(cow_seq(r.data))
//@nloops 1
//@loop 0
    invariant 0 <= idx < N, forall|i: int| 0 <= i < idx ==> b@[i] == 0, b@[idx as int] < 128
    ensures 0 <= idx < N, forall|i: int| 0 <= i < idx ==> b@[i] == 0, b@[idx as int] < 128, idx + 1 < N ==> !(b@[idx as int] == 0 && b@[idx + 1] < 0x80)
    decreases N - idx
//@ghost entry
    proof {
        assert forall|k: int| 0 <= k <= N && (forall|i: int| 0 <= i < k ==> b@[i] == 0) implies be_val(b@) == be_val(#[trigger] b@.subrange(k, N as int)) by { lemma_be_zeros(b@, k); }
        assert forall|s: Seq<u8>| s.len() == N + 1 && s[0] == 0 && s.subrange(1, N + 1) == b@ implies #[trigger] be_val(s) == be_val(b@) by { lemma_be_zeros(s, 1); }
    }
//@ghost extend_from_slice#0.after
    proof { assert(bytes@.subrange(1, N + 1) =~= b@); }
//@endfn
//@fn src/asn1_types/integer.rs | Integer<'a> | from_const_array_negative | key=P05
//@ret r
//@subst \.to_vec\(\) ==> .verif_to_vec()
//@contract
    requires N > 0, b@[0] >= 128
    ensures int_val(cow_seq(r.data)) == int_val(b@), int_min(cow_seq(r.data))
//@nloops 1
//@loop 0
    invariant 0 <= idx < N, forall|i: int| 0 <= i < idx ==> b@[i] == 255, b@[idx as int] >= 128
    ensures 0 <= idx < N, forall|i: int| 0 <= i < idx ==> b@[i] == 255, b@[idx as int] >= 128, idx + 1 < N ==> !(b@[idx as int] == 255 && b@[idx + 1] >= 0x80)
    decreases N - idx
//@ghost entry
    proof {
        assert forall|k: int| 0 <= k < N && (forall|i: int| 0 <= i < k ==> b@[i] == 255) && b@[k] >= 128 implies int_val(b@) == int_val(#[trigger] b@.subrange(k, N as int)) by { lemma_int_ff(b@, k); }
    }
//@endfn
//@repeat $ty,$n : u8,1 ; u16,2 ; u32,4 ; u64,8 ; u128,16 ; usize,8
//@fn src/asn1_types/integer.rs | Integer<'_> | from_$ty | key=P05 | macro=impl_from_to#2(ty:=$ty,from:=from_$ty)
//@ret r
//@subst i\.to_be_bytes\(\) ==> i.verif_to_be_bytes()
//@contract
    ensures int_val(cow_seq(r.data)) == i, int_min(cow_seq(r.data))
//@endfn
//@endrepeat
//@repeat $ty,$n : i8,1 ; i16,2 ; i32,4 ; i64,8 ; i128,16 ; isize,8
//@fn src/asn1_types/integer.rs | Integer<'_> | from_$ty | key=P05 | macro=impl_from_to#1(ty:=$ty,from:=from_$ty)
//@ret r
//@subst i\.to_be_bytes\(\) ==> i.verif_to_be_bytes()
//@contract
    ensures int_val(cow_seq(r.data)) == i, int_min(cow_seq(r.data))
//@ghost letb#0.after
    proof { lemma_pow256_vals(); lemma_be_first(b@); lemma_pow256($n - 1); let p = pow256($n - 1); let x = b@[0] as int;
        if x < 128 { assert((x + 1) * p <= 128 * p) by(nonlinear_arith) requires x < 128, p >= 1; } }
//@endfn
//@endrepeat
}
//@repeat $ty : u8 ; u16 ; u32 ; u64 ; u128 ; usize ; i8 ; i16 ; i32 ; i64 ; i128 ; isize
impl<'a> Integer<'a> {
//@fn src/asn1_types/integer.rs | From<$ty> for Integer<'_> | from | key=P05 | macro=impl_from_to#0(ty:=$ty,from:=from_$ty,to:=as_$ty) | rename=verif_from_$ty
//@ret r
//@contract
    ensures int_val(cow_seq(r.data)) == i, int_min(cow_seq(r.data))
//@endfn
}
//@endrepeat
/// encoding then decoding gives the value back; the encoding is the only one DER accepts
pub proof fn lemma_int_roundtrip(n: int, h: HV, c: Seq<u8>, v: int)
    requires n >= 1, int_min(c), int_val(c) == v, !h.cons
    ensures
        0 <= v < pow256(n) ==> der_only(c, uint_dec(n, h, c)) == Some(v),
        -128 * pow256(n - 1) <= v < 128 * pow256(n - 1) ==> der_only(c, sint_dec(n, h, c)) == Some(v),
        forall|d: Seq<u8>| #[trigger] der_only(d, uint_dec(n, h, d)) == Some(v) ==> d == c,
        forall|d: Seq<u8>| #[trigger] der_only(d, sint_dec(n, h, d)) == Some(v) ==> d == c,
{
    lemma_int_dec(n, h, c);
    assert forall|d: Seq<u8>| #[trigger] der_only(d, uint_dec(n, h, d)) == Some(v) implies d == c by { lemma_int_min_unique(c, d); }
    assert forall|d: Seq<u8>| #[trigger] der_only(d, sint_dec(n, h, d)) == Some(v) implies d == c by { lemma_int_min_unique(c, d); }
}
}
