verus! {
// ---- bit strings
pub assume_specification<T>[ <[T]>::split_last ](s: &[T]) -> (r: Option<(&T, &[T])>)
    ensures match r { Some((l, i)) => s@.len() > 0 && *l == s@.last() && i@ == s@.drop_last(), None => s@.len() == 0 };
pub proof fn lemma_last_octet(b: u8, s: u8)
    requires s < 8
    ensures forall|k: u8| #![trigger ((b & (0xffu8 << s)) >> k)] k < 8 ==> (((b & (0xffu8 << s)) >> k) & 1 == (if k >= s { (b >> k) & 1 } else { 0 }))
{
    assert forall|k: u8| #![trigger ((b & (0xffu8 << s)) >> k)] k < 8 implies (((b & (0xffu8 << s)) >> k) & 1 == (if k >= s { (b >> k) & 1 } else { 0 })) by {
        assert(s < 8 && k < 8 ==> ((b & (0xffu8 << s)) >> k) & 1 == (if k >= s { (b >> k) & 1 } else { 0 })) by(bit_vector);
    }
}
/// the octet of eight bits, most significant first
pub open spec fn oct_of(v: Seq<bool>) -> u8 {
    ((if v[0] { 128int } else { 0 }) + (if v[1] { 64int } else { 0 }) + (if v[2] { 32int } else { 0 }) + (if v[3] { 16int } else { 0 })
        + (if v[4] { 8int } else { 0 }) + (if v[5] { 4int } else { 0 }) + (if v[6] { 2int } else { 0 }) + (if v[7] { 1int } else { 0 })) as u8
}
pub open spec fn bit_at(v: Seq<bool>, i: int) -> bool { 0 <= i < v.len() && v[i] }
/// the i-th octet of a bit string, padded with zero bits
pub open spec fn bit_oct(v: Seq<bool>, i: int) -> u8 { oct_of(Seq::new(8, |k: int| bit_at(v, 8 * i + k))) }
pub open spec fn bit_octs(v: Seq<bool>) -> Seq<u8> { Seq::new(((v.len() + 7) / 8) as nat, |i: int| bit_oct(v, i)) }
/// contents octets (X.690 8.6.2): number of unused bits, then the bits (11.2.1: unused bits are zero)
pub open spec fn bit_cont(v: Seq<bool>) -> Seq<u8> { seq![(8 * ((v.len() + 7) / 8) - v.len()) as u8] + bit_octs(v) }
pub proof fn lemma_oct_bits(b: u8)
    ensures b == oct_of(Seq::new(8, |k: int| (b >> ((7 - k) as u8)) & 1 == 1))
{
    let v = Seq::new(8, |k: int| (b >> ((7 - k) as u8)) & 1 == 1);
    assert(b == add(add(add(mul((b >> 7u8) & 1, 128), mul((b >> 6u8) & 1, 64)), add(mul((b >> 5u8) & 1, 32), mul((b >> 4u8) & 1, 16))), add(add(mul((b >> 3u8) & 1, 8), mul((b >> 2u8) & 1, 4)), add(mul((b >> 1u8) & 1, 2), (b >> 0u8) & 1)))) by(bit_vector);
    assert(forall|k: u8| #![trigger b >> k] (b >> k) & 1 == 0 || (b >> k) & 1 == 1) by(bit_vector);
    assert(v[0] == ((b >> 7u8) & 1 == 1) && v[1] == ((b >> 6u8) & 1 == 1) && v[2] == ((b >> 5u8) & 1 == 1) && v[3] == ((b >> 4u8) & 1 == 1));
    assert(v[4] == ((b >> 3u8) & 1 == 1) && v[5] == ((b >> 2u8) & 1 == 1) && v[6] == ((b >> 1u8) & 1 == 1) && v[7] == ((b >> 0u8) & 1 == 1));
}
/// octets whose first bits are v, the last one masked, are bit_octs(v)
pub proof fn lemma_bit_octs(raw: Seq<u8>, v: Seq<bool>)
    requires raw.len() == (v.len() + 7) / 8, bits_of(raw).subrange(0, v.len() as int) == v
    ensures
        raw.len() == 0 ==> bit_octs(v) == Seq::<u8>::empty(),
        raw.len() > 0 ==> bit_octs(v) == raw.drop_last().push(raw.last() & (0xffu8 << ((8 * raw.len() - v.len()) as u8))),
{
    let n = raw.len() as int;
    if n == 0 { assert(bit_octs(v) =~= Seq::<u8>::empty()); } else {
        let s = (8 * n - v.len()) as u8;
        let m = raw.last() & (0xffu8 << s);
        let w = raw.drop_last().push(m);
        assert(s < 8);
        lemma_last_octet(raw.last(), s);
        assert forall|i: int| 0 <= i < n implies w[i] == bit_oct(v, i) by {
            lemma_oct_bits(w[i]);
            let a = Seq::new(8, |k: int| (w[i] >> ((7 - k) as u8)) & 1 == 1);
            let c = Seq::new(8, |k: int| bit_at(v, 8 * i + k));
            assert forall|k: int| 0 <= k < 8 implies a[k] == c[k] by {
                let j = 8 * i + k;
                assert(j / 8 == i && j % 8 == k);
                let kk = (7 - k) as u8;
                if j < v.len() { assert(v[j] == bits_of(raw)[j]); }
                if i == n - 1 { let y = ((raw.last() & (0xffu8 << s)) >> kk); }
            }
            assert(a =~= c);
        }
        assert(bit_octs(v) =~= w);
    }
}
//@default src/asn1_types/bitstring.rs | ToBer for BitString | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber
impl ToBer for BitString {
//@assoctype src/asn1_types/bitstring.rs | ToBer for BitString | Encoder
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(3)) }
    open spec fn ber_l(&self) -> Length { Length::Definite((1 + (self.bitvec.bits().len() + 7) / 8) as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { bit_cont(self.bitvec.bits()) }
    open spec fn ber_pre(&self) -> bool { self.bitvec.bits().len() <= usize::MAX / 8 }
    open spec fn ber_ok(&self) -> bool { self.bitvec.bits().len() <= usize::MAX / 8 && self.bitvec.aligned() }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {  }
//@fn src/asn1_types/bitstring.rs | ToBer for BitString | ber_content_len | key=P03+P10
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/bitstring.rs | ToBer for BitString | ber_tag_info | key=P02+P10
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/bitstring.rs | ToBer for BitString | ber_write_content | key=P03+P10
//@ret r
//@subst (?#opt)\blast_byte & ==> *last_byte & 
//@contract
//@ghost entry
        proof {
            let v = self.bitvec.bits();
            lemma_arr1();
            assert forall|s: usize| #![trigger 0xffu8 << s] s < 8 implies 0xffu8 << s == 0xffu8 << (s as u8) by { assert(s < 8 ==> 0xffu8 << s == 0xffu8 << (s as u8)) by(bit_vector); }
        }
//@ghost letignored#0.after
        proof {
            lemma_bit_octs(data@, self.bitvec.bits());
            let v = self.bitvec.bits(); let o = old(target).out(); let x = seq![(8 * ((v.len() + 7) / 8) - v.len()) as u8];
            if data@.len() > 0 { let m = data@.last() & (0xffu8 << ((8 * data@.len() - v.len()) as u8)); assert(o + x + data@.drop_last() + seq![m] =~= o + bit_cont(v)); } else { assert(o + x =~= o + bit_cont(v)); }
        }
//@endfn
}
impl ToBerX for BitString {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@require src/asn1_types/bitstring.rs | impl_toder_from_tober!(TY BitString)
//@default src/to_der.rs | ToDer for BitString | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=impl_toder_from_tober#0(ty:=BitString)
impl ToDer for BitString {
//@assoctype src/to_der.rs | ToDer for BitString | Encoder | macro=impl_toder_from_tober#0(ty:=BitString)
    open spec fn der_i(&self) -> (Class, bool, Tag) { self.ber_i() }
    open spec fn der_l(&self) -> Length { self.ber_l() }
    open spec fn der_c(&self) -> Seq<u8> { self.ber_c() }
    open spec fn der_pre(&self) -> bool { self.ber_pre() }
    open spec fn der_ok(&self) -> bool { self.ber_ok() }
    proof fn lemma_der_i(&self) { self.lemma_ber_i(); }
    proof fn lemma_der_l(&self) { self.lemma_ber_l(); }
//@fn src/to_der.rs | ToDer for BitString | der_content_len | key=P03 | macro=impl_toder_from_tober#0(ty:=BitString)
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for BitString | der_tag_info | key=P02 | macro=impl_toder_from_tober#0(ty:=BitString)
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for BitString | der_write_content | key=P03 | macro=impl_toder_from_tober#0(ty:=BitString)
//@ret r
//@contract
//@endfn
}
impl ToDerX for BitString {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
// ---- character strings
pub mod strlem { use super::*; verus! {
/// `Deref` of a `Cow<str>`
pub broadcast axiom fn axiom_cow_deref_str<'a, 'b>(c: &'b Cow<'a, str>)
    ensures #![trigger cow_deref::<str>(c)] str_bytes(cow_deref::<str>(c)) == cow_sbytes(*c), cow_deref::<str>(c)@ == cow_chars(*c);
} }
pub assume_specification[ String::len ](s: &String) -> (r: usize) ensures r == string_bytes(*s).len();
pub assume_specification[ String::as_bytes ](s: &String) -> (r: &[u8]) ensures r@ == string_bytes(*s);
/// an iterator that yields the elements of a sequence
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VSeqIter<T> { t: T }
impl<T> VSeqIter<T> {
    pub uninterp spec fn rem(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures match r {
            Some(x) => old(self).rem().len() > 0 && x == old(self).rem()[0] && final(self).rem() == old(self).rem().subrange(1, old(self).rem().len() as int),
            None => old(self).rem().len() == 0 && final(self).rem() == old(self).rem(),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self.rem().len() { unimplemented!() }
}
/// `str::chars`
#[verifier::external_body]
pub fn verif_chars(s: &str) -> (r: VSeqIter<char>) ensures r.rem() == s@ { unimplemented!() }
/// `str::encode_utf16`
#[verifier::external_body]
pub fn verif_encode_utf16(s: &str) -> (r: VSeqIter<u16>) ensures r.rem() == utf16_enc(scalars(s@)) { unimplemented!() }
/// UTF-16 code units of Unicode scalar values
pub open spec fn utf16_enc(v: Seq<int>) -> Seq<u16>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else { utf16_one(v[0]) + utf16_enc(v.subrange(1, v.len() as int)) }
}
pub open spec fn utf16_one(x: int) -> Seq<u16> { if x < 0x1_0000 { seq![x as u16] } else { seq![(0xd800 + (x - 0x1_0000) / 0x400) as u16, (0xdc00 + (x - 0x1_0000) % 0x400) as u16] } }
pub proof fn lemma_utf16_len(v: Seq<int>)
    ensures v.len() <= utf16_enc(v).len() <= 2 * v.len()
    decreases v.len()
{ if v.len() > 0 { lemma_utf16_len(v.subrange(1, v.len() as int)); } }
/// decoding gives the characters back
pub proof fn lemma_utf16_rt(v: Seq<int>)
    requires forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> scalar(v[i])
    ensures utf16_dec(utf16_enc(v)) == Some(v)
    decreases v.len()
{
    if v.len() > 0 {
        let t = v.subrange(1, v.len() as int);
        let e = utf16_enc(v); let u = utf16_one(v[0]);
        lemma_utf16_rt(t);
        assert(scalar(v[0]));
        assert(seq![v[0]] + t =~= v);
        assert(e.subrange(u.len() as int, e.len() as int) =~= utf16_enc(t));
        assert(e[0] == u[0]);
        if u.len() == 2 { assert(e[1] == u[1]); }
    }
}
/// octets of 16-bit units, most significant first
pub open spec fn be16(v: Seq<u16>) -> Seq<u8> { Seq::new(2 * v.len(), |i: int| if i % 2 == 0 { (v[i / 2] / 256) as u8 } else { (v[i / 2] % 256) as u8 }) }
pub proof fn lemma_be16(v: Seq<u16>)
    ensures units16(be16(v)) == v
{ assert(units16(be16(v)) =~= v); }
pub proof fn lemma_be16_step(v: Seq<u16>, k: int)
    requires 0 <= k < v.len()
    ensures be16(v.subrange(0, k)).push((v[k] / 256) as u8).push((v[k] % 256) as u8) == be16(v.subrange(0, k + 1))
{ assert(be16(v.subrange(0, k)).push((v[k] / 256) as u8).push((v[k] % 256) as u8) =~= be16(v.subrange(0, k + 1))); }
pub open spec fn oct4(x: int) -> Seq<u8> { seq![(x / 0x100_0000) as u8, (x / 0x1_0000 % 256) as u8, (x / 256 % 256) as u8, (x % 256) as u8] }
/// octets of 32-bit units, most significant first
pub open spec fn be32(v: Seq<int>) -> Seq<u8> { Seq::new(4 * v.len(), |i: int| oct4(v[i / 4])[i % 4]) }
pub proof fn lemma_ucs4_oct4(x: int)
    requires 0 <= x <= 0xffff_ffff
    ensures ucs4(oct4(x)) == x
{
    let w = oct4(x);
    let (a, b, c) = (x / 0x100, x / 0x1_0000, x / 0x100_0000);
    assert(b == a / 256 && c == b / 256 && 0 <= c < 256);
    assert(w[0] == c && w[1] == b - 256 * c && w[2] == a - 256 * b && w[3] == x - 256 * a);
}
pub proof fn lemma_be32_at(v: Seq<int>, i: int)
    requires 0 <= i < v.len()
    ensures be32(v).len() == 4 * v.len(), be32(v).subrange(4 * i, 4 * i + 4) == oct4(v[i])
{
    let w = be32(v).subrange(4 * i, 4 * i + 4);
    assert forall|k: int| 0 <= k < 4 implies #[trigger] w[k] == oct4(v[i])[k] by {
        let j = 4 * i + k;
        assert(j / 4 == i && j % 4 == k);
        assert(w[k] == be32(v)[j]);
    }
    assert(w =~= oct4(v[i]));
}
pub proof fn lemma_be32(v: Seq<int>)
    requires forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> 0 <= v[i] <= 0xffff_ffff
    ensures units32(be32(v)) == v
{
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] units32(be32(v))[i] == v[i] by {
        lemma_be32_at(v, i);
        lemma_ucs4_oct4(v[i]);
    }
    assert(units32(be32(v)) =~= v);
}
pub proof fn lemma_be32_step(v: Seq<int>, k: int)
    requires 0 <= k < v.len()
    ensures be32(v.subrange(0, k)) + oct4(v[k]) == be32(v.subrange(0, k + 1))
{ assert(be32(v.subrange(0, k)) + oct4(v[k]) =~= be32(v.subrange(0, k + 1))); }
pub proof fn lemma_oct4_be(b: Seq<u8>)
    requires b.len() == 4
    ensures b == oct4(be_val(b))
{
    assert(b.drop_last().drop_last().drop_last().drop_last() =~= Seq::<u8>::empty());
    let (d3, d2, d1) = (b.drop_last(), b.drop_last().drop_last(), b.drop_last().drop_last().drop_last());
    assert(be_val(d1.drop_last()) == 0);
    assert(be_val(d1) == b[0]);
    assert(be_val(d2) == be_val(d1) * 256 + b[1]);
    assert(be_val(d3) == be_val(d2) * 256 + b[2]);
    assert(be_val(b) == be_val(d3) * 256 + b[3]);
    assert(b =~= oct4(be_val(b)));
}
//@default src/asn1_types/strings.rs | ToBer for NumericString<'_> | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber | macro=asn1_string#0(name:=NumericString,sname:=x)
impl<'a> ToBer for NumericString<'a> {
//@assoctype src/asn1_types/strings.rs | ToBer for NumericString<'_> | Encoder | macro=asn1_string#0(name:=NumericString,sname:=x)
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(18)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(self.ber_c().len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { fits(self.ber_c().len() as int) }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {  }
//@fn src/asn1_types/strings.rs | ToBer for NumericString<'_> | ber_content_len | key=P03+P12 | macro=asn1_string#0(name:=NumericString,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
//@fn src/asn1_types/strings.rs | ToBer for NumericString<'_> | ber_tag_info | key=P02+P12 | macro=asn1_string#0(name:=NumericString,sname:=x)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/strings.rs | ToBer for NumericString<'_> | ber_write_content | key=P03+P12 | macro=asn1_string#0(name:=NumericString,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
}
impl<'a> ToBerX for NumericString<'a> {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/strings.rs | ToDer for NumericString<'_> | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=asn1_string#0(name:=NumericString,sname:=x)
impl<'a> ToDer for NumericString<'a> {
//@assoctype src/asn1_types/strings.rs | ToDer for NumericString<'_> | Encoder | macro=asn1_string#0(name:=NumericString,sname:=x)
    open spec fn der_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(18)) }
    open spec fn der_l(&self) -> Length { Length::Definite(self.der_c().len() as usize) }
    open spec fn der_c(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn der_pre(&self) -> bool { true }
    open spec fn der_ok(&self) -> bool { fits(self.der_c().len() as int) }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) {  }
//@fn src/asn1_types/strings.rs | ToDer for NumericString<'_> | der_content_len | key=P03+P12 | macro=asn1_string#0(name:=NumericString,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
//@fn src/asn1_types/strings.rs | ToDer for NumericString<'_> | der_tag_info | key=P02+P12 | macro=asn1_string#0(name:=NumericString,sname:=x)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/strings.rs | ToDer for NumericString<'_> | der_write_content | key=P03+P12 | macro=asn1_string#0(name:=NumericString,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
}
impl<'a> ToDerX for NumericString<'a> {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/strings.rs | ToBer for PrintableString<'_> | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber | macro=asn1_string#0(name:=PrintableString,sname:=x)
impl<'a> ToBer for PrintableString<'a> {
//@assoctype src/asn1_types/strings.rs | ToBer for PrintableString<'_> | Encoder | macro=asn1_string#0(name:=PrintableString,sname:=x)
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(19)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(self.ber_c().len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { fits(self.ber_c().len() as int) }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {  }
//@fn src/asn1_types/strings.rs | ToBer for PrintableString<'_> | ber_content_len | key=P03+P12 | macro=asn1_string#0(name:=PrintableString,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
//@fn src/asn1_types/strings.rs | ToBer for PrintableString<'_> | ber_tag_info | key=P02+P12 | macro=asn1_string#0(name:=PrintableString,sname:=x)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/strings.rs | ToBer for PrintableString<'_> | ber_write_content | key=P03+P12 | macro=asn1_string#0(name:=PrintableString,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
}
impl<'a> ToBerX for PrintableString<'a> {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/strings.rs | ToDer for PrintableString<'_> | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=asn1_string#0(name:=PrintableString,sname:=x)
impl<'a> ToDer for PrintableString<'a> {
//@assoctype src/asn1_types/strings.rs | ToDer for PrintableString<'_> | Encoder | macro=asn1_string#0(name:=PrintableString,sname:=x)
    open spec fn der_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(19)) }
    open spec fn der_l(&self) -> Length { Length::Definite(self.der_c().len() as usize) }
    open spec fn der_c(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn der_pre(&self) -> bool { true }
    open spec fn der_ok(&self) -> bool { fits(self.der_c().len() as int) }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) {  }
//@fn src/asn1_types/strings.rs | ToDer for PrintableString<'_> | der_content_len | key=P03+P12 | macro=asn1_string#0(name:=PrintableString,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
//@fn src/asn1_types/strings.rs | ToDer for PrintableString<'_> | der_tag_info | key=P02+P12 | macro=asn1_string#0(name:=PrintableString,sname:=x)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/strings.rs | ToDer for PrintableString<'_> | der_write_content | key=P03+P12 | macro=asn1_string#0(name:=PrintableString,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
}
impl<'a> ToDerX for PrintableString<'a> {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/strings.rs | ToBer for VisibleString<'_> | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber | macro=asn1_string#0(name:=VisibleString,sname:=x)
impl<'a> ToBer for VisibleString<'a> {
//@assoctype src/asn1_types/strings.rs | ToBer for VisibleString<'_> | Encoder | macro=asn1_string#0(name:=VisibleString,sname:=x)
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(26)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(self.ber_c().len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { fits(self.ber_c().len() as int) }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {  }
//@fn src/asn1_types/strings.rs | ToBer for VisibleString<'_> | ber_content_len | key=P03+P12 | macro=asn1_string#0(name:=VisibleString,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
//@fn src/asn1_types/strings.rs | ToBer for VisibleString<'_> | ber_tag_info | key=P02+P12 | macro=asn1_string#0(name:=VisibleString,sname:=x)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/strings.rs | ToBer for VisibleString<'_> | ber_write_content | key=P03+P12 | macro=asn1_string#0(name:=VisibleString,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
}
impl<'a> ToBerX for VisibleString<'a> {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/strings.rs | ToDer for VisibleString<'_> | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=asn1_string#0(name:=VisibleString,sname:=x)
impl<'a> ToDer for VisibleString<'a> {
//@assoctype src/asn1_types/strings.rs | ToDer for VisibleString<'_> | Encoder | macro=asn1_string#0(name:=VisibleString,sname:=x)
    open spec fn der_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(26)) }
    open spec fn der_l(&self) -> Length { Length::Definite(self.der_c().len() as usize) }
    open spec fn der_c(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn der_pre(&self) -> bool { true }
    open spec fn der_ok(&self) -> bool { fits(self.der_c().len() as int) }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) {  }
//@fn src/asn1_types/strings.rs | ToDer for VisibleString<'_> | der_content_len | key=P03+P12 | macro=asn1_string#0(name:=VisibleString,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
//@fn src/asn1_types/strings.rs | ToDer for VisibleString<'_> | der_tag_info | key=P02+P12 | macro=asn1_string#0(name:=VisibleString,sname:=x)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/strings.rs | ToDer for VisibleString<'_> | der_write_content | key=P03+P12 | macro=asn1_string#0(name:=VisibleString,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
}
impl<'a> ToDerX for VisibleString<'a> {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/strings.rs | ToBer for Ia5String<'_> | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber | macro=asn1_string#0(name:=Ia5String,sname:=x)
impl<'a> ToBer for Ia5String<'a> {
//@assoctype src/asn1_types/strings.rs | ToBer for Ia5String<'_> | Encoder | macro=asn1_string#0(name:=Ia5String,sname:=x)
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(22)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(self.ber_c().len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { fits(self.ber_c().len() as int) }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {  }
//@fn src/asn1_types/strings.rs | ToBer for Ia5String<'_> | ber_content_len | key=P03+P12 | macro=asn1_string#0(name:=Ia5String,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
//@fn src/asn1_types/strings.rs | ToBer for Ia5String<'_> | ber_tag_info | key=P02+P12 | macro=asn1_string#0(name:=Ia5String,sname:=x)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/strings.rs | ToBer for Ia5String<'_> | ber_write_content | key=P03+P12 | macro=asn1_string#0(name:=Ia5String,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
}
impl<'a> ToBerX for Ia5String<'a> {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/strings.rs | ToDer for Ia5String<'_> | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=asn1_string#0(name:=Ia5String,sname:=x)
impl<'a> ToDer for Ia5String<'a> {
//@assoctype src/asn1_types/strings.rs | ToDer for Ia5String<'_> | Encoder | macro=asn1_string#0(name:=Ia5String,sname:=x)
    open spec fn der_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(22)) }
    open spec fn der_l(&self) -> Length { Length::Definite(self.der_c().len() as usize) }
    open spec fn der_c(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn der_pre(&self) -> bool { true }
    open spec fn der_ok(&self) -> bool { fits(self.der_c().len() as int) }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) {  }
//@fn src/asn1_types/strings.rs | ToDer for Ia5String<'_> | der_content_len | key=P03+P12 | macro=asn1_string#0(name:=Ia5String,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
//@fn src/asn1_types/strings.rs | ToDer for Ia5String<'_> | der_tag_info | key=P02+P12 | macro=asn1_string#0(name:=Ia5String,sname:=x)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/strings.rs | ToDer for Ia5String<'_> | der_write_content | key=P03+P12 | macro=asn1_string#0(name:=Ia5String,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
}
impl<'a> ToDerX for Ia5String<'a> {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/strings.rs | ToBer for TeletexString<'_> | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber | macro=asn1_string#0(name:=TeletexString,sname:=x)
impl<'a> ToBer for TeletexString<'a> {
//@assoctype src/asn1_types/strings.rs | ToBer for TeletexString<'_> | Encoder | macro=asn1_string#0(name:=TeletexString,sname:=x)
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(20)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(self.ber_c().len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { fits(self.ber_c().len() as int) }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {  }
//@fn src/asn1_types/strings.rs | ToBer for TeletexString<'_> | ber_content_len | key=P03+P12 | macro=asn1_string#0(name:=TeletexString,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
//@fn src/asn1_types/strings.rs | ToBer for TeletexString<'_> | ber_tag_info | key=P02+P12 | macro=asn1_string#0(name:=TeletexString,sname:=x)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/strings.rs | ToBer for TeletexString<'_> | ber_write_content | key=P03+P12 | macro=asn1_string#0(name:=TeletexString,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
}
impl<'a> ToBerX for TeletexString<'a> {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/strings.rs | ToDer for TeletexString<'_> | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=asn1_string#0(name:=TeletexString,sname:=x)
impl<'a> ToDer for TeletexString<'a> {
//@assoctype src/asn1_types/strings.rs | ToDer for TeletexString<'_> | Encoder | macro=asn1_string#0(name:=TeletexString,sname:=x)
    open spec fn der_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(20)) }
    open spec fn der_l(&self) -> Length { Length::Definite(self.der_c().len() as usize) }
    open spec fn der_c(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn der_pre(&self) -> bool { true }
    open spec fn der_ok(&self) -> bool { fits(self.der_c().len() as int) }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) {  }
//@fn src/asn1_types/strings.rs | ToDer for TeletexString<'_> | der_content_len | key=P03+P12 | macro=asn1_string#0(name:=TeletexString,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
//@fn src/asn1_types/strings.rs | ToDer for TeletexString<'_> | der_tag_info | key=P02+P12 | macro=asn1_string#0(name:=TeletexString,sname:=x)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/strings.rs | ToDer for TeletexString<'_> | der_write_content | key=P03+P12 | macro=asn1_string#0(name:=TeletexString,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
}
impl<'a> ToDerX for TeletexString<'a> {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/strings.rs | ToBer for VideotexString<'_> | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber | macro=asn1_string#0(name:=VideotexString,sname:=x)
impl<'a> ToBer for VideotexString<'a> {
//@assoctype src/asn1_types/strings.rs | ToBer for VideotexString<'_> | Encoder | macro=asn1_string#0(name:=VideotexString,sname:=x)
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(21)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(self.ber_c().len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { fits(self.ber_c().len() as int) }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {  }
//@fn src/asn1_types/strings.rs | ToBer for VideotexString<'_> | ber_content_len | key=P03+P12 | macro=asn1_string#0(name:=VideotexString,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
//@fn src/asn1_types/strings.rs | ToBer for VideotexString<'_> | ber_tag_info | key=P02+P12 | macro=asn1_string#0(name:=VideotexString,sname:=x)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/strings.rs | ToBer for VideotexString<'_> | ber_write_content | key=P03+P12 | macro=asn1_string#0(name:=VideotexString,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
}
impl<'a> ToBerX for VideotexString<'a> {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/strings.rs | ToDer for VideotexString<'_> | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=asn1_string#0(name:=VideotexString,sname:=x)
impl<'a> ToDer for VideotexString<'a> {
//@assoctype src/asn1_types/strings.rs | ToDer for VideotexString<'_> | Encoder | macro=asn1_string#0(name:=VideotexString,sname:=x)
    open spec fn der_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(21)) }
    open spec fn der_l(&self) -> Length { Length::Definite(self.der_c().len() as usize) }
    open spec fn der_c(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn der_pre(&self) -> bool { true }
    open spec fn der_ok(&self) -> bool { fits(self.der_c().len() as int) }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) {  }
//@fn src/asn1_types/strings.rs | ToDer for VideotexString<'_> | der_content_len | key=P03+P12 | macro=asn1_string#0(name:=VideotexString,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
//@fn src/asn1_types/strings.rs | ToDer for VideotexString<'_> | der_tag_info | key=P02+P12 | macro=asn1_string#0(name:=VideotexString,sname:=x)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/strings.rs | ToDer for VideotexString<'_> | der_write_content | key=P03+P12 | macro=asn1_string#0(name:=VideotexString,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
}
impl<'a> ToDerX for VideotexString<'a> {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/strings.rs | ToBer for GraphicString<'_> | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber | macro=asn1_string#0(name:=GraphicString,sname:=x)
impl<'a> ToBer for GraphicString<'a> {
//@assoctype src/asn1_types/strings.rs | ToBer for GraphicString<'_> | Encoder | macro=asn1_string#0(name:=GraphicString,sname:=x)
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(25)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(self.ber_c().len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { fits(self.ber_c().len() as int) }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {  }
//@fn src/asn1_types/strings.rs | ToBer for GraphicString<'_> | ber_content_len | key=P03+P12 | macro=asn1_string#0(name:=GraphicString,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
//@fn src/asn1_types/strings.rs | ToBer for GraphicString<'_> | ber_tag_info | key=P02+P12 | macro=asn1_string#0(name:=GraphicString,sname:=x)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/strings.rs | ToBer for GraphicString<'_> | ber_write_content | key=P03+P12 | macro=asn1_string#0(name:=GraphicString,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
}
impl<'a> ToBerX for GraphicString<'a> {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/strings.rs | ToDer for GraphicString<'_> | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=asn1_string#0(name:=GraphicString,sname:=x)
impl<'a> ToDer for GraphicString<'a> {
//@assoctype src/asn1_types/strings.rs | ToDer for GraphicString<'_> | Encoder | macro=asn1_string#0(name:=GraphicString,sname:=x)
    open spec fn der_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(25)) }
    open spec fn der_l(&self) -> Length { Length::Definite(self.der_c().len() as usize) }
    open spec fn der_c(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn der_pre(&self) -> bool { true }
    open spec fn der_ok(&self) -> bool { fits(self.der_c().len() as int) }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) {  }
//@fn src/asn1_types/strings.rs | ToDer for GraphicString<'_> | der_content_len | key=P03+P12 | macro=asn1_string#0(name:=GraphicString,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
//@fn src/asn1_types/strings.rs | ToDer for GraphicString<'_> | der_tag_info | key=P02+P12 | macro=asn1_string#0(name:=GraphicString,sname:=x)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/strings.rs | ToDer for GraphicString<'_> | der_write_content | key=P03+P12 | macro=asn1_string#0(name:=GraphicString,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
}
impl<'a> ToDerX for GraphicString<'a> {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/strings.rs | ToBer for GeneralString<'_> | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber | macro=asn1_string#0(name:=GeneralString,sname:=x)
impl<'a> ToBer for GeneralString<'a> {
//@assoctype src/asn1_types/strings.rs | ToBer for GeneralString<'_> | Encoder | macro=asn1_string#0(name:=GeneralString,sname:=x)
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(27)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(self.ber_c().len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { fits(self.ber_c().len() as int) }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {  }
//@fn src/asn1_types/strings.rs | ToBer for GeneralString<'_> | ber_content_len | key=P03+P12 | macro=asn1_string#0(name:=GeneralString,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
//@fn src/asn1_types/strings.rs | ToBer for GeneralString<'_> | ber_tag_info | key=P02+P12 | macro=asn1_string#0(name:=GeneralString,sname:=x)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/strings.rs | ToBer for GeneralString<'_> | ber_write_content | key=P03+P12 | macro=asn1_string#0(name:=GeneralString,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
}
impl<'a> ToBerX for GeneralString<'a> {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/strings.rs | ToDer for GeneralString<'_> | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=asn1_string#0(name:=GeneralString,sname:=x)
impl<'a> ToDer for GeneralString<'a> {
//@assoctype src/asn1_types/strings.rs | ToDer for GeneralString<'_> | Encoder | macro=asn1_string#0(name:=GeneralString,sname:=x)
    open spec fn der_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(27)) }
    open spec fn der_l(&self) -> Length { Length::Definite(self.der_c().len() as usize) }
    open spec fn der_c(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn der_pre(&self) -> bool { true }
    open spec fn der_ok(&self) -> bool { fits(self.der_c().len() as int) }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) {  }
//@fn src/asn1_types/strings.rs | ToDer for GeneralString<'_> | der_content_len | key=P03+P12 | macro=asn1_string#0(name:=GeneralString,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
//@fn src/asn1_types/strings.rs | ToDer for GeneralString<'_> | der_tag_info | key=P02+P12 | macro=asn1_string#0(name:=GeneralString,sname:=x)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/strings.rs | ToDer for GeneralString<'_> | der_write_content | key=P03+P12 | macro=asn1_string#0(name:=GeneralString,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
}
impl<'a> ToDerX for GeneralString<'a> {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/strings.rs | ToBer for ObjectDescriptor<'_> | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber | macro=asn1_string#0(name:=ObjectDescriptor,sname:=x)
impl<'a> ToBer for ObjectDescriptor<'a> {
//@assoctype src/asn1_types/strings.rs | ToBer for ObjectDescriptor<'_> | Encoder | macro=asn1_string#0(name:=ObjectDescriptor,sname:=x)
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(7)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(self.ber_c().len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { fits(self.ber_c().len() as int) }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {  }
//@fn src/asn1_types/strings.rs | ToBer for ObjectDescriptor<'_> | ber_content_len | key=P03+P12 | macro=asn1_string#0(name:=ObjectDescriptor,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
//@fn src/asn1_types/strings.rs | ToBer for ObjectDescriptor<'_> | ber_tag_info | key=P02+P12 | macro=asn1_string#0(name:=ObjectDescriptor,sname:=x)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/strings.rs | ToBer for ObjectDescriptor<'_> | ber_write_content | key=P03+P12 | macro=asn1_string#0(name:=ObjectDescriptor,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
}
impl<'a> ToBerX for ObjectDescriptor<'a> {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/strings.rs | ToDer for ObjectDescriptor<'_> | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=asn1_string#0(name:=ObjectDescriptor,sname:=x)
impl<'a> ToDer for ObjectDescriptor<'a> {
//@assoctype src/asn1_types/strings.rs | ToDer for ObjectDescriptor<'_> | Encoder | macro=asn1_string#0(name:=ObjectDescriptor,sname:=x)
    open spec fn der_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(7)) }
    open spec fn der_l(&self) -> Length { Length::Definite(self.der_c().len() as usize) }
    open spec fn der_c(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn der_pre(&self) -> bool { true }
    open spec fn der_ok(&self) -> bool { fits(self.der_c().len() as int) }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) {  }
//@fn src/asn1_types/strings.rs | ToDer for ObjectDescriptor<'_> | der_content_len | key=P03+P12 | macro=asn1_string#0(name:=ObjectDescriptor,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
//@fn src/asn1_types/strings.rs | ToDer for ObjectDescriptor<'_> | der_tag_info | key=P02+P12 | macro=asn1_string#0(name:=ObjectDescriptor,sname:=x)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/strings.rs | ToDer for ObjectDescriptor<'_> | der_write_content | key=P03+P12 | macro=asn1_string#0(name:=ObjectDescriptor,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
}
impl<'a> ToDerX for ObjectDescriptor<'a> {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/strings.rs | ToBer for Utf8String<'_> | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber | macro=asn1_string#0(name:=Utf8String,sname:=x)
impl<'a> ToBer for Utf8String<'a> {
//@assoctype src/asn1_types/strings.rs | ToBer for Utf8String<'_> | Encoder | macro=asn1_string#0(name:=Utf8String,sname:=x)
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(12)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(self.ber_c().len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { fits(self.ber_c().len() as int) }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {  }
//@fn src/asn1_types/strings.rs | ToBer for Utf8String<'_> | ber_content_len | key=P03+P12 | macro=asn1_string#0(name:=Utf8String,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
//@fn src/asn1_types/strings.rs | ToBer for Utf8String<'_> | ber_tag_info | key=P02+P12 | macro=asn1_string#0(name:=Utf8String,sname:=x)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/strings.rs | ToBer for Utf8String<'_> | ber_write_content | key=P03+P12 | macro=asn1_string#0(name:=Utf8String,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
}
impl<'a> ToBerX for Utf8String<'a> {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/strings.rs | ToDer for Utf8String<'_> | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=asn1_string#0(name:=Utf8String,sname:=x)
impl<'a> ToDer for Utf8String<'a> {
//@assoctype src/asn1_types/strings.rs | ToDer for Utf8String<'_> | Encoder | macro=asn1_string#0(name:=Utf8String,sname:=x)
    open spec fn der_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(12)) }
    open spec fn der_l(&self) -> Length { Length::Definite(self.der_c().len() as usize) }
    open spec fn der_c(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn der_pre(&self) -> bool { true }
    open spec fn der_ok(&self) -> bool { fits(self.der_c().len() as int) }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) {  }
//@fn src/asn1_types/strings.rs | ToDer for Utf8String<'_> | der_content_len | key=P03+P12 | macro=asn1_string#0(name:=Utf8String,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
//@fn src/asn1_types/strings.rs | ToDer for Utf8String<'_> | der_tag_info | key=P02+P12 | macro=asn1_string#0(name:=Utf8String,sname:=x)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/strings.rs | ToDer for Utf8String<'_> | der_write_content | key=P03+P12 | macro=asn1_string#0(name:=Utf8String,sname:=x)
//@ret r
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
}
impl<'a> ToDerX for Utf8String<'a> {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/strings/str.rs | ToBer for &'_ str | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber
impl<'a> ToBer for &'a str {
//@assoctype src/asn1_types/strings/str.rs | ToBer for &'_ str | Encoder
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(12)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(self.ber_c().len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { str_bytes(*self) }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { fits(self.ber_c().len() as int) }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {  }
//@fn src/asn1_types/strings/str.rs | ToBer for &'_ str | ber_content_len | key=P03+P12
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/strings/str.rs | ToBer for &'_ str | ber_tag_info | key=P02+P12
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/strings/str.rs | ToBer for &'_ str | ber_write_content | key=P03+P12
//@ret r
//@contract
//@endfn
}
impl<'a> ToBerX for &'a str {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@require src/asn1_types/strings/str.rs | impl_toder_from_tober!(LFT 'a, &'a str)
//@default src/to_der.rs | ToDer for &'a str | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=impl_toder_from_tober#1(lft:='a,ty:=&'a str)
impl<'a> ToDer for &'a str {
//@assoctype src/to_der.rs | ToDer for &'a str | Encoder | macro=impl_toder_from_tober#1(lft:='a,ty:=&'a str)
    open spec fn der_i(&self) -> (Class, bool, Tag) { self.ber_i() }
    open spec fn der_l(&self) -> Length { self.ber_l() }
    open spec fn der_c(&self) -> Seq<u8> { self.ber_c() }
    open spec fn der_pre(&self) -> bool { self.ber_pre() }
    open spec fn der_ok(&self) -> bool { self.ber_ok() }
    proof fn lemma_der_i(&self) { self.lemma_ber_i(); }
    proof fn lemma_der_l(&self) { self.lemma_ber_l(); }
//@fn src/to_der.rs | ToDer for &'a str | der_content_len | key=P03 | macro=impl_toder_from_tober#1(lft:='a,ty:=&'a str)
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for &'a str | der_tag_info | key=P02 | macro=impl_toder_from_tober#1(lft:='a,ty:=&'a str)
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for &'a str | der_write_content | key=P03 | macro=impl_toder_from_tober#1(lft:='a,ty:=&'a str)
//@ret r
//@contract
//@endfn
}
impl<'a> ToDerX for &'a str {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/strings/string.rs | ToBer for String | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber
impl ToBer for String {
//@assoctype src/asn1_types/strings/string.rs | ToBer for String | Encoder
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(12)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(self.ber_c().len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { string_bytes(*self) }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { fits(self.ber_c().len() as int) }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {  }
//@fn src/asn1_types/strings/string.rs | ToBer for String | ber_content_len | key=P03+P12
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/strings/string.rs | ToBer for String | ber_tag_info | key=P02+P12
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/strings/string.rs | ToBer for String | ber_write_content | key=P03+P12
//@ret r
//@contract
//@endfn
}
impl ToBerX for String {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@require src/asn1_types/strings/string.rs | impl_toder_from_tober!(TY String)
//@default src/to_der.rs | ToDer for String | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=impl_toder_from_tober#0(ty:=String)
impl ToDer for String {
//@assoctype src/to_der.rs | ToDer for String | Encoder | macro=impl_toder_from_tober#0(ty:=String)
    open spec fn der_i(&self) -> (Class, bool, Tag) { self.ber_i() }
    open spec fn der_l(&self) -> Length { self.ber_l() }
    open spec fn der_c(&self) -> Seq<u8> { self.ber_c() }
    open spec fn der_pre(&self) -> bool { self.ber_pre() }
    open spec fn der_ok(&self) -> bool { self.ber_ok() }
    proof fn lemma_der_i(&self) { self.lemma_ber_i(); }
    proof fn lemma_der_l(&self) { self.lemma_ber_l(); }
//@fn src/to_der.rs | ToDer for String | der_content_len | key=P03 | macro=impl_toder_from_tober#0(ty:=String)
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for String | der_tag_info | key=P02 | macro=impl_toder_from_tober#0(ty:=String)
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for String | der_write_content | key=P03 | macro=impl_toder_from_tober#0(ty:=String)
//@ret r
//@contract
//@endfn
}
impl ToDerX for String {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/strings/universalstring.rs | ToBer for UniversalString<'_> | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber
impl<'a> ToBer for UniversalString<'a> {
//@assoctype src/asn1_types/strings/universalstring.rs | ToBer for UniversalString<'_> | Encoder
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(28)) }
    open spec fn ber_l(&self) -> Length { Length::Definite((4 * cow_chars(self.data).len()) as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { be32(scalars(cow_chars(self.data))) }
    open spec fn ber_pre(&self) -> bool { 4 * cow_chars(self.data).len() <= usize::MAX }
    open spec fn ber_ok(&self) -> bool { fits(4 * cow_chars(self.data).len() as int) }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {  }
//@fn src/asn1_types/strings/universalstring.rs | ToBer for UniversalString<'_> | ber_content_len | key=P03+P12
//@ret r
//@subst self\s*\.data\s*\.chars\(\) ==> verif_chars(&self.data)
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
//@fn src/asn1_types/strings/universalstring.rs | ToBer for UniversalString<'_> | ber_tag_info | key=P02+P12
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/strings/universalstring.rs | ToBer for UniversalString<'_> | ber_write_content | key=P03+P12
//@ret r
//@subst self\s*\.data\s*\.chars\(\) ==> verif_chars(&self.data)
//@subst \.to_be_bytes\(\) ==> .verif_to_be_bytes()
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@ghost loop0.before
        let ghost v = scalars(cow_chars(self.data)); let ghost o = target.out(); let ghost mut k: int = 0;
        proof { assert(o + be32(v.subrange(0, 0)) =~= o); assert(__it0.rem() =~= cow_chars(self.data).subrange(0, v.len() as int)); }
//@loop 0
            invariant
                v == scalars(cow_chars(self.data)), 0 <= k <= v.len(), __it0.rem() == cow_chars(self.data).subrange(k, v.len() as int), sz == 4 * k, fits(4 * v.len() as int),
                target.out() == o + be32(v.subrange(0, k)), target.infallible() == old(target).infallible(), o == old(target).out(),
            ensures k == v.len()
            decreases v.len() - k
//@ghost loop0.begin
            let ghost x = if k < v.len() { v[k] } else { 0 };
            proof { if k < v.len() {
                assert forall|a: [u8; 4]| #![trigger a@] be_val(a@) == x implies a@ == oct4(x) by { lemma_oct4_be(a@); }
                lemma_be32_step(v, k); let t = be32(v.subrange(0, k)); assert(o + t + oct4(x) =~= o + (t + oct4(x)));
            } }
//@ghost loop0.end
            proof { k = k + 1; }
//@ghost loop0.after
        proof { assert(v.subrange(0, v.len() as int) =~= v); }
//@endfn
}
impl<'a> ToBerX for UniversalString<'a> {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@require src/asn1_types/strings/universalstring.rs | impl_toder_from_tober!(LFT 'a, UniversalString<'a>)
//@default src/to_der.rs | ToDer for UniversalString<'a> | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=impl_toder_from_tober#1(lft:='a,ty:=UniversalString<'a>)
impl<'a> ToDer for UniversalString<'a> {
//@assoctype src/to_der.rs | ToDer for UniversalString<'a> | Encoder | macro=impl_toder_from_tober#1(lft:='a,ty:=UniversalString<'a>)
    open spec fn der_i(&self) -> (Class, bool, Tag) { self.ber_i() }
    open spec fn der_l(&self) -> Length { self.ber_l() }
    open spec fn der_c(&self) -> Seq<u8> { self.ber_c() }
    open spec fn der_pre(&self) -> bool { self.ber_pre() }
    open spec fn der_ok(&self) -> bool { self.ber_ok() }
    proof fn lemma_der_i(&self) { self.lemma_ber_i(); }
    proof fn lemma_der_l(&self) { self.lemma_ber_l(); }
//@fn src/to_der.rs | ToDer for UniversalString<'a> | der_content_len | key=P03 | macro=impl_toder_from_tober#1(lft:='a,ty:=UniversalString<'a>)
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for UniversalString<'a> | der_tag_info | key=P02 | macro=impl_toder_from_tober#1(lft:='a,ty:=UniversalString<'a>)
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for UniversalString<'a> | der_write_content | key=P03 | macro=impl_toder_from_tober#1(lft:='a,ty:=UniversalString<'a>)
//@ret r
//@contract
//@endfn
}
impl<'a> ToDerX for UniversalString<'a> {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/strings/bmpstring.rs | ToBer for BmpString<'_> | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber
impl<'a> ToBer for BmpString<'a> {
//@assoctype src/asn1_types/strings/bmpstring.rs | ToBer for BmpString<'_> | Encoder
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(30)) }
    open spec fn ber_l(&self) -> Length { Length::Definite((2 * utf16_enc(scalars(cow_chars(self.data))).len()) as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { be16(utf16_enc(scalars(cow_chars(self.data)))) }
    open spec fn ber_pre(&self) -> bool { 2 * utf16_enc(scalars(cow_chars(self.data))).len() <= usize::MAX }
    open spec fn ber_ok(&self) -> bool { fits(2 * utf16_enc(scalars(cow_chars(self.data))).len() as int) }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {  }
//@fn src/asn1_types/strings/bmpstring.rs | ToBer for BmpString<'_> | ber_content_len | key=P03+P12
//@ret r
//@subst self\s*\.data\s*\.encode_utf16\(\) ==> verif_encode_utf16(&self.data)
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@endfn
//@fn src/asn1_types/strings/bmpstring.rs | ToBer for BmpString<'_> | ber_tag_info | key=P02+P12
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/strings/bmpstring.rs | ToBer for BmpString<'_> | ber_write_content | key=P03+P12
//@ret r
//@subst self\s*\.data\s*\.encode_utf16\(\) ==> verif_encode_utf16(&self.data)
//@contract
//@ghost entry
        proof { broadcast use strlem::axiom_cow_deref_str; }
//@ghost loop0.before
        let ghost w = utf16_enc(scalars(cow_chars(self.data))); let ghost mut k: int = 0;
        proof { assert(v@ =~= be16(w.subrange(0, 0))); assert(__it0.rem() =~= w.subrange(0, w.len() as int)); }
//@loop 0
            invariant
                w == utf16_enc(scalars(cow_chars(self.data))), 0 <= k <= w.len(), __it0.rem() == w.subrange(k, w.len() as int), fits(2 * w.len() as int),
                v@ == be16(w.subrange(0, k)), target == old(target),
            ensures k == w.len()
            decreases w.len() - k
//@ghost loop0.begin
            proof { if k < w.len() { lemma_be16_step(w, k); let x = w[k]; assert((x >> 8i32) as u8 == (x / 256) as u8 && (x & 0xff) as u8 == (x % 256) as u8) by(bit_vector); } }
//@ghost loop0.end
            proof { k = k + 1; }
//@ghost loop0.after
        proof { assert(w.subrange(0, w.len() as int) =~= w); }
//@endfn
}
impl<'a> ToBerX for BmpString<'a> {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@require src/asn1_types/strings/bmpstring.rs | impl_toder_from_tober!(LFT 'a, BmpString<'a>)
//@default src/to_der.rs | ToDer for BmpString<'a> | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=impl_toder_from_tober#1(lft:='a,ty:=BmpString<'a>)
impl<'a> ToDer for BmpString<'a> {
//@assoctype src/to_der.rs | ToDer for BmpString<'a> | Encoder | macro=impl_toder_from_tober#1(lft:='a,ty:=BmpString<'a>)
    open spec fn der_i(&self) -> (Class, bool, Tag) { self.ber_i() }
    open spec fn der_l(&self) -> Length { self.ber_l() }
    open spec fn der_c(&self) -> Seq<u8> { self.ber_c() }
    open spec fn der_pre(&self) -> bool { self.ber_pre() }
    open spec fn der_ok(&self) -> bool { self.ber_ok() }
    proof fn lemma_der_i(&self) { self.lemma_ber_i(); }
    proof fn lemma_der_l(&self) { self.lemma_ber_l(); }
//@fn src/to_der.rs | ToDer for BmpString<'a> | der_content_len | key=P03 | macro=impl_toder_from_tober#1(lft:='a,ty:=BmpString<'a>)
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for BmpString<'a> | der_tag_info | key=P02 | macro=impl_toder_from_tober#1(lft:='a,ty:=BmpString<'a>)
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for BmpString<'a> | der_write_content | key=P03 | macro=impl_toder_from_tober#1(lft:='a,ty:=BmpString<'a>)
//@ret r
//@contract
//@endfn
}
impl<'a> ToDerX for BmpString<'a> {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/sequence.rs | ToBer for Sequence<'_> | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber
impl<'a> ToBer for Sequence<'a> {
//@assoctype src/asn1_types/sequence.rs | ToBer for Sequence<'_> | Encoder
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, true, Tag(16)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(self.ber_c().len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { cow_seq(self.content) }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { fits(self.ber_c().len() as int) }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {  }
//@fn src/asn1_types/sequence.rs | ToBer for Sequence<'_> | ber_content_len | key=P03+P16
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/sequence.rs | ToBer for Sequence<'_> | ber_tag_info | key=P02+P16
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/sequence.rs | ToBer for Sequence<'_> | ber_write_content | key=P03+P16
//@ret r
//@contract
//@endfn
}
impl<'a> ToBerX for Sequence<'a> {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@require src/asn1_types/sequence.rs | impl_toder_from_tober!(LFT 'a, Sequence<'a>)
//@default src/to_der.rs | ToDer for Sequence<'a> | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=impl_toder_from_tober#1(lft:='a,ty:=Sequence<'a>)
impl<'a> ToDer for Sequence<'a> {
//@assoctype src/to_der.rs | ToDer for Sequence<'a> | Encoder | macro=impl_toder_from_tober#1(lft:='a,ty:=Sequence<'a>)
    open spec fn der_i(&self) -> (Class, bool, Tag) { self.ber_i() }
    open spec fn der_l(&self) -> Length { self.ber_l() }
    open spec fn der_c(&self) -> Seq<u8> { self.ber_c() }
    open spec fn der_pre(&self) -> bool { self.ber_pre() }
    open spec fn der_ok(&self) -> bool { self.ber_ok() }
    proof fn lemma_der_i(&self) { self.lemma_ber_i(); }
    proof fn lemma_der_l(&self) { self.lemma_ber_l(); }
//@fn src/to_der.rs | ToDer for Sequence<'a> | der_content_len | key=P03 | macro=impl_toder_from_tober#1(lft:='a,ty:=Sequence<'a>)
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for Sequence<'a> | der_tag_info | key=P02 | macro=impl_toder_from_tober#1(lft:='a,ty:=Sequence<'a>)
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for Sequence<'a> | der_write_content | key=P03 | macro=impl_toder_from_tober#1(lft:='a,ty:=Sequence<'a>)
//@ret r
//@contract
//@endfn
}
impl<'a> ToDerX for Sequence<'a> {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/set.rs | ToBer for Set<'_> | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber
impl<'a> ToBer for Set<'a> {
//@assoctype src/asn1_types/set.rs | ToBer for Set<'_> | Encoder
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, true, Tag(17)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(self.ber_c().len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { cow_seq(self.content) }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { fits(self.ber_c().len() as int) }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {  }
//@fn src/asn1_types/set.rs | ToBer for Set<'_> | ber_content_len | key=P03+P16
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/set.rs | ToBer for Set<'_> | ber_tag_info | key=P02+P16
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/set.rs | ToBer for Set<'_> | ber_write_content | key=P03+P16
//@ret r
//@contract
//@endfn
}
impl<'a> ToBerX for Set<'a> {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@require src/asn1_types/set.rs | impl_toder_from_tober!(LFT 'a, Set<'a>)
//@default src/to_der.rs | ToDer for Set<'a> | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=impl_toder_from_tober#1(lft:='a,ty:=Set<'a>)
impl<'a> ToDer for Set<'a> {
//@assoctype src/to_der.rs | ToDer for Set<'a> | Encoder | macro=impl_toder_from_tober#1(lft:='a,ty:=Set<'a>)
    open spec fn der_i(&self) -> (Class, bool, Tag) { self.ber_i() }
    open spec fn der_l(&self) -> Length { self.ber_l() }
    open spec fn der_c(&self) -> Seq<u8> { self.ber_c() }
    open spec fn der_pre(&self) -> bool { self.ber_pre() }
    open spec fn der_ok(&self) -> bool { self.ber_ok() }
    proof fn lemma_der_i(&self) { self.lemma_ber_i(); }
    proof fn lemma_der_l(&self) { self.lemma_ber_l(); }
//@fn src/to_der.rs | ToDer for Set<'a> | der_content_len | key=P03 | macro=impl_toder_from_tober#1(lft:='a,ty:=Set<'a>)
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for Set<'a> | der_tag_info | key=P02 | macro=impl_toder_from_tober#1(lft:='a,ty:=Set<'a>)
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for Set<'a> | der_write_content | key=P03 | macro=impl_toder_from_tober#1(lft:='a,ty:=Set<'a>)
//@ret r
//@contract
//@endfn
}
impl<'a> ToDerX for Set<'a> {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
// ---- object identifiers
//@item src/asn1_types/oid.rs | struct Oid
impl<'a> DynTagged for Oid<'a> {
    open spec fn sp_accept(tag: Tag) -> bool { tag == Tag(6) || tag == Tag(13) }
    open spec fn sp_class(&self) -> Class { Class::Universal }
    open spec fn sp_cons(&self) -> bool { false }
    open spec fn sp_tag(&self) -> Tag { if self.relative { Tag(13) } else { Tag(6) } }
//@default src/asn1_types/oid.rs | DynTagged for Oid<'_> | class,constructed
//@fn src/tag.rs | DynTagged | class | key=P02
//@ret r
//@contract
//@endfn
//@fn src/tag.rs | DynTagged | constructed | key=P02
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/oid.rs | DynTagged for Oid<'_> | tag | key=P02
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/oid.rs | DynTagged for Oid<'_> | accept_tag | key=P02
//@ret r
//@contract
//@endfn
}
//@default src/asn1_types/oid.rs | ToBer for Oid<'_> | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber
impl<'a> ToBer for Oid<'a> {
//@assoctype src/asn1_types/oid.rs | ToBer for Oid<'_> | Encoder
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, if self.relative { Tag(13) } else { Tag(6) }) }
    open spec fn ber_l(&self) -> Length { Length::Definite(self.ber_c().len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { cow_seq(self.asn1) }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { fits(self.ber_c().len() as int) }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {  }
//@fn src/asn1_types/oid.rs | ToBer for Oid<'_> | ber_content_len | key=P03+P11
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/oid.rs | ToBer for Oid<'_> | ber_tag_info | key=P02+P11
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/oid.rs | ToBer for Oid<'_> | ber_write_content | key=P03+P11
//@ret r
//@contract
//@endfn
}
impl<'a> ToBerX for Oid<'a> {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@require src/asn1_types/oid.rs | impl_toder_from_tober!(LFT 'a, Oid<'a>)
//@default src/to_der.rs | ToDer for Oid<'a> | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=impl_toder_from_tober#1(lft:='a,ty:=Oid<'a>)
impl<'a> ToDer for Oid<'a> {
//@assoctype src/to_der.rs | ToDer for Oid<'a> | Encoder | macro=impl_toder_from_tober#1(lft:='a,ty:=Oid<'a>)
    open spec fn der_i(&self) -> (Class, bool, Tag) { self.ber_i() }
    open spec fn der_l(&self) -> Length { self.ber_l() }
    open spec fn der_c(&self) -> Seq<u8> { self.ber_c() }
    open spec fn der_pre(&self) -> bool { self.ber_pre() }
    open spec fn der_ok(&self) -> bool { self.ber_ok() }
    proof fn lemma_der_i(&self) { self.lemma_ber_i(); }
    proof fn lemma_der_l(&self) { self.lemma_ber_l(); }
//@fn src/to_der.rs | ToDer for Oid<'a> | der_content_len | key=P03 | macro=impl_toder_from_tober#1(lft:='a,ty:=Oid<'a>)
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for Oid<'a> | der_tag_info | key=P02 | macro=impl_toder_from_tober#1(lft:='a,ty:=Oid<'a>)
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for Oid<'a> | der_write_content | key=P03 | macro=impl_toder_from_tober#1(lft:='a,ty:=Oid<'a>)
//@ret r
//@contract
//@endfn
}
impl<'a> ToDerX for Oid<'a> {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
}
