verus! {
// ------------------------------------------------------------------ encoders of values (P02, P03, P05)
pub open spec fn hdr_enc(i: (Class, bool, Tag), l: Length) -> Seq<u8> { id_enc(i.0, i.1, i.2) + len_enc(l) }
/// identifier, length and contents octets
pub open spec fn obj_enc(i: (Class, bool, Tag), c: Seq<u8>) -> Seq<u8> { hdr_enc(i, Length::Definite(c.len() as usize)) + c }
/// the octets o, and nothing else, were appended to the target, and their number is reported
pub open spec fn wpost<W: Write>(a: W, b: W, r: SerializeResult<usize>, o: Seq<u8>) -> bool {
    &&& (r matches Ok(n) ==> n == o.len() && b.out() == a.out() + o)
    &&& b.infallible() == a.infallible()
    &&& (a.infallible() ==> r is Ok)
}
pub open spec fn fits(n: int) -> bool { 0 <= n <= usize::MAX - 64 }
pub proof fn lemma_hdr_len(i: (Class, bool, Tag), l: Length)
    ensures 1 <= id_enc(i.0, i.1, i.2).len() <= 6, 1 <= len_enc(l).len() <= 9, 2 <= hdr_enc(i, l).len() <= 15
{
    lemma_b128_hi_len(i.2.0 as int / 128);
    if l is Definite { lemma_be_min_len(l->Definite_0 as int); }
}
pub proof fn lemma_obj_enc(i: (Class, bool, Tag), c: Seq<u8>)
    requires fits(c.len() as int)
    ensures obj_enc(i, c).len() == hdr_enc(i, Length::Definite(c.len() as usize)).len() + c.len(), 2 + c.len() <= obj_enc(i, c).len() <= 15 + c.len()
{ lemma_hdr_len(i, Length::Definite(c.len() as usize)); }

//@repeat $To,$b,$src,$Enc : ToBer,ber,src/to_ber.rs,ToBer ; ToDer,der,src/to_der.rs,ToDer
/// what an encodable type implements: $b_i tag information, $b_l announced length, $b_c contents octets;
/// $b_pre: the announced length is computable, $b_ok: it is the length of the contents, and of reasonable size
pub trait $To {
    type Encoder: BerEncoder;
    spec fn $b_i(&self) -> (Class, bool, Tag);
    spec fn $b_l(&self) -> Length;
    spec fn $b_c(&self) -> Seq<u8>;
    spec fn $b_pre(&self) -> bool;
    spec fn $b_ok(&self) -> bool;
    /// the encoder writes the identifier octets of the tag information
    proof fn lemma_$b_i(&self)
        ensures Self::Encoder::tag_spec(self.$b_i().0, self.$b_i().1, self.$b_i().2) == id_enc(self.$b_i().0, self.$b_i().1, self.$b_i().2);
    /// the announced length is the length of the contents
    proof fn lemma_$b_l(&self)
        requires self.$b_ok()
        ensures self.$b_pre(), fits(self.$b_c().len() as int), self.$b_l() == Length::Definite(self.$b_c().len() as usize);
    fn $b_content_len(&self) -> (r: Length)
        requires self.$b_pre()
        ensures r == self.$b_l();
    fn $b_tag_info(&self) -> (r: (Class, bool, Tag))
        ensures r == self.$b_i();
    fn $b_write_content<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>)
        requires self.$b_ok()
        ensures wpost(*old(target), *final(target), r, self.$b_c());
}
/// the default methods of $To, verified once for every implementing type that does not override them
pub trait $ToHeader: $To {
//@fn $src | $To | $b_write_header | key=P02+P03 | rename=$b_write_header_default
//@ret r
//@contract
        requires self.$b_pre()
        ensures wpost(*old(target), *final(target), r, hdr_enc(self.$b_i(), self.$b_l()))
//@ghost entry
        proof { self.lemma_$b_i(); lemma_hdr_len(self.$b_i(), self.$b_l()); assert(old(target).out() + id_enc(self.$b_i().0, self.$b_i().1, self.$b_i().2) + len_enc(self.$b_l()) =~= old(target).out() + hdr_enc(self.$b_i(), self.$b_l())); }
//@endfn
}
impl<T: $To> $ToHeader for T {}
pub trait $ToDefault: $ToHeader {
//@fn $src | $To | $b_total_len | key=P03 | rename=$b_total_len_default
//@ret r
//@contract
        requires self.$b_ok()
        ensures r == Length::Definite(obj_enc(self.$b_i(), self.$b_c()).len() as usize)
//@ghost entry
        proof { self.lemma_$b_l(); lemma_obj_enc(self.$b_i(), self.$b_c()); }
//@endfn
//@fn $src | $To | $b_encode | key=P02+P03 | rename=$b_encode_default
//@ret r
//@subst self\.$b_write_header\( ==> self.$b_write_header_default(
//@contract
        requires self.$b_ok()
        ensures wpost(*old(target), *final(target), r, obj_enc(self.$b_i(), self.$b_c()))
//@ghost entry
        proof { self.lemma_$b_l(); lemma_obj_enc(self.$b_i(), self.$b_c()); assert(old(target).out() + hdr_enc(self.$b_i(), self.$b_l()) + self.$b_c() =~= old(target).out() + obj_enc(self.$b_i(), self.$b_c())); }
//@endfn
//@fn $src | $To | $b_encode_tagged_explicit | key=P02+P03+P15 | rename=$b_encode_tagged_explicit_default
//@ret r
//@subst self\.$b_write_header\( ==> self.$b_write_header_default(
//@subst self\.$b_total_len\( ==> self.$b_total_len_default(
//@subst tagged_header\.$b_write_header\( ==> tagged_header.$b_write_header_default(
//@contract
        requires self.$b_ok()
        ensures wpost(*old(target), *final(target), r, obj_enc((class, true, Tag(tag_number)), obj_enc(self.$b_i(), self.$b_c())))
//@ghost entry
        proof {
            self.lemma_$b_l();
            let c = obj_enc(self.$b_i(), self.$b_c());
            let i = (class, true, Tag(tag_number));
            lemma_obj_enc(self.$b_i(), self.$b_c());
            lemma_hdr_len(i, Length::Definite(c.len() as usize));
            let o = old(target).out();
            assert(o + hdr_enc(i, Length::Definite(c.len() as usize)) + hdr_enc(self.$b_i(), self.$b_l()) + self.$b_c() =~= o + obj_enc(i, c));
        }
//@endfn
//@fn $src | $To | $b_encode_tagged_implicit | key=P02+P03+P15 | rename=$b_encode_tagged_implicit_default
//@ret r
//@subst tagged_header\.$b_write_header\( ==> tagged_header.$b_write_header_default(
//@contract
        requires self.$b_ok()
        ensures wpost(*old(target), *final(target), r, obj_enc((class, self.$b_i().1, Tag(tag_number)), self.$b_c()))
//@ghost entry
        proof {
            self.lemma_$b_l();
            let i = (class, self.$b_i().1, Tag(tag_number));
            lemma_obj_enc(i, self.$b_c());
            let o = old(target).out();
            assert(o + hdr_enc(i, self.$b_l()) + self.$b_c() =~= o + obj_enc(i, self.$b_c()));
        }
//@endfn
}
impl<T: $To> $ToDefault for T {}
/// all encoding functions of a type: $b_out the octets written, $b_abs: an absent value (written as nothing)
pub trait $ToX: $To {
    spec fn $b_abs(&self) -> bool;
    spec fn $b_out(&self) -> Seq<u8>;
    proof fn lemma_$b_out(&self)
        requires self.$b_ok()
        ensures self.$b_out() == (if self.$b_abs() { Seq::empty() } else { obj_enc(self.$b_i(), self.$b_c()) });
    fn $b_total_len(&self) -> (r: Length)
        requires self.$b_ok()
        ensures r == Length::Definite(self.$b_out().len() as usize);
    fn $b_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>)
        requires self.$b_ok()
        ensures wpost(*old(target), *final(target), r, self.$b_out());
    fn $b_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>)
        requires self.$b_ok()
        ensures wpost(*old(target), *final(target), r, if self.$b_abs() { Seq::empty() } else { obj_enc((class, true, Tag(tag_number)), self.$b_out()) });
    fn $b_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>)
        requires self.$b_ok()
        ensures wpost(*old(target), *final(target), r, if self.$b_abs() { Seq::empty() } else { obj_enc((class, self.$b_i().1, Tag(tag_number)), self.$b_c()) });
}
/// default methods that no type overrides
pub trait $ToVec: $ToX {
//@fn $src | $To | to_$b_vec | key=P02+P03
//@ret r
//@contract
        requires self.$b_ok()
        ensures r is Ok, r->Ok_0@ == self.$b_out()
//@endfn
//@fn $src | $To | write_$b | key=P02+P03
//@ret r
//@contract
        requires self.$b_ok()
        ensures wpost(*old(writer), *final(writer), r, self.$b_out())
//@endfn
}
impl<T: $ToX> $ToVec for T {}
//@endrepeat

// ---- Header
//@repeat $To,$b : ToBer,ber ; ToDer,der
//@default src/header.rs | $To for Header<'_> | $b_total_len,$b_write_header,$b_encode,$b_encode_tagged_explicit,$b_encode_tagged_implicit,to_$b_vec,write_$b
impl<'a> $To for Header<'a> {
//@assoctype src/header.rs | $To for Header<'_> | Encoder
    open spec fn $b_i(&self) -> (Class, bool, Tag) { (self.class, self.constructed, self.tag) }
    open spec fn $b_l(&self) -> Length { self.length }
    open spec fn $b_c(&self) -> Seq<u8> { Seq::empty() }
    open spec fn $b_pre(&self) -> bool { true }
    open spec fn $b_ok(&self) -> bool { self.length == Length::Definite(0) }
    proof fn lemma_$b_i(&self) { assert(<Self as $To>::Encoder::tag_spec(self.class, self.constructed, self.tag) == id_enc(self.class, self.constructed, self.tag)); }
    proof fn lemma_$b_l(&self) {}
//@fn src/header.rs | $To for Header<'_> | $b_content_len | key=P03
//@ret r
//@contract
//@endfn
//@fn src/header.rs | $To for Header<'_> | $b_tag_info | key=P02
//@ret r
//@contract
//@endfn
//@fn src/header.rs | $To for Header<'_> | $b_write_content | key=P02
//@ret r
//@contract
//@ghost entry
        proof { assert(old(_arg).out() + Seq::<u8>::empty() =~= old(_arg).out()); }
//@endfn
}
//@endrepeat
// ---- types
//@default src/asn1_types/any.rs | ToBer for Any<'_> | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber
impl<'a> ToBer for Any<'a> {
//@assoctype src/asn1_types/any.rs | ToBer for Any<'_> | Encoder
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (self.header.class, self.header.constructed, self.header.tag) }
    open spec fn ber_l(&self) -> Length { Length::Definite(self.ber_c().len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { self.data.b() }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { fits(self.ber_c().len() as int) }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {  }
//@fn src/asn1_types/any.rs | ToBer for Any<'_> | ber_content_len | key=P03
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/any.rs | ToBer for Any<'_> | ber_tag_info | key=P02
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/any.rs | ToBer for Any<'_> | ber_write_content | key=P03
//@ret r
//@contract
//@endfn
}
impl<'a> ToBerX for Any<'a> {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@require src/asn1_types/any.rs | impl_toder_from_tober!(LFT 'a, Any<'a>)
//@default src/to_der.rs | ToDer for Any<'a> | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=impl_toder_from_tober#1(lft:='a,ty:=Any<'a>)
impl<'a> ToDer for Any<'a> {
//@assoctype src/to_der.rs | ToDer for Any<'a> | Encoder | macro=impl_toder_from_tober#1(lft:='a,ty:=Any<'a>)
    open spec fn der_i(&self) -> (Class, bool, Tag) { self.ber_i() }
    open spec fn der_l(&self) -> Length { self.ber_l() }
    open spec fn der_c(&self) -> Seq<u8> { self.ber_c() }
    open spec fn der_pre(&self) -> bool { self.ber_pre() }
    open spec fn der_ok(&self) -> bool { self.ber_ok() }
    proof fn lemma_der_i(&self) { self.lemma_ber_i(); }
    proof fn lemma_der_l(&self) { self.lemma_ber_l(); }
//@fn src/to_der.rs | ToDer for Any<'a> | der_content_len | key=P03 | macro=impl_toder_from_tober#1(lft:='a,ty:=Any<'a>)
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for Any<'a> | der_tag_info | key=P02 | macro=impl_toder_from_tober#1(lft:='a,ty:=Any<'a>)
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for Any<'a> | der_write_content | key=P03 | macro=impl_toder_from_tober#1(lft:='a,ty:=Any<'a>)
//@ret r
//@contract
//@endfn
}
impl<'a> ToDerX for Any<'a> {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
/// the minimal two's complement octets of a number
pub open spec fn int_enc(v: int) -> Seq<u8>
    decreases (if v < 0 { -v } else { v })
{
    if -128 <= v < 128 { seq![(v % 256) as u8] } else { int_enc(v / 256).push((v % 256) as u8) }
}
pub proof fn lemma_int_enc(v: int)
    ensures int_min(int_enc(v)), int_val(int_enc(v)) == v
    decreases (if v < 0 { -v } else { v })
{
    let c = int_enc(v);
    if -128 <= v < 128 {
        assert(c.drop_last() =~= Seq::<u8>::empty());
        assert(be_val(c.drop_last()) == 0);
        lemma_pow256_vals();
    } else {
        lemma_int_enc(v / 256);
        let p = int_enc(v / 256);
        assert(c.drop_last() =~= p);
        assert(be_val(c) == be_val(p) * 256 + (v % 256));
        lemma_pow256(p.len() as int);
        assert(c[0] == p[0]);
        if p.len() == 1 {
            assert(p.drop_last() =~= Seq::<u8>::empty());
            assert(be_val(p.drop_last()) == 0);
            assert(be_val(p) == p[0]);
            lemma_pow256_vals();
            assert(c[1] == (v % 256) as u8);
        } else {
            assert(c[1] == p[1]);
        }
    }
}
pub proof fn lemma_int_enc_unique(c: Seq<u8>)
    requires int_min(c)
    ensures int_enc(int_val(c)) == c
{
    lemma_int_enc(int_val(c));
    lemma_int_min_unique(int_enc(int_val(c)), c);
}
pub proof fn lemma_int_enc_all()
    ensures forall|c: Seq<u8>| #![trigger int_val(c)] int_min(c) ==> int_enc(int_val(c)) == c
{ assert forall|c: Seq<u8>| #![trigger int_val(c)] int_min(c) implies int_enc(int_val(c)) == c by { lemma_int_enc_unique(c); } }
pub proof fn lemma_int_enc_len(n: int, v: int)
    requires n >= 1, -128 * pow256(n - 1) <= v < 128 * pow256(n - 1)
    ensures 1 <= int_enc(v).len() <= n
    decreases n
{
    lemma_pow256(n - 1);
    if -128 <= v < 128 {} else {
        if n == 1 { lemma_pow256_vals(); } else {
            lemma_pow256(n - 2);
            let q = pow256(n - 2);
            assert(-128 * q <= v / 256 < 128 * q) by(nonlinear_arith) requires -128 * (256 * q) <= v < 128 * (256 * q);
            lemma_int_enc_len(n - 1, v / 256);
        }
    }
}
pub proof fn lemma_int_enc_small(v: int)
    requires -0x8000_0000_0000_0000_0000_0000_0000_0000 <= v <= 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff
    ensures 1 <= int_enc(v).len() <= 17
{ lemma_pow256_vals(); lemma_pow256(16); lemma_int_enc_len(17, v); }
//@default src/asn1_types/integer.rs | ToBer for u8 | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber | macro=impl_uint#0(ty:=u8)
impl ToBer for u8 {
//@assoctype src/asn1_types/integer.rs | ToBer for u8 | Encoder | macro=impl_uint#0(ty:=u8)
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(2)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(self.ber_c().len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { int_enc(*self as int) }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { true }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) { lemma_int_enc_small(*self as int); }
//@fn src/asn1_types/integer.rs | ToBer for u8 | ber_content_len | key=P03+P05 | macro=impl_uint#0(ty:=u8)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_u8(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
//@fn src/asn1_types/integer.rs | ToBer for u8 | ber_tag_info | key=P02+P05 | macro=impl_uint#0(ty:=u8)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/integer.rs | ToBer for u8 | ber_write_content | key=P03+P05 | macro=impl_uint#0(ty:=u8)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_u8(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
}
impl ToBerX for u8 {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/integer.rs | ToDer for u8 | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=impl_uint#0(ty:=u8)
impl ToDer for u8 {
//@assoctype src/asn1_types/integer.rs | ToDer for u8 | Encoder | macro=impl_uint#0(ty:=u8)
    open spec fn der_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(2)) }
    open spec fn der_l(&self) -> Length { Length::Definite(self.der_c().len() as usize) }
    open spec fn der_c(&self) -> Seq<u8> { int_enc(*self as int) }
    open spec fn der_pre(&self) -> bool { true }
    open spec fn der_ok(&self) -> bool { true }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) { lemma_int_enc_small(*self as int); }
//@fn src/asn1_types/integer.rs | ToDer for u8 | der_content_len | key=P03+P05 | macro=impl_uint#0(ty:=u8)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_u8(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
//@fn src/asn1_types/integer.rs | ToDer for u8 | der_tag_info | key=P02+P05 | macro=impl_uint#0(ty:=u8)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/integer.rs | ToDer for u8 | der_write_content | key=P03+P05 | macro=impl_uint#0(ty:=u8)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_u8(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
}
impl ToDerX for u8 {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/integer.rs | ToBer for u16 | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber | macro=impl_uint#0(ty:=u16)
impl ToBer for u16 {
//@assoctype src/asn1_types/integer.rs | ToBer for u16 | Encoder | macro=impl_uint#0(ty:=u16)
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(2)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(self.ber_c().len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { int_enc(*self as int) }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { true }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) { lemma_int_enc_small(*self as int); }
//@fn src/asn1_types/integer.rs | ToBer for u16 | ber_content_len | key=P03+P05 | macro=impl_uint#0(ty:=u16)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_u16(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
//@fn src/asn1_types/integer.rs | ToBer for u16 | ber_tag_info | key=P02+P05 | macro=impl_uint#0(ty:=u16)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/integer.rs | ToBer for u16 | ber_write_content | key=P03+P05 | macro=impl_uint#0(ty:=u16)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_u16(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
}
impl ToBerX for u16 {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/integer.rs | ToDer for u16 | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=impl_uint#0(ty:=u16)
impl ToDer for u16 {
//@assoctype src/asn1_types/integer.rs | ToDer for u16 | Encoder | macro=impl_uint#0(ty:=u16)
    open spec fn der_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(2)) }
    open spec fn der_l(&self) -> Length { Length::Definite(self.der_c().len() as usize) }
    open spec fn der_c(&self) -> Seq<u8> { int_enc(*self as int) }
    open spec fn der_pre(&self) -> bool { true }
    open spec fn der_ok(&self) -> bool { true }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) { lemma_int_enc_small(*self as int); }
//@fn src/asn1_types/integer.rs | ToDer for u16 | der_content_len | key=P03+P05 | macro=impl_uint#0(ty:=u16)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_u16(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
//@fn src/asn1_types/integer.rs | ToDer for u16 | der_tag_info | key=P02+P05 | macro=impl_uint#0(ty:=u16)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/integer.rs | ToDer for u16 | der_write_content | key=P03+P05 | macro=impl_uint#0(ty:=u16)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_u16(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
}
impl ToDerX for u16 {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/integer.rs | ToBer for u32 | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber | macro=impl_uint#0(ty:=u32)
impl ToBer for u32 {
//@assoctype src/asn1_types/integer.rs | ToBer for u32 | Encoder | macro=impl_uint#0(ty:=u32)
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(2)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(self.ber_c().len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { int_enc(*self as int) }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { true }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) { lemma_int_enc_small(*self as int); }
//@fn src/asn1_types/integer.rs | ToBer for u32 | ber_content_len | key=P03+P05 | macro=impl_uint#0(ty:=u32)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_u32(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
//@fn src/asn1_types/integer.rs | ToBer for u32 | ber_tag_info | key=P02+P05 | macro=impl_uint#0(ty:=u32)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/integer.rs | ToBer for u32 | ber_write_content | key=P03+P05 | macro=impl_uint#0(ty:=u32)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_u32(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
}
impl ToBerX for u32 {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/integer.rs | ToDer for u32 | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=impl_uint#0(ty:=u32)
impl ToDer for u32 {
//@assoctype src/asn1_types/integer.rs | ToDer for u32 | Encoder | macro=impl_uint#0(ty:=u32)
    open spec fn der_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(2)) }
    open spec fn der_l(&self) -> Length { Length::Definite(self.der_c().len() as usize) }
    open spec fn der_c(&self) -> Seq<u8> { int_enc(*self as int) }
    open spec fn der_pre(&self) -> bool { true }
    open spec fn der_ok(&self) -> bool { true }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) { lemma_int_enc_small(*self as int); }
//@fn src/asn1_types/integer.rs | ToDer for u32 | der_content_len | key=P03+P05 | macro=impl_uint#0(ty:=u32)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_u32(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
//@fn src/asn1_types/integer.rs | ToDer for u32 | der_tag_info | key=P02+P05 | macro=impl_uint#0(ty:=u32)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/integer.rs | ToDer for u32 | der_write_content | key=P03+P05 | macro=impl_uint#0(ty:=u32)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_u32(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
}
impl ToDerX for u32 {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/integer.rs | ToBer for u64 | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber | macro=impl_uint#0(ty:=u64)
impl ToBer for u64 {
//@assoctype src/asn1_types/integer.rs | ToBer for u64 | Encoder | macro=impl_uint#0(ty:=u64)
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(2)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(self.ber_c().len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { int_enc(*self as int) }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { true }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) { lemma_int_enc_small(*self as int); }
//@fn src/asn1_types/integer.rs | ToBer for u64 | ber_content_len | key=P03+P05 | macro=impl_uint#0(ty:=u64)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_u64(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
//@fn src/asn1_types/integer.rs | ToBer for u64 | ber_tag_info | key=P02+P05 | macro=impl_uint#0(ty:=u64)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/integer.rs | ToBer for u64 | ber_write_content | key=P03+P05 | macro=impl_uint#0(ty:=u64)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_u64(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
}
impl ToBerX for u64 {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/integer.rs | ToDer for u64 | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=impl_uint#0(ty:=u64)
impl ToDer for u64 {
//@assoctype src/asn1_types/integer.rs | ToDer for u64 | Encoder | macro=impl_uint#0(ty:=u64)
    open spec fn der_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(2)) }
    open spec fn der_l(&self) -> Length { Length::Definite(self.der_c().len() as usize) }
    open spec fn der_c(&self) -> Seq<u8> { int_enc(*self as int) }
    open spec fn der_pre(&self) -> bool { true }
    open spec fn der_ok(&self) -> bool { true }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) { lemma_int_enc_small(*self as int); }
//@fn src/asn1_types/integer.rs | ToDer for u64 | der_content_len | key=P03+P05 | macro=impl_uint#0(ty:=u64)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_u64(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
//@fn src/asn1_types/integer.rs | ToDer for u64 | der_tag_info | key=P02+P05 | macro=impl_uint#0(ty:=u64)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/integer.rs | ToDer for u64 | der_write_content | key=P03+P05 | macro=impl_uint#0(ty:=u64)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_u64(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
}
impl ToDerX for u64 {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/integer.rs | ToBer for u128 | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber | macro=impl_uint#0(ty:=u128)
impl ToBer for u128 {
//@assoctype src/asn1_types/integer.rs | ToBer for u128 | Encoder | macro=impl_uint#0(ty:=u128)
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(2)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(self.ber_c().len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { int_enc(*self as int) }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { true }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) { lemma_int_enc_small(*self as int); }
//@fn src/asn1_types/integer.rs | ToBer for u128 | ber_content_len | key=P03+P05 | macro=impl_uint#0(ty:=u128)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_u128(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
//@fn src/asn1_types/integer.rs | ToBer for u128 | ber_tag_info | key=P02+P05 | macro=impl_uint#0(ty:=u128)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/integer.rs | ToBer for u128 | ber_write_content | key=P03+P05 | macro=impl_uint#0(ty:=u128)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_u128(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
}
impl ToBerX for u128 {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/integer.rs | ToDer for u128 | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=impl_uint#0(ty:=u128)
impl ToDer for u128 {
//@assoctype src/asn1_types/integer.rs | ToDer for u128 | Encoder | macro=impl_uint#0(ty:=u128)
    open spec fn der_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(2)) }
    open spec fn der_l(&self) -> Length { Length::Definite(self.der_c().len() as usize) }
    open spec fn der_c(&self) -> Seq<u8> { int_enc(*self as int) }
    open spec fn der_pre(&self) -> bool { true }
    open spec fn der_ok(&self) -> bool { true }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) { lemma_int_enc_small(*self as int); }
//@fn src/asn1_types/integer.rs | ToDer for u128 | der_content_len | key=P03+P05 | macro=impl_uint#0(ty:=u128)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_u128(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
//@fn src/asn1_types/integer.rs | ToDer for u128 | der_tag_info | key=P02+P05 | macro=impl_uint#0(ty:=u128)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/integer.rs | ToDer for u128 | der_write_content | key=P03+P05 | macro=impl_uint#0(ty:=u128)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_u128(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
}
impl ToDerX for u128 {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/integer.rs | ToBer for usize | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber | macro=impl_uint#0(ty:=usize)
impl ToBer for usize {
//@assoctype src/asn1_types/integer.rs | ToBer for usize | Encoder | macro=impl_uint#0(ty:=usize)
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(2)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(self.ber_c().len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { int_enc(*self as int) }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { true }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) { lemma_int_enc_small(*self as int); }
//@fn src/asn1_types/integer.rs | ToBer for usize | ber_content_len | key=P03+P05 | macro=impl_uint#0(ty:=usize)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_usize(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
//@fn src/asn1_types/integer.rs | ToBer for usize | ber_tag_info | key=P02+P05 | macro=impl_uint#0(ty:=usize)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/integer.rs | ToBer for usize | ber_write_content | key=P03+P05 | macro=impl_uint#0(ty:=usize)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_usize(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
}
impl ToBerX for usize {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/integer.rs | ToDer for usize | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=impl_uint#0(ty:=usize)
impl ToDer for usize {
//@assoctype src/asn1_types/integer.rs | ToDer for usize | Encoder | macro=impl_uint#0(ty:=usize)
    open spec fn der_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(2)) }
    open spec fn der_l(&self) -> Length { Length::Definite(self.der_c().len() as usize) }
    open spec fn der_c(&self) -> Seq<u8> { int_enc(*self as int) }
    open spec fn der_pre(&self) -> bool { true }
    open spec fn der_ok(&self) -> bool { true }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) { lemma_int_enc_small(*self as int); }
//@fn src/asn1_types/integer.rs | ToDer for usize | der_content_len | key=P03+P05 | macro=impl_uint#0(ty:=usize)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_usize(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
//@fn src/asn1_types/integer.rs | ToDer for usize | der_tag_info | key=P02+P05 | macro=impl_uint#0(ty:=usize)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/integer.rs | ToDer for usize | der_write_content | key=P03+P05 | macro=impl_uint#0(ty:=usize)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_usize(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
}
impl ToDerX for usize {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/integer.rs | ToBer for i8 | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber | macro=impl_int#0(int:=i8,uint:=u8)
impl ToBer for i8 {
//@assoctype src/asn1_types/integer.rs | ToBer for i8 | Encoder | macro=impl_int#0(int:=i8,uint:=u8)
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(2)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(self.ber_c().len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { int_enc(*self as int) }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { true }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) { lemma_int_enc_small(*self as int); }
//@fn src/asn1_types/integer.rs | ToBer for i8 | ber_content_len | key=P03+P05 | macro=impl_int#0(int:=i8,uint:=u8)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_i8(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
//@fn src/asn1_types/integer.rs | ToBer for i8 | ber_tag_info | key=P02+P05 | macro=impl_int#0(int:=i8,uint:=u8)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/integer.rs | ToBer for i8 | ber_write_content | key=P03+P05 | macro=impl_int#0(int:=i8,uint:=u8)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_i8(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
}
impl ToBerX for i8 {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/integer.rs | ToDer for i8 | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=impl_int#0(int:=i8,uint:=u8)
impl ToDer for i8 {
//@assoctype src/asn1_types/integer.rs | ToDer for i8 | Encoder | macro=impl_int#0(int:=i8,uint:=u8)
    open spec fn der_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(2)) }
    open spec fn der_l(&self) -> Length { Length::Definite(self.der_c().len() as usize) }
    open spec fn der_c(&self) -> Seq<u8> { int_enc(*self as int) }
    open spec fn der_pre(&self) -> bool { true }
    open spec fn der_ok(&self) -> bool { true }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) { lemma_int_enc_small(*self as int); }
//@fn src/asn1_types/integer.rs | ToDer for i8 | der_content_len | key=P03+P05 | macro=impl_int#0(int:=i8,uint:=u8)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_i8(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
//@fn src/asn1_types/integer.rs | ToDer for i8 | der_tag_info | key=P02+P05 | macro=impl_int#0(int:=i8,uint:=u8)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/integer.rs | ToDer for i8 | der_write_content | key=P03+P05 | macro=impl_int#0(int:=i8,uint:=u8)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_i8(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
}
impl ToDerX for i8 {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/integer.rs | ToBer for i16 | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber | macro=impl_int#0(int:=i16,uint:=u16)
impl ToBer for i16 {
//@assoctype src/asn1_types/integer.rs | ToBer for i16 | Encoder | macro=impl_int#0(int:=i16,uint:=u16)
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(2)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(self.ber_c().len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { int_enc(*self as int) }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { true }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) { lemma_int_enc_small(*self as int); }
//@fn src/asn1_types/integer.rs | ToBer for i16 | ber_content_len | key=P03+P05 | macro=impl_int#0(int:=i16,uint:=u16)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_i16(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
//@fn src/asn1_types/integer.rs | ToBer for i16 | ber_tag_info | key=P02+P05 | macro=impl_int#0(int:=i16,uint:=u16)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/integer.rs | ToBer for i16 | ber_write_content | key=P03+P05 | macro=impl_int#0(int:=i16,uint:=u16)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_i16(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
}
impl ToBerX for i16 {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/integer.rs | ToDer for i16 | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=impl_int#0(int:=i16,uint:=u16)
impl ToDer for i16 {
//@assoctype src/asn1_types/integer.rs | ToDer for i16 | Encoder | macro=impl_int#0(int:=i16,uint:=u16)
    open spec fn der_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(2)) }
    open spec fn der_l(&self) -> Length { Length::Definite(self.der_c().len() as usize) }
    open spec fn der_c(&self) -> Seq<u8> { int_enc(*self as int) }
    open spec fn der_pre(&self) -> bool { true }
    open spec fn der_ok(&self) -> bool { true }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) { lemma_int_enc_small(*self as int); }
//@fn src/asn1_types/integer.rs | ToDer for i16 | der_content_len | key=P03+P05 | macro=impl_int#0(int:=i16,uint:=u16)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_i16(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
//@fn src/asn1_types/integer.rs | ToDer for i16 | der_tag_info | key=P02+P05 | macro=impl_int#0(int:=i16,uint:=u16)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/integer.rs | ToDer for i16 | der_write_content | key=P03+P05 | macro=impl_int#0(int:=i16,uint:=u16)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_i16(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
}
impl ToDerX for i16 {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/integer.rs | ToBer for i32 | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber | macro=impl_int#0(int:=i32,uint:=u32)
impl ToBer for i32 {
//@assoctype src/asn1_types/integer.rs | ToBer for i32 | Encoder | macro=impl_int#0(int:=i32,uint:=u32)
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(2)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(self.ber_c().len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { int_enc(*self as int) }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { true }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) { lemma_int_enc_small(*self as int); }
//@fn src/asn1_types/integer.rs | ToBer for i32 | ber_content_len | key=P03+P05 | macro=impl_int#0(int:=i32,uint:=u32)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_i32(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
//@fn src/asn1_types/integer.rs | ToBer for i32 | ber_tag_info | key=P02+P05 | macro=impl_int#0(int:=i32,uint:=u32)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/integer.rs | ToBer for i32 | ber_write_content | key=P03+P05 | macro=impl_int#0(int:=i32,uint:=u32)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_i32(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
}
impl ToBerX for i32 {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/integer.rs | ToDer for i32 | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=impl_int#0(int:=i32,uint:=u32)
impl ToDer for i32 {
//@assoctype src/asn1_types/integer.rs | ToDer for i32 | Encoder | macro=impl_int#0(int:=i32,uint:=u32)
    open spec fn der_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(2)) }
    open spec fn der_l(&self) -> Length { Length::Definite(self.der_c().len() as usize) }
    open spec fn der_c(&self) -> Seq<u8> { int_enc(*self as int) }
    open spec fn der_pre(&self) -> bool { true }
    open spec fn der_ok(&self) -> bool { true }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) { lemma_int_enc_small(*self as int); }
//@fn src/asn1_types/integer.rs | ToDer for i32 | der_content_len | key=P03+P05 | macro=impl_int#0(int:=i32,uint:=u32)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_i32(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
//@fn src/asn1_types/integer.rs | ToDer for i32 | der_tag_info | key=P02+P05 | macro=impl_int#0(int:=i32,uint:=u32)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/integer.rs | ToDer for i32 | der_write_content | key=P03+P05 | macro=impl_int#0(int:=i32,uint:=u32)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_i32(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
}
impl ToDerX for i32 {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/integer.rs | ToBer for i64 | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber | macro=impl_int#0(int:=i64,uint:=u64)
impl ToBer for i64 {
//@assoctype src/asn1_types/integer.rs | ToBer for i64 | Encoder | macro=impl_int#0(int:=i64,uint:=u64)
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(2)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(self.ber_c().len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { int_enc(*self as int) }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { true }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) { lemma_int_enc_small(*self as int); }
//@fn src/asn1_types/integer.rs | ToBer for i64 | ber_content_len | key=P03+P05 | macro=impl_int#0(int:=i64,uint:=u64)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_i64(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
//@fn src/asn1_types/integer.rs | ToBer for i64 | ber_tag_info | key=P02+P05 | macro=impl_int#0(int:=i64,uint:=u64)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/integer.rs | ToBer for i64 | ber_write_content | key=P03+P05 | macro=impl_int#0(int:=i64,uint:=u64)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_i64(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
}
impl ToBerX for i64 {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/integer.rs | ToDer for i64 | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=impl_int#0(int:=i64,uint:=u64)
impl ToDer for i64 {
//@assoctype src/asn1_types/integer.rs | ToDer for i64 | Encoder | macro=impl_int#0(int:=i64,uint:=u64)
    open spec fn der_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(2)) }
    open spec fn der_l(&self) -> Length { Length::Definite(self.der_c().len() as usize) }
    open spec fn der_c(&self) -> Seq<u8> { int_enc(*self as int) }
    open spec fn der_pre(&self) -> bool { true }
    open spec fn der_ok(&self) -> bool { true }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) { lemma_int_enc_small(*self as int); }
//@fn src/asn1_types/integer.rs | ToDer for i64 | der_content_len | key=P03+P05 | macro=impl_int#0(int:=i64,uint:=u64)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_i64(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
//@fn src/asn1_types/integer.rs | ToDer for i64 | der_tag_info | key=P02+P05 | macro=impl_int#0(int:=i64,uint:=u64)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/integer.rs | ToDer for i64 | der_write_content | key=P03+P05 | macro=impl_int#0(int:=i64,uint:=u64)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_i64(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
}
impl ToDerX for i64 {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/integer.rs | ToBer for i128 | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber | macro=impl_int#0(int:=i128,uint:=u128)
impl ToBer for i128 {
//@assoctype src/asn1_types/integer.rs | ToBer for i128 | Encoder | macro=impl_int#0(int:=i128,uint:=u128)
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(2)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(self.ber_c().len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { int_enc(*self as int) }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { true }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) { lemma_int_enc_small(*self as int); }
//@fn src/asn1_types/integer.rs | ToBer for i128 | ber_content_len | key=P03+P05 | macro=impl_int#0(int:=i128,uint:=u128)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_i128(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
//@fn src/asn1_types/integer.rs | ToBer for i128 | ber_tag_info | key=P02+P05 | macro=impl_int#0(int:=i128,uint:=u128)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/integer.rs | ToBer for i128 | ber_write_content | key=P03+P05 | macro=impl_int#0(int:=i128,uint:=u128)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_i128(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
}
impl ToBerX for i128 {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/integer.rs | ToDer for i128 | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=impl_int#0(int:=i128,uint:=u128)
impl ToDer for i128 {
//@assoctype src/asn1_types/integer.rs | ToDer for i128 | Encoder | macro=impl_int#0(int:=i128,uint:=u128)
    open spec fn der_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(2)) }
    open spec fn der_l(&self) -> Length { Length::Definite(self.der_c().len() as usize) }
    open spec fn der_c(&self) -> Seq<u8> { int_enc(*self as int) }
    open spec fn der_pre(&self) -> bool { true }
    open spec fn der_ok(&self) -> bool { true }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) { lemma_int_enc_small(*self as int); }
//@fn src/asn1_types/integer.rs | ToDer for i128 | der_content_len | key=P03+P05 | macro=impl_int#0(int:=i128,uint:=u128)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_i128(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
//@fn src/asn1_types/integer.rs | ToDer for i128 | der_tag_info | key=P02+P05 | macro=impl_int#0(int:=i128,uint:=u128)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/integer.rs | ToDer for i128 | der_write_content | key=P03+P05 | macro=impl_int#0(int:=i128,uint:=u128)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_i128(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
}
impl ToDerX for i128 {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/integer.rs | ToBer for isize | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber | macro=impl_int#0(int:=isize,uint:=usize)
impl ToBer for isize {
//@assoctype src/asn1_types/integer.rs | ToBer for isize | Encoder | macro=impl_int#0(int:=isize,uint:=usize)
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(2)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(self.ber_c().len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { int_enc(*self as int) }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { true }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) { lemma_int_enc_small(*self as int); }
//@fn src/asn1_types/integer.rs | ToBer for isize | ber_content_len | key=P03+P05 | macro=impl_int#0(int:=isize,uint:=usize)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_isize(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
//@fn src/asn1_types/integer.rs | ToBer for isize | ber_tag_info | key=P02+P05 | macro=impl_int#0(int:=isize,uint:=usize)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/integer.rs | ToBer for isize | ber_write_content | key=P03+P05 | macro=impl_int#0(int:=isize,uint:=usize)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_isize(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
}
impl ToBerX for isize {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/integer.rs | ToDer for isize | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=impl_int#0(int:=isize,uint:=usize)
impl ToDer for isize {
//@assoctype src/asn1_types/integer.rs | ToDer for isize | Encoder | macro=impl_int#0(int:=isize,uint:=usize)
    open spec fn der_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(2)) }
    open spec fn der_l(&self) -> Length { Length::Definite(self.der_c().len() as usize) }
    open spec fn der_c(&self) -> Seq<u8> { int_enc(*self as int) }
    open spec fn der_pre(&self) -> bool { true }
    open spec fn der_ok(&self) -> bool { true }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) { lemma_int_enc_small(*self as int); }
//@fn src/asn1_types/integer.rs | ToDer for isize | der_content_len | key=P03+P05 | macro=impl_int#0(int:=isize,uint:=usize)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_isize(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
//@fn src/asn1_types/integer.rs | ToDer for isize | der_tag_info | key=P02+P05 | macro=impl_int#0(int:=isize,uint:=usize)
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/integer.rs | ToDer for isize | der_write_content | key=P03+P05 | macro=impl_int#0(int:=isize,uint:=usize)
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_isize(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
}
impl ToDerX for isize {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/integer.rs | ToBer for Integer<'_> | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber
impl<'a> ToBer for Integer<'a> {
//@assoctype src/asn1_types/integer.rs | ToBer for Integer<'_> | Encoder
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(2)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(self.ber_c().len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { cow_seq(self.data) }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { fits(self.ber_c().len() as int) }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {  }
//@fn src/asn1_types/integer.rs | ToBer for Integer<'_> | ber_content_len | key=P03+P05
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/integer.rs | ToBer for Integer<'_> | ber_tag_info | key=P02+P05
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/integer.rs | ToBer for Integer<'_> | ber_write_content | key=P03+P05
//@ret r
//@contract
//@endfn
}
impl<'a> ToBerX for Integer<'a> {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@require src/asn1_types/integer.rs | impl_toder_from_tober!(LFT 'a, Integer<'a>)
//@default src/to_der.rs | ToDer for Integer<'a> | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=impl_toder_from_tober#1(lft:='a,ty:=Integer<'a>)
impl<'a> ToDer for Integer<'a> {
//@assoctype src/to_der.rs | ToDer for Integer<'a> | Encoder | macro=impl_toder_from_tober#1(lft:='a,ty:=Integer<'a>)
    open spec fn der_i(&self) -> (Class, bool, Tag) { self.ber_i() }
    open spec fn der_l(&self) -> Length { self.ber_l() }
    open spec fn der_c(&self) -> Seq<u8> { self.ber_c() }
    open spec fn der_pre(&self) -> bool { self.ber_pre() }
    open spec fn der_ok(&self) -> bool { self.ber_ok() }
    proof fn lemma_der_i(&self) { self.lemma_ber_i(); }
    proof fn lemma_der_l(&self) { self.lemma_ber_l(); }
//@fn src/to_der.rs | ToDer for Integer<'a> | der_content_len | key=P03 | macro=impl_toder_from_tober#1(lft:='a,ty:=Integer<'a>)
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for Integer<'a> | der_tag_info | key=P02 | macro=impl_toder_from_tober#1(lft:='a,ty:=Integer<'a>)
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for Integer<'a> | der_write_content | key=P03 | macro=impl_toder_from_tober#1(lft:='a,ty:=Integer<'a>)
//@ret r
//@contract
//@endfn
}
impl<'a> ToDerX for Integer<'a> {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/octetstring.rs | ToBer for OctetString<'_> | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber
impl<'a> ToBer for OctetString<'a> {
//@assoctype src/asn1_types/octetstring.rs | ToBer for OctetString<'_> | Encoder
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(4)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(self.ber_c().len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { cow_seq(self.data) }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { fits(self.ber_c().len() as int) }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {  }
//@fn src/asn1_types/octetstring.rs | ToBer for OctetString<'_> | ber_content_len | key=P03
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/octetstring.rs | ToBer for OctetString<'_> | ber_tag_info | key=P02+P10
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/octetstring.rs | ToBer for OctetString<'_> | ber_write_content | key=P03+P10
//@ret r
//@contract
//@endfn
}
impl<'a> ToBerX for OctetString<'a> {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@require src/asn1_types/octetstring.rs | impl_toder_from_tober!(LFT 'a, OctetString<'a>)
//@default src/to_der.rs | ToDer for OctetString<'a> | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=impl_toder_from_tober#1(lft:='a,ty:=OctetString<'a>)
impl<'a> ToDer for OctetString<'a> {
//@assoctype src/to_der.rs | ToDer for OctetString<'a> | Encoder | macro=impl_toder_from_tober#1(lft:='a,ty:=OctetString<'a>)
    open spec fn der_i(&self) -> (Class, bool, Tag) { self.ber_i() }
    open spec fn der_l(&self) -> Length { self.ber_l() }
    open spec fn der_c(&self) -> Seq<u8> { self.ber_c() }
    open spec fn der_pre(&self) -> bool { self.ber_pre() }
    open spec fn der_ok(&self) -> bool { self.ber_ok() }
    proof fn lemma_der_i(&self) { self.lemma_ber_i(); }
    proof fn lemma_der_l(&self) { self.lemma_ber_l(); }
//@fn src/to_der.rs | ToDer for OctetString<'a> | der_content_len | key=P03 | macro=impl_toder_from_tober#1(lft:='a,ty:=OctetString<'a>)
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for OctetString<'a> | der_tag_info | key=P02 | macro=impl_toder_from_tober#1(lft:='a,ty:=OctetString<'a>)
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for OctetString<'a> | der_write_content | key=P03 | macro=impl_toder_from_tober#1(lft:='a,ty:=OctetString<'a>)
//@ret r
//@contract
//@endfn
}
impl<'a> ToDerX for OctetString<'a> {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/octetstring.rs | ToBer for &'_ [u8] | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber
impl<'a> ToBer for &'a [u8] {
//@assoctype src/asn1_types/octetstring.rs | ToBer for &'_ [u8] | Encoder
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(4)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(self.ber_c().len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { (*self)@ }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { fits(self.ber_c().len() as int) }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {  }
//@fn src/asn1_types/octetstring.rs | ToBer for &'_ [u8] | ber_content_len | key=P03
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/octetstring.rs | ToBer for &'_ [u8] | ber_tag_info | key=P02+P10
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/octetstring.rs | ToBer for &'_ [u8] | ber_write_content | key=P03+P10
//@ret r
//@contract
//@endfn
}
impl<'a> ToBerX for &'a [u8] {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@require src/asn1_types/octetstring.rs | impl_toder_from_tober!(LFT 'a, &'a [u8])
//@default src/to_der.rs | ToDer for &'a [u8] | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=impl_toder_from_tober#1(lft:='a,ty:=&'a [u8])
impl<'a> ToDer for &'a [u8] {
//@assoctype src/to_der.rs | ToDer for &'a [u8] | Encoder | macro=impl_toder_from_tober#1(lft:='a,ty:=&'a [u8])
    open spec fn der_i(&self) -> (Class, bool, Tag) { self.ber_i() }
    open spec fn der_l(&self) -> Length { self.ber_l() }
    open spec fn der_c(&self) -> Seq<u8> { self.ber_c() }
    open spec fn der_pre(&self) -> bool { self.ber_pre() }
    open spec fn der_ok(&self) -> bool { self.ber_ok() }
    proof fn lemma_der_i(&self) { self.lemma_ber_i(); }
    proof fn lemma_der_l(&self) { self.lemma_ber_l(); }
//@fn src/to_der.rs | ToDer for &'a [u8] | der_content_len | key=P03 | macro=impl_toder_from_tober#1(lft:='a,ty:=&'a [u8])
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for &'a [u8] | der_tag_info | key=P02 | macro=impl_toder_from_tober#1(lft:='a,ty:=&'a [u8])
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for &'a [u8] | der_write_content | key=P03 | macro=impl_toder_from_tober#1(lft:='a,ty:=&'a [u8])
//@ret r
//@contract
//@endfn
}
impl<'a> ToDerX for &'a [u8] {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
pub proof fn lemma_arr1()
    ensures forall|a: [u8; 1]| #![trigger a@] a@ == seq![a@[0]]
{ assert forall|a: [u8; 1]| #![trigger a@] a@ == seq![a@[0]] by { assert(a@ =~= seq![a@[0]]); } }
//@default src/asn1_types/boolean.rs | ToBer for Boolean | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber
impl ToBer for Boolean {
//@assoctype src/asn1_types/boolean.rs | ToBer for Boolean | Encoder
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(1)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(1) }
    open spec fn ber_c(&self) -> Seq<u8> { seq![self.value] }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { true }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {  }
//@fn src/asn1_types/boolean.rs | ToBer for Boolean | ber_content_len | key=P03
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/boolean.rs | ToBer for Boolean | ber_tag_info | key=P02
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/boolean.rs | ToBer for Boolean | ber_write_content | key=P03
//@ret r
//@contract
//@ghost entry
        proof { lemma_arr1(); }
//@endfn
}
impl ToBerX for Boolean {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/boolean.rs | ToDer for Boolean | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der
impl ToDer for Boolean {
//@assoctype src/asn1_types/boolean.rs | ToDer for Boolean | Encoder
    open spec fn der_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(1)) }
    open spec fn der_l(&self) -> Length { Length::Definite(1) }
    open spec fn der_c(&self) -> Seq<u8> { seq![if self.value != 0 { 0xffu8 } else { 0u8 }] }
    open spec fn der_pre(&self) -> bool { true }
    open spec fn der_ok(&self) -> bool { true }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) {  }
//@fn src/asn1_types/boolean.rs | ToDer for Boolean | der_content_len | key=P03
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/boolean.rs | ToDer for Boolean | der_tag_info | key=P02
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/boolean.rs | ToDer for Boolean | der_write_content | key=P03
//@ret r
//@contract
//@ghost entry
        proof { lemma_arr1(); }
//@endfn
}
impl ToDerX for Boolean {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/boolean.rs | ToBer for bool | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber
impl ToBer for bool {
//@assoctype src/asn1_types/boolean.rs | ToBer for bool | Encoder
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(1)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(1) }
    open spec fn ber_c(&self) -> Seq<u8> { seq![if *self { 0xffu8 } else { 0u8 }] }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { true }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {  }
//@fn src/asn1_types/boolean.rs | ToBer for bool | ber_content_len | key=P03
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/boolean.rs | ToBer for bool | ber_tag_info | key=P02
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/boolean.rs | ToBer for bool | ber_write_content | key=P03
//@ret r
//@contract
//@ghost entry
        proof { lemma_arr1(); }
//@endfn
}
impl ToBerX for bool {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/boolean.rs | ToDer for bool | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der
impl ToDer for bool {
//@assoctype src/asn1_types/boolean.rs | ToDer for bool | Encoder
    open spec fn der_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(1)) }
    open spec fn der_l(&self) -> Length { Length::Definite(1) }
    open spec fn der_c(&self) -> Seq<u8> { seq![if *self { 0xffu8 } else { 0u8 }] }
    open spec fn der_pre(&self) -> bool { true }
    open spec fn der_ok(&self) -> bool { true }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) {  }
//@fn src/asn1_types/boolean.rs | ToDer for bool | der_content_len | key=P03
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/boolean.rs | ToDer for bool | der_tag_info | key=P02
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/boolean.rs | ToDer for bool | der_write_content | key=P03
//@ret r
//@contract
//@ghost entry
        proof { lemma_arr1(); }
//@endfn
}
impl ToDerX for bool {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/null.rs | ToBer for Null | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber
impl ToBer for Null {
//@assoctype src/asn1_types/null.rs | ToBer for Null | Encoder
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(5)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(0) }
    open spec fn ber_c(&self) -> Seq<u8> { Seq::empty() }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { true }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {  }
//@fn src/asn1_types/null.rs | ToBer for Null | ber_content_len | key=P03
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/null.rs | ToBer for Null | ber_tag_info | key=P02
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/null.rs | ToBer for Null | ber_write_content | key=P03
//@ret r
//@contract
//@ghost entry
        proof { assert(old(_arg).out() + Seq::<u8>::empty() =~= old(_arg).out()); }
//@endfn
}
impl ToBerX for Null {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@require src/asn1_types/null.rs | impl_toder_from_tober!(TY Null)
//@default src/to_der.rs | ToDer for Null | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=impl_toder_from_tober#0(ty:=Null)
impl ToDer for Null {
//@assoctype src/to_der.rs | ToDer for Null | Encoder | macro=impl_toder_from_tober#0(ty:=Null)
    open spec fn der_i(&self) -> (Class, bool, Tag) { self.ber_i() }
    open spec fn der_l(&self) -> Length { self.ber_l() }
    open spec fn der_c(&self) -> Seq<u8> { self.ber_c() }
    open spec fn der_pre(&self) -> bool { self.ber_pre() }
    open spec fn der_ok(&self) -> bool { self.ber_ok() }
    proof fn lemma_der_i(&self) { self.lemma_ber_i(); }
    proof fn lemma_der_l(&self) { self.lemma_ber_l(); }
//@fn src/to_der.rs | ToDer for Null | der_content_len | key=P03 | macro=impl_toder_from_tober#0(ty:=Null)
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for Null | der_tag_info | key=P02 | macro=impl_toder_from_tober#0(ty:=Null)
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for Null | der_write_content | key=P03 | macro=impl_toder_from_tober#0(ty:=Null)
//@ret r
//@contract
//@endfn
}
impl ToDerX for Null {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/null.rs | ToBer for () | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber
impl ToBer for () {
//@assoctype src/asn1_types/null.rs | ToBer for () | Encoder
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(5)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(0) }
    open spec fn ber_c(&self) -> Seq<u8> { Seq::empty() }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { true }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {  }
//@fn src/asn1_types/null.rs | ToBer for () | ber_content_len | key=P03
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/null.rs | ToBer for () | ber_tag_info | key=P02
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/null.rs | ToBer for () | ber_write_content | key=P03
//@ret r
//@contract
//@ghost entry
        proof { assert(old(_arg).out() + Seq::<u8>::empty() =~= old(_arg).out()); }
//@endfn
}
impl ToBerX for () {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@require src/asn1_types/null.rs | impl_toder_from_tober!(TY ())
//@default src/to_der.rs | ToDer for () | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=impl_toder_from_tober#0(ty:=())
impl ToDer for () {
//@assoctype src/to_der.rs | ToDer for () | Encoder | macro=impl_toder_from_tober#0(ty:=())
    open spec fn der_i(&self) -> (Class, bool, Tag) { self.ber_i() }
    open spec fn der_l(&self) -> Length { self.ber_l() }
    open spec fn der_c(&self) -> Seq<u8> { self.ber_c() }
    open spec fn der_pre(&self) -> bool { self.ber_pre() }
    open spec fn der_ok(&self) -> bool { self.ber_ok() }
    proof fn lemma_der_i(&self) { self.lemma_ber_i(); }
    proof fn lemma_der_l(&self) { self.lemma_ber_l(); }
//@fn src/to_der.rs | ToDer for () | der_content_len | key=P03 | macro=impl_toder_from_tober#0(ty:=())
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for () | der_tag_info | key=P02 | macro=impl_toder_from_tober#0(ty:=())
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for () | der_write_content | key=P03 | macro=impl_toder_from_tober#0(ty:=())
//@ret r
//@contract
//@endfn
}
impl ToDerX for () {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/enumerated.rs | ToBer for Enumerated | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber
impl ToBer for Enumerated {
//@assoctype src/asn1_types/enumerated.rs | ToBer for Enumerated | Encoder
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, false, Tag(10)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(self.ber_c().len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { int_enc(self.0 as int) }
    open spec fn ber_pre(&self) -> bool { true }
    open spec fn ber_ok(&self) -> bool { true }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) { lemma_int_enc_small(self.0 as int); }
//@fn src/asn1_types/enumerated.rs | ToBer for Enumerated | ber_content_len | key=P03
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_u32(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
//@fn src/asn1_types/enumerated.rs | ToBer for Enumerated | ber_tag_info | key=P02
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/enumerated.rs | ToBer for Enumerated | ber_write_content | key=P03
//@ret r
//@subst Integer::from\( ==> Integer::verif_from_u32(
//@contract
//@ghost entry
        proof { lemma_int_enc_all(); }
//@endfn
}
impl ToBerX for Enumerated {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@require src/asn1_types/enumerated.rs | impl_toder_from_tober!(TY Enumerated)
//@default src/to_der.rs | ToDer for Enumerated | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der | macro=impl_toder_from_tober#0(ty:=Enumerated)
impl ToDer for Enumerated {
//@assoctype src/to_der.rs | ToDer for Enumerated | Encoder | macro=impl_toder_from_tober#0(ty:=Enumerated)
    open spec fn der_i(&self) -> (Class, bool, Tag) { self.ber_i() }
    open spec fn der_l(&self) -> Length { self.ber_l() }
    open spec fn der_c(&self) -> Seq<u8> { self.ber_c() }
    open spec fn der_pre(&self) -> bool { self.ber_pre() }
    open spec fn der_ok(&self) -> bool { self.ber_ok() }
    proof fn lemma_der_i(&self) { self.lemma_ber_i(); }
    proof fn lemma_der_l(&self) { self.lemma_ber_l(); }
//@fn src/to_der.rs | ToDer for Enumerated | der_content_len | key=P03 | macro=impl_toder_from_tober#0(ty:=Enumerated)
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for Enumerated | der_tag_info | key=P02 | macro=impl_toder_from_tober#0(ty:=Enumerated)
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for Enumerated | der_write_content | key=P03 | macro=impl_toder_from_tober#0(ty:=Enumerated)
//@ret r
//@contract
//@endfn
}
impl ToDerX for Enumerated {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
}
