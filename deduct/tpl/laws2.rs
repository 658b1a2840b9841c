verus! {
// ------------------------------------------------------------------ DER against BER (P09)
/// what DER accepts, BER accepts with the same value
pub trait DerBer<'i>: BerContent<'i> + DerContent<'i> {
    /// the value as the BER decoder reports it
    spec fn conv(d: Self::DV) -> Self::V;
    /// the inner type of an explicit tag is decoded as one object
    spec fn db_ok() -> bool;
    proof fn lemma_conv(&self)
        ensures Self::conv(self.sp_dval()) == self.sp_val();
    proof fn lemma_db(h: HV, c: Seq<u8>)
        requires Self::db_ok(), h.len == Length::Definite(c.len() as usize), c.len() <= usize::MAX, Self::sp_der(h, c) is Some
        ensures Self::sp_ber(h, c) == Some(Self::conv(Self::sp_der(h, c)->Some_0));
}
/// an object DER accepts is one BER accepts, with the same header, content and extent; its length is definite
pub proof fn law_der_obj(b: Seq<u8>)
    requires der_obj(b) is Some
    ensures ber_obj(b) == der_obj(b), der_obj(b)->Some_0.h.len == Length::Definite(obj_content(b, der_obj(b)->Some_0).len() as usize),
        obj_content(b, der_obj(b)->Some_0).len() <= usize::MAX
{
    lemma_obj(b);
    lemma_hdr_bounds(b);
    let s = hdr_spec(b)->Some_0;
    let p = b.subrange(s.octets, b.len() as int);
    assert(skip_spec(p, shv(s), 50) == der_content_spec(p, shv(s))->Some_0.0);
}
pub proof fn law_der_refuses_indefinite(b: Seq<u8>)
    requires hdr_spec(b) matches Some(s) && s.len is None
    ensures der_obj(b) is None
{}
pub proof fn law_der_ber<'i, T: DerBer<'i>>(b: Seq<u8>)
    requires T::db_ok(), der_obj_dec::<T>(b) is Some
    ensures ber_obj_dec::<T>(b) == Some((T::conv(der_obj_dec::<T>(b)->Some_0.0), der_obj_dec::<T>(b)->Some_0.1))
{
    law_der_obj(b);
    let o = der_obj(b)->Some_0;
    T::lemma_db(o.h, obj_content(b, o));
}
pub open spec fn conv_seq<'i, T: DerBer<'i>>(v: Seq<T::DV>) -> Seq<T::V> { v.map_values(|d: T::DV| T::conv(d)) }
pub proof fn law_der_ber_list<'i, T: DerBer<'i>>(b: Seq<u8>)
    requires T::db_ok(), list_der::<T>(b) is Some
    ensures list_ber::<T>(b) == Some(conv_seq::<T>(list_der::<T>(b)->Some_0))
    decreases b.len()
{
    let d = list_der::<T>(b)->Some_0;
    if b.len() == 0 { assert(conv_seq::<T>(d) =~= Seq::empty()); }
    else {
        let (x, n) = der_obj_dec::<T>(b)->Some_0;
        law_der_ber::<T>(b);
        law_der_ber_list::<T>(rest(b, n));
        assert(conv_seq::<T>(d) =~= seq![T::conv(x)] + conv_seq::<T>(list_der::<T>(rest(b, n))->Some_0));
    }
}
/// re-encoding what DER accepted
pub open spec fn min_hdr(b: Seq<u8>, o: Obj, i: (Class, bool, Tag)) -> bool {
    i == (o.h.class, o.h.cons, o.h.tag) && b.subrange(0, o.start) == hdr_enc(i, o.h.len)
}
pub trait Canon<'i>: DerContent<'i> + ToDerX {
    /// the headers inside the content are the minimal ones and have the class and constructed bit of their types
    spec fn ca(&self, h: HV, c: Seq<u8>) -> bool;
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>)
        requires self.der_ok(), !self.der_abs(), self.ca(h, c), h.len == Length::Definite(c.len() as usize), c.len() <= usize::MAX, Self::sp_der(h, c) == Some(self.sp_dval())
        ensures self.der_c() == c;
}
/// a value that DER decoding of b gives, whose headers were minimal, is written back as the same octets
pub proof fn law_canonical<'i, T: Canon<'i>>(b: Seq<u8>, x: T)
    requires
        x.der_ok(), !x.der_abs(), der_obj_dec::<T>(b) matches Some((v, n)) && v == x.sp_dval(),
        min_hdr(b, der_obj(b)->Some_0, x.der_i()), x.ca(der_obj(b)->Some_0.h, obj_content(b, der_obj(b)->Some_0)),
    ensures x.der_out() == b.subrange(0, der_obj(b)->Some_0.end)
{
    law_der_obj(b);
    lemma_obj(b);
    let o = der_obj(b)->Some_0;
    let c = obj_content(b, o);
    x.lemma_ca(o.h, c);
    x.lemma_der_out();
    x.lemma_der_l();
    assert(b.subrange(0, o.start) + c =~= b.subrange(0, o.end));
}
impl<'i> DerBer<'i> for u8 {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for u8 {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) { lemma_int_enc(*self as int); lemma_int_dec(1, h, c); lemma_int_min_unique(c, int_enc(*self as int)); }
}
impl<'i> DerBer<'i> for u16 {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for u16 {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) { lemma_int_enc(*self as int); lemma_int_dec(2, h, c); lemma_int_min_unique(c, int_enc(*self as int)); }
}
impl<'i> DerBer<'i> for u32 {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for u32 {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) { lemma_int_enc(*self as int); lemma_int_dec(4, h, c); lemma_int_min_unique(c, int_enc(*self as int)); }
}
impl<'i> DerBer<'i> for u64 {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for u64 {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) { lemma_int_enc(*self as int); lemma_int_dec(8, h, c); lemma_int_min_unique(c, int_enc(*self as int)); }
}
impl<'i> DerBer<'i> for u128 {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for u128 {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) { lemma_int_enc(*self as int); lemma_int_dec(16, h, c); lemma_int_min_unique(c, int_enc(*self as int)); }
}
impl<'i> DerBer<'i> for usize {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for usize {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) { lemma_int_enc(*self as int); lemma_int_dec(8, h, c); lemma_int_min_unique(c, int_enc(*self as int)); }
}
impl<'i> DerBer<'i> for i8 {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for i8 {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) { lemma_int_enc(*self as int); lemma_int_dec(1, h, c); lemma_int_min_unique(c, int_enc(*self as int)); }
}
impl<'i> DerBer<'i> for i16 {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for i16 {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) { lemma_int_enc(*self as int); lemma_int_dec(2, h, c); lemma_int_min_unique(c, int_enc(*self as int)); }
}
impl<'i> DerBer<'i> for i32 {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for i32 {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) { lemma_int_enc(*self as int); lemma_int_dec(4, h, c); lemma_int_min_unique(c, int_enc(*self as int)); }
}
impl<'i> DerBer<'i> for i64 {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for i64 {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) { lemma_int_enc(*self as int); lemma_int_dec(8, h, c); lemma_int_min_unique(c, int_enc(*self as int)); }
}
impl<'i> DerBer<'i> for i128 {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for i128 {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) { lemma_int_enc(*self as int); lemma_int_dec(16, h, c); lemma_int_min_unique(c, int_enc(*self as int)); }
}
impl<'i> DerBer<'i> for isize {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for isize {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) { lemma_int_enc(*self as int); lemma_int_dec(8, h, c); lemma_int_min_unique(c, int_enc(*self as int)); }
}
impl<'i> DerBer<'i> for Integer<'i> {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for Integer<'i> {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) { assert(c.subrange(0, c.len() as int) =~= c); }
}
impl<'i> DerBer<'i> for Any<'i> {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) { assert(c.subrange(0, c.len() as int) =~= c); }
}
impl<'i> Canon<'i> for Any<'i> {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) { assert(c.subrange(0, c.len() as int) =~= c); }
}
impl<'i> DerBer<'i> for OctetString<'i> {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for OctetString<'i> {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) {  }
}
impl<'i> DerBer<'i> for &'i [u8] {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for &'i [u8] {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) {  }
}
impl<'i> DerBer<'i> for Boolean {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for Boolean {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) { assert(self.der_c() =~= c); }
}
impl<'i> DerBer<'i> for bool {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for bool {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) { assert(self.der_c() =~= c); }
}
impl<'i> DerBer<'i> for Null {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for Null {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) { assert(self.der_c() =~= c); }
}
impl<'i> DerBer<'i> for () {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for () {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) { assert(self.der_c() =~= c); }
}
impl<'i> DerBer<'i> for Enumerated {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for Enumerated {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) { lemma_int_enc(self.0 as int); lemma_int_dec(4, h, c); lemma_int_min_unique(c, int_enc(self.0 as int)); }
}
/// the content of a bit string accepted by DER is the one written for its bits
pub proof fn lemma_bit_canon(h: HV, c: Seq<u8>, v: Seq<bool>)
    requires der_bit(h, c) == Some(v), h.len == Length::Definite(c.len() as usize), c.len() <= usize::MAX
    ensures bit_cont(v) == c
{
    let n = c.len() as int;
    assert(c.subrange(0, n) =~= c);
    let raw = c.subrange(1, n);
    assert(v =~= bits_of(raw).subrange(0, 8 * (n - 1) - c[0]));
    assert(raw.len() == (v.len() + 7) / 8);
    assert(bits_of(raw).subrange(0, v.len() as int) == v);
    lemma_bit_octs(raw, v);
    assert(seq![c[0]] + raw =~= c);
    if n > 1 {
        let l = raw.last();
        assert(l == c.last());
        let s = c[0];
        let z = vstd::std_specs::bits::u8_trailing_zeros(l);
        vstd::std_specs::bits::axiom_u8_trailing_zeros(l);
        assert(s < 8);
        assert(s == 8 * raw.len() - v.len());
        assert(z >= s);
        let k = sub(8, s);
        assert(forall|j: u8| j < s ==> #[trigger] (l >> j) & 1u8 == 0u8);
        lemma_low_zero(l, s);
        assert(raw.drop_last().push(l) =~= raw);
    }
    assert(bit_cont(v) =~= c);
}
pub proof fn lemma_low_zero(l: u8, s: u8)
    requires s < 8, forall|j: u8| j < s ==> #[trigger] (l >> j) & 1u8 == 0u8
    ensures l & (0xffu8 << s) == l
{
    assert(s > 0 ==> (l >> 0u8) & 1u8 == 0u8);
    assert(s > 1 ==> (l >> 1u8) & 1u8 == 0u8);
    assert(s > 2 ==> (l >> 2u8) & 1u8 == 0u8);
    assert(s > 3 ==> (l >> 3u8) & 1u8 == 0u8);
    assert(s > 4 ==> (l >> 4u8) & 1u8 == 0u8);
    assert(s > 5 ==> (l >> 5u8) & 1u8 == 0u8);
    assert(s > 6 ==> (l >> 6u8) & 1u8 == 0u8);
    assert(s < 8 && (s > 0 ==> (l >> 0u8) & 1u8 == 0u8) && (s > 1 ==> (l >> 1u8) & 1u8 == 0u8) && (s > 2 ==> (l >> 2u8) & 1u8 == 0u8) && (s > 3 ==> (l >> 3u8) & 1u8 == 0u8)
        && (s > 4 ==> (l >> 4u8) & 1u8 == 0u8) && (s > 5 ==> (l >> 5u8) & 1u8 == 0u8) && (s > 6 ==> (l >> 6u8) & 1u8 == 0u8) ==> l & (0xffu8 << s) == l) by(bit_vector);
}
impl<'i> DerBer<'i> for BitString {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for BitString {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) { lemma_bit_canon(h, c, self.bitvec.bits()); }
}
impl<'i> DerBer<'i> for NumericString<'i> {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for NumericString<'i> {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) {  }
}
impl<'i> DerBer<'i> for PrintableString<'i> {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for PrintableString<'i> {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) {  }
}
impl<'i> DerBer<'i> for VisibleString<'i> {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for VisibleString<'i> {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) {  }
}
impl<'i> DerBer<'i> for TeletexString<'i> {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for TeletexString<'i> {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) {  }
}
impl<'i> DerBer<'i> for VideotexString<'i> {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for VideotexString<'i> {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) {  }
}
impl<'i> DerBer<'i> for Ia5String<'i> {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for Ia5String<'i> {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) {  }
}
impl<'i> DerBer<'i> for GraphicString<'i> {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for GraphicString<'i> {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) {  }
}
impl<'i> DerBer<'i> for GeneralString<'i> {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for GeneralString<'i> {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) {  }
}
impl<'i> DerBer<'i> for ObjectDescriptor<'i> {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for ObjectDescriptor<'i> {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) {  }
}
impl<'i> DerBer<'i> for Utf8String<'i> {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for Utf8String<'i> {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) {  }
}
impl<'i> DerBer<'i> for &'i str {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for &'i str {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) {  }
}
impl<'i> DerBer<'i> for String {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for String {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) {  }
}
/// UTF-16: the units decoded are the units written
pub proof fn lemma_utf16_canon(v: Seq<u16>)
    requires utf16_dec(v) is Some
    ensures utf16_enc(utf16_dec(v)->Some_0) == v
    decreases v.len()
{
    let d = utf16_dec(v)->Some_0;
    if v.len() > 0 {
        let n = if v[0] < 0xd800 || v[0] >= 0xe000 { 1int } else { 2int };
        let t = v.subrange(n, v.len() as int);
        lemma_utf16_canon(t);
        let x = d[0];
        assert(d =~= seq![x] + utf16_dec(t)->Some_0);
        assert(d.subrange(1, d.len() as int) =~= utf16_dec(t)->Some_0);
        if n == 1 { assert(utf16_one(x) =~= v.subrange(0, 1)); }
        else {
            let (a, b) = (v[0] - 0xd800, v[1] - 0xdc00);
            assert(x - 0x1_0000 == a * 0x400 + b && 0 <= b < 0x400);
            assert((x - 0x1_0000) / 0x400 == a && (x - 0x1_0000) % 0x400 == b);
            assert(utf16_one(x) =~= v.subrange(0, 2));
        }
        assert(utf16_enc(d) =~= v.subrange(0, n) + t);
        assert(v =~= v.subrange(0, n) + t);
    } else { assert(utf16_enc(d) =~= v); }
}
pub proof fn lemma_units16(c: Seq<u8>)
    requires c.len() % 2 == 0
    ensures be16(units16(c)) == c
{
    let u = units16(c);
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] be16(u)[i] == c[i] by {
        let k = i / 2;
        let (a, b) = (c[2 * k] as int, c[2 * k + 1] as int);
        assert(u[k] == a * 256 + b);
        assert((a * 256 + b) / 256 == a && (a * 256 + b) % 256 == b);
        assert(i == 2 * k || i == 2 * k + 1);
    }
    assert(be16(u) =~= c);
}
pub proof fn lemma_oct4_ucs4(w: Seq<u8>)
    requires w.len() == 4
    ensures oct4(ucs4(w)) == w
{
    let (a, b, c, d) = (w[0] as int, w[1] as int, w[2] as int, w[3] as int);
    let x = ucs4(w);
    assert(x == ((a * 256 + b) * 256 + c) * 256 + d);
    assert(x / 256 == (a * 256 + b) * 256 + c && x % 256 == d);
    assert(x / 0x1_0000 == a * 256 + b);
    assert(x / 0x100_0000 == a);
    assert(oct4(x) =~= w);
}
pub proof fn lemma_units32(c: Seq<u8>)
    requires c.len() % 4 == 0
    ensures be32(units32(c)) == c
{
    let u = units32(c);
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] be32(u)[i] == c[i] by {
        let k = i / 4;
        let w = c.subrange(4 * k, 4 * k + 4);
        lemma_oct4_ucs4(w);
        assert(u[k] == ucs4(w));
        assert(w[i % 4] == c[i]);
    }
    assert(be32(u) =~= c);
}
impl<'i> DerBer<'i> for BmpString<'i> {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for BmpString<'i> {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) { lemma_cow_scalars(self.data); lemma_utf16_canon(units16(c)); lemma_units16(c); }
}
impl<'i> DerBer<'i> for UniversalString<'i> {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for UniversalString<'i> {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) { lemma_cow_scalars(self.data); lemma_units32(c); }
}
impl<'i> DerBer<'i> for Sequence<'i> {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for Sequence<'i> {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) {  }
}
impl<'i> DerBer<'i> for Set<'i> {
    open spec fn conv(d: Self::DV) -> Self::V { d }
    open spec fn db_ok() -> bool { true }
    proof fn lemma_conv(&self) {  }
    proof fn lemma_db(h: HV, c: Seq<u8>) {  }
}
impl<'i> Canon<'i> for Set<'i> {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { true }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) {  }
}
/// the elements are written one after the other with minimal headers
pub open spec fn ca_list<'i, T: Canon<'i>>(v: Seq<T>, b: Seq<u8>) -> bool
    decreases v.len()
{
    v.len() == 0 || (match der_obj(b) { None => false, Some(o) => v[0].der_ok() && !v[0].der_abs() && min_hdr(b, o, v[0].der_i()) && v[0].ca(o.h, obj_content(b, o)) && ca_list::<T>(v.subrange(1, v.len() as int), rest(b, o.end)) })
}
pub proof fn law_canonical_list<'i, T: Canon<'i>>(v: Seq<T>, b: Seq<u8>)
    requires ca_list(v, b), list_der::<T>(b) == Some(vals_der::<T>(v))
    ensures cat_der(v) == b
    decreases v.len()
{
    if v.len() == 0 {
        assert(vals_der::<T>(v) =~= Seq::empty());
        if b.len() > 0 { let (x, n) = der_obj_dec::<T>(b)->Some_0; assert(list_der::<T>(b)->Some_0.len() > 0); }
        assert(cat_der(v) =~= b);
    } else {
        if b.len() == 0 { assert(vals_der::<T>(v).len() == 0); }
        let t = v.subrange(1, v.len() as int);
        let o = der_obj(b)->Some_0;
        lemma_obj(b);
        let (x, n) = der_obj_dec::<T>(b)->Some_0;
        let r = list_der::<T>(rest(b, n))->Some_0;
        assert(vals_der::<T>(v) =~= seq![x] + r);
        assert(vals_der::<T>(v)[0] == x);
        assert(x == v[0].sp_dval());
        assert(r =~= vals_der::<T>(t)) by {
            assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]) == vals_der::<T>(t)[i] by { assert(vals_der::<T>(v)[i + 1] == r[i]); }
        }
        law_canonical(b, v[0]);
        law_canonical_list(t, rest(b, n));
        lemma_cat_front_der(v);
        assert(b.subrange(0, n) + rest(b, n) =~= b);
    }
}
impl<'i, T: DerBer<'i>> DerBer<'i> for Vec<T> {
    open spec fn conv(d: Self::DV) -> Self::V { conv_seq::<T>(d) }
    open spec fn db_ok() -> bool { T::db_ok() }
    proof fn lemma_conv(&self) { assert forall|i: int| 0 <= i < self@.len() implies (#[trigger] conv_seq::<T>(self.sp_dval())[i]) == self.sp_val()[i] by { self@[i].lemma_conv(); } assert(conv_seq::<T>(self.sp_dval()) =~= self.sp_val()); }
    proof fn lemma_db(h: HV, c: Seq<u8>) { law_der_ber_list::<T>(c); }
}
impl<'i, T: Canon<'i> + DynTagged> Canon<'i> for Vec<T> {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { ca_list(self@, c) }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) { law_canonical_list(self@, c); }
}
impl<'i, T: DerBer<'i>> DerBer<'i> for SequenceOf<T> {
    open spec fn conv(d: Self::DV) -> Self::V { conv_seq::<T>(d) }
    open spec fn db_ok() -> bool { T::db_ok() }
    proof fn lemma_conv(&self) { assert forall|i: int| 0 <= i < self.items@.len() implies (#[trigger] conv_seq::<T>(self.sp_dval())[i]) == self.sp_val()[i] by { self.items@[i].lemma_conv(); } assert(conv_seq::<T>(self.sp_dval()) =~= self.sp_val()); }
    proof fn lemma_db(h: HV, c: Seq<u8>) { law_der_ber_list::<T>(c); }
}
impl<'i, T: Canon<'i> + DynTagged> Canon<'i> for SequenceOf<T> {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { ca_list(self.items@, c) }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) { law_canonical_list(self.items@, c); }
}
impl<'i, T: DerBer<'i>> DerBer<'i> for SetOf<T> {
    open spec fn conv(d: Self::DV) -> Self::V { conv_seq::<T>(d) }
    open spec fn db_ok() -> bool { T::db_ok() }
    proof fn lemma_conv(&self) { assert forall|i: int| 0 <= i < self.items@.len() implies (#[trigger] conv_seq::<T>(self.sp_dval())[i]) == self.sp_val()[i] by { self.items@[i].lemma_conv(); } assert(conv_seq::<T>(self.sp_dval()) =~= self.sp_val()); }
    proof fn lemma_db(h: HV, c: Seq<u8>) { law_der_ber_list::<T>(c); }
}
impl<'i, T: Canon<'i> + DynTagged> Canon<'i> for SetOf<T> {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { ca_list(self.items@, c) }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) { law_canonical_list(self.items@, c); }
}
impl<'i, T: DerBer<'i>> DerBer<'i> for Option<T> {
    open spec fn conv(d: Self::DV) -> Self::V { match d { Some(x) => Some(T::conv(x)), None => None } }
    open spec fn db_ok() -> bool { T::db_ok() }
    proof fn lemma_conv(&self) { if let Some(t) = self { t.lemma_conv(); } }
    proof fn lemma_db(h: HV, c: Seq<u8>) { if T::sp_accept(h.tag) { T::lemma_db(h, c); } }
}
pub open spec fn std_db<'i, T: BerParser<'i> + DerParser<'i>>() -> bool {
    forall|b: Seq<u8>| #![trigger T::sp_parse_ber(b)] #![trigger T::sp_parse_der(b)] T::sp_parse_ber(b) == ber_obj_dec::<T>(b) && T::sp_parse_der(b) == der_obj_dec::<T>(b)
}
impl<'i, T: DerBer<'i> + BerParser<'i> + DerParser<'i>, E, const CLASS: u8, const TAG: u32> DerBer<'i> for TaggedValue<T, E, Explicit, CLASS, TAG> {
    open spec fn conv(d: Self::DV) -> Self::V { T::conv(d) }
    open spec fn db_ok() -> bool { T::db_ok() && std_db::<T>() }
    proof fn lemma_conv(&self) { self.inner.lemma_conv(); }
    proof fn lemma_db(h: HV, c: Seq<u8>) { assert(T::sp_parse_der(c) == der_obj_dec::<T>(c)); law_der_ber::<T>(c); assert(T::sp_parse_ber(c) == ber_obj_dec::<T>(c)); }
}
impl<'i, T: DerBer<'i> + BerParser<'i> + DerParser<'i>, E, const CLASS: u8, const TAG: u32> DerBer<'i> for TaggedValue<T, E, Implicit, CLASS, TAG> {
    open spec fn conv(d: Self::DV) -> Self::V { T::conv(d) }
    open spec fn db_ok() -> bool { T::db_ok() }
    proof fn lemma_conv(&self) { self.inner.lemma_conv(); }
    proof fn lemma_db(h: HV, c: Seq<u8>) { T::lemma_db(h, c); }
}
impl<'i, T: Canon<'i> + DerParser<'i>, E, const CLASS: u8, const TAG: u32> Canon<'i> for TaggedValue<T, E, Implicit, CLASS, TAG> {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { self.inner.ca(h, c) }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) { self.inner.lemma_ca(h, c); }
}
impl<'i, T: Canon<'i> + DerParser<'i>, E, const CLASS: u8, const TAG: u32> Canon<'i> for TaggedValue<T, E, Explicit, CLASS, TAG> {
    open spec fn ca(&self, h: HV, c: Seq<u8>) -> bool { T::sp_parse_der(c) == der_obj_dec::<T>(c) && (der_obj(c) matches Some(o) && o.end == c.len() && self.inner.der_ok() && !self.inner.der_abs() && min_hdr(c, o, self.inner.der_i()) && self.inner.ca(o.h, obj_content(c, o))) }
    proof fn lemma_ca(&self, h: HV, c: Seq<u8>) { self.inner.lemma_der_out(); law_canonical(c, self.inner); assert(c.subrange(0, c.len() as int) =~= c); }
}
}
