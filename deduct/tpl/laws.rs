verus! {
// ------------------------------------------------------------------ laws of the specification: what the contracts imply together
// ---- independence of what follows (P08)
pub proof fn lemma_tag_last_ext(b: Seq<u8>, r: Seq<u8>, k: int)
    requires 0 <= k, tag_last(b, k) >= 0
    ensures tag_last(b + r, k) == tag_last(b, k), k <= tag_last(b, k) < b.len()
    decreases b.len() - k
{
    lemma_tag_last_ub(b, k);
    if k < b.len() { assert((b + r)[k] == b[k]); if b[k] >= 128 { lemma_tag_last_ext(b, r, k + 1); } }
}
pub proof fn lemma_tag_val_ext(b: Seq<u8>, r: Seq<u8>, n: int)
    requires n < b.len()
    ensures tag_val(b + r, n) == tag_val(b, n)
    decreases n
{ if n > 0 { lemma_tag_val_ext(b, r, n - 1); assert((b + r)[n] == b[n]); } }
pub proof fn lemma_hdr_ext(b: Seq<u8>, r: Seq<u8>)
    requires hdr_spec(b) is Some
    ensures hdr_spec(b + r) == hdr_spec(b)
{
    lemma_hdr_bounds(b);
    let t = id_octets(b);
    assert((b + r)[0] == b[0]);
    if b[0] % 32 == 31 {
        lemma_tag_last_ext(b, r, 1);
        lemma_tag_val_ext(b, r, tag_last(b, 1));
    }
    assert(id_octets(b + r) == t);
    assert(id_tag(b + r) == id_tag(b));
    assert((b + r)[t] == b[t]);
    if b[t] > 128 && b[t] < 255 {
        let n = b[t] - 128;
        assert((b + r).subrange(t + 1, t + 1 + n) =~= b.subrange(t + 1, t + 1 + n));
    }
}
pub proof fn lemma_items_ext(b: Seq<u8>, r: Seq<u8>, depth: nat)
    requires items_spec(b, depth) >= 0
    ensures items_spec(b + r, depth) == items_spec(b, depth)
    decreases depth, b.len(), 0int
{
    lemma_hdr_bounds(b);
    let s = hdr_spec(b)->Some_0;
    lemma_hdr_ext(b, r);
    let o = s.octets;
    if !is_eoc(shv(s)) {
        let c = b.subrange(o, b.len() as int);
        assert((b + r).subrange(o, (b + r).len() as int) =~= c + r);
        lemma_skip_ext(c, r, shv(s), depth);
        let n = skip_spec(c, shv(s), depth);
        lemma_skip_bounds(c, shv(s), depth);
        let d = b.subrange(o + n, b.len() as int);
        assert((b + r).subrange(o + n, (b + r).len() as int) =~= d + r);
        lemma_items_ext(d, r, depth);
    }
}
pub proof fn lemma_skip_ext(b: Seq<u8>, r: Seq<u8>, h: HV, depth: nat)
    requires skip_spec(b, h, depth) >= 0
    ensures skip_spec(b + r, h, depth) == skip_spec(b, h, depth)
    decreases depth, b.len(), 1int
{
    if depth > 0 && h.len is Indefinite && h.cons { lemma_items_ext(b, r, (depth - 1) as nat); }
}
/// the object at the start of an input is the same whatever follows it
pub proof fn lemma_obj_ext(b: Seq<u8>, r: Seq<u8>)
    ensures
        ber_obj(b) matches Some(o) ==> ber_obj(b + r) == Some(o) && obj_content(b + r, o) == obj_content(b, o),
        der_obj(b) matches Some(o) ==> der_obj(b + r) == Some(o) && obj_content(b + r, o) == obj_content(b, o),
{
    lemma_obj(b);
    if let Some(s) = hdr_spec(b) {
        lemma_hdr_bounds(b);
        lemma_hdr_ext(b, r);
        let c = b.subrange(s.octets, b.len() as int);
        assert((b + r).subrange(s.octets, (b + r).len() as int) =~= c + r);
        if skip_spec(c, shv(s), 50) >= 0 { lemma_skip_ext(c, r, shv(s), 50); }
        if let Some(o) = ber_obj(b) { assert(obj_content(b + r, o) =~= obj_content(b, o)); }
        if let Some(o) = der_obj(b) { assert(obj_content(b + r, o) =~= obj_content(b, o)); }
    }
}
/// no proper prefix of an object is an object
pub proof fn lemma_obj_prefix(b: Seq<u8>, k: int)
    requires 0 <= k <= b.len()
    ensures
        ber_obj(b) matches Some(o) ==> k < o.end ==> ber_obj(b.subrange(0, k)) is None,
        der_obj(b) matches Some(o) ==> k < o.end ==> der_obj(b.subrange(0, k)) is None,
{
    let p = b.subrange(0, k);
    let r = b.subrange(k, b.len() as int);
    assert(p + r =~= b);
    lemma_obj(p);
    lemma_obj_ext(p, r);
}
/// P08: a value decoded from one object depends on that object only, and is refused on every proper prefix
pub proof fn law_one_object_ber<'i, T: BerContent<'i>>(b: Seq<u8>, r: Seq<u8>, k: int)
    requires ber_obj_dec::<T>(b) is Some
    ensures
        ber_obj_dec::<T>(b + r) == ber_obj_dec::<T>(b),
        2 <= ber_obj_dec::<T>(b)->Some_0.1 <= b.len(),
        ber_obj_dec::<T>(b.subrange(0, ber_obj_dec::<T>(b)->Some_0.1)) == ber_obj_dec::<T>(b),
        0 <= k < ber_obj_dec::<T>(b)->Some_0.1 ==> ber_obj_dec::<T>(b.subrange(0, k)) is None,
{
    let n = ber_obj_dec::<T>(b)->Some_0.1;
    lemma_obj(b);
    lemma_obj_ext(b, r);
    if 0 <= k < n { lemma_obj_prefix(b, k); }
    let p = b.subrange(0, n);
    let q = b.subrange(n, b.len() as int);
    assert(p + q =~= b);
    lemma_obj_exact(b);
    lemma_obj_ext(p, q);
}
pub proof fn law_one_object_der<'i, T: DerContent<'i>>(b: Seq<u8>, r: Seq<u8>, k: int)
    requires der_obj_dec::<T>(b) is Some
    ensures
        der_obj_dec::<T>(b + r) == der_obj_dec::<T>(b),
        2 <= der_obj_dec::<T>(b)->Some_0.1 <= b.len(),
        der_obj_dec::<T>(b.subrange(0, der_obj_dec::<T>(b)->Some_0.1)) == der_obj_dec::<T>(b),
        0 <= k < der_obj_dec::<T>(b)->Some_0.1 ==> der_obj_dec::<T>(b.subrange(0, k)) is None,
{
    let n = der_obj_dec::<T>(b)->Some_0.1;
    lemma_obj(b);
    lemma_obj_ext(b, r);
    if 0 <= k < n { lemma_obj_prefix(b, k); }
    let p = b.subrange(0, n);
    let q = b.subrange(n, b.len() as int);
    assert(p + q =~= b);
    lemma_obj_exact(b);
    lemma_obj_ext(p, q);
}
/// the octets of an object, alone, are that object
pub proof fn lemma_hdr_exact(b: Seq<u8>, n: int)
    requires hdr_spec(b) is Some, hdr_spec(b)->Some_0.octets <= n <= b.len()
    ensures hdr_spec(b.subrange(0, n)) == hdr_spec(b)
{
    let p = b.subrange(0, n);
    let q = b.subrange(n, b.len() as int);
    let s = hdr_spec(b)->Some_0;
    lemma_hdr_bounds(b);
    let t = id_octets(b);
    assert(p + q =~= b);
    assert(p[0] == b[0]);
    if b[0] % 32 == 31 {
        let l = tag_last(b, 1);
        lemma_tag_last_ub(b, 1);
        lemma_tag_last_cut(b, 1, n);
        lemma_tag_val_ext(p, q, l);
    }
    assert(id_octets(p) == t);
    assert(p[t] == b[t]);
    if b[t] > 128 && b[t] < 255 {
        let m = b[t] - 128;
        assert(p.subrange(t + 1, t + 1 + m) =~= b.subrange(t + 1, t + 1 + m));
    }
}
pub proof fn lemma_tag_last_cut(b: Seq<u8>, k: int, n: int)
    requires 0 <= k <= tag_last(b, k) < n <= b.len()
    ensures tag_last(b.subrange(0, n), k) == tag_last(b, k)
    decreases b.len() - k
{
    lemma_tag_last_ub(b, k);
    if k < b.len() && b[k] >= 128 { lemma_tag_last_ub(b, k + 1); lemma_tag_last_cut(b, k + 1, n); }
}
pub proof fn lemma_items_exact(b: Seq<u8>, depth: nat, n: int)
    requires 0 <= items_spec(b, depth) <= n <= b.len()
    ensures items_spec(b.subrange(0, n), depth) == items_spec(b, depth)
    decreases depth, b.len(), 0int
{
    lemma_hdr_bounds(b);
    lemma_items_bounds(b, depth);
    let s = hdr_spec(b)->Some_0;
    let o = s.octets;
    let p = b.subrange(0, n);
    if is_eoc(shv(s)) { lemma_hdr_exact(b, n); }
    else {
        let c = b.subrange(o, b.len() as int);
        let k = skip_spec(c, shv(s), depth);
        lemma_skip_bounds(c, shv(s), depth);
        let d = b.subrange(o + k, b.len() as int);
        lemma_items_bounds(d, depth);
        lemma_hdr_exact(b, n);
        lemma_skip_exact(c, shv(s), depth, n - o);
        assert(p.subrange(o, p.len() as int) =~= c.subrange(0, n - o));
        lemma_items_exact(d, depth, n - o - k);
        assert(p.subrange(o + k, p.len() as int) =~= d.subrange(0, n - o - k));
    }
}
pub proof fn lemma_skip_exact(b: Seq<u8>, h: HV, depth: nat, n: int)
    requires 0 <= skip_spec(b, h, depth) <= n <= b.len()
    ensures skip_spec(b.subrange(0, n), h, depth) == skip_spec(b, h, depth)
    decreases depth, b.len(), 1int
{
    if depth > 0 && h.len is Indefinite && h.cons { lemma_items_exact(b, (depth - 1) as nat, n); }
}
pub proof fn lemma_obj_exact(b: Seq<u8>)
    ensures
        ber_obj(b) matches Some(o) ==> ber_obj(b.subrange(0, o.end)) == Some(o) && obj_content(b.subrange(0, o.end), o) == obj_content(b, o),
        der_obj(b) matches Some(o) ==> der_obj(b.subrange(0, o.end)) == Some(o) && obj_content(b.subrange(0, o.end), o) == obj_content(b, o),
{
    lemma_obj(b);
    lemma_hdr_bounds(b);
    if let Some(o) = ber_obj(b) {
        let s = hdr_spec(b)->Some_0;
        let c = b.subrange(s.octets, b.len() as int);
        lemma_skip_bounds(c, shv(s), 50);
        lemma_hdr_exact(b, o.end);
        lemma_skip_exact(c, shv(s), 50, o.end - s.octets);
        let p = b.subrange(0, o.end);
        assert(p.subrange(s.octets, p.len() as int) =~= c.subrange(0, o.end - s.octets));
        assert(obj_content(p, o) =~= obj_content(b, o));
    }
}
// ---- headers decode back to themselves (P02)
/// value of the continuation octets
pub proof fn lemma_b128_hi(v: int, f: u8, r: Seq<u8>)
    requires 0 <= v
    ensures
        ({ let b = seq![f] + b128_hi(v) + r; let n = b128_hi(v).len() as int;
           tag_val(b, n) == v && (forall|i: int| #![trigger b[i]] 1 <= i <= n ==> b[i] >= 128) })
    decreases v
{
    let n = b128_hi(v).len() as int;
    let b = seq![f] + b128_hi(v) + r;
    if v > 0 {
        let x = (v % 128 + 128) as u8;
        lemma_b128_hi(v / 128, f, seq![x] + r);
        assert(b =~= seq![f] + b128_hi(v / 128) + (seq![x] + r));
        assert(b[n] == x);
        assert((x as int) % 128 == v % 128);
    }
}
pub proof fn lemma_tag_last_at(b: Seq<u8>, k: int, n: int)
    requires 0 <= k <= n < b.len(), b[n] < 128, forall|i: int| #![trigger b[i]] k <= i < n ==> b[i] >= 128
    ensures tag_last(b, k) == n
    decreases n - k
{ if k < n { assert(b[k] >= 128); lemma_tag_last_at(b, k + 1, n); } }
pub proof fn lemma_id_rt(class: Class, cons: bool, tag: Tag, r: Seq<u8>)
    ensures
        ({ let b = id_enc(class, cons, tag) + r;
           id_octets(b) == id_enc(class, cons, tag).len() && id_tag(b) == tag.0 && spec_class((b[0] / 64) as int) == class && ((b[0] / 32) % 2 == 1) == cons })
{
    let e = id_enc(class, cons, tag);
    let b = e + r;
    let t = tag.0 as int;
    assert(class_num(class) <= 3);
    if t < 31 {
        assert(b[0] == e[0]);
        assert(b[0] as int == id_first(class, cons) + t);
    } else {
        let f = (id_first(class, cons) + 31) as u8;
        let x = (t % 128) as u8;
        let n = b128_hi(t / 128).len() as int;
        lemma_b128_hi(t / 128, f, seq![x] + r);
        lemma_b128_hi_len(t / 128);
        assert(b =~= seq![f] + b128_hi(t / 128) + (seq![x] + r));
        assert(b[0] == f);
        assert(b[n + 1] == x);
        lemma_tag_last_at(b, 1, n + 1);
        assert((x as int) % 128 == t % 128);
        assert(tag_val(b, n + 1) == (t / 128) * 128 + t % 128);
        assert(b[0] % 32 == 31);
    }
}
/// P02: the header octets written decode to the header
pub proof fn law_header_roundtrip(i: (Class, bool, Tag), l: Length, r: Seq<u8>)
    requires l is Indefinite ==> i.1
    ensures hdr_spec(hdr_enc(i, l) + r) matches Some(s) && shv(s) == (HV { class: i.0, cons: i.1, tag: i.2, len: l }) && s.octets == hdr_enc(i, l).len()
        && s.tag_octets == id_enc(i.0, i.1, i.2).len()
{
    let e = id_enc(i.0, i.1, i.2);
    let le = len_enc(l);
    let b = hdr_enc(i, l) + r;
    assert(b =~= e + (le + r));
    lemma_id_rt(i.0, i.1, i.2, le + r);
    lemma_hdr_len(i, l);
    let t = e.len() as int;
    assert(b[t] == le[0]);
    if let Length::Definite(n) = l {
        if n >= 128 {
            lemma_be_min_len(n as int);
            let m = be_min(n as int).len() as int;
            assert(b[t] as int == 128 + m);
            assert(b.subrange(t + 1, t + 1 + m) =~= be_min(n as int));
        }
    }
}
/// what is written is an object with that tag information and contents, for BER and DER, whatever follows (P02, P08)
pub proof fn law_object_roundtrip(i: (Class, bool, Tag), c: Seq<u8>, r: Seq<u8>)
    requires fits(c.len() as int)
    ensures
        ({ let b = obj_enc(i, c) + r; let l = Length::Definite(c.len() as usize);
           let o = Obj { h: HV { class: i.0, cons: i.1, tag: i.2, len: l }, start: hdr_enc(i, l).len() as int, len: c.len() as int, end: obj_enc(i, c).len() as int };
           der_obj(b) == Some(o) && ber_obj(b) == Some(o) && obj_content(b, o) == c })
{
    let l = Length::Definite(c.len() as usize);
    let h = hdr_enc(i, l);
    let b = obj_enc(i, c) + r;
    law_header_roundtrip(i, l, c + r);
    assert(b =~= h + (c + r));
    lemma_hdr_bounds(b);
    lemma_obj(b);
    let s = hdr_spec(b)->Some_0;
    assert(b.subrange(s.octets, b.len() as int) =~= c + r);
    assert(b.subrange(h.len() as int, (h.len() + c.len()) as int) =~= c);
}
// ---- values decode back to themselves (P05, P10, P12, P15, P16, P17)
/// the eight bits of the octet of eight bits
pub proof fn lemma_oct_of(v: Seq<bool>)
    requires v.len() == 8
    ensures forall|k: int| 0 <= k < 8 ==> (#[trigger] v[k]) == ((oct_of(v) >> ((7 - k) as u8)) & 1 == 1)
{
    let b0 = if v[0] { 128u8 } else { 0u8 }; let b1 = if v[1] { 64u8 } else { 0u8 }; let b2 = if v[2] { 32u8 } else { 0u8 }; let b3 = if v[3] { 16u8 } else { 0u8 };
    let b4 = if v[4] { 8u8 } else { 0u8 }; let b5 = if v[5] { 4u8 } else { 0u8 }; let b6 = if v[6] { 2u8 } else { 0u8 }; let b7 = if v[7] { 1u8 } else { 0u8 };
    let b = oct_of(v);
    assert(b == add(add(add(b0, b1), add(b2, b3)), add(add(b4, b5), add(b6, b7))));
    assert((b0 == 0 || b0 == 128) && (b1 == 0 || b1 == 64) && (b2 == 0 || b2 == 32) && (b3 == 0 || b3 == 16) && (b4 == 0 || b4 == 8) && (b5 == 0 || b5 == 4) && (b6 == 0 || b6 == 2) && (b7 == 0 || b7 == 1)
        && b == add(add(add(b0, b1), add(b2, b3)), add(add(b4, b5), add(b6, b7))) ==>
        ((b >> 7u8) & 1 == 1 <==> b0 == 128) && ((b >> 6u8) & 1 == 1 <==> b1 == 64) && ((b >> 5u8) & 1 == 1 <==> b2 == 32) && ((b >> 4u8) & 1 == 1 <==> b3 == 16)
        && ((b >> 3u8) & 1 == 1 <==> b4 == 8) && ((b >> 2u8) & 1 == 1 <==> b5 == 4) && ((b >> 1u8) & 1 == 1 <==> b6 == 2) && ((b >> 0u8) & 1 == 1 <==> b7 == 1)) by(bit_vector);
    assert forall|k: int| 0 <= k < 8 implies (#[trigger] v[k]) == ((oct_of(v) >> ((7 - k) as u8)) & 1 == 1) by {
        assert(k == 0 || k == 1 || k == 2 || k == 3 || k == 4 || k == 5 || k == 6 || k == 7);
    }
}
pub proof fn lemma_bit_rt(v: Seq<bool>, h: HV)
    requires !h.cons, h.len == Length::Definite(bit_cont(v).len() as usize), bit_cont(v).len() <= usize::MAX
    ensures ber_bit(h, bit_cont(v)) == Some(v), der_bit(h, bit_cont(v)) == Some(v)
{
    let c = bit_cont(v);
    let o = bit_octs(v);
    let n = c.len() as int;
    let u = 8 * o.len() - v.len();
    assert(0 <= u < 8);
    assert(c[0] == u as u8);
    assert(c.subrange(0, n) =~= c);
    assert(c.subrange(1, n) =~= o);
    assert forall|i: int| 0 <= i < 8 * o.len() implies #[trigger] bits_of(o)[i] == bit_at(v, i) by {
        let w = Seq::new(8, |k: int| bit_at(v, 8 * (i / 8) + k));
        lemma_oct_of(w);
        assert(w[i % 8] == bit_at(v, i));
    }
    assert(bits_of(o).subrange(0, v.len() as int) =~= v);
    if n >= 2 {
        let l = c.last();
        assert(l == o.last());
        let z = vstd::std_specs::bits::u8_trailing_zeros(l);
        vstd::std_specs::bits::axiom_u8_trailing_zeros(l);
        if z < u {
            let i = 8 * o.len() - 1 - z;
            assert(i / 8 == o.len() - 1 && i % 8 == 7 - z);
            assert(bits_of(o)[i] == bit_at(v, i));
            assert((l >> (z as u8)) & 1 == 1);
        }
        assert(z >= u);
    }
}
/// what is written for a value decodes to that value
pub trait RtBer<'i>: BerContent<'i> + ToBerX {
    /// the value is one the type can hold (characters of the alphabet, header of the announced length)
    spec fn ber_rt_ok(&self) -> bool;
    /// headers under which the contents can be read (implicit tagging)
    spec fn ber_rt_h(&self, h: HV) -> bool;
    proof fn lemma_ber_rt(&self, h: HV)
        requires self.ber_ok(), self.ber_rt_ok(), !self.ber_abs(), self.ber_rt_h(h), h.cons == self.ber_i().1, h.len == Length::Definite(self.ber_c().len() as usize)
        ensures Self::sp_ber(h, self.ber_c()) == Some(self.sp_val());
    proof fn lemma_ber_rt_i(&self)
        requires self.ber_ok(), self.ber_rt_ok(), !self.ber_abs()
        ensures Self::sp_accept(self.ber_i().2), self.ber_rt_h(HV { class: self.ber_i().0, cons: self.ber_i().1, tag: self.ber_i().2, len: Length::Definite(self.ber_c().len() as usize) });
}
/// whatever follows, the octets written decode to the value and exactly they are consumed
pub proof fn law_ber_roundtrip<'i, T: RtBer<'i>>(x: T, r: Seq<u8>)
    requires x.ber_ok(), x.ber_rt_ok(), !x.ber_abs()
    ensures ber_obj_dec::<T>(x.ber_out() + r) == Some((x.sp_val(), x.ber_out().len() as int)), x.ber_out().len() >= 2
{
    x.lemma_ber_out();
    x.lemma_ber_l();
    x.lemma_ber_rt_i();
    let i = x.ber_i();
    let h = HV { class: i.0, cons: i.1, tag: i.2, len: Length::Definite(x.ber_c().len() as usize) };
    x.lemma_ber_rt(h);
    law_object_roundtrip(i, x.ber_c(), r);
    lemma_obj_enc(i, x.ber_c());
}
impl<'i> RtBer<'i> for u8 {
    open spec fn ber_rt_ok(&self) -> bool { true }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) { lemma_pow256_vals(); lemma_int_enc(*self as int); lemma_int_enc_small(*self as int); lemma_int_roundtrip(1, h, int_enc(*self as int), *self as int); lemma_int_dec(1, h, int_enc(*self as int)); }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for u16 {
    open spec fn ber_rt_ok(&self) -> bool { true }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) { lemma_pow256_vals(); lemma_int_enc(*self as int); lemma_int_enc_small(*self as int); lemma_int_roundtrip(2, h, int_enc(*self as int), *self as int); lemma_int_dec(2, h, int_enc(*self as int)); }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for u32 {
    open spec fn ber_rt_ok(&self) -> bool { true }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) { lemma_pow256_vals(); lemma_int_enc(*self as int); lemma_int_enc_small(*self as int); lemma_int_roundtrip(4, h, int_enc(*self as int), *self as int); lemma_int_dec(4, h, int_enc(*self as int)); }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for u64 {
    open spec fn ber_rt_ok(&self) -> bool { true }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) { lemma_pow256_vals(); lemma_int_enc(*self as int); lemma_int_enc_small(*self as int); lemma_int_roundtrip(8, h, int_enc(*self as int), *self as int); lemma_int_dec(8, h, int_enc(*self as int)); }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for u128 {
    open spec fn ber_rt_ok(&self) -> bool { true }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) { lemma_pow256_vals(); lemma_int_enc(*self as int); lemma_int_enc_small(*self as int); lemma_int_roundtrip(16, h, int_enc(*self as int), *self as int); lemma_int_dec(16, h, int_enc(*self as int)); }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for usize {
    open spec fn ber_rt_ok(&self) -> bool { true }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) { lemma_pow256_vals(); lemma_int_enc(*self as int); lemma_int_enc_small(*self as int); lemma_int_roundtrip(8, h, int_enc(*self as int), *self as int); lemma_int_dec(8, h, int_enc(*self as int)); }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for i8 {
    open spec fn ber_rt_ok(&self) -> bool { true }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) { lemma_pow256_vals(); lemma_int_enc(*self as int); lemma_int_enc_small(*self as int); lemma_int_roundtrip(1, h, int_enc(*self as int), *self as int); lemma_int_dec(1, h, int_enc(*self as int)); }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for i16 {
    open spec fn ber_rt_ok(&self) -> bool { true }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) { lemma_pow256_vals(); lemma_int_enc(*self as int); lemma_int_enc_small(*self as int); lemma_int_roundtrip(2, h, int_enc(*self as int), *self as int); lemma_int_dec(2, h, int_enc(*self as int)); }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for i32 {
    open spec fn ber_rt_ok(&self) -> bool { true }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) { lemma_pow256_vals(); lemma_int_enc(*self as int); lemma_int_enc_small(*self as int); lemma_int_roundtrip(4, h, int_enc(*self as int), *self as int); lemma_int_dec(4, h, int_enc(*self as int)); }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for i64 {
    open spec fn ber_rt_ok(&self) -> bool { true }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) { lemma_pow256_vals(); lemma_int_enc(*self as int); lemma_int_enc_small(*self as int); lemma_int_roundtrip(8, h, int_enc(*self as int), *self as int); lemma_int_dec(8, h, int_enc(*self as int)); }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for i128 {
    open spec fn ber_rt_ok(&self) -> bool { true }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) { lemma_pow256_vals(); lemma_int_enc(*self as int); lemma_int_enc_small(*self as int); lemma_int_roundtrip(16, h, int_enc(*self as int), *self as int); lemma_int_dec(16, h, int_enc(*self as int)); }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for isize {
    open spec fn ber_rt_ok(&self) -> bool { true }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) { lemma_pow256_vals(); lemma_int_enc(*self as int); lemma_int_enc_small(*self as int); lemma_int_roundtrip(8, h, int_enc(*self as int), *self as int); lemma_int_dec(8, h, int_enc(*self as int)); }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for Integer<'i> {
    open spec fn ber_rt_ok(&self) -> bool { cow_seq(self.data).len() > 0 }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) { assert(cow_seq(self.data).subrange(0, cow_seq(self.data).len() as int) =~= cow_seq(self.data)); }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for Any<'i> {
    open spec fn ber_rt_ok(&self) -> bool { self.header.length == Length::Definite(self.data.b().len() as usize) }
    open spec fn ber_rt_h(&self, h: HV) -> bool { h == hv(&self.header) }
    proof fn lemma_ber_rt(&self, h: HV) { assert(self.data.b().subrange(0, self.data.b().len() as int) =~= self.data.b()); }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for OctetString<'i> {
    open spec fn ber_rt_ok(&self) -> bool { true }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) {  }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for &'i [u8] {
    open spec fn ber_rt_ok(&self) -> bool { true }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) {  }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for Boolean {
    open spec fn ber_rt_ok(&self) -> bool { true }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) {  }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for bool {
    open spec fn ber_rt_ok(&self) -> bool { true }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) {  }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for Null {
    open spec fn ber_rt_ok(&self) -> bool { true }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) {  }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for () {
    open spec fn ber_rt_ok(&self) -> bool { true }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) {  }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for Enumerated {
    open spec fn ber_rt_ok(&self) -> bool { true }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) { lemma_pow256_vals(); lemma_int_enc(self.0 as int); lemma_int_enc_small(self.0 as int); lemma_int_roundtrip(4, h, int_enc(self.0 as int), self.0 as int); }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for BitString {
    open spec fn ber_rt_ok(&self) -> bool { true }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) { lemma_bit_rt(self.bitvec.bits(), h); }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for NumericString<'i> {
    open spec fn ber_rt_ok(&self) -> bool { cs_numericstring()(cow_sbytes(self.data)) }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) {  }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for PrintableString<'i> {
    open spec fn ber_rt_ok(&self) -> bool { cs_printablestring()(cow_sbytes(self.data)) }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) {  }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for VisibleString<'i> {
    open spec fn ber_rt_ok(&self) -> bool { cs_visiblestring()(cow_sbytes(self.data)) }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) {  }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for TeletexString<'i> {
    open spec fn ber_rt_ok(&self) -> bool { cs_teletexstring()(cow_sbytes(self.data)) }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) {  }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for VideotexString<'i> {
    open spec fn ber_rt_ok(&self) -> bool { cs_videotexstring()(cow_sbytes(self.data)) }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) {  }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for Ia5String<'i> {
    open spec fn ber_rt_ok(&self) -> bool { cs_ia5string()(cow_sbytes(self.data)) }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) {  }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for GraphicString<'i> {
    open spec fn ber_rt_ok(&self) -> bool { cs_graphicstring()(cow_sbytes(self.data)) }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) {  }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for GeneralString<'i> {
    open spec fn ber_rt_ok(&self) -> bool { cs_generalstring()(cow_sbytes(self.data)) }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) {  }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for ObjectDescriptor<'i> {
    open spec fn ber_rt_ok(&self) -> bool { cs_objectdescriptor()(cow_sbytes(self.data)) }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) {  }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for Utf8String<'i> {
    open spec fn ber_rt_ok(&self) -> bool { cs_utf8string()(cow_sbytes(self.data)) }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) {  }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for &'i str {
    open spec fn ber_rt_ok(&self) -> bool { is_utf8(str_bytes(*self)) }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) {  }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for String {
    open spec fn ber_rt_ok(&self) -> bool { is_utf8(string_bytes(*self)) }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) {  }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for BmpString<'i> {
    open spec fn ber_rt_ok(&self) -> bool { true }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) { lemma_cow_scalars(self.data); lemma_utf16_rt(scalars(cow_chars(self.data))); lemma_be16(utf16_enc(scalars(cow_chars(self.data)))); }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for UniversalString<'i> {
    open spec fn ber_rt_ok(&self) -> bool { true }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) { lemma_cow_scalars(self.data); lemma_be32(scalars(cow_chars(self.data))); }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for Sequence<'i> {
    open spec fn ber_rt_ok(&self) -> bool { true }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) {  }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i> RtBer<'i> for Set<'i> {
    open spec fn ber_rt_ok(&self) -> bool { true }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) {  }
    proof fn lemma_ber_rt_i(&self) {  }
}
pub open spec fn all_ber_rt<'i, T: RtBer<'i>>(v: Seq<T>) -> bool { forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> v[i].ber_rt_ok() && !v[i].ber_abs() }
pub proof fn lemma_cat_front_ber<T: ToBerX>(v: Seq<T>)
    requires v.len() > 0
    ensures cat_ber(v) == v[0].ber_out() + cat_ber(v.subrange(1, v.len() as int))
    decreases v.len()
{
    let t = v.subrange(1, v.len() as int);
    if v.len() == 1 {
        assert(v.drop_last() =~= Seq::<T>::empty());
        assert(cat_ber(v.drop_last()) =~= Seq::<u8>::empty());
        assert(cat_ber(t) =~= Seq::<u8>::empty());
        assert(cat_ber(v) =~= v[0].ber_out() + cat_ber(t));
    } else {
        let w = v.drop_last();
        lemma_cat_front_ber(w);
        assert(w.subrange(1, w.len() as int) =~= t.drop_last());
        assert(t.last() == v.last() && w[0] == v[0]);
        assert(cat_ber(v) =~= v[0].ber_out() + cat_ber(t));
    }
}
/// elements written one after the other decode to the elements, in order
pub proof fn law_ber_list<'i, T: RtBer<'i>>(v: Seq<T>)
    requires all_ber(v), all_ber_rt(v)
    ensures list_ber::<T>(cat_ber(v)) == Some(vals_ber::<T>(v))
    decreases v.len()
{
    if v.len() == 0 { assert(vals_ber::<T>(v) =~= Seq::empty()); }
    else {
        let t = v.subrange(1, v.len() as int);
        lemma_cat_front_ber(v);
        assert(v[0].ber_ok() && v[0].ber_rt_ok() && !v[0].ber_abs());
        law_ber_roundtrip(v[0], cat_ber(t));
        assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies t[i].ber_ok() && t[i].ber_rt_ok() && !t[i].ber_abs() by { assert(t[i] == v[i + 1]); }
        law_ber_list(t);
        let n = v[0].ber_out().len() as int;
        assert(rest(cat_ber(v), n) =~= cat_ber(t));
        assert(seq![v[0].sp_val()] + vals_ber::<T>(t) =~= vals_ber::<T>(v));
    }
}
impl<'i, T: RtBer<'i> + DynTagged> RtBer<'i> for Vec<T> {
    open spec fn ber_rt_ok(&self) -> bool { all_ber_rt(self@) }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) { law_ber_list(self@); }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i, T: RtBer<'i> + DynTagged> RtBer<'i> for SequenceOf<T> {
    open spec fn ber_rt_ok(&self) -> bool { all_ber_rt(self.items@) }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) { law_ber_list(self.items@); }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i, T: RtBer<'i> + DynTagged> RtBer<'i> for SetOf<T> {
    open spec fn ber_rt_ok(&self) -> bool { all_ber_rt(self.items@) }
    open spec fn ber_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_ber_rt(&self, h: HV) { law_ber_list(self.items@); }
    proof fn lemma_ber_rt_i(&self) {  }
}
impl<'i, T: RtBer<'i> + DynTagged> RtBer<'i> for Option<T> {
    open spec fn ber_rt_ok(&self) -> bool { match self { Some(t) => t.ber_rt_ok() && !t.ber_abs(), None => true } }
    open spec fn ber_rt_h(&self, h: HV) -> bool { match self { Some(t) => t.ber_rt_h(h) && T::sp_accept(h.tag), None => true } }
    proof fn lemma_ber_rt(&self, h: HV) { if let Some(t) = self { t.lemma_ber_rt(h); } }
    proof fn lemma_ber_rt_i(&self) { if let Some(t) = self { t.lemma_ber_rt_i(); } }
}
/// P17: an absent value is written as nothing and read back as absent; a present one as itself
pub proof fn law_ber_option<'i, T: RtBer<'i> + DynTagged>(x: Option<T>, r: Seq<u8>)
    requires x.ber_ok(), x.ber_rt_ok()
    ensures
        x is None ==> x.ber_out().len() == 0 && opt_ber_dec::<T>(x.ber_out()) == Some((None::<T::V>, 0int)),
        x is Some ==> opt_ber_dec::<T>(x.ber_out() + r) == Some((Some(x->Some_0.sp_val()), x.ber_out().len() as int)),
{
    if let Some(t) = x {
        t.lemma_ber_rt_i();
        law_ber_roundtrip(t, r);
        t.lemma_ber_out();
        t.lemma_ber_l();
        law_object_roundtrip(t.ber_i(), t.ber_c(), r);
    }
}
pub open spec fn std_ber_parser<'i, T: BerParser<'i>>() -> bool { forall|b: Seq<u8>| #![trigger T::sp_parse_ber(b)] T::sp_parse_ber(b) == ber_obj_dec::<T>(b) }
impl<'i, T: RtBer<'i> + BerParser<'i>, E, const CLASS: u8, const TAG: u32> RtBer<'i> for TaggedValue<T, E, Explicit, CLASS, TAG> {
    open spec fn ber_rt_ok(&self) -> bool { CLASS < 4 && self.inner.ber_rt_ok() && std_ber_parser::<T>() }
    open spec fn ber_rt_h(&self, h: HV) -> bool { h.tag == Tag(TAG) && class_num(h.class) == CLASS }
    proof fn lemma_ber_rt(&self, h: HV) { law_ber_roundtrip(self.inner, Seq::empty()); self.inner.lemma_ber_out(); assert(self.ber_c() + Seq::<u8>::empty() =~= self.ber_c()); }
    proof fn lemma_ber_rt_i(&self) { lemma_explicit_tagging::<T, E, CLASS, TAG>(); }
}
impl<'i, T: RtBer<'i> + BerParser<'i>, E, const CLASS: u8, const TAG: u32> RtBer<'i> for TaggedValue<T, E, Implicit, CLASS, TAG> {
    open spec fn ber_rt_ok(&self) -> bool { CLASS < 4 && self.inner.ber_rt_ok() && self.inner.ber_rt_h(HV { class: self.sp_class(), cons: self.sp_cons(), tag: Tag(TAG), len: Length::Definite(self.ber_c().len() as usize) }) }
    open spec fn ber_rt_h(&self, h: HV) -> bool { class_num(h.class) == CLASS && self.inner.ber_rt_h(h) }
    proof fn lemma_ber_rt(&self, h: HV) { self.inner.lemma_ber_rt(h); }
    proof fn lemma_ber_rt_i(&self) {  }
}
/// what is written for a value decodes to that value
pub trait RtDer<'i>: DerContent<'i> + ToDerX {
    /// the value is one the type can hold (characters of the alphabet, header of the announced length)
    spec fn der_rt_ok(&self) -> bool;
    /// headers under which the contents can be read (implicit tagging)
    spec fn der_rt_h(&self, h: HV) -> bool;
    proof fn lemma_der_rt(&self, h: HV)
        requires self.der_ok(), self.der_rt_ok(), !self.der_abs(), self.der_rt_h(h), h.cons == self.der_i().1, h.len == Length::Definite(self.der_c().len() as usize)
        ensures Self::sp_der(h, self.der_c()) == Some(self.sp_dval());
    proof fn lemma_der_rt_i(&self)
        requires self.der_ok(), self.der_rt_ok(), !self.der_abs()
        ensures Self::sp_accept(self.der_i().2), self.der_rt_h(HV { class: self.der_i().0, cons: self.der_i().1, tag: self.der_i().2, len: Length::Definite(self.der_c().len() as usize) });
}
/// whatever follows, the octets written decode to the value and exactly they are consumed
pub proof fn law_der_roundtrip<'i, T: RtDer<'i>>(x: T, r: Seq<u8>)
    requires x.der_ok(), x.der_rt_ok(), !x.der_abs()
    ensures der_obj_dec::<T>(x.der_out() + r) == Some((x.sp_dval(), x.der_out().len() as int)), x.der_out().len() >= 2
{
    x.lemma_der_out();
    x.lemma_der_l();
    x.lemma_der_rt_i();
    let i = x.der_i();
    let h = HV { class: i.0, cons: i.1, tag: i.2, len: Length::Definite(x.der_c().len() as usize) };
    x.lemma_der_rt(h);
    law_object_roundtrip(i, x.der_c(), r);
    lemma_obj_enc(i, x.der_c());
}
impl<'i> RtDer<'i> for u8 {
    open spec fn der_rt_ok(&self) -> bool { true }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) { lemma_pow256_vals(); lemma_int_enc(*self as int); lemma_int_enc_small(*self as int); lemma_int_roundtrip(1, h, int_enc(*self as int), *self as int); lemma_int_dec(1, h, int_enc(*self as int)); }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for u16 {
    open spec fn der_rt_ok(&self) -> bool { true }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) { lemma_pow256_vals(); lemma_int_enc(*self as int); lemma_int_enc_small(*self as int); lemma_int_roundtrip(2, h, int_enc(*self as int), *self as int); lemma_int_dec(2, h, int_enc(*self as int)); }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for u32 {
    open spec fn der_rt_ok(&self) -> bool { true }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) { lemma_pow256_vals(); lemma_int_enc(*self as int); lemma_int_enc_small(*self as int); lemma_int_roundtrip(4, h, int_enc(*self as int), *self as int); lemma_int_dec(4, h, int_enc(*self as int)); }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for u64 {
    open spec fn der_rt_ok(&self) -> bool { true }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) { lemma_pow256_vals(); lemma_int_enc(*self as int); lemma_int_enc_small(*self as int); lemma_int_roundtrip(8, h, int_enc(*self as int), *self as int); lemma_int_dec(8, h, int_enc(*self as int)); }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for u128 {
    open spec fn der_rt_ok(&self) -> bool { true }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) { lemma_pow256_vals(); lemma_int_enc(*self as int); lemma_int_enc_small(*self as int); lemma_int_roundtrip(16, h, int_enc(*self as int), *self as int); lemma_int_dec(16, h, int_enc(*self as int)); }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for usize {
    open spec fn der_rt_ok(&self) -> bool { true }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) { lemma_pow256_vals(); lemma_int_enc(*self as int); lemma_int_enc_small(*self as int); lemma_int_roundtrip(8, h, int_enc(*self as int), *self as int); lemma_int_dec(8, h, int_enc(*self as int)); }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for i8 {
    open spec fn der_rt_ok(&self) -> bool { true }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) { lemma_pow256_vals(); lemma_int_enc(*self as int); lemma_int_enc_small(*self as int); lemma_int_roundtrip(1, h, int_enc(*self as int), *self as int); lemma_int_dec(1, h, int_enc(*self as int)); }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for i16 {
    open spec fn der_rt_ok(&self) -> bool { true }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) { lemma_pow256_vals(); lemma_int_enc(*self as int); lemma_int_enc_small(*self as int); lemma_int_roundtrip(2, h, int_enc(*self as int), *self as int); lemma_int_dec(2, h, int_enc(*self as int)); }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for i32 {
    open spec fn der_rt_ok(&self) -> bool { true }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) { lemma_pow256_vals(); lemma_int_enc(*self as int); lemma_int_enc_small(*self as int); lemma_int_roundtrip(4, h, int_enc(*self as int), *self as int); lemma_int_dec(4, h, int_enc(*self as int)); }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for i64 {
    open spec fn der_rt_ok(&self) -> bool { true }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) { lemma_pow256_vals(); lemma_int_enc(*self as int); lemma_int_enc_small(*self as int); lemma_int_roundtrip(8, h, int_enc(*self as int), *self as int); lemma_int_dec(8, h, int_enc(*self as int)); }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for i128 {
    open spec fn der_rt_ok(&self) -> bool { true }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) { lemma_pow256_vals(); lemma_int_enc(*self as int); lemma_int_enc_small(*self as int); lemma_int_roundtrip(16, h, int_enc(*self as int), *self as int); lemma_int_dec(16, h, int_enc(*self as int)); }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for isize {
    open spec fn der_rt_ok(&self) -> bool { true }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) { lemma_pow256_vals(); lemma_int_enc(*self as int); lemma_int_enc_small(*self as int); lemma_int_roundtrip(8, h, int_enc(*self as int), *self as int); lemma_int_dec(8, h, int_enc(*self as int)); }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for Integer<'i> {
    open spec fn der_rt_ok(&self) -> bool { int_min(cow_seq(self.data)) }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) { assert(cow_seq(self.data).subrange(0, cow_seq(self.data).len() as int) =~= cow_seq(self.data)); }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for Any<'i> {
    open spec fn der_rt_ok(&self) -> bool { self.header.length == Length::Definite(self.data.b().len() as usize) }
    open spec fn der_rt_h(&self, h: HV) -> bool { h == hv(&self.header) }
    proof fn lemma_der_rt(&self, h: HV) { assert(self.data.b().subrange(0, self.data.b().len() as int) =~= self.data.b()); }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for OctetString<'i> {
    open spec fn der_rt_ok(&self) -> bool { true }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) {  }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for &'i [u8] {
    open spec fn der_rt_ok(&self) -> bool { true }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) {  }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for Boolean {
    open spec fn der_rt_ok(&self) -> bool { self.value == 0 || self.value == 0xff }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) {  }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for bool {
    open spec fn der_rt_ok(&self) -> bool { true }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) {  }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for Null {
    open spec fn der_rt_ok(&self) -> bool { true }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) {  }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for () {
    open spec fn der_rt_ok(&self) -> bool { true }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) {  }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for Enumerated {
    open spec fn der_rt_ok(&self) -> bool { true }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) { lemma_pow256_vals(); lemma_int_enc(self.0 as int); lemma_int_enc_small(self.0 as int); lemma_int_roundtrip(4, h, int_enc(self.0 as int), self.0 as int); }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for BitString {
    open spec fn der_rt_ok(&self) -> bool { true }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) { lemma_bit_rt(self.bitvec.bits(), h); }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for NumericString<'i> {
    open spec fn der_rt_ok(&self) -> bool { cs_numericstring()(cow_sbytes(self.data)) }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) {  }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for PrintableString<'i> {
    open spec fn der_rt_ok(&self) -> bool { cs_printablestring()(cow_sbytes(self.data)) }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) {  }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for VisibleString<'i> {
    open spec fn der_rt_ok(&self) -> bool { cs_visiblestring()(cow_sbytes(self.data)) }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) {  }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for TeletexString<'i> {
    open spec fn der_rt_ok(&self) -> bool { cs_teletexstring()(cow_sbytes(self.data)) }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) {  }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for VideotexString<'i> {
    open spec fn der_rt_ok(&self) -> bool { cs_videotexstring()(cow_sbytes(self.data)) }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) {  }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for Ia5String<'i> {
    open spec fn der_rt_ok(&self) -> bool { cs_ia5string()(cow_sbytes(self.data)) }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) {  }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for GraphicString<'i> {
    open spec fn der_rt_ok(&self) -> bool { cs_graphicstring()(cow_sbytes(self.data)) }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) {  }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for GeneralString<'i> {
    open spec fn der_rt_ok(&self) -> bool { cs_generalstring()(cow_sbytes(self.data)) }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) {  }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for ObjectDescriptor<'i> {
    open spec fn der_rt_ok(&self) -> bool { cs_objectdescriptor()(cow_sbytes(self.data)) }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) {  }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for Utf8String<'i> {
    open spec fn der_rt_ok(&self) -> bool { cs_utf8string()(cow_sbytes(self.data)) }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) {  }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for &'i str {
    open spec fn der_rt_ok(&self) -> bool { is_utf8(str_bytes(*self)) }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) {  }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for String {
    open spec fn der_rt_ok(&self) -> bool { is_utf8(string_bytes(*self)) }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) {  }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for BmpString<'i> {
    open spec fn der_rt_ok(&self) -> bool { true }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) { lemma_cow_scalars(self.data); lemma_utf16_rt(scalars(cow_chars(self.data))); lemma_be16(utf16_enc(scalars(cow_chars(self.data)))); }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for UniversalString<'i> {
    open spec fn der_rt_ok(&self) -> bool { true }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) { lemma_cow_scalars(self.data); lemma_be32(scalars(cow_chars(self.data))); }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for Sequence<'i> {
    open spec fn der_rt_ok(&self) -> bool { true }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) {  }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i> RtDer<'i> for Set<'i> {
    open spec fn der_rt_ok(&self) -> bool { true }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) {  }
    proof fn lemma_der_rt_i(&self) {  }
}
pub open spec fn all_der_rt<'i, T: RtDer<'i>>(v: Seq<T>) -> bool { forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> v[i].der_rt_ok() && !v[i].der_abs() }
pub proof fn lemma_cat_front_der<T: ToDerX>(v: Seq<T>)
    requires v.len() > 0
    ensures cat_der(v) == v[0].der_out() + cat_der(v.subrange(1, v.len() as int))
    decreases v.len()
{
    let t = v.subrange(1, v.len() as int);
    if v.len() == 1 {
        assert(v.drop_last() =~= Seq::<T>::empty());
        assert(cat_der(v.drop_last()) =~= Seq::<u8>::empty());
        assert(cat_der(t) =~= Seq::<u8>::empty());
        assert(cat_der(v) =~= v[0].der_out() + cat_der(t));
    } else {
        let w = v.drop_last();
        lemma_cat_front_der(w);
        assert(w.subrange(1, w.len() as int) =~= t.drop_last());
        assert(t.last() == v.last() && w[0] == v[0]);
        assert(cat_der(v) =~= v[0].der_out() + cat_der(t));
    }
}
/// elements written one after the other decode to the elements, in order
pub proof fn law_der_list<'i, T: RtDer<'i>>(v: Seq<T>)
    requires all_der(v), all_der_rt(v)
    ensures list_der::<T>(cat_der(v)) == Some(vals_der::<T>(v))
    decreases v.len()
{
    if v.len() == 0 { assert(vals_der::<T>(v) =~= Seq::empty()); }
    else {
        let t = v.subrange(1, v.len() as int);
        lemma_cat_front_der(v);
        assert(v[0].der_ok() && v[0].der_rt_ok() && !v[0].der_abs());
        law_der_roundtrip(v[0], cat_der(t));
        assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies t[i].der_ok() && t[i].der_rt_ok() && !t[i].der_abs() by { assert(t[i] == v[i + 1]); }
        law_der_list(t);
        let n = v[0].der_out().len() as int;
        assert(rest(cat_der(v), n) =~= cat_der(t));
        assert(seq![v[0].sp_dval()] + vals_der::<T>(t) =~= vals_der::<T>(v));
    }
}
impl<'i, T: RtDer<'i> + DynTagged> RtDer<'i> for Vec<T> {
    open spec fn der_rt_ok(&self) -> bool { all_der_rt(self@) }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) { law_der_list(self@); }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i, T: RtDer<'i> + DynTagged> RtDer<'i> for SequenceOf<T> {
    open spec fn der_rt_ok(&self) -> bool { all_der_rt(self.items@) }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) { law_der_list(self.items@); }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i, T: RtDer<'i> + DynTagged> RtDer<'i> for SetOf<T> {
    open spec fn der_rt_ok(&self) -> bool { all_der_rt(self.items@) }
    open spec fn der_rt_h(&self, h: HV) -> bool { true }
    proof fn lemma_der_rt(&self, h: HV) { law_der_list(self.items@); }
    proof fn lemma_der_rt_i(&self) {  }
}
impl<'i, T: RtDer<'i> + DynTagged> RtDer<'i> for Option<T> {
    open spec fn der_rt_ok(&self) -> bool { match self { Some(t) => t.der_rt_ok() && !t.der_abs(), None => true } }
    open spec fn der_rt_h(&self, h: HV) -> bool { match self { Some(t) => t.der_rt_h(h) && T::sp_accept(h.tag), None => true } }
    proof fn lemma_der_rt(&self, h: HV) { if let Some(t) = self { t.lemma_der_rt(h); } }
    proof fn lemma_der_rt_i(&self) { if let Some(t) = self { t.lemma_der_rt_i(); } }
}
/// P17: an absent value is written as nothing and read back as absent; a present one as itself
pub proof fn law_der_option<'i, T: RtDer<'i> + DynTagged>(x: Option<T>, r: Seq<u8>)
    requires x.der_ok(), x.der_rt_ok()
    ensures
        x is None ==> x.der_out().len() == 0 && opt_der_dec::<T>(x.der_out()) == Some((None::<T::DV>, 0int)),
        x is Some ==> opt_der_dec::<T>(x.der_out() + r) == Some((Some(x->Some_0.sp_dval()), x.der_out().len() as int)),
{
    if let Some(t) = x {
        t.lemma_der_rt_i();
        law_der_roundtrip(t, r);
        t.lemma_der_out();
        t.lemma_der_l();
        law_object_roundtrip(t.der_i(), t.der_c(), r);
    }
}
pub open spec fn std_der_parser<'i, T: DerParser<'i>>() -> bool { forall|b: Seq<u8>| #![trigger T::sp_parse_der(b)] T::sp_parse_der(b) == der_obj_dec::<T>(b) }
impl<'i, T: RtDer<'i> + DerParser<'i>, E, const CLASS: u8, const TAG: u32> RtDer<'i> for TaggedValue<T, E, Explicit, CLASS, TAG> {
    open spec fn der_rt_ok(&self) -> bool { CLASS < 4 && self.inner.der_rt_ok() && std_der_parser::<T>() }
    open spec fn der_rt_h(&self, h: HV) -> bool { h.tag == Tag(TAG) && class_num(h.class) == CLASS }
    proof fn lemma_der_rt(&self, h: HV) { law_der_roundtrip(self.inner, Seq::empty()); self.inner.lemma_der_out(); assert(self.der_c() + Seq::<u8>::empty() =~= self.der_c()); }
    proof fn lemma_der_rt_i(&self) { lemma_explicit_tagging::<T, E, CLASS, TAG>(); }
}
impl<'i, T: RtDer<'i> + DerParser<'i>, E, const CLASS: u8, const TAG: u32> RtDer<'i> for TaggedValue<T, E, Implicit, CLASS, TAG> {
    open spec fn der_rt_ok(&self) -> bool { CLASS < 4 && self.inner.der_rt_ok() && self.inner.der_rt_h(HV { class: self.sp_class(), cons: self.sp_cons(), tag: Tag(TAG), len: Length::Definite(self.der_c().len() as usize) }) }
    open spec fn der_rt_h(&self, h: HV) -> bool { class_num(h.class) == CLASS && self.inner.der_rt_h(h) }
    proof fn lemma_der_rt(&self, h: HV) { self.inner.lemma_der_rt(h); }
    proof fn lemma_der_rt_i(&self) {  }
}
/// the characters of a Rust string are Unicode scalar values
pub proof fn lemma_cow_scalars<'a>(c: Cow<'a, str>)
    ensures cow_scalars(c) == scalars(cow_chars(c)), forall|i: int| #![trigger cow_scalars(c)[i]] 0 <= i < cow_scalars(c).len() ==> scalar(cow_scalars(c)[i])
{
    assert forall|i: int| #![trigger cow_scalars(c)[i]] 0 <= i < cow_scalars(c).len() implies scalar(cow_scalars(c)[i]) by { let x = cow_chars(c)[i]; assert(cow_scalars(c)[i] == x as u32 as int); }
}
}
