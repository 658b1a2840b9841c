verus! {
impl<E> Err<E> {
    #[verifier::external_body]
    pub fn convert<F>(e: Err<F>) -> (r: Self) where E: From<F> { unimplemented!() }
}

// ------------------------------------------------------------------ specification of contents (X.690 8.1.4, 8.1.5)
/// what the decoders look at in a header
pub struct HV { pub class: Class, pub cons: bool, pub tag: Tag, pub len: Length }
pub open spec fn hv(h: &Header) -> HV { HV { class: h.class, cons: h.constructed, tag: h.tag, len: h.length } }
pub open spec fn shv(s: SHdr) -> HV {
    HV { class: s.class, cons: s.cons, tag: Tag(s.tag as u32), len: match s.len { Some(n) => Length::Definite(n as usize), None => Length::Indefinite } }
}
pub open spec fn is_eoc(h: HV) -> bool { h.class == Class::Universal && !h.cons && h.tag == Tag(0) && h.len == Length::Definite(0) }

/// number of octets from the start of the content of an object with header `h` to the end of the object; -1: refused
pub open spec fn skip_spec(b: Seq<u8>, h: HV, depth: nat) -> int
    decreases depth, b.len(), 1int
{
    if depth == 0 { -1 } else {
        match h.len {
            Length::Definite(l) => if l <= b.len() { l as int } else { -1 },
            Length::Indefinite => if h.cons { items_spec(b, (depth - 1) as nat) } else { -1 },
        }
    }
}
/// octets of a series of objects up to and including the end-of-contents marker
pub open spec fn items_spec(b: Seq<u8>, depth: nat) -> int
    decreases depth, b.len(), 0int
{
    match hdr_spec(b) {
        None => -1,
        Some(s) => {
            let o = s.octets;
            if o < 2 || o > b.len() || depth == 0 { -1 }
            else if is_eoc(shv(s)) { if o == 2 { 2 } else { -1 } }
            else {
                let n = skip_spec(b.subrange(o, b.len() as int), shv(s), depth);
                if n < 0 || o + n > b.len() { -1 }
                else {
                    let m = items_spec(b.subrange(o + n, b.len() as int), depth);
                    if m < 0 { -1 } else { o + n + m }
                }
            }
        }
    }
}
/// (content octets, octets up to the end of the object)
pub open spec fn content_spec(b: Seq<u8>, h: HV, depth: nat) -> Option<(int, int)> {
    let n = skip_spec(b, h, depth);
    if n < 0 { None } else if h.len is Definite { Some((n, n)) } else { Some((n - 2, n)) }
}
pub open spec fn der_content_spec(b: Seq<u8>, h: HV) -> Option<(int, int)> {
    match h.len { Length::Definite(l) => if l <= b.len() { Some((l as int, l as int)) } else { None }, Length::Indefinite => None }
}
pub proof fn lemma_tag_last_ub(b: Seq<u8>, k: int)
    requires 0 <= k
    ensures tag_last(b, k) < b.len() || tag_last(b, k) == -1, tag_last(b, k) >= k || tag_last(b, k) == -1
    decreases b.len() - k
{
    if k < b.len() && b[k] >= 128 { lemma_tag_last_ub(b, k + 1); }
}
pub proof fn lemma_be_nonneg(b: Seq<u8>)
    ensures be_val(b) >= 0
    decreases b.len()
{
    if b.len() > 0 { lemma_be_nonneg(b.drop_last()); }
}
pub proof fn lemma_tv_nonneg(b: Seq<u8>, n: int)
    ensures tag_val(b, n) >= 0
    decreases n
{
    if n > 0 { lemma_tv_nonneg(b, n - 1); }
}
pub proof fn lemma_hdr_bounds(b: Seq<u8>)
    ensures hdr_spec(b) matches Some(s) ==> 2 <= s.octets <= b.len() && 1 <= s.tag_octets < s.octets && 0 <= s.tag <= u32::MAX
        && (s.len matches Some(n) ==> 0 <= n <= u64::MAX)
{
    lemma_tag_last_ub(b, 1);
    if b.len() > 0 {
        lemma_tv_nonneg(b, tag_last(b, 1));
        let t = id_octets(b);
        if 0 <= t < b.len() && 128 < b[t] && b[t] < 255 && t + 1 + b[t] - 128 <= b.len() { lemma_be_nonneg(b.subrange(t + 1, t + 1 + b[t] - 128)); }
    }
}
pub proof fn lemma_items_bounds(b: Seq<u8>, depth: nat)
    ensures items_spec(b, depth) == -1 || 2 <= items_spec(b, depth) <= b.len()
    decreases depth, b.len(), 0int
{
    match hdr_spec(b) {
        None => {}
        Some(s) => {
            let o = s.octets;
            if o < 2 || o > b.len() || depth == 0 {}
            else if is_eoc(shv(s)) {}
            else {
                let n = skip_spec(b.subrange(o, b.len() as int), shv(s), depth);
                lemma_skip_bounds(b.subrange(o, b.len() as int), shv(s), depth);
                if n < 0 || o + n > b.len() {}
                else { lemma_items_bounds(b.subrange(o + n, b.len() as int), depth); }
            }
        }
    }
}
pub proof fn lemma_skip_bounds(b: Seq<u8>, h: HV, depth: nat)
    ensures skip_spec(b, h, depth) == -1 || 0 <= skip_spec(b, h, depth) <= b.len(), h.len is Indefinite && skip_spec(b, h, depth) >= 0 ==> skip_spec(b, h, depth) >= 2
    decreases depth, b.len(), 1int
{
    if depth > 0 && h.len is Indefinite && h.cons { lemma_items_bounds(b, (depth - 1) as nat); }
}

//@fn src/ber/parser.rs | ber_skip_object_content | key=P06
//@ret res
//@attr #[verifier::loop_isolation(false)]
//@contract
    requires i.wf()
    ensures match res {
        Ok((rem, eoc)) => {
            &&& skip_spec(i.b(), hv(hdr), max_depth as nat) >= 0
            &&& rem.wf() && i.sub(&rem, skip_spec(i.b(), hv(hdr), max_depth as nat), i.b().len() as int)
            &&& eoc == is_eoc(hv(hdr))
        },
        Err(_) => skip_spec(i.b(), hv(hdr), max_depth as nat) < 0,
    }
    decreases max_depth
//@nloops 1
//@ghost entry
    let ghost i0 = i;
    proof { lemma_skip_bounds(i.b(), hv(hdr), max_depth as nat); }
//@loop 0
    invariant
        i.wf(), i0.wf(), max_depth > 0, hdr.length is Indefinite, hdr.constructed,
        i0.sub(&i, k, i0.b().len() as int),
        items_spec(i0.b(), dd) == (if items_spec(i.b(), dd) < 0 { -1 } else { k + items_spec(i.b(), dd) }),
        dd == max_depth - 1,
    decreases i.b().len()
//@ghost loop0.before
    let ghost mut k: int = 0;
    let ghost dd: nat = (max_depth - 1) as nat;
    proof { assert(i0.sub(&i, 0, i0.b().len() as int)); lemma_items_bounds(i0.b(), dd); }
//@ghost loop0.begin
    let ghost ib = i;
    proof { lemma_hdr_bounds(i.b()); lemma_items_bounds(i.b(), dd); }
//@ghost leti2#0.after
    proof { assert(hv(&header2) == shv(hdr_spec(ib.b())->Some_0)); lemma_skip_bounds(i2.b(), hv(&header2), dd); }
//@ghost leti3#0.after
    proof {
        let n = skip_spec(i2.b(), hv(&header2), dd);
        let o = hdr_spec(ib.b())->Some_0.octets;
        assert(ib.sub(&i2, o, ib.b().len() as int));
        assert(ib.sub(&i3, o + n, ib.b().len() as int));
    }
//@ghost loop0.end
    proof { k = k + (i.span.start - ib.span.start); }
//@endfn

pub enum BerMode { X }
pub enum DerMode { X }
//@item src/ber/parser.rs | const MAX_RECURSION
pub trait GetObjectContent {
    spec fn sp_content(b: Seq<u8>, h: HV, depth: nat) -> Option<(int, int)>;
    fn get_object_content<'a>(hdr: &'_ Header, i: Input<'a>, max_depth: usize) -> (res: IResult<Input<'a>, Input<'a>, BerError<Input<'a>>>)
        requires i.wf()
        ensures match res {
            Ok((rem, c)) => Self::sp_content(i.b(), hv(hdr), max_depth as nat) matches Some((n, m)) && rem.wf() && c.wf()
                && i.sub(&c, 0, n) && i.sub(&rem, m, i.b().len() as int),
            Err(_) => Self::sp_content(i.b(), hv(hdr), max_depth as nat) is None,
        };
}
impl GetObjectContent for BerMode {
    open spec fn sp_content(b: Seq<u8>, h: HV, depth: nat) -> Option<(int, int)> { content_spec(b, h, depth) }
//@fn src/ber/parser.rs | GetObjectContent for BerMode | get_object_content | key=P06
//@ret res
//@contract
//@ghost entry
    proof { lemma_skip_bounds(i.b(), hv(hdr), max_depth as nat); }
//@endfn
}
impl GetObjectContent for DerMode {
    open spec fn sp_content(b: Seq<u8>, h: HV, depth: nat) -> Option<(int, int)> { der_content_spec(b, h) }
//@fn src/ber/parser.rs | GetObjectContent for DerMode | get_object_content | key=P06
//@ret res
//@contract
//@endfn
}
//@fn src/ber/parser.rs | ber_get_content | key=P06
//@ret res
//@contract
    requires input.wf()
    ensures match res {
        Ok((rem, c)) => content_spec(input.b(), hv(header), 50) matches Some((n, m)) && rem.wf() && c.wf() && input.sub(&c, 0, n) && input.sub(&rem, m, input.b().len() as int),
        Err(_) => content_spec(input.b(), hv(header), 50) is None,
    }
//@endfn
//@fn src/ber/parser.rs | der_get_content | key=P06
//@ret res
//@contract
    requires input.wf()
    ensures match res {
        Ok((rem, c)) => der_content_spec(input.b(), hv(header)) matches Some((n, m)) && rem.wf() && c.wf() && input.sub(&c, 0, n) && input.sub(&rem, m, input.b().len() as int),
        Err(_) => der_content_spec(input.b(), hv(header)) is None,
    }
//@endfn
}
