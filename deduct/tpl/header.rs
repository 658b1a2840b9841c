verus! {
pub proof fn lemma_be_val_push(b: Seq<u8>, k: int)
    requires 0 <= k < b.len()
    ensures be_val(b.subrange(0, k + 1)) == be_val(b.subrange(0, k)) * 256 + b[k] as int
{
    assert(b.subrange(0, k + 1).drop_last() =~= b.subrange(0, k));
}
pub proof fn lemma_be_val_nonneg(b: Seq<u8>)
    ensures be_val(b) >= 0
    decreases b.len()
{
    if b.len() > 0 { lemma_be_val_nonneg(b.drop_last()); }
}
/// a prefix whose value is v forces the whole value to be at least v * 256^(rest)
pub proof fn lemma_be_val_mono(b: Seq<u8>, k: int)
    requires 0 <= k <= b.len()
    ensures be_val(b) >= be_val(b.subrange(0, k))
    decreases b.len() - k
{
    lemma_be_val_nonneg(b.subrange(0, k));
    if k < b.len() {
        lemma_be_val_push(b, k);
        lemma_be_val_mono(b, k + 1);
    } else {
        assert(b.subrange(0, k) =~= b);
    }
}
pub proof fn lemma_tag_val_nonneg(b: Seq<u8>, n: int)
    ensures tag_val(b, n) >= 0
    decreases n
{
    if n > 0 { lemma_tag_val_nonneg(b, n - 1); }
}
pub proof fn lemma_tag_val_mono(b: Seq<u8>, n: int, m: int)
    requires 0 <= n <= m
    ensures tag_val(b, m) >= tag_val(b, n)
    decreases m
{
    lemma_tag_val_nonneg(b, n);
    if n < m {
        lemma_tag_val_mono(b, n, m - 1);
        assert(tag_val(b, m) >= tag_val(b, m - 1));
    }
}
/// tag_last is >= any index before which all octets have bit 8 set
pub proof fn lemma_tag_last(b: Seq<u8>, k: int, m: int)
    requires 1 <= k <= m, m <= b.len(), forall|j: int| k <= j < m ==> b[j] >= 128
    ensures tag_last(b, k) == tag_last(b, m), tag_last(b, k) == -1 || tag_last(b, k) >= m
    decreases m - k
{
    if k < m { lemma_tag_last(b, k + 1, m); lemma_tag_last_lb(b, m); } else { lemma_tag_last_lb(b, m); }
}
pub proof fn lemma_tag_last_lb(b: Seq<u8>, m: int)
    requires 0 <= m
    ensures tag_last(b, m) == -1 || m <= tag_last(b, m) < b.len()
    decreases b.len() - m
{
    if m < b.len() && b[m] >= 128 { lemma_tag_last_lb(b, m + 1); }
}

//@fn src/header.rs | bytes_to_u64_g | key=P01
//@ret r
//@sigsub <I: Input<Item = u8>>(s: I) ==> (s: Input<'_>)
//@contract
    ensures match r { Ok(v) => v as int == be_val(s.b()), Err(_) => be_val(s.b()) > u64::MAX }
//@nloops 1
//@loop 0
    invariant 0 <= __i0 <= __b0@.len(), __b0@ == s.b(), u as int == be_val(s.b().subrange(0, __i0 as int))
    decreases __b0@.len() - __i0
//@ghost entry
    proof { lemma_bits(); assert(s.b().subrange(0, 0) =~= Seq::<u8>::empty()); }
//@ghost loop0.begin
    proof {
        lemma_bits();
        lemma_be_val_push(s.b(), __i0 as int);
        if u >= 0x100_0000_0000_0000 {
            lemma_be_val_mono(s.b(), __i0 + 1);
        }
    }
//@ghost loop0.after
    proof { assert(s.b().subrange(0, __i0 as int) =~= s.b()); }
//@endfn

//@fn src/header.rs | parse_header | key=P01
//@ret res
//@contract
    requires input.wf()
    ensures match res {
        Ok((rem, h)) => {
            &&& hdr_spec(input.b()) is Some
            &&& hdr_matches(&h, hdr_spec(input.b())->Some_0, &input)
            &&& rem.wf()
            &&& input.sub(&rem, hdr_spec(input.b())->Some_0.octets, input.b().len() as int)
        },
        Err(_) => hdr_spec(input.b()) is None,
    }
//@nloops 1
//@loop 0
    invariant_except_break
        forall|j: int| 1 <= j < tag_byte_count ==> input.b()[j] >= 128,
    invariant
        input.wf(), rem.wf(), input.b().len() >= 1, input.b()[0] % 32 == 31,
        1 <= tag_byte_count <= 6, tag_byte_count <= input.b().len(),
        input.sub(&rem, tag_byte_count as int, input.b().len() as int),
        c as int == tag_val(input.b(), tag_byte_count - 1),
    ensures
        input.wf(), rem.wf(),
        2 <= tag_byte_count <= 6, tag_byte_count <= input.b().len(),
        input.sub(&rem, tag_byte_count as int, input.b().len() as int),
        tag_last(input.b(), 1) == tag_byte_count - 1,
        c as int == tag_val(input.b(), tag_byte_count - 1),
    decreases input.b().len() - tag_byte_count
//@ghost entry
    proof { lemma_bits(); }
//@ghost loop0.begin
    proof {
        lemma_bits();
        lemma_tag_last(input.b(), 1, tag_byte_count as int);
        lemma_tag_last_lb(input.b(), 1);
        if tag_last(input.b(), 1) >= 0 {
            lemma_tag_val_mono(input.b(), tag_byte_count as int, if tag_last(input.b(), 1) >= tag_byte_count { tag_last(input.b(), 1) } else { tag_byte_count as int });
        }
    }
//@endfn

impl<'i> Header<'i> {
//@fn src/header.rs | BerParser<'i> for Header<'i> | parse_ber | key=P01
//@ret res
//@sigsub Self::Error ==> BerError<Input<'i>>
//@contract
    requires input.wf()
    ensures match res {
        Ok((rem, h)) => {
            &&& hdr_spec(input.b()) is Some
            &&& hdr_matches(&h, hdr_spec(input.b())->Some_0, &input)
            &&& rem.wf()
            &&& input.sub(&rem, hdr_spec(input.b())->Some_0.octets, input.b().len() as int)
        },
        Err(_) => hdr_spec(input.b()) is None,
    }
//@endfn
//@fn src/header.rs | DerParser<'i> for Header<'i> | parse_der | key=P01
//@ret res
//@sigsub Self::Error ==> BerError<Input<'i>>
//@contract
    requires input.wf()
    ensures match res {
        Ok((rem, h)) => {
            &&& hdr_spec(input.b()) is Some
            &&& hdr_spec(input.b())->Some_0.len is Some
            &&& hdr_matches(&h, hdr_spec(input.b())->Some_0, &input)
            &&& rem.wf()
            &&& input.sub(&rem, hdr_spec(input.b())->Some_0.octets, input.b().len() as int)
        },
        Err(_) => hdr_spec(input.b()) is None || hdr_spec(input.b())->Some_0.len is None,
    }
//@endfn
}
}
