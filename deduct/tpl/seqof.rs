verus! {
// ------------------------------------------------------------------ SEQUENCE OF / SET OF containers
impl<T> Tagged for Vec<T> {
//@consts src/asn1_types/sequence/vec.rs | Tagged for Vec<T>
}
impl<T> Tagged for SequenceOf<T> {
//@consts src/asn1_types/sequence/sequence_of.rs | Tagged for SequenceOf<T>
}
impl<T> Tagged for SetOf<T> {
//@consts src/asn1_types/set/set_of.rs | Tagged for SetOf<T>
}
impl<'a> Tagged for AnySequence<'a> {
//@consts src/asn1_types/sequence/any_sequence.rs | Tagged for AnySequence<'_>
}
impl<'a> Tagged for Sequence<'a> {
//@consts src/asn1_types/sequence.rs | Tagged for Sequence<'_>
}
impl<'a> Tagged for Set<'a> {
//@consts src/asn1_types/set.rs | Tagged for Set<'_>
}
pub proof fn lemma_container_tags<T>()
    ensures <Vec<T> as Tagged>::TAG == Tag(16), <SequenceOf<T> as Tagged>::TAG == Tag(16), <AnySequence as Tagged>::TAG == Tag(16), <Sequence as Tagged>::TAG == Tag(16),
        <SetOf<T> as Tagged>::TAG == Tag(17), <Set as Tagged>::TAG == Tag(17),
        <Vec<T> as Tagged>::CLASS == Class::Universal, <SequenceOf<T> as Tagged>::CLASS == Class::Universal, <SetOf<T> as Tagged>::CLASS == Class::Universal,
        <Vec<T> as Tagged>::CONSTRUCTED, <SequenceOf<T> as Tagged>::CONSTRUCTED, <SetOf<T> as Tagged>::CONSTRUCTED, <Sequence as Tagged>::CONSTRUCTED, <Set as Tagged>::CONSTRUCTED, <AnySequence as Tagged>::CONSTRUCTED
{}
impl<T> SequenceOf<T> {
//@fn src/asn1_types/sequence/sequence_of.rs | SequenceOf<T> | new | key=P16
//@ret r
//@contract
    ensures r.items == items
//@endfn
}
impl<T> SetOf<T> {
//@fn src/asn1_types/set/set_of.rs | SetOf<T> | new | key=P16
//@ret r
//@contract
    ensures r.items == items
//@endfn
}
/// each element of the content obeys the DER restrictions of its type
pub open spec fn list_check<T: CheckDerConstraints>(b: Seq<u8>) -> bool
    decreases b.len()
{
    b.len() == 0 || (match der_obj(b) { None => false, Some(o) => o.end > 0 && o.end <= b.len() && T::sp_check(o.h, obj_content(b, o)) && list_check::<T>(rest(b, o.end)) })
}

impl<'i, T: BerContent<'i>> BerContent<'i> for Vec<T> {
    type Error = T::Error;
    type V = Seq<T::V>;
    open spec fn sp_val(&self) -> Seq<T::V> { vals_ber::<T>(self@) }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<Seq<T::V>> { if !h.cons { None } else { list_ber::<T>(c) } }
//@fn src/asn1_types/sequence/vec.rs | BerParser<'i> for Vec<T> | from_ber_content | key=P16+P08
//@ret res
//@subst try_parse_collect::<Vec<_>, T> ==> try_parse_collect::<T>
//@contract
//@ghost entry
    proof { assert(vals_ber::<T>(Seq::empty()) =~= Seq::empty()); }
//@endfn
}

impl<'i, T: BerContent<'i>> BerContent<'i> for SequenceOf<T> {
    type Error = T::Error;
    type V = Seq<T::V>;
    open spec fn sp_val(&self) -> Seq<T::V> { vals_ber::<T>(self.items@) }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<Seq<T::V>> { if !h.cons { None } else { list_ber::<T>(c) } }
//@fn src/asn1_types/sequence/sequence_of.rs | BerParser<'i> for SequenceOf<T> | from_ber_content | key=P16+P08
//@ret res

//@contract
//@ghost entry
    proof { assert(vals_ber::<T>(Seq::empty()) =~= Seq::empty()); }
//@endfn
}

impl<'a, T: BerContent<'a>> BerContent<'a> for SetOf<T> {
    type Error = T::Error;
    type V = Seq<T::V>;
    open spec fn sp_val(&self) -> Seq<T::V> { vals_ber::<T>(self.items@) }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<Seq<T::V>> { if !h.cons { None } else { list_ber::<T>(c) } }
//@fn src/asn1_types/set/set_of.rs | BerParser<'a> for SetOf<T> | from_ber_content | key=P16+P08
//@ret res
//@subst try_parse_collect::<Vec<_>, T> ==> try_parse_collect::<T>
//@contract
//@ghost entry
    proof { assert(vals_ber::<T>(Seq::empty()) =~= Seq::empty()); }
//@endfn
}

impl<'a> BerContent<'a> for AnySequence<'a> {
    type Error = BerError<Input<'a>>;
    type V = Seq<AnyV>;
    open spec fn sp_val(&self) -> Seq<AnyV> { vals_fber::<Any, Error>(self.items@) }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<Seq<AnyV>> { if !h.cons { None } else { list_fber::<Any, Error>(c) } }
//@fn src/asn1_types/sequence/any_sequence.rs | BerParser<'a> for AnySequence<'a> | from_ber_content | key=P16+P08
//@ret res
//@subst try_collect::<Vec<Any>> ==> try_collect
//@contract
//@endfn
}

impl<'i> BerContent<'i> for Sequence<'i> {
    type Error = BerError<Input<'i>>;
    type V = Seq<u8>;
    open spec fn sp_val(&self) -> Seq<u8> { cow_seq(self.content) }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { if !h.cons { None } else { Some(c) } }
//@fn src/asn1_types/sequence.rs | BerParser<'i> for Sequence<'i> | from_ber_content | key=P16+P08
//@ret res
//@contract
//@endfn
}

impl<'i> BerContent<'i> for Set<'i> {
    type Error = BerError<Input<'i>>;
    type V = Seq<u8>;
    open spec fn sp_val(&self) -> Seq<u8> { cow_seq(self.content) }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { if !h.cons { None } else { Some(c) } }
//@fn src/asn1_types/set.rs | BerParser<'i> for Set<'i> | from_ber_content | key=P16+P08
//@ret res
//@contract
//@endfn
}

impl<'i, T: DerContent<'i>> DerContent<'i> for Vec<T> {
    type Error = T::Error;
    type DV = Seq<T::DV>;
    open spec fn sp_dval(&self) -> Seq<T::DV> { vals_der::<T>(self@) }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<Seq<T::DV>> { if !h.cons { None } else { list_der::<T>(c) } }
//@fn src/asn1_types/sequence/vec.rs | DerParser<'i> for Vec<T> | from_der_content | key=P16+P08
//@ret res
//@subst try_parse_collect::<Vec<_>, T> ==> try_parse_collect::<T>
//@contract
//@ghost entry
    proof { assert(vals_der::<T>(Seq::empty()) =~= Seq::empty()); }
//@endfn
}

impl<'i, T: DerContent<'i>> DerContent<'i> for SequenceOf<T> {
    type Error = T::Error;
    type DV = Seq<T::DV>;
    open spec fn sp_dval(&self) -> Seq<T::DV> { vals_der::<T>(self.items@) }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<Seq<T::DV>> { if !h.cons { None } else { list_der::<T>(c) } }
//@fn src/asn1_types/sequence/sequence_of.rs | DerParser<'i> for SequenceOf<T> | from_der_content | key=P16+P08
//@ret res

//@contract
//@ghost entry
    proof { assert(vals_der::<T>(Seq::empty()) =~= Seq::empty()); }
//@endfn
}

impl<'a, T: DerContent<'a>> DerContent<'a> for SetOf<T> {
    type Error = T::Error;
    type DV = Seq<T::DV>;
    open spec fn sp_dval(&self) -> Seq<T::DV> { vals_der::<T>(self.items@) }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<Seq<T::DV>> { if !h.cons { None } else { list_der::<T>(c) } }
//@fn src/asn1_types/set/set_of.rs | DerParser<'a> for SetOf<T> | from_der_content | key=P16+P08
//@ret res
//@subst try_parse_collect::<Vec<_>, T> ==> try_parse_collect::<T>
//@contract
//@ghost entry
    proof { assert(vals_der::<T>(Seq::empty()) =~= Seq::empty()); }
//@endfn
}

impl<'a> DerContent<'a> for AnySequence<'a> {
    type Error = BerError<Input<'a>>;
    type DV = Seq<AnyV>;
    open spec fn sp_dval(&self) -> Seq<AnyV> { vals_fder::<Any, Error>(self.items@) }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<Seq<AnyV>> { if !h.cons { None } else { list_fder::<Any, Error>(c) } }
//@fn src/asn1_types/sequence/any_sequence.rs | DerParser<'a> for AnySequence<'a> | from_der_content | key=P16+P08
//@ret res
//@subst try_collect::<Vec<Any>> ==> try_collect
//@contract
//@endfn
}

impl<'i> DerContent<'i> for Sequence<'i> {
    type Error = BerError<Input<'i>>;
    type DV = Seq<u8>;
    open spec fn sp_dval(&self) -> Seq<u8> { cow_seq(self.content) }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { if !h.cons { None } else { Some(c) } }
//@fn src/asn1_types/sequence.rs | DerParser<'i> for Sequence<'i> | from_der_content | key=P16+P08
//@ret res
//@contract
//@endfn
}

impl<'i> DerContent<'i> for Set<'i> {
    type Error = BerError<Input<'i>>;
    type DV = Seq<u8>;
    open spec fn sp_dval(&self) -> Seq<u8> { cow_seq(self.content) }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { if !h.cons { None } else { Some(c) } }
//@fn src/asn1_types/set.rs | DerParser<'i> for Set<'i> | from_der_content | key=P16+P08
//@ret res
//@contract
//@endfn
}

impl<'a, T: FromBer<'a, Error>> SequenceOf<T> {
//@fn src/asn1_types/sequence/sequence_of.rs | TryFrom<Any<'a>> for SequenceOf<T> | try_from | key=P16 | rename=try_from_any
//@ret res
//@attr #[verifier::exec_allows_no_decreases_clause]
//@contract
    requires any.data.wf()
    ensures match res { Ok(v) => seqof_try::<T, Error>(hv(&any.header), any.data.b(), Tag::Sequence) == Some(vals_fber::<T, Error>(v.items@)), Err(_) => seqof_try::<T, Error>(hv(&any.header), any.data.b(), Tag::Sequence) is None }
//@ghost loop0.before
    let ghost i0 = __itc0.data@;
    proof { lemma_pre(Seq::<T::FW>::empty(), arbitrary(), list_fber::<T, Error>(i0)); assert(vals_fber::<T, Error>(__vc0@) =~= Seq::<T::FW>::empty()); }
//@loop 0
    invariant_except_break
        __ec0 is None, !__itc0.has_error,
    invariant
        __ec0 is None ==> list_fber::<T, Error>(i0) == pre(vals_fber::<T, Error>(__vc0@), list_fber::<T, Error>(__itc0.data@)),
        __ec0 is None ==> !__itc0.has_error,
    ensures
        __ec0 is None ==> __itc0.data@.len() == 0,
        __ec0 is Some ==> list_fber::<T, Error>(i0) is None,
//@ghost loop0.begin
    let ghost ib = __itc0.data@; let ghost v0 = __vc0@;
    proof { assert(rest(ib, 0) =~= ib); if let Some((x, n)) = T::sp_from_ber(ib) { lemma_pre(vals_fber::<T, Error>(v0), x, list_fber::<T, Error>(rest(ib, n))); } }
//@ghost loop0.end
    proof { if __ec0 is None { assert(vals_fber::<T, Error>(__vc0@) =~= vals_fber::<T, Error>(v0).push(__vc0@.last().sp_fw())); } }
//@ghost loop0.after
    proof { if __ec0 is None { assert(vals_fber::<T, Error>(__vc0@) + Seq::<T::FW>::empty() =~= vals_fber::<T, Error>(__vc0@)); } }
//@endfn
}
impl<T: CheckDerConstraints> CheckDerConstraints for SequenceOf<T> {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { h.tag == Tag::Sequence && h.cons && list_check::<T>(c) }
//@fn src/asn1_types/sequence/sequence_of.rs | CheckDerConstraints for SequenceOf<T> | check_constraints | key=P16+P09
//@ret res
//@contract
//@loop 0
    invariant
        !__it0.has_error, list_check::<T>(any.data.b()) == list_check::<T>(__it0.data@),
        any.header.tag == Tag::Sequence, any.header.constructed,
    ensures __it0.data@.len() == 0
    decreases __it0.data@.len()
//@ghost loop0.begin
    let ghost ib = __it0.data@;
    proof { lemma_obj(ib); }
//@endfn
}
impl<'a, T: FromDer<'a, E>, E: From<Error>> FromDer<'a, E> for SequenceOf<T> {
    type GW = Seq<T::GW>;
    open spec fn sp_gw(&self) -> Seq<T::GW> { vals_fder::<T, E>(self.items@) }
    open spec fn sp_from_der(b: Seq<u8>) -> Option<(Seq<T::GW>, int)> { seqof_from_der::<T, E>(b, Tag::Sequence) }
//@fn src/asn1_types/sequence/sequence_of.rs | FromDer<'a,E> for SequenceOf<T> | from_der | key=P16
//@ret res
//@attr #[verifier::exec_allows_no_decreases_clause]
//@contract
//@ghost loop0.before
    let ghost i0 = __itc0.data@;
    proof { lemma_pre(Seq::<T::GW>::empty(), arbitrary(), list_fder::<T, E>(i0)); assert(vals_fder::<T, E>(__vc0@) =~= Seq::<T::GW>::empty()); }
//@loop 0
    invariant_except_break
        __ec0 is None, !__itc0.has_error,
    invariant
        __ec0 is None ==> list_fder::<T, E>(i0) == pre(vals_fder::<T, E>(__vc0@), list_fder::<T, E>(__itc0.data@)),
        __ec0 is None ==> !__itc0.has_error,
    ensures
        __ec0 is None ==> __itc0.data@.len() == 0,
        __ec0 is Some ==> list_fder::<T, E>(i0) is None,
//@ghost loop0.begin
    let ghost ib = __itc0.data@; let ghost v0 = __vc0@;
    proof { assert(rest(ib, 0) =~= ib); if let Some((x, n)) = T::sp_from_der(ib) { lemma_pre(vals_fder::<T, E>(v0), x, list_fder::<T, E>(rest(ib, n))); } }
//@ghost loop0.end
    proof { if __ec0 is None { assert(vals_fder::<T, E>(__vc0@) =~= vals_fder::<T, E>(v0).push(__vc0@.last().sp_gw())); } }
//@ghost loop0.after
    proof { if __ec0 is None { assert(vals_fder::<T, E>(__vc0@) + Seq::<T::GW>::empty() =~= vals_fder::<T, E>(__vc0@)); } }
//@endfn
}

impl<'a, T: FromBer<'a, Error>> SetOf<T> {
//@fn src/asn1_types/set/set_of.rs | TryFrom<Any<'a>> for SetOf<T> | try_from | key=P16 | rename=try_from_any
//@ret res
//@attr #[verifier::exec_allows_no_decreases_clause]
//@contract
    requires any.data.wf()
    ensures match res { Ok(v) => seqof_try::<T, Error>(hv(&any.header), any.data.b(), Tag::Set) == Some(vals_fber::<T, Error>(v.items@)), Err(_) => seqof_try::<T, Error>(hv(&any.header), any.data.b(), Tag::Set) is None }
//@ghost loop0.before
    let ghost i0 = __itc0.data@;
    proof { lemma_pre(Seq::<T::FW>::empty(), arbitrary(), list_fber::<T, Error>(i0)); assert(vals_fber::<T, Error>(__vc0@) =~= Seq::<T::FW>::empty()); }
//@loop 0
    invariant_except_break
        __ec0 is None, !__itc0.has_error,
    invariant
        __ec0 is None ==> list_fber::<T, Error>(i0) == pre(vals_fber::<T, Error>(__vc0@), list_fber::<T, Error>(__itc0.data@)),
        __ec0 is None ==> !__itc0.has_error,
    ensures
        __ec0 is None ==> __itc0.data@.len() == 0,
        __ec0 is Some ==> list_fber::<T, Error>(i0) is None,
//@ghost loop0.begin
    let ghost ib = __itc0.data@; let ghost v0 = __vc0@;
    proof { assert(rest(ib, 0) =~= ib); if let Some((x, n)) = T::sp_from_ber(ib) { lemma_pre(vals_fber::<T, Error>(v0), x, list_fber::<T, Error>(rest(ib, n))); } }
//@ghost loop0.end
    proof { if __ec0 is None { assert(vals_fber::<T, Error>(__vc0@) =~= vals_fber::<T, Error>(v0).push(__vc0@.last().sp_fw())); } }
//@ghost loop0.after
    proof { if __ec0 is None { assert(vals_fber::<T, Error>(__vc0@) + Seq::<T::FW>::empty() =~= vals_fber::<T, Error>(__vc0@)); } }
//@endfn
}
impl<T: CheckDerConstraints> CheckDerConstraints for SetOf<T> {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { h.tag == Tag::Set && h.cons && list_check::<T>(c) }
//@fn src/asn1_types/set/set_of.rs | CheckDerConstraints for SetOf<T> | check_constraints | key=P16+P09
//@ret res
//@contract
//@loop 0
    invariant
        !__it0.has_error, list_check::<T>(any.data.b()) == list_check::<T>(__it0.data@),
        any.header.tag == Tag::Set, any.header.constructed,
    ensures __it0.data@.len() == 0
    decreases __it0.data@.len()
//@ghost loop0.begin
    let ghost ib = __it0.data@;
    proof { lemma_obj(ib); }
//@endfn
}
impl<'a, T: FromDer<'a, E>, E: From<Error>> FromDer<'a, E> for SetOf<T> {
    type GW = Seq<T::GW>;
    open spec fn sp_gw(&self) -> Seq<T::GW> { vals_fder::<T, E>(self.items@) }
    open spec fn sp_from_der(b: Seq<u8>) -> Option<(Seq<T::GW>, int)> { seqof_from_der::<T, E>(b, Tag::Set) }
//@fn src/asn1_types/set/set_of.rs | FromDer<'a,E> for SetOf<T> | from_der | key=P16
//@ret res
//@attr #[verifier::exec_allows_no_decreases_clause]
//@contract
//@ghost loop0.before
    let ghost i0 = __itc0.data@;
    proof { lemma_pre(Seq::<T::GW>::empty(), arbitrary(), list_fder::<T, E>(i0)); assert(vals_fder::<T, E>(__vc0@) =~= Seq::<T::GW>::empty()); }
//@loop 0
    invariant_except_break
        __ec0 is None, !__itc0.has_error,
    invariant
        __ec0 is None ==> list_fder::<T, E>(i0) == pre(vals_fder::<T, E>(__vc0@), list_fder::<T, E>(__itc0.data@)),
        __ec0 is None ==> !__itc0.has_error,
    ensures
        __ec0 is None ==> __itc0.data@.len() == 0,
        __ec0 is Some ==> list_fder::<T, E>(i0) is None,
//@ghost loop0.begin
    let ghost ib = __itc0.data@; let ghost v0 = __vc0@;
    proof { assert(rest(ib, 0) =~= ib); if let Some((x, n)) = T::sp_from_der(ib) { lemma_pre(vals_fder::<T, E>(v0), x, list_fder::<T, E>(rest(ib, n))); } }
//@ghost loop0.end
    proof { if __ec0 is None { assert(vals_fder::<T, E>(__vc0@) =~= vals_fder::<T, E>(v0).push(__vc0@.last().sp_gw())); } }
//@ghost loop0.after
    proof { if __ec0 is None { assert(vals_fder::<T, E>(__vc0@) + Seq::<T::GW>::empty() =~= vals_fder::<T, E>(__vc0@)); } }
//@endfn
}

pub trait VecTryFrom<'a>: Sized {
    type VT: FromBer<'a, Error>;
    spec fn sp_v(&self) -> Seq<Self::VT>;
    fn try_from_any(any: Any<'a>) -> (res: Result<Self>)
        requires any.data.wf()
        ensures match res { Ok(v) => seqof_try::<Self::VT, Error>(hv(&any.header), any.data.b(), Tag::Sequence) == Some(vals_fber::<Self::VT, Error>(v.sp_v())), Err(_) => seqof_try::<Self::VT, Error>(hv(&any.header), any.data.b(), Tag::Sequence) is None };
}
impl<'a, T: FromBer<'a, Error>> VecTryFrom<'a> for Vec<T> {
    type VT = T;
    open spec fn sp_v(&self) -> Seq<T> { self@ }
//@fn src/asn1_types/sequence/vec.rs | TryFrom<Any<'a>> for Vec<T> | try_from | key=P16 | rename=try_from_any
//@ret res
//@attr #[verifier::exec_allows_no_decreases_clause]
//@contract
//@ghost loop0.before
    let ghost i0 = __itc0.data@;
    proof { lemma_pre(Seq::<T::FW>::empty(), arbitrary(), list_fber::<T, Error>(i0)); assert(vals_fber::<T, Error>(__vc0@) =~= Seq::<T::FW>::empty()); }
//@loop 0
    invariant_except_break
        __ec0 is None, !__itc0.has_error,
    invariant
        __ec0 is None ==> list_fber::<T, Error>(i0) == pre(vals_fber::<T, Error>(__vc0@), list_fber::<T, Error>(__itc0.data@)),
        __ec0 is None ==> !__itc0.has_error,
    ensures
        __ec0 is None ==> __itc0.data@.len() == 0,
        __ec0 is Some ==> list_fber::<T, Error>(i0) is None,
//@ghost loop0.begin
    let ghost ib = __itc0.data@; let ghost v0 = __vc0@;
    proof { assert(rest(ib, 0) =~= ib); if let Some((x, n)) = T::sp_from_ber(ib) { lemma_pre(vals_fber::<T, Error>(v0), x, list_fber::<T, Error>(rest(ib, n))); } }
//@ghost loop0.end
    proof { if __ec0 is None { assert(vals_fber::<T, Error>(__vc0@) =~= vals_fber::<T, Error>(v0).push(__vc0@.last().sp_fw())); } }
//@ghost loop0.after
    proof { if __ec0 is None { assert(vals_fber::<T, Error>(__vc0@) + Seq::<T::FW>::empty() =~= vals_fber::<T, Error>(__vc0@)); } }
//@endfn
}
impl<T: CheckDerConstraints> CheckDerConstraints for Vec<T> {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { h.tag == Tag::Sequence && h.cons && list_check::<T>(c) }
//@fn src/asn1_types/sequence/vec.rs | CheckDerConstraints for Vec<T> | check_constraints | key=P16+P09
//@ret res
//@contract
//@loop 0
    invariant
        !__it0.has_error, list_check::<T>(any.data.b()) == list_check::<T>(__it0.data@),
        any.header.tag == Tag::Sequence, any.header.constructed,
    ensures __it0.data@.len() == 0
    decreases __it0.data@.len()
//@ghost loop0.begin
    let ghost ib = __it0.data@;
    proof { lemma_obj(ib); }
//@endfn
}
impl<'a, T: FromDer<'a, E>, E: From<Error>> FromDer<'a, E> for Vec<T> {
    type GW = Seq<T::GW>;
    open spec fn sp_gw(&self) -> Seq<T::GW> { vals_fder::<T, E>(self@) }
    open spec fn sp_from_der(b: Seq<u8>) -> Option<(Seq<T::GW>, int)> { seqof_from_der::<T, E>(b, Tag::Sequence) }
//@fn src/asn1_types/sequence/vec.rs | FromDer<'a,E> for Vec<T> | from_der | key=P16
//@ret res
//@attr #[verifier::exec_allows_no_decreases_clause]
//@contract
//@ghost loop0.before
    let ghost i0 = __itc0.data@;
    proof { lemma_pre(Seq::<T::GW>::empty(), arbitrary(), list_fder::<T, E>(i0)); assert(vals_fder::<T, E>(__vc0@) =~= Seq::<T::GW>::empty()); }
//@loop 0
    invariant_except_break
        __ec0 is None, !__itc0.has_error,
    invariant
        __ec0 is None ==> list_fder::<T, E>(i0) == pre(vals_fder::<T, E>(__vc0@), list_fder::<T, E>(__itc0.data@)),
        __ec0 is None ==> !__itc0.has_error,
    ensures
        __ec0 is None ==> __itc0.data@.len() == 0,
        __ec0 is Some ==> list_fder::<T, E>(i0) is None,
//@ghost loop0.begin
    let ghost ib = __itc0.data@; let ghost v0 = __vc0@;
    proof { assert(rest(ib, 0) =~= ib); if let Some((x, n)) = T::sp_from_der(ib) { lemma_pre(vals_fder::<T, E>(v0), x, list_fder::<T, E>(rest(ib, n))); } }
//@ghost loop0.end
    proof { if __ec0 is None { assert(vals_fder::<T, E>(__vc0@) =~= vals_fder::<T, E>(v0).push(__vc0@.last().sp_gw())); } }
//@ghost loop0.after
    proof { if __ec0 is None { assert(vals_fder::<T, E>(__vc0@) + Seq::<T::GW>::empty() =~= vals_fder::<T, E>(__vc0@)); } }
//@endfn
}

pub open spec fn seqof_try<'a, T: FromBer<'a, E>, E>(h: HV, c: Seq<u8>, tag: Tag) -> Option<Seq<T::FW>> { if h.tag != tag || !h.cons { None } else { list_fber::<T, E>(c) } }
pub open spec fn seqof_from_der<'a, T: FromDer<'a, E>, E>(b: Seq<u8>, tag: Tag) -> Option<(Seq<T::GW>, int)> {
    match der_obj(b) {
        None => None,
        Some(o) => if o.h.tag != tag || !o.h.cons { None } else { match list_fder::<T, E>(obj_content(b, o)) { None => None, Some(v) => Some((v, o.end)) } },
    }
}

// ------------------------------------------------------------------ SEQUENCE / SET with undecoded content

impl<'a> Sequence<'a> {
//@fn src/asn1_types/sequence.rs | TryFrom<&'b Any<'a>> for Sequence<'a> | try_from | key=P16 | rename=try_from_ref
//@ret res
//@sigsub &'b Any ==> &Any
//@contract
    requires any.data.wf()
    ensures match res { Ok(v) => any.header.tag == Tag::Sequence && any.header.constructed && v.content is Borrowed && cow_seq(v.content) == any.data.b(), Err(_) => any.header.tag != Tag::Sequence || !any.header.constructed }
//@endfn
//@fn src/asn1_types/sequence.rs | TryFrom<Any<'a>> for Sequence<'a> | try_from | key=P16 | rename=try_from_any
//@ret res
//@subst TryFrom::try_from\(&any\) ==> Self::try_from_ref(&any)
//@contract
    requires any.data.wf()
    ensures match res { Ok(v) => any.header.tag == Tag::Sequence && any.header.constructed && v.content is Borrowed && cow_seq(v.content) == any.data.b(), Err(_) => any.header.tag != Tag::Sequence || !any.header.constructed }
//@endfn
}
impl<'a> CheckDerConstraints for Sequence<'a> {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { true }
//@fn src/asn1_types/sequence.rs | CheckDerConstraints for Sequence<'_> | check_constraints | key=P16
//@ret res
//@contract
//@endfn
}

pub open spec fn sequence_ber(b: Seq<u8>) -> Option<(Seq<u8>, int)> {
    match ber_obj(b) { None => None, Some(o) => if o.h.tag == Tag::Sequence && o.h.cons { Some((obj_content(b, o), o.end)) } else { None } }
}
impl<'a> FromBer<'a, Error> for Sequence<'a> {
    type FW = (Seq<u8>, bool);
    open spec fn sp_fw(&self) -> (Seq<u8>, bool) { (cow_seq(self.content), self.content is Borrowed) }
    open spec fn sp_from_ber(b: Seq<u8>) -> Option<((Seq<u8>, bool), int)> { match sequence_ber(b) { None => None, Some((v, n)) => Some(((v, true), n)) } }
//@fn src/from_ber.rs | FromBer<'a,E> for T | from_ber | key=P16
//@ret res
//@sigsub ParseResult<'a, T, E> ==> ParseResult<'a, Self, Error>
//@subst any\.try_into\(\) ==> Self::try_from_any(any)

//@contract
//@ghost entry
    proof { lemma_obj(bytes@); }
//@endfn
}
impl<'a> Sequence<'a> {
//@fn src/asn1_types/sequence.rs | Sequence<'a> | from_ber_and_then | key=P16
//@ret res
//@contract
    requires forall|x: &'a [u8]| #[trigger] op.requires((x,))
    ensures match sequence_ber(bytes@) {
        None => res is Err,
        Some((c, n)) => exists|x: &'a [u8], q: ParseResult<'a, U, E>| x@ == c && #[trigger] op.ensures((x,), q) && match res {
            Ok((rem, v)) => q is Ok && q->Ok_0.1 == v && rem@ == bytes@.subrange(n, bytes@.len() as int),
            Err(_) => q is Err,
        },
    }
//@endfn
//@fn src/asn1_types/sequence.rs | Sequence<'a> | parse_ber_and_then | key=P16+P19
//@ret res
//@contract
    requires input.wf(), forall|h: Header<'a>, x: Input<'a>| x.wf() ==> #[trigger] op.requires((h, x))
    ensures match ber_obj(input.b()) {
        None => res is Err,
        Some(o) => if o.h.tag != Tag::Sequence { res is Err } else {
            exists|h: Header<'a>, x: Input<'a>, q: IResult<Input<'a>, O, E>| hv(&h) == o.h && x.wf() && input.sub(&x, o.start, o.start + o.len) && #[trigger] op.ensures((h, x), q) && match res {
                Ok((rem, v)) => q is Ok && q->Ok_0.1 == v && rem.wf() && input.sub(&rem, o.end, input.b().len() as int),
                Err(_) => q is Err,
            } },
    }
//@endfn
//@fn src/asn1_types/sequence.rs | Sequence<'a> | ber_iter | key=P16
//@ret r
//@contract
    ensures r.data@ == cow_seq(self.content), !r.has_error
//@endfn
//@fn src/asn1_types/sequence.rs | Sequence<'a> | ber_sequence_of | key=P16
//@ret res
//@attr #[verifier::exec_allows_no_decreases_clause]
//@contract
    ensures match res { Ok(v) => list_fber::<T, E>(cow_seq(self.content)) == Some(vals_fber::<T, E>(v@)), Err(_) => list_fber::<T, E>(cow_seq(self.content)) is None }
//@ghost loop0.before
    let ghost i0 = __itc0.data@;
    proof { lemma_pre(Seq::<T::FW>::empty(), arbitrary(), list_fber::<T, E>(i0)); assert(vals_fber::<T, E>(__vc0@) =~= Seq::<T::FW>::empty()); }
//@loop 0
    invariant_except_break
        __ec0 is None, !__itc0.has_error,
    invariant
        __ec0 is None ==> list_fber::<T, E>(i0) == pre(vals_fber::<T, E>(__vc0@), list_fber::<T, E>(__itc0.data@)),
        __ec0 is None ==> !__itc0.has_error,
    ensures
        __ec0 is None ==> __itc0.data@.len() == 0,
        __ec0 is Some ==> list_fber::<T, E>(i0) is None,
//@ghost loop0.begin
    let ghost ib = __itc0.data@; let ghost v0 = __vc0@;
    proof { assert(rest(ib, 0) =~= ib); if let Some((x, n)) = T::sp_from_ber(ib) { lemma_pre(vals_fber::<T, E>(v0), x, list_fber::<T, E>(rest(ib, n))); } }
//@ghost loop0.end
    proof { if __ec0 is None { assert(vals_fber::<T, E>(__vc0@) =~= vals_fber::<T, E>(v0).push(__vc0@.last().sp_fw())); } }
//@ghost loop0.after
    proof { if __ec0 is None { assert(vals_fber::<T, E>(__vc0@) + Seq::<T::FW>::empty() =~= vals_fber::<T, E>(__vc0@)); } }
//@endfn
}

pub open spec fn sequence_der(b: Seq<u8>) -> Option<(Seq<u8>, int)> {
    match der_obj(b) { None => None, Some(o) => if o.h.tag == Tag::Sequence && o.h.cons { Some((obj_content(b, o), o.end)) } else { None } }
}
impl<'a> FromDer<'a, Error> for Sequence<'a> {
    type GW = (Seq<u8>, bool);
    open spec fn sp_gw(&self) -> (Seq<u8>, bool) { (cow_seq(self.content), self.content is Borrowed) }
    open spec fn sp_from_der(b: Seq<u8>) -> Option<((Seq<u8>, bool), int)> { match sequence_der(b) { None => None, Some((v, n)) => Some(((v, true), n)) } }
//@fn src/from_der.rs | FromDer<'a,E> for T | from_der | key=P16
//@ret res
//@sigsub ParseResult<'a, T, E> ==> ParseResult<'a, Self, Error>
//@subst any\.try_into\(\) ==> Self::try_from_any(any)
//@subst <T as ==> <Self as
//@contract
//@ghost entry
    proof { lemma_obj(bytes@); }
//@endfn
}
impl<'a> Sequence<'a> {
//@fn src/asn1_types/sequence.rs | Sequence<'a> | from_der_and_then | key=P16
//@ret res
//@contract
    requires forall|x: &'a [u8]| #[trigger] op.requires((x,))
    ensures match sequence_der(bytes@) {
        None => res is Err,
        Some((c, n)) => exists|x: &'a [u8], q: ParseResult<'a, U, E>| x@ == c && #[trigger] op.ensures((x,), q) && match res {
            Ok((rem, v)) => q is Ok && q->Ok_0.1 == v && rem@ == bytes@.subrange(n, bytes@.len() as int),
            Err(_) => q is Err,
        },
    }
//@endfn
//@fn src/asn1_types/sequence.rs | Sequence<'a> | parse_der_and_then | key=P16+P19
//@ret res
//@contract
    requires input.wf(), forall|h: Header<'a>, x: Input<'a>| x.wf() ==> #[trigger] op.requires((h, x))
    ensures match der_obj(input.b()) {
        None => res is Err,
        Some(o) => if o.h.tag != Tag::Sequence { res is Err } else {
            exists|h: Header<'a>, x: Input<'a>, q: IResult<Input<'a>, O, E>| hv(&h) == o.h && x.wf() && input.sub(&x, o.start, o.start + o.len) && #[trigger] op.ensures((h, x), q) && match res {
                Ok((rem, v)) => q is Ok && q->Ok_0.1 == v && rem.wf() && input.sub(&rem, o.end, input.b().len() as int),
                Err(_) => q is Err,
            } },
    }
//@endfn
//@fn src/asn1_types/sequence.rs | Sequence<'a> | der_iter | key=P16
//@ret r
//@contract
    ensures r.data@ == cow_seq(self.content), !r.has_error
//@endfn
//@fn src/asn1_types/sequence.rs | Sequence<'a> | der_sequence_of | key=P16
//@ret res
//@attr #[verifier::exec_allows_no_decreases_clause]
//@contract
    ensures match res { Ok(v) => list_fder::<T, E>(cow_seq(self.content)) == Some(vals_fder::<T, E>(v@)), Err(_) => list_fder::<T, E>(cow_seq(self.content)) is None }
//@ghost loop0.before
    let ghost i0 = __itc0.data@;
    proof { lemma_pre(Seq::<T::GW>::empty(), arbitrary(), list_fder::<T, E>(i0)); assert(vals_fder::<T, E>(__vc0@) =~= Seq::<T::GW>::empty()); }
//@loop 0
    invariant_except_break
        __ec0 is None, !__itc0.has_error,
    invariant
        __ec0 is None ==> list_fder::<T, E>(i0) == pre(vals_fder::<T, E>(__vc0@), list_fder::<T, E>(__itc0.data@)),
        __ec0 is None ==> !__itc0.has_error,
    ensures
        __ec0 is None ==> __itc0.data@.len() == 0,
        __ec0 is Some ==> list_fder::<T, E>(i0) is None,
//@ghost loop0.begin
    let ghost ib = __itc0.data@; let ghost v0 = __vc0@;
    proof { assert(rest(ib, 0) =~= ib); if let Some((x, n)) = T::sp_from_der(ib) { lemma_pre(vals_fder::<T, E>(v0), x, list_fder::<T, E>(rest(ib, n))); } }
//@ghost loop0.end
    proof { if __ec0 is None { assert(vals_fder::<T, E>(__vc0@) =~= vals_fder::<T, E>(v0).push(__vc0@.last().sp_gw())); } }
//@ghost loop0.after
    proof { if __ec0 is None { assert(vals_fder::<T, E>(__vc0@) + Seq::<T::GW>::empty() =~= vals_fder::<T, E>(__vc0@)); } }
//@endfn
}

impl<'a> Sequence<'a> {
//@fn src/asn1_types/sequence.rs | Sequence<'a> | into_der_sequence_of_ref | key=P16
//@ret res
//@attr #[verifier::exec_allows_no_decreases_clause]
//@contract
    ensures match res { Ok(v) => list_fder::<T, E>(cow_seq(self.content)) == Some(vals_fder::<T, E>(v@)), Err(_) => self.content is Owned || list_fder::<T, E>(cow_seq(self.content)) is None }
//@ghost loop0.before
    let ghost i0 = __itc0.data@;
    proof { lemma_pre(Seq::<T::GW>::empty(), arbitrary(), list_fder::<T, E>(i0)); assert(vals_fder::<T, E>(__vc0@) =~= Seq::<T::GW>::empty()); }
//@loop 0
    invariant_except_break
        __ec0 is None, !__itc0.has_error,
    invariant
        __ec0 is None ==> list_fder::<T, E>(i0) == pre(vals_fder::<T, E>(__vc0@), list_fder::<T, E>(__itc0.data@)),
        __ec0 is None ==> !__itc0.has_error,
    ensures
        __ec0 is None ==> __itc0.data@.len() == 0,
        __ec0 is Some ==> list_fder::<T, E>(i0) is None,
//@ghost loop0.begin
    let ghost ib = __itc0.data@; let ghost v0 = __vc0@;
    proof { assert(rest(ib, 0) =~= ib); if let Some((x, n)) = T::sp_from_der(ib) { lemma_pre(vals_fder::<T, E>(v0), x, list_fder::<T, E>(rest(ib, n))); } }
//@ghost loop0.end
    proof { if __ec0 is None { assert(vals_fder::<T, E>(__vc0@) =~= vals_fder::<T, E>(v0).push(__vc0@.last().sp_gw())); } }
//@ghost loop0.after
    proof { if __ec0 is None { assert(vals_fder::<T, E>(__vc0@) + Seq::<T::GW>::empty() =~= vals_fder::<T, E>(__vc0@)); } }
//@endfn
}

impl<'a> Set<'a> {
//@fn src/asn1_types/set.rs | TryFrom<&'b Any<'a>> for Set<'a> | try_from | key=P16 | rename=try_from_ref
//@ret res
//@sigsub &'b Any ==> &Any
//@contract
    requires any.data.wf()
    ensures match res { Ok(v) => any.header.tag == Tag::Set && any.header.constructed && v.content is Borrowed && cow_seq(v.content) == any.data.b(), Err(_) => any.header.tag != Tag::Set || !any.header.constructed }
//@endfn
//@fn src/asn1_types/set.rs | TryFrom<Any<'a>> for Set<'a> | try_from | key=P16 | rename=try_from_any
//@ret res
//@subst TryFrom::try_from\(&any\) ==> Self::try_from_ref(&any)
//@contract
    requires any.data.wf()
    ensures match res { Ok(v) => any.header.tag == Tag::Set && any.header.constructed && v.content is Borrowed && cow_seq(v.content) == any.data.b(), Err(_) => any.header.tag != Tag::Set || !any.header.constructed }
//@endfn
}
impl<'a> CheckDerConstraints for Set<'a> {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { true }
//@fn src/asn1_types/set.rs | CheckDerConstraints for Set<'_> | check_constraints | key=P16
//@ret res
//@contract
//@endfn
}

pub open spec fn set_ber(b: Seq<u8>) -> Option<(Seq<u8>, int)> {
    match ber_obj(b) { None => None, Some(o) => if o.h.tag == Tag::Set && o.h.cons { Some((obj_content(b, o), o.end)) } else { None } }
}
impl<'a> FromBer<'a, Error> for Set<'a> {
    type FW = (Seq<u8>, bool);
    open spec fn sp_fw(&self) -> (Seq<u8>, bool) { (cow_seq(self.content), self.content is Borrowed) }
    open spec fn sp_from_ber(b: Seq<u8>) -> Option<((Seq<u8>, bool), int)> { match set_ber(b) { None => None, Some((v, n)) => Some(((v, true), n)) } }
//@fn src/from_ber.rs | FromBer<'a,E> for T | from_ber | key=P16
//@ret res
//@sigsub ParseResult<'a, T, E> ==> ParseResult<'a, Self, Error>
//@subst any\.try_into\(\) ==> Self::try_from_any(any)

//@contract
//@ghost entry
    proof { lemma_obj(bytes@); }
//@endfn
}
impl<'a> Set<'a> {
//@fn src/asn1_types/set.rs | Set<'a> | from_ber_and_then | key=P16
//@ret res
//@contract
    requires forall|x: &'a [u8]| #[trigger] op.requires((x,))
    ensures match set_ber(bytes@) {
        None => res is Err,
        Some((c, n)) => exists|x: &'a [u8], q: ParseResult<'a, U, E>| x@ == c && #[trigger] op.ensures((x,), q) && match res {
            Ok((rem, v)) => q is Ok && q->Ok_0.1 == v && rem@ == bytes@.subrange(n, bytes@.len() as int),
            Err(_) => q is Err,
        },
    }
//@endfn
//@fn src/asn1_types/set.rs | Set<'a> | parse_ber_and_then | key=P16+P19
//@ret res
//@contract
    requires input.wf(), forall|h: Header<'a>, x: Input<'a>| x.wf() ==> #[trigger] op.requires((h, x))
    ensures match ber_obj(input.b()) {
        None => res is Err,
        Some(o) => if o.h.tag != Tag::Set { res is Err } else {
            exists|h: Header<'a>, x: Input<'a>, q: IResult<Input<'a>, O, E>| hv(&h) == o.h && x.wf() && input.sub(&x, o.start, o.start + o.len) && #[trigger] op.ensures((h, x), q) && match res {
                Ok((rem, v)) => q is Ok && q->Ok_0.1 == v && rem.wf() && input.sub(&rem, o.end, input.b().len() as int),
                Err(_) => q is Err,
            } },
    }
//@endfn
//@fn src/asn1_types/set.rs | Set<'a> | ber_iter | key=P16
//@ret r
//@contract
    ensures r.data@ == cow_seq(self.content), !r.has_error
//@endfn
//@fn src/asn1_types/set.rs | Set<'a> | ber_set_of | key=P16
//@ret res
//@attr #[verifier::exec_allows_no_decreases_clause]
//@contract
    ensures match res { Ok(v) => list_fber::<T, E>(cow_seq(self.content)) == Some(vals_fber::<T, E>(v@)), Err(_) => list_fber::<T, E>(cow_seq(self.content)) is None }
//@ghost loop0.before
    let ghost i0 = __itc0.data@;
    proof { lemma_pre(Seq::<T::FW>::empty(), arbitrary(), list_fber::<T, E>(i0)); assert(vals_fber::<T, E>(__vc0@) =~= Seq::<T::FW>::empty()); }
//@loop 0
    invariant_except_break
        __ec0 is None, !__itc0.has_error,
    invariant
        __ec0 is None ==> list_fber::<T, E>(i0) == pre(vals_fber::<T, E>(__vc0@), list_fber::<T, E>(__itc0.data@)),
        __ec0 is None ==> !__itc0.has_error,
    ensures
        __ec0 is None ==> __itc0.data@.len() == 0,
        __ec0 is Some ==> list_fber::<T, E>(i0) is None,
//@ghost loop0.begin
    let ghost ib = __itc0.data@; let ghost v0 = __vc0@;
    proof { assert(rest(ib, 0) =~= ib); if let Some((x, n)) = T::sp_from_ber(ib) { lemma_pre(vals_fber::<T, E>(v0), x, list_fber::<T, E>(rest(ib, n))); } }
//@ghost loop0.end
    proof { if __ec0 is None { assert(vals_fber::<T, E>(__vc0@) =~= vals_fber::<T, E>(v0).push(__vc0@.last().sp_fw())); } }
//@ghost loop0.after
    proof { if __ec0 is None { assert(vals_fber::<T, E>(__vc0@) + Seq::<T::FW>::empty() =~= vals_fber::<T, E>(__vc0@)); } }
//@endfn
}

pub open spec fn set_der(b: Seq<u8>) -> Option<(Seq<u8>, int)> {
    match der_obj(b) { None => None, Some(o) => if o.h.tag == Tag::Set && o.h.cons { Some((obj_content(b, o), o.end)) } else { None } }
}
impl<'a> FromDer<'a, Error> for Set<'a> {
    type GW = (Seq<u8>, bool);
    open spec fn sp_gw(&self) -> (Seq<u8>, bool) { (cow_seq(self.content), self.content is Borrowed) }
    open spec fn sp_from_der(b: Seq<u8>) -> Option<((Seq<u8>, bool), int)> { match set_der(b) { None => None, Some((v, n)) => Some(((v, true), n)) } }
//@fn src/from_der.rs | FromDer<'a,E> for T | from_der | key=P16
//@ret res
//@sigsub ParseResult<'a, T, E> ==> ParseResult<'a, Self, Error>
//@subst any\.try_into\(\) ==> Self::try_from_any(any)
//@subst <T as ==> <Self as
//@contract
//@ghost entry
    proof { lemma_obj(bytes@); }
//@endfn
}
impl<'a> Set<'a> {
//@fn src/asn1_types/set.rs | Set<'a> | from_der_and_then | key=P16
//@ret res
//@contract
    requires forall|x: &'a [u8]| #[trigger] op.requires((x,))
    ensures match set_der(bytes@) {
        None => res is Err,
        Some((c, n)) => exists|x: &'a [u8], q: ParseResult<'a, U, E>| x@ == c && #[trigger] op.ensures((x,), q) && match res {
            Ok((rem, v)) => q is Ok && q->Ok_0.1 == v && rem@ == bytes@.subrange(n, bytes@.len() as int),
            Err(_) => q is Err,
        },
    }
//@endfn
//@fn src/asn1_types/set.rs | Set<'a> | parse_der_and_then | key=P16+P19
//@ret res
//@contract
    requires input.wf(), forall|h: Header<'a>, x: Input<'a>| x.wf() ==> #[trigger] op.requires((h, x))
    ensures match der_obj(input.b()) {
        None => res is Err,
        Some(o) => if o.h.tag != Tag::Set { res is Err } else {
            exists|h: Header<'a>, x: Input<'a>, q: IResult<Input<'a>, O, E>| hv(&h) == o.h && x.wf() && input.sub(&x, o.start, o.start + o.len) && #[trigger] op.ensures((h, x), q) && match res {
                Ok((rem, v)) => q is Ok && q->Ok_0.1 == v && rem.wf() && input.sub(&rem, o.end, input.b().len() as int),
                Err(_) => q is Err,
            } },
    }
//@endfn
//@fn src/asn1_types/set.rs | Set<'a> | der_iter | key=P16
//@ret r
//@contract
    ensures r.data@ == cow_seq(self.content), !r.has_error
//@endfn
//@fn src/asn1_types/set.rs | Set<'a> | der_set_of | key=P16
//@ret res
//@attr #[verifier::exec_allows_no_decreases_clause]
//@contract
    ensures match res { Ok(v) => list_fder::<T, E>(cow_seq(self.content)) == Some(vals_fder::<T, E>(v@)), Err(_) => list_fder::<T, E>(cow_seq(self.content)) is None }
//@ghost loop0.before
    let ghost i0 = __itc0.data@;
    proof { lemma_pre(Seq::<T::GW>::empty(), arbitrary(), list_fder::<T, E>(i0)); assert(vals_fder::<T, E>(__vc0@) =~= Seq::<T::GW>::empty()); }
//@loop 0
    invariant_except_break
        __ec0 is None, !__itc0.has_error,
    invariant
        __ec0 is None ==> list_fder::<T, E>(i0) == pre(vals_fder::<T, E>(__vc0@), list_fder::<T, E>(__itc0.data@)),
        __ec0 is None ==> !__itc0.has_error,
    ensures
        __ec0 is None ==> __itc0.data@.len() == 0,
        __ec0 is Some ==> list_fder::<T, E>(i0) is None,
//@ghost loop0.begin
    let ghost ib = __itc0.data@; let ghost v0 = __vc0@;
    proof { assert(rest(ib, 0) =~= ib); if let Some((x, n)) = T::sp_from_der(ib) { lemma_pre(vals_fder::<T, E>(v0), x, list_fder::<T, E>(rest(ib, n))); } }
//@ghost loop0.end
    proof { if __ec0 is None { assert(vals_fder::<T, E>(__vc0@) =~= vals_fder::<T, E>(v0).push(__vc0@.last().sp_gw())); } }
//@ghost loop0.after
    proof { if __ec0 is None { assert(vals_fder::<T, E>(__vc0@) + Seq::<T::GW>::empty() =~= vals_fder::<T, E>(__vc0@)); } }
//@endfn
}

impl<'a> Set<'a> {
//@fn src/asn1_types/set.rs | Set<'a> | into_der_set_of_ref | key=P16
//@ret res
//@attr #[verifier::exec_allows_no_decreases_clause]
//@contract
    ensures match res { Ok(v) => list_fder::<T, E>(cow_seq(self.content)) == Some(vals_fder::<T, E>(v@)), Err(_) => self.content is Owned || list_fder::<T, E>(cow_seq(self.content)) is None }
//@ghost loop0.before
    let ghost i0 = __itc0.data@;
    proof { lemma_pre(Seq::<T::GW>::empty(), arbitrary(), list_fder::<T, E>(i0)); assert(vals_fder::<T, E>(__vc0@) =~= Seq::<T::GW>::empty()); }
//@loop 0
    invariant_except_break
        __ec0 is None, !__itc0.has_error,
    invariant
        __ec0 is None ==> list_fder::<T, E>(i0) == pre(vals_fder::<T, E>(__vc0@), list_fder::<T, E>(__itc0.data@)),
        __ec0 is None ==> !__itc0.has_error,
    ensures
        __ec0 is None ==> __itc0.data@.len() == 0,
        __ec0 is Some ==> list_fder::<T, E>(i0) is None,
//@ghost loop0.begin
    let ghost ib = __itc0.data@; let ghost v0 = __vc0@;
    proof { assert(rest(ib, 0) =~= ib); if let Some((x, n)) = T::sp_from_der(ib) { lemma_pre(vals_fder::<T, E>(v0), x, list_fder::<T, E>(rest(ib, n))); } }
//@ghost loop0.end
    proof { if __ec0 is None { assert(vals_fder::<T, E>(__vc0@) =~= vals_fder::<T, E>(v0).push(__vc0@.last().sp_gw())); } }
//@ghost loop0.after
    proof { if __ec0 is None { assert(vals_fder::<T, E>(__vc0@) + Seq::<T::GW>::empty() =~= vals_fder::<T, E>(__vc0@)); } }
//@endfn
}

impl<'a, T: BerContent<'a>, E: From<BerError<Input<'a>>> + From<T::Error>> SequenceIteratorInput<'a, T, BerMode, E> {
//@fn src/asn1_types/sequence/iterator.rs | Iterator for SequenceIteratorInput<'a,T,BerMode,E> | next | key=P16
//@ret res
//@sigsub Option<Self::Item> ==> Option<core::result::Result<T, E>>
//@contract
    requires old(self).iter.input.wf()
    ensures
        final(self).iter.input.wf(),
        match res {
            None => old(self).has_error || old(self).iter.has_error || old(self).iter.input.b().len() == 0,
            Some(Ok(v)) => !old(self).has_error && !final(self).has_error && (ber_obj_dec::<T>(old(self).iter.input.b()) matches Some((x, n)) && v.sp_val() == x
                && old(self).iter.input.sub(&final(self).iter.input, n, old(self).iter.input.b().len() as int)),
            Some(Err(_)) => !old(self).has_error && final(self).has_error && old(self).iter.input.b().len() > 0 && ber_obj_dec::<T>(old(self).iter.input.b()) is None,
        },
        final(self).has_error == (old(self).has_error || res matches Some(Err(_)))
//@endfn
}

impl<'a, T: DerContent<'a>, E: From<BerError<Input<'a>>> + From<T::Error>> SequenceIteratorInput<'a, T, DerMode, E> {
//@fn src/asn1_types/sequence/iterator.rs | Iterator for SequenceIteratorInput<'a,T,DerMode,E> | next | key=P16
//@ret res
//@sigsub Option<Self::Item> ==> Option<core::result::Result<T, E>>
//@contract
    requires old(self).iter.input.wf()
    ensures
        final(self).iter.input.wf(),
        match res {
            None => old(self).has_error || old(self).iter.has_error || old(self).iter.input.b().len() == 0,
            Some(Ok(v)) => !old(self).has_error && !final(self).has_error && (der_obj_dec::<T>(old(self).iter.input.b()) matches Some((x, n)) && v.sp_dval() == x
                && old(self).iter.input.sub(&final(self).iter.input, n, old(self).iter.input.b().len() as int)),
            Some(Err(_)) => !old(self).has_error && final(self).has_error && old(self).iter.input.b().len() > 0 && der_obj_dec::<T>(old(self).iter.input.b()) is None,
        },
        final(self).has_error == (old(self).has_error || res matches Some(Err(_)))
//@endfn
}

impl<I> BerError<I> {
//@fn src/error.rs | BerError<I> | incomplete
//@ret r
//@contract
//@endfn
}
impl<'a, T, E, Mode: ASN1Mode> SequenceIteratorInput<'a, T, Mode, E> {
//@fn src/asn1_types/sequence/iterator.rs | SequenceIteratorInput<'a,T,Mode,E> | new | key=P16
//@ret r
//@contract
    ensures r.iter.input == input, !r.iter.has_error, !r.has_error
//@endfn
}
}
