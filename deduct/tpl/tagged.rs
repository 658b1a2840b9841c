verus! {
// ------------------------------------------------------------------ tagged values (X.690 8.14)
//@item src/asn1_types/tagged.rs | enum Implicit | sub:{==>{ __Never
//@item src/asn1_types/tagged.rs | enum Explicit | sub:{==>{ __Never
//@item src/asn1_types/tagged.rs | struct TaggedValue
//@item src/asn1_types/tagged/parser.rs | struct TaggedParser
//@item src/asn1_types/tagged/optional.rs | struct OptTaggedParser

impl From<u32> for Tag {
    #[verifier::external_body]
    fn from(e: u32) -> Self { unimplemented!() }
}
#[verifier::allow(undeclared_external_trait)]

impl Class {
//@fn src/class.rs | Class | new_unwrap | key=P15
//@ret r
//@contract
    requires value < 4
    ensures r == spec_class(value as int)
//@endfn
}
impl<T, E, const CLASS: u8, const TAG: u32> TaggedValue<T, E, Explicit, CLASS, TAG> {
//@fn src/asn1_types/tagged.rs | TaggedValue<T,E,Explicit,CLASS,TAG> | explicit | key=P15
//@ret r
//@contract
    ensures r.inner == inner
//@endfn
}
impl<T, E, const CLASS: u8, const TAG: u32> TaggedValue<T, E, Implicit, CLASS, TAG> {
//@fn src/asn1_types/tagged.rs | TaggedValue<T,E,Implicit,CLASS,TAG> | implicit | key=P15
//@ret r
//@contract
    ensures r.inner == inner
//@endfn
}
impl<T, E, const CLASS: u8, const TAG: u32> Tagged for TaggedValue<T, E, Explicit, CLASS, TAG> {
//@consts src/asn1_types/tagged/explicit.rs | Tagged for TaggedValue<T,E,Explicit,CLASS,TAG> | external
}
pub axiom fn axiom_explicit_consts<T, E, const CLASS: u8, const TAG: u32>()
    ensures <TaggedValue<T, E, Explicit, CLASS, TAG> as Tagged>::TAG ==
//@constexpr src/asn1_types/tagged/explicit.rs | Tagged for TaggedValue<T,E,Explicit,CLASS,TAG> | TAG
    , CLASS < 4 ==> <TaggedValue<T, E, Explicit, CLASS, TAG> as Tagged>::CLASS ==
//@constexpr src/asn1_types/tagged/explicit.rs | Tagged for TaggedValue<T,E,Explicit,CLASS,TAG> | CLASS | sub:Class::new_unwrap(CLASS)==>spec_class(CLASS as int)
    ;
pub proof fn lemma_explicit_tagging<T, E, const CLASS: u8, const TAG: u32>()
    requires CLASS < 4
    ensures
        <TaggedValue<T, E, Explicit, CLASS, TAG> as Tagged>::TAG == Tag(TAG),
        <TaggedValue<T, E, Explicit, CLASS, TAG> as Tagged>::CLASS == spec_class(CLASS as int),
        <TaggedValue<T, E, Explicit, CLASS, TAG> as Tagged>::CONSTRUCTED,
{ axiom_explicit_consts::<T, E, CLASS, TAG>(); }

impl<T: DynTagged, E, const CLASS: u8, const TAG: u32> DynTagged for TaggedValue<T, E, Implicit, CLASS, TAG> {
    open spec fn sp_accept(tag: Tag) -> bool { tag.0 == TAG }
    open spec fn sp_class(&self) -> Class { if CLASS < 4 { spec_class(CLASS as int) } else { Class::Private } }
    open spec fn sp_cons(&self) -> bool { self.inner.sp_cons() }
    open spec fn sp_tag(&self) -> Tag { Tag(TAG) }
//@fn src/asn1_types/tagged/implicit.rs | DynTagged for TaggedValue<T,E,Implicit,CLASS,TAG> | class | key=P15
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/tagged/implicit.rs | DynTagged for TaggedValue<T,E,Implicit,CLASS,TAG> | constructed | key=P15
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/tagged/implicit.rs | DynTagged for TaggedValue<T,E,Implicit,CLASS,TAG> | tag | key=P15
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/tagged/implicit.rs | DynTagged for TaggedValue<T,E,Implicit,CLASS,TAG> | accept_tag | key=P15
//@ret r
//@contract
//@endfn
}
impl<'i, T: BerParser<'i>, E, const CLASS: u8, const TAG: u32> BerContent<'i> for TaggedValue<T, E, Explicit, CLASS, TAG> {
    type Error = T::Error;
    type V = T::V;
    open spec fn sp_val(&self) -> T::V { self.inner.sp_val() }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<T::V> {
        if !h.cons || class_num(h.class) != CLASS || h.tag != Tag(TAG) { None }
        else { match T::sp_parse_ber(c) { None => None, Some((v, n)) => Some(v) } }
    }
//@fn src/asn1_types/tagged/explicit.rs | BerParser<'i> for TaggedValue<T,E,Explicit,CLASS,TAG> | from_ber_content | key=P15
//@ret res
//@contract
//@ghost entry
        proof { axiom_explicit_consts::<T, E, CLASS, TAG>(); }
//@endfn
}
impl<'i, T: BerParser<'i>, E, const CLASS: u8, const TAG: u32> BerContent<'i> for TaggedValue<T, E, Implicit, CLASS, TAG> {
    type Error = T::Error;
    type V = T::V;
    open spec fn sp_val(&self) -> T::V { self.inner.sp_val() }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<T::V> {
        if class_num(h.class) != CLASS { None } else { T::sp_ber(h, c) }
    }
//@fn src/asn1_types/tagged/implicit.rs | BerParser<'i> for TaggedValue<T,E,Implicit,CLASS,TAG> | from_ber_content | key=P15
//@ret res
//@contract
//@endfn
}
impl<'i, T: DerParser<'i>, E, const CLASS: u8, const TAG: u32> DerContent<'i> for TaggedValue<T, E, Explicit, CLASS, TAG> {
    type Error = T::Error;
    type DV = T::DV;
    open spec fn sp_dval(&self) -> T::DV { self.inner.sp_dval() }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<T::DV> {
        if !h.cons || class_num(h.class) != CLASS || h.tag != Tag(TAG) { None }
        else { match T::sp_parse_der(c) { None => None, Some((v, n)) => Some(v) } }
    }
//@fn src/asn1_types/tagged/explicit.rs | DerParser<'i> for TaggedValue<T,E,Explicit,CLASS,TAG> | from_der_content | key=P15
//@ret res
//@contract
//@ghost entry
        proof { axiom_explicit_consts::<T, E, CLASS, TAG>(); }
//@endfn
}
impl<'i, T: DerParser<'i>, E, const CLASS: u8, const TAG: u32> DerContent<'i> for TaggedValue<T, E, Implicit, CLASS, TAG> {
    type Error = T::Error;
    type DV = T::DV;
    open spec fn sp_dval(&self) -> T::DV { self.inner.sp_dval() }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<T::DV> {
        if class_num(h.class) != CLASS { None } else { T::sp_der(h, c) }
    }
//@fn src/asn1_types/tagged/implicit.rs | DerParser<'i> for TaggedValue<T,E,Implicit,CLASS,TAG> | from_der_content | key=P15
//@ret res
//@contract
//@endfn
}
pub open spec fn exp_try<'a, T: FromBer<'a, E>, E>(h: HV, c: Seq<u8>, class: u8, tag: u32) -> Option<T::FW> {
    if h.tag != Tag(tag) || !h.cons || class_num(h.class) != class { None } else { match T::sp_from_ber(c) { None => None, Some((v, n)) => Some(v) } }
}
/// the header the type would have without the implicit tag
pub open spec fn retag(h: HV, tag: Tag) -> HV { HV { tag, ..h } }
pub open spec fn imp_try<'a, T: VTryFrom<'a> + Tagged>(h: HV, c: Seq<u8>, class: u8, tag: u32) -> Option<T::W> {
    if h.tag != Tag(tag) || class_num(h.class) != class { None } else { T::sp_try(retag(h, T::TAG), c) }
}
impl<'a, T: FromBer<'a, E>, E: From<Error>, const CLASS: u8, const TAG: u32> TaggedValue<T, E, Explicit, CLASS, TAG> {
//@fn src/asn1_types/tagged/explicit.rs | TryFrom<Any<'a>> for TaggedValue<T,E,Explicit,CLASS,TAG> | try_from | key=P15 | rename=try_from_any
//@ret res
//@contract
    requires any.data.wf()
    ensures match res { Ok(v) => exp_try::<T, E>(hv(&any.header), any.data.b(), CLASS, TAG) == Some(v.inner.sp_fw()), Err(_) => exp_try::<T, E>(hv(&any.header), any.data.b(), CLASS, TAG) is None }
//@endfn
//@fn src/asn1_types/tagged/explicit.rs | TryFrom<&'b Any<'a>> for TaggedValue<T,E,Explicit,CLASS,TAG> | try_from | key=P15
//@ret res
//@sigsub &'b Any ==> &Any
//@contract
    requires any.data.wf()
    ensures match res { Ok(v) => exp_try::<T, E>(hv(&any.header), any.data.b(), CLASS, TAG) == Some(v.inner.sp_fw()), Err(_) => exp_try::<T, E>(hv(&any.header), any.data.b(), CLASS, TAG) is None }
//@endfn
}
impl<'a, T: VTryFrom<'a, Error = E> + Tagged, E: From<Error>, const CLASS: u8, const TAG: u32> TaggedValue<T, E, Implicit, CLASS, TAG> {
//@fn src/asn1_types/tagged/implicit.rs | TryFrom<Any<'a>> for TaggedValue<T,E,Implicit,CLASS,TAG> | try_from | key=P15 | rename=try_from_any
//@ret res
//@subst TryFrom::try_from ==> Self::try_from
//@contract
    requires any.data.wf()
    ensures match res { Ok(v) => imp_try::<T>(hv(&any.header), any.data.b(), CLASS, TAG) == Some(v.inner.sp_w()), Err(_) => imp_try::<T>(hv(&any.header), any.data.b(), CLASS, TAG) is None }
//@endfn
//@fn src/asn1_types/tagged/implicit.rs | TryFrom<&'b Any<'a>> for TaggedValue<T,E,Implicit,CLASS,TAG> | try_from | key=P15
//@ret res
//@sigsub &'b Any ==> &Any
//@contract
    requires any.data.wf()
    ensures match res { Ok(v) => imp_try::<T>(hv(&any.header), any.data.b(), CLASS, TAG) == Some(v.inner.sp_w()), Err(_) => imp_try::<T>(hv(&any.header), any.data.b(), CLASS, TAG) is None }
//@endfn
}
impl<'a, T: FromDer<'a, E>, E: From<Error>, const CLASS: u8, const TAG: u32> TaggedValue<T, E, Explicit, CLASS, TAG> {
//@fn src/asn1_types/tagged/explicit.rs | FromDer<'a,E> for TaggedValue<T,E,Explicit,CLASS,TAG> | from_der | key=P15
//@ret res
//@contract
    ensures match res {
        Ok((rem, v)) => der_obj(bytes@) matches Some(o) && o.h.tag == Tag(TAG) && o.h.cons && class_num(o.h.class) == CLASS
            && T::sp_from_der(obj_content(bytes@, o)) is Some && v.inner.sp_gw() == T::sp_from_der(obj_content(bytes@, o))->Some_0.0 && rem@ == bytes@.subrange(o.end, bytes@.len() as int),
        Err(_) => match der_obj(bytes@) { None => true, Some(o) => o.h.tag != Tag(TAG) || !o.h.cons || class_num(o.h.class) != CLASS || T::sp_from_der(obj_content(bytes@, o)) is None },
    }
//@endfn
}
impl<'a, T: VTryFrom<'a, Error = E> + Tagged, E: From<Error>, const CLASS: u8, const TAG: u32> TaggedValue<T, E, Implicit, CLASS, TAG> {
//@fn src/asn1_types/tagged/implicit.rs | FromDer<'a,E> for TaggedValue<T,E,Implicit,CLASS,TAG> | from_der | key=P15
//@ret res
//@contract
    ensures match res {
        Ok((rem, v)) => der_obj(bytes@) matches Some(o) && imp_try::<T>(o.h, obj_content(bytes@, o), CLASS, TAG) == Some(v.inner.sp_w()) && rem@ == bytes@.subrange(o.end, bytes@.len() as int),
        Err(_) => match der_obj(bytes@) { None => true, Some(o) => imp_try::<T>(o.h, obj_content(bytes@, o), CLASS, TAG) is None },
    }
//@endfn
}
impl<T: CheckDerConstraints, E, const CLASS: u8, const TAG: u32> CheckDerConstraints for TaggedValue<T, E, Explicit, CLASS, TAG> {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { h.len is Definite && (ber_obj(c) matches Some(o) && T::sp_check(o.h, obj_content(c, o))) }
//@fn src/asn1_types/tagged/explicit.rs | CheckDerConstraints for TaggedValue<T,E,Explicit,CLASS,TAG> | check_constraints | key=P15
//@ret res
//@contract
//@endfn
}
impl<T: CheckDerConstraints + Tagged, E, const CLASS: u8, const TAG: u32> CheckDerConstraints for TaggedValue<T, E, Implicit, CLASS, TAG> {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { h.len is Definite && T::sp_check(retag(h, T::TAG), c) }
//@fn src/asn1_types/tagged/implicit.rs | CheckDerConstraints for TaggedValue<T,E,Implicit,CLASS,TAG> | check_constraints | key=P15
//@ret res
//@contract
//@endfn
}

// ------------------------------------------------------------------ TaggedParser
impl<'a, TagKind, T, E> TaggedParser<'a, TagKind, T, E> {
//@fn src/asn1_types/tagged/parser.rs | TaggedParser<'a,TagKind,T,E> | new | key=P15
//@ret r
//@contract
    ensures r.header == header, r.inner == inner
//@endfn
//@fn src/asn1_types/tagged/parser.rs | TaggedParser<'a,TagKind,T,E> | assert_class | key=P15
//@ret r
//@contract
    ensures r is Ok == (self.header.class == class)
//@endfn
//@fn src/asn1_types/tagged/parser.rs | TaggedParser<'a,TagKind,T,E> | assert_tag | key=P15
//@ret r
//@contract
    ensures r is Ok == (self.header.tag == tag)
//@endfn
//@fn src/asn1_types/tagged/parser.rs | TaggedParser<'a,TagKind,T,E> | class | key=P15
//@ret r
//@contract
    ensures r == self.header.class
//@endfn
//@fn src/asn1_types/tagged/parser.rs | TaggedParser<'a,TagKind,T,E> | tag | key=P15
//@ret r
//@contract
    ensures r == self.header.tag
//@endfn
}
impl<TagKind, T, E> DynTagged for TaggedParser<'_, TagKind, T, E> {
    open spec fn sp_accept(tag: Tag) -> bool { true }
    open spec fn sp_class(&self) -> Class { self.header.class }
    open spec fn sp_cons(&self) -> bool { self.header.constructed }
    open spec fn sp_tag(&self) -> Tag { self.header.tag }
//@fn src/asn1_types/tagged/parser.rs | DynTagged for TaggedParser<'_,TagKind,T,E> | class | key=P15
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/tagged/parser.rs | DynTagged for TaggedParser<'_,TagKind,T,E> | constructed | key=P15
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/tagged/parser.rs | DynTagged for TaggedParser<'_,TagKind,T,E> | tag | key=P15
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/tagged/parser.rs | DynTagged for TaggedParser<'_,TagKind,T,E> | accept_tag | key=P15
//@ret r
//@contract
//@endfn
}
impl<'a, T: FromBer<'a, E>, E: From<Error>> FromBer<'a, E> for TaggedParser<'a, Explicit, T, E> {
    type FW = (HV, T::FW);
    open spec fn sp_fw(&self) -> (HV, T::FW) { (hv(&self.header), self.inner.sp_fw()) }
    open spec fn sp_from_ber(b: Seq<u8>) -> Option<((HV, T::FW), int)> {
        match ber_obj(b) { None => None, Some(o) => if !o.h.cons { None } else { match T::sp_from_ber(obj_content(b, o)) { None => None, Some((w, n)) => Some(((o.h, w), o.end)) } } }
    }
//@fn src/asn1_types/tagged/explicit.rs | FromBer<'a,E> for TaggedParser<'a,Explicit,T,E> | from_ber | key=P15
//@ret res
//@contract
//@endfn
}
impl<'a, T: VTryFrom<'a, Error = E> + Tagged, E: From<Error>> FromBer<'a, E> for TaggedParser<'a, Implicit, T, E> {
    type FW = (HV, T::W);
    open spec fn sp_fw(&self) -> (HV, T::W) { (hv(&self.header), self.inner.sp_w()) }
    open spec fn sp_from_ber(b: Seq<u8>) -> Option<((HV, T::W), int)> {
        match ber_obj(b) { None => None, Some(o) => { match T::sp_try(retag(o.h, T::TAG), obj_content(b, o)) { None => None, Some(w) => Some(((o.h, w), o.end)) } } }
    }
//@fn src/asn1_types/tagged/implicit.rs | FromBer<'a,E> for TaggedParser<'a,Implicit,T,E> | from_ber | key=P15
//@ret res
//@contract
//@endfn
}
impl<'a, TagKind, T, E: From<Error>> TaggedParser<'a, TagKind, T, E> where TaggedParser<'a, TagKind, T, E>: FromBer<'a, E> {
//@fn src/asn1_types/tagged/parser.rs | TaggedParser<'a,TagKind,T,E> | parse_ber | key=P15
//@ret res
//@contract
    ensures match res {
        Ok((rem, v)) => <Self as FromBer<'a, E>>::sp_from_ber(bytes@) matches Some((w, n)) && v.sp_fw() == w && v.header.class == class && v.header.tag == tag && rem@ == bytes@.subrange(n, bytes@.len() as int),
        Err(_) => <Self as FromBer<'a, E>>::sp_from_ber(bytes@) is None || exists|v: Self| <Self as FromBer<'a, E>>::sp_from_ber(bytes@)->Some_0.0 == #[trigger] v.sp_fw() && (v.header.class != class || v.header.tag != tag),
    }
//@endfn
}
impl<'a, T: FromDer<'a, E>, E: From<Error>> FromDer<'a, E> for TaggedParser<'a, Explicit, T, E> {
    type GW = (HV, T::GW);
    open spec fn sp_gw(&self) -> (HV, T::GW) { (hv(&self.header), self.inner.sp_gw()) }
    open spec fn sp_from_der(b: Seq<u8>) -> Option<((HV, T::GW), int)> {
        match der_obj(b) { None => None, Some(o) => if !o.h.cons { None } else { match T::sp_from_der(obj_content(b, o)) { None => None, Some((w, n)) => Some(((o.h, w), o.end)) } } }
    }
//@fn src/asn1_types/tagged/explicit.rs | FromDer<'a,E> for TaggedParser<'a,Explicit,T,E> | from_der | key=P15
//@ret res
//@contract
//@endfn
}
impl<'a, T: VTryFrom<'a, Error = E> + CheckDerConstraints + Tagged, E: From<Error>> FromDer<'a, E> for TaggedParser<'a, Implicit, T, E> {
    type GW = (HV, T::W);
    open spec fn sp_gw(&self) -> (HV, T::W) { (hv(&self.header), self.inner.sp_w()) }
    open spec fn sp_from_der(b: Seq<u8>) -> Option<((HV, T::W), int)> {
        match der_obj(b) { None => None, Some(o) => if !T::sp_check(retag(o.h, T::TAG), obj_content(b, o)) { None } else { match T::sp_try(retag(o.h, T::TAG), obj_content(b, o)) { None => None, Some(w) => Some(((o.h, w), o.end)) } } }
    }
//@fn src/asn1_types/tagged/implicit.rs | FromDer<'a,E> for TaggedParser<'a,Implicit,T,E> | from_der | key=P15
//@ret res
//@contract
//@endfn
}
impl<'a, TagKind, T, E: From<Error>> TaggedParser<'a, TagKind, T, E> where TaggedParser<'a, TagKind, T, E>: FromDer<'a, E> {
//@fn src/asn1_types/tagged/parser.rs | TaggedParser<'a,TagKind,T,E> | parse_der | key=P15
//@ret res
//@contract
    ensures match res {
        Ok((rem, v)) => <Self as FromDer<'a, E>>::sp_from_der(bytes@) matches Some((w, n)) && v.sp_gw() == w && v.header.class == class && v.header.tag == tag && rem@ == bytes@.subrange(n, bytes@.len() as int),
        Err(_) => <Self as FromDer<'a, E>>::sp_from_der(bytes@) is None || exists|v: Self| <Self as FromDer<'a, E>>::sp_from_der(bytes@)->Some_0.0 == #[trigger] v.sp_gw() && (v.header.class != class || v.header.tag != tag),
    }
//@endfn
}
impl<T: CheckDerConstraints> CheckDerConstraints for TaggedParser<'_, Explicit, T> {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { h.len is Definite && (der_obj(c) matches Some(o) && T::sp_check(o.h, obj_content(c, o))) }
//@fn src/asn1_types/tagged/explicit.rs | CheckDerConstraints for TaggedParser<'_,Explicit,T> | check_constraints | key=P15
//@ret res
//@contract
//@endfn
}
impl<T: CheckDerConstraints + Tagged> CheckDerConstraints for TaggedParser<'_, Implicit, T> {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { h.len is Definite && T::sp_check(retag(h, T::TAG), c) }
//@fn src/asn1_types/tagged/implicit.rs | CheckDerConstraints for TaggedParser<'_,Implicit,T> | check_constraints | key=P15
//@ret res
//@contract
//@endfn
}

// ------------------------------------------------------------------ optional tagged objects, and Any::from_*_and_then
impl OptTaggedParser {
//@fn src/asn1_types/tagged/optional.rs | OptTaggedParser | new | key=P17
//@ret r
//@contract
    ensures r.class == class, r.tag == tag
//@endfn
//@fn src/asn1_types/tagged/optional.rs | OptTaggedParser | universal | key=P17
//@ret r
//@contract
    ensures r.class == Class::Universal, r.tag == Tag(tag)
//@endfn
//@fn src/asn1_types/tagged/optional.rs | OptTaggedParser | tagged | key=P17
//@ret r
//@contract
    ensures r.class == Class::ContextSpecific, r.tag == Tag(tag)
//@endfn
//@fn src/asn1_types/tagged/optional.rs | OptTaggedParser | application | key=P17
//@ret r
//@contract
    ensures r.class == Class::Application, r.tag == Tag(tag)
//@endfn
//@fn src/asn1_types/tagged/optional.rs | OptTaggedParser | private | key=P17
//@ret r
//@contract
    ensures r.class == Class::Private, r.tag == Tag(tag)
//@endfn
//@fn src/asn1_types/tagged/optional.rs | OptTaggedParser | parse_ber | key=P17
//@ret res
//@contract
    requires forall|h: Header, d: &'a [u8]| #[trigger] f.requires((h, d))
    ensures match res {
        Ok((rem, None)) => rem@ == bytes@ && (bytes@.len() == 0 || (ber_obj(bytes@) matches Some(o) && o.h.tag != self.tag)),
        Ok((rem, Some(v))) => ber_obj(bytes@) matches Some(o) && o.h.tag == self.tag && o.h.class == self.class && rem@ == bytes@.subrange(o.end, bytes@.len() as int)
            && exists|h: Header<'a>, d: &'a [u8], q: ParseResult<'a, T, E>| hv(&h) == o.h && d@ == obj_content(bytes@, o) && #[trigger] f.ensures((h, d), q) && q is Ok && q->Ok_0.1 == v,
        Err(_) => bytes@.len() > 0 && match ber_obj(bytes@) { None => true, Some(o) => o.h.tag == self.tag && (o.h.class != self.class
            || exists|h: Header<'a>, d: &'a [u8], q: ParseResult<'a, T, E>| hv(&h) == o.h && d@ == obj_content(bytes@, o) && #[trigger] f.ensures((h, d), q) && q is Err) },
    }
//@endfn
//@fn src/asn1_types/tagged/optional.rs | OptTaggedParser | parse_der | key=P17
//@ret res
//@contract
    requires forall|h: Header, d: &'a [u8]| #[trigger] f.requires((h, d))
    ensures match res {
        Ok((rem, None)) => rem@ == bytes@ && (bytes@.len() == 0 || (der_obj(bytes@) matches Some(o) && o.h.tag != self.tag)),
        Ok((rem, Some(v))) => der_obj(bytes@) matches Some(o) && o.h.tag == self.tag && o.h.class == self.class && rem@ == bytes@.subrange(o.end, bytes@.len() as int)
            && exists|h: Header<'a>, d: &'a [u8], q: ParseResult<'a, T, E>| hv(&h) == o.h && d@ == obj_content(bytes@, o) && #[trigger] f.ensures((h, d), q) && q is Ok && q->Ok_0.1 == v,
        Err(_) => bytes@.len() > 0 && match der_obj(bytes@) { None => true, Some(o) => o.h.tag == self.tag && (o.h.class != self.class
            || exists|h: Header<'a>, d: &'a [u8], q: ParseResult<'a, T, E>| hv(&h) == o.h && d@ == obj_content(bytes@, o) && #[trigger] f.ensures((h, d), q) && q is Err) },
    }
//@endfn
}
impl<'a> Any<'a> {
//@fn src/asn1_types/any.rs | Any<'a> | from_ber_and_then | key=P15
//@ret res
//@contract
    requires forall|d: &'a [u8]| #[trigger] op.requires((d,))
    ensures match res {
        Ok((rem, v)) => ber_obj(bytes@) matches Some(o) && o.h.tag == Tag(tag) && o.h.class == class && rem@ == bytes@.subrange(o.end, bytes@.len() as int)
            && exists|d: &'a [u8], q: ParseResult<'a, T, E>| d@ == obj_content(bytes@, o) && #[trigger] op.ensures((d,), q) && q is Ok && q->Ok_0.1 == v,
        Err(_) => match ber_obj(bytes@) { None => true, Some(o) => o.h.tag != Tag(tag) || o.h.class != class
            || exists|d: &'a [u8], q: ParseResult<'a, T, E>| d@ == obj_content(bytes@, o) && #[trigger] op.ensures((d,), q) && q is Err },
    }
//@endfn
//@fn src/asn1_types/any.rs | Any<'a> | from_der_and_then | key=P15
//@ret res
//@contract
    requires forall|d: &'a [u8]| #[trigger] op.requires((d,))
    ensures match res {
        Ok((rem, v)) => der_obj(bytes@) matches Some(o) && o.h.tag == Tag(tag) && o.h.class == class && rem@ == bytes@.subrange(o.end, bytes@.len() as int)
            && exists|d: &'a [u8], q: ParseResult<'a, T, E>| d@ == obj_content(bytes@, o) && #[trigger] op.ensures((d,), q) && q is Ok && q->Ok_0.1 == v,
        Err(_) => match der_obj(bytes@) { None => true, Some(o) => o.h.tag != Tag(tag) || o.h.class != class
            || exists|d: &'a [u8], q: ParseResult<'a, T, E>| d@ == obj_content(bytes@, o) && #[trigger] op.ensures((d,), q) && q is Err },
    }
//@endfn
}
}
