verus! {
// ------------------------------------------------------------------ decoding of one object, for every type
pub trait DynTagged {
    /// the type accepts this tag number
    spec fn sp_accept(tag: Tag) -> bool;
    spec fn sp_class(&self) -> Class;
    spec fn sp_cons(&self) -> bool;
    spec fn sp_tag(&self) -> Tag;
    fn class(&self) -> (r: Class) ensures r == self.sp_class();
    fn constructed(&self) -> (r: bool) ensures r == self.sp_cons();
    fn tag(&self) -> (r: Tag) ensures r == self.sp_tag();
    fn accept_tag(tag: Tag) -> (r: bool) ensures r == Self::sp_accept(tag);
}

pub trait Tagged {
//@consts src/tag.rs | Tagged
}
impl<T> DynTagged for T where T: Tagged {
    open spec fn sp_accept(tag: Tag) -> bool { tag == T::TAG }
    open spec fn sp_class(&self) -> Class { T::CLASS }
    open spec fn sp_cons(&self) -> bool { T::CONSTRUCTED }
    open spec fn sp_tag(&self) -> Tag { T::TAG }
//@fn src/tag.rs | DynTagged for T | class | key=P08
//@ret r
//@contract
//@endfn
//@fn src/tag.rs | DynTagged for T | constructed | key=P08
//@ret r
//@contract
//@endfn
//@fn src/tag.rs | DynTagged for T | tag | key=P08
//@ret r
//@contract
//@endfn
//@fn src/tag.rs | DynTagged for T | accept_tag | key=P08
//@ret r
//@contract
//@endfn
}

/// (header, octets before the content, content octets, octets of the object)
pub struct Obj { pub h: HV, pub start: int, pub len: int, pub end: int }
pub open spec fn ber_obj(b: Seq<u8>) -> Option<Obj> {
    match hdr_spec(b) {
        None => None,
        Some(s) => match content_spec(b.subrange(s.octets, b.len() as int), shv(s), 50) {
            None => None,
            Some((n, m)) => Some(Obj { h: shv(s), start: s.octets, len: n, end: s.octets + m }),
        },
    }
}
pub open spec fn der_obj(b: Seq<u8>) -> Option<Obj> {
    match hdr_spec(b) {
        None => None,
        Some(s) => match der_content_spec(b.subrange(s.octets, b.len() as int), shv(s)) {
            None => None,
            Some((n, m)) => Some(Obj { h: shv(s), start: s.octets, len: n, end: s.octets + m }),
        },
    }
}
pub open spec fn obj_content(b: Seq<u8>, o: Obj) -> Seq<u8> { b.subrange(o.start, o.start + o.len) }

pub open spec fn ber_obj_dec<'i, T: BerContent<'i>>(b: Seq<u8>) -> Option<(T::V, int)> {
    match ber_obj(b) {
        None => None,
        Some(o) => if !T::sp_accept(o.h.tag) { None } else { match T::sp_ber(o.h, obj_content(b, o)) { None => None, Some(v) => Some((v, o.end)) } },
    }
}
pub open spec fn der_obj_dec<'i, T: DerContent<'i>>(b: Seq<u8>) -> Option<(T::DV, int)> {
    match der_obj(b) {
        None => None,
        Some(o) => if !T::sp_accept(o.h.tag) { None } else { match T::sp_der(o.h, obj_content(b, o)) { None => None, Some(v) => Some((v, o.end)) } },
    }
}
pub proof fn lemma_obj(b: Seq<u8>)
    ensures
        ber_obj(b) matches Some(o) ==> 2 <= o.start && 0 <= o.len && o.start + o.len <= o.end <= b.len(),
        der_obj(b) matches Some(o) ==> 2 <= o.start && 0 <= o.len && o.start + o.len <= o.end <= b.len(),
        der_obj(b) is Some ==> ber_obj(b) == der_obj(b),
{
    lemma_hdr_bounds(b);
    if let Some(s) = hdr_spec(b) {
        lemma_skip_bounds(b.subrange(s.octets, b.len() as int), shv(s), 50);
    }
}

/// optional: absent exactly if there is no octet left or the next tag is not accepted
pub open spec fn opt_ber_dec<'i, T: BerContent<'i>>(b: Seq<u8>) -> Option<(Option<T::V>, int)> {
    if b.len() == 0 { Some((None, 0)) }
    else { match hdr_spec(b) {
        None => None,
        Some(s) => if !T::sp_accept(shv(s).tag) { Some((None, 0)) } else { match ber_obj_dec::<T>(b) { None => None, Some((v, n)) => Some((Some(v), n)) } },
    } }
}
pub open spec fn opt_der_dec<'i, T: DerContent<'i>>(b: Seq<u8>) -> Option<(Option<T::DV>, int)> {
    if b.len() == 0 { Some((None, 0)) }
    else { match hdr_spec(b) {
        None => None,
        Some(s) => if s.len is None { None } else if !T::sp_accept(shv(s).tag) { Some((None, 0)) } else { match der_obj_dec::<T>(b) { None => None, Some((v, n)) => Some((Some(v), n)) } },
    } }
}
pub trait BerContent<'i>: Sized + DynTagged {
    type Error: From<BerError<Input<'i>>>;
    type V;
    /// abstract value
    spec fn sp_val(&self) -> Self::V;
    /// decoding of a content; None: refused
    spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<Self::V>;
    fn from_ber_content(header: &'_ Header<'i>, input: Input<'i>) -> (res: IResult<Input<'i>, Self, Self::Error>)
        requires input.wf()
        ensures match res {
            Ok((_, v)) => Self::sp_ber(hv(header), input.b()) == Some(v.sp_val()),
            Err(_) => Self::sp_ber(hv(header), input.b()) is None,
        };
}
pub trait BerParser<'i>: BerContent<'i> {
    /// decoding of the first object: value and octets used
    spec fn sp_parse_ber(b: Seq<u8>) -> Option<(Self::V, int)>;
    fn parse_ber(input: Input<'i>) -> (res: IResult<Input<'i>, Self, Self::Error>)
        requires input.wf()
        ensures match res {
            Ok((rem, v)) => Self::sp_parse_ber(input.b()) matches Some((w, n)) && v.sp_val() == w && rem.wf() && input.sub(&rem, n, input.b().len() as int),
            Err(_) => Self::sp_parse_ber(input.b()) is None,
        };
}
//@fn src/from_ber.rs | BerParser<'i> | parse_ber | key=P08 | rename=parse_ber_default
//@generic 'i, T: BerContent<'i>
//@ret res
//@contract
    requires input.wf()
    ensures match res {
        Ok((rem, v)) => ber_obj_dec::<T>(input.b()) matches Some((w, n)) && v.sp_val() == w && rem.wf() && input.sub(&rem, n, input.b().len() as int),
        Err(_) => ber_obj_dec::<T>(input.b()) is None,
    }
//@ghost entry
    proof { lemma_obj(input.b()); lemma_hdr_bounds(input.b()); }
//@endfn
//@fn src/from_ber.rs | BerParser<'i> | parse_ber_optional | key=P17 | rename=parse_ber_optional_default
//@generic 'i, T: BerContent<'i>
//@ret res
//@contract
    requires input.wf()
    ensures match res {
        Ok((rem, None)) => opt_ber_dec::<T>(input.b()) == Some((None::<T::V>, 0int)) && rem == input,
        Ok((rem, Some(v))) => opt_ber_dec::<T>(input.b()) matches Some((w, n)) && w == Some(v.sp_val()) && rem.wf() && input.sub(&rem, n, input.b().len() as int),
        Err(_) => opt_ber_dec::<T>(input.b()) is None,
    }
//@ghost entry
    proof { lemma_obj(input.b()); lemma_hdr_bounds(input.b()); }
//@endfn
//@fn src/from_ber.rs | BerParser<'i> | parse_ber_as_input | key=P08 | rename=parse_ber_as_input_default
//@generic 'i, T: BerContent<'i>
//@ret res
//@contract
    requires input.wf()
    ensures match res {
        Ok((rem, (h, c))) => ber_obj(input.b()) matches Some(o) && T::sp_accept(o.h.tag) && hdr_matches(&h, hdr_spec(input.b())->Some_0, &input) && hv(&h) == o.h
            && rem.wf() && c.wf() && input.sub(&c, o.start, o.start + o.len) && input.sub(&rem, o.end, input.b().len() as int),
        Err(_) => ber_obj(input.b()) is None || !T::sp_accept(ber_obj(input.b())->Some_0.h.tag),
    }
//@ghost entry
    proof { lemma_obj(input.b()); lemma_hdr_bounds(input.b()); }
//@endfn
pub trait DerContent<'i>: Sized + DynTagged {
    type Error: From<BerError<Input<'i>>>;
    type DV;
    /// abstract value
    spec fn sp_dval(&self) -> Self::DV;
    /// decoding of a content; None: refused
    spec fn sp_der(h: HV, c: Seq<u8>) -> Option<Self::DV>;
    fn from_der_content(header: &'_ Header<'i>, input: Input<'i>) -> (res: IResult<Input<'i>, Self, Self::Error>)
        requires input.wf()
        ensures match res {
            Ok((_, v)) => Self::sp_der(hv(header), input.b()) == Some(v.sp_dval()),
            Err(_) => Self::sp_der(hv(header), input.b()) is None,
        };
}
pub trait DerParser<'i>: DerContent<'i> {
    /// decoding of the first object: value and octets used
    spec fn sp_parse_der(b: Seq<u8>) -> Option<(Self::DV, int)>;
    fn parse_der(input: Input<'i>) -> (res: IResult<Input<'i>, Self, Self::Error>)
        requires input.wf()
        ensures match res {
            Ok((rem, v)) => Self::sp_parse_der(input.b()) matches Some((w, n)) && v.sp_dval() == w && rem.wf() && input.sub(&rem, n, input.b().len() as int),
            Err(_) => Self::sp_parse_der(input.b()) is None,
        };
}
//@fn src/from_der.rs | DerParser<'i> | parse_der | key=P08 | rename=parse_der_default
//@generic 'i, T: DerContent<'i>
//@ret res
//@contract
    requires input.wf()
    ensures match res {
        Ok((rem, v)) => der_obj_dec::<T>(input.b()) matches Some((w, n)) && v.sp_dval() == w && rem.wf() && input.sub(&rem, n, input.b().len() as int),
        Err(_) => der_obj_dec::<T>(input.b()) is None,
    }
//@ghost entry
    proof { lemma_obj(input.b()); lemma_hdr_bounds(input.b()); }
//@endfn
//@fn src/from_der.rs | DerParser<'i> | parse_der_optional | key=P17 | rename=parse_der_optional_default
//@generic 'i, T: DerContent<'i>
//@ret res
//@contract
    requires input.wf()
    ensures match res {
        Ok((rem, None)) => opt_der_dec::<T>(input.b()) == Some((None::<T::DV>, 0int)) && rem == input,
        Ok((rem, Some(v))) => opt_der_dec::<T>(input.b()) matches Some((w, n)) && w == Some(v.sp_dval()) && rem.wf() && input.sub(&rem, n, input.b().len() as int),
        Err(_) => opt_der_dec::<T>(input.b()) is None,
    }
//@ghost entry
    proof { lemma_obj(input.b()); lemma_hdr_bounds(input.b()); }
//@endfn
//@fn src/from_der.rs | DerParser<'i> | parse_der_as_input | key=P08 | rename=parse_der_as_input_default
//@generic 'i, T: DerContent<'i>
//@ret res
//@contract
    requires input.wf()
    ensures match res {
        Ok((rem, (h, c))) => der_obj(input.b()) matches Some(o) && T::sp_accept(o.h.tag) && hdr_matches(&h, hdr_spec(input.b())->Some_0, &input) && hv(&h) == o.h
            && rem.wf() && c.wf() && input.sub(&c, o.start, o.start + o.len) && input.sub(&rem, o.end, input.b().len() as int),
        Err(_) => der_obj(input.b()) is None || !T::sp_accept(der_obj(input.b())->Some_0.h.tag),
    }
//@ghost entry
    proof { lemma_obj(input.b()); lemma_hdr_bounds(input.b()); }
//@endfn

// ------------------------------------------------------------------ Option<T>
impl<T: DynTagged> DynTagged for Option<T> {
    open spec fn sp_accept(tag: Tag) -> bool { T::sp_accept(tag) }
    open spec fn sp_class(&self) -> Class { match self { Some(t) => t.sp_class(), None => Class::Universal } }
    open spec fn sp_cons(&self) -> bool { match self { Some(t) => t.sp_cons(), None => false } }
    open spec fn sp_tag(&self) -> Tag { match self { Some(t) => t.sp_tag(), None => Tag(0) } }
//@fn src/asn1_types/optional.rs | DynTagged for Option<T> | class | key=P17
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/optional.rs | DynTagged for Option<T> | constructed | key=P17
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/optional.rs | DynTagged for Option<T> | tag | key=P17
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/optional.rs | DynTagged for Option<T> | accept_tag | key=P17
//@ret r
//@contract
//@endfn
}
impl<'a, T: BerContent<'a>> BerContent<'a> for Option<T> {
    type Error = T::Error;
    type V = Option<T::V>;
    open spec fn sp_val(&self) -> Option<T::V> { match self { Some(t) => Some(t.sp_val()), None => None } }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<Option<T::V>> {
        if !T::sp_accept(h.tag) { Some(None) } else { match T::sp_ber(h, c) { None => None, Some(v) => Some(Some(v)) } }
    }
//@fn src/asn1_types/optional.rs | BerParser<'a> for Option<T> | from_ber_content | key=P17
//@ret res
//@contract
//@endfn
}
impl<'a, T: BerContent<'a>> BerParser<'a> for Option<T> {
    open spec fn sp_parse_ber(b: Seq<u8>) -> Option<(Option<T::V>, int)> { opt_ber_dec::<T>(b) }
//@fn src/asn1_types/optional.rs | BerParser<'a> for Option<T> | parse_ber | key=P17
//@ret res
//@contract
//@ghost entry
        proof { lemma_obj(input.b()); lemma_hdr_bounds(input.b()); }
//@endfn
}
impl<'a, T: DerContent<'a>> DerContent<'a> for Option<T> {
    type Error = T::Error;
    type DV = Option<T::DV>;
    open spec fn sp_dval(&self) -> Option<T::DV> { match self { Some(t) => Some(t.sp_dval()), None => None } }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<Option<T::DV>> {
        if !T::sp_accept(h.tag) { Some(None) } else { match T::sp_der(h, c) { None => None, Some(v) => Some(Some(v)) } }
    }
//@fn src/asn1_types/optional.rs | DerParser<'a> for Option<T> | from_der_content | key=P17
//@ret res
//@contract
//@endfn
}
impl<'a, T: DerContent<'a>> DerParser<'a> for Option<T> {
    open spec fn sp_parse_der(b: Seq<u8>) -> Option<(Option<T::DV>, int)> { opt_der_dec::<T>(b) }
//@fn src/asn1_types/optional.rs | DerParser<'a> for Option<T> | parse_der | key=P17
//@ret res
//@contract
//@ghost entry
        proof { lemma_obj(input.b()); lemma_hdr_bounds(input.b()); }
//@endfn
}
}
