verus! {
// ------------------------------------------------------------------ Any, and the byte-slice entry points from_ber/from_der
//@item src/asn1_types/any.rs | struct Any
pub type ParseResult<'a, T, E = Error> = IResult<&'a [u8], T, E>;
impl Error {
    #[verifier::external_body]
    pub fn from_nom_berr(e: Err<BerError<Input<'_>>>) -> (r: Error) { unimplemented!() }
    #[verifier::external_body]
    pub fn unexpected_tag(expected: Option<Tag>, actual: Tag) -> (r: Error) { unimplemented!() }
}
impl Error {
    #[verifier::external_body]
    pub fn unexpected_class(expected: Option<Class>, class: Class) -> (r: Error) { unimplemented!() }
}
impl From<Err<Error>> for Error {
    #[verifier::external_body]
    fn from(e: Err<Error>) -> Self { unimplemented!() }
}
impl<'i> From<BerError<Input<'i>>> for Error {
    #[verifier::external_body]
    fn from(e: BerError<Input<'i>>) -> Self { unimplemented!() }
}
impl From<Error> for InnerError {
    #[verifier::external_body]
    fn from(e: Error) -> Self { unimplemented!() }
}
impl<'i> Input<'i> {
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.b() { unimplemented!() }
}

impl<'a> Any<'a> {
//@fn src/asn1_types/any.rs | Any<'a> | new | key=P08
//@ret r
//@contract
    ensures r.header == header, r.data == data
//@endfn
//@fn src/asn1_types/any.rs | Any<'a> | from_header_and_data | key=P08
//@ret r
//@contract
    ensures r.header == header, r.data.b() == data@, r.data.wf()
//@endfn
//@fn src/asn1_types/any.rs | Any<'a> | from_tag_and_data | key=P08
//@ret r
//@contract
    ensures r.data == data, hv(&r.header) == (HV { class: Class::Universal, cons: tag == Tag::Sequence || tag == Tag::Set, tag, len: Length::Definite(data.b().len() as usize) })
//@endfn
//@fn src/asn1_types/any.rs | Any<'a> | class
//@ret r
//@contract
    ensures r == self.header.class
//@endfn
//@fn src/asn1_types/any.rs | Any<'a> | tag
//@ret r
//@contract
    ensures r == self.header.tag
//@endfn
//@fn src/asn1_types/any.rs | Any<'a> | with_class
//@ret r
//@contract
    ensures r == (Any { header: Header { class, ..self.header }, data: self.data })
//@endfn
//@fn src/asn1_types/any.rs | Any<'a> | with_tag
//@ret r
//@contract
    ensures r == (Any { header: Header { tag, ..self.header }, data: self.data })
//@endfn
//@fn src/asn1_types/any.rs | Any<'_> | as_bytes
//@ret r
//@contract
    ensures r@ == self.data.b()
//@endfn
}
//@fn src/asn1_types/any.rs | parse_ber_any | key=P08
//@ret res
//@contract
    requires input.wf()
    ensures match res {
        Ok((rem, any)) => ber_obj(input.b()) matches Some(o) && hdr_matches(&any.header, hdr_spec(input.b())->Some_0, &input) && hv(&any.header) == o.h
            && rem.wf() && any.data.wf() && input.sub(&any.data, o.start, o.start + o.len) && input.sub(&rem, o.end, input.b().len() as int),
        Err(_) => ber_obj(input.b()) is None,
    }
//@ghost entry
    proof { lemma_obj(input.b()); lemma_hdr_bounds(input.b()); }
//@endfn
//@fn src/asn1_types/any.rs | parse_der_any | key=P08
//@ret res
//@contract
    requires input.wf()
    ensures match res {
        Ok((rem, any)) => der_obj(input.b()) matches Some(o) && hdr_matches(&any.header, hdr_spec(input.b())->Some_0, &input) && hv(&any.header) == o.h
            && rem.wf() && any.data.wf() && input.sub(&any.data, o.start, o.start + o.len) && input.sub(&rem, o.end, input.b().len() as int),
        Err(_) => der_obj(input.b()) is None,
    }
//@ghost entry
    proof { lemma_obj(input.b()); lemma_hdr_bounds(input.b()); }
//@endfn
//@fn src/from_ber.rs | wrap_ber_parser | key=P08
//@ret res
//@sigsub (mut f: F) -> impl FnMut(&'i [u8]) -> ParseResult<'i, T> ==> (f: F, i: &'i [u8]) -> ParseResult<'i, T>
//@sigsub F: FnMut ==> F: Fn
//@subst move\s*\|i: &\[u8\]\| ==> 
//@contract
    requires forall|x: Input<'i>| x.wf() ==> #[trigger] f.requires((x,))
    ensures exists|x: Input<'i>, o: IResult<Input<'i>, T, BerError<Input<'i>>>| x.wf() && x.span.start == 0 && x.b() == i@ && #[trigger] f.ensures((x,), o) && match res {
        Ok((rem, v)) => o matches Ok((r2, v2)) && r2.b() == rem@ && v2 == v,
        Err(_) => o is Err,
    }
//@endfn
impl<'i> Any<'i> {
//@fn src/asn1_types/any.rs | FromBer<'a> for Any<'a> | from_ber | key=P08
//@ret res
//@sigsub &'a ==> &'i
//@sigsub ParseResult<'a, ==> ParseResult<'i, 
//@contract
    ensures match res {
        Ok((rem, any)) => ber_obj(bytes@) matches Some(o) && 0 <= o.end <= bytes@.len() && hv(&any.header) == o.h && any.data.wf() && any.data.b() == obj_content(bytes@, o) && rem@ == bytes@.subrange(o.end, bytes@.len() as int),
        Err(_) => ber_obj(bytes@) is None,
    }
//@endfn
//@fn src/asn1_types/any.rs | FromDer<'a> for Any<'a> | from_der | key=P08
//@ret res
//@sigsub &'a ==> &'i
//@sigsub ParseResult<'a, ==> ParseResult<'i, 
//@contract
    ensures match res {
        Ok((rem, any)) => der_obj(bytes@) matches Some(o) && 0 <= o.end <= bytes@.len() && hv(&any.header) == o.h && any.data.wf() && any.data.b() == obj_content(bytes@, o) && rem@ == bytes@.subrange(o.end, bytes@.len() as int),
        Err(_) => der_obj(bytes@) is None,
    }
//@endfn
}
impl Any<'_> {
//@fn src/asn1_types/any.rs | Any<'_> | parse_ber_content | key=P06
//@ret res
//@contract
    requires i.wf()
    ensures match res {
        Ok((rem, c)) => content_spec(i.b(), hv(header), 8) matches Some((n, m)) && rem.wf() && c.wf() && i.sub(&c, 0, n) && i.sub(&rem, m, i.b().len() as int),
        Err(_) => content_spec(i.b(), hv(header), 8) is None,
    }
//@endfn
//@fn src/asn1_types/any.rs | Any<'_> | parse_der_content | key=P06
//@ret res
//@contract
    requires i.wf()
    ensures match res {
        Ok((rem, c)) => der_content_spec(i.b(), hv(header)) matches Some((n, m)) && rem.wf() && c.wf() && i.sub(&c, 0, n) && i.sub(&rem, m, i.b().len() as int),
        Err(_) => der_content_spec(i.b(), hv(header)) is None,
    }
//@endfn
}
impl<'a> Header<'a> {
//@fn src/header.rs | Header<'a> | parse_ber_content | key=P06
//@ret res
//@contract
    requires i.wf()
    ensures match res {
        Ok((rem, c)) => content_spec(i.b(), hv(self), 8) matches Some((n, m)) && rem.wf() && c.wf() && i.sub(&c, 0, n) && i.sub(&rem, m, i.b().len() as int),
        Err(_) => content_spec(i.b(), hv(self), 8) is None,
    }
//@endfn
//@fn src/header.rs | Header<'a> | parse_der_content | key=P06
//@ret res
//@contract
    requires i.wf()
    ensures match res {
        Ok((rem, c)) => der_content_spec(i.b(), hv(self)) matches Some((n, m)) && rem.wf() && c.wf() && i.sub(&c, 0, n) && i.sub(&rem, m, i.b().len() as int),
        Err(_) => der_content_spec(i.b(), hv(self)) is None,
    }
//@endfn
}
impl<'i> DynTagged for Any<'i> {
    open spec fn sp_accept(tag: Tag) -> bool { true }
    open spec fn sp_class(&self) -> Class { self.header.class }
    open spec fn sp_cons(&self) -> bool { self.header.constructed }
    open spec fn sp_tag(&self) -> Tag { self.header.tag }
//@fn src/asn1_types/any.rs | DynTagged for Any<'_> | class | key=P08
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/any.rs | DynTagged for Any<'_> | constructed | key=P08
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/any.rs | DynTagged for Any<'_> | tag | key=P08
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/any.rs | DynTagged for Any<'_> | accept_tag | key=P08
//@ret r
//@contract
//@endfn
}
pub struct AnyV { pub h: HV, pub c: Seq<u8> }
impl<'i> BerContent<'i> for Any<'i> {
    type Error = BerError<Input<'i>>;
    type V = AnyV;
    open spec fn sp_val(&self) -> AnyV { AnyV { h: hv(&self.header), c: self.data.b() } }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<AnyV> {
        match h.len { Length::Definite(l) => if l <= c.len() { Some(AnyV { h, c: c.subrange(0, l as int) }) } else { None }, Length::Indefinite => Some(AnyV { h, c }) }
    }
//@fn src/asn1_types/any.rs | BerParser<'i> for Any<'i> | from_ber_content | key=P08
//@ret res
//@contract
        ensures res matches Ok(v) ==> v.1.data.wf() && input.sub(&v.1.data, 0, match header.length { Length::Definite(l) => l as int, Length::Indefinite => input.b().len() as int })
//@endfn
}
impl<'i> DerContent<'i> for Any<'i> {
    type Error = BerError<Input<'i>>;
    type DV = AnyV;
    open spec fn sp_dval(&self) -> AnyV { AnyV { h: hv(&self.header), c: self.data.b() } }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<AnyV> {
        match der_content_spec(c, h) { Some((n, m)) => Some(AnyV { h, c: c.subrange(0, n) }), None => None }
    }
//@fn src/asn1_types/any.rs | DerParser<'i> for Any<'i> | from_der_content | key=P08
//@ret res
//@contract
        ensures res matches Ok(v) ==> v.1.data.wf() && (der_content_spec(input.b(), hv(header)) matches Some((n, m)) ==> input.sub(&v.1.data, 0, n))
//@endfn
}

// conversions of an Any (macro impl_tryfrom_any, verified once for every type) and the byte-slice entry points
pub trait VTryFrom<'i>: Sized {
    type Error;
    type W;
    spec fn sp_w(&self) -> Self::W;
    spec fn sp_try(h: HV, c: Seq<u8>) -> Option<Self::W>;
    fn try_from(any: Any<'i>) -> (res: core::result::Result<Self, Self::Error>)
        requires any.data.wf()
        ensures match res { Ok(v) => Self::sp_try(hv(&any.header), any.data.b()) == Some(v.sp_w()), Err(_) => Self::sp_try(hv(&any.header), any.data.b()) is None };
}
pub open spec fn try_spec<'i, T: BerContent<'i>>(h: HV, c: Seq<u8>) -> Option<T::V> { if !T::sp_accept(h.tag) { None } else { T::sp_ber(h, c) } }
impl<'i, T: BerContent<'i, Error = BerError<Input<'i>>>> VTryFrom<'i> for T {
    type Error = Error;
    type W = T::V;
    open spec fn sp_w(&self) -> T::V { self.sp_val() }
    open spec fn sp_try(h: HV, c: Seq<u8>) -> Option<T::V> { try_spec::<T>(h, c) }
//@fn src/asn1_types/any.rs | core::convert::TryFrom<Any<'i>> for T | try_from | key=P08 | macro=impl_tryfrom_any#0($lft:='i,$ty:=T)
//@ret res
//@contract
//@endfn
}
//@fn src/asn1_types/any.rs | core::convert::TryFrom<&'bAny<'i>> for T | try_from | key=P08 | macro=impl_tryfrom_any#0($lft:='i,$ty:=T) | rename=try_from_ref
//@generic 'b, 'i, T: BerContent<'i, Error = BerError<Input<'i>>>
//@ret res
//@contract
    requires any.data.wf()
    ensures match res { Ok(v) => try_spec::<T>(hv(&any.header), any.data.b()) == Some(v.sp_val()), Err(_) => try_spec::<T>(hv(&any.header), any.data.b()) is None }
//@endfn
pub open spec fn from_ber_spec<'i, T: VTryFrom<'i>>(b: Seq<u8>) -> Option<(T::W, int)> {
    match ber_obj(b) {
        None => None,
        Some(o) => match T::sp_try(o.h, obj_content(b, o)) { None => None, Some(v) => Some((v, o.end)) },
    }
}
//@fn src/from_ber.rs | FromBer<'a,E> for T | from_ber | key=P08 | rename=from_ber_default
//@generic 'a, E: From<Error>, T: VTryFrom<'a, Error = E>
//@ret res
//@subst any\s*\.try_into\(\) ==> T::try_from(any)
//@contract
    ensures match res {
        Ok((rem, v)) => from_ber_spec::<T>(bytes@) matches Some((w, n)) && v.sp_w() == w && rem@ == bytes@.subrange(n, bytes@.len() as int),
        Err(_) => from_ber_spec::<T>(bytes@) is None,
    }
//@endfn
pub trait CheckDerConstraints {
    spec fn sp_check(h: HV, c: Seq<u8>) -> bool;
    fn check_constraints(any: &Any) -> (res: Result<()>)
        ensures res is Ok == Self::sp_check(hv(&any.header), any.data.b());
}
pub open spec fn from_der_spec<'i, T: VTryFrom<'i> + CheckDerConstraints>(b: Seq<u8>) -> Option<(T::W, int)> {
    match der_obj(b) {
        None => None,
        Some(o) => if !T::sp_check(o.h, obj_content(b, o)) { None } else { match T::sp_try(o.h, obj_content(b, o)) { None => None, Some(v) => Some((v, o.end)) } },
    }
}
//@fn src/from_der.rs | FromDer<'a,E> for T | from_der | key=P08 | rename=from_der_default
//@generic 'a, E: From<Error>, T: VTryFrom<'a, Error = E> + CheckDerConstraints
//@ret res
//@subst any\s*\.try_into\(\) ==> T::try_from(any)
//@contract
    ensures match res {
        Ok((rem, v)) => from_der_spec::<T>(bytes@) matches Some((w, n)) && v.sp_w() == w && rem@ == bytes@.subrange(n, bytes@.len() as int),
        Err(_) => from_der_spec::<T>(bytes@) is None,
    }
//@endfn
// byte-slice interfaces as traits (their generic implementations are proved above)
pub trait FromBer<'a, E>: Sized {
    type FW;
    spec fn sp_fw(&self) -> Self::FW;
    spec fn sp_from_ber(b: Seq<u8>) -> Option<(Self::FW, int)>;
    fn from_ber(bytes: &'a [u8]) -> (res: ParseResult<'a, Self, E>)
        ensures match res {
            Ok((rem, v)) => Self::sp_from_ber(bytes@) matches Some((w, n)) && 0 <= n <= bytes@.len() && v.sp_fw() == w && rem@ == bytes@.subrange(n, bytes@.len() as int),
            Err(_) => Self::sp_from_ber(bytes@) is None,
        };
}
pub trait FromDer<'a, E>: Sized {
    type GW;
    spec fn sp_gw(&self) -> Self::GW;
    spec fn sp_from_der(b: Seq<u8>) -> Option<(Self::GW, int)>;
    fn from_der(bytes: &'a [u8]) -> (res: ParseResult<'a, Self, E>)
        ensures match res {
            Ok((rem, v)) => Self::sp_from_der(bytes@) matches Some((w, n)) && 0 <= n <= bytes@.len() && v.sp_gw() == w && rem@ == bytes@.subrange(n, bytes@.len() as int),
            Err(_) => Self::sp_from_der(bytes@) is None,
        };
}

impl CheckDerConstraints for Any<'_> {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { h.len is Definite }
//@fn src/asn1_types/any.rs | CheckDerConstraints for Any<'_> | check_constraints | key=P09
//@ret res
//@contract
//@endfn
}
}
