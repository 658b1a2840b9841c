verus! {
// ------------------------------------------------------------------ iteration over the elements of constructed values
pub trait ASN1Mode {}
impl ASN1Mode for BerMode {}
impl ASN1Mode for DerMode {}
//@item src/asn1_types/iterator.rs | struct AnyIterator | sub:*const Mode==>Mode
//@item src/asn1_types/sequence/iterator.rs | struct SequenceIterator
//@item src/asn1_types/sequence/iterator.rs | struct SequenceIteratorInput | sub:*const T==>T | sub:*const E==>E
//@item src/asn1_types/set/iterator.rs | type SetIterator
//@item src/asn1_types/sequence/sequence_of.rs | struct SequenceOf
//@item src/asn1_types/set/set_of.rs | struct SetOf
//@item src/asn1_types/sequence/any_sequence.rs | struct AnySequence
//@item src/asn1_types/sequence.rs | struct Sequence
//@item src/asn1_types/set.rs | struct Set

/// p followed by r
pub open spec fn pre<X>(p: Seq<X>, r: Option<Seq<X>>) -> Option<Seq<X>> { match r { None => None, Some(q) => Some(p + q) } }
pub proof fn lemma_pre<X>(p: Seq<X>, x: X, r: Option<Seq<X>>)
    ensures pre(p, pre(seq![x], r)) == pre(p.push(x), r), pre(Seq::<X>::empty(), r) == r
{
    if let Some(q) = r { assert(p + (seq![x] + q) =~= p.push(x) + q); assert(Seq::<X>::empty() + q =~= q); }
}
pub open spec fn rest(b: Seq<u8>, n: int) -> Seq<u8> { b.subrange(n, b.len() as int) }

/// values of a series of objects, all of which must decode
pub open spec fn list_fber<'a, T: FromBer<'a, E>, E>(b: Seq<u8>) -> Option<Seq<T::FW>>
    decreases b.len()
{
    if b.len() == 0 { Some(Seq::empty()) }
    else { match T::sp_from_ber(b) { None => None, Some((v, n)) => if n <= 0 || n > b.len() { None } else { pre(seq![v], list_fber::<T, E>(rest(b, n))) } } }
}
pub open spec fn vals_fber<'a, T: FromBer<'a, E>, E>(v: Seq<T>) -> Seq<T::FW> { v.map_values(|x: T| x.sp_fw()) }
pub open spec fn list_ber<'a, T: BerContent<'a>>(b: Seq<u8>) -> Option<Seq<T::V>>
    decreases b.len()
{
    if b.len() == 0 { Some(Seq::empty()) }
    else { match ber_obj_dec::<T>(b) { None => None, Some((v, n)) => if n <= 0 || n > b.len() { None } else { pre(seq![v], list_ber::<T>(rest(b, n))) } } }
}
pub open spec fn vals_ber<'a, T: BerContent<'a>>(v: Seq<T>) -> Seq<T::V> { v.map_values(|x: T| x.sp_val()) }
impl<'i> Any<'i> {
//@fn src/from_ber.rs | BerParser<'i> | parse_ber | key=P19+P16
//@ret res
//@sigsub Self::Error ==> BerError<Input<'i>>
//@contract
    requires input.wf()
    ensures match res {
        Ok((rem, any)) => ber_obj(input.b()) matches Some(o) && hv(&any.header) == o.h && rem.wf() && any.data.wf()
            && input.sub(&any.data, o.start, o.start + o.len) && input.sub(&rem, o.end, input.b().len() as int),
        Err(_) => ber_obj(input.b()) is None,
    }
//@ghost entry
    proof { lemma_obj(input.b()); lemma_hdr_bounds(input.b()); }
//@endfn
}
impl<'i> FromBer<'i, Error> for Any<'i> {
    type FW = AnyV;
    open spec fn sp_fw(&self) -> AnyV { AnyV { h: hv(&self.header), c: self.data.b() } }
    open spec fn sp_from_ber(b: Seq<u8>) -> Option<(AnyV, int)> { match ber_obj(b) { None => None, Some(o) => Some((AnyV { h: o.h, c: obj_content(b, o) }, o.end)) } }
//@fn src/asn1_types/any.rs | FromBer<'a> for Any<'a> | from_ber | key=P08
//@ret res
//@sigsub &'a ==> &'i
//@sigsub ParseResult<'a, Self> ==> (ParseResult<'i, Self, Error>)
//@contract
        ensures res matches Ok((rem, v)) ==> v.data.wf()
//@endfn
}
impl<'a> AnyIterator<'a, BerMode> {
//@fn src/asn1_types/iterator.rs | Iterator for AnyIterator<'a,BerMode> | next | key=P16+P19
//@ret res
//@sigsub Option<Self::Item> ==> Option<core::result::Result<(Input<'a>, Any<'a>), BerError<Input<'a>>>>
//@contract
    requires old(self).input.wf()
    ensures
        final(self).input.wf(),
        match res {
            None => (old(self).has_error || old(self).input.b().len() == 0) && *final(self) == *old(self),
            Some(Ok((data, any))) => !old(self).has_error && !final(self).has_error && (ber_obj(old(self).input.b()) matches Some(o) && o.end <= old(self).input.b().len() && o.end > 0
                && old(self).input.sub(&data, 0, o.end) && old(self).input.sub(&final(self).input, o.end, old(self).input.b().len() as int)
                && hv(&any.header) == o.h && any.data.wf() && old(self).input.sub(&any.data, o.start, o.start + o.len)),
            Some(Err(_)) => !old(self).has_error && final(self).has_error && old(self).input.b().len() > 0 && ber_obj(old(self).input.b()) is None && final(self).input == old(self).input,
        }
//@ghost entry
    proof { lemma_obj(self.input.b()); }
//@endfn
//@fn src/asn1_types/iterator.rs | AnyIterator<'a,BerMode> | try_collect | key=P16+P19
//@ret res
//@sigsub <B> ==> 
//@sigsub , B, ==> , Vec<Any<'a>>, 
//@sigsub B: FromIterator<Any<'a>>, ==> 
//@closure 0 |__c0: core::result::Result<(Input<'a>, Any<'a>), BerError<Input<'a>>>| -> (o: core::result::Result<Any<'a>, Err<BerError<Input<'a>>>>) ensures o is Ok == __c0 is Ok, __c0 is Ok ==> o->Ok_0 == __c0->Ok_0.1
//@subst b\.map\(\|obj\| \(self\.input\.clone\(\), obj\)\) ==> match b { Ok(obj) => Ok((self.input.clone(), obj)), Err(e) => Err(e) }
//@contract
    requires old(self).input.wf(), !old(self).has_error
    ensures
        match res {
            Ok((rem, v)) => list_fber::<Any, Error>(old(self).input.b()) == Some(vals_fber::<Any, Error>(v@)) && rem.wf() && old(self).input.sub(&rem, old(self).input.b().len() as int, old(self).input.b().len() as int),
            Err(_) => list_fber::<Any, Error>(old(self).input.b()) is None,
        }
//@ghost loop0.before
    let ghost i0 = self.input;
    proof { lemma_pre(Seq::<AnyV>::empty(), arbitrary(), list_fber::<Any, Error>(i0.b())); assert(vals_fber::<Any, Error>(__vm0@) =~= Seq::<AnyV>::empty()); }
//@loop 0
    invariant_except_break
        __em0 is None, !self.has_error,
    invariant
        self.input.wf(), i0 == old(self).input, i0.sub(&self.input, i0.b().len() - self.input.b().len(), i0.b().len() as int),
        __em0 is None ==> list_fber::<Any, Error>(i0.b()) == pre(vals_fber::<Any, Error>(__vm0@), list_fber::<Any, Error>(self.input.b())),
        forall|x: core::result::Result<(Input<'a>, Any<'a>), BerError<Input<'a>>>| #[trigger] __fm0.requires((x,)),
        forall|x: core::result::Result<(Input<'a>, Any<'a>), BerError<Input<'a>>>, o: core::result::Result<Any<'a>, Err<BerError<Input<'a>>>>| #[trigger] __fm0.ensures((x,), o) ==> (o is Ok == x is Ok && (x is Ok ==> o->Ok_0 == x->Ok_0.1)),
    ensures
        __em0 is None ==> self.input.b().len() == 0,
        __em0 is Some ==> list_fber::<Any, Error>(i0.b()) is None,
    decreases self.input.b().len()
//@ghost loop0.begin
    let ghost ib = self.input.b(); let ghost v0 = __vm0@;
    proof { lemma_obj(ib); if let Some(o) = ber_obj(ib) { lemma_pre(vals_fber::<Any, Error>(v0), AnyV { h: o.h, c: obj_content(ib, o) }, list_fber::<Any, Error>(rest(ib, o.end))); } }
//@ghost loop0.end
    proof { if __em0 is None { assert(vals_fber::<Any, Error>(__vm0@) =~= vals_fber::<Any, Error>(v0).push(__vm0@.last().sp_fw())); } }
//@ghost loop0.after
    proof { if __em0 is None { assert(vals_fber::<Any, Error>(__vm0@) + Seq::<AnyV>::empty() =~= vals_fber::<Any, Error>(__vm0@)); } }
//@endfn
//@fn src/asn1_types/iterator.rs | AnyIterator<'a,BerMode> | try_parse_collect | key=P16+P19
//@ret res
//@sigsub <B, T> ==> <T>
//@sigsub , B, ==> , Vec<T>, 
//@sigsub B: FromIterator<T>, ==> 
//@sigsub T: BerParser<'a>, ==> T: BerContent<'a>,
//@sigsub <T as BerParser<'a>>::Error ==> <T as BerContent<'a>>::Error
//@closure 0 |__c0: core::result::Result<(Input<'a>, Any<'a>), BerError<Input<'a>>>| -> (q: core::result::Result<T, Err<<T as BerContent<'a>>::Error>>) requires __c0 is Ok ==> __c0->Ok_0.1.data.wf() ensures elem_ber::<T>(__c0, q)
//@subst b\.map\(\|obj\| \(self\.input\.clone\(\), obj\)\) ==> match b { Ok(obj) => Ok((self.input.clone(), obj)), Err(e) => Err(e) }
//@contract
    requires old(self).input.wf(), !old(self).has_error
    ensures
        match res {
            Ok((rem, v)) => list_ber::<T>(old(self).input.b()) == Some(vals_ber::<T>(v@)) && rem.wf() && old(self).input.sub(&rem, old(self).input.b().len() as int, old(self).input.b().len() as int),
            Err(_) => list_ber::<T>(old(self).input.b()) is None,
        }
//@ghost loop0.before
    let ghost i0 = self.input;
    proof { lemma_pre(Seq::<T::V>::empty(), arbitrary(), list_ber::<T>(i0.b())); assert(vals_ber::<T>(__vm0@) =~= Seq::<T::V>::empty()); }
//@loop 0
    invariant_except_break
        __em0 is None, !self.has_error,
    invariant
        self.input.wf(), i0 == old(self).input, i0.sub(&self.input, i0.b().len() - self.input.b().len(), i0.b().len() as int),
        __em0 is None ==> list_ber::<T>(i0.b()) == pre(vals_ber::<T>(__vm0@), list_ber::<T>(self.input.b())),
        forall|x: core::result::Result<(Input<'a>, Any<'a>), BerError<Input<'a>>>| (x is Ok ==> x->Ok_0.1.data.wf()) ==> #[trigger] __fm0.requires((x,)),
        forall|x: core::result::Result<(Input<'a>, Any<'a>), BerError<Input<'a>>>, q: core::result::Result<T, Err<<T as BerContent<'a>>::Error>>| #[trigger] __fm0.ensures((x,), q) ==> elem_ber::<T>(x, q),
    ensures
        __em0 is None ==> self.input.b().len() == 0,
        __em0 is Some ==> list_ber::<T>(i0.b()) is None,
    decreases self.input.b().len()
//@ghost loop0.begin
    let ghost ib = self.input.b(); let ghost v0 = __vm0@;
    proof { lemma_obj(ib); if let Some((x, n)) = ber_obj_dec::<T>(ib) { lemma_pre(vals_ber::<T>(v0), x, list_ber::<T>(rest(ib, n))); } }
//@ghost loop0.end
    proof { if __em0 is None { assert(vals_ber::<T>(__vm0@) =~= vals_ber::<T>(v0).push(__vm0@.last().sp_val())); } }
//@ghost loop0.after
    proof { if __em0 is None { assert(vals_ber::<T>(__vm0@) + Seq::<T::V>::empty() =~= vals_ber::<T>(__vm0@)); } }
//@endfn
}
/// decoding of one element of the iteration
pub open spec fn elem_ber<'a, T: BerContent<'a>>(x: core::result::Result<(Input<'a>, Any<'a>), BerError<Input<'a>>>, q: core::result::Result<T, Err<<T as BerContent<'a>>::Error>>) -> bool {
    match q {
        Ok(v) => x is Ok && T::sp_accept(x->Ok_0.1.header.tag) && T::sp_ber(hv(&x->Ok_0.1.header), x->Ok_0.1.data.b()) == Some(v.sp_val()),
        Err(_) => x is Err || !T::sp_accept(x->Ok_0.1.header.tag) || T::sp_ber(hv(&x->Ok_0.1.header), x->Ok_0.1.data.b()) is None,
    }
}
impl<'a, T: FromBer<'a, E>, E: From<Error>> SequenceIterator<'a, T, BerMode, E> {
//@fn src/asn1_types/sequence/iterator.rs | Iterator for SequenceIterator<'a,T,BerMode,E> | next | key=P16
//@ret res
//@sigsub Option<Self::Item> ==> Option<core::result::Result<T, E>>
//@contract
    ensures
        match res {
            None => (old(self).has_error || old(self).data@.len() == 0) && *final(self) == *old(self),
            Some(Ok(v)) => !old(self).has_error && !final(self).has_error && old(self).data@.len() > 0
                && (T::sp_from_ber(old(self).data@) matches Some((x, n)) && 0 <= n <= old(self).data@.len() && v.sp_fw() == x && final(self).data@ == rest(old(self).data@, n)),
            Some(Err(_)) => !old(self).has_error && final(self).has_error && old(self).data@.len() > 0 && T::sp_from_ber(old(self).data@) is None,
        }
//@endfn
}

/// values of a series of objects, all of which must decode
pub open spec fn list_fder<'a, T: FromDer<'a, E>, E>(b: Seq<u8>) -> Option<Seq<T::GW>>
    decreases b.len()
{
    if b.len() == 0 { Some(Seq::empty()) }
    else { match T::sp_from_der(b) { None => None, Some((v, n)) => if n <= 0 || n > b.len() { None } else { pre(seq![v], list_fder::<T, E>(rest(b, n))) } } }
}
pub open spec fn vals_fder<'a, T: FromDer<'a, E>, E>(v: Seq<T>) -> Seq<T::GW> { v.map_values(|x: T| x.sp_gw()) }
pub open spec fn list_der<'a, T: DerContent<'a>>(b: Seq<u8>) -> Option<Seq<T::DV>>
    decreases b.len()
{
    if b.len() == 0 { Some(Seq::empty()) }
    else { match der_obj_dec::<T>(b) { None => None, Some((v, n)) => if n <= 0 || n > b.len() { None } else { pre(seq![v], list_der::<T>(rest(b, n))) } } }
}
pub open spec fn vals_der<'a, T: DerContent<'a>>(v: Seq<T>) -> Seq<T::DV> { v.map_values(|x: T| x.sp_dval()) }
impl<'i> Any<'i> {
//@fn src/from_der.rs | DerParser<'i> | parse_der | key=P19+P16
//@ret res
//@sigsub Self::Error ==> BerError<Input<'i>>
//@contract
    requires input.wf()
    ensures match res {
        Ok((rem, any)) => der_obj(input.b()) matches Some(o) && hv(&any.header) == o.h && rem.wf() && any.data.wf()
            && input.sub(&any.data, o.start, o.start + o.len) && input.sub(&rem, o.end, input.b().len() as int),
        Err(_) => der_obj(input.b()) is None,
    }
//@ghost entry
    proof { lemma_obj(input.b()); lemma_hdr_bounds(input.b()); }
//@endfn
}
impl<'i> FromDer<'i, Error> for Any<'i> {
    type GW = AnyV;
    open spec fn sp_gw(&self) -> AnyV { AnyV { h: hv(&self.header), c: self.data.b() } }
    open spec fn sp_from_der(b: Seq<u8>) -> Option<(AnyV, int)> { match der_obj(b) { None => None, Some(o) => Some((AnyV { h: o.h, c: obj_content(b, o) }, o.end)) } }
//@fn src/asn1_types/any.rs | FromDer<'a> for Any<'a> | from_der | key=P08
//@ret res
//@sigsub &'a ==> &'i
//@sigsub ParseResult<'a, Self> ==> (ParseResult<'i, Self, Error>)
//@contract
        ensures res matches Ok((rem, v)) ==> v.data.wf()
//@endfn
}
impl<'a> AnyIterator<'a, DerMode> {
//@fn src/asn1_types/iterator.rs | Iterator for AnyIterator<'a,DerMode> | next | key=P16+P19
//@ret res
//@sigsub Option<Self::Item> ==> Option<core::result::Result<(Input<'a>, Any<'a>), BerError<Input<'a>>>>
//@contract
    requires old(self).input.wf()
    ensures
        final(self).input.wf(),
        match res {
            None => (old(self).has_error || old(self).input.b().len() == 0) && *final(self) == *old(self),
            Some(Ok((data, any))) => !old(self).has_error && !final(self).has_error && (der_obj(old(self).input.b()) matches Some(o) && o.end <= old(self).input.b().len() && o.end > 0
                && old(self).input.sub(&data, 0, o.end) && old(self).input.sub(&final(self).input, o.end, old(self).input.b().len() as int)
                && hv(&any.header) == o.h && any.data.wf() && old(self).input.sub(&any.data, o.start, o.start + o.len)),
            Some(Err(_)) => !old(self).has_error && final(self).has_error && old(self).input.b().len() > 0 && der_obj(old(self).input.b()) is None && final(self).input == old(self).input,
        }
//@ghost entry
    proof { lemma_obj(self.input.b()); }
//@endfn
//@fn src/asn1_types/iterator.rs | AnyIterator<'a,DerMode> | try_collect | key=P16+P19
//@ret res
//@sigsub <B> ==> 
//@sigsub , B, ==> , Vec<Any<'a>>, 
//@sigsub B: FromIterator<Any<'a>>, ==> 
//@closure 0 |__c0: core::result::Result<(Input<'a>, Any<'a>), BerError<Input<'a>>>| -> (o: core::result::Result<Any<'a>, Err<BerError<Input<'a>>>>) ensures o is Ok == __c0 is Ok, __c0 is Ok ==> o->Ok_0 == __c0->Ok_0.1
//@subst b\.map\(\|obj\| \(self\.input\.clone\(\), obj\)\) ==> match b { Ok(obj) => Ok((self.input.clone(), obj)), Err(e) => Err(e) }
//@contract
    requires old(self).input.wf(), !old(self).has_error
    ensures
        match res {
            Ok((rem, v)) => list_fder::<Any, Error>(old(self).input.b()) == Some(vals_fder::<Any, Error>(v@)) && rem.wf() && old(self).input.sub(&rem, old(self).input.b().len() as int, old(self).input.b().len() as int),
            Err(_) => list_fder::<Any, Error>(old(self).input.b()) is None,
        }
//@ghost loop0.before
    let ghost i0 = self.input;
    proof { lemma_pre(Seq::<AnyV>::empty(), arbitrary(), list_fder::<Any, Error>(i0.b())); assert(vals_fder::<Any, Error>(__vm0@) =~= Seq::<AnyV>::empty()); }
//@loop 0
    invariant_except_break
        __em0 is None, !self.has_error,
    invariant
        self.input.wf(), i0 == old(self).input, i0.sub(&self.input, i0.b().len() - self.input.b().len(), i0.b().len() as int),
        __em0 is None ==> list_fder::<Any, Error>(i0.b()) == pre(vals_fder::<Any, Error>(__vm0@), list_fder::<Any, Error>(self.input.b())),
        forall|x: core::result::Result<(Input<'a>, Any<'a>), BerError<Input<'a>>>| #[trigger] __fm0.requires((x,)),
        forall|x: core::result::Result<(Input<'a>, Any<'a>), BerError<Input<'a>>>, o: core::result::Result<Any<'a>, Err<BerError<Input<'a>>>>| #[trigger] __fm0.ensures((x,), o) ==> (o is Ok == x is Ok && (x is Ok ==> o->Ok_0 == x->Ok_0.1)),
    ensures
        __em0 is None ==> self.input.b().len() == 0,
        __em0 is Some ==> list_fder::<Any, Error>(i0.b()) is None,
    decreases self.input.b().len()
//@ghost loop0.begin
    let ghost ib = self.input.b(); let ghost v0 = __vm0@;
    proof { lemma_obj(ib); if let Some(o) = der_obj(ib) { lemma_pre(vals_fder::<Any, Error>(v0), AnyV { h: o.h, c: obj_content(ib, o) }, list_fder::<Any, Error>(rest(ib, o.end))); } }
//@ghost loop0.end
    proof { if __em0 is None { assert(vals_fder::<Any, Error>(__vm0@) =~= vals_fder::<Any, Error>(v0).push(__vm0@.last().sp_gw())); } }
//@ghost loop0.after
    proof { if __em0 is None { assert(vals_fder::<Any, Error>(__vm0@) + Seq::<AnyV>::empty() =~= vals_fder::<Any, Error>(__vm0@)); } }
//@endfn
//@fn src/asn1_types/iterator.rs | AnyIterator<'a,DerMode> | try_parse_collect | key=P16+P19
//@ret res
//@sigsub <B, T> ==> <T>
//@sigsub , B, ==> , Vec<T>, 
//@sigsub B: FromIterator<T>, ==> 
//@sigsub T: DerParser<'a>, ==> T: DerContent<'a>,
//@sigsub <T as DerParser<'a>>::Error ==> <T as DerContent<'a>>::Error
//@closure 0 |__c0: core::result::Result<(Input<'a>, Any<'a>), BerError<Input<'a>>>| -> (q: core::result::Result<T, Err<<T as DerContent<'a>>::Error>>) requires __c0 is Ok ==> __c0->Ok_0.1.data.wf() ensures elem_der::<T>(__c0, q)
//@subst b\.map\(\|obj\| \(self\.input\.clone\(\), obj\)\) ==> match b { Ok(obj) => Ok((self.input.clone(), obj)), Err(e) => Err(e) }
//@contract
    requires old(self).input.wf(), !old(self).has_error
    ensures
        match res {
            Ok((rem, v)) => list_der::<T>(old(self).input.b()) == Some(vals_der::<T>(v@)) && rem.wf() && old(self).input.sub(&rem, old(self).input.b().len() as int, old(self).input.b().len() as int),
            Err(_) => list_der::<T>(old(self).input.b()) is None,
        }
//@ghost loop0.before
    let ghost i0 = self.input;
    proof { lemma_pre(Seq::<T::DV>::empty(), arbitrary(), list_der::<T>(i0.b())); assert(vals_der::<T>(__vm0@) =~= Seq::<T::DV>::empty()); }
//@loop 0
    invariant_except_break
        __em0 is None, !self.has_error,
    invariant
        self.input.wf(), i0 == old(self).input, i0.sub(&self.input, i0.b().len() - self.input.b().len(), i0.b().len() as int),
        __em0 is None ==> list_der::<T>(i0.b()) == pre(vals_der::<T>(__vm0@), list_der::<T>(self.input.b())),
        forall|x: core::result::Result<(Input<'a>, Any<'a>), BerError<Input<'a>>>| (x is Ok ==> x->Ok_0.1.data.wf()) ==> #[trigger] __fm0.requires((x,)),
        forall|x: core::result::Result<(Input<'a>, Any<'a>), BerError<Input<'a>>>, q: core::result::Result<T, Err<<T as DerContent<'a>>::Error>>| #[trigger] __fm0.ensures((x,), q) ==> elem_der::<T>(x, q),
    ensures
        __em0 is None ==> self.input.b().len() == 0,
        __em0 is Some ==> list_der::<T>(i0.b()) is None,
    decreases self.input.b().len()
//@ghost loop0.begin
    let ghost ib = self.input.b(); let ghost v0 = __vm0@;
    proof { lemma_obj(ib); if let Some((x, n)) = der_obj_dec::<T>(ib) { lemma_pre(vals_der::<T>(v0), x, list_der::<T>(rest(ib, n))); } }
//@ghost loop0.end
    proof { if __em0 is None { assert(vals_der::<T>(__vm0@) =~= vals_der::<T>(v0).push(__vm0@.last().sp_dval())); } }
//@ghost loop0.after
    proof { if __em0 is None { assert(vals_der::<T>(__vm0@) + Seq::<T::DV>::empty() =~= vals_der::<T>(__vm0@)); } }
//@endfn
}
/// decoding of one element of the iteration
pub open spec fn elem_der<'a, T: DerContent<'a>>(x: core::result::Result<(Input<'a>, Any<'a>), BerError<Input<'a>>>, q: core::result::Result<T, Err<<T as DerContent<'a>>::Error>>) -> bool {
    match q {
        Ok(v) => x is Ok && T::sp_accept(x->Ok_0.1.header.tag) && T::sp_der(hv(&x->Ok_0.1.header), x->Ok_0.1.data.b()) == Some(v.sp_dval()),
        Err(_) => x is Err || !T::sp_accept(x->Ok_0.1.header.tag) || T::sp_der(hv(&x->Ok_0.1.header), x->Ok_0.1.data.b()) is None,
    }
}
impl<'a, T: FromDer<'a, E>, E: From<Error>> SequenceIterator<'a, T, DerMode, E> {
//@fn src/asn1_types/sequence/iterator.rs | Iterator for SequenceIterator<'a,T,DerMode,E> | next | key=P16
//@ret res
//@sigsub Option<Self::Item> ==> Option<core::result::Result<T, E>>
//@contract
    ensures
        match res {
            None => (old(self).has_error || old(self).data@.len() == 0) && *final(self) == *old(self),
            Some(Ok(v)) => !old(self).has_error && !final(self).has_error && old(self).data@.len() > 0
                && (T::sp_from_der(old(self).data@) matches Some((x, n)) && 0 <= n <= old(self).data@.len() && v.sp_gw() == x && final(self).data@ == rest(old(self).data@, n)),
            Some(Err(_)) => !old(self).has_error && final(self).has_error && old(self).data@.len() > 0 && T::sp_from_der(old(self).data@) is None,
        }
//@endfn
}

impl<'a, Mode: ASN1Mode> AnyIterator<'a, Mode> {
//@fn src/asn1_types/iterator.rs | AnyIterator<'a,Mode> | new | key=P16
//@ret r
//@contract
    ensures r.input == input, !r.has_error
//@endfn
}
impl<'a, T, F: ASN1Mode, E> SequenceIterator<'a, T, F, E> {
//@fn src/asn1_types/sequence/iterator.rs | SequenceIterator<'a,T,F,E> | new | key=P16
//@ret r
//@contract
    ensures r.data == data, !r.has_error
//@endfn
}
}
