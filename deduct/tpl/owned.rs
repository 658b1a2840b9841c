verus! {
// ------------------------------------------------------------------ owned copies (P20)
/// `same(r)`: r is the same value, owning its data
pub trait ToStatic {
    type Owned: 'static;
    spec fn same(&self, r: Self::Owned) -> bool;
    fn to_static(&self) -> (r: Self::Owned)
        ensures self.same(r);
}
/// `ToString` of character strings
pub trait VerifToString { spec fn chs(&self) -> Seq<char>; fn verif_string(&self) -> (r: String) ensures r@ == self.chs(); }
impl<'a> VerifToString for Cow<'a, str> {
    open spec fn chs(&self) -> Seq<char> { cow_chars(*self) }
    #[verifier::external_body]
    fn verif_string(&self) -> (r: String) { unimplemented!() }
}
impl VerifToString for str {
    open spec fn chs(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn verif_string(&self) -> (r: String) { unimplemented!() }
}
pub assume_specification<T: ?Sized, A: core::alloc::Allocator>[ <Box<T, A> as AsRef<T>>::as_ref ](b: &Box<T, A>) -> (r: &T)
    ensures r == &**b;
pub proof fn lemma_cloned_bytes(s: Seq<u8>, r: Seq<u8>)
    requires s.len() == r.len(), forall|i: int| 0 <= i < s.len() ==> cloned::<u8>(#[trigger] s[i], r[i])
    ensures s == r
{ assert(s =~= r); }
impl<'a> ToStatic for Cow<'a, str> {
    type Owned = Cow<'static, str>;
    open spec fn same(&self, r: Cow<'static, str>) -> bool { cow_chars(r) == cow_chars(*self) }
//@fn src/tostatic.rs | ToStatic for Cow<'_, str> | to_static | key=P20
//@ret r
//@subst \.to_string\(\) ==> .verif_string()
//@contract
//@endfn
}
impl<'a> ToStatic for Cow<'a, [u8]> {
    type Owned = Cow<'static, [u8]>;
    open spec fn same(&self, r: Cow<'static, [u8]>) -> bool { cow_seq(r) == cow_seq(*self) }
//@fn src/tostatic.rs | ToStatic for Cow<'_, [u8]> | to_static | key=P20
//@ret r
//@contract
//@ghost entry
    proof { assert forall|s: Seq<u8>, r: Seq<u8>| s.len() == r.len() && (forall|i: int| 0 <= i < s.len() ==> cloned::<u8>(#[trigger] s[i], r[i])) implies s == r by { assert(s =~= r); } }
//@endfn
}
//@repeat $t : bool ; i8 ; i16 ; i32 ; i64 ; i128 ; isize ; u8 ; u16 ; u32 ; u64 ; u128 ; usize ; String
impl ToStatic for $t {
    type Owned = $t;
    open spec fn same(&self, r: $t) -> bool { r == *self }
//@fn src/tostatic.rs | ToStatic for $t | to_static | key=P20 | macro=impl_tostatic_primitive#0(t:=$t)
//@ret r
//@contract
//@endfn
}
//@endrepeat
impl ToStatic for str {
    type Owned = String;
    open spec fn same(&self, r: String) -> bool { r@ == self@ }
//@require src/tostatic.rs | impl_tostatic_primitive!(str => String, |s| s.to_string());
//@fn src/tostatic.rs | ToStatic for str | to_static | key=P20 | macro=impl_tostatic_primitive#1(t:=str,to:=String,closure:=|s: &str| s.to_string())
//@ret r
//@subst let f: &dyn Fn\(&Self\) -> String = & ==> let f =
//@subst \.to_string\(\) ==> .verif_string()
//@nclosures 1
//@closure 0 |__c0: &str| -> (b: String) ensures b@ == __c0@
//@contract
//@endfn
}
impl<'x, T: ToStatic> ToStatic for &'x T {
    type Owned = T::Owned;
    open spec fn same(&self, r: T::Owned) -> bool { (**self).same(r) }
//@fn src/tostatic.rs | ToStatic for &'_ T | to_static | key=P20
//@ret r
//@contract
//@endfn
}
impl<T: ToStatic> ToStatic for Option<T> {
    type Owned = Option<T::Owned>;
    open spec fn same(&self, r: Option<T::Owned>) -> bool { match (*self, r) { (None, None) => true, (Some(x), Some(y)) => x.same(y), _ => false } }
//@fn src/tostatic.rs | ToStatic for Option<T> | to_static | key=P20
//@ret r
//@contract
//@endfn
}
impl<T: ToStatic> ToStatic for Box<T> {
    type Owned = Box<T::Owned>;
    open spec fn same(&self, r: Box<T::Owned>) -> bool { (**self).same(*r) }
//@fn src/tostatic.rs | ToStatic for Box<T> | to_static | key=P20
//@ret r
//@contract
//@endfn
}
// (U of the source is T::Owned)
impl<T: ToStatic> ToStatic for Vec<T> {
    type Owned = Vec<T::Owned>;
    open spec fn same(&self, r: Vec<T::Owned>) -> bool { r@.len() == self@.len() && forall|i: int| 0 <= i < r@.len() ==> #[trigger] self@[i].same(r@[i]) }
//@fn src/asn1_types/sequence.rs | ToStatic for Vec<T> | to_static | key=P20
//@ret r
//@contract
//@nloops 1
//@loop 0
    invariant 0 <= __mk0 <= self@.len(), __mv0@.len() == __mk0, forall|i: int| 0 <= i < __mk0 ==> #[trigger] self@[i].same(__mv0@[i])
    decreases self@.len() - __mk0
//@endfn
}
impl<'a> ToStatic for Header<'a> {
    type Owned = Header<'static>;
    /// every field; the raw header octets are not kept
    open spec fn same(&self, r: Header<'static>) -> bool {
        &&& r.class == self.class && r.constructed == self.constructed && r.tag == self.tag && r.length == self.length
        &&& (r.raw_tag is Some <==> self.raw_tag is Some) && (self.raw_tag is Some ==> cow_seq(r.raw_tag->Some_0) == cow_seq(self.raw_tag->Some_0))
        &&& r.raw_header is None
    }
//@fn src/header.rs | ToStatic for Header<'_> | to_static | key=P20
//@ret r
//@nclosures 1
//@closure 0 |__c0: &Cow<'a, [u8]>| -> (c: Cow<'static, [u8]>) ensures cow_seq(c) == cow_seq(*__c0)
//@contract
//@ghost entry
    proof { assert forall|s: Seq<u8>, r: Seq<u8>| s.len() == r.len() && (forall|i: int| 0 <= i < s.len() ==> cloned::<u8>(#[trigger] s[i], r[i])) implies s == r by { assert(s =~= r); } }
//@endfn
}
//@repeat $S,$f : Sequence,sequence ; Set,set
impl<'a> ToStatic for $S<'a> {
    type Owned = $S<'static>;
    open spec fn same(&self, r: $S<'static>) -> bool { cow_seq(r.content) == cow_seq(self.content) }
//@fn src/asn1_types/$f.rs | ToStatic for $S<'_> | to_static | key=P20
//@ret r
//@contract
//@ghost entry
    proof { assert forall|s: Seq<u8>, r: Seq<u8>| s.len() == r.len() && (forall|i: int| 0 <= i < s.len() ==> cloned::<u8>(#[trigger] s[i], r[i])) implies s == r by { assert(s =~= r); } }
//@endfn
}
//@endrepeat

// ---- the owned copy is written as the same octets
//@repeat $Ber,$b : Ber,ber ; Der,der
pub trait Same$Ber: ToStatic + To$BerX where Self::Owned: To$BerX {
    proof fn lemma_same_$b(&self, r: Self::Owned)
        requires self.same(r)
        ensures r.$b_ok() == self.$b_ok(), r.$b_abs() == self.$b_abs(), r.$b_i() == self.$b_i(), r.$b_c() == self.$b_c(), r.$b_out() == self.$b_out();
}
//@repeat $t : bool ; i8 ; i16 ; i32 ; i64 ; i128 ; isize ; u8 ; u16 ; u32 ; u64 ; u128 ; usize ; String
impl Same$Ber for $t { proof fn lemma_same_$b(&self, r: Self) {} }
//@endrepeat
impl<'a> Same$Ber for Sequence<'a> { proof fn lemma_same_$b(&self, r: Sequence<'static>) {} }
impl<'a> Same$Ber for Set<'a> { proof fn lemma_same_$b(&self, r: Set<'static>) {} }
impl<T: Same$Ber + DynTagged> Same$Ber for Vec<T> where T::Owned: To$BerX + DynTagged {
    proof fn lemma_same_$b(&self, r: Vec<T::Owned>) {
        let v = self@; let w = r@;
        assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).$b_ok() == w[i].$b_ok() && v[i].$b_out() == w[i].$b_out() by { v[i].lemma_same_$b(w[i]); }
        lemma_same_cat_$b(v, w);
        assert(all_$b(v) == all_$b(w)) by {
            if all_$b(v) { assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).$b_ok() by { assert(v[i].$b_ok()); } }
            if all_$b(w) { assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).$b_ok() by { assert(w[i].$b_ok()); } }
        }
    }
}
pub proof fn lemma_same_cat_$b<T: To$BerX, U: To$BerX>(v: Seq<T>, w: Seq<U>)
    requires v.len() == w.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i].$b_out() == w[i].$b_out()
    ensures cat_$b(v) == cat_$b(w)
    decreases v.len()
{
    if v.len() > 0 {
        let n = v.len() - 1;
        assert forall|i: int| 0 <= i < n implies #[trigger] v.drop_last()[i].$b_out() == w.drop_last()[i].$b_out() by { assert(v[i].$b_out() == w[i].$b_out()); }
        lemma_same_cat_$b(v.drop_last(), w.drop_last());
        assert(v[n].$b_out() == w[n].$b_out());
    }
}
//@endrepeat

// ---- an owned container gives owned elements
//@repeat $Ber,$ber,$FW,$fw,$fber : Ber,ber,FW,sp_fw,fber ; Der,der,GW,sp_gw,fder
pub proof fn lemma_ini_$fber<'a, T: From$Ber<'a, E>, E>(b: Seq<u8>)
    ensures list_$fber::<T, E>(b) == pre(vals_$fber::<T, E>(Seq::<T>::empty()), list_$fber::<T, E>(b)), vals_$fber::<T, E>(Seq::<T>::empty()) =~= Seq::<T::$FW>::empty()
{
    assert(vals_$fber::<T, E>(Seq::<T>::empty()) =~= Seq::<T::$FW>::empty());
    if let Some(l) = list_$fber::<T, E>(b) { assert(Seq::<T::$FW>::empty() + l =~= l); }
}
pub proof fn lemma_stp_$fber<'a, T: From$Ber<'a, E>, E>(b: Seq<u8>, v: Seq<T>)
    ensures rest(b, 0) =~= b,
        b.len() > 0 ==> match T::sp_from_$ber(b) {
            None => pre(vals_$fber::<T, E>(v), list_$fber::<T, E>(b)) is None,
            Some((x, n)) => forall|y: T| 0 < n <= b.len() && y.$fw() == x ==> pre(vals_$fber::<T, E>(v), list_$fber::<T, E>(b)) == pre(vals_$fber::<T, E>(#[trigger] v.push(y)), list_$fber::<T, E>(rest(b, n))),
        }
{
    assert(rest(b, 0) =~= b);
    if let Some((x, n)) = T::sp_from_$ber(b) {
        lemma_pre(vals_$fber::<T, E>(v), x, list_$fber::<T, E>(rest(b, n)));
        assert forall|y: T| y.$fw() == x implies vals_$fber::<T, E>(#[trigger] v.push(y)) == vals_$fber::<T, E>(v).push(x) by { assert(vals_$fber::<T, E>(v.push(y)) =~= vals_$fber::<T, E>(v).push(x)); }
    }
}
pub proof fn lemma_fin_$fber<'a, T: From$Ber<'a, E>, E>(v: Seq<T>)
    ensures pre(vals_$fber::<T, E>(v), Some(Seq::<T::$FW>::empty())) == Some(vals_$fber::<T, E>(v))
{ assert(vals_$fber::<T, E>(v) + Seq::<T::$FW>::empty() =~= vals_$fber::<T, E>(v)); }
//@repeat $S,$f,$of : Sequence,sequence,sequence_of ; Set,set,set_of
impl<'a> $S<'a> {
//@fn src/asn1_types/$f.rs | $S<'a> | into_$ber_$of | key=P16+P20
//@ret res
//@attr #[verifier::exec_allows_no_decreases_clause]
//@contract
    ensures match res {
        Ok(v) => if self.content is Borrowed { list_$fber::<T, E>(cow_seq(self.content)) == Some(vals_$fber::<T, E>(v@)) }
            else { exists|w: Seq<T>| #![trigger vals_$fber::<T, E>(w)] list_$fber::<T, E>(cow_seq(self.content)) == Some(vals_$fber::<T, E>(w)) && v@.len() == w.len() && forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i].same(v@[i]) },
        Err(_) => list_$fber::<T, E>(cow_seq(self.content)) is None }
//@nloops 3
//@ghost loop0.before
    let ghost i0 = __itc0.data@;
    proof { lemma_ini_$fber::<T, E>(i0); assert(__vc0@ =~= Seq::<T>::empty()); }
//@loop 0
    invariant_except_break
        __ec0 is None, !__itc0.has_error,
    invariant
        __ec0 is None ==> list_$fber::<T, E>(i0) == pre(vals_$fber::<T, E>(__vc0@), list_$fber::<T, E>(__itc0.data@)),
        __ec0 is None ==> !__itc0.has_error,
    ensures
        __ec0 is None ==> __itc0.data@.len() == 0,
        __ec0 is Some ==> list_$fber::<T, E>(i0) is None,
//@ghost loop0.begin
    proof { lemma_stp_$fber::<T, E>(__itc0.data@, __vc0@); }
//@ghost loop0.after
    proof { if __ec0 is None { lemma_fin_$fber::<T, E>(__vc0@); } }
//@ghost loop1.before
    let ghost i0 = __itc1.data@;
    proof { lemma_ini_$fber::<T, E>(i0); assert(__vc1@ =~= Seq::<T>::empty()); }
//@loop 1
    invariant_except_break
        __ec1 is None, !__itc1.has_error,
    invariant
        __ec1 is None ==> list_$fber::<T, E>(i0) == pre(vals_$fber::<T, E>(__vc1@), list_$fber::<T, E>(__itc1.data@)),
        __ec1 is None ==> !__itc1.has_error,
    ensures
        __ec1 is None ==> __itc1.data@.len() == 0,
        __ec1 is Some ==> list_$fber::<T, E>(i0) is None,
//@ghost loop1.begin
    proof { lemma_stp_$fber::<T, E>(__itc1.data@, __vc1@); }
//@ghost loop1.after
    proof { if __ec1 is None { lemma_fin_$fber::<T, E>(__vc1@); } }
//@loop 2
    invariant 0 <= __mk0 <= v1@.len(), __mv0@.len() == __mk0, forall|i: int| 0 <= i < __mk0 ==> #[trigger] v1@[i].same(__mv0@[i])
    decreases v1@.len() - __mk0
//@ghost loop2.after
    proof { assert(list_$fber::<T, E>(cow_seq(self.content)) == Some(vals_$fber::<T, E>(v1@))); }
//@endfn
}
//@endrepeat
//@endrepeat
//@repeat $Ber,$b : Ber,ber ; Der,der
pub proof fn law_same_option_$b<T: Same$Ber + DynTagged>(x: Option<T>, r: Option<T::Owned>)
    where T::Owned: To$BerX + DynTagged
    requires x.same(r)
    ensures x.$b_out() == r.$b_out()
{ if let Some(t) = x { t.lemma_same_$b(r->Some_0); } }
//@endrepeat
}
