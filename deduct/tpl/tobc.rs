verus! {
// ---- containers
/// `.iter()` over a slice: its elements in order
pub open spec fn srem<T>(it: VSeqIter<&T>, v: Seq<T>, k: int) -> bool {
    &&& 0 <= k <= v.len() && it.rem().len() == v.len() - k
    &&& forall|i: int| #![trigger it.rem()[i]] 0 <= i < v.len() - k ==> *it.rem()[i] == v[k + i]
}
#[verifier::external_body]
pub fn verif_slice_iter<'a, T>(s: &'a [T]) -> (r: VSeqIter<&'a T>) ensures srem(r, s@, 0) { unimplemented!() }
#[verifier::external_body]
pub fn verif_array_iter<'a, T, const N: usize>(s: &'a [T; N]) -> (r: VSeqIter<&'a T>) ensures srem(r, s@, 0) { unimplemented!() }
/// the order in which the elements of a set are visited
pub uninterp spec fn btree_seq<T>(s: BTreeSet<T>) -> Seq<T>;
pub uninterp spec fn hash_seq<T, S>(s: HashSet<T, S>) -> Seq<T>;
#[verifier::external_body]
pub fn verif_btree_iter<'a, T>(s: &'a BTreeSet<T>) -> (r: VSeqIter<&'a T>) ensures srem(r, btree_seq(*s), 0) { unimplemented!() }
#[verifier::external_body]
pub fn verif_hash_iter<'a, T, S>(s: &'a HashSet<T, S>) -> (r: VSeqIter<&'a T>) ensures srem(r, hash_seq(*s), 0) { unimplemented!() }
/// `Iterator::map`, for a closure without side effects
#[verifier::external_body]
pub fn verif_map<A, B, F: Fn(A) -> B>(it: VSeqIter<A>, f: F) -> (r: VSeqIter<B>)
    requires forall|i: int| #![trigger it.rem()[i]] 0 <= i < it.rem().len() ==> f.requires((it.rem()[i],))
    ensures r.rem().len() == it.rem().len(), forall|i: int| #![trigger r.rem()[i]] 0 <= i < it.rem().len() ==> f.ensures((it.rem()[i],), r.rem()[i])
{ unimplemented!() }
pub open spec fn len_of(l: Length) -> int { match l { Length::Definite(n) => n as int, Length::Indefinite => 0 } }
pub open spec fn len_sum(v: Seq<Length>) -> int
    decreases v.len()
{ if v.len() == 0 { 0 } else { len_sum(v.drop_last()) + len_of(v.last()) } }
pub proof fn lemma_len_sum(v: Seq<Length>, k: int)
    requires 0 <= k <= v.len()
    ensures 0 <= len_sum(v.subrange(0, k)) <= len_sum(v), k < v.len() ==> len_sum(v.subrange(0, k + 1)) == len_sum(v.subrange(0, k)) + len_of(v[k]) <= len_sum(v)
    decreases v.len() - k
{
    if k < v.len() {
        lemma_len_sum(v, k + 1);
        assert(v.subrange(0, k + 1).drop_last() =~= v.subrange(0, k));
        lemma_len_sum_pos(v.subrange(0, k));
    } else { assert(v.subrange(0, k) =~= v); lemma_len_sum_pos(v); }
}
pub proof fn lemma_len_sum_pos(v: Seq<Length>)
    ensures 0 <= len_sum(v)
    decreases v.len()
{ if v.len() > 0 { lemma_len_sum_pos(v.drop_last()); } }
pub struct VLengthSum;
impl VLengthSum {
//@fn src/length.rs | Sum<Length> for Length | sum | key=P03
//@ret r
//@sigsub <I: Iterator<Item = Self>> ==>
//@sigsub iter: I ==> iter: VSeqIter<Length>
//@sigsub -> Self ==> -> Length
//@contract
        requires len_sum(iter.rem()) <= usize::MAX, forall|i: int| #![trigger iter.rem()[i]] 0 <= i < iter.rem().len() ==> iter.rem()[i] is Definite
        ensures r == Length::Definite(len_sum(iter.rem()) as usize)
//@ghost loop0.before
        let ghost v = iter.rem(); let ghost mut k: int = 0;
        proof { assert(v.subrange(0, 0) =~= Seq::<Length>::empty()); assert(v.subrange(0, v.len() as int) =~= v); }
//@loop 0
            invariant
                0 <= k <= v.len(), __fit0.rem() == v.subrange(k, v.len() as int), a == Length::Definite(len_sum(v.subrange(0, k)) as usize),
                len_sum(v) <= usize::MAX, forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> v[i] is Definite,
            ensures k == v.len()
            decreases v.len() - k
//@ghost loop0.begin
            proof { lemma_len_sum(v, k); }
//@ghost loop0.end
            proof { k = k + 1; }
//@ghost loop0.after
        proof { assert(v.subrange(0, v.len() as int) =~= v); }
//@endfn
}
//@repeat $To,$b,$src : ToBer,ber,src/to_ber.rs ; ToDer,der,src/to_der.rs
/// the encodings of the elements, one after the other
pub open spec fn cat_$b<T: $ToX>(v: Seq<T>) -> Seq<u8>
    decreases v.len()
{ if v.len() == 0 { Seq::empty() } else { cat_$b(v.drop_last()) + v.last().$b_out() } }
pub open spec fn all_$b<T: $ToX>(v: Seq<T>) -> bool {
    &&& forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> v[i].$b_ok()
    &&& fits(cat_$b(v).len() as int)
}
pub proof fn lemma_cat_$b<T: $ToX>(v: Seq<T>, k: int)
    requires 0 <= k <= v.len()
    ensures cat_$b(v.subrange(0, k)).len() <= cat_$b(v).len(), k < v.len() ==> cat_$b(v.subrange(0, k + 1)) == cat_$b(v.subrange(0, k)) + v[k].$b_out() && cat_$b(v.subrange(0, k)).len() + v[k].$b_out().len() <= cat_$b(v).len()
    decreases v.len() - k
{
    if k < v.len() {
        lemma_cat_$b(v, k + 1);
        assert(v.subrange(0, k + 1).drop_last() =~= v.subrange(0, k));
    } else { assert(v.subrange(0, k) =~= v); }
}
pub proof fn lemma_cat_sum_$b<T: $ToX>(v: Seq<T>, l: Seq<Length>)
    requires
        v.len() == l.len(), cat_$b(v).len() <= usize::MAX,
        forall|i: int| #![trigger l[i]] 0 <= i < l.len() ==> l[i] == Length::Definite(v[i].$b_out().len() as usize)
    ensures len_sum(l) == cat_$b(v).len()
    decreases v.len()
{
    if v.len() > 0 {
        let w = v.drop_last(); let m = l.drop_last();
        assert forall|i: int| #![trigger m[i]] 0 <= i < m.len() implies m[i] == Length::Definite(w[i].$b_out().len() as usize) by { assert(m[i] == l[i] && w[i] == v[i]); }
        lemma_cat_sum_$b(w, m);
    }
}
//@fn $src | $b_length_constructed_items | key=P03
//@ret r
//@sigsub <'a, T, IT> ==> <'a, T>
//@sigsub iter: IT ==> iter: VSeqIter<&'a T>, _v: Ghost<Seq<T>>
//@sigsub T: $To + 'a ==> T: $ToX + 'a
//@sigsub IT: Iterator<Item = &'a T>, ==>
//@closure 0 |__c0: &T| -> (o: Length) requires __c0.$b_ok() ensures o == Length::Definite(__c0.$b_out().len() as usize)
//@subst (?s)iter\s*\.map\((.*)\)\s*\.sum\(\) ==> { let __s = verif_map(iter, \1); proof { lemma_cat_sum_$b(_v@, __s.rem()); } VLengthSum::sum(__s) }
//@contract
    requires srem(iter, _v@, 0), all_$b(_v@)
    ensures r == Length::Definite(cat_$b(_v@).len() as usize)
//@endfn
//@endrepeat
impl<T, const N: usize> Tagged for [T; N] {
//@consts src/asn1_types/sequence/array.rs | Tagged for [T;N]
}
impl<T> Tagged for BTreeSet<T> {
//@consts src/asn1_types/set/btreeset.rs | Tagged for BTreeSet<T>
}
impl<T, S> Tagged for HashSet<T, S> {
//@consts src/asn1_types/set/hashset.rs | Tagged for HashSet<T,S>
}
impl<S> Tagged for AnySet<'_, S> {
//@consts src/asn1_types/set/any_set.rs | Tagged for AnySet<'_,S>
}
//@default src/asn1_types/sequence/vec.rs | ToBer for Vec<T> | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber
impl<T: ToBerX + DynTagged> ToBer for Vec<T> {
//@assoctype src/asn1_types/sequence/vec.rs | ToBer for Vec<T> | Encoder
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, true, Tag(16)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(cat_ber(self@).len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { cat_ber(self@) }
    open spec fn ber_pre(&self) -> bool { all_ber(self@) }
    open spec fn ber_ok(&self) -> bool { all_ber(self@) }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {  }
//@fn src/asn1_types/sequence/vec.rs | ToBer for Vec<T> | ber_content_len | key=P03+P16
//@ret r
//@subst ber_length_constructed_items\(self\.iter\(\)\) ==> ber_length_constructed_items(verif_slice_iter(self.as_slice()), Ghost(self@))
//@contract
//@endfn
//@fn src/asn1_types/sequence/vec.rs | ToBer for Vec<T> | ber_tag_info | key=P02+P16
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/sequence/vec.rs | ToBer for Vec<T> | ber_write_content | key=P03+P16
//@ret r
//@subst self\.iter\(\) ==> verif_slice_iter(self.as_slice())
//@contract
//@ghost loop0.before
        let ghost v = self@; let ghost mut k: int = 0;
        proof { assert(v.subrange(0, 0) =~= Seq::empty()); assert(cat_ber(v.subrange(0, 0)) =~= Seq::<u8>::empty()); assert(old(target).out() + Seq::<u8>::empty() =~= old(target).out()); }
//@loop 0
            invariant
                v == self@, all_ber(self@), srem(__fit0, v, k), acc == cat_ber(v.subrange(0, k)).len(),
                target.out() == old(target).out() + cat_ber(v.subrange(0, k)), target.infallible() == old(target).infallible(),
            ensures k == v.len()
            decreases v.len() - k
//@ghost loop0.begin
            proof { lemma_cat_ber(v, k); if k < v.len() { assert(__fit0.rem()[0] == v[k]); assert(v[k].ber_ok()); assert(old(target).out() + cat_ber(v.subrange(0, k)) + v[k].ber_out() =~= old(target).out() + (cat_ber(v.subrange(0, k)) + v[k].ber_out())); } }
//@ghost loop0.end
            proof { k = k + 1; }
//@ghost loop0.after
        proof { assert(v.subrange(0, v.len() as int) =~= v); }
//@endfn
}
impl<T: ToBerX + DynTagged> ToBerX for Vec<T> {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/sequence/array.rs | ToBer for [T;N] | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber
impl<T: ToBerX, const N: usize> ToBer for [T; N] {
//@assoctype src/asn1_types/sequence/array.rs | ToBer for [T;N] | Encoder
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, true, Tag(16)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(cat_ber(self@).len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { cat_ber(self@) }
    open spec fn ber_pre(&self) -> bool { all_ber(self@) }
    open spec fn ber_ok(&self) -> bool { all_ber(self@) }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {  }
//@fn src/asn1_types/sequence/array.rs | ToBer for [T;N] | ber_content_len | key=P03+P16
//@ret r
//@subst ber_length_constructed_items\(self\.iter\(\)\) ==> ber_length_constructed_items(verif_array_iter(self), Ghost(self@))
//@contract
//@endfn
//@fn src/asn1_types/sequence/array.rs | ToBer for [T;N] | ber_tag_info | key=P02+P16
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/sequence/array.rs | ToBer for [T;N] | ber_write_content | key=P03+P16
//@ret r
//@subst self\.iter\(\) ==> verif_array_iter(self)
//@contract
//@ghost loop0.before
        let ghost v = self@; let ghost mut k: int = 0;
        proof { assert(v.subrange(0, 0) =~= Seq::empty()); assert(cat_ber(v.subrange(0, 0)) =~= Seq::<u8>::empty()); assert(old(target).out() + Seq::<u8>::empty() =~= old(target).out()); }
//@loop 0
            invariant
                v == self@, all_ber(self@), srem(__fit0, v, k), acc == cat_ber(v.subrange(0, k)).len(),
                target.out() == old(target).out() + cat_ber(v.subrange(0, k)), target.infallible() == old(target).infallible(),
            ensures k == v.len()
            decreases v.len() - k
//@ghost loop0.begin
            proof { lemma_cat_ber(v, k); if k < v.len() { assert(__fit0.rem()[0] == v[k]); assert(v[k].ber_ok()); assert(old(target).out() + cat_ber(v.subrange(0, k)) + v[k].ber_out() =~= old(target).out() + (cat_ber(v.subrange(0, k)) + v[k].ber_out())); } }
//@ghost loop0.end
            proof { k = k + 1; }
//@ghost loop0.after
        proof { assert(v.subrange(0, v.len() as int) =~= v); }
//@endfn
}
impl<T: ToBerX, const N: usize> ToBerX for [T; N] {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/sequence/sequence_of.rs | ToBer for SequenceOf<T> | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber
impl<T: ToBerX + DynTagged> ToBer for SequenceOf<T> {
//@assoctype src/asn1_types/sequence/sequence_of.rs | ToBer for SequenceOf<T> | Encoder
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, true, Tag(16)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(cat_ber(self.items@).len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { cat_ber(self.items@) }
    open spec fn ber_pre(&self) -> bool { all_ber(self.items@) }
    open spec fn ber_ok(&self) -> bool { all_ber(self.items@) }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {  }
//@fn src/asn1_types/sequence/sequence_of.rs | ToBer for SequenceOf<T> | ber_content_len | key=P03+P16
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/sequence/sequence_of.rs | ToBer for SequenceOf<T> | ber_tag_info | key=P02+P16
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/sequence/sequence_of.rs | ToBer for SequenceOf<T> | ber_write_content | key=P03+P16
//@ret r
//@contract
//@endfn
}
impl<T: ToBerX + DynTagged> ToBerX for SequenceOf<T> {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/set/set_of.rs | ToBer for SetOf<T> | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber
impl<T: ToBerX + DynTagged> ToBer for SetOf<T> {
//@assoctype src/asn1_types/set/set_of.rs | ToBer for SetOf<T> | Encoder
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, true, Tag(17)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(cat_ber(self.items@).len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { cat_ber(self.items@) }
    open spec fn ber_pre(&self) -> bool { all_ber(self.items@) }
    open spec fn ber_ok(&self) -> bool { all_ber(self.items@) }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {  }
//@fn src/asn1_types/set/set_of.rs | ToBer for SetOf<T> | ber_content_len | key=P03+P16
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/set/set_of.rs | ToBer for SetOf<T> | ber_tag_info | key=P02+P16
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/set/set_of.rs | ToBer for SetOf<T> | ber_write_content | key=P03+P16
//@ret r
//@contract
//@endfn
}
impl<T: ToBerX + DynTagged> ToBerX for SetOf<T> {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/set/btreeset.rs | ToBer for BTreeSet<T> | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber
impl<T: ToBerX + DynTagged> ToBer for BTreeSet<T> {
//@assoctype src/asn1_types/set/btreeset.rs | ToBer for BTreeSet<T> | Encoder
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, true, Tag(17)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(cat_ber(btree_seq(*self)).len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { cat_ber(btree_seq(*self)) }
    open spec fn ber_pre(&self) -> bool { all_ber(btree_seq(*self)) }
    open spec fn ber_ok(&self) -> bool { all_ber(btree_seq(*self)) }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {  }
//@fn src/asn1_types/set/btreeset.rs | ToBer for BTreeSet<T> | ber_content_len | key=P03+P16
//@ret r
//@subst ber_length_constructed_items\(self\.iter\(\)\) ==> ber_length_constructed_items(verif_btree_iter(self), Ghost(btree_seq(*self)))
//@contract
//@endfn
//@fn src/asn1_types/set/btreeset.rs | ToBer for BTreeSet<T> | ber_tag_info | key=P02+P16
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/set/btreeset.rs | ToBer for BTreeSet<T> | ber_write_content | key=P03+P16
//@ret r
//@subst self\.iter\(\) ==> verif_btree_iter(self)
//@contract
//@ghost loop0.before
        let ghost v = btree_seq(*self); let ghost mut k: int = 0;
        proof { assert(v.subrange(0, 0) =~= Seq::empty()); assert(cat_ber(v.subrange(0, 0)) =~= Seq::<u8>::empty()); assert(old(target).out() + Seq::<u8>::empty() =~= old(target).out()); }
//@loop 0
            invariant
                v == btree_seq(*self), all_ber(btree_seq(*self)), srem(__fit0, v, k), acc == cat_ber(v.subrange(0, k)).len(),
                target.out() == old(target).out() + cat_ber(v.subrange(0, k)), target.infallible() == old(target).infallible(),
            ensures k == v.len()
            decreases v.len() - k
//@ghost loop0.begin
            proof { lemma_cat_ber(v, k); if k < v.len() { assert(__fit0.rem()[0] == v[k]); assert(v[k].ber_ok()); assert(old(target).out() + cat_ber(v.subrange(0, k)) + v[k].ber_out() =~= old(target).out() + (cat_ber(v.subrange(0, k)) + v[k].ber_out())); } }
//@ghost loop0.end
            proof { k = k + 1; }
//@ghost loop0.after
        proof { assert(v.subrange(0, v.len() as int) =~= v); }
//@endfn
}
impl<T: ToBerX + DynTagged> ToBerX for BTreeSet<T> {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/set/hashset.rs | ToBer for HashSet<T,S> | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber
impl<T: ToBerX + DynTagged, S> ToBer for HashSet<T, S> {
//@assoctype src/asn1_types/set/hashset.rs | ToBer for HashSet<T,S> | Encoder
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, true, Tag(17)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(cat_ber(hash_seq(*self)).len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { cat_ber(hash_seq(*self)) }
    open spec fn ber_pre(&self) -> bool { all_ber(hash_seq(*self)) }
    open spec fn ber_ok(&self) -> bool { all_ber(hash_seq(*self)) }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {  }
//@fn src/asn1_types/set/hashset.rs | ToBer for HashSet<T,S> | ber_content_len | key=P03+P16
//@ret r
//@subst ber_length_constructed_items\(self\.iter\(\)\) ==> ber_length_constructed_items(verif_hash_iter(self), Ghost(hash_seq(*self)))
//@contract
//@endfn
//@fn src/asn1_types/set/hashset.rs | ToBer for HashSet<T,S> | ber_tag_info | key=P02+P16
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/set/hashset.rs | ToBer for HashSet<T,S> | ber_write_content | key=P03+P16
//@ret r
//@subst self\.iter\(\) ==> verif_hash_iter(self)
//@contract
//@ghost loop0.before
        let ghost v = hash_seq(*self); let ghost mut k: int = 0;
        proof { assert(v.subrange(0, 0) =~= Seq::empty()); assert(cat_ber(v.subrange(0, 0)) =~= Seq::<u8>::empty()); assert(old(target).out() + Seq::<u8>::empty() =~= old(target).out()); }
//@loop 0
            invariant
                v == hash_seq(*self), all_ber(hash_seq(*self)), srem(__fit0, v, k), acc == cat_ber(v.subrange(0, k)).len(),
                target.out() == old(target).out() + cat_ber(v.subrange(0, k)), target.infallible() == old(target).infallible(),
            ensures k == v.len()
            decreases v.len() - k
//@ghost loop0.begin
            proof { lemma_cat_ber(v, k); if k < v.len() { assert(__fit0.rem()[0] == v[k]); assert(v[k].ber_ok()); assert(old(target).out() + cat_ber(v.subrange(0, k)) + v[k].ber_out() =~= old(target).out() + (cat_ber(v.subrange(0, k)) + v[k].ber_out())); } }
//@ghost loop0.end
            proof { k = k + 1; }
//@ghost loop0.after
        proof { assert(v.subrange(0, v.len() as int) =~= v); }
//@endfn
}
impl<T: ToBerX + DynTagged, S> ToBerX for HashSet<T, S> {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
impl<'a> AnySequence<'a> {
//@fn src/asn1_types/sequence/any_sequence.rs | AnySequence<'a> | iter | key=P16
//@ret r
//@sigsub impl Iterator<Item = &Any<'a>> ==> VSeqIter<&Any<'a>>
//@subst self\.items\.iter\(\) ==> verif_slice_iter(self.items.as_slice())
//@contract
        ensures srem(r, self.items@, 0)
//@endfn
}
#[verifier::reject_recursive_types(S)]
//@item src/asn1_types/set/any_set.rs | struct AnySet
impl<'a, S: BuildHasher> AnySet<'a, S> {
//@fn src/asn1_types/set/any_set.rs | AnySet<'a,S> | iter | key=P16
//@ret r
//@sigsub impl Iterator<Item = &Any<'a>> ==> VSeqIter<&Any<'a>>
//@subst self\.items\.iter\(\) ==> verif_hash_iter(&self.items)
//@contract
        ensures srem(r, hash_seq(self.items), 0)
//@endfn
}
//@default src/asn1_types/sequence/any_sequence.rs | ToBer for AnySequence<'_> | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber
impl<'a> ToBer for AnySequence<'a> {
//@assoctype src/asn1_types/sequence/any_sequence.rs | ToBer for AnySequence<'_> | Encoder
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, true, Tag(16)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(cat_ber(self.items@).len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { cat_ber(self.items@) }
    open spec fn ber_pre(&self) -> bool { all_ber(self.items@) }
    open spec fn ber_ok(&self) -> bool { all_ber(self.items@) }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {  }
//@fn src/asn1_types/sequence/any_sequence.rs | ToBer for AnySequence<'_> | ber_content_len | key=P03+P16
//@ret r
//@subst ber_length_constructed_items\(self\.iter\(\)\) ==> ber_length_constructed_items(self.iter(), Ghost(self.items@))
//@contract
//@endfn
//@fn src/asn1_types/sequence/any_sequence.rs | ToBer for AnySequence<'_> | ber_tag_info | key=P02+P16
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/sequence/any_sequence.rs | ToBer for AnySequence<'_> | ber_write_content | key=P03+P16
//@ret r
//@subst self\.iter\(\) ==> self.iter()
//@contract
//@ghost loop0.before
        let ghost v = self.items@; let ghost mut k: int = 0;
        proof { assert(v.subrange(0, 0) =~= Seq::empty()); assert(cat_ber(v.subrange(0, 0)) =~= Seq::<u8>::empty()); assert(old(target).out() + Seq::<u8>::empty() =~= old(target).out()); }
//@loop 0
            invariant
                v == self.items@, all_ber(self.items@), srem(__fit0, v, k), acc == cat_ber(v.subrange(0, k)).len(),
                target.out() == old(target).out() + cat_ber(v.subrange(0, k)), target.infallible() == old(target).infallible(),
            ensures k == v.len()
            decreases v.len() - k
//@ghost loop0.begin
            proof { lemma_cat_ber(v, k); if k < v.len() { assert(__fit0.rem()[0] == v[k]); assert(v[k].ber_ok()); assert(old(target).out() + cat_ber(v.subrange(0, k)) + v[k].ber_out() =~= old(target).out() + (cat_ber(v.subrange(0, k)) + v[k].ber_out())); } }
//@ghost loop0.end
            proof { k = k + 1; }
//@ghost loop0.after
        proof { assert(v.subrange(0, v.len() as int) =~= v); }
//@endfn
}
impl<'a> ToBerX for AnySequence<'a> {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/set/any_set.rs | ToBer for AnySet<'_,S> | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber
impl<'a, S: BuildHasher> ToBer for AnySet<'a, S> {
//@assoctype src/asn1_types/set/any_set.rs | ToBer for AnySet<'_,S> | Encoder
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (Class::Universal, true, Tag(17)) }
    open spec fn ber_l(&self) -> Length { Length::Definite(cat_ber(hash_seq(self.items)).len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { cat_ber(hash_seq(self.items)) }
    open spec fn ber_pre(&self) -> bool { all_ber(hash_seq(self.items)) }
    open spec fn ber_ok(&self) -> bool { all_ber(hash_seq(self.items)) }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {  }
//@fn src/asn1_types/set/any_set.rs | ToBer for AnySet<'_,S> | ber_content_len | key=P03+P16
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/set/any_set.rs | ToBer for AnySet<'_,S> | ber_tag_info | key=P02+P16
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/set/any_set.rs | ToBer for AnySet<'_,S> | ber_write_content | key=P03+P16
//@ret r
//@subst self\.iter\(\) ==> self.iter()
//@contract
//@ghost loop0.before
        let ghost v = hash_seq(self.items); let ghost mut k: int = 0;
        proof { assert(v.subrange(0, 0) =~= Seq::empty()); assert(cat_ber(v.subrange(0, 0)) =~= Seq::<u8>::empty()); assert(old(target).out() + Seq::<u8>::empty() =~= old(target).out()); }
//@loop 0
            invariant
                v == hash_seq(self.items), all_ber(hash_seq(self.items)), srem(__fit0, v, k), acc == cat_ber(v.subrange(0, k)).len(),
                target.out() == old(target).out() + cat_ber(v.subrange(0, k)), target.infallible() == old(target).infallible(),
            ensures k == v.len()
            decreases v.len() - k
//@ghost loop0.begin
            proof { lemma_cat_ber(v, k); if k < v.len() { assert(__fit0.rem()[0] == v[k]); assert(v[k].ber_ok()); assert(old(target).out() + cat_ber(v.subrange(0, k)) + v[k].ber_out() =~= old(target).out() + (cat_ber(v.subrange(0, k)) + v[k].ber_out())); } }
//@ghost loop0.end
            proof { k = k + 1; }
//@ghost loop0.after
        proof { assert(v.subrange(0, v.len() as int) =~= v); }
//@endfn
}
impl<'a, S: BuildHasher> ToBerX for AnySet<'a, S> {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/sequence/vec.rs | ToDer for Vec<T> | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der
impl<T: ToDerX + DynTagged> ToDer for Vec<T> {
//@assoctype src/asn1_types/sequence/vec.rs | ToDer for Vec<T> | Encoder
    open spec fn der_i(&self) -> (Class, bool, Tag) { (Class::Universal, true, Tag(16)) }
    open spec fn der_l(&self) -> Length { Length::Definite(cat_der(self@).len() as usize) }
    open spec fn der_c(&self) -> Seq<u8> { cat_der(self@) }
    open spec fn der_pre(&self) -> bool { all_der(self@) }
    open spec fn der_ok(&self) -> bool { all_der(self@) }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) {  }
//@fn src/asn1_types/sequence/vec.rs | ToDer for Vec<T> | der_content_len | key=P03+P16
//@ret r
//@subst der_length_constructed_items\(self\.iter\(\)\) ==> der_length_constructed_items(verif_slice_iter(self.as_slice()), Ghost(self@))
//@contract
//@endfn
//@fn src/asn1_types/sequence/vec.rs | ToDer for Vec<T> | der_tag_info | key=P02+P16
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/sequence/vec.rs | ToDer for Vec<T> | der_write_content | key=P03+P16
//@ret r
//@subst self\.iter\(\) ==> verif_slice_iter(self.as_slice())
//@contract
//@ghost loop0.before
        let ghost v = self@; let ghost mut k: int = 0;
        proof { assert(v.subrange(0, 0) =~= Seq::empty()); assert(cat_der(v.subrange(0, 0)) =~= Seq::<u8>::empty()); assert(old(target).out() + Seq::<u8>::empty() =~= old(target).out()); }
//@loop 0
            invariant
                v == self@, all_der(self@), srem(__fit0, v, k), acc == cat_der(v.subrange(0, k)).len(),
                target.out() == old(target).out() + cat_der(v.subrange(0, k)), target.infallible() == old(target).infallible(),
            ensures k == v.len()
            decreases v.len() - k
//@ghost loop0.begin
            proof { lemma_cat_der(v, k); if k < v.len() { assert(__fit0.rem()[0] == v[k]); assert(v[k].der_ok()); assert(old(target).out() + cat_der(v.subrange(0, k)) + v[k].der_out() =~= old(target).out() + (cat_der(v.subrange(0, k)) + v[k].der_out())); } }
//@ghost loop0.end
            proof { k = k + 1; }
//@ghost loop0.after
        proof { assert(v.subrange(0, v.len() as int) =~= v); }
//@endfn
}
impl<T: ToDerX + DynTagged> ToDerX for Vec<T> {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/sequence/array.rs | ToDer for [T;N] | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der
impl<T: ToDerX, const N: usize> ToDer for [T; N] {
//@assoctype src/asn1_types/sequence/array.rs | ToDer for [T;N] | Encoder
    open spec fn der_i(&self) -> (Class, bool, Tag) { (Class::Universal, true, Tag(16)) }
    open spec fn der_l(&self) -> Length { Length::Definite(cat_der(self@).len() as usize) }
    open spec fn der_c(&self) -> Seq<u8> { cat_der(self@) }
    open spec fn der_pre(&self) -> bool { all_der(self@) }
    open spec fn der_ok(&self) -> bool { all_der(self@) }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) {  }
//@fn src/asn1_types/sequence/array.rs | ToDer for [T;N] | der_content_len | key=P03+P16
//@ret r
//@subst der_length_constructed_items\(self\.iter\(\)\) ==> der_length_constructed_items(verif_array_iter(self), Ghost(self@))
//@contract
//@endfn
//@fn src/asn1_types/sequence/array.rs | ToDer for [T;N] | der_tag_info | key=P02+P16
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/sequence/array.rs | ToDer for [T;N] | der_write_content | key=P03+P16
//@ret r
//@subst self\.iter\(\) ==> verif_array_iter(self)
//@contract
//@ghost loop0.before
        let ghost v = self@; let ghost mut k: int = 0;
        proof { assert(v.subrange(0, 0) =~= Seq::empty()); assert(cat_der(v.subrange(0, 0)) =~= Seq::<u8>::empty()); assert(old(target).out() + Seq::<u8>::empty() =~= old(target).out()); }
//@loop 0
            invariant
                v == self@, all_der(self@), srem(__fit0, v, k), acc == cat_der(v.subrange(0, k)).len(),
                target.out() == old(target).out() + cat_der(v.subrange(0, k)), target.infallible() == old(target).infallible(),
            ensures k == v.len()
            decreases v.len() - k
//@ghost loop0.begin
            proof { lemma_cat_der(v, k); if k < v.len() { assert(__fit0.rem()[0] == v[k]); assert(v[k].der_ok()); assert(old(target).out() + cat_der(v.subrange(0, k)) + v[k].der_out() =~= old(target).out() + (cat_der(v.subrange(0, k)) + v[k].der_out())); } }
//@ghost loop0.end
            proof { k = k + 1; }
//@ghost loop0.after
        proof { assert(v.subrange(0, v.len() as int) =~= v); }
//@endfn
}
impl<T: ToDerX, const N: usize> ToDerX for [T; N] {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/sequence/sequence_of.rs | ToDer for SequenceOf<T> | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der
impl<T: ToDerX + DynTagged> ToDer for SequenceOf<T> {
//@assoctype src/asn1_types/sequence/sequence_of.rs | ToDer for SequenceOf<T> | Encoder
    open spec fn der_i(&self) -> (Class, bool, Tag) { (Class::Universal, true, Tag(16)) }
    open spec fn der_l(&self) -> Length { Length::Definite(cat_der(self.items@).len() as usize) }
    open spec fn der_c(&self) -> Seq<u8> { cat_der(self.items@) }
    open spec fn der_pre(&self) -> bool { all_der(self.items@) }
    open spec fn der_ok(&self) -> bool { all_der(self.items@) }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) {  }
//@fn src/asn1_types/sequence/sequence_of.rs | ToDer for SequenceOf<T> | der_content_len | key=P03+P16
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/sequence/sequence_of.rs | ToDer for SequenceOf<T> | der_tag_info | key=P02+P16
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/sequence/sequence_of.rs | ToDer for SequenceOf<T> | der_write_content | key=P03+P16
//@ret r
//@contract
//@endfn
}
impl<T: ToDerX + DynTagged> ToDerX for SequenceOf<T> {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/set/set_of.rs | ToDer for SetOf<T> | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der
impl<T: ToDerX + DynTagged> ToDer for SetOf<T> {
//@assoctype src/asn1_types/set/set_of.rs | ToDer for SetOf<T> | Encoder
    open spec fn der_i(&self) -> (Class, bool, Tag) { (Class::Universal, true, Tag(17)) }
    open spec fn der_l(&self) -> Length { Length::Definite(cat_der(self.items@).len() as usize) }
    open spec fn der_c(&self) -> Seq<u8> { cat_der(self.items@) }
    open spec fn der_pre(&self) -> bool { all_der(self.items@) }
    open spec fn der_ok(&self) -> bool { all_der(self.items@) }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) {  }
//@fn src/asn1_types/set/set_of.rs | ToDer for SetOf<T> | der_content_len | key=P03+P16
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/set/set_of.rs | ToDer for SetOf<T> | der_tag_info | key=P02+P16
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/set/set_of.rs | ToDer for SetOf<T> | der_write_content | key=P03+P16
//@ret r
//@contract
//@endfn
}
impl<T: ToDerX + DynTagged> ToDerX for SetOf<T> {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/set/btreeset.rs | ToDer for BTreeSet<T> | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der
impl<T: ToDerX + DynTagged> ToDer for BTreeSet<T> {
//@assoctype src/asn1_types/set/btreeset.rs | ToDer for BTreeSet<T> | Encoder
    open spec fn der_i(&self) -> (Class, bool, Tag) { (Class::Universal, true, Tag(17)) }
    open spec fn der_l(&self) -> Length { Length::Definite(cat_der(btree_seq(*self)).len() as usize) }
    open spec fn der_c(&self) -> Seq<u8> { cat_der(btree_seq(*self)) }
    open spec fn der_pre(&self) -> bool { all_der(btree_seq(*self)) }
    open spec fn der_ok(&self) -> bool { all_der(btree_seq(*self)) }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) {  }
//@fn src/asn1_types/set/btreeset.rs | ToDer for BTreeSet<T> | der_content_len | key=P03+P16
//@ret r
//@subst der_length_constructed_items\(self\.iter\(\)\) ==> der_length_constructed_items(verif_btree_iter(self), Ghost(btree_seq(*self)))
//@contract
//@endfn
//@fn src/asn1_types/set/btreeset.rs | ToDer for BTreeSet<T> | der_tag_info | key=P02+P16
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/set/btreeset.rs | ToDer for BTreeSet<T> | der_write_content | key=P03+P16
//@ret r
//@subst self\.iter\(\) ==> verif_btree_iter(self)
//@contract
//@ghost loop0.before
        let ghost v = btree_seq(*self); let ghost mut k: int = 0;
        proof { assert(v.subrange(0, 0) =~= Seq::empty()); assert(cat_der(v.subrange(0, 0)) =~= Seq::<u8>::empty()); assert(old(target).out() + Seq::<u8>::empty() =~= old(target).out()); }
//@loop 0
            invariant
                v == btree_seq(*self), all_der(btree_seq(*self)), srem(__fit0, v, k), acc == cat_der(v.subrange(0, k)).len(),
                target.out() == old(target).out() + cat_der(v.subrange(0, k)), target.infallible() == old(target).infallible(),
            ensures k == v.len()
            decreases v.len() - k
//@ghost loop0.begin
            proof { lemma_cat_der(v, k); if k < v.len() { assert(__fit0.rem()[0] == v[k]); assert(v[k].der_ok()); assert(old(target).out() + cat_der(v.subrange(0, k)) + v[k].der_out() =~= old(target).out() + (cat_der(v.subrange(0, k)) + v[k].der_out())); } }
//@ghost loop0.end
            proof { k = k + 1; }
//@ghost loop0.after
        proof { assert(v.subrange(0, v.len() as int) =~= v); }
//@endfn
}
impl<T: ToDerX + DynTagged> ToDerX for BTreeSet<T> {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/set/hashset.rs | ToDer for HashSet<T,S> | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der
impl<T: ToDerX + DynTagged, S> ToDer for HashSet<T, S> {
//@assoctype src/asn1_types/set/hashset.rs | ToDer for HashSet<T,S> | Encoder
    open spec fn der_i(&self) -> (Class, bool, Tag) { (Class::Universal, true, Tag(17)) }
    open spec fn der_l(&self) -> Length { Length::Definite(cat_der(hash_seq(*self)).len() as usize) }
    open spec fn der_c(&self) -> Seq<u8> { cat_der(hash_seq(*self)) }
    open spec fn der_pre(&self) -> bool { all_der(hash_seq(*self)) }
    open spec fn der_ok(&self) -> bool { all_der(hash_seq(*self)) }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) {  }
//@fn src/asn1_types/set/hashset.rs | ToDer for HashSet<T,S> | der_content_len | key=P03+P16
//@ret r
//@subst der_length_constructed_items\(self\.iter\(\)\) ==> der_length_constructed_items(verif_hash_iter(self), Ghost(hash_seq(*self)))
//@contract
//@endfn
//@fn src/asn1_types/set/hashset.rs | ToDer for HashSet<T,S> | der_tag_info | key=P02+P16
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/set/hashset.rs | ToDer for HashSet<T,S> | der_write_content | key=P03+P16
//@ret r
//@subst self\.iter\(\) ==> verif_hash_iter(self)
//@contract
//@ghost loop0.before
        let ghost v = hash_seq(*self); let ghost mut k: int = 0;
        proof { assert(v.subrange(0, 0) =~= Seq::empty()); assert(cat_der(v.subrange(0, 0)) =~= Seq::<u8>::empty()); assert(old(target).out() + Seq::<u8>::empty() =~= old(target).out()); }
//@loop 0
            invariant
                v == hash_seq(*self), all_der(hash_seq(*self)), srem(__fit0, v, k), acc == cat_der(v.subrange(0, k)).len(),
                target.out() == old(target).out() + cat_der(v.subrange(0, k)), target.infallible() == old(target).infallible(),
            ensures k == v.len()
            decreases v.len() - k
//@ghost loop0.begin
            proof { lemma_cat_der(v, k); if k < v.len() { assert(__fit0.rem()[0] == v[k]); assert(v[k].der_ok()); assert(old(target).out() + cat_der(v.subrange(0, k)) + v[k].der_out() =~= old(target).out() + (cat_der(v.subrange(0, k)) + v[k].der_out())); } }
//@ghost loop0.end
            proof { k = k + 1; }
//@ghost loop0.after
        proof { assert(v.subrange(0, v.len() as int) =~= v); }
//@endfn
}
impl<T: ToDerX + DynTagged, S> ToDerX for HashSet<T, S> {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/sequence/any_sequence.rs | ToDer for AnySequence<'_> | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der
impl<'a> ToDer for AnySequence<'a> {
//@assoctype src/asn1_types/sequence/any_sequence.rs | ToDer for AnySequence<'_> | Encoder
    open spec fn der_i(&self) -> (Class, bool, Tag) { (Class::Universal, true, Tag(16)) }
    open spec fn der_l(&self) -> Length { Length::Definite(cat_der(self.items@).len() as usize) }
    open spec fn der_c(&self) -> Seq<u8> { cat_der(self.items@) }
    open spec fn der_pre(&self) -> bool { all_der(self.items@) }
    open spec fn der_ok(&self) -> bool { all_der(self.items@) }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) {  }
//@fn src/asn1_types/sequence/any_sequence.rs | ToDer for AnySequence<'_> | der_content_len | key=P03+P16
//@ret r
//@subst der_length_constructed_items\(self\.iter\(\)\) ==> der_length_constructed_items(self.iter(), Ghost(self.items@))
//@contract
//@endfn
//@fn src/asn1_types/sequence/any_sequence.rs | ToDer for AnySequence<'_> | der_tag_info | key=P02+P16
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/sequence/any_sequence.rs | ToDer for AnySequence<'_> | der_write_content | key=P03+P16
//@ret r
//@subst self\.iter\(\) ==> self.iter()
//@contract
//@ghost loop0.before
        let ghost v = self.items@; let ghost mut k: int = 0;
        proof { assert(v.subrange(0, 0) =~= Seq::empty()); assert(cat_der(v.subrange(0, 0)) =~= Seq::<u8>::empty()); assert(old(target).out() + Seq::<u8>::empty() =~= old(target).out()); }
//@loop 0
            invariant
                v == self.items@, all_der(self.items@), srem(__fit0, v, k), acc == cat_der(v.subrange(0, k)).len(),
                target.out() == old(target).out() + cat_der(v.subrange(0, k)), target.infallible() == old(target).infallible(),
            ensures k == v.len()
            decreases v.len() - k
//@ghost loop0.begin
            proof { lemma_cat_der(v, k); if k < v.len() { assert(__fit0.rem()[0] == v[k]); assert(v[k].der_ok()); assert(old(target).out() + cat_der(v.subrange(0, k)) + v[k].der_out() =~= old(target).out() + (cat_der(v.subrange(0, k)) + v[k].der_out())); } }
//@ghost loop0.end
            proof { k = k + 1; }
//@ghost loop0.after
        proof { assert(v.subrange(0, v.len() as int) =~= v); }
//@endfn
}
impl<'a> ToDerX for AnySequence<'a> {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/set/any_set.rs | ToDer for AnySet<'_,S> | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der
impl<'a, S: BuildHasher> ToDer for AnySet<'a, S> {
//@assoctype src/asn1_types/set/any_set.rs | ToDer for AnySet<'_,S> | Encoder
    open spec fn der_i(&self) -> (Class, bool, Tag) { (Class::Universal, true, Tag(17)) }
    open spec fn der_l(&self) -> Length { Length::Definite(cat_der(hash_seq(self.items)).len() as usize) }
    open spec fn der_c(&self) -> Seq<u8> { cat_der(hash_seq(self.items)) }
    open spec fn der_pre(&self) -> bool { all_der(hash_seq(self.items)) }
    open spec fn der_ok(&self) -> bool { all_der(hash_seq(self.items)) }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) {  }
//@fn src/asn1_types/set/any_set.rs | ToDer for AnySet<'_,S> | der_content_len | key=P03+P16
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/set/any_set.rs | ToDer for AnySet<'_,S> | der_tag_info | key=P02+P16
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/set/any_set.rs | ToDer for AnySet<'_,S> | der_write_content | key=P03+P16
//@ret r
//@subst self\.iter\(\) ==> self.iter()
//@contract
//@ghost loop0.before
        let ghost v = hash_seq(self.items); let ghost mut k: int = 0;
        proof { assert(v.subrange(0, 0) =~= Seq::empty()); assert(cat_der(v.subrange(0, 0)) =~= Seq::<u8>::empty()); assert(old(target).out() + Seq::<u8>::empty() =~= old(target).out()); }
//@loop 0
            invariant
                v == hash_seq(self.items), all_der(hash_seq(self.items)), srem(__fit0, v, k), acc == cat_der(v.subrange(0, k)).len(),
                target.out() == old(target).out() + cat_der(v.subrange(0, k)), target.infallible() == old(target).infallible(),
            ensures k == v.len()
            decreases v.len() - k
//@ghost loop0.begin
            proof { lemma_cat_der(v, k); if k < v.len() { assert(__fit0.rem()[0] == v[k]); assert(v[k].der_ok()); assert(old(target).out() + cat_der(v.subrange(0, k)) + v[k].der_out() =~= old(target).out() + (cat_der(v.subrange(0, k)) + v[k].der_out())); } }
//@ghost loop0.end
            proof { k = k + 1; }
//@ghost loop0.after
        proof { assert(v.subrange(0, v.len() as int) =~= v); }
//@endfn
}
impl<'a, S: BuildHasher> ToDerX for AnySet<'a, S> {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
// ---- optional values, references, tagged values
//@default src/asn1_types/optional.rs | ToBer for Option<T> | ber_write_header,to_ber_vec,write_ber
impl<T: ToBerX + DynTagged> ToBer for Option<T> {
//@assoctype src/asn1_types/optional.rs | ToBer for Option<T> | Encoder
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (self.sp_class(), self.sp_cons(), self.sp_tag()) }
    open spec fn ber_l(&self) -> Length { match self { Some(t) => t.ber_l(), None => Length::Definite(0) } }
    open spec fn ber_c(&self) -> Seq<u8> { match self { Some(t) => t.ber_c(), None => Seq::empty() } }
    open spec fn ber_pre(&self) -> bool { match self { Some(t) => t.ber_pre(), None => true } }
    open spec fn ber_ok(&self) -> bool { match self { Some(t) => t.ber_ok() && t.ber_i() == (t.sp_class(), t.sp_cons(), t.sp_tag()), None => true } }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) { if let Some(t) = self { if t.ber_ok() { t.lemma_ber_l(); } } }
//@fn src/asn1_types/optional.rs | ToBer for Option<T> | ber_content_len | key=P03+P17
//@ret r
//@contract
//@ghost entry
        proof { if let Some(t) = self { if t.ber_ok() { t.lemma_ber_l(); } } }
//@endfn
//@fn src/asn1_types/optional.rs | ToBer for Option<T> | ber_tag_info | key=P02+P17
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/optional.rs | ToBer for Option<T> | ber_write_content | key=P03+P17
//@ret r
//@contract
//@ghost entry
        proof { assert(old(target).out() + Seq::<u8>::empty() =~= old(target).out()); }
//@endfn
}
impl<T: ToBerX + DynTagged> ToBerX for Option<T> {
    open spec fn ber_abs(&self) -> bool { match self { Some(t) => t.ber_abs(), None => true } }
    open spec fn ber_out(&self) -> Seq<u8> { match self { Some(t) => t.ber_out(), None => Seq::empty() } }
    proof fn lemma_ber_out(&self) { if let Some(t) = self { t.lemma_ber_out(); } }
//@fn src/asn1_types/optional.rs | ToBer for Option<T> | ber_total_len | key=P17+P02+P03+P15
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/optional.rs | ToBer for Option<T> | ber_encode | key=P17+P02+P03+P15
//@ret r
//@contract
//@ghost entry
        proof { assert(old(target).out() + Seq::<u8>::empty() =~= old(target).out()); }
//@endfn
//@fn src/asn1_types/optional.rs | ToBer for Option<T> | ber_encode_tagged_explicit | key=P17+P02+P03+P15
//@ret r
//@contract
//@ghost entry
        proof { assert(old(target).out() + Seq::<u8>::empty() =~= old(target).out()); }
//@endfn
//@fn src/asn1_types/optional.rs | ToBer for Option<T> | ber_encode_tagged_implicit | key=P17+P02+P03+P15
//@ret r
//@contract
//@ghost entry
        proof { assert(old(target).out() + Seq::<u8>::empty() =~= old(target).out()); }
//@endfn
}
//@default src/to_ber.rs | ToBer for &'_ T | to_ber_vec,write_ber
impl<E: BerEncoder, T: ToBerX + ToBer<Encoder = E>> ToBer for &'_ T {
//@assoctype src/to_ber.rs | ToBer for &'_ T | Encoder
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (**self).ber_i() }
    open spec fn ber_l(&self) -> Length { (**self).ber_l() }
    open spec fn ber_c(&self) -> Seq<u8> { (**self).ber_c() }
    open spec fn ber_pre(&self) -> bool { (**self).ber_pre() }
    open spec fn ber_ok(&self) -> bool { (**self).ber_ok() }
    proof fn lemma_ber_i(&self) { (**self).lemma_ber_i(); }
    proof fn lemma_ber_l(&self) { (**self).lemma_ber_l(); }
//@fn src/to_ber.rs | ToBer for &'_ T | ber_content_len | key=P03
//@ret r
//@contract
//@endfn
//@fn src/to_ber.rs | ToBer for &'_ T | ber_tag_info | key=P02
//@ret r
//@contract
//@endfn
//@fn src/to_ber.rs | ToBer for &'_ T | ber_write_content | key=P03
//@ret r
//@contract
//@endfn
}
impl<E: BerEncoder, T: ToBerX + ToBer<Encoder = E>> ToBerX for &'_ T {
    open spec fn ber_abs(&self) -> bool { (**self).ber_abs() }
    open spec fn ber_out(&self) -> Seq<u8> { (**self).ber_out() }
    proof fn lemma_ber_out(&self) { (**self).lemma_ber_out(); }
//@fn src/to_ber.rs | ToBer for &'_ T | ber_total_len | key=P17+P02+P03+P15
//@ret r
//@contract
//@endfn
//@fn src/to_ber.rs | ToBer for &'_ T | ber_encode | key=P17+P02+P03+P15
//@ret r
//@contract
//@endfn
//@fn src/to_ber.rs | ToBer for &'_ T | ber_encode_tagged_explicit | key=P17+P02+P03+P15
//@ret r
//@contract
//@endfn
//@fn src/to_ber.rs | ToBer for &'_ T | ber_encode_tagged_implicit | key=P17+P02+P03+P15
//@ret r
//@contract
//@endfn
}
/// `write_header` of a reference
pub trait ToBerRefHeader: ToBerX {
    fn ber_write_header_ref<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>)
        requires self.ber_pre()
        ensures wpost(*old(target), *final(target), r, hdr_enc(self.ber_i(), self.ber_l()));
}
impl<E: BerEncoder, T: ToBerX + ToBer<Encoder = E>> ToBerRefHeader for &'_ T {
//@fn src/to_ber.rs | ToBer for &'_ T | ber_write_header | key=P02+P03 | rename=ber_write_header_ref
//@ret r
//@subst \.ber_write_header\( ==> .ber_write_header_default(
//@contract
//@endfn
}
//@default src/asn1_types/tagged/explicit.rs | ToBer for TaggedValue<T,E,Explicit,CLASS,TAG> | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber
impl<T: ToBerX + DynTagged, E, const CLASS: u8, const TAG: u32> ToBer for TaggedValue<T, E, Explicit, CLASS, TAG> {
//@assoctype src/asn1_types/tagged/explicit.rs | ToBer for TaggedValue<T,E,Explicit,CLASS,TAG> | Encoder
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (<Self as Tagged>::CLASS, true, <Self as Tagged>::TAG) }
    open spec fn ber_l(&self) -> Length { Length::Definite(self.ber_c().len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { obj_enc(self.inner.ber_i(), self.inner.ber_c()) }
    open spec fn ber_pre(&self) -> bool { self.ber_ok() }
    open spec fn ber_ok(&self) -> bool { self.inner.ber_ok() && !self.inner.ber_abs() && self.inner.ber_i().2 == self.inner.sp_tag() && fits(self.ber_c().len() as int) }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) { if self.ber_ok() { self.inner.lemma_ber_l(); self.inner.lemma_ber_out(); lemma_obj_enc(self.inner.ber_i(), self.inner.ber_c()); lemma_hdr_len(self.inner.ber_i(), self.inner.ber_l()); } }
//@fn src/asn1_types/tagged/explicit.rs | ToBer for TaggedValue<T,E,Explicit,CLASS,TAG> | ber_content_len | key=P03+P15
//@ret r
//@contract
//@ghost entry
        proof { if self.ber_ok() { self.inner.lemma_ber_l(); self.inner.lemma_ber_out(); lemma_obj_enc(self.inner.ber_i(), self.inner.ber_c()); lemma_hdr_len(self.inner.ber_i(), self.inner.ber_l()); } }
//@endfn
//@fn src/asn1_types/tagged/explicit.rs | ToBer for TaggedValue<T,E,Explicit,CLASS,TAG> | ber_tag_info | key=P02+P15
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/tagged/explicit.rs | ToBer for TaggedValue<T,E,Explicit,CLASS,TAG> | ber_write_content | key=P03+P15
//@ret r
//@contract
//@ghost entry
        proof { self.inner.lemma_ber_out(); }
//@endfn
}
impl<T: ToBerX + DynTagged, E, const CLASS: u8, const TAG: u32> ToBerX for TaggedValue<T, E, Explicit, CLASS, TAG> {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/tagged/implicit.rs | ToBer for TaggedValue<T,E,Implicit,CLASS,TAG> | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber
impl<T: ToBerX + DynTagged, E, const CLASS: u8, const TAG: u32> ToBer for TaggedValue<T, E, Implicit, CLASS, TAG> {
//@assoctype src/asn1_types/tagged/implicit.rs | ToBer for TaggedValue<T,E,Implicit,CLASS,TAG> | Encoder
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (self.sp_class(), self.sp_cons(), self.sp_tag()) }
    open spec fn ber_l(&self) -> Length { self.inner.ber_l() }
    open spec fn ber_c(&self) -> Seq<u8> { self.inner.ber_c() }
    open spec fn ber_pre(&self) -> bool { self.inner.ber_pre() }
    open spec fn ber_ok(&self) -> bool { self.inner.ber_ok() && !self.inner.ber_abs() && self.inner.ber_i().1 == self.inner.sp_cons() }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) { if self.ber_ok() { self.inner.lemma_ber_l(); } }
//@fn src/asn1_types/tagged/implicit.rs | ToBer for TaggedValue<T,E,Implicit,CLASS,TAG> | ber_content_len | key=P03+P15
//@ret r
//@contract
//@ghost entry
        proof { if self.ber_ok() { self.inner.lemma_ber_l(); } }
//@endfn
//@fn src/asn1_types/tagged/implicit.rs | ToBer for TaggedValue<T,E,Implicit,CLASS,TAG> | ber_tag_info | key=P02+P15
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/tagged/implicit.rs | ToBer for TaggedValue<T,E,Implicit,CLASS,TAG> | ber_write_content | key=P03+P15
//@ret r
//@contract
//@endfn
}
impl<T: ToBerX + DynTagged, E, const CLASS: u8, const TAG: u32> ToBerX for TaggedValue<T, E, Implicit, CLASS, TAG> {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/tagged/explicit.rs | ToBer for TaggedParser<'_,Explicit,T,E> | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber
impl<'a, T: ToBerX, E> ToBer for TaggedParser<'a, Explicit, T, E> {
//@assoctype src/asn1_types/tagged/explicit.rs | ToBer for TaggedParser<'_,Explicit,T,E> | Encoder
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (self.header.class, true, self.header.tag) }
    open spec fn ber_l(&self) -> Length { Length::Definite(self.inner.ber_out().len() as usize) }
    open spec fn ber_c(&self) -> Seq<u8> { self.inner.ber_out() }
    open spec fn ber_pre(&self) -> bool { self.inner.ber_ok() }
    open spec fn ber_ok(&self) -> bool { self.inner.ber_ok() && fits(self.ber_c().len() as int) }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) {  }
//@fn src/asn1_types/tagged/explicit.rs | ToBer for TaggedParser<'_,Explicit,T,E> | ber_content_len | key=P03+P15
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/tagged/explicit.rs | ToBer for TaggedParser<'_,Explicit,T,E> | ber_tag_info | key=P02+P15
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/tagged/explicit.rs | ToBer for TaggedParser<'_,Explicit,T,E> | ber_write_content | key=P03+P15
//@ret r
//@contract
//@endfn
}
impl<'a, T: ToBerX, E> ToBerX for TaggedParser<'a, Explicit, T, E> {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/tagged/implicit.rs | ToBer for TaggedParser<'_,Implicit,T,E> | ber_total_len,ber_write_header,ber_encode,ber_encode_tagged_explicit,ber_encode_tagged_implicit,to_ber_vec,write_ber
impl<'a, T: ToBerX, E> ToBer for TaggedParser<'a, Implicit, T, E> {
//@assoctype src/asn1_types/tagged/implicit.rs | ToBer for TaggedParser<'_,Implicit,T,E> | Encoder
    open spec fn ber_i(&self) -> (Class, bool, Tag) { (self.header.class, self.inner.ber_i().1, self.header.tag) }
    open spec fn ber_l(&self) -> Length { self.inner.ber_l() }
    open spec fn ber_c(&self) -> Seq<u8> { self.inner.ber_c() }
    open spec fn ber_pre(&self) -> bool { self.inner.ber_pre() }
    open spec fn ber_ok(&self) -> bool { self.inner.ber_ok() && !self.inner.ber_abs() }
    proof fn lemma_ber_i(&self) {  let i = self.ber_i(); assert(<Self as ToBer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_ber_l(&self) { if self.ber_ok() { self.inner.lemma_ber_l(); } }
//@fn src/asn1_types/tagged/implicit.rs | ToBer for TaggedParser<'_,Implicit,T,E> | ber_content_len | key=P03+P15
//@ret r
//@contract
//@ghost entry
        proof { if self.ber_ok() { self.inner.lemma_ber_l(); } }
//@endfn
//@fn src/asn1_types/tagged/implicit.rs | ToBer for TaggedParser<'_,Implicit,T,E> | ber_tag_info | key=P02+P15
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/tagged/implicit.rs | ToBer for TaggedParser<'_,Implicit,T,E> | ber_write_content | key=P03+P15
//@ret r
//@contract
//@endfn
}
impl<'a, T: ToBerX, E> ToBerX for TaggedParser<'a, Implicit, T, E> {
    open spec fn ber_abs(&self) -> bool { false }
    open spec fn ber_out(&self) -> Seq<u8> { obj_enc(self.ber_i(), self.ber_c()) }
    proof fn lemma_ber_out(&self) {}
    fn ber_total_len(&self) -> (r: Length) { self.ber_total_len_default() }
    fn ber_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_default(target) }
    fn ber_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_explicit_default(class, tag_number, target) }
    fn ber_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.ber_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/optional.rs | ToDer for Option<T> | der_write_header,to_der_vec,write_der
impl<T: ToDerX + DynTagged> ToDer for Option<T> {
//@assoctype src/asn1_types/optional.rs | ToDer for Option<T> | Encoder
    open spec fn der_i(&self) -> (Class, bool, Tag) { (self.sp_class(), self.sp_cons(), self.sp_tag()) }
    open spec fn der_l(&self) -> Length { match self { Some(t) => t.der_l(), None => Length::Definite(0) } }
    open spec fn der_c(&self) -> Seq<u8> { match self { Some(t) => t.der_c(), None => Seq::empty() } }
    open spec fn der_pre(&self) -> bool { match self { Some(t) => t.der_pre(), None => true } }
    open spec fn der_ok(&self) -> bool { match self { Some(t) => t.der_ok() && t.der_i() == (t.sp_class(), t.sp_cons(), t.sp_tag()), None => true } }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) { if let Some(t) = self { if t.der_ok() { t.lemma_der_l(); } } }
//@fn src/asn1_types/optional.rs | ToDer for Option<T> | der_content_len | key=P03+P17
//@ret r
//@contract
//@ghost entry
        proof { if let Some(t) = self { if t.der_ok() { t.lemma_der_l(); } } }
//@endfn
//@fn src/asn1_types/optional.rs | ToDer for Option<T> | der_tag_info | key=P02+P17
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/optional.rs | ToDer for Option<T> | der_write_content | key=P03+P17
//@ret r
//@contract
//@ghost entry
        proof { assert(old(target).out() + Seq::<u8>::empty() =~= old(target).out()); }
//@endfn
}
impl<T: ToDerX + DynTagged> ToDerX for Option<T> {
    open spec fn der_abs(&self) -> bool { match self { Some(t) => t.der_abs(), None => true } }
    open spec fn der_out(&self) -> Seq<u8> { match self { Some(t) => t.der_out(), None => Seq::empty() } }
    proof fn lemma_der_out(&self) { if let Some(t) = self { t.lemma_der_out(); } }
//@fn src/asn1_types/optional.rs | ToDer for Option<T> | der_total_len | key=P17+P02+P03+P15
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/optional.rs | ToDer for Option<T> | der_encode | key=P17+P02+P03+P15
//@ret r
//@contract
//@ghost entry
        proof { assert(old(target).out() + Seq::<u8>::empty() =~= old(target).out()); }
//@endfn
//@fn src/asn1_types/optional.rs | ToDer for Option<T> | der_encode_tagged_explicit | key=P17+P02+P03+P15
//@ret r
//@contract
//@ghost entry
        proof { assert(old(target).out() + Seq::<u8>::empty() =~= old(target).out()); }
//@endfn
//@fn src/asn1_types/optional.rs | ToDer for Option<T> | der_encode_tagged_implicit | key=P17+P02+P03+P15
//@ret r
//@contract
//@ghost entry
        proof { assert(old(target).out() + Seq::<u8>::empty() =~= old(target).out()); }
//@endfn
}
//@default src/to_der.rs | ToDer for &'_ T | to_der_vec,write_der
impl<E: BerEncoder, T: ToDerX + ToDer<Encoder = E>> ToDer for &'_ T {
//@assoctype src/to_der.rs | ToDer for &'_ T | Encoder
    open spec fn der_i(&self) -> (Class, bool, Tag) { (**self).der_i() }
    open spec fn der_l(&self) -> Length { (**self).der_l() }
    open spec fn der_c(&self) -> Seq<u8> { (**self).der_c() }
    open spec fn der_pre(&self) -> bool { (**self).der_pre() }
    open spec fn der_ok(&self) -> bool { (**self).der_ok() }
    proof fn lemma_der_i(&self) { (**self).lemma_der_i(); }
    proof fn lemma_der_l(&self) { (**self).lemma_der_l(); }
//@fn src/to_der.rs | ToDer for &'_ T | der_content_len | key=P03
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for &'_ T | der_tag_info | key=P02
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for &'_ T | der_write_content | key=P03
//@ret r
//@contract
//@endfn
}
impl<E: BerEncoder, T: ToDerX + ToDer<Encoder = E>> ToDerX for &'_ T {
    open spec fn der_abs(&self) -> bool { (**self).der_abs() }
    open spec fn der_out(&self) -> Seq<u8> { (**self).der_out() }
    proof fn lemma_der_out(&self) { (**self).lemma_der_out(); }
//@fn src/to_der.rs | ToDer for &'_ T | der_total_len | key=P17+P02+P03+P15
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for &'_ T | der_encode | key=P17+P02+P03+P15
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for &'_ T | der_encode_tagged_explicit | key=P17+P02+P03+P15
//@ret r
//@contract
//@endfn
//@fn src/to_der.rs | ToDer for &'_ T | der_encode_tagged_implicit | key=P17+P02+P03+P15
//@ret r
//@contract
//@endfn
}
/// `write_header` of a reference
pub trait ToDerRefHeader: ToDerX {
    fn der_write_header_ref<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>)
        requires self.der_pre()
        ensures wpost(*old(target), *final(target), r, hdr_enc(self.der_i(), self.der_l()));
}
impl<E: BerEncoder, T: ToDerX + ToDer<Encoder = E>> ToDerRefHeader for &'_ T {
//@fn src/to_der.rs | ToDer for &'_ T | der_write_header | key=P02+P03 | rename=der_write_header_ref
//@ret r
//@subst \.der_write_header\( ==> .der_write_header_default(
//@contract
//@endfn
}
//@default src/asn1_types/tagged/explicit.rs | ToDer for TaggedValue<T,E,Explicit,CLASS,TAG> | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der
impl<T: ToDerX + DynTagged, E, const CLASS: u8, const TAG: u32> ToDer for TaggedValue<T, E, Explicit, CLASS, TAG> {
//@assoctype src/asn1_types/tagged/explicit.rs | ToDer for TaggedValue<T,E,Explicit,CLASS,TAG> | Encoder
    open spec fn der_i(&self) -> (Class, bool, Tag) { (<Self as Tagged>::CLASS, true, <Self as Tagged>::TAG) }
    open spec fn der_l(&self) -> Length { Length::Definite(self.der_c().len() as usize) }
    open spec fn der_c(&self) -> Seq<u8> { obj_enc(self.inner.der_i(), self.inner.der_c()) }
    open spec fn der_pre(&self) -> bool { self.der_ok() }
    open spec fn der_ok(&self) -> bool { self.inner.der_ok() && !self.inner.der_abs() && self.inner.der_i().2 == self.inner.sp_tag() && fits(self.der_c().len() as int) }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) { if self.der_ok() { self.inner.lemma_der_l(); self.inner.lemma_der_out(); lemma_obj_enc(self.inner.der_i(), self.inner.der_c()); lemma_hdr_len(self.inner.der_i(), self.inner.der_l()); } }
//@fn src/asn1_types/tagged/explicit.rs | ToDer for TaggedValue<T,E,Explicit,CLASS,TAG> | der_content_len | key=P03+P15
//@ret r
//@contract
//@ghost entry
        proof { if self.der_ok() { self.inner.lemma_der_l(); self.inner.lemma_der_out(); lemma_obj_enc(self.inner.der_i(), self.inner.der_c()); lemma_hdr_len(self.inner.der_i(), self.inner.der_l()); } }
//@endfn
//@fn src/asn1_types/tagged/explicit.rs | ToDer for TaggedValue<T,E,Explicit,CLASS,TAG> | der_tag_info | key=P02+P15
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/tagged/explicit.rs | ToDer for TaggedValue<T,E,Explicit,CLASS,TAG> | der_write_content | key=P03+P15
//@ret r
//@contract
//@ghost entry
        proof { self.inner.lemma_der_out(); }
//@endfn
}
impl<T: ToDerX + DynTagged, E, const CLASS: u8, const TAG: u32> ToDerX for TaggedValue<T, E, Explicit, CLASS, TAG> {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/tagged/implicit.rs | ToDer for TaggedValue<T,E,Implicit,CLASS,TAG> | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der
impl<T: ToDerX + DynTagged, E, const CLASS: u8, const TAG: u32> ToDer for TaggedValue<T, E, Implicit, CLASS, TAG> {
//@assoctype src/asn1_types/tagged/implicit.rs | ToDer for TaggedValue<T,E,Implicit,CLASS,TAG> | Encoder
    open spec fn der_i(&self) -> (Class, bool, Tag) { (self.sp_class(), self.sp_cons(), self.sp_tag()) }
    open spec fn der_l(&self) -> Length { self.inner.der_l() }
    open spec fn der_c(&self) -> Seq<u8> { self.inner.der_c() }
    open spec fn der_pre(&self) -> bool { self.inner.der_pre() }
    open spec fn der_ok(&self) -> bool { self.inner.der_ok() && !self.inner.der_abs() && self.inner.der_i().1 == self.inner.sp_cons() }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) { if self.der_ok() { self.inner.lemma_der_l(); } }
//@fn src/asn1_types/tagged/implicit.rs | ToDer for TaggedValue<T,E,Implicit,CLASS,TAG> | der_content_len | key=P03+P15
//@ret r
//@contract
//@ghost entry
        proof { if self.der_ok() { self.inner.lemma_der_l(); } }
//@endfn
//@fn src/asn1_types/tagged/implicit.rs | ToDer for TaggedValue<T,E,Implicit,CLASS,TAG> | der_tag_info | key=P02+P15
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/tagged/implicit.rs | ToDer for TaggedValue<T,E,Implicit,CLASS,TAG> | der_write_content | key=P03+P15
//@ret r
//@contract
//@endfn
}
impl<T: ToDerX + DynTagged, E, const CLASS: u8, const TAG: u32> ToDerX for TaggedValue<T, E, Implicit, CLASS, TAG> {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/tagged/explicit.rs | ToDer for TaggedParser<'_,Explicit,T,E> | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der
impl<'a, T: ToDerX, E> ToDer for TaggedParser<'a, Explicit, T, E> {
//@assoctype src/asn1_types/tagged/explicit.rs | ToDer for TaggedParser<'_,Explicit,T,E> | Encoder
    open spec fn der_i(&self) -> (Class, bool, Tag) { (self.header.class, true, self.header.tag) }
    open spec fn der_l(&self) -> Length { Length::Definite(self.inner.der_out().len() as usize) }
    open spec fn der_c(&self) -> Seq<u8> { self.inner.der_out() }
    open spec fn der_pre(&self) -> bool { self.inner.der_ok() }
    open spec fn der_ok(&self) -> bool { self.inner.der_ok() && fits(self.der_c().len() as int) }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) {  }
//@fn src/asn1_types/tagged/explicit.rs | ToDer for TaggedParser<'_,Explicit,T,E> | der_content_len | key=P03+P15
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/tagged/explicit.rs | ToDer for TaggedParser<'_,Explicit,T,E> | der_tag_info | key=P02+P15
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/tagged/explicit.rs | ToDer for TaggedParser<'_,Explicit,T,E> | der_write_content | key=P03+P15
//@ret r
//@contract
//@endfn
}
impl<'a, T: ToDerX, E> ToDerX for TaggedParser<'a, Explicit, T, E> {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
//@default src/asn1_types/tagged/implicit.rs | ToDer for TaggedParser<'_,Implicit,T,E> | der_total_len,der_write_header,der_encode,der_encode_tagged_explicit,der_encode_tagged_implicit,to_der_vec,write_der
impl<'a, T: ToDerX, E> ToDer for TaggedParser<'a, Implicit, T, E> {
//@assoctype src/asn1_types/tagged/implicit.rs | ToDer for TaggedParser<'_,Implicit,T,E> | Encoder
    open spec fn der_i(&self) -> (Class, bool, Tag) { (self.header.class, self.inner.der_i().1, self.header.tag) }
    open spec fn der_l(&self) -> Length { self.inner.der_l() }
    open spec fn der_c(&self) -> Seq<u8> { self.inner.der_c() }
    open spec fn der_pre(&self) -> bool { self.inner.der_pre() }
    open spec fn der_ok(&self) -> bool { self.inner.der_ok() && !self.inner.der_abs() }
    proof fn lemma_der_i(&self) {  let i = self.der_i(); assert(<Self as ToDer>::Encoder::tag_spec(i.0, i.1, i.2) == id_enc(i.0, i.1, i.2)); }
    proof fn lemma_der_l(&self) { if self.der_ok() { self.inner.lemma_der_l(); } }
//@fn src/asn1_types/tagged/implicit.rs | ToDer for TaggedParser<'_,Implicit,T,E> | der_content_len | key=P03+P15
//@ret r
//@contract
//@ghost entry
        proof { if self.der_ok() { self.inner.lemma_der_l(); } }
//@endfn
//@fn src/asn1_types/tagged/implicit.rs | ToDer for TaggedParser<'_,Implicit,T,E> | der_tag_info | key=P02+P15
//@ret r
//@contract
//@endfn
//@fn src/asn1_types/tagged/implicit.rs | ToDer for TaggedParser<'_,Implicit,T,E> | der_write_content | key=P03+P15
//@ret r
//@contract
//@endfn
}
impl<'a, T: ToDerX, E> ToDerX for TaggedParser<'a, Implicit, T, E> {
    open spec fn der_abs(&self) -> bool { false }
    open spec fn der_out(&self) -> Seq<u8> { obj_enc(self.der_i(), self.der_c()) }
    proof fn lemma_der_out(&self) {}
    fn der_total_len(&self) -> (r: Length) { self.der_total_len_default() }
    fn der_encode<W: Write>(&self, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_default(target) }
    fn der_encode_tagged_explicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_explicit_default(class, tag_number, target) }
    fn der_encode_tagged_implicit<W: Write>(&self, class: Class, tag_number: u32, target: &mut W) -> (r: SerializeResult<usize>) { self.der_encode_tagged_implicit_default(class, tag_number, target) }
}
}
