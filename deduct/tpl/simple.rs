verus! {
// ------------------------------------------------------------------ BOOLEAN, NULL, ENUMERATED, END-OF-CONTENTS (X.690 8.2, 8.8, 8.4, 11.1)
//@item src/asn1_types/boolean.rs | struct Boolean
//@item src/asn1_types/null.rs | struct Null
//@item src/asn1_types/enumerated.rs | struct Enumerated
//@item src/asn1_types/end_of_content.rs | struct EndOfContent
pub open spec fn bool_dec(h: HV, c: Seq<u8>) -> Option<u8> {
    if h.cons || h.len != Length::Definite(1) || c.len() == 0 { None } else { Some(c[0]) }
}
pub open spec fn null_dec(h: HV) -> Option<()> {
    if h.cons || h.len != Length::Definite(0) { None } else { Some(()) }
}
pub open spec fn bool_canon(c: Seq<u8>) -> bool { c.len() == 1 && (c[0] == 0 || c[0] == 0xff) }
impl<'a> Input<'a> {
//@fn src/input.rs | AsBytes for Input<'a> | as_bytes | key=P09
//@ret r
//@contract
    ensures r == self.data
//@endfn
}
impl Boolean {
//@fn src/asn1_types/boolean.rs | Boolean | new | key=P09
//@ret r
//@contract
    ensures r.value == value
//@endfn
//@fn src/asn1_types/boolean.rs | Boolean | bool | key=P09
//@ret r
//@contract
    ensures r == (self.value != 0)
//@endfn
}
impl Tagged for Boolean {
//@consts src/asn1_types/boolean.rs | Tagged for Boolean
}
impl Tagged for bool {
//@consts src/asn1_types/boolean.rs | Tagged for bool
}
impl Tagged for Null {
//@consts src/asn1_types/null.rs | Tagged for Null
}
impl Tagged for () {
//@consts src/asn1_types/null.rs | Tagged for ()
}
impl Tagged for Enumerated {
//@consts src/asn1_types/enumerated.rs | Tagged for Enumerated
}
impl Tagged for EndOfContent {
//@consts src/asn1_types/end_of_content.rs | Tagged for EndOfContent
}
impl<'i> BerContent<'i> for Boolean {
    type Error = BerError<Input<'i>>;
    type V = u8;
    open spec fn sp_val(&self) -> u8 { self.value }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<u8> { bool_dec(h, c) }
//@fn src/asn1_types/boolean.rs | BerParser<'i> for Boolean | from_ber_content | key=P09
//@ret res
//@contract
//@endfn
}
impl<'i> DerContent<'i> for Boolean {
    type Error = BerError<Input<'i>>;
    type DV = u8;
    open spec fn sp_dval(&self) -> u8 { self.value }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<u8> { if c.len() > 0 && (c[0] == 0 || c[0] == 0xff) { bool_dec(h, c) } else { None } }
//@fn src/asn1_types/boolean.rs | DerParser<'i> for Boolean | from_der_content | key=P09
//@ret res
//@subst Boolean::from_ber_content\( ==> <Boolean as BerContent>::from_ber_content(
//@contract
//@endfn
}
impl CheckDerConstraints for Boolean {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { bool_canon(c) }
//@fn src/asn1_types/boolean.rs | CheckDerConstraints for Boolean | check_constraints | key=P09
//@ret res
//@contract
//@endfn
}
impl<'i> BerContent<'i> for bool {
    type Error = BerError<Input<'i>>;
    type V = bool;
    open spec fn sp_val(&self) -> bool { *self }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<bool> { match bool_dec(h, c) { None => None, Some(v) => Some(v != 0) } }
//@fn src/asn1_types/boolean.rs | BerParser<'i> for bool | from_ber_content | key=P09
//@ret res
//@subst <Boolean>::from_ber_content\( ==> <Boolean as BerContent>::from_ber_content(
//@closure 0 |__c0: (Input<'i>, Boolean)| -> (o: (Input<'i>, bool)) ensures o.0 == __c0.0, o.1 == (__c0.1.value != 0)
//@contract
//@endfn
}
impl<'i> DerContent<'i> for bool {
    type Error = BerError<Input<'i>>;
    type DV = bool;
    open spec fn sp_dval(&self) -> bool { *self }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<bool> { if c.len() > 0 && (c[0] == 0 || c[0] == 0xff) { match bool_dec(h, c) { None => None, Some(v) => Some(v != 0) } } else { None } }
//@fn src/asn1_types/boolean.rs | DerParser<'i> for bool | from_der_content | key=P09
//@ret res
//@subst <Boolean>::from_der_content\( ==> <Boolean as DerContent>::from_der_content(
//@closure 0 |__c0: (Input<'i>, Boolean)| -> (o: (Input<'i>, bool)) ensures o.0 == __c0.0, o.1 == (__c0.1.value != 0)
//@contract
//@endfn
}
impl CheckDerConstraints for bool {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { bool_canon(c) }
//@fn src/asn1_types/boolean.rs | CheckDerConstraints for bool | check_constraints | key=P09
//@ret res
//@contract
//@endfn
}
impl<'i> BerContent<'i> for Null {
    type Error = BerError<Input<'i>>;
    type V = ();
    open spec fn sp_val(&self) -> () { () }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<()> { null_dec(h) }
//@fn src/asn1_types/null.rs | BerParser<'i> for Null | from_ber_content | key=P09
//@ret res
//@contract
//@endfn
}
impl<'i> DerContent<'i> for Null {
    type Error = BerError<Input<'i>>;
    type DV = ();
    open spec fn sp_dval(&self) -> () { () }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<()> { null_dec(h) }
//@fn src/asn1_types/null.rs | DerParser<'i> for Null | from_der_content | key=P09
//@ret res
//@subst <Null>::from_ber_content\( ==> <Null as BerContent>::from_ber_content(
//@contract
//@endfn
}
impl<'i> BerContent<'i> for () {
    type Error = BerError<Input<'i>>;
    type V = ();
    open spec fn sp_val(&self) -> () { () }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<()> { null_dec(h) }
//@fn src/asn1_types/null.rs | BerParser<'i> for () | from_ber_content | key=P09
//@ret res
//@subst <Null>::from_ber_content\( ==> <Null as BerContent>::from_ber_content(
//@closure 0 |__c0: (Input<'i>, Null)| -> (o: (Input<'i>, ())) ensures o.0 == __c0.0
//@contract
//@endfn
}
impl<'i> DerContent<'i> for () {
    type Error = BerError<Input<'i>>;
    type DV = ();
    open spec fn sp_dval(&self) -> () { () }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<()> { null_dec(h) }
//@fn src/asn1_types/null.rs | DerParser<'i> for () | from_der_content | key=P09
//@ret res
//@subst <Null>::from_der_content\( ==> <Null as DerContent>::from_der_content(
//@closure 0 |__c0: (Input<'i>, Null)| -> (o: (Input<'i>, ())) ensures o.0 == __c0.0
//@contract
//@endfn
}
impl<'i> BerContent<'i> for Enumerated {
    type Error = BerError<Input<'i>>;
    type V = int;
    open spec fn sp_val(&self) -> int { self.0 as int }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<int> { uint_dec(4, h, c) }
//@fn src/asn1_types/enumerated.rs | BerParser<'i> for Enumerated | from_ber_content | key=P04
//@ret res
//@subst <u32>::from_ber_content\( ==> <u32 as BerContent>::from_ber_content(
//@contract
//@endfn
}
impl<'i> DerContent<'i> for Enumerated {
    type Error = BerError<Input<'i>>;
    type DV = int;
    open spec fn sp_dval(&self) -> int { self.0 as int }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<int> { der_only(c, uint_dec(4, h, c)) }
//@fn src/asn1_types/enumerated.rs | DerParser<'i> for Enumerated | from_der_content | key=P09
//@ret res
//@subst <u32>::from_der_content\( ==> <u32 as DerContent>::from_der_content(
//@contract
//@endfn
}
impl<'i> BerContent<'i> for EndOfContent {
    type Error = BerError<Input<'i>>;
    type V = ();
    open spec fn sp_val(&self) -> () { () }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<()> { if h.len == Length::Definite(0) { Some(()) } else { None } }
//@fn src/asn1_types/end_of_content.rs | BerParser<'i> for EndOfContent | from_ber_content | key=P08
//@ret res
//@contract
//@endfn
}
impl CheckDerConstraints for Null {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { true }
//@fn src/asn1_types/null.rs | CheckDerConstraints for Null | check_constraints | key=P09
//@ret res
//@contract
//@endfn
}
impl CheckDerConstraints for () {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { true }
//@fn src/asn1_types/null.rs | CheckDerConstraints for () | check_constraints | key=P09
//@ret res
//@contract
//@endfn
}
impl CheckDerConstraints for Enumerated {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { h.len is Definite }
//@fn src/asn1_types/enumerated.rs | CheckDerConstraints for Enumerated | check_constraints | key=P09
//@ret res
//@contract
//@endfn
}
}
