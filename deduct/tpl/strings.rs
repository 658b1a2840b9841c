extern crate alloc;
use vstd::string::*;
verus! {
// ------------------------------------------------------------------ restricted character strings (X.680 41, X.690 8.23)
// octets of a string slice; trusted specifications of core::str / alloc::string
pub open spec fn str_bytes(s: &str) -> Seq<u8> { s.spec_bytes() }
pub open spec fn string_bytes(s: String) -> Seq<u8> { vstd::utf8::encode_utf8(s@) }
pub open spec fn cow_chars<'a>(c: Cow<'a, str>) -> Seq<char> { match c { Cow::Borrowed(s) => s@, Cow::Owned(v) => v@ } }
pub open spec fn cow_sbytes<'a>(c: Cow<'a, str>) -> Seq<u8> { match c { Cow::Borrowed(s) => str_bytes(s), Cow::Owned(v) => string_bytes(v) } }
pub open spec fn cont(b: u8) -> bool { 0x80 <= b <= 0xbf }
/// length of the well-formed UTF-8 sequence at the start of b (Unicode, table 3-7); 0: none
pub open spec fn utf8_first(b: Seq<u8>) -> int {
    if b.len() == 0 { 0 }
    else if b[0] <= 0x7f { 1 }
    else if b.len() < 2 { 0int }
    else if 0xc2 <= b[0] <= 0xdf { if cont(b[1]) { 2 } else { 0 } }
    else if b.len() < 3 || !cont(b[2]) { 0 }
    else if b[0] == 0xe0 { if 0xa0 <= b[1] <= 0xbf { 3 } else { 0 } }
    else if 0xe1 <= b[0] <= 0xec || 0xee <= b[0] <= 0xef { if cont(b[1]) { 3 } else { 0 } }
    else if b[0] == 0xed { if 0x80 <= b[1] <= 0x9f { 3 } else { 0 } }
    else if b.len() < 4 || !cont(b[3]) { 0 }
    else if b[0] == 0xf0 { if 0x90 <= b[1] <= 0xbf { 4 } else { 0 } }
    else if 0xf1 <= b[0] <= 0xf3 { if cont(b[1]) { 4 } else { 0 } }
    else if b[0] == 0xf4 { if 0x80 <= b[1] <= 0x8f { 4 } else { 0 } }
    else { 0 }
}
pub open spec fn is_utf8(b: Seq<u8>) -> bool
    decreases b.len()
{
    if b.len() == 0 { true }
    else { let n = utf8_first(b); if n <= 0 || n > b.len() { false } else { is_utf8(b.subrange(n, b.len() as int)) } }
}
#[verifier::external_body]
pub struct Utf8Error { x: u8 }
#[verifier::external_body]
pub struct FromUtf8Error { x: u8 }
#[verifier::external_body]
pub struct FromUtf16Error { x: u8 }
/// `str::from_utf8`
#[verifier::external_body]
pub fn verif_from_utf8<'a>(b: &'a [u8]) -> (r: core::result::Result<&'a str, Utf8Error>)
    ensures match r { Ok(s) => is_utf8(b@) && str_bytes(s) == b@, Err(_) => !is_utf8(b@) }
{ unimplemented!() }
/// `String::from_utf8`
#[verifier::external_body]
pub fn verif_string_from_utf8(b: Vec<u8>) -> (r: core::result::Result<String, FromUtf8Error>)
    ensures match r { Ok(s) => is_utf8(b@) && string_bytes(s) == b@, Err(_) => !is_utf8(b@) }
{ unimplemented!() }
impl From<Utf8Error> for InnerError {
    #[verifier::external_body]
    fn from(e: Utf8Error) -> Self { unimplemented!() }
}
impl From<Utf8Error> for Error {
    #[verifier::external_body]
    fn from(e: Utf8Error) -> Self { unimplemented!() }
}
impl From<FromUtf8Error> for InnerError {
    #[verifier::external_body]
    fn from(e: FromUtf8Error) -> Self { unimplemented!() }
}
/// `Cow::as_ref`
#[verifier::external_body]
pub fn verif_cow_ref<'b, 'a>(c: &'b Cow<'a, [u8]>) -> (r: &'b [u8]) ensures r@ == cow_seq(*c) { unimplemented!() }
/// `s.to_string()` of a string slice
#[verifier::external_body]
pub fn verif_to_string(s: &str) -> (r: String) ensures string_bytes(r) == str_bytes(s) { unimplemented!() }
/// `Cow::into_owned`
#[verifier::external_body]
pub fn verif_into_owned(s: Cow<'_, str>) -> (r: String) ensures string_bytes(r) == cow_sbytes(s) { unimplemented!() }
/// `s.iter().all(f)`
#[verifier::external_body]
pub fn verif_all<F: FnMut(&u8) -> bool>(s: &[u8], f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < s@.len() ==> #[trigger] f.requires((&s@[i],))
    ensures
        r ==> forall|i: int| #![trigger s@[i]] 0 <= i < s@.len() ==> f.ensures((&s@[i],), true),
        !r ==> exists|i: int| #![trigger s@[i]] 0 <= i < s@.len() && f.ensures((&s@[i],), false),
{ unimplemented!() }
/// `u8::is_ascii`
#[verifier::external_body]
pub fn verif_is_ascii(b: &u8) -> (r: bool) ensures r == (*b < 0x80) { unimplemented!() }

// character sets (X.680 41, tables 8 and 9)
pub open spec fn ch_numeric(b: u8) -> bool { b == 0x20 || 0x30 <= b <= 0x39 }
pub open spec fn ch_printable(b: u8) -> bool {
    0x41 <= b <= 0x5a || 0x61 <= b <= 0x7a || 0x30 <= b <= 0x39 || b == 0x20 || b == 0x27 || b == 0x28 || b == 0x29 || b == 0x2b || b == 0x2c
        || b == 0x2d || b == 0x2e || b == 0x2f || b == 0x3a || b == 0x3d || b == 0x3f
}
pub open spec fn ch_visible(b: u8) -> bool { 0x20 <= b <= 0x7e }
pub open spec fn ch_teletex(b: u8) -> bool { 0x20 <= b <= 0x7f }
pub open spec fn ch_ascii(b: u8) -> bool { b <= 0x7f }
pub proof fn lemma_ascii_utf8(b: Seq<u8>)
    requires forall|i: int| #![trigger b[i]] 0 <= i < b.len() ==> b[i] < 0x80
    ensures is_utf8(b)
    decreases b.len()
{
    if b.len() > 0 { let t = b.subrange(1, b.len() as int); assert(forall|i: int| #![trigger t[i]] 0 <= i < t.len() ==> t[i] == b[i + 1]); lemma_ascii_utf8(t); }
}
/// contents octets of a string, primitive or constructed; then those octets if they are in the character set
pub open spec fn str_dec(h: HV, c: Seq<u8>, ok: spec_fn(Seq<u8>) -> bool) -> Option<Seq<u8>> {
    match (if h.cons { seg_oct(h, c, 5) } else { Some(c) }) { None => None, Some(s) => if ok(s) { Some(s) } else { None } }
}
pub open spec fn str_der(h: HV, c: Seq<u8>, ok: spec_fn(Seq<u8>) -> bool) -> Option<Seq<u8>> { if h.cons { None } else { str_dec(h, c, ok) } }
// ---- NumericString
//@item src/asn1_types/strings.rs | struct $name=NumericString
pub open spec fn cs_numericstring() -> spec_fn(Seq<u8>) -> bool { |s: Seq<u8>| forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> ch_numeric(s[i]) }
impl<'a> Tagged for NumericString<'a> {
//@consts src/asn1_types/strings.rs | Tagged for NumericString<'a> | macro=asn1_string#0(name:=NumericString,sname:=x)
}
impl<'a> NumericString<'a> {
//@fn src/asn1_types/strings/numericstring.rs | TestValidCharset for NumericString<'_> | test_valid_charset | key=P12
//@ret r
//@subst (\w+)\.iter\(\)\.all\( ==> verif_all(\1, 
//@closure 0 |__c0: &u8| -> (o: bool) ensures o == ch_numeric(*__c0)
//@contract
    ensures r is Ok == cs_numericstring()(i@)
//@endfn
//@fn src/asn1_types/strings.rs | NumericString<'a> | new | key=P12 | macro=asn1_string#0(name:=NumericString,sname:=x)
//@ret r
//@contract
    ensures cow_sbytes(r.data) == str_bytes(s)
//@endfn
//@fn src/asn1_types/strings.rs | NumericString<'a> | as_raw_str | key=P12 | macro=asn1_string#0(name:=NumericString,sname:=x)
//@ret r
//@contract
    ensures match r { Some(s) => str_bytes(s) == cow_sbytes(self.data), None => self.data is Owned }
//@endfn
//@fn src/asn1_types/strings.rs | From<&'a str> for NumericString<'a> | from | key=P12 | macro=asn1_string#0(name:=NumericString,sname:=x)
//@ret r
//@contract
    ensures cow_sbytes(r.data) == str_bytes(s)
//@endfn
}
impl<'i> BerContent<'i> for NumericString<'i> {
    type Error = BerError<Input<'i>>;
    type V = Seq<u8>;
    open spec fn sp_val(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { str_dec(h, c, cs_numericstring()) }
//@fn src/asn1_types/strings.rs | BerParser<'i> for NumericString<'i> | from_ber_content | key=P12 | macro=asn1_string#0(name:=NumericString,sname:=x)
//@ret res
//@subst parse_ber_segmented(?:::<\w+>)?\( ==> parse_ber_segmented_oct(
//@subst \bdata\.as_ref\(\) ==> verif_cow_ref(&data)
//@subst alloc::str::from_utf8\( ==> verif_from_utf8(
//@subst (alloc::string::)?String::from_utf8\( ==> verif_string_from_utf8(
//@contract
//@ghost entry
    proof { assert forall|s: Seq<u8>| cs_numericstring()(s) implies #[trigger] is_utf8(s) by { lemma_ascii_utf8(s); } }
//@endfn
}
impl<'i> DerContent<'i> for NumericString<'i> {
    type Error = BerError<Input<'i>>;
    type DV = Seq<u8>;
    open spec fn sp_dval(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { str_der(h, c, cs_numericstring()) }
//@fn src/asn1_types/strings.rs | DerParser<'i> for NumericString<'i> | from_der_content | key=P12+P09 | macro=asn1_string#0(name:=NumericString,sname:=x)
//@ret res
//@subst Self::from_ber_content\( ==> <Self as BerContent>::from_ber_content(
//@contract
//@endfn
}
impl<'a> CheckDerConstraints for NumericString<'a> {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { !h.cons }
//@fn src/asn1_types/strings.rs | CheckDerConstraints for NumericString<'a> | check_constraints | key=P09 | macro=asn1_string#0(name:=NumericString,sname:=x)
//@ret res
//@contract
//@endfn
}
// ---- PrintableString
//@item src/asn1_types/strings.rs | struct $name=PrintableString
pub open spec fn cs_printablestring() -> spec_fn(Seq<u8>) -> bool { |s: Seq<u8>| forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> ch_printable(s[i]) }
impl<'a> Tagged for PrintableString<'a> {
//@consts src/asn1_types/strings.rs | Tagged for PrintableString<'a> | macro=asn1_string#0(name:=PrintableString,sname:=x)
}
impl<'a> PrintableString<'a> {
//@fn src/asn1_types/strings/printablestring.rs | TestValidCharset for PrintableString<'_> | test_valid_charset | key=P12
//@ret r
//@subst (\w+)\.iter\(\)\.all\( ==> verif_all(\1, 
//@closure 0 |__c0: &u8| -> (o: bool) ensures o == ch_printable(*__c0)
//@contract
    ensures r is Ok == cs_printablestring()(i@)
//@endfn
//@fn src/asn1_types/strings.rs | PrintableString<'a> | new | key=P12 | macro=asn1_string#0(name:=PrintableString,sname:=x)
//@ret r
//@contract
    ensures cow_sbytes(r.data) == str_bytes(s)
//@endfn
//@fn src/asn1_types/strings.rs | PrintableString<'a> | as_raw_str | key=P12 | macro=asn1_string#0(name:=PrintableString,sname:=x)
//@ret r
//@contract
    ensures match r { Some(s) => str_bytes(s) == cow_sbytes(self.data), None => self.data is Owned }
//@endfn
//@fn src/asn1_types/strings.rs | From<&'a str> for PrintableString<'a> | from | key=P12 | macro=asn1_string#0(name:=PrintableString,sname:=x)
//@ret r
//@contract
    ensures cow_sbytes(r.data) == str_bytes(s)
//@endfn
}
impl<'i> BerContent<'i> for PrintableString<'i> {
    type Error = BerError<Input<'i>>;
    type V = Seq<u8>;
    open spec fn sp_val(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { str_dec(h, c, cs_printablestring()) }
//@fn src/asn1_types/strings.rs | BerParser<'i> for PrintableString<'i> | from_ber_content | key=P12 | macro=asn1_string#0(name:=PrintableString,sname:=x)
//@ret res
//@subst parse_ber_segmented(?:::<\w+>)?\( ==> parse_ber_segmented_oct(
//@subst \bdata\.as_ref\(\) ==> verif_cow_ref(&data)
//@subst alloc::str::from_utf8\( ==> verif_from_utf8(
//@subst (alloc::string::)?String::from_utf8\( ==> verif_string_from_utf8(
//@contract
//@ghost entry
    proof { assert forall|s: Seq<u8>| cs_printablestring()(s) implies #[trigger] is_utf8(s) by { lemma_ascii_utf8(s); } }
//@endfn
}
impl<'i> DerContent<'i> for PrintableString<'i> {
    type Error = BerError<Input<'i>>;
    type DV = Seq<u8>;
    open spec fn sp_dval(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { str_der(h, c, cs_printablestring()) }
//@fn src/asn1_types/strings.rs | DerParser<'i> for PrintableString<'i> | from_der_content | key=P12+P09 | macro=asn1_string#0(name:=PrintableString,sname:=x)
//@ret res
//@subst Self::from_ber_content\( ==> <Self as BerContent>::from_ber_content(
//@contract
//@endfn
}
impl<'a> CheckDerConstraints for PrintableString<'a> {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { !h.cons }
//@fn src/asn1_types/strings.rs | CheckDerConstraints for PrintableString<'a> | check_constraints | key=P09 | macro=asn1_string#0(name:=PrintableString,sname:=x)
//@ret res
//@contract
//@endfn
}
// ---- VisibleString
//@item src/asn1_types/strings.rs | struct $name=VisibleString
pub open spec fn cs_visiblestring() -> spec_fn(Seq<u8>) -> bool { |s: Seq<u8>| forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> ch_visible(s[i]) }
impl<'a> Tagged for VisibleString<'a> {
//@consts src/asn1_types/strings.rs | Tagged for VisibleString<'a> | macro=asn1_string#0(name:=VisibleString,sname:=x)
}
impl<'a> VisibleString<'a> {
//@fn src/asn1_types/strings/visiblestring.rs | TestValidCharset for VisibleString<'_> | test_valid_charset | key=P12
//@ret r
//@subst (\w+)\.iter\(\)\.all\( ==> verif_all(\1, 
//@closure 0 |__c0: &u8| -> (o: bool) ensures o == ch_visible(*__c0)
//@contract
    ensures r is Ok == cs_visiblestring()(i@)
//@endfn
//@fn src/asn1_types/strings.rs | VisibleString<'a> | new | key=P12 | macro=asn1_string#0(name:=VisibleString,sname:=x)
//@ret r
//@contract
    ensures cow_sbytes(r.data) == str_bytes(s)
//@endfn
//@fn src/asn1_types/strings.rs | VisibleString<'a> | as_raw_str | key=P12 | macro=asn1_string#0(name:=VisibleString,sname:=x)
//@ret r
//@contract
    ensures match r { Some(s) => str_bytes(s) == cow_sbytes(self.data), None => self.data is Owned }
//@endfn
//@fn src/asn1_types/strings.rs | From<&'a str> for VisibleString<'a> | from | key=P12 | macro=asn1_string#0(name:=VisibleString,sname:=x)
//@ret r
//@contract
    ensures cow_sbytes(r.data) == str_bytes(s)
//@endfn
}
impl<'i> BerContent<'i> for VisibleString<'i> {
    type Error = BerError<Input<'i>>;
    type V = Seq<u8>;
    open spec fn sp_val(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { str_dec(h, c, cs_visiblestring()) }
//@fn src/asn1_types/strings.rs | BerParser<'i> for VisibleString<'i> | from_ber_content | key=P12 | macro=asn1_string#0(name:=VisibleString,sname:=x)
//@ret res
//@subst parse_ber_segmented(?:::<\w+>)?\( ==> parse_ber_segmented_oct(
//@subst \bdata\.as_ref\(\) ==> verif_cow_ref(&data)
//@subst alloc::str::from_utf8\( ==> verif_from_utf8(
//@subst (alloc::string::)?String::from_utf8\( ==> verif_string_from_utf8(
//@contract
//@ghost entry
    proof { assert forall|s: Seq<u8>| cs_visiblestring()(s) implies #[trigger] is_utf8(s) by { lemma_ascii_utf8(s); } }
//@endfn
}
impl<'i> DerContent<'i> for VisibleString<'i> {
    type Error = BerError<Input<'i>>;
    type DV = Seq<u8>;
    open spec fn sp_dval(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { str_der(h, c, cs_visiblestring()) }
//@fn src/asn1_types/strings.rs | DerParser<'i> for VisibleString<'i> | from_der_content | key=P12+P09 | macro=asn1_string#0(name:=VisibleString,sname:=x)
//@ret res
//@subst Self::from_ber_content\( ==> <Self as BerContent>::from_ber_content(
//@contract
//@endfn
}
impl<'a> CheckDerConstraints for VisibleString<'a> {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { !h.cons }
//@fn src/asn1_types/strings.rs | CheckDerConstraints for VisibleString<'a> | check_constraints | key=P09 | macro=asn1_string#0(name:=VisibleString,sname:=x)
//@ret res
//@contract
//@endfn
}
// ---- TeletexString
//@item src/asn1_types/strings.rs | struct $name=TeletexString
pub open spec fn cs_teletexstring() -> spec_fn(Seq<u8>) -> bool { |s: Seq<u8>| forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> ch_teletex(s[i]) }
impl<'a> Tagged for TeletexString<'a> {
//@consts src/asn1_types/strings.rs | Tagged for TeletexString<'a> | macro=asn1_string#0(name:=TeletexString,sname:=x)
}
impl<'a> TeletexString<'a> {
//@fn src/asn1_types/strings/teletexstring.rs | TestValidCharset for TeletexString<'_> | test_valid_charset | key=P12
//@ret r
//@subst (\w+)\.iter\(\)\.all\( ==> verif_all(\1, 
//@closure 0 |__c0: &u8| -> (o: bool) ensures o == ch_teletex(*__c0)
//@contract
    ensures r is Ok == cs_teletexstring()(i@)
//@endfn
//@fn src/asn1_types/strings.rs | TeletexString<'a> | new | key=P12 | macro=asn1_string#0(name:=TeletexString,sname:=x)
//@ret r
//@contract
    ensures cow_sbytes(r.data) == str_bytes(s)
//@endfn
//@fn src/asn1_types/strings.rs | TeletexString<'a> | as_raw_str | key=P12 | macro=asn1_string#0(name:=TeletexString,sname:=x)
//@ret r
//@contract
    ensures match r { Some(s) => str_bytes(s) == cow_sbytes(self.data), None => self.data is Owned }
//@endfn
//@fn src/asn1_types/strings.rs | From<&'a str> for TeletexString<'a> | from | key=P12 | macro=asn1_string#0(name:=TeletexString,sname:=x)
//@ret r
//@contract
    ensures cow_sbytes(r.data) == str_bytes(s)
//@endfn
}
impl<'i> BerContent<'i> for TeletexString<'i> {
    type Error = BerError<Input<'i>>;
    type V = Seq<u8>;
    open spec fn sp_val(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { str_dec(h, c, cs_teletexstring()) }
//@fn src/asn1_types/strings.rs | BerParser<'i> for TeletexString<'i> | from_ber_content | key=P12 | macro=asn1_string#0(name:=TeletexString,sname:=x)
//@ret res
//@subst parse_ber_segmented(?:::<\w+>)?\( ==> parse_ber_segmented_oct(
//@subst \bdata\.as_ref\(\) ==> verif_cow_ref(&data)
//@subst alloc::str::from_utf8\( ==> verif_from_utf8(
//@subst (alloc::string::)?String::from_utf8\( ==> verif_string_from_utf8(
//@contract
//@ghost entry
    proof { assert forall|s: Seq<u8>| cs_teletexstring()(s) implies #[trigger] is_utf8(s) by { lemma_ascii_utf8(s); } }
//@endfn
}
impl<'i> DerContent<'i> for TeletexString<'i> {
    type Error = BerError<Input<'i>>;
    type DV = Seq<u8>;
    open spec fn sp_dval(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { str_der(h, c, cs_teletexstring()) }
//@fn src/asn1_types/strings.rs | DerParser<'i> for TeletexString<'i> | from_der_content | key=P12+P09 | macro=asn1_string#0(name:=TeletexString,sname:=x)
//@ret res
//@subst Self::from_ber_content\( ==> <Self as BerContent>::from_ber_content(
//@contract
//@endfn
}
impl<'a> CheckDerConstraints for TeletexString<'a> {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { !h.cons }
//@fn src/asn1_types/strings.rs | CheckDerConstraints for TeletexString<'a> | check_constraints | key=P09 | macro=asn1_string#0(name:=TeletexString,sname:=x)
//@ret res
//@contract
//@endfn
}
// ---- VideotexString
//@item src/asn1_types/strings.rs | struct $name=VideotexString
pub open spec fn cs_videotexstring() -> spec_fn(Seq<u8>) -> bool { |s: Seq<u8>| forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> ch_teletex(s[i]) }
impl<'a> Tagged for VideotexString<'a> {
//@consts src/asn1_types/strings.rs | Tagged for VideotexString<'a> | macro=asn1_string#0(name:=VideotexString,sname:=x)
}
impl<'a> VideotexString<'a> {
//@fn src/asn1_types/strings/videotexstring.rs | TestValidCharset for VideotexString<'_> | test_valid_charset | key=P12
//@ret r
//@subst (\w+)\.iter\(\)\.all\( ==> verif_all(\1, 
//@closure 0 |__c0: &u8| -> (o: bool) ensures o == ch_teletex(*__c0)
//@contract
    ensures r is Ok == cs_videotexstring()(i@)
//@endfn
//@fn src/asn1_types/strings.rs | VideotexString<'a> | new | key=P12 | macro=asn1_string#0(name:=VideotexString,sname:=x)
//@ret r
//@contract
    ensures cow_sbytes(r.data) == str_bytes(s)
//@endfn
//@fn src/asn1_types/strings.rs | VideotexString<'a> | as_raw_str | key=P12 | macro=asn1_string#0(name:=VideotexString,sname:=x)
//@ret r
//@contract
    ensures match r { Some(s) => str_bytes(s) == cow_sbytes(self.data), None => self.data is Owned }
//@endfn
//@fn src/asn1_types/strings.rs | From<&'a str> for VideotexString<'a> | from | key=P12 | macro=asn1_string#0(name:=VideotexString,sname:=x)
//@ret r
//@contract
    ensures cow_sbytes(r.data) == str_bytes(s)
//@endfn
}
impl<'i> BerContent<'i> for VideotexString<'i> {
    type Error = BerError<Input<'i>>;
    type V = Seq<u8>;
    open spec fn sp_val(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { str_dec(h, c, cs_videotexstring()) }
//@fn src/asn1_types/strings.rs | BerParser<'i> for VideotexString<'i> | from_ber_content | key=P12 | macro=asn1_string#0(name:=VideotexString,sname:=x)
//@ret res
//@subst parse_ber_segmented(?:::<\w+>)?\( ==> parse_ber_segmented_oct(
//@subst \bdata\.as_ref\(\) ==> verif_cow_ref(&data)
//@subst alloc::str::from_utf8\( ==> verif_from_utf8(
//@subst (alloc::string::)?String::from_utf8\( ==> verif_string_from_utf8(
//@contract
//@ghost entry
    proof { assert forall|s: Seq<u8>| cs_videotexstring()(s) implies #[trigger] is_utf8(s) by { lemma_ascii_utf8(s); } }
//@endfn
}
impl<'i> DerContent<'i> for VideotexString<'i> {
    type Error = BerError<Input<'i>>;
    type DV = Seq<u8>;
    open spec fn sp_dval(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { str_der(h, c, cs_videotexstring()) }
//@fn src/asn1_types/strings.rs | DerParser<'i> for VideotexString<'i> | from_der_content | key=P12+P09 | macro=asn1_string#0(name:=VideotexString,sname:=x)
//@ret res
//@subst Self::from_ber_content\( ==> <Self as BerContent>::from_ber_content(
//@contract
//@endfn
}
impl<'a> CheckDerConstraints for VideotexString<'a> {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { !h.cons }
//@fn src/asn1_types/strings.rs | CheckDerConstraints for VideotexString<'a> | check_constraints | key=P09 | macro=asn1_string#0(name:=VideotexString,sname:=x)
//@ret res
//@contract
//@endfn
}
// ---- Ia5String
//@item src/asn1_types/strings.rs | struct $name=Ia5String
pub open spec fn cs_ia5string() -> spec_fn(Seq<u8>) -> bool { |s: Seq<u8>| forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> ch_ascii(s[i]) }
impl<'a> Tagged for Ia5String<'a> {
//@consts src/asn1_types/strings.rs | Tagged for Ia5String<'a> | macro=asn1_string#0(name:=Ia5String,sname:=x)
}
impl<'a> Ia5String<'a> {
//@fn src/asn1_types/strings/ia5string.rs | TestValidCharset for Ia5String<'_> | test_valid_charset | key=P12
//@ret r
//@subst (\w+)\.iter\(\)\.all\(u8::is_ascii ==> verif_all(\1, verif_is_ascii
//@contract
    ensures r is Ok == cs_ia5string()(i@)
//@endfn
//@fn src/asn1_types/strings.rs | Ia5String<'a> | new | key=P12 | macro=asn1_string#0(name:=Ia5String,sname:=x)
//@ret r
//@contract
    ensures cow_sbytes(r.data) == str_bytes(s)
//@endfn
//@fn src/asn1_types/strings.rs | Ia5String<'a> | as_raw_str | key=P12 | macro=asn1_string#0(name:=Ia5String,sname:=x)
//@ret r
//@contract
    ensures match r { Some(s) => str_bytes(s) == cow_sbytes(self.data), None => self.data is Owned }
//@endfn
//@fn src/asn1_types/strings.rs | From<&'a str> for Ia5String<'a> | from | key=P12 | macro=asn1_string#0(name:=Ia5String,sname:=x)
//@ret r
//@contract
    ensures cow_sbytes(r.data) == str_bytes(s)
//@endfn
}
impl<'i> BerContent<'i> for Ia5String<'i> {
    type Error = BerError<Input<'i>>;
    type V = Seq<u8>;
    open spec fn sp_val(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { str_dec(h, c, cs_ia5string()) }
//@fn src/asn1_types/strings.rs | BerParser<'i> for Ia5String<'i> | from_ber_content | key=P12 | macro=asn1_string#0(name:=Ia5String,sname:=x)
//@ret res
//@subst parse_ber_segmented(?:::<\w+>)?\( ==> parse_ber_segmented_oct(
//@subst \bdata\.as_ref\(\) ==> verif_cow_ref(&data)
//@subst alloc::str::from_utf8\( ==> verif_from_utf8(
//@subst (alloc::string::)?String::from_utf8\( ==> verif_string_from_utf8(
//@contract
//@ghost entry
    proof { assert forall|s: Seq<u8>| cs_ia5string()(s) implies #[trigger] is_utf8(s) by { lemma_ascii_utf8(s); } }
//@endfn
}
impl<'i> DerContent<'i> for Ia5String<'i> {
    type Error = BerError<Input<'i>>;
    type DV = Seq<u8>;
    open spec fn sp_dval(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { str_der(h, c, cs_ia5string()) }
//@fn src/asn1_types/strings.rs | DerParser<'i> for Ia5String<'i> | from_der_content | key=P12+P09 | macro=asn1_string#0(name:=Ia5String,sname:=x)
//@ret res
//@subst Self::from_ber_content\( ==> <Self as BerContent>::from_ber_content(
//@contract
//@endfn
}
impl<'a> CheckDerConstraints for Ia5String<'a> {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { !h.cons }
//@fn src/asn1_types/strings.rs | CheckDerConstraints for Ia5String<'a> | check_constraints | key=P09 | macro=asn1_string#0(name:=Ia5String,sname:=x)
//@ret res
//@contract
//@endfn
}
// ---- GraphicString
//@item src/asn1_types/strings.rs | struct $name=GraphicString
pub open spec fn cs_graphicstring() -> spec_fn(Seq<u8>) -> bool { |s: Seq<u8>| forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> ch_ascii(s[i]) }
impl<'a> Tagged for GraphicString<'a> {
//@consts src/asn1_types/strings.rs | Tagged for GraphicString<'a> | macro=asn1_string#0(name:=GraphicString,sname:=x)
}
impl<'a> GraphicString<'a> {
//@fn src/asn1_types/strings/graphicstring.rs | TestValidCharset for GraphicString<'_> | test_valid_charset | key=P12
//@ret r
//@subst (\w+)\.iter\(\)\.all\(u8::is_ascii ==> verif_all(\1, verif_is_ascii
//@contract
    ensures r is Ok == cs_graphicstring()(i@)
//@endfn
//@fn src/asn1_types/strings.rs | GraphicString<'a> | new | key=P12 | macro=asn1_string#0(name:=GraphicString,sname:=x)
//@ret r
//@contract
    ensures cow_sbytes(r.data) == str_bytes(s)
//@endfn
//@fn src/asn1_types/strings.rs | GraphicString<'a> | as_raw_str | key=P12 | macro=asn1_string#0(name:=GraphicString,sname:=x)
//@ret r
//@contract
    ensures match r { Some(s) => str_bytes(s) == cow_sbytes(self.data), None => self.data is Owned }
//@endfn
//@fn src/asn1_types/strings.rs | From<&'a str> for GraphicString<'a> | from | key=P12 | macro=asn1_string#0(name:=GraphicString,sname:=x)
//@ret r
//@contract
    ensures cow_sbytes(r.data) == str_bytes(s)
//@endfn
}
impl<'i> BerContent<'i> for GraphicString<'i> {
    type Error = BerError<Input<'i>>;
    type V = Seq<u8>;
    open spec fn sp_val(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { str_dec(h, c, cs_graphicstring()) }
//@fn src/asn1_types/strings.rs | BerParser<'i> for GraphicString<'i> | from_ber_content | key=P12 | macro=asn1_string#0(name:=GraphicString,sname:=x)
//@ret res
//@subst parse_ber_segmented(?:::<\w+>)?\( ==> parse_ber_segmented_oct(
//@subst \bdata\.as_ref\(\) ==> verif_cow_ref(&data)
//@subst alloc::str::from_utf8\( ==> verif_from_utf8(
//@subst (alloc::string::)?String::from_utf8\( ==> verif_string_from_utf8(
//@contract
//@ghost entry
    proof { assert forall|s: Seq<u8>| cs_graphicstring()(s) implies #[trigger] is_utf8(s) by { lemma_ascii_utf8(s); } }
//@endfn
}
impl<'i> DerContent<'i> for GraphicString<'i> {
    type Error = BerError<Input<'i>>;
    type DV = Seq<u8>;
    open spec fn sp_dval(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { str_der(h, c, cs_graphicstring()) }
//@fn src/asn1_types/strings.rs | DerParser<'i> for GraphicString<'i> | from_der_content | key=P12+P09 | macro=asn1_string#0(name:=GraphicString,sname:=x)
//@ret res
//@subst Self::from_ber_content\( ==> <Self as BerContent>::from_ber_content(
//@contract
//@endfn
}
impl<'a> CheckDerConstraints for GraphicString<'a> {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { !h.cons }
//@fn src/asn1_types/strings.rs | CheckDerConstraints for GraphicString<'a> | check_constraints | key=P09 | macro=asn1_string#0(name:=GraphicString,sname:=x)
//@ret res
//@contract
//@endfn
}
// ---- GeneralString
//@item src/asn1_types/strings.rs | struct $name=GeneralString
pub open spec fn cs_generalstring() -> spec_fn(Seq<u8>) -> bool { |s: Seq<u8>| forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> ch_ascii(s[i]) }
impl<'a> Tagged for GeneralString<'a> {
//@consts src/asn1_types/strings.rs | Tagged for GeneralString<'a> | macro=asn1_string#0(name:=GeneralString,sname:=x)
}
impl<'a> GeneralString<'a> {
//@fn src/asn1_types/strings/generalstring.rs | TestValidCharset for GeneralString<'_> | test_valid_charset | key=P12
//@ret r
//@subst (\w+)\.iter\(\)\.all\(u8::is_ascii ==> verif_all(\1, verif_is_ascii
//@contract
    ensures r is Ok == cs_generalstring()(i@)
//@endfn
//@fn src/asn1_types/strings.rs | GeneralString<'a> | new | key=P12 | macro=asn1_string#0(name:=GeneralString,sname:=x)
//@ret r
//@contract
    ensures cow_sbytes(r.data) == str_bytes(s)
//@endfn
//@fn src/asn1_types/strings.rs | GeneralString<'a> | as_raw_str | key=P12 | macro=asn1_string#0(name:=GeneralString,sname:=x)
//@ret r
//@contract
    ensures match r { Some(s) => str_bytes(s) == cow_sbytes(self.data), None => self.data is Owned }
//@endfn
//@fn src/asn1_types/strings.rs | From<&'a str> for GeneralString<'a> | from | key=P12 | macro=asn1_string#0(name:=GeneralString,sname:=x)
//@ret r
//@contract
    ensures cow_sbytes(r.data) == str_bytes(s)
//@endfn
}
impl<'i> BerContent<'i> for GeneralString<'i> {
    type Error = BerError<Input<'i>>;
    type V = Seq<u8>;
    open spec fn sp_val(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { str_dec(h, c, cs_generalstring()) }
//@fn src/asn1_types/strings.rs | BerParser<'i> for GeneralString<'i> | from_ber_content | key=P12 | macro=asn1_string#0(name:=GeneralString,sname:=x)
//@ret res
//@subst parse_ber_segmented(?:::<\w+>)?\( ==> parse_ber_segmented_oct(
//@subst \bdata\.as_ref\(\) ==> verif_cow_ref(&data)
//@subst alloc::str::from_utf8\( ==> verif_from_utf8(
//@subst (alloc::string::)?String::from_utf8\( ==> verif_string_from_utf8(
//@contract
//@ghost entry
    proof { assert forall|s: Seq<u8>| cs_generalstring()(s) implies #[trigger] is_utf8(s) by { lemma_ascii_utf8(s); } }
//@endfn
}
impl<'i> DerContent<'i> for GeneralString<'i> {
    type Error = BerError<Input<'i>>;
    type DV = Seq<u8>;
    open spec fn sp_dval(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { str_der(h, c, cs_generalstring()) }
//@fn src/asn1_types/strings.rs | DerParser<'i> for GeneralString<'i> | from_der_content | key=P12+P09 | macro=asn1_string#0(name:=GeneralString,sname:=x)
//@ret res
//@subst Self::from_ber_content\( ==> <Self as BerContent>::from_ber_content(
//@contract
//@endfn
}
impl<'a> CheckDerConstraints for GeneralString<'a> {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { !h.cons }
//@fn src/asn1_types/strings.rs | CheckDerConstraints for GeneralString<'a> | check_constraints | key=P09 | macro=asn1_string#0(name:=GeneralString,sname:=x)
//@ret res
//@contract
//@endfn
}
// ---- ObjectDescriptor
//@item src/asn1_types/strings.rs | struct $name=ObjectDescriptor
pub open spec fn cs_objectdescriptor() -> spec_fn(Seq<u8>) -> bool { |s: Seq<u8>| forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> ch_ascii(s[i]) }
impl<'a> Tagged for ObjectDescriptor<'a> {
//@consts src/asn1_types/strings.rs | Tagged for ObjectDescriptor<'a> | macro=asn1_string#0(name:=ObjectDescriptor,sname:=x)
}
impl<'a> ObjectDescriptor<'a> {
//@fn src/asn1_types/object_descriptor.rs | TestValidCharset for ObjectDescriptor<'_> | test_valid_charset | key=P12
//@ret r
//@subst (\w+)\.iter\(\)\.all\(u8::is_ascii ==> verif_all(\1, verif_is_ascii
//@contract
    ensures r is Ok == cs_objectdescriptor()(i@)
//@endfn
//@fn src/asn1_types/strings.rs | ObjectDescriptor<'a> | new | key=P12 | macro=asn1_string#0(name:=ObjectDescriptor,sname:=x)
//@ret r
//@contract
    ensures cow_sbytes(r.data) == str_bytes(s)
//@endfn
//@fn src/asn1_types/strings.rs | ObjectDescriptor<'a> | as_raw_str | key=P12 | macro=asn1_string#0(name:=ObjectDescriptor,sname:=x)
//@ret r
//@contract
    ensures match r { Some(s) => str_bytes(s) == cow_sbytes(self.data), None => self.data is Owned }
//@endfn
//@fn src/asn1_types/strings.rs | From<&'a str> for ObjectDescriptor<'a> | from | key=P12 | macro=asn1_string#0(name:=ObjectDescriptor,sname:=x)
//@ret r
//@contract
    ensures cow_sbytes(r.data) == str_bytes(s)
//@endfn
}
impl<'i> BerContent<'i> for ObjectDescriptor<'i> {
    type Error = BerError<Input<'i>>;
    type V = Seq<u8>;
    open spec fn sp_val(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { str_dec(h, c, cs_objectdescriptor()) }
//@fn src/asn1_types/strings.rs | BerParser<'i> for ObjectDescriptor<'i> | from_ber_content | key=P12 | macro=asn1_string#0(name:=ObjectDescriptor,sname:=x)
//@ret res
//@subst parse_ber_segmented(?:::<\w+>)?\( ==> parse_ber_segmented_oct(
//@subst \bdata\.as_ref\(\) ==> verif_cow_ref(&data)
//@subst alloc::str::from_utf8\( ==> verif_from_utf8(
//@subst (alloc::string::)?String::from_utf8\( ==> verif_string_from_utf8(
//@contract
//@ghost entry
    proof { assert forall|s: Seq<u8>| cs_objectdescriptor()(s) implies #[trigger] is_utf8(s) by { lemma_ascii_utf8(s); } }
//@endfn
}
impl<'i> DerContent<'i> for ObjectDescriptor<'i> {
    type Error = BerError<Input<'i>>;
    type DV = Seq<u8>;
    open spec fn sp_dval(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { str_der(h, c, cs_objectdescriptor()) }
//@fn src/asn1_types/strings.rs | DerParser<'i> for ObjectDescriptor<'i> | from_der_content | key=P12+P09 | macro=asn1_string#0(name:=ObjectDescriptor,sname:=x)
//@ret res
//@subst Self::from_ber_content\( ==> <Self as BerContent>::from_ber_content(
//@contract
//@endfn
}
impl<'a> CheckDerConstraints for ObjectDescriptor<'a> {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { !h.cons }
//@fn src/asn1_types/strings.rs | CheckDerConstraints for ObjectDescriptor<'a> | check_constraints | key=P09 | macro=asn1_string#0(name:=ObjectDescriptor,sname:=x)
//@ret res
//@contract
//@endfn
}
// ---- Utf8String
//@item src/asn1_types/strings.rs | struct $name=Utf8String
pub open spec fn cs_utf8string() -> spec_fn(Seq<u8>) -> bool { |s: Seq<u8>| is_utf8(s) }
impl<'a> Tagged for Utf8String<'a> {
//@consts src/asn1_types/strings.rs | Tagged for Utf8String<'a> | macro=asn1_string#0(name:=Utf8String,sname:=x)
}
impl<'a> Utf8String<'a> {
//@fn src/asn1_types/strings/utf8string.rs | TestValidCharset for Utf8String<'_> | test_valid_charset | key=P12
//@ret r
//@subst (core::|alloc::)?str::from_utf8\( ==> verif_from_utf8(
//@contract
    ensures r is Ok == cs_utf8string()(i@)
//@endfn
//@fn src/asn1_types/strings.rs | Utf8String<'a> | new | key=P12 | macro=asn1_string#0(name:=Utf8String,sname:=x)
//@ret r
//@contract
    ensures cow_sbytes(r.data) == str_bytes(s)
//@endfn
//@fn src/asn1_types/strings.rs | Utf8String<'a> | as_raw_str | key=P12 | macro=asn1_string#0(name:=Utf8String,sname:=x)
//@ret r
//@contract
    ensures match r { Some(s) => str_bytes(s) == cow_sbytes(self.data), None => self.data is Owned }
//@endfn
//@fn src/asn1_types/strings.rs | From<&'a str> for Utf8String<'a> | from | key=P12 | macro=asn1_string#0(name:=Utf8String,sname:=x)
//@ret r
//@contract
    ensures cow_sbytes(r.data) == str_bytes(s)
//@endfn
}
impl<'i> BerContent<'i> for Utf8String<'i> {
    type Error = BerError<Input<'i>>;
    type V = Seq<u8>;
    open spec fn sp_val(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { str_dec(h, c, cs_utf8string()) }
//@fn src/asn1_types/strings.rs | BerParser<'i> for Utf8String<'i> | from_ber_content | key=P12 | macro=asn1_string#0(name:=Utf8String,sname:=x)
//@ret res
//@subst parse_ber_segmented(?:::<\w+>)?\( ==> parse_ber_segmented_oct(
//@subst \bdata\.as_ref\(\) ==> verif_cow_ref(&data)
//@subst alloc::str::from_utf8\( ==> verif_from_utf8(
//@subst (alloc::string::)?String::from_utf8\( ==> verif_string_from_utf8(
//@contract
//@ghost entry
    proof {  }
//@endfn
}
impl<'i> DerContent<'i> for Utf8String<'i> {
    type Error = BerError<Input<'i>>;
    type DV = Seq<u8>;
    open spec fn sp_dval(&self) -> Seq<u8> { cow_sbytes(self.data) }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { str_der(h, c, cs_utf8string()) }
//@fn src/asn1_types/strings.rs | DerParser<'i> for Utf8String<'i> | from_der_content | key=P12+P09 | macro=asn1_string#0(name:=Utf8String,sname:=x)
//@ret res
//@subst Self::from_ber_content\( ==> <Self as BerContent>::from_ber_content(
//@contract
//@endfn
}
impl<'a> CheckDerConstraints for Utf8String<'a> {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { !h.cons }
//@fn src/asn1_types/strings.rs | CheckDerConstraints for Utf8String<'a> | check_constraints | key=P09 | macro=asn1_string#0(name:=Utf8String,sname:=x)
//@ret res
//@contract
//@endfn
}

// ---- &str, String
impl<'i> Tagged for &'i str {
//@consts src/asn1_types/strings/str.rs | Tagged for &'_ str
}
impl Tagged for String {
//@consts src/asn1_types/strings/string.rs | Tagged for String
}
impl<'i> BerContent<'i> for &'i str {
    type Error = BerError<Input<'i>>;
    type V = Seq<u8>;
    open spec fn sp_val(&self) -> Seq<u8> { str_bytes(*self) }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { if h.cons || !is_utf8(c) { None } else { Some(c) } }
//@fn src/asn1_types/strings/str.rs | BerParser<'i> for &'i str | from_ber_content | key=P12
//@ret res
//@subst (core::)?str::from_utf8\( ==> verif_from_utf8(
//@contract
//@endfn
}
impl<'i> DerContent<'i> for &'i str {
    type Error = BerError<Input<'i>>;
    type DV = Seq<u8>;
    open spec fn sp_dval(&self) -> Seq<u8> { str_bytes(*self) }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { if h.cons || !is_utf8(c) { None } else { Some(c) } }
//@fn src/asn1_types/strings/str.rs | DerParser<'i> for &'i str | from_der_content | key=P12+P09
//@ret res
//@subst (core::)?str::from_utf8\( ==> verif_from_utf8(
//@contract
//@endfn
}
impl CheckDerConstraints for &'_ str {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { !h.cons }
//@fn src/asn1_types/strings/str.rs | CheckDerConstraints for &'_ str | check_constraints | key=P09
//@ret res
//@contract
//@endfn
}
impl<'i> BerContent<'i> for String {
    type Error = BerError<Input<'i>>;
    type V = Seq<u8>;
    open spec fn sp_val(&self) -> Seq<u8> { string_bytes(*self) }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { str_dec(h, c, cs_utf8string()) }
//@fn src/asn1_types/strings/string.rs | BerParser<'i> for String | from_ber_content | key=P12
//@ret res
//@subst Utf8String::from_ber_content\( ==> <Utf8String as BerContent>::from_ber_content(
//@subst (\w+\.data)\.into_owned\(\) ==> verif_into_owned(\1)
//@contract
//@endfn
}
impl<'i> DerContent<'i> for String {
    type Error = BerError<Input<'i>>;
    type DV = Seq<u8>;
    open spec fn sp_dval(&self) -> Seq<u8> { string_bytes(*self) }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { str_der(h, c, cs_utf8string()) }
//@fn src/asn1_types/strings/string.rs | DerParser<'i> for String | from_der_content | key=P12+P09
//@ret res
//@subst (core::)?str::from_utf8\( ==> verif_from_utf8(
//@subst (\w+)\.to_string\(\) ==> verif_to_string(\1)
//@contract
//@endfn
}
impl CheckDerConstraints for String {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { !h.cons }
//@fn src/asn1_types/strings/string.rs | CheckDerConstraints for String | check_constraints | key=P09
//@ret res
//@contract
//@endfn
}

// ---- BMPString (UTF-16), UniversalString (UCS-4)
pub open spec fn scalars(v: Seq<char>) -> Seq<int> { Seq::new(v.len(), |i: int| v[i] as u32 as int) }
pub open spec fn str_scalars(s: &str) -> Seq<int> { scalars(s@) }
pub open spec fn string_scalars(s: String) -> Seq<int> { scalars(s@) }
pub open spec fn cow_scalars<'a>(c: Cow<'a, str>) -> Seq<int> { match c { Cow::Borrowed(s) => str_scalars(s), Cow::Owned(v) => string_scalars(v) } }
//@item src/asn1_types/strings/bmpstring.rs | struct BmpString
//@item src/asn1_types/strings/universalstring.rs | struct UniversalString
pub open spec fn units16(b: Seq<u8>) -> Seq<u16> { Seq::new((b.len() / 2) as nat, |i: int| (b[2 * i] * 256 + b[2 * i + 1]) as u16) }
pub open spec fn units32(b: Seq<u8>) -> Seq<int> { Seq::new((b.len() / 4) as nat, |i: int| ucs4(b.subrange(4 * i, 4 * i + 4))) }
pub open spec fn ucs4(w: Seq<u8>) -> int { ((w[0] * 256 + w[1]) * 256 + w[2]) * 256 + w[3] }
/// Unicode scalar values
pub open spec fn scalar(x: int) -> bool { 0 <= x < 0xd800 || 0xe000 <= x < 0x11_0000 }
/// decoding of UTF-16
pub open spec fn utf16_dec(v: Seq<u16>) -> Option<Seq<int>>
    decreases v.len()
{
    if v.len() == 0 { Some(Seq::empty()) }
    else if v[0] < 0xd800 || v[0] >= 0xe000 {
        match utf16_dec(v.subrange(1, v.len() as int)) { None => None, Some(r) => Some(seq![v[0] as int] + r) }
    } else if v[0] < 0xdc00 && v.len() >= 2 && 0xdc00 <= v[1] < 0xe000 {
        match utf16_dec(v.subrange(2, v.len() as int)) { None => None, Some(r) => Some(seq![0x1_0000 + (v[0] - 0xd800) * 0x400 + (v[1] - 0xdc00)] + r) }
    } else { None }
}
/// `String::from_utf16`
#[verifier::external_body]
pub fn verif_from_utf16(v: &[u16]) -> (r: core::result::Result<String, FromUtf16Error>)
    ensures match r { Ok(s) => utf16_dec(v@) == Some(string_scalars(s)), Err(_) => utf16_dec(v@) is None }
{ unimplemented!() }
/// `char::from_u32`
#[verifier::external_body]
pub fn verif_from_u32(x: u32) -> (r: Option<char>)
    ensures match r { Some(c) => scalar(x as int) && c as u32 == x, None => !scalar(x as int) }
{ unimplemented!() }
/// `String::from_iter` of characters
#[verifier::external_body]
pub fn verif_from_chars(v: Vec<char>) -> (r: String)
    ensures string_scalars(r).len() == v@.len(), forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> string_scalars(r)[i] == v@[i] as u32 as int
{ unimplemented!() }
/// `s.chunks(n).map(f).collect::<Vec<_>>()` of a slice whose length is a multiple of n
#[verifier::external_body]
pub fn verif_chunks_map<O, F: FnMut(&[u8]) -> O>(s: &[u8], n: usize, f: F) -> (r: Vec<O>)
    requires n > 0, s@.len() % n as nat == 0, forall|w: &[u8]| w@.len() == n ==> #[trigger] f.requires((w,))
    ensures r@.len() == s@.len() / n as nat,
        forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> exists|w: &[u8]| w@ == s@.subrange(n * i, n * i + n) && #[trigger] f.ensures((w,), r@[i]),
{ unimplemented!() }
/// `s.chunks(n).map(f).collect::<Option<Vec<_>>>()` of a slice whose length is a multiple of n
#[verifier::external_body]
pub fn verif_chunks_opt<O, F: FnMut(&[u8]) -> Option<O>>(s: &[u8], n: usize, f: F) -> (r: Option<Vec<O>>)
    requires n > 0, s@.len() % n as nat == 0, forall|w: &[u8]| w@.len() == n ==> #[trigger] f.requires((w,))
    ensures match r {
        Some(v) => v@.len() == s@.len() / n as nat && forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> exists|w: &[u8]| w@ == s@.subrange(n * i, n * i + n) && #[trigger] f.ensures((w,), Some(v@[i])),
        None => exists|i: int, w: &[u8]| 0 <= i < s@.len() / n as nat && w@ == #[trigger] s@.subrange(n * i, n * i + n) && #[trigger] f.ensures((w,), None),
    }
{ unimplemented!() }
pub open spec fn str_content(h: HV, c: Seq<u8>) -> Option<Seq<u8>> { if h.cons { seg_oct(h, c, 5) } else { Some(c) } }
pub open spec fn bmp_dec(h: HV, c: Seq<u8>) -> Option<Seq<int>> {
    match str_content(h, c) { None => None, Some(s) => if s.len() % 2 != 0 { None } else { utf16_dec(units16(s)) } }
}
pub open spec fn ucs_dec(h: HV, c: Seq<u8>) -> Option<Seq<int>> {
    match str_content(h, c) { None => None, Some(s) => if s.len() % 4 != 0 || !(forall|i: int| #![trigger units32(s)[i]] 0 <= i < units32(s).len() ==> scalar(units32(s)[i])) { None } else { Some(units32(s)) } }
}
impl<'a> BmpString<'a> {
//@fn src/asn1_types/strings/bmpstring.rs | BmpString<'a> | new | key=P12
//@ret r
//@contract
    ensures cow_scalars(r.data) == str_scalars(s)
//@endfn
}
impl<'a> UniversalString<'a> {
//@fn src/asn1_types/strings/universalstring.rs | UniversalString<'a> | new | key=P12
//@ret r
//@contract
    ensures cow_scalars(r.data) == str_scalars(s)
//@endfn
}
impl<'a> Tagged for BmpString<'a> {
//@consts src/asn1_types/strings/bmpstring.rs | Tagged for BmpString<'_>
}
impl<'a> Tagged for UniversalString<'a> {
//@consts src/asn1_types/strings/universalstring.rs | Tagged for UniversalString<'_>
}
impl<'i> BerContent<'i> for BmpString<'i> {
    type Error = BerError<Input<'i>>;
    type V = Seq<int>;
    open spec fn sp_val(&self) -> Seq<int> { cow_scalars(self.data) }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<Seq<int>> { bmp_dec(h, c) }
//@fn src/asn1_types/strings/bmpstring.rs | BerParser<'i> for BmpString<'i> | from_ber_content | key=P12
//@ret res
//@subst parse_ber_segmented(?:::<\w+>)?\( ==> parse_ber_segmented_oct(
//@subst data\s*\.as_ref\(\)\s*\.chunks\(2\)\s*\.map\( ==> verif_chunks_map(verif_cow_ref(&data), 2, 
//@subst \.collect::<Vec<_>>\(\) ==> 
//@subst String::from_utf16\( ==> verif_from_utf16(
//@nclosures 2
//@closure 0 |__c0: &[u8]| -> (o: u16) requires __c0@.len() == 2 ensures o == __c0@[0] * 256 + __c0@[1]
//@contract
//@ghost entry
    proof { assert(forall|a: u8, b: u8| #![trigger ((a as u16) << 8i32) | (b as u16)] (((a as u16) << 8i32) | (b as u16)) == add(mul(a as u16, 256), b as u16)) by(bit_vector); }
//@ghost letv#0.after
    proof {
        let s = cow_seq(data);
        assert forall|i: int| 0 <= i < v@.len() implies v@[i] == units16(s)[i] by { let x = v@[i]; assert(s.subrange(2 * i, 2 * i + 2)[0] == s[2 * i] && s.subrange(2 * i, 2 * i + 2)[1] == s[2 * i + 1]); }
        assert(v@ =~= units16(s));
    }
//@endfn
}
impl<'i> DerContent<'i> for BmpString<'i> {
    type Error = BerError<Input<'i>>;
    type DV = Seq<int>;
    open spec fn sp_dval(&self) -> Seq<int> { cow_scalars(self.data) }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<Seq<int>> { if h.cons { None } else { bmp_dec(h, c) } }
//@fn src/asn1_types/strings/bmpstring.rs | DerParser<'i> for BmpString<'i> | from_der_content | key=P12+P09
//@ret res
//@subst Self::from_ber_content\( ==> <Self as BerContent>::from_ber_content(
//@contract
//@endfn
}
impl<'a> CheckDerConstraints for BmpString<'a> {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { !h.cons }
//@fn src/asn1_types/strings/bmpstring.rs | CheckDerConstraints for BmpString<'_> | check_constraints | key=P09
//@ret res
//@contract
//@endfn
}
impl<'i> BerContent<'i> for UniversalString<'i> {
    type Error = BerError<Input<'i>>;
    type V = Seq<int>;
    open spec fn sp_val(&self) -> Seq<int> { cow_scalars(self.data) }
    open spec fn sp_ber(h: HV, c: Seq<u8>) -> Option<Seq<int>> { ucs_dec(h, c) }
//@fn src/asn1_types/strings/universalstring.rs | BerParser<'i> for UniversalString<'i> | from_ber_content | key=P12
//@ret res
//@subst parse_ber_segmented(?:::<\w+>)?\( ==> parse_ber_segmented_oct(
//@subst data\s*\.as_ref\(\)\s*\.chunks\(4\)\s*\.map\( ==> verif_chunks_opt(verif_cow_ref(&data), 4, 
//@subst \.collect::<Option<Vec<_>>>\(\) ==> 
//@subst char::from_u32\( ==> verif_from_u32(
//@subst String::from_iter\( ==> verif_from_chars(
//@nclosures 2
//@closure 0 |__c0: &[u8]| -> (o: Option<char>) requires __c0@.len() == 4 ensures match o { Some(c) => scalar(ucs4(__c0@)) && c as u32 == ucs4(__c0@), None => !scalar(ucs4(__c0@)) }
//@contract
//@ghost entry
    proof {
        assert(forall|a: u8, b: u8, c: u8, d: u8| #![trigger ((a as u32) << 24i32) | ((b as u32) << 16i32) | ((c as u32) << 8i32) | (d as u32)]
            (((a as u32) << 24i32) | ((b as u32) << 16i32) | ((c as u32) << 8i32) | (d as u32)) == add(mul(add(mul(add(mul(a as u32, 256), b as u32), 256), c as u32), 256), d as u32)) by(bit_vector);
        assert forall|s: Seq<u8>, i: int| 0 <= i < units32(s).len() implies #[trigger] ucs4(s.subrange(4 * i, 4 * i + 4)) == units32(s)[i] by { }
    }
//@ghost verif_from_chars#0.after
    proof { assert(string_scalars(s) =~= units32(cow_seq(data))); }
//@ghost letv#0.after
    proof {
        let sq = cow_seq(data);
        assert forall|i: int| #![trigger v@[i]] #![trigger units32(sq)[i]] 0 <= i < v@.len() implies v@[i] as u32 as int == units32(sq)[i] && scalar(units32(sq)[i]) by { let x = v@[i]; }
    }
//@endfn
}
impl<'i> DerContent<'i> for UniversalString<'i> {
    type Error = BerError<Input<'i>>;
    type DV = Seq<int>;
    open spec fn sp_dval(&self) -> Seq<int> { cow_scalars(self.data) }
    open spec fn sp_der(h: HV, c: Seq<u8>) -> Option<Seq<int>> { if h.cons { None } else { ucs_dec(h, c) } }
//@fn src/asn1_types/strings/universalstring.rs | DerParser<'i> for UniversalString<'i> | from_der_content | key=P12+P09
//@ret res
//@subst Self::from_ber_content\( ==> <Self as BerContent>::from_ber_content(
//@contract
//@endfn
}
impl<'a> CheckDerConstraints for UniversalString<'a> {
    open spec fn sp_check(h: HV, c: Seq<u8>) -> bool { !h.cons }
//@fn src/asn1_types/strings/universalstring.rs | CheckDerConstraints for UniversalString<'_> | check_constraints | key=P09
//@ret res
//@contract
//@endfn
}
}
