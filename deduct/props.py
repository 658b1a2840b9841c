"""Which verification units and which text decide each property."""
import json
import os

UNITS = {
    "header": [("core", "prove"), ("header", "prove")],
    "enc": [("core", "assume"), ("enc", "prove")],
    "content": [("core", "assume"), ("header", "assume"), ("content", "prove")],
    "any": [("core", "assume"), ("header", "assume"), ("content", "assume"), ("parser", "assume"), ("any", "prove")],
    "ints": [("core", "assume"), ("header", "assume"), ("content", "assume"), ("parser", "assume"), ("any", "assume"), ("ints", "prove")],
    "tagged": [("core", "assume"), ("header", "assume"), ("content", "assume"), ("parser", "assume"), ("any", "assume"), ("tagged", "prove")],
    "iter": [("core", "assume"), ("header", "assume"), ("content", "assume"), ("parser", "assume"), ("any", "assume"), ("iter", "prove")],
    "seqof": [("core", "assume"), ("header", "assume"), ("content", "assume"), ("parser", "assume"), ("any", "assume"), ("iter", "assume"), ("seqof", "prove")],
    "seg": [("core", "assume"), ("header", "assume"), ("content", "assume"), ("parser", "assume"), ("any", "assume"), ("iter", "assume"), ("seg", "prove")],
    "strings": [("core", "assume"), ("header", "assume"), ("content", "assume"), ("parser", "assume"), ("any", "assume"), ("iter", "assume"), ("seg", "assume"), ("strings", "prove")],
    "simple": [("core", "assume"), ("header", "assume"), ("content", "assume"), ("parser", "assume"), ("any", "assume"), ("ints", "assume"), ("simple", "prove")],
    "tober": [(t, "assume") for t in ("core", "header", "content", "parser", "any", "ints", "tagged", "iter", "seqof", "seg", "simple", "strings", "enc")] + [("tober", "prove")],
    "tobs": [(t, "assume") for t in ("core", "header", "content", "parser", "any", "ints", "tagged", "iter", "seqof", "seg", "simple", "strings", "enc", "tober")] + [("tobs", "prove")],
    "tobc": [(t, "assume") for t in ("core", "header", "content", "parser", "any", "ints", "tagged", "iter", "seqof", "seg", "simple", "strings", "enc", "tober", "tobs")] + [("tobc", "prove")],
    "laws": [(t, "assume") for t in ("core", "header", "content", "parser", "any", "ints", "tagged", "iter", "seqof", "seg", "simple", "strings", "enc", "tober", "tobs", "tobc")] + [("laws", "prove")],
    "laws2": [(t, "assume") for t in ("core", "header", "content", "parser", "any", "ints", "tagged", "iter", "seqof", "seg", "simple", "strings", "enc", "tober", "tobs", "tobc", "laws")] + [("laws2", "prove")],
    "oid": [(t, "assume") for t in ("core", "header", "content", "parser", "any", "ints", "tagged", "iter", "seqof", "seg", "simple", "strings", "enc", "tober", "tobs", "tobc", "laws", "laws2")] + [("oid", "prove")],
    "owned": [(t, "assume") for t in ("core", "header", "content", "parser", "any", "ints", "tagged", "iter", "seqof", "seg", "simple", "strings", "enc", "tober", "tobs", "tobc", "laws", "laws2")] + [("owned", "prove")],
    "time": [(t, "assume") for t in ("core", "header", "content", "parser", "any", "ints", "tagged", "iter", "seqof", "seg", "simple", "strings", "enc", "tober", "tobs", "tobc", "laws", "laws2")] + [("time", "prove")],
    "real": [(t, "assume") for t in ("core", "header", "content", "parser", "any", "ints", "tagged", "iter", "seqof", "seg", "simple", "strings", "enc", "tober", "tobs", "tobc", "laws", "laws2", "time")] + [("real", "prove")],
    "parser": [("core", "assume"), ("header", "assume"), ("content", "assume"), ("parser", "prove")],
}
TRUST = [
    "nom primitives be_u8/take and their streaming contracts (nom 8.0 documentation)",
    "Clone of Input/Header returns an equal value (derived)",
    "usize is 64 bits wide",
    "Verus' built-in specifications of core/alloc functions",
]
PROPS = {}


def prop(id, title, units, proof, level="proof", assumptions=()):
    PROPS[id] = dict(title=title, units=units, proof=proof, level=level, assumptions=list(assumptions))


TITLES = {}
for _l in open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")):
    _d = json.loads(_l)
    TITLES[_d["id"]] = _d["title"]


def P(id, units, proof):
    prop(id, TITLES[id], units, proof, "proof" if units else "exploration")


P("P01", ["header"],
  "For all inputs of any length: parse_header (with its loops) returns Ok exactly when the X.690 specification function hdr_spec is defined, with class, constructed bit, tag, length, raw tag, raw header and remaining input exactly as specified; Header::parse_ber/parse_der inherit it. The byte-slice entry points and Any are covered by the bounded layer only.")
P("P02", ["enc", "tober:P02", "tobs:P02", "tobc:P02", "time:P02", "real:P02", "laws"],
  "write_tag_generic, write_length and the header writers are proved to write exactly the minimal X.690 identifier/length octets and to report the count written, for every class, constructed bit, 32-bit tag and 64-bit length; every ber/der_tag_info names the identifier its type has. law_header_roundtrip: the header octets, whatever follows them, decode (hdr_spec, the contract of the parser, P01) to the same class, constructed bit, tag and length, and law_object_roundtrip extends this to whole objects.")
P("P03", ["enc", "tober:P02+P03", "tobs:P03", "tobc:P03", "time:P02+P03", "real:P02+P03"],
  "For every type with an encoder under contract (twelve integer types, Integer, Any, Header, octet/bit/character strings, Boolean, bool, Null, (), Enumerated, Oid, Sequence, Set, Vec, [T;N], SequenceOf, SetOf, BTreeSet, HashSet, AnySequence, AnySet, Option, &T, TaggedValue, TaggedParser, UtcTime, GeneralizedTime; BER and DER): content_len, total_len, write_header, write_content, encode, encode_tagged_*, to_*_vec and write_* are proved to agree with one octet sequence ber_out/der_out of the value: the predicted length is its length, what is appended to any writer is exactly it and the number reported is its length. REAL and derived encoders, and the deprecated aliases: bounded layer.")
P("P04", ["ints:P04"],
  "For every primitive integer type (u8..u128, usize, i8..i128, isize), every header and every content of any length: from_ber_content returns exactly the two's complement value of the content, and refuses exactly constructed, empty and out-of-range contents; trim_slice, decode_array_uint, decode_array_int and is_highest_bit_set are proved for all lengths; Integer keeps exactly the content octets. BigInt conversions and Any accessors: bounded layer.")
P("P05", ["ints:P05", "tober:P05", "laws"],
  "Integer::from_* / From for all twelve primitive types are proved to produce, for every value, the unique minimal two's complement content (lemma_int_min_unique); the object written for it (headers, writers, vectors) is proved to be identifier, length and that content, and law_ber_roundtrip/law_der_roundtrip show that decoding the octets written gives the value back, whatever follows.")
P("P06", ["header", "content", "any:P06"],
  "For all inputs and all depths: ber_skip_object_content, BerMode/DerMode::get_object_content, ber_get_content and der_get_content return exactly the content octets and the remainder X.690 assigns (indefinite length: items up to the matching end-of-contents; DER: indefinite refused), with the recursion limit as documented. Values built on top: bounded layer.")
P("P08", ["header", "content", "parser", "any:P08", "iter:P08", "seqof:P08", "oid:P08", "time:P08", "real:P08", "laws"],
  "The byte-slice entry points (Any::from_ber/from_der, the generic FromBer/FromDer implementations, wrap_ber_parser, impl_tryfrom_any) are proved to equal decoding of one object followed by the untouched remainder. The generic entry points parse_ber/parse_der (default bodies, for every implementing type), parse_*_optional, parse_*_as_input and Option<T> are proved to consume exactly one object (header plus content), to hand exactly its content octets to the type and to return everything after it. law_one_object_ber/der: the result is the same whatever octets follow, and every proper prefix is refused (all lengths, by induction over the nesting). Types with parsers of their own (REAL, derived): bounded layer.")
P("P15", ["tagged:P15", "tober:P15", "tobc:P15", "laws"],
  "For every inner type, class and tag: TaggedValue and TaggedParser (explicit and implicit) accept exactly the objects with that class, tag and (explicit) constructed bit whose content the inner type decodes (explicit: as a complete object; implicit: under the inner type's own tag), through parse_ber/parse_der, TryFrom<Any>, from_ber/from_der, TaggedParser::parse_* and Any::from_*_and_then; check_constraints passes the same header on. Encoders of both are proved to write exactly that object, and the round-trip law covers both taggings of every type under contract. Helpers: bounded layer.")
P("P10", ["seg:P10", "tober:P10", "tobs:P10", "laws"],
  "parse_ber_segmented (both instances, with its loop and recursion) is proved for all inputs: the value is the concatenation in order of the segments of every nesting up to the recursion limit, refused exactly if a segment is refused, has another tag, is not an object, or nests too deep; OctetString, BitString and &[u8] content parsers (BER, DER) and check_constraints are proved against it, the bit string content against bits_of with the unused-bits rule. The bit vector of crate bitvec is a trusted contract. The encoders are proved to write exactly the octets (bit strings: unused-bits octet, bits, zero padding), and the round-trip law shows they decode to the same value.")
P("P11", ["oid:P11", "tobs:P11"],
  "For every content of any length and every arc sequence: Oid::from / from_relative produce exactly the X.690 8.19 octets (ids_enc: minimal base-128, first two arcs combined) and refuse exactly the sequences that are no identifier or whose first sub-identifier exceeds 64 bits; the content parsers, from_ber_relative/from_der_relative, as_bytes, to_owned, starts_with keep exactly the octets; iter() is None exactly if a sub-identifier exceeds 64 bits, iter()/iter_bigint() and their next()/size_hint() yield exactly the encoded arcs; tag and encoders as in P02/P03; encode_base128 of the oid! macro. law_oid_arcs, law_oid_rel_arcs (build then read gives the arcs), law_oid_octets, law_oid_inj (read then build gives the octets; equal arcs mean equal octets); Oid is an instance of the round-trip and DER laws. Excluded: the absolute content 00 (known finding). num_bigint::BigUint arithmetic is a trusted contract. Dotted text, FromStr and the token handling of oid!: bounded layer.")
P("P12", ["strings:P12", "tobs:P12", "laws"],
  "For every content of any length: the content parsers (BER, DER) of all ten restricted string types of asn1_string!, of BmpString, UniversalString, String and &str return exactly the contents octets (segments concatenated) if they are in the character set of the type and refuse everything else; the character set predicates test_valid_charset are proved octet by octet; BMPString is exactly the UTF-16BE decoding and UniversalString the UCS-4 decoding of the octets (spec functions utf16_dec, units32); UTF-8 validity is the Unicode table (is_utf8). core::str::from_utf8, String::from_utf8/from_utf16/from_iter, str::chars/encode_utf16 and char::from_u32 are trusted contracts. The encoders are proved to write those octets and the round-trip law holds for every string whose characters are in the character set.")
P("P16", ["content", "parser", "iter:P16", "seqof:P16", "tobs:P16", "tobc:P16", "owned:P16", "laws"],
  "For every element type, every content of any length and both modes: AnyIterator, SequenceIterator and SequenceIteratorInput yield exactly the objects (values) that follow one another in the content, in order, with the untouched rest; they report an error exactly where the next object is not decodable, and nothing after it. Vec, SequenceOf, SetOf and AnySequence (all interfaces: content parsers, TryFrom<Any>, from_der, check_constraints) hold exactly the decoded elements or are refused if any element is; Sequence/Set keep the content, and their iter/sequence_of/and_then functions use exactly it. Encoders of all containers are proved to write the concatenation of their elements' encodings, and law_*_list/law_*_roundtrip that decoding it returns the elements. Partial correctness for FromBer/FromDer element types that consume nothing (iteration over them does not terminate). Decoders of arrays, tuples, BTreeSet/HashSet and AnySet: bounded layer.")
P("P17", ["header", "content", "parser", "tagged:P17", "tobc:P17", "laws"],
  "parse_*_optional defaults and the Option<T> parsers are proved, for every type and input: empty input or another tag gives None and consumes nothing; a present element is consumed exactly, or its error is returned. OptTaggedParser::parse_ber/parse_der are proved for every closure. The encoders of Option<T> are proved to write nothing and predict zero for None and to write exactly the value otherwise; law_*_option is the round trip. Derives: bounded layer.")
P("P07", [u + ":safety" for u in UNITS if u not in ("laws", "laws2")],
  "For every function under contract (decoders, iterators, accessors, encoders; list in functions_under_contract) and every input its callers can pass: no arithmetic overflow or underflow, no index or slice out of range, no unwrap/expect on None or Err, no reachable panic!/unreachable!, no division by zero or over-wide shift, and every loop and recursion terminates (decreases clauses; the recursion of nested indefinite lengths and segments is bounded by the depth parameter). Termination is not proved for iteration over FromBer/FromDer element types that consume nothing. Formatting (Display/Debug), OID text, REAL and derived decoders, and stack depth: bounded layer.")
P("P09", ["header", "content", "parser", "any:P09", "ints:P09", "seqof:P09", "seg:P09", "simple:P09", "strings:P09", "oid:P09", "time:P09", "real:P09", "laws2"],
  "DER restrictions of the shared layers are proved for all inputs (indefinite length refused by get_object_content/der_get_content; parse_der default passes only definite content on). INTEGER (all types, both interfaces): contents that are not minimal are refused, everything else is as in BER. Vec/SequenceOf/SetOf::check_constraints apply the restrictions of the element type to every element. Octet and bit strings: constructed forms and non-zero padding bits refused. law_der_ber/law_der_ber_list: for every type under contract (integers, strings, booleans, null, enumerated, object identifiers, times, Any, Sequence, Set, Vec, SequenceOf, SetOf, Option, TaggedValue) whatever DER accepts BER accepts with the same value and extent; law_canonical: if the headers were minimal (and a time is in the form X.690 11.7/11.8 prescribe), the value is written in DER as the same octets. Other types: bounded layer.")
P("P19", ["header", "content", "parser", "any:P08", "iter:P19", "seqof:P19"],
  "Spans: for all inputs, parse_header, content extraction, parse_ber/parse_der, parse_*_as_input and parse_*_any return inputs whose bytes and positions are exactly the claimed sub-range of the given input (contracts `sub`/`wf`); Input::take/take_from/take_split are proved. AnyIterator (items, their contents and what is left) and Sequence/Set::parse_*_and_then are proved likewise. Tuples, derived types: bounded layer.")
P("P13", ["time:P13"],
  "For every content of any length: UtcTime/GeneralizedTime::from_bytes and both content parsers return exactly the fields utc_of/gen_of assign (layout of X.680 46/47, month, day, hour, minute, second in range, fraction of one to three digits in milliseconds, Z or offset with its sign) and refuse exactly everything else; DER (and check_constraints) of GeneralizedTime additionally demand Z and no comma. For every combination of fields: to_datetime, utc_datetime, utc_adjusted_datetime (two-digit-year rule) and timestamp give the instant of these fields, or an error exactly if there is no such day or offset. The encoders write exactly utc_enc/gen_enc (fraction without trailing zeros) whenever the fields fit their positions; lemma_utc_rt/lemma_gen_rt: a time in UTC written decodes to the same fields; lemma_*_canon: canonical text is written back as read; both types are instances of the round-trip and DER laws. The constructors of crate time and {:0N} of core::fmt are trusted contracts. Display and the arithmetic inside crate time: bounded layer.")
P("P14", ["real:P14"],
  "For every content of any length: decode_real, Real/f64/f32::from_ber_content and from_der_content return exactly what real_dec assigns (X.690 8.5: sign, base 2/8/16, scaling factor, exponent of one to four octets in short or long form, mantissa up to eight octets; zero, infinities, not-a-number; everything else refused); Real::f64 is mantissa x 2^exponent exactly whenever that is a float (lemma_real_f64). For every binary Real with a non-zero finite mantissa (|power of two of the mantissa| up to 900) and encoding base 2, 8 or 16: the encoder writes exactly real_cont (normalised odd mantissa, floor exponent, scaling factor, minimal exponent and mantissa octets) with the announced length; lemma_real_rt: what is written is read as the same number; lemma_real_enc_eq: equal numbers are written alike; Real is an instance of the DER/BER and canonical laws. Trusted: the IEEE 754 contracts of the f64 operations used (exact products and quotients with powers of two, powi of 2, fract, comparison, casts), text of core::fmt and of parse. Decimal forms (Real::new): bounded layer.")
P("P20", ["owned", "oid:P20"],
  "For every value: to_static of Header (class, constructed bit, tag, length, raw tag), Sequence, Set, Cow<str>, Cow<[u8]>, str, String, bool, the twelve integer types, &T, Option<T>, Box<T> and Vec<T> (for every T with to_static) and Oid::to_owned return a value with the same fields, content, octets and elements; lemma_same_ber/der: for booleans, integers, String, Sequence, Set, Vec and Option the copy is written as the same octets. Sequence/Set::into_*_sequence_of/set_of give exactly the decoded elements, as owned copies if the container owns its data. Derived ToStatic: bounded layer.")
for _p in TITLES:
    if _p not in PROPS:
        P(_p, [], "bounded comparison with an executable specification (no obligation discharged yet)")
