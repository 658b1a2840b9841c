#!/usr/bin/env python3
"""writes properties.jsonl (run by hand)"""
import json
def q(text, over=("inputs",)): return {"over": list(over), "text": text}
L=[]
def P(id,title,statement,quant,why,files,mech,observe,over=("inputs",)):
    L.append(dict(id=id,title=title,statement=statement,quantifier=q(quant,over),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe)))
P("P01","Identifier and length octets are decoded exactly as X.690 defines",
 "For every byte string, decoding an object header either fails or returns the class, constructed bit, tag number, length form, length value and the exact raw identifier and header octets that X.690 8.1.2/8.1.3 assign to its prefix, leaving exactly the octets after the header. It fails exactly when the header is truncated, the tag needs more than five subsequent octets or exceeds 32 bits, the length is the reserved octet 0xff, exceeds 64 bits, or is indefinite on a primitive object; decoding as DER additionally rejects the indefinite form, and only that.",
 "all byte strings, of any length, as BER and as DER",
 "the interesting headers (multi-octet tags near 2^32, long-form lengths with leading zeros or near 2^64, truncation at each octet) are a vanishing fraction of the input space and tests hold a few dozen fixed ones",
 ["src/header.rs","src/input.rs","src/class.rs","src/tag.rs","src/length.rs"],[("header decoder","src/header.rs parse_header, bytes_to_u64_g"),("header entry points","src/header.rs BerParser/DerParser/FromBer/FromDer for Header")],
 "decoded header accessors and the remaining input of header and object parsing")
P("P02","Headers are encoded minimally and decode back to themselves",
 "For every class, constructed bit, 32-bit tag number and length, the identifier octets written are the unique minimal X.690 form and the length octets are the unique minimal definite form (or the single octet 0x80 for indefinite), the reported count equals the octets written, and decoding those octets gives back the same header.",
 "all (class, constructed, tag, length) quadruples, through every encoder",
 "boundaries between encodings lie at 2^7k and 2^8k and differ per encoder; tests use a handful of short headers",
 ["src/to_ber/generic.rs","src/to_ber/encoder.rs","src/to_ber/primitive.rs","src/to_ber/constructed.rs","src/to_ber/constructed_indefinite.rs","src/to_der.rs"],[("identifier and length writers","src/to_ber/encoder.rs"),("encoders","src/to_ber/*.rs")],
 "octets of encoded headers and the counts returned by writers")
P("P03","Predicted lengths equal what is actually written",
 "For every encodable value of every supported type, the predicted content length and total length equal the number of octets the writer produces, the count the writer returns equals the number of octets it wrote, and vector output and writer output are the same octets.",
 "all values of all types implementing encoding, nested to any depth",
 "outer length fields are computed from predictions before contents are written, so one wrong prediction corrupts every enclosing object, but only for values crossing a particular size boundary or nested in a particular wrapper",
 ["src/to_ber.rs","src/to_der.rs","src/length.rs","src/asn1_types"],[("length prediction","src/to_ber/encoder.rs ber_header_length etc., src/to_ber.rs, src/to_der.rs"),("per-type content length","src/asn1_types/**")],
 "content/total length queries versus octets and counts of encoding", ("inputs","programs"))
P("P04","Integers decode to their exact value or are refused",
 "For every INTEGER content, decoding into a fixed-width Rust integer returns exactly the two's-complement value if it fits the type, and otherwise fails; it never wraps, truncates or changes sign. Decoding as DER accepts exactly the minimal contents, empty contents are always refused, and the arbitrary-precision views report the same value.",
 "all contents of any length, all twelve fixed-width types and the arbitrary-precision type",
 "wrap-around and sign errors appear only at particular leading-octet patterns for a particular width; tests pick a few values per width",
 ["src/asn1_types/integer.rs","src/asn1_types/enumerated.rs"],[("leading-octet trimming and width checks","src/asn1_types/integer.rs decode_array_int, decode_array_uint, trim_slice"),("per-type decoders","src/asn1_types/integer.rs impl_int!, impl_uint!")],
 "values and errors of integer decoding")
P("P05","Integers encode minimally and round-trip",
 "For every value of every fixed-width integer type, and for every unsigned big-endian octet array, the encoded content is the unique minimal two's-complement representation of that value, and decoding it returns the same value.",
 "all values of all twelve types; octet arrays of any length",
 "minimality and the leading sign octet change at 2^(8k-1) boundaries for both signs; tests sample few values",
 ["src/asn1_types/integer.rs","src/const_int.rs"],[("array to integer conversions","src/asn1_types/integer.rs from_const_array, from_const_array_negative"),("const integer macro","src/const_int.rs")],
 "encoded octets and integer objects built from native values")
P("P06","Object contents are delimited exactly, definite and indefinite",
 "For every byte string, a definite-length object's content is exactly the announced number of octets, and an indefinite-length object's content ends exactly at its own matching end-of-contents marker, nested objects included, with the marker excluded from the content and consumed from the input. Truncated objects, missing or malformed end markers, and nesting beyond the documented limit are refused; DER refuses indefinite lengths.",
 "all byte strings, all nesting structures",
 "correct matching of end markers depends on the whole nested structure, including markers look-alikes inside definite-length contents; tests have few nested indefinite objects",
 ["src/ber/parser.rs","src/asn1_types/any.rs","src/header.rs"],[("content delimitation","src/ber/parser.rs get_object_content, ber_skip_object_content")],
 "content and remaining input of generic object parsing")
P("P07","Decoding and inspecting arbitrary bytes always terminates without panicking",
 "For every byte string and every decoder of the library, in BER and in DER, decoding returns a value or an error: it does not panic, overflow the stack or loop forever. The same holds for reading, iterating, converting, displaying and re-encoding any value that was decoded.",
 "all byte strings, all decoders and accessors",
 "a panic needs one particular malformed encoding of one particular type; tests contain few malformed inputs",
 ["src"],[("all decoders","src/**"),("bounded recursion","src/ber/parser.rs, src/ber/appendable.rs")],
 "normal return of every public decoder and accessor")
P("P08","Decoders consume exactly one object and depend only on it",
 "A decoder that succeeds consumes exactly one encoded object and returns the octets after it untouched; its result is the same whatever octets follow the object. On any proper prefix of an accepted object every decoder fails, and the slice-based and input-based interfaces of the same type agree on acceptance, value and remaining octets.",
 "all byte strings, all trailing data, all types and both interfaces",
 "requires relating several runs (with different suffixes, prefixes and interfaces), which example tests do not do systematically",
 ["src/traits.rs","src/from_ber.rs","src/from_der.rs","src/asn1_types","src/lib.rs"],[("default decoding methods","src/from_ber.rs, src/from_der.rs"),("interface adapters","src/lib.rs / src/error.rs wrap_ber_parser")],
 "remaining octets, values and errors of decoders")
P("P09","DER decoding is strict and consistent with BER decoding",
 "Whatever the DER decoder of a type accepts, the BER decoder accepts with the same value; and DER refuses indefinite lengths, booleans other than 0x00/0xff, non-minimal integers, constructed string encodings, and bit strings with non-zero padding bits, also for elements nested in containers. Where a value was accepted by DER with a minimally encoded header, re-encoding it in DER returns the same octets.",
 "all byte strings, all types with both decoders",
 "each relaxed case needs a specific non-canonical encoding of a specific type, possibly nested; tests cover few of them",
 ["src/asn1_types","src/from_der.rs","src/header.rs"],[("DER constraint checks","src/asn1_types/integer.rs, boolean.rs, bitstring.rs; src/header.rs")],
 "acceptance and values of DER versus BER decoding, and re-encoding")
P("P10","Octet and bit strings decode exactly, including segmented encodings",
 "A primitive string object decodes to exactly its content octets (bit strings: the content minus its unused-bits octet, which must be 0 to 7, with the stated number of trailing bits ignored); a constructed BER string decodes to the concatenation, in order, of its segments at any permitted nesting, and is refused if any element is not an acceptable segment. Encoding such a value and decoding it again returns the same octets and bits.",
 "all byte strings and segment trees, all string types",
 "segment trees (nested, empty, indefinite, foreign elements between segments) are combinatorial; tests have a few",
 ["src/asn1_types/octetstring.rs","src/asn1_types/bitstring.rs","src/ber/appendable.rs","src/asn1_types/strings"],[("segment reassembly","src/ber/appendable.rs"),("string decoders","src/asn1_types/octetstring.rs, bitstring.rs, strings/*.rs")],
 "decoded string octets and bits")
P("P11","Object identifiers decode, print and encode exactly",
 "For every sequence of arcs that is a valid object identifier, building it gives exactly the X.690 8.19 octets, and for every valid content the arcs reported are exactly the encoded ones (none reported if an arc exceeds the requested width), with the dotted text listing those arcs; building from arcs and decoding are inverse. Invalid first arcs are refused, relative identifiers keep their own encoding rule and tag, and comparison agrees with the encoded octets.",
 "all arc sequences and all contents, absolute and relative",
 "arcs are variable-length base-128 numbers combined specially for the first two; errors sit at 7-bit and 64-bit boundaries and first-arc combinations",
 ["src/asn1_types/oid.rs"],[("base-128 codec and first-arc rule","src/asn1_types/oid.rs")],
 "arcs, text and octets of object identifiers")
P("P12","Restricted strings accept exactly their alphabet and transcode exactly",
 "Each restricted string type accepts a content exactly when every character belongs to its alphabet and encoding (for multi-octet types, well-formed UTF-16BE or UTF-32BE), the decoded text is exactly the text encoded, and encoding that text returns the same octets.",
 "all contents of every restricted string type",
 "alphabet tables and multi-octet forms go wrong at single code points; tests use ordinary words",
 ["src/asn1_types/strings"],[("character set checks","src/asn1_types/strings/*.rs")],
 "acceptance and text of restricted strings")
P("P13","Times are validated, interpreted and encoded exactly",
 "A UTCTime or GeneralizedTime content is accepted only if its characters follow the X.680 layout and its month, day, hour, minute and second are in range (month 1-12, day 1-31, hour 0-23, minute and second 0-59); the fields reported are those written, and the instant reported is the one the text denotes (fraction of second, sign of offsets, two-digit-year rule), or an error if no such calendar day or offset exists. Encoding a time in UTC writes text that decodes to the same fields.",
 "all contents; all field combinations",
 "date validity, offsets with both signs, fractions and year windows interact; tests use a few dates",
 ["src/datetime.rs","src/asn1_types/utctime.rs","src/asn1_types/generalizedtime.rs"],[("time parsing","src/asn1_types/utctime.rs, generalizedtime.rs"),("calendar conversion","src/datetime.rs")],
 "fields, instants, text and octets of times")
P("P14","REAL values decode and encode to the same number",
 "A binary REAL content decodes to exactly mantissa x base^exponent x 2^scale with its sign, for bases 2, 8 and 16, and its floating-point value is the nearest one; the special contents decode to zero, the two infinities and not-a-number; encoding a finite float in binary with base 2, 8 or 16 writes exactly that number, and malformed contents are refused.",
 "all contents whose value is exactly representable; all finite floats of normal magnitude",
 "the encoding has many parameter combinations (base, scale, exponent length, sign) each hit by few inputs; tests have about a dozen values",
 ["src/asn1_types/real.rs","src/asn1_types/real/f32.rs","src/asn1_types/real/f64.rs"],[("REAL codec","src/asn1_types/real.rs")],
 "values and octets of REAL")
P("P15","Tagged values require and produce exactly their tag",
 "An explicitly tagged value is accepted only if it is constructed and has the declared class and number, and its value is that of the inner object; an implicitly tagged value replaces the inner tag by the declared class and number and keeps the inner constructed bit and content rules. Any other class or number is refused, and encoding then decoding a tagged value returns it.",
 "all byte strings, all classes and tag numbers, all inner types",
 "class/number/constructed confusion needs the one wrong combination that shares a tag number; tests use matching tags",
 ["src/asn1_types/tagged.rs","src/asn1_types/tagged/explicit.rs","src/asn1_types/tagged/implicit.rs","src/asn1_types/tagged/parser.rs","src/asn1_types/tagged/builder.rs","src/asn1_types/tagged/helpers.rs"],[("tag checks","src/asn1_types/tagged/*.rs")],
 "acceptance, inner value and octets of tagged values", ("inputs","programs"))
P("P16","Containers hold exactly their elements in order",
 "Decoding a SEQUENCE, SET, SEQUENCE OF or SET OF yields exactly the elements encoded in its content, in order, each decoded by the element type's rules for the mode in use, and fails if any element is malformed or has the wrong tag; iterators yield the same elements, stop at the end of the content or after reporting an error, and encoding then decoding a container returns the same elements.",
 "all byte strings and element lists, all container and element types, both modes",
 "errors in the middle of lists, mode mixing and early termination depend on element position and count",
 ["src/asn1_types/sequence.rs","src/asn1_types/set.rs","src/asn1_types/sequence","src/asn1_types/set","src/asn1_types/iterator.rs"],[("element iterators","src/asn1_types/sequence/iterator.rs, src/asn1_types/iterator.rs"),("containers","src/asn1_types/sequence/*.rs, set/*.rs")],
 "elements of containers and iterators")
P("P17","Optional values are present exactly when their tag is next",
 "Decoding an optional value returns none, consuming nothing, exactly when the input is empty or the next object has a tag the type does not accept; otherwise it decodes the object and any error in it is reported, never turned into absence. Encoding none writes nothing and has length zero; encoding some value writes exactly that value.",
 "all byte strings, all optional forms (plain, tagged, conditional content)",
 "distinguishing an absent value from a malformed present one needs malformed input after a matching tag, which tests rarely hold",
 ["src/asn1_types/optional.rs","src/asn1_types/tagged/optional.rs","src/from_ber.rs","src/from_der.rs"],[("optional decoding","src/asn1_types/optional.rs, src/asn1_types/tagged/optional.rs")],
 "result and consumption of optional decoding")
P("P18","Derived codecs round-trip and honour their attributes",
 "For every structure, alias, choice or enumerated type whose codecs are derived, decoding accepts exactly the concatenation of its fields' encodings in declaration order with the attributes given (explicit and implicit tags, class, optional, default), encoding a value and decoding it returns it, and unknown choice alternatives or enumerated values are refused.",
 "all declarations using the supported attributes; all values and byte strings",
 "generated code differs per declaration and attribute combination; tests instantiate some of them on matching inputs only",
 ["derive/src","src/derive.rs"],[("code generation","derive/src/container.rs, alias.rs, choice.rs, enumerated.rs")],
 "decode and encode of derived types", ("inputs","programs"))
P("P19","Every input fragment reports its true position",
 "Every fragment obtained while decoding (remaining input, header octets, content, element) has a reported span that is exactly its position in the original buffer and whose octets are exactly that part of the buffer, through any sequence of splitting and nesting operations.",
 "all byte strings and all sequences of input operations",
 "position drift appears only after particular operation sequences (nested, indefinite, skipped); tests check offsets of a few fixed parses",
 ["src/input.rs","src/ber/parser.rs","src/asn1_types/any.rs"],[("span tracking","src/input.rs"),("fragment construction","src/header.rs, src/ber/parser.rs")],
 "spans and octets of inputs held by results")
P("P20","Owned copies equal the borrowed values they come from",
 "Converting any decoded value to its owned form yields a value that compares equal to it and encodes to the same octets, with tag, class, constructed bit, content and (for typed values) every accessor unchanged.",
 "all decoded values of all types with an owned form",
 "each type has its own conversion, some generated; a dropped or altered field shows only for values exercising that field",
 ["src/tostatic.rs","src/asn1_types","derive/src/tostatic.rs"],[("owned conversions","src/tostatic.rs and impl ToStatic blocks")],
 "equality and encoding of owned copies")
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in L))
for x in L:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    print(x["id"],x["title"])
