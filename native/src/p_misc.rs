//! P07 (termination without panic), P08 (access through Any), P20 (owned copies), P03 (built values)
use crate::run::{Kind, G, R};
use crate::spec::{self, hex};
use crate::util::*;
use crate::zoo::{self, dbg_of, enc_check, strip_span};
use asn1_rs::nom::Input as _;
use asn1_rs::*;
use std::borrow::Cow;
use std::fmt::{Debug, Display};

fn d<T: Debug>(t: &T) -> usize {
    format!("{t:?}").len()
}
fn dd<T: Debug + Display>(t: &T) -> usize {
    format!("{t} {t:?}").len()
}
fn e<T: Debug, E: Debug + Display>(r: &std::result::Result<T, E>) -> usize {
    match r {
        Ok(t) => d(t),
        Err(e) => dd(e),
    }
}

fn look_header(h: &Header) {
    let _ = (h.class(), h.tag(), h.length(), h.constructed(), h.is_primitive(), h.is_constructed(), h.is_universal(), h.is_application(), h.is_contextspecific(), h.is_private());
    let _ = (h.raw_tag().map(|x| x.len()), h.raw_header().map(|x| x.len()));
    let _ = (e(&h.assert_class(Class::Private)), e(&h.assert_tag(Tag::Null)), e(&h.assert_primitive()), e(&h.assert_constructed()), e(&h.assert_definite()));
    let _ = (h.length().is_null(), e(&h.length().definite()), h.length().is_definite());
    let _ = dd(&h.tag());
    let _ = dd(&h.class());
    let _ = d(h);
    let o = h.to_static();
    let _ = o == *h;
    let mut v = vec![];
    let _ = h.ber_write_header(&mut v);
    let _ = h.to_ber_vec();
    let _ = h.to_der_vec();
    let _ = h.clone().with_class(Class::Private).with_constructed(true).with_tag(Tag(5)).with_length(Length::Indefinite).to_ber_vec();
}
fn look_oid(o: &Oid) {
    let _ = o.to_id_string();
    let _ = dd(o);
    let _ = o.iter().map(|i| {
        let n = i.len();
        (n, i.count())
    });
    let it = o.iter_bigint();
    let _ = it.len();
    let _ = it.map(|x| x.bits()).max();
    let _ = o.starts_with(&Oid::new(Cow::Borrowed(&[0x2a])));
    let _ = (o.as_bytes().len(), o.to_owned() == *o, o.to_der_vec());
    let _ = o.clone().into_cow();
}
fn look_int(i: &Integer) {
    let _ = d(i);
    let _ = (i.as_bigint(), e(&i.as_biguint()), i.as_raw_slice().map(|x| x.len()));
    let _ = (e(&i.as_u8()), e(&i.as_u16()), e(&i.as_u32()), e(&i.as_u64()), e(&i.as_u128()));
    let _ = (e(&i.as_i8()), e(&i.as_i16()), e(&i.as_i32()), e(&i.as_i64()), e(&i.as_i128()));
    let _ = d(&i.any());
    let _ = i.to_der_vec();
}
fn look_bits(b: &BitString) {
    let _ = (b.len(), b.is_empty(), b.as_raw_slice().len(), b.as_bitslice().len());
    for n in [0usize, 1, 7, 8, b.len().wrapping_sub(1), b.len(), b.len() + 1, usize::MAX] {
        let _ = b.is_set(n);
    }
    let mut c = b.clone();
    if !c.is_empty() {
        c.as_mut_bitslice().set(0, true);
    }
    let _ = (c.to_der_vec(), d(b));
}
fn look_real(r: &Real) {
    let _ = (r.is_infinite(), r.is_finite(), r.f32(), r.f64(), d(r));
    for b in [2u8, 8, 16, 10, 3] {
        let c = match r {
            Real::Binary { mantissa, base, exponent, .. } => Real::binary(*mantissa, *base, *exponent),
            Real::Infinity => Real::Infinity,
            Real::NegInfinity => Real::NegInfinity,
            Real::NaN => Real::NaN,
            Real::Zero => Real::Zero,
        };
        let _ = c.with_enc_base(b as _).to_der_vec();
    }
    let _ = (r.ber_content_len(), r.to_ber_vec());
}
fn look_any(a: &Any) {
    look_header(&a.header);
    let _ = d(a);
    let _ = a.to_ber_vec();
    let _ = a.to_der_vec();
    let _ = (a.ber_content_len(), a.ber_total_len());
    let _ = (e(&a.as_any_str()), e(&a.as_any_string()));
    macro_rules! all {
        ($($f:ident)*) => { $( let _ = e(&a.$f()); )* };
    }
    all!(as_anysequence as_bitstring as_bmpstring as_bool as_boolean as_embedded_pdv as_endofcontent as_enumerated as_generalizedtime as_generalstring as_graphicstring as_i8 as_i16 as_i32 as_i64 as_i128 as_ia5string as_integer as_null as_numericstring as_objectdescriptor as_octetstring as_oid as_real as_relative_oid as_printablestring as_sequence as_set as_str as_string as_teletexstring as_u8 as_u16 as_u32 as_u64 as_u128 as_universalstring as_utctime as_utf8string as_videotexstring as_visiblestring);
    macro_rules! into {
        ($($f:ident)*) => { $( let _ = e(&a.clone().$f()); )* };
    }
    into!(anysequence bitstring bmpstring bool boolean embedded_pdv enumerated generalizedtime generalstring graphicstring i8 i16 i32 i64 i128 ia5string integer null numericstring objectdescriptor octetstring oid real relative_oid printablestring sequence set str string teletexstring u8 u16 u32 u64 u128 universalstring utctime utf8string videotexstring visiblestring);
    if let Ok(o) = a.as_oid() {
        look_oid(&o);
    }
    if let Ok(o) = a.as_relative_oid() {
        look_oid(&o);
    }
    if let Ok(i) = a.as_integer() {
        look_int(&i);
    }
    if let Ok(b) = a.as_bitstring() {
        look_bits(&b);
    }
    if let Ok(r) = a.as_real() {
        look_real(&r);
    }
    if let Ok(t) = a.as_utctime() {
        let _ = (dd(&t), e(&t.utc_datetime()), e(&t.utc_adjusted_datetime()), e(&t.timestamp()), t.to_der_vec());
        let _ = (dd(&t.0), e(&t.0.to_datetime()));
    }
    if let Ok(t) = a.as_generalizedtime() {
        let _ = (dd(&t), e(&t.utc_datetime()), t.to_der_vec());
        let _ = (dd(&t.0), e(&t.0.to_datetime()));
    }
    if let Ok(s) = a.as_octetstring() {
        let _ = (s.as_cow().len(), s.as_ref().len(), s.to_der_vec(), s.into_cow().len());
    }
    macro_rules! strs {
        ($($f:ident)*) => { $( if let Ok(s) = a.$f() { let _ = (s.as_ref().len(), s.string(), s.to_der_vec(), s.ber_content_len()); } )* };
    }
    strs!(as_bmpstring as_generalstring as_graphicstring as_ia5string as_numericstring as_objectdescriptor as_printablestring as_teletexstring as_universalstring as_utf8string as_videotexstring as_visiblestring);
    let _ = e(&a.as_optional::<u32>());
    let _ = e(&a.as_tagged_explicit::<u32, Error, 2, 0>());
    let _ = e(&a.as_tagged_implicit::<u32, Error, 2, 0>());
    let _ = a.iter_elements::<BerMode>().count();
    let _ = a.iter_elements::<DerMode>().count();
    let _ = a.parse_content_ber::<Any>().is_ok();
    let _ = a.parse_content_der::<u32>().is_ok();
    let _ = Any::parse_ber_content(a.data.clone(), &a.header).is_ok();
    let _ = Any::parse_der_content(a.data.clone(), &a.header).is_ok();
    let _ = (a.as_bytes().len(), d(&a.clone().with_tag(Tag(77)).with_class(Class::Private).to_ber_vec()));
    // every offset of the input
    let i = &a.data;
    for k in [0, 1, i.len() / 2, i.len()] {
        if k <= i.len() {
            let _ = (i.take(k).span().clone(), i.take_from(k).span().clone());
        }
    }
    let _ = (dd(i), format!("{:x}", nom_hex(i)));
}
fn nom_hex(i: &Input) -> u64 {
    i.as_bytes2().iter().fold(0u64, |a, b| a.wrapping_mul(31).wrapping_add(*b as u64))
}

fn tree(a: &Any, depth: usize, n: &mut usize) {
    look_any(a);
    *n += 1;
    if depth == 0 || *n > 40 {
        return;
    }
    let v: Vec<Any> = a.iter_elements::<BerMode>().filter_map(|x| x.ok().map(|x| x.1)).take(8).collect();
    for x in v {
        tree(&x, depth - 1, n);
    }
}

fn no_panic(b: &[u8]) -> R {
    let mut any = false;
    zoo::TYPES.with(|ts| {
        for t in ts {
            (t.look)(b);
            for f in [t.parse_ber, t.from_ber, t.parse_der, t.from_der] {
                any |= matches!(f(b), Ok(Some(_)));
            }
            for (_, _, _, f) in &t.opts {
                let _ = f(b);
            }
            for der in [false, true] {
                if let Some(f) = t.enc {
                    let _ = f(b, der);
                }
                if let Some(f) = t.stat {
                    let _ = f(b, der);
                }
            }
        }
    });
    crate::p_drv::touch(b);
    crate::p_cont::touch(b);
    let mut n = 0;
    if let Ok((_, a)) = Any::parse_ber(Input::from(b)) {
        tree(&a, 3, &mut n);
    }
    if let Ok((_, a)) = Any::parse_der(Input::from(b)) {
        tree(&a, 1, &mut n);
    }
    let _ = e(&Header::from_ber(b).map(|x| x.1));
    let _ = e(&Header::from_der(b).map(|x| x.1));
    if let Ok((r, h)) = Header::parse_ber(Input::from(b)) {
        look_header(&h);
        let _ = h.parse_ber_content(r.clone()).is_ok();
        let _ = h.parse_der_content(r.clone()).is_ok();
        let _ = e(&Oid::from_ber_content(&h, r.clone()).map(|x| x.1));
    }
    let _ = e(&Oid::from_ber_relative(b).map(|x| x.1));
    let _ = e(&Oid::from_der_relative(b).map(|x| x.1));
    // contents handed over directly
    let _ = e(&UtcTime::from_bytes(b));
    let _ = e(&GeneralizedTime::from_bytes(b));
    look_oid(&Oid::new(Cow::Borrowed(b)));
    look_oid(&Oid::new_relative(Cow::Borrowed(b)));
    look_int(&Integer::new(b));
    for s in [Sequence::new(Cow::Borrowed(b))] {
        let _ = (s.ber_iter::<Any, Error>().count(), s.der_iter::<u32, Error>().count(), s.to_der_vec());
    }
    let s = Set::new(Cow::Borrowed(b));
    let _ = (s.ber_iter::<Any, Error>().count(), s.der_iter::<u32, Error>().count(), s.to_der_vec());
    Ok(any)
}

fn nest(open: &[u8], inner: &[u8], close: &[u8], n: usize) -> Vec<u8> {
    let mut v = open.repeat(n);
    v.extend_from_slice(inner);
    v.extend(close.repeat(n));
    v
}
fn nest_def(tag: &[u8], inner: &[u8], n: usize) -> Vec<u8> {
    let mut v = inner.to_vec();
    for _ in 0..n {
        let mut w = tag.to_vec();
        w.extend(spec::enc_len(v.len() as u64));
        w.extend(v);
        v = w;
    }
    v
}

fn gen_panic(g: &mut G) {
    for l in 0..=2 {
        g.all(l);
    }
    // nesting, closed and not, definite and not
    for n in [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 20, 48, 49, 50, 51, 52, 60, 100, 1000, 20_000] {
        for open in [&[0x30u8, 0x80][..], &[0x31, 0x80], &[0x24, 0x80], &[0x23, 0x80], &[0x2c, 0x80], &[0xa0, 0x80], &[0x20, 0x80], &[0x3e, 0x80], &[0x2b, 0x80]] {
            for inner in [&[][..], &[5, 0], &[4, 1, 65], &[3, 2, 0, 0xff], &[0, 0]] {
                g.case(&nest(open, inner, &[0, 0], n));
                g.case(&nest(open, inner, &[], n));
                if n <= 1000 {
                    g.case(&nest(open, inner, &[0, 0, 0, 0], n));
                }
            }
        }
        if n <= 1000 {
            for tag in [&[0x30u8][..], &[0x31], &[0x24], &[0x23], &[0x2c], &[0xa0], &[0x38]] {
                for inner in [&[][..], &[5, 0], &[4, 1, 65], &[3, 2, 0, 0xff], &[2, 1, 1]] {
                    g.case(&nest_def(tag, inner, n));
                }
            }
        }
    }
    // lengths close to the limits
    for t in 0..=255u8 {
        for l in [&[0x84u8, 0xff, 0xff, 0xff, 0xff][..], &[0x88, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff], &[0x88, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff], &[0x88, 0x80, 0, 0, 0, 0, 0, 0, 0], &[0x89, 1, 0, 0, 0, 0, 0, 0, 0, 0], &[0xff], &[0x80], &[0x81], &[0x83, 1, 0], &[0x84, 0, 0, 0, 1]] {
            for c in [&[][..], &[1], &[0, 0], &[4, 1, 0x41, 0, 0]] {
                g.case(&[&[t], l, c].concat());
                g.case(&[&[0x30, 0x80, t], l, c, &[0, 0]].concat());
            }
        }
        for k in 1..7 {
            g.case(&[&[t | 0x1f][..], &[0xff; 6][..k], &[0x7f, 1, 1]].concat());
        }
    }
    // every tag with small contents, exhaustively in the first octets
    for t in 0..=31u8 {
        for c in 0..=255u8 {
            for (x, y) in [(0u8, 0u8), (0xff, 0x80), (0x30, 0x31), (0x7f, 1), (1, 0xff)] {
                g.case(&[t, 3, c, x, y]);
                g.case(&[t | 0x20, 3, c, x, y]);
            }
        }
    }
    // REAL: every first octet with various exponents
    for c in 0..=255u8 {
        for tail in [&[][..], &[1], &[0xff], &[0x7f, 0xff], &[0x80, 0, 1], &[0xff; 12], &[0x7f, 0xff, 0xff, 0xff, 0xff, 1], &[4, 0x7f, 0xff, 0xff, 0xff, 1], &[3, 0x80, 0, 0, 1], &[8, 0x80, 0, 0, 0, 0, 0, 0, 0, 1], &[9, 1, 1], &[0, 1], &[0xff, 1, 1], &[1, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff], &[2, 0x7f, 0xff, 0], b"1E99999999999", b"-", b"1.5E+3", b"+.E", b"1e", b"0,"] {
            g.case(&spec::prim(9, &[&[c], tail].concat()));
        }
    }
    // times: all field positions
    for base in [&b"991231235959Z"[..], b"20221231235959Z", b"20221231235959.123Z", b"20221231235959.5+0130", b"991231235959+0130", b"9912312359Z", b"202212312359Z", b"2022123123Z"] {
        for i in 0..base.len() {
            for c in b"0123456789Z+-., :\x00\xff" {
                let mut x = base.to_vec();
                x[i] = *c;
                g.case(&spec::prim(23, &x));
                g.case(&spec::prim(24, &x));
                x.truncate(i + 1);
                g.case(&spec::prim(23, &x));
                g.case(&spec::prim(24, &x));
            }
        }
        for o in [&b"+2400"[..], b"-2400", b"+9999", b"-9999", b"+0060", b"-0099", b"+2359", b"+1", b"-"] {
            let x = [&base[..base.len() - 1], o].concat();
            g.case(&spec::prim(23, &x));
            g.case(&spec::prim(24, &x));
        }
    }
    for y in [&b"00000101000000"[..], b"00000101000000-2359", b"00000101000000+2359", b"99991231235959-2359", b"99991231235959+2359", b"99990229000000Z"] {
        g.case(&spec::prim(24, y));
    }
    // EMBEDDED PDV
    let ids = [spec::enc(2, true, 0, &[spec::enc(2, false, 0, &[0x2a]), spec::enc(2, false, 1, &[0x2a])].concat()), spec::enc(2, false, 1, &[0x2a]), spec::enc(2, false, 2, &[1]), spec::enc(2, true, 3, &[spec::enc(2, false, 0, &[1]), spec::enc(2, false, 1, &[0x2a])].concat()), spec::enc(2, false, 4, &[0x2a]), spec::enc(2, false, 5, &[]), spec::enc(2, true, 1, &[]), spec::enc(2, false, 6, &[])];
    for id in &ids {
        for k in 0..=id.len() {
            let c = [&spec::enc(2, true, 0, &id[..k])[..], &spec::enc(2, false, 2, &[1, 2])].concat();
            g.case(&spec::cons(11, &c));
            let c = [&spec::enc(2, true, 0, &id[..k])[..], &spec::enc(2, false, 1, b"abc"), &spec::enc(2, false, 2, &[1, 2])].concat();
            g.case(&spec::cons(11, &c));
        }
        for _ in 0..g.n(30) {
            let c = spec::cons(11, &[&spec::enc(2, true, 0, id)[..], &spec::enc(2, false, 2, &[1, 2])].concat());
            let m = mutate(&mut g.rng, &c);
            g.case(&m);
        }
    }
    for _ in 0..g.n(14000) {
        let b = rand_tlv(&mut g.rng, 4);
        g.case(&b);
        let m = mutate(&mut g.rng, &b);
        g.case(&m);
        let n = g.rng.below(24);
        let r = g.rng.bytes(n);
        g.case(&r);
    }
}

// ------------------------------------------------------------------ P08: access through Any
fn any_access(b: &[u8]) -> R {
    let Ok((_, a)) = Any::parse_ber(Input::from(b)) else { return Ok(false) };
    let mut seen = false;
    macro_rules! acc {
        ($($f:ident $g:ident $t:ty;)*) => {$(
            if <$t as DynTagged>::accept_tag(a.tag()) {
                let p = <$t as BerParser>::parse_ber(Input::from(b)).ok().map(|x| dbg_of(&x.1));
                let x = a.$f().ok().map(|x| dbg_of(&x));
                ensure!(x == p, "Any::{}: {x:?}, parse_ber: {p:?}", stringify!($f));
                let x = a.clone().$g().ok().map(|x| dbg_of(&x));
                ensure!(x == p, "Any::{}: {x:?}, parse_ber: {p:?}", stringify!($g));
                seen |= p.is_some();
            }
        )*};
    }
    acc! {
        as_bitstring bitstring BitString; as_bmpstring bmpstring BmpString<'_>; as_bool bool bool; as_boolean boolean Boolean;
        as_enumerated enumerated Enumerated; as_generalizedtime generalizedtime GeneralizedTime; as_generalstring generalstring GeneralString<'_>;
        as_graphicstring graphicstring GraphicString<'_>; as_i8 i8 i8; as_i16 i16 i16; as_i32 i32 i32; as_i64 i64 i64; as_i128 i128 i128;
        as_ia5string ia5string Ia5String<'_>; as_integer integer Integer<'_>; as_null null Null; as_numericstring numericstring NumericString<'_>;
        as_objectdescriptor objectdescriptor ObjectDescriptor<'_>; as_octetstring octetstring OctetString<'_>; as_real real Real;
        as_printablestring printablestring PrintableString<'_>; as_sequence sequence Sequence<'_>; as_set set Set<'_>; as_str str &str; as_string string String;
        as_teletexstring teletexstring TeletexString<'_>; as_u8 u8 u8; as_u16 u16 u16; as_u32 u32 u32; as_u64 u64 u64; as_u128 u128 u128;
        as_universalstring universalstring UniversalString<'_>; as_utctime utctime UtcTime; as_utf8string utf8string Utf8String<'_>;
        as_videotexstring videotexstring VideotexString<'_>; as_visiblestring visiblestring VisibleString<'_>; as_embedded_pdv embedded_pdv EmbeddedPdv<'_>;
        as_anysequence anysequence AnySequence<'_>;
    }
    macro_rules! tr {
        ($($t:ty)*) => {$(
            {
                let acc = <$t as DynTagged>::accept_tag(a.tag());
                let p = if acc { <$t as BerParser>::parse_ber(Input::from(b)).ok().map(|x| dbg_of(&x.1)) } else { None };
                let x = <$t>::try_from(a.clone()).ok().map(|x| dbg_of(&x));
                ensure!(x == p, "TryFrom<Any> for {}: {x:?}, parse_ber: {p:?}", stringify!($t));
                let x = <$t>::try_from(&a).ok().map(|x| dbg_of(&x));
                ensure!(x == p, "TryFrom<&Any> for {}: {x:?}, parse_ber: {p:?}", stringify!($t));
                let o = a.as_optional::<$t>().ok().map(|x| x.map(|x| dbg_of(&x)));
                let w = if acc { p.clone().map(Some) } else { Some(None) };
                ensure!(o == w, "Any::as_optional::<{}>: {o:?}, expected {w:?}", stringify!($t));
            }
        )*};
    }
    tr!(bool u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 Integer<'_> BitString OctetString<'_> Null Enumerated Oid<'_> Utf8String<'_> BmpString<'_> UtcTime GeneralizedTime Sequence<'_> Set<'_> Real);
    // text of string types
    let t = a.tag().0;
    let c = a.data.as_bytes2();
    let single = [12u32, 18, 19, 20, 21, 22, 25, 26, 27].contains(&t);
    let r = a.as_any_str().ok().map(|s| s.as_bytes().to_vec());
    let w = if single && std::str::from_utf8(c).is_ok() { Some(c.to_vec()) } else { None };
    ensure!(r == w, "Any::as_any_str: {r:?}, expected {w:?}");
    let r = a.as_any_string().ok();
    let w = match t {
        30 => BmpString::parse_ber(Input::from(b)).ok().map(|x| x.1.string()),
        28 => UniversalString::parse_ber(Input::from(b)).ok().map(|x| x.1.string()),
        _ => w.map(|w| String::from_utf8(w).unwrap()),
    };
    ensure!(r == w, "Any::as_any_string: {r:?}, expected {w:?}");
    Ok(seen)
}

// ------------------------------------------------------------------ P20
mod own {
    use asn1_rs::*;
    use std::borrow::Cow;
    impl PartialEq for S1<'_> {
        fn eq(&self, o: &Self) -> bool {
            self.a == o.a && self.b == o.b && self.c == o.c && self.s == o.s && self.t.content == o.t.content && self.h == o.h && self.v == o.v && self.f == o.f
        }
    }
    #[derive(Debug, ToStatic)]
    pub struct S1<'a> {
        pub a: u32,
        pub b: Cow<'a, [u8]>,
        pub c: Option<Cow<'a, str>>,
        pub s: Sequence<'a>,
        pub t: Set<'a>,
        pub h: Header<'a>,
        pub v: Vec<u16>,
        pub f: bool,
    }
    #[derive(Debug, PartialEq, ToStatic)]
    pub struct S2<'a, 'b>(pub Cow<'a, [u8]>, pub Cow<'b, str>, pub i64);
    #[derive(Debug, PartialEq, ToStatic)]
    pub struct S3;
    #[derive(Debug, PartialEq, ToStatic)]
    pub enum E1<'a> {
        A,
        B(u8),
        C(Cow<'a, [u8]>, Cow<'a, [u8]>),
        D { x: i32, y: i32, z: Option<Sequence<'a>> },
        E(S1<'a>),
    }
    #[derive(Debug, PartialEq, ToStatic)]
    pub struct S4 {
        pub x: u64,
        pub y: String,
        pub z: Option<u8>,
    }
}

fn owned_values(b: &[u8]) -> R {
    use own::*;
    let dec: Vec<Any> = AnyIterator::<BerMode>::new(Input::from(b)).map_while(|x| x.ok().map(|x| x.1)).take(6).collect();
    let x = b.first().copied().unwrap_or(0);
    macro_rules! same {
        ($v:expr) => {{
            let v = $v;
            let o = v.to_static();
            ensure!(v == o && o == v, "owned copy of {v:?} is {o:?}");
            let (p, q) = (strip_span(&dbg_of(&v)), strip_span(&dbg_of(&o)));
            ensure!(p == q || p.contains("raw_header"), "owned copy of {p} is {q}");
        }};
    }
    for a in &dec {
        let h = &a.header;
        let o = h.to_static();
        ensure!((o.class(), o.constructed(), o.tag(), o.length()) == (h.class(), h.constructed(), h.tag(), h.length()), "owned header {o:?}, original {h:?}");
        ensure!(o.raw_tag() == h.raw_tag() && o == *h, "owned header {o:?}, original {h:?}");
        ensure!(h.clone() == *h && h.clone().raw_header() == h.raw_header(), "cloned header");
        let (m, n) = (h.to_ber_vec(), o.to_ber_vec());
        ensure!(m.is_ok() == n.is_ok() && m.ok() == n.ok(), "owned header of {h:?} is encoded differently");
        ensure!(h.to_der_vec().ok() == o.to_der_vec().ok(), "owned header of {h:?} is encoded differently");
        let k = Any { header: o, data: a.data.clone() };
        ensure!(k == *a && k.to_ber_vec().ok() == a.to_ber_vec().ok(), "object with an owned header differs: {k:?} {a:?}");
        if let Ok(oid) = a.as_oid() {
            for oid in [oid.clone(), Oid::new_relative(Cow::Owned(oid.as_bytes().to_vec()))] {
                let p = oid.to_owned();
                ensure!(p == oid && p.as_bytes() == oid.as_bytes() && p.tag() == oid.tag() && p.class() == oid.class() && p.constructed() == oid.constructed(), "owned copy of {oid:?} is {p:?}");
                ensure!(p.to_id_string() == oid.to_id_string() && p.to_der_vec().ok() == oid.to_der_vec().ok(), "owned copy of {oid:?} is {p:?}");
                ensure!(oid.clone() == oid && oid.clone().tag() == oid.tag(), "clone of {oid:?}");
                ensure!(p.iter().map(|i| i.collect::<Vec<_>>()) == oid.iter().map(|i| i.collect::<Vec<_>>()), "owned copy of {oid:?}: other arcs");
            }
        }
        if let Ok(s) = a.as_sequence() {
            let o = s.to_static();
            ensure!(o == s && o.content == s.content && o.to_der_vec().ok() == s.to_der_vec().ok(), "owned copy of {s:?} is {o:?}");
        }
        if let Ok(s) = a.as_set() {
            let o = s.to_static();
            ensure!(o.content == s.content && o.to_der_vec().ok() == s.to_der_vec().ok(), "owned copy of {s:?} is {o:?}");
        }
        let c = a.data.as_bytes2();
        let t = String::from_utf8_lossy(c);
        let s1 = || S1 { a: nom_hex(&a.data) as u32, b: Cow::Borrowed(c), c: if x & 1 == 0 { Some(Cow::Borrowed(&t[..])) } else { None }, s: Sequence::new(Cow::Borrowed(c)), t: Set::new(Cow::Borrowed(b)), h: h.clone(), v: c.iter().map(|x| *x as u16 * 257).collect(), f: x & 2 == 0 };
        same!(s1());
        same!(S2(Cow::Borrowed(c), Cow::Borrowed(&t[..]), -(x as i64)));
        same!(S3);
        same!(E1::A);
        same!(E1::B(x));
        same!(E1::C(Cow::Borrowed(c), Cow::Borrowed(b)));
        same!(E1::D { x: x as i32, y: !(x as i32), z: Some(Sequence::new(Cow::Borrowed(c))) });
        same!(E1::D { x: 0, y: x as i32, z: None });
        same!(E1::E(s1()));
        same!(S4 { x: nom_hex(&a.data), y: t.to_string(), z: Some(x) });
        same!(vec![x as u32, 1, 2]);
        same!(Cow::Borrowed(c));
        same!(Some(Sequence::new(Cow::Borrowed(c))));
        ensure!(Box::new(x).to_static() == Box::new(x), "Box");
    }
    Ok(!dec.is_empty())
}

fn gen_small(g: &mut G) {
    for l in 0..=2 {
        g.all(l);
    }
    for t in 0..=31u8 {
        for c in 0..=255u8 {
            for (x, y) in [(0u8, 0u8), (0xff, 0x80), (0x30, 0x31), (0x7f, 1), (1, 0xff)] {
                g.case(&[t, 3, c, x, y]);
                g.case(&[t | 0x20, 3, c, x, y]);
                g.case(&[t, 0x81, 3, c, x, y, t, 1, c]);
            }
        }
    }
    for t in 0..=30u32 {
        for _ in 0..g.n(200) {
            let c = zoo::rand_prim_of(&mut g.rng, t);
            g.case(&spec::prim(t, &c));
            let n = g.rng.below(20);
            let c = g.rng.bytes(n);
            g.case(&spec::prim(t, &c));
            g.case(&spec::cons(t, &spec::prim(4, &c)));
        }
    }
    for _ in 0..g.n(14000) {
        let b = rand_tlv(&mut g.rng, 3);
        g.case(&b);
        let m = mutate(&mut g.rng, &b);
        g.case(&m);
    }
}

// ------------------------------------------------------------------ P03: sizes of built values
/// input: kind of value (2 octets), size (4 octets)
fn built(b: &[u8]) -> R {
    if b.len() != 6 {
        return Ok(false);
    }
    let n = u32::from_be_bytes([b[2], b[3], b[4], b[5]]) as usize;
    if n > 20_000_000 {
        return Ok(false);
    }
    let bytes = vec![0x41u8; n];
    let text = "A".repeat(n);
    fn go<V: ToBer + ToDer>(v: &V, tag: u32, what: &str, want: Option<usize>) -> R {
        let e = enc_check(v, what)?;
        let (Ok(ber), Ok(der)) = (e.ber, e.der) else { return Err(format!("{what} cannot be encoded")) };
        for (m, o) in [("BER", &ber), ("DER", &der)] {
            let t = spec::tlv_der(o).map_err(|_| format!("{what} {m}: not a complete object: {}...", hex(&o[..o.len().min(20)])))?;
            ensure!(t.total == o.len() && t.h.tag == tag, "{what} {m}: {} octets written, the object has {}", o.len(), t.total);
            if let Some(w) = want {
                ensure!(t.c1 - t.c0 == w, "{what} {m}: content of {} octets, expected {w}", t.c1 - t.c0);
            }
        }
        Ok(true)
    }
    match b[1] {
        0 => go(&OctetString::new(&bytes), 4, "OctetString", Some(n)),
        1 => go(&&bytes[..], 4, "&[u8]", Some(n)),
        2 if n == 0 => Ok(false), // refused by an assertion of the constructor
        2 => go(&BitString::new(0, &bytes), 3, "BitString", Some(n + 1)),
        3 => go(&text, 12, "String", Some(n)),
        4 => go(&&text[..], 12, "&str", Some(n)),
        5 => go(&Utf8String::new(&text), 12, "Utf8String", Some(n)),
        6 => go(&BmpString::new(&text), 30, "BmpString", Some(2 * n)),
        7 => go(&UniversalString::new(&text), 28, "UniversalString", Some(4 * n)),
        8 => go(&PrintableString::new(&text), 19, "PrintableString", Some(n)),
        9 => go(&Sequence::new(bytes.into()), 16, "Sequence", Some(n)),
        10 => go(&Set::new(bytes.into()), 17, "Set", Some(n)),
        11 => go(&vec![true; n / 3], 16, "Vec<bool>", Some(n / 3 * 3)),
        12 => go(&SetOf::from_iter(vec![(); n / 2]), 17, "SetOf<()>", Some(n / 2 * 2)),
        13 => go(&vec![OctetString::new(&bytes)], 16, "Vec<OctetString>", Some(1 + spec::enc_len(n as u64).len() + n)),
        14 => go(&TaggedExplicit::<OctetString, Error, 5>::explicit(OctetString::new(&bytes)), 5, "[5] EXPLICIT", Some(1 + spec::enc_len(n as u64).len() + n)),
        15 => go(&TaggedImplicit::<OctetString, Error, 500>::implicit(OctetString::new(&bytes)), 500, "[500] IMPLICIT", Some(n)),
        16 => go(&TaggedExplicit::<Vec<TaggedImplicit<String, Error, 31>>, Error, 31>::explicit(vec![TaggedImplicit::implicit(text)]), 31, "[31] EXPLICIT SEQUENCE OF [31] IMPLICIT", {
            let l = |n: usize| spec::enc_len(n as u64).len() + n;
            Some(1 + l(2 + l(n)))
        }),
        17 => go(&Integer::new(&[&[1u8][..], &bytes].concat()), 2, "Integer", Some(n + 1)),
        18 => go(&Oid::new(Cow::Owned(bytes)), 6, "Oid", Some(n)),
        19 => {
            let t: String = "é€𝄞a".chars().cycle().take(n).collect();
            let u16s = t.encode_utf16().count();
            go(&Utf8String::new(&t), 12, "Utf8String", Some(t.len()))?;
            go(&BmpString::new(&t), 30, "BmpString", Some(2 * u16s))?;
            go(&UniversalString::new(&t), 28, "UniversalString", Some(4 * n))
        }
        20 => {
            let a = Any::from_tag_and_data(Tag(n as u32), Input::from(&bytes[..n.min(40)]));
            go(&a, n as u32, "Any", None)
        }
        21 => go(&Some(OctetString::new(&bytes)), 4, "Some(OctetString)", Some(n)),
        22 => go(&Box::new(vec![vec![n as u32; 3]; 4]).as_slice().to_vec(), 16, "Vec<Vec<u32>>", None),
        23 => go(&vec![vec![Some(n as u64), None, Some(1)]; 3], 16, "Vec<Vec<Option<u64>>>", None),
        24 => go(&TaggedValue::<u32, Error, Explicit, 1, { u32::MAX }>::explicit(n as u32), u32::MAX, "[APPLICATION max] EXPLICIT", None),
        25 => go(&TaggedValue::<i64, Error, Implicit, 3, 2097152>::implicit(-(n as i64)), 2097152, "[PRIVATE 2097152] IMPLICIT", None),
        26 => go(&[n as u16, 1, 2, 3], 16, "[u16; 4]", None),
        27 => go(&std::collections::BTreeSet::from_iter(0..n as u32 / 4), 17, "BTreeSet<u32>", None),
        28 => go(&std::collections::HashSet::<u16>::from_iter((0..n as u32 / 4).map(|x| x as u16)), 17, "HashSet<u16>", None),
        29 => go(&AnySequence::new(vec![Any::from_tag_and_data(Tag::OctetString, Input::from(&bytes[..])), Any::from_tag_and_data(Tag(n as u32), Input::from(&b"ab"[..]))]), 16, "AnySequence", None),
        30 => go(&AnySet::from_iter(vec![Any::from_tag_and_data(Tag::OctetString, Input::from(&bytes[..])), Any::from_tag_and_data(Tag(n as u32), Input::from(&b"ab"[..]))]), 17, "AnySet", None),
        31 => go(&TaggedImplicit::<Vec<u8>, Error, 1>::implicit(bytes), 1, "[1] IMPLICIT SEQUENCE OF", None),
        32 => go(&(0..3).map(|_| Enumerated::new(n as u32)).collect::<Vec<_>>(), 16, "Vec<Enumerated>", None),
        33 => go(&Header::new(Class::Private, true, Tag(n as u32), Length::Definite(n)), 0, "Header", None).or_else(|m| {
            // a header announces a content which is not written
            let h = Header::new(Class::Private, true, Tag(n as u32), Length::Definite(n));
            let v = h.to_ber_vec().map_err(|_| m.clone())?;
            let mut w = spec::enc_tag(3, true, n as u32);
            w.extend(spec::enc_len(n as u64));
            ensure!(v == w || v == w[..w.len()], "Header: {}", hex(&v));
            Ok(true)
        }),
        _ => Ok(false),
    }
}
fn gen_built(g: &mut G) {
    let mut sizes: Vec<u32> = (0..300).collect();
    for b in [65535u32, 65536, 16383, 16384, 2097151, 2097152, 16777215, 16777216, 32767, 32768, 21845, 21846] {
        for d in 0..9u32 {
            sizes.push(b + 4 - d);
        }
    }
    for &n in &sizes {
        for k in 0..33u8 {
            if n > 70_000 && (k == 11 || k == 12 || k == 27 || k == 28 || k == 31 || k == 6 || k == 7 || k == 19) {
                continue;
            }
            if n > 1_000_000 && !(n % 4 == 0 && [0u8, 13, 14, 20, 29].contains(&k)) {
                continue;
            }
            let s = n.to_be_bytes();
            g.case(&[0, k, s[0], s[1], s[2], s[3]]);
        }
    }
    for _ in 0..g.n(100) {
        let n = g.rng.below(300_000) as u32;
        let k = g.rng.below(33) as u8;
        let s = n.to_be_bytes();
        g.case(&[0, k, s[0], s[1], s[2], s[3]]);
    }
}

pub fn kinds(v: &mut Vec<Kind>) {
    kind!(v, "P07", "no_panic", "zoo of 60 types, 28 derived and 26 tagged types, containers, all accessors of Any/Header/Oid/Integer/BitString/Real/times: all inputs of <= 2 octets, nesting up to 20000, extreme lengths and tags, exhaustive first content octets per universal tag, REAL and time forms, seeded trees with mutations, random octets", no_panic, gen_panic);
    kind!(v, "P08", "any_access", "40 typed accessors and conversions of Any against the decoder of the type", any_access, gen_small);
    kind!(v, "P20", "owned_values", "Header, Oid, Sequence, Set, Cow, Option, Vec, Box and derived structs/enums (ToStatic) over decoded elements", owned_values, gen_small);
    kind!(v, "P03", "lengths_built", "33 kinds of built values with sizes 0..300 and around 2^14, 2^15, 2^16, 2^21, 2^24", built, gen_built);
}
