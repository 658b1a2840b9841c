//! P15 (tagged values), P17 (OPTIONAL), P18 (derived codecs): reference decoder built from
//! element boundaries (spec) and the decoder of the inner type.
use crate::run::{Kind, G, R};
use crate::spec::{self, hex};
use crate::util::*;
use crate::zoo::{self, dbg_of, enc_check, rand_der, strip_span, Enc};
use asn1_rs::*;

pub type Dec = fn(&[u8], bool) -> Option<(usize, String)>;
#[derive(Clone)]
pub struct Leaf {
    pub tags: &'static [u32],
    pub dec: Dec,
}
#[macro_export]
macro_rules! leaf {
    ($t:ty, $tags:expr) => {
        $crate::p_drv::Leaf {
            tags: $tags,
            dec: |b, der| {
                let i = asn1_rs::Input::from(b);
                let r = if der { <$t as asn1_rs::DerParser>::parse_der(i).ok() } else { <$t as asn1_rs::BerParser>::parse_ber(i).ok() };
                r.map(|(r, v)| (b.len() - r.len(), $crate::zoo::strip_span(&$crate::zoo::dbg_of(&v))))
            },
        }
    };
}
#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Req,
    Opt,
    Def(&'static str),
}
#[derive(Clone)]
pub struct F {
    pub name: &'static str,
    pub mode: Mode,
    /// explicit?, class, number
    pub tag: Option<(bool, u8, u32)>,
    pub leaf: Leaf,
}
#[derive(Debug, Clone, PartialEq)]
pub enum Ref {
    Ok(usize, String),
    No,
    Skip,
}

fn tag_octets(b: &[u8]) -> usize {
    if b[0] & 0x1f != 0x1f {
        1
    } else {
        2 + b[1..].iter().take_while(|x| **x & 0x80 != 0).count()
    }
}

/// class of nested elements: typed decoders check the tag number only
fn univ(c: &[u8], der: bool) -> bool {
    match spec::split(c, der) {
        Some(v) => v.iter().all(|(t, x)| t.h.class == 0 && (!t.h.cons || univ(&x[t.c0..t.c1], der))),
        None => true,
    }
}

/// the value of one present field at the start of `b`
pub fn ref_one(f: &F, b: &[u8], der: bool, lenient: bool) -> Ref {
    let Ok(t) = spec::tlv(b, der) else { return Ref::No };
    match f.tag {
        None => {
            if t.h.class != 0 {
                return Ref::Skip;
            }
            if !f.leaf.tags.contains(&t.h.tag) && !f.leaf.tags.is_empty() {
                return Ref::No;
            }
            if t.h.cons && matches!(f.leaf.tags, [16] | [17]) && !univ(&b[t.c0..t.c1], der) {
                return Ref::Skip;
            }
            match (f.leaf.dec)(&b[..t.total], der) {
                Some((n, s)) if n == t.total => Ref::Ok(n, s),
                Some(_) => Ref::Skip,
                None => Ref::No,
            }
        }
        Some((exp, class, n)) => {
            if t.h.class != class || t.h.tag != n {
                return Ref::No;
            }
            if exp {
                if !t.h.cons {
                    return Ref::No;
                }
                let c = &b[t.c0..t.c1];
                match spec::hdr(c) {
                    Ok(h) if h.class != 0 && !f.leaf.tags.is_empty() => return Ref::Skip,
                    _ => {}
                }
                match (f.leaf.dec)(c, der) {
                    Some((k, s)) if k == c.len() => Ref::Ok(t.total, s),
                    Some(_) => Ref::Skip, // trailing octets after the inner object
                    None => Ref::No,
                }
            } else {
                if t.h.cons && matches!(f.leaf.tags, [16] | [17]) && !univ(&b[t.c0..t.c1], der) {
                    return Ref::Skip;
                }
                let mut raw = spec::enc_tag(0, t.h.cons, f.leaf.tags[0]);
                raw.extend(&b[tag_octets(b)..t.total]);
                match (f.leaf.dec)(&raw, der && !lenient) {
                    Some((k, s)) if k == raw.len() => Ref::Ok(t.total, s),
                    Some(_) => Ref::Skip,
                    None => Ref::No,
                }
            }
        }
    }
}

/// OPTIONAL / DEFAULT
pub fn ref_field(f: &F, b: &[u8], der: bool, lenient: bool) -> Ref {
    let absent = |f: &F| match f.mode {
        Mode::Req => Ref::No,
        Mode::Opt => Ref::Ok(0, "None".into()),
        Mode::Def(s) => Ref::Ok(0, s.into()),
    };
    if f.mode == Mode::Req {
        return ref_one(f, b, der, lenient);
    }
    if b.is_empty() {
        return absent(f);
    }
    let Ok(h) = spec::hdr(b) else { return Ref::No };
    if der && h.len.is_none() {
        // a header which is not valid in DER
        return Ref::No;
    }
    let ok = match f.tag {
        None => f.leaf.tags.is_empty() || f.leaf.tags.contains(&h.tag),
        Some((_, class, n)) => {
            if h.tag == n && h.class != class {
                return Ref::Skip;
            }
            h.tag == n
        }
    };
    if !ok {
        return absent(f);
    }
    match ref_one(f, b, der, lenient) {
        Ref::Ok(n, s) if f.mode == Mode::Opt => Ref::Ok(n, format!("Some({s})")),
        x => x,
    }
}

pub fn ref_struct(name: &str, tag: u32, fs: &[F], b: &[u8], der: bool, lenient: bool) -> Ref {
    let Ok(t) = spec::tlv(b, der) else { return Ref::No };
    if t.h.class != 0 {
        return Ref::Skip;
    }
    if t.h.tag != tag || !t.h.cons {
        return Ref::No;
    }
    let mut c = &b[t.c0..t.c1];
    let mut v = vec![];
    for f in fs {
        match ref_field(f, c, der, lenient) {
            Ref::Ok(n, s) => {
                c = &c[n..];
                v.push(format!("{}: {s}", f.name));
            }
            x => return x,
        }
    }
    if !c.is_empty() {
        return Ref::Skip;
    }
    Ref::Ok(t.total, format!("{name} {{ {} }}", v.join(", ")))
}

pub enum Shape {
    Struct(u32, Vec<F>),
    /// variants, kind of tagging
    Choice(Vec<(&'static str, u32, Leaf)>, Option<bool>),
    Enumerated(&'static [(u32, &'static str)]),
    Alias(Leaf),
}
type Run = fn(&[u8]) -> std::result::Result<Option<(usize, String)>, String>;
type DecV = Vec<(&'static str, bool, bool, Run)>;
type EncF = fn(&[u8], bool) -> std::result::Result<Option<(Enc, String, Vec<(&'static str, String)>)>, String>;
pub struct D {
    pub name: &'static str,
    pub shape: Shape,
    /// name, DER, derived with the old interface (DER contents rules of implicit tags: see findings)
    pub dec: DecV,
    pub enc: Option<EncF>,
}

fn reference(d: &D, b: &[u8], der: bool, lenient: bool) -> Ref {
    match &d.shape {
        Shape::Struct(tag, fs) => ref_struct(d.name, *tag, fs, b, der, lenient),
        // (lenient: see FINDING_ALIAS)
        Shape::Alias(l) => match ref_one(&F { name: "", mode: Mode::Req, tag: None, leaf: l.clone() }, b, der && !(lenient && spec::tlv(b, true).is_ok()), lenient) {
            Ref::Ok(n, s) => Ref::Ok(n, format!("{}({s})", d.name)),
            x => x,
        },
        Shape::Choice(vs, kind) => {
            let Ok(t) = spec::tlv(b, der) else { return Ref::No };
            if t.h.class != if kind.is_some() { 2 } else { 0 } {
                return Ref::Skip;
            }
            for (n, tag, l) in vs {
                let f = F { name: n, mode: Mode::Req, tag: kind.map(|k| (k, 2, *tag)), leaf: l.clone() };
                let hit = match kind {
                    None => l.tags.contains(&t.h.tag),
                    Some(_) => *tag == t.h.tag,
                };
                if hit {
                    return match ref_one(&f, b, der, lenient) {
                        Ref::Ok(k, s) => Ref::Ok(k, format!("{n}({s})")),
                        x => x,
                    };
                }
            }
            Ref::No
        }
        Shape::Enumerated(vs) => {
            let Ok(t) = spec::tlv(b, der) else { return Ref::No };
            if t.h.class != 0 {
                return Ref::Skip;
            }
            if t.h.tag != 10 || t.h.cons {
                return Ref::No;
            }
            let c = &b[t.c0..t.c1];
            if c.is_empty() || der && !spec::int_is_min(c) {
                return Ref::No;
            }
            match spec::int_i128(c) {
                Some(v) => match vs.iter().find(|x| x.0 as i128 == v) {
                    Some((_, s)) => Ref::Ok(t.total, s.to_string()),
                    None => Ref::No,
                },
                None => Ref::No,
            }
        }
    }
}

macro_rules! p_api {
    ($t:ty) => {
        { let v: DecV = vec![
            ("parse_ber", false, false, |b: &[u8]| zoo::out_input(b, <$t as BerParser>::parse_ber(Input::from(b)).ok().map(|(r, v)| (r, strip_span(&dbg_of(&v)))))),
            ("parse_der", true, false, |b: &[u8]| zoo::out_input(b, <$t as DerParser>::parse_der(Input::from(b)).ok().map(|(r, v)| (r, strip_span(&dbg_of(&v)))))),
        ]; v }
    };
}
macro_rules! f_api {
    ($t:ty) => {
        { let v: DecV = vec![
            ("from_ber", false, false, |b: &[u8]| {
                let r: ParseResult<$t, Error> = <$t as FromBer>::from_ber(b);
                zoo::out_slice(b, r.ok().map(|(r, v)| (r, strip_span(&dbg_of(&v)))))
            }),
            ("from_der", true, true, |b: &[u8]| {
                let r: ParseResult<$t, Error> = <$t as FromDer>::from_der(b);
                zoo::out_slice(b, r.ok().map(|(r, v)| (r, strip_span(&dbg_of(&v)))))
            }),
        ]; v }
    };
}
macro_rules! back {
    ($t:ty, $n:expr) => {
        Some(|b: &[u8], der: bool| {
            let i = Input::from(b);
            let v = if der { <$t as DerParser>::parse_der(i).ok() } else { <$t as BerParser>::parse_ber(i).ok() };
            match v {
                None => Ok(None),
                Some((_, v)) => {
                    let e = enc_check(&v, $n)?;
                    let mut r = vec![];
                    if let Ok(x) = &e.ber {
                        r.push(("BER", <$t as BerParser>::parse_ber(Input::from(&x[..])).map(|x| dbg_of(&x.1)).unwrap_or_else(|e| format!("error {e:?}"))));
                    }
                    if let Ok(x) = &e.der {
                        r.push(("DER", <$t as DerParser>::parse_der(Input::from(&x[..])).map(|x| dbg_of(&x.1)).unwrap_or_else(|e| format!("error {e:?}"))));
                    }
                    Ok(Some((e, dbg_of(&v), r)))
                }
            }
        })
    };
}

// ------------------------------------------------------------------ derived types
mod ty {
    #![allow(dead_code)]
    use asn1_rs::*;
    macro_rules! st {
        ($m:ident, [$($d:ident),*], $($body:tt)*) => {
            pub mod $m {
                use asn1_rs::*;
                #[allow(unused_imports)]
                use super::{Inner, Level};
                #[derive(Debug, PartialEq)]
                $(#[derive($d)])*
                $($body)*
            }
        };
    }
    #[derive(Debug, PartialEq, Sequence)]
    pub struct Inner {
        pub x: u8,
        #[optional]
        pub y: Option<bool>,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Enumerated)]
    #[repr(u32)]
    pub enum Level {
        Low,
        Mid = 5,
        Next,
        High = 200,
        Max = 70000,
    }
    macro_rules! shapes {
        ($s:ident, $($d:ident),*) => {
            pub mod $s {
                use super::{Inner, Level};
                st!(a, [$($d),*], pub struct A { pub a: u32, pub b: bool, pub c: String });
                st!(b, [$($d),*], pub struct B {
                    #[tag_explicit(0)] pub a: u32,
                    #[tag_implicit(1)] pub b: String,
                    #[tag_explicit(APPLICATION 2)] pub c: bool,
                    #[tag_implicit(PRIVATE 40)] pub d: Vec<u16>,
                });
                st!(c, [$($d),*], pub struct C {
                    #[optional] pub a: Option<u32>,
                    #[tag_explicit(0)] #[optional] pub b: Option<bool>,
                    #[tag_implicit(1)] #[optional] pub c: Option<String>,
                    pub d: bool,
                    #[optional] pub e: Option<Vec<bool>>,
                });
                st!(d, [$($d),*], pub struct Dd {
                    #[default(7_u16)] pub a: u16,
                    #[tag_explicit(200)] #[default(true)] pub b: bool,
                    #[tag_implicit(3)] #[default(-1_i8)] pub c: i8,
                });
                st!(e, [$($d),*], pub struct E<'a> {
                    pub a: OctetString<'a>,
                    #[tag_implicit(0)] pub b: OctetString<'a>,
                    #[tag_explicit(31)] pub c: Utf8String<'a>,
                    #[tag_implicit(128)] #[optional] pub d: Option<Integer<'a>>,
                });
            }
        };
    }
    shapes!(new, Sequence);
    shapes!(parser, BerParserSequence, DerParserSequence, ToBerSequence, ToDerSequence);
    shapes!(old, DerSequence);
    pub mod newset {
        use super::{Inner, Level};
        st!(s, [Set], pub struct S {
            pub a: u32,
            #[tag_explicit(0)] #[optional] pub b: Option<u8>,
            #[tag_implicit(1)] pub c: bool,
        });
        st!(n, [Sequence], pub struct N {
            pub a: Inner,
            #[tag_implicit(0)] pub b: Inner,
            #[tag_explicit(1)] #[optional] pub c: Option<Inner>,
            pub d: Level,
            #[tag_implicit(2)] #[optional] pub e: Option<Level>,
            pub f: Vec<Inner>,
        });
    }
    pub mod parserset {
        use super::{Inner, Level};
        st!(s, [BerParserSet, DerParserSet, ToBerSet, ToDerSet], pub struct S {
            pub a: u32,
            #[tag_explicit(0)] #[optional] pub b: Option<u8>,
            #[tag_implicit(1)] pub c: bool,
        });
    }
    pub mod oldset {
        use super::{Inner, Level};
        st!(s, [DerSet], pub struct S {
            pub a: u32,
            #[tag_explicit(0)] #[optional] pub b: Option<u8>,
            #[tag_implicit(1)] pub c: bool,
        });
        st!(sb, [BerSet], pub struct S {
            pub a: u32,
            #[tag_explicit(0)] #[optional] pub b: Option<u8>,
            #[tag_implicit(1)] pub c: bool,
        });
        st!(qb, [BerSequence], pub struct S {
            pub a: u32,
            #[tag_explicit(0)] #[optional] pub b: Option<u8>,
            #[tag_implicit(1)] pub c: bool,
        });
    }
    #[derive(Debug, PartialEq, Choice)]
    pub enum Un {
        V0(u8),
        V1(String),
        V2(Vec<u32>),
        V3(bool),
    }
    #[derive(Debug, PartialEq, Choice)]
    #[tagged_explicit]
    pub enum Ex {
        V0(u8),
        V1(String),
        #[tag(4)]
        V2(u32),
        V3(Vec<u32>),
        #[tag(300)]
        V4(bool),
    }
    #[derive(Debug, PartialEq, Choice)]
    #[tagged_implicit]
    pub enum Im<'a> {
        V0(u8),
        V1(OctetString<'a>),
        #[tag(31)]
        V2(Vec<u32>),
        V3(bool),
        #[tag(2)]
        V4(Integer<'a>),
    }
    #[derive(Debug, PartialEq, Alias)]
    pub struct Al(pub u32);
    #[derive(Debug, PartialEq, Alias)]
    pub struct AlV(pub Vec<bool>);
    #[derive(Debug, PartialEq, Alias)]
    pub struct AlS<'a>(pub Utf8String<'a>);
    #[derive(Debug, PartialEq, BerAlias)]
    pub struct AlB(pub u32);
    #[derive(Debug, PartialEq, DerAlias)]
    pub struct AlD(pub bool);
}

const REQ: Mode = Mode::Req;
const OPT: Mode = Mode::Opt;
fn f(name: &'static str, mode: Mode, tag: Option<(bool, u8, u32)>, leaf: Leaf) -> F {
    F { name, mode, tag, leaf }
}

pub fn derived() -> Vec<D> {
    let u8l = || leaf!(u8, &[2]);
    let u16l = || leaf!(u16, &[2]);
    let u32l = || leaf!(u32, &[2]);
    let booll = || leaf!(bool, &[1]);
    let strl = || leaf!(String, &[12]);
    let octl = || leaf!(OctetString<'_>, &[4]);
    let intl = || leaf!(Integer<'_>, &[2]);
    let innerl = || leaf!(ty::Inner, &[16]);
    let levell = || leaf!(ty::Level, &[10]);
    let mut v: Vec<D> = vec![];
    let a = || vec![f("a", REQ, None, u32l()), f("b", REQ, None, booll()), f("c", REQ, None, strl())];
    let b = || vec![f("a", REQ, Some((true, 2, 0)), u32l()), f("b", REQ, Some((false, 2, 1)), strl()), f("c", REQ, Some((true, 1, 2)), booll()), f("d", REQ, Some((false, 3, 40)), leaf!(Vec<u16>, &[16]))];
    let c = || vec![f("a", OPT, None, u32l()), f("b", OPT, Some((true, 2, 0)), booll()), f("c", OPT, Some((false, 2, 1)), strl()), f("d", REQ, None, booll()), f("e", OPT, None, leaf!(Vec<bool>, &[16]))];
    let d = || vec![f("a", Mode::Def("7"), None, u16l()), f("b", Mode::Def("true"), Some((true, 2, 200)), booll()), f("c", Mode::Def("-1"), Some((false, 2, 3)), leaf!(i8, &[2]))];
    let e = || vec![f("a", REQ, None, octl()), f("b", REQ, Some((false, 2, 0)), octl()), f("c", REQ, Some((true, 2, 31)), leaf!(Utf8String<'_>, &[12])), f("d", OPT, Some((false, 2, 128)), intl())];
    let s = || vec![f("a", REQ, None, u32l()), f("b", OPT, Some((true, 2, 0)), u8l()), f("c", REQ, Some((false, 2, 1)), booll())];
    macro_rules! add {
        ($t:ty, $name:expr, $shape:expr, $api:ident, $enc:expr) => {
            v.push(D { name: $name, shape: $shape, dec: $api!($t), enc: $enc })
        };
    }
    macro_rules! five {
        ($m:ident, $api:ident, $back:ident) => {
            add!(ty::$m::a::A, "A", Shape::Struct(16, a()), $api, $back!(ty::$m::a::A, "A"));
            add!(ty::$m::b::B, "B", Shape::Struct(16, b()), $api, $back!(ty::$m::b::B, "B"));
            add!(ty::$m::c::C, "C", Shape::Struct(16, c()), $api, $back!(ty::$m::c::C, "C"));
            add!(ty::$m::d::Dd, "Dd", Shape::Struct(16, d()), $api, $back!(ty::$m::d::Dd, "Dd"));
            add!(ty::$m::e::E<'_>, "E", Shape::Struct(16, e()), $api, $back!(ty::$m::e::E<'_>, "E"));
        };
    }
    macro_rules! none {
        ($t:ty, $n:expr) => {
            None
        };
    }
    five!(new, p_api, back);
    five!(parser, p_api, back);
    five!(old, f_api, none);
    add!(ty::newset::s::S, "S", Shape::Struct(17, s()), p_api, back!(ty::newset::s::S, "S"));
    add!(ty::parserset::s::S, "S", Shape::Struct(17, s()), p_api, back!(ty::parserset::s::S, "S"));
    add!(ty::oldset::s::S, "S", Shape::Struct(17, s()), f_api, None);
    v.push(D { name: "S", shape: Shape::Struct(17, s()), dec: f_api!(ty::oldset::s::S)[..1].to_vec(), enc: None });
    let mut o = D { name: "S", shape: Shape::Struct(17, s()), dec: vec![], enc: None };
    o.dec.push(("from_ber", false, false, |b: &[u8]| {
        let r: ParseResult<ty::oldset::sb::S, Error> = <ty::oldset::sb::S as FromBer>::from_ber(b);
        zoo::out_slice(b, r.ok().map(|(r, v)| (r, strip_span(&dbg_of(&v)))))
    }));
    v.push(o);
    let mut o = D { name: "S", shape: Shape::Struct(16, s()), dec: vec![], enc: None };
    o.dec.push(("from_ber", false, false, |b: &[u8]| {
        let r: ParseResult<ty::oldset::qb::S, Error> = <ty::oldset::qb::S as FromBer>::from_ber(b);
        zoo::out_slice(b, r.ok().map(|(r, v)| (r, strip_span(&dbg_of(&v)))))
    }));
    v.push(o);
    let n = vec![
        f("a", REQ, None, innerl()),
        f("b", REQ, Some((false, 2, 0)), innerl()),
        f("c", OPT, Some((true, 2, 1)), innerl()),
        f("d", REQ, None, levell()),
        f("e", OPT, Some((false, 2, 2)), levell()),
        f("f", REQ, None, leaf!(Vec<ty::Inner>, &[16])),
    ];
    add!(ty::newset::n::N, "N", Shape::Struct(16, n), p_api, back!(ty::newset::n::N, "N"));
    add!(ty::Inner, "Inner", Shape::Struct(16, vec![f("x", REQ, None, u8l()), f("y", OPT, None, booll())]), p_api, back!(ty::Inner, "Inner"));
    add!(ty::Un, "Un", Shape::Choice(vec![("V0", 0, u8l()), ("V1", 1, strl()), ("V2", 2, leaf!(Vec<u32>, &[16])), ("V3", 3, booll())], None), p_api, back!(ty::Un, "Un"));
    add!(ty::Ex, "Ex", Shape::Choice(vec![("V0", 0, u8l()), ("V1", 1, strl()), ("V2", 4, u32l()), ("V3", 5, leaf!(Vec<u32>, &[16])), ("V4", 300, booll())], Some(true)), p_api, back!(ty::Ex, "Ex"));
    add!(ty::Im<'_>, "Im", Shape::Choice(vec![("V0", 0, u8l()), ("V1", 1, octl()), ("V2", 31, leaf!(Vec<u32>, &[16])), ("V3", 32, booll()), ("V4", 2, intl())], Some(false)), p_api, back!(ty::Im<'_>, "Im"));
    add!(ty::Level, "Level", Shape::Enumerated(&[(0, "Low"), (5, "Mid"), (6, "Next"), (200, "High"), (70000, "Max")]), p_api, back!(ty::Level, "Level"));
    add!(ty::Al, "Al", Shape::Alias(u32l()), p_api, back!(ty::Al, "Al"));
    add!(ty::AlV, "AlV", Shape::Alias(leaf!(Vec<bool>, &[16])), p_api, back!(ty::AlV, "AlV"));
    add!(ty::AlS<'_>, "AlS", Shape::Alias(leaf!(Utf8String<'_>, &[12])), p_api, back!(ty::AlS<'_>, "AlS"));
    add!(ty::AlD, "AlD", Shape::Alias(booll()), f_api, None);
    v
}

thread_local! {
    static DERIVED: Vec<D> = derived();
}

fn check_dec(d: &D, b: &[u8]) -> R {
    let mut any = false;
    for (api, der, old, g) in &d.dec {
        let got = g(b).map_err(|e| format!("{} {api}: {e}", d.name))?;
        let want = reference(d, b, *der, false);
        if want == Ref::Skip {
            continue;
        }
        if *old && b != FINDING_IMPLICIT && b != FINDING_ALIAS && want == Ref::No && reference(d, b, *der, true) != Ref::No {
            continue; // known finding, see P15 in known-findings.txt
        }
        match (&want, &got) {
            (Ref::Ok(n, s), Some((k, t))) => {
                ensure!(n == k && s == t, "{} {api}: expected {s} ({n} octets), decoded {t} ({k} octets)", d.name);
                any = true;
            }
            (Ref::Ok(n, s), None) => return Err(format!("{} {api}: refused, expected {s} ({n} octets)", d.name)),
            (Ref::No, Some((k, t))) => return Err(format!("{} {api}: accepted as {t} ({k} octets), expected an error", d.name)),
            _ => {}
        }
    }
    Ok(any)
}

/// [1] IMPLICIT in DER: see known-findings.txt
const FINDING_ALIAS: &[u8] = &[1, 1, 0x40];
const FINDING_IMPLICIT: &[u8] = &[0x31, 6, 2, 1, 1, 0x81, 1, 1];

fn derive_codec(b: &[u8]) -> R {
    DERIVED.with(|ds| {
        let mut any = false;
        for d in ds {
            any |= check_dec(d, b)?;
            if let Some(e) = d.enc {
                for der in [false, true] {
                    if let Some((enc, dbg, backs)) = e(b, der)? {
                        let has_def = matches!(&d.shape, Shape::Struct(_, fs) if fs.iter().any(|f| matches!(f.mode, Mode::Def(_))));
                        if let Err(e) = &enc.ber {
                            return Err(format!("{}: {dbg} cannot be encoded in BER: {e}", d.name));
                        }
                        if let Err(e) = &enc.der {
                            return Err(format!("{}: {dbg} cannot be encoded in DER: {e}", d.name));
                        }
                        for (m, t) in backs {
                            ensure!(strip_span(&t) == strip_span(&dbg), "{}: {dbg} encoded in {m} as {} decodes as {t}", d.name, hex(if m == "BER" { enc.ber.as_ref().unwrap() } else { enc.der.as_ref().unwrap() }));
                        }
                        if !has_def && der {
                            if let Ref::Ok(n, _) = reference(d, b, true, false) {
                                if zoo::tree_min(&b[..n]) {
                                    ensure!(enc.der.as_ref().unwrap() == &b[..n], "{}: {dbg} read from {} is encoded as {}", d.name, hex(&b[..n]), hex(enc.der.as_ref().unwrap()));
                                }
                            }
                        }
                        any = true;
                    }
                }
            }
        }
        Ok(any)
    })
}

fn rnd_leaf(g: &mut G, l: &Leaf) -> Vec<u8> {
    let t = l.tags[0];
    match t {
        16 => {
            let n = g.rng.below(4);
            let mut c = vec![];
            let k = g.rng.pick(&[1u32, 2]);
            for _ in 0..n {
                c.extend(rand_der(&mut g.rng, k));
            }
            if g.rng.chance(1, 3) {
                // the nested structure
                c = spec::prim(2, &[g.rng.below(128) as u8]);
                if g.rng.chance(1, 2) {
                    c.extend(spec::prim(1, &[0xff]));
                }
                if g.rng.chance(1, 4) {
                    c = spec::cons(16, &c);
                }
            }
            spec::cons(16, &c)
        }
        4 | 12 if g.rng.chance(1, 2) => {
            let n = g.rng.pick(&[0usize, 1, 2, 100, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 250, 251, 252, 253, 254, 255, 256, 257, 258, 300, 65529, 65530, 65531, 65532, 65533, 65534, 65535, 65536]);
            let n = if n > 1000 && !g.rng.chance(1, 20) { 5 } else { n };
            spec::prim(t, &vec![0x41; n])
        }
        2 if g.rng.chance(3, 4) => spec::enc_i128(g.rng.pick(&[0i128, 1, 127, 128, 255, 256, 65535, 65536, -1, -128, 70000])),
        10 => spec::prim(10, g.rng.pick(&[&[0u8][..], &[5], &[6], &[0, 200], &[1, 0x11, 0x70], &[1], &[7], &[0, 5], &[0xff]])),
        t => rand_der(&mut g.rng, t),
    }
}

fn retag(f: &F, e: &[u8]) -> Vec<u8> {
    match f.tag {
        None => e.to_vec(),
        Some((true, c, n)) => spec::enc(c, true, n, e),
        Some((false, c, n)) => {
            let mut v = spec::enc_tag(c, e[0] & 0x20 != 0, n);
            v.extend(&e[1..]);
            v
        }
    }
}

fn indef(b: &[u8]) -> Vec<u8> {
    match spec::tlv_der(b) {
        Ok(t) if t.h.cons => [&spec::enc_tag(t.h.class, true, t.h.tag)[..], &[0x80], &b[t.c0..t.c1], &[0, 0]].concat(),
        _ => b.to_vec(),
    }
}

fn tail(g: &mut G, b: Vec<u8>) {
    let b = if g.rng.chance(1, 8) { indef(&b) } else { b };
    if g.rng.chance(1, 8) {
        let mut x = b.clone();
        x.extend([2, 1, 7]);
        g.case(&x);
    }
    if g.rng.chance(1, 3) {
        let m = mutate(&mut g.rng, &b);
        g.case(&m);
    }
    if g.rng.chance(1, 8) && !b.is_empty() {
        let mut m = b.clone();
        m[0] ^= g.rng.pick(&[0x20u8, 1, 0x40, 0x80]);
        g.case(&m);
    }
    g.case(&b);
}

fn gen_derive(g: &mut G) {
    g.case(FINDING_IMPLICIT);
    g.case(FINDING_ALIAS);
    DERIVED.with(|ds| {
        for k in 0..g.n(60) {
            for d in ds {
                match &d.shape {
                    Shape::Struct(tag, fs) => {
                        for _ in 0..4 {
                            let mut c = vec![];
                            let mut parts = vec![];
                            for f in fs {
                                if f.mode != Mode::Req && g.rng.chance(1, 2) {
                                    continue;
                                }
                                if g.rng.chance(1, 60) {
                                    continue;
                                }
                                let e = rnd_leaf(g, &f.leaf);
                                let e = if g.rng.chance(1, 12) { indef(&e) } else { e };
                                let mut e = retag(f, &e);
                                if g.rng.chance(1, 40) {
                                    e[0] ^= g.rng.pick(&[0x20u8, 1, 0x40, 0x80, 0xc0]);
                                }
                                if g.rng.chance(1, 15) {
                                    e = indef(&e);
                                }
                                parts.push(e);
                            }
                            if parts.len() > 1 && g.rng.chance(1, 20) {
                                let i = g.rng.below(parts.len() - 1);
                                parts.swap(i, i + 1);
                            }
                            for p in parts {
                                c.extend(p);
                            }
                            tail(g, spec::cons(*tag, &c));
                        }
                        if k == 0 {
                            // every subset of the optional fields, every class and number of one tag
                            for m in 0..1u32 << fs.len() {
                                let mut c = vec![];
                                for (i, f) in fs.iter().enumerate() {
                                    if m >> i & 1 == 1 {
                                        let e = rnd_leaf(g, &f.leaf);
                                        c.extend(retag(f, &e));
                                    }
                                }
                                g.case(&spec::cons(*tag, &c));
                            }
                            for (i, f) in fs.iter().enumerate() {
                                let pre: Vec<u8> = fs[..i].iter().flat_map(|f| { let e = rnd_leaf(g, &f.leaf); retag(f, &e) }).collect();
                                let post: Vec<u8> = fs[i + 1..].iter().flat_map(|f| { let e = rnd_leaf(g, &f.leaf); retag(f, &e) }).collect();
                                for b0 in 0..=255u8 {
                                    let e = rnd_leaf(g, &f.leaf);
                                    let mut e = retag(f, &e);
                                    e[0] = b0;
                                    g.case(&spec::cons(*tag, &[&pre[..], &e, &post].concat()));
                                }
                            }
                        }
                    }
                    Shape::Alias(l) => {
                        for _ in 0..2 {
                            let e = rnd_leaf(g, l);
                            tail(g, e);
                        }
                    }
                    Shape::Choice(vs, kind) => {
                        for _ in 0..3 {
                            let i = g.rng.below(vs.len());
                            let j = if g.rng.chance(1, 10) { g.rng.below(vs.len()) } else { i };
                            let t = if g.rng.chance(1, 10) { rand_tag(&mut g.rng) } else { vs[j].1 };
                            let e = rnd_leaf(g, &vs[i].2);
                            let fl = F { name: "", mode: Mode::Req, tag: kind.map(|k| (k, 2, t)), leaf: vs[i].2.clone() };
                            let e = retag(&fl, &e);
                            tail(g, e);
                        }
                    }
                    Shape::Enumerated(_) => {
                        for _ in 0..2 {
                            let e = rnd_leaf(g, &Leaf { tags: &[10], dec: |_, _| None });
                            tail(g, e);
                        }
                        if k == 0 {
                            for i in -130..600i128 {
                                let mut e = spec::enc_i128(i);
                                e[0] = 10;
                                g.case(&e);
                            }
                            for i in [65536i128, 69999, 70000, 70001, u32::MAX as i128, 1 << 32, (1 << 32) + 5] {
                                let mut e = spec::enc_i128(i);
                                e[0] = 10;
                                g.case(&e);
                            }
                        }
                    }
                }
            }
        }
    })
}

// ------------------------------------------------------------------ P15
pub struct T15 {
    name: &'static str,
    f: F,
    /// (api, der, old)
    dec: DecV,
    enc: Option<EncF>,
    /// OPTIONAL: (api, der, old); OptTaggedParser reads the complete object first
    opt: DecV,
    optp: DecV,
    opt_enc: Option<fn(&[u8], bool) -> R>,
    par_enc: Option<fn(&[u8]) -> R>,
}
fn od<T>(v: Option<T>, f: impl Fn(&T) -> String) -> String {
    match v {
        Some(t) => format!("Some({})", f(&t)),
        None => "None".into(),
    }
}
macro_rules! opt_api {
    ($t:ty) => {{
        let v: DecV = vec![
            ("Option::parse_ber", false, false, |b: &[u8]| zoo::out_input(b, <Option<$t> as BerParser>::parse_ber(Input::from(b)).ok().map(|(r, v)| (r, od(v, |v| strip_span(&dbg_of(v.as_ref()))))))),
            ("Option::parse_der", true, false, |b: &[u8]| zoo::out_input(b, <Option<$t> as DerParser>::parse_der(Input::from(b)).ok().map(|(r, v)| (r, od(v, |v| strip_span(&dbg_of(v.as_ref()))))))),
            ("parse_ber_optional", false, false, |b: &[u8]| zoo::out_input(b, <$t as BerParser>::parse_ber_optional(Input::from(b)).ok().map(|(r, v)| (r, od(v, |v| strip_span(&dbg_of(v.as_ref()))))))),
            ("parse_der_optional", true, false, |b: &[u8]| zoo::out_input(b, <$t as DerParser>::parse_der_optional(Input::from(b)).ok().map(|(r, v)| (r, od(v, |v| strip_span(&dbg_of(v.as_ref()))))))),
            ("Option::from_ber", false, false, |b: &[u8]| zoo::out_slice(b, <Option<$t> as FromBer<Error>>::from_ber(b).ok().map(|(r, v)| (r, od(v, |v| strip_span(&dbg_of(v.as_ref()))))))),
            ("Option::from_der", true, true, |b: &[u8]| zoo::out_slice(b, <Option<$t> as FromDer<Error>>::from_der(b).ok().map(|(r, v)| (r, od(v, |v| strip_span(&dbg_of(v.as_ref()))))))),
        ];
        v
    }};
}
fn optparser(c: u8, n: u32) -> OptTaggedParser {
    match (c, n % 2) {
        (0, 0) => OptTaggedParser::universal(n),
        (1, 0) => OptTaggedParser::application(n),
        (2, 0) => OptTaggedParser::tagged(n),
        (2, 1) if n > 64 => OptTaggedParser::from(Tag(n)),
        (2, 1) if n > 2 => OptTaggedParser::from(n),
        (3, 0) => OptTaggedParser::private(n),
        _ => OptTaggedParser::new(cls(c), Tag(n)),
    }
}
macro_rules! optp_api {
    (exp, $t:ty, $c:expr, $n:expr) => {{
        let v: DecV = vec![
            ("OptTaggedParser::parse_ber", false, false, |b: &[u8]| {
                let r: ParseResult<Option<$t>, Error> = optparser($c, $n).parse_ber(b, |h, d| {
                    assert!(h.class() == cls($c) && h.tag() == Tag($n));
                    if !h.constructed() { return Err(Err::Error(Error::ConstructExpected)) }
                    <$t as FromBer<Error>>::from_ber(d)
                });
                zoo::out_slice(b, r.ok().map(|(r, v)| (r, od(v, |v| strip_span(&dbg_of(v))))))
            }),
            ("OptTaggedParser::parse_der", true, false, |b: &[u8]| {
                let r: ParseResult<Option<$t>, Error> = optparser($c, $n).parse_der(b, |h, d| {
                    assert!(h.class() == cls($c) && h.tag() == Tag($n));
                    if !h.constructed() { return Err(Err::Error(Error::ConstructExpected)) }
                    <$t as FromDer<Error>>::from_der(d)
                });
                zoo::out_slice(b, r.ok().map(|(r, v)| (r, od(v, |v| strip_span(&dbg_of(v))))))
            }),
        ];
        v
    }};
    (imp, $t:ty, $c:expr, $n:expr) => {{
        let v: DecV = vec![];
        v
    }};
}
fn opt_tagged_enc<V: ToBer + ToDer + DynTagged>(v: V, what: &str) -> R {
    zoo::opt_enc_check(v, what)
}
fn optional_tagged(b: &[u8]) -> R {
    TAGGED.with(|ts| {
        let mut any = false;
        for t in ts {
            for (full, list) in [(false, &t.opt), (true, &t.optp)] {
                for (api, der, old, g) in list {
                    let got = g(b).map_err(|e| format!("{} {api}: {e}", t.name))?;
                    let (_, class, n) = t.f.tag.unwrap();
                    let none = Ref::Ok(0, "None".into());
                    let want = if b.is_empty() {
                        none
                    } else if full && spec::tlv(b, *der).is_err() {
                        match spec::hdr(b) {
                            Ok(h) if h.tag != n => Ref::Skip, // a malformed object with another tag
                            _ => Ref::No,
                        }
                    } else {
                        match spec::hdr(b) {
                            Err(_) => Ref::No,
                            Ok(h) if *der && h.len.is_none() => Ref::No,
                            Ok(h) if h.tag != n => none,
                            Ok(h) if h.class != class => Ref::No,
                            _ => match ref_one(&t.f, b, *der, false) {
                                Ref::Ok(n, s) => Ref::Ok(n, format!("Some({s})")),
                                x => x,
                            },
                        }
                    };
                    if want == Ref::Skip {
                        continue;
                    }
                    if *old && want == Ref::No && ref_one(&t.f, b, *der, true) != Ref::No {
                        continue; // known finding of P15
                    }
                    match (&want, &got) {
                        (Ref::Ok(n, s), Some((k, d))) => {
                            ensure!(n == k && s == d, "OPTIONAL {} {api}: expected {s} ({n} octets), decoded {d} ({k} octets)", t.name);
                            any = true;
                        }
                        (Ref::Ok(n, s), None) => return Err(format!("OPTIONAL {} {api}: refused, expected {s} ({n} octets)", t.name)),
                        (Ref::No, Some((k, d))) => return Err(format!("OPTIONAL {} {api}: accepted as {d} ({k} octets), expected an error", t.name)),
                        _ => {}
                    }
                }
            }
            if let Some(e) = t.opt_enc {
                for der in [false, true] {
                    any |= e(b, der)?;
                }
            }
        }
        Ok(any)
    })
}
fn gen_opt_tagged(g: &mut G) {
    g.case(&[]);
    gen_tagged(g);
}

macro_rules! inner_api {
    ($t:ty) => {
        { let v: DecV = vec![
            ("parse_ber", false, false, |b: &[u8]| zoo::out_input(b, <$t as BerParser>::parse_ber(Input::from(b)).ok().map(|(r, v)| (r, strip_span(&dbg_of(v.as_ref())))))),
            ("parse_der", true, false, |b: &[u8]| zoo::out_input(b, <$t as DerParser>::parse_der(Input::from(b)).ok().map(|(r, v)| (r, strip_span(&dbg_of(v.as_ref())))))),
            ("from_ber", false, false, |b: &[u8]| {
                let r: ParseResult<$t, Error> = <$t as FromBer<Error>>::from_ber(b);
                zoo::out_slice(b, r.ok().map(|(r, v)| (r, strip_span(&dbg_of(v.as_ref())))))
            }),
            ("from_der", true, true, |b: &[u8]| {
                let r: ParseResult<$t, Error> = <$t as FromDer<Error>>::from_der(b);
                zoo::out_slice(b, r.ok().map(|(r, v)| (r, strip_span(&dbg_of(v.as_ref())))))
            }),
        ]; v }
    };
}

fn cls(c: u8) -> Class {
    [Class::Universal, Class::Application, Class::ContextSpecific, Class::Private][c as usize]
}

/// helpers and builders taking class and tag at run time
macro_rules! rt_api {
    ($v:ident, exp, $t:ty, $c:expr, $n:expr) => {
        $v.dec.push(("TaggedParser::parse_ber", false, false, |b: &[u8]| {
            let r: ParseResult<TaggedParser<Explicit, $t>, Error> = TaggedParser::parse_ber(cls($c), Tag($n), b);
            zoo::out_slice(b, r.ok().map(|(r, v)| (r, strip_span(&dbg_of(v.as_ref())))))
        }));
        $v.dec.push(("TaggedParser::parse_der", true, false, |b: &[u8]| {
            let r: ParseResult<TaggedParser<Explicit, $t>, Error> = TaggedParser::parse_der(cls($c), Tag($n), b);
            zoo::out_slice(b, r.ok().map(|(r, v)| (r, strip_span(&dbg_of(v.as_ref())))))
        }));
        $v.dec.push(("TaggedParserBuilder::ber_parser", false, false, |b: &[u8]| {
            use nom::Parser;
            let r = TaggedParserBuilder::<Explicit, Error>::explicit().with_class(cls($c)).with_tag(Tag($n)).ber_parser::<$t>().parse(b);
            zoo::out_slice(b, r.ok().map(|(r, v)| (r, strip_span(&dbg_of(v.as_ref())))))
        }));
        $v.dec.push(("TaggedParserBuilder::der_parser", true, false, |b: &[u8]| {
            use nom::Parser;
            let r = TaggedParserBuilder::<Explicit, Error>::explicit().with_class(cls($c)).with_tag(Tag($n)).der_parser::<$t>().parse(b);
            zoo::out_slice(b, r.ok().map(|(r, v)| (r, strip_span(&dbg_of(v.as_ref())))))
        }));
    };
    ($v:ident, imp, $t:ty, $c:expr, $n:expr) => {
        $v.dec.push(("TaggedParser::parse_ber", false, false, |b: &[u8]| {
            let r: ParseResult<TaggedParser<Implicit, $t>, Error> = TaggedParser::parse_ber(cls($c), Tag($n), b);
            zoo::out_slice(b, r.ok().map(|(r, v)| (r, strip_span(&dbg_of(v.as_ref())))))
        }));
        $v.dec.push(("TaggedParser::parse_der", true, false, |b: &[u8]| {
            let r: ParseResult<TaggedParser<Implicit, $t>, Error> = TaggedParser::parse_der(cls($c), Tag($n), b);
            zoo::out_slice(b, r.ok().map(|(r, v)| (r, strip_span(&dbg_of(v.as_ref())))))
        }));
        $v.dec.push(("TaggedParserBuilder::ber_parser", false, false, |b: &[u8]| {
            use nom::Parser;
            let r = TaggedParserBuilder::<Implicit, Error>::implicit().with_class(cls($c)).with_tag(Tag($n)).ber_parser::<$t>().parse(b);
            zoo::out_slice(b, r.ok().map(|(r, v)| (r, strip_span(&dbg_of(v.as_ref())))))
        }));
        $v.dec.push(("TaggedParserBuilder::der_parser", true, false, |b: &[u8]| {
            use nom::Parser;
            let r = TaggedParserBuilder::<Implicit, Error>::implicit().with_class(cls($c)).with_tag(Tag($n)).der_parser::<$t>().parse(b);
            zoo::out_slice(b, r.ok().map(|(r, v)| (r, strip_span(&dbg_of(v.as_ref())))))
        }));
    };
}

fn tagged() -> Vec<T15> {
    let mut v: Vec<T15> = vec![];
    macro_rules! one {
        ($kind:ident, $b:expr, $name:expr, $t:ty, $tags:expr, $c:expr, $n:expr, $rt:ident) => {{
            let mut dec = inner_api!(TaggedValue<$t, Error, $kind, $c, $n>);
            let mut t = T15 {
                name: $name,
                f: F { name: "", mode: Mode::Req, tag: Some(($b, $c, $n)), leaf: leaf!($t, $tags) },
                dec: vec![],
                enc: back!(TaggedValue<$t, Error, $kind, $c, $n>, $name),
                opt: opt_api!(TaggedValue<$t, Error, $kind, $c, $n>),
                optp: optp_api!($rt, $t, $c, $n),
                opt_enc: Some(|b, der| {
                    let v = if der { <TaggedValue<$t, Error, $kind, $c, $n> as DerParser>::parse_der(Input::from(b)).ok() } else { <TaggedValue<$t, Error, $kind, $c, $n> as BerParser>::parse_ber(Input::from(b)).ok() };
                    v.map_or(Ok(false), |(_, v)| opt_tagged_enc(v, $name))
                }),
                par_enc: Some(|b| {
                    let v: ParseResult<TaggedValue<$t, Error, $kind, $c, $n>, Error> = FromBer::from_ber(b);
                    let p: ParseResult<TaggedParser<$kind, $t>, Error> = TaggedParser::parse_ber(cls($c), Tag($n), b);
                    match (v, p) {
                        (Ok((_, v)), Ok((_, p))) => {
                            // same inner value: same encoding, and a parser value says what it encodes as
                            let (ev, ep) = (enc_check(&v, $name)?, enc_check(&p, concat!("TaggedParser ", $name))?);
                            ensure!(ev.ber.as_ref().ok() == ep.ber.as_ref().ok(), "{}: TaggedParser encodes in BER as {:?}, TaggedValue as {:?}", $name, ep.ber.as_ref().map(|x| hex(x)), ev.ber.as_ref().map(|x| hex(x)));
                            ensure!(ev.der.as_ref().ok() == ep.der.as_ref().ok(), "{}: TaggedParser encodes in DER as {:?}, TaggedValue as {:?}", $name, ep.der.as_ref().map(|x| hex(x)), ev.der.as_ref().map(|x| hex(x)));
                            ensure!(DynTagged::class(&p) == cls($c) && DynTagged::tag(&p) == Tag($n), "{}: TaggedParser class/tag", $name);
                            ensure!(DynTagged::constructed(&p) == (b[0] & 0x20 != 0), "{}: TaggedParser constructed", $name);
                            Ok(true)
                        }
                        _ => Ok(false),
                    }
                }),
            };
            t.dec.append(&mut dec);
            rt_api!(t, $rt, $t, $c, $n);
            v.push(t);
        }};
    }
    macro_rules! both {
        ($name:literal, $t:ty, $tags:expr, $c:expr, $n:expr) => {
            one!(Explicit, true, concat!("EXPLICIT ", $name), $t, $tags, $c, $n, exp);
            one!(Implicit, false, concat!("IMPLICIT ", $name), $t, $tags, $c, $n, imp);
        };
    }
    both!("[0] u32", u32, &[2], 2, 0);
    both!("[1] bool", bool, &[1], 2, 1);
    both!("[APPLICATION 2] OCTET STRING", OctetString<'_>, &[4], 1, 2);
    both!("[PRIVATE 30] Vec<u16>", Vec<u16>, &[16], 3, 30);
    both!("[31] UTF8String", Utf8String<'_>, &[12], 2, 31);
    both!("[127] SEQUENCE", Sequence<'_>, &[16], 2, 127);
    both!("[128] i64", i64, &[2], 2, 128);
    both!("[APPLICATION 16384] BIT STRING", BitString, &[3], 1, 16384);
    both!("[UNIVERSAL 7] NULL", Null, &[5], 0, 7);
    both!("[4294967295] u128", u128, &[2], 2, 4294967295);
    both!("[2] String", String, &[12], 2, 2);
    both!("[3] INTEGER", Integer<'_>, &[2], 2, 3);
    both!("[4] SET OF", SetOf<bool>, &[17], 2, 4);
    {
        // nested tags
        let mut t = T15 {
            name: "[0] EXPLICIT [1] EXPLICIT u8",
            f: F { name: "", mode: Mode::Req, tag: Some((true, 2, 0)), leaf: Leaf { tags: &[], dec: |b, der| match ref_one(&F { name: "", mode: Mode::Req, tag: Some((true, 2, 1)), leaf: leaf!(u8, &[2]) }, b, der, false) { Ref::Ok(n, s) => Some((n, s)), Ref::Skip => Some((usize::MAX, String::new())), _ => None } } },
            dec: vec![],
            enc: back!(TaggedExplicit<TaggedExplicit<u8, Error, 1>, Error, 0>, "nested"),
            opt: vec![],
            optp: vec![],
            opt_enc: None,
            par_enc: None,
        };
        t.dec.push(("parse_ber", false, false, |b: &[u8]| zoo::out_input(b, <TaggedExplicit<TaggedExplicit<u8, Error, 1>, Error, 0> as BerParser>::parse_ber(Input::from(b)).ok().map(|(r, v)| (r, dbg_of(v.as_ref().as_ref()))))));
        t.dec.push(("parse_der", true, false, |b: &[u8]| zoo::out_input(b, <TaggedExplicit<TaggedExplicit<u8, Error, 1>, Error, 0> as DerParser>::parse_der(Input::from(b)).ok().map(|(r, v)| (r, dbg_of(v.as_ref().as_ref()))))));
        t.dec.push(("from_der", true, false, |b: &[u8]| zoo::out_slice(b, <TaggedExplicit<TaggedExplicit<u8, Error, 1>, Error, 0> as FromDer<Error>>::from_der(b).ok().map(|(r, v)| (r, dbg_of(v.as_ref().as_ref()))))));
        v.push(t);
    }
    v
}

thread_local! {
    static TAGGED: Vec<T15> = tagged();
}

/// [1] IMPLICIT BOOLEAN 01 accepted by from_der: see known-findings.txt
const FINDING_TAGGED: &[u8] = &[0x81, 1, 1];

fn tagged_value(b: &[u8]) -> R {
    TAGGED.with(|ts| {
        let mut any = false;
        for t in ts {
            for (api, der, old, g) in &t.dec {
                let got = g(b).map_err(|e| format!("{} {api}: {e}", t.name))?;
                let want = ref_one(&t.f, b, *der, false);
                if want == Ref::Skip {
                    continue;
                }
                if *old && b != FINDING_TAGGED && want == Ref::No && ref_one(&t.f, b, *der, true) != Ref::No {
                    continue;
                }
                match (&want, &got) {
                    (Ref::Ok(n, s), Some((k, d))) => {
                        ensure!(n == k && s == d, "{} {api}: expected {s} ({n} octets), decoded {d} ({k} octets)", t.name);
                        any = true;
                    }
                    (Ref::Ok(n, s), None) => return Err(format!("{} {api}: refused, expected {s} ({n} octets)", t.name)),
                    (Ref::No, Some((k, d))) => return Err(format!("{} {api}: accepted as {d} ({k} octets), expected an error", t.name)),
                    _ => {}
                }
            }
            if let Some(e) = t.par_enc {
                any |= e(b)?;
            }
            if let Some(e) = t.enc {
                for der in [false, true] {
                    if let Some((enc, dbg, backs)) = e(b, der)? {
                        if enc.ber.is_err() || enc.der.is_err() {
                            return Err(format!("{}: {dbg} cannot be encoded", t.name));
                        }
                        for (m, x) in backs {
                            ensure!(strip_span(&x) == strip_span(&dbg), "{}: {dbg} encoded in {m} decodes as {x}", t.name);
                        }
                        if der {
                            if let Ref::Ok(n, _) = ref_one(&t.f, b, true, false) {
                                if zoo::tree_min(&b[..n]) {
                                    ensure!(enc.der.as_ref().unwrap() == &b[..n], "{}: {dbg} is encoded as {}", t.name, hex(enc.der.as_ref().unwrap()));
                                }
                            }
                        }
                    }
                }
            }
        }
        Ok(any)
    })
}

fn gen_tagged(g: &mut G) {
    g.case(FINDING_TAGGED);
    for l in 0..=2 {
        g.all(l);
    }
    TAGGED.with(|ts| {
        for k in 0..g.n(60) {
            for t in ts {
                let tags: &[u32] = if t.f.leaf.tags.is_empty() { &[2] } else { t.f.leaf.tags };
                let l = Leaf { tags: if t.f.leaf.tags.is_empty() { &[2] } else { t.f.leaf.tags }, dec: t.f.leaf.dec };
                let e = if g.rng.chance(1, 6) { spec::prim(tags[0], &{ let n = g.rng.below(4); g.rng.bytes(n) }) } else { rnd_leaf(g, &l) };
                let e = if t.f.leaf.tags.is_empty() { spec::enc(2, true, 1, &e) } else { e };
                let e = if g.rng.chance(1, 10) { indef(&e) } else { e };
                let r = retag(&t.f, &e);
                tail(g, r.clone());
                if g.rng.chance(1, 4) {
                    g.case(&indef(&r));
                }
                // implicit where explicit is expected, and conversely
                let mut o = t.f.clone();
                o.tag = o.tag.map(|(k, c, n)| (!k, c, n));
                g.case(&retag(&o, &e));
                g.case(&e);
                if k == 0 {
                    for c in 0..4u8 {
                        for n in [0u32, 1, 2, 3, 4, 5, 7, 30, 31, 32, 127, 128, 129, 16383, 16384, u32::MAX, u32::MAX - 1] {
                            for exp in [false, true] {
                                let mut o = t.f.clone();
                                o.tag = Some((exp, c, n));
                                let r = retag(&o, &e);
                                g.case(&r);
                                let mut x = r.clone();
                                x[0] ^= 0x20;
                                g.case(&x);
                            }
                        }
                    }
                }
            }
        }
    })
}

/// run every decoder (P07)
pub fn touch(b: &[u8]) {
    DERIVED.with(|ds| {
        for d in ds {
            for (_, _, _, f) in &d.dec {
                let _ = f(b);
            }
            if let Some(e) = d.enc {
                let _ = (e(b, false).is_ok(), e(b, true).is_ok());
            }
        }
    });
    TAGGED.with(|ts| {
        for t in ts {
            for (_, _, _, f) in t.dec.iter().chain(&t.opt).chain(&t.optp) {
                let _ = f(b);
            }
            if let Some(e) = t.enc {
                let _ = (e(b, false).is_ok(), e(b, true).is_ok());
            }
        }
    });
}

pub fn kinds(v: &mut Vec<Kind>) {
    kind!(v, "P17", "optional_tagged", "26 tagged types x 6-8 optional interfaces on the inputs of tagged_value", optional_tagged, gen_opt_tagged);
    kind!(v, "P15", "tagged_value", "26 tagged types (explicit and implicit, 4 classes, numbers up to 2^32-1) x 8 interfaces; all inputs of <= 2 octets; canonical values, every class x number x constructed bit, mutations", tagged_value, gen_tagged);
    kind!(v, "P18", "derive_codec", "28 derived types (structures, sets, choices, enumerated, aliases; three derive families) on seeded field lists: every subset of fields, every first octet per field, mutations, sizes around 127/255/65535", derive_codec, gen_derive);
}
