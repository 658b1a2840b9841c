//! P16: containers and iterators. Reference: element boundaries (spec) and the decoder of the
//! element type.
use crate::p_drv::Leaf;
use crate::run::{Kind, G, R};
use crate::spec::{self, hex};
use crate::util::*;
use crate::zoo::{self, dbg_of, enc_check, rand_der, strip_span};
use crate::leaf;
use asn1_rs::*;
use std::collections::{BTreeSet, HashSet};
use std::fmt::Debug;

/// items until the end or the first error; anything returned after that
#[derive(Debug, PartialEq)]
struct It {
    ok: Vec<String>,
    err: bool,
    after: usize,
}
fn txt<T: Debug>(t: &T) -> String {
    strip_span(&dbg_of(t))
}
fn run_it<T: Debug, E>(mut it: impl Iterator<Item = std::result::Result<T, E>>) -> It {
    let mut r = It { ok: vec![], err: false, after: 0 };
    for _ in 0..200_000 {
        match it.next() {
            Some(Ok(v)) => r.ok.push(txt(&v)),
            Some(Err(_)) => {
                r.err = true;
                break;
            }
            None => break,
        }
    }
    for _ in 0..3 {
        r.after += it.next().is_some() as usize;
    }
    r
}
fn list<T: Debug>(v: impl IntoIterator<Item = T>) -> Vec<String> {
    v.into_iter().map(|t| txt(&t)).collect()
}
type ItF = fn(&[u8]) -> It;
type AllF = fn(&[u8]) -> Option<Vec<String>>;
type BoxF = fn(&[u8]) -> std::result::Result<Option<(usize, Vec<String>)>, String>;
struct El {
    name: &'static str,
    tag: u32,
    leaf: Leaf,
    its: Vec<(&'static str, bool, ItF)>,
    all: Vec<(&'static str, bool, AllF)>,
    /// api, DER, tag of the container, unordered, decoder
    boxes: Vec<(&'static str, bool, u32, bool, BoxF)>,
    back: Vec<(&'static str, fn(&[u8], bool) -> R)>,
}

macro_rules! bx {
    ($e:ident, $name:literal, $t:ty, $tag:expr, $un:expr) => {
        $e.boxes.push((concat!($name, "::parse_ber"), false, $tag, $un, |b| wrap_in(b, <$t as BerParser>::parse_ber(Input::from(b)).ok().map(|(r, v)| (r, list(v.iter()))))));
        $e.boxes.push((concat!($name, "::parse_der"), true, $tag, $un, |b| wrap_in(b, <$t as DerParser>::parse_der(Input::from(b)).ok().map(|(r, v)| (r, list(v.iter()))))));
        $e.boxes.push((concat!($name, "::from_ber"), false, $tag, $un, |b| wrap_sl(b, <$t as FromBer<Error>>::from_ber(b).ok().map(|(r, v)| (r, list(v.iter()))))));
        $e.boxes.push((concat!($name, "::from_der"), true, $tag, $un, |b| wrap_sl(b, <$t as FromDer<Error>>::from_der(b).ok().map(|(r, v)| (r, list(v.iter()))))));
    };
}
fn wrap_in(b: &[u8], r: Option<(Input, Vec<String>)>) -> std::result::Result<Option<(usize, Vec<String>)>, String> {
    match r {
        Some((r, v)) => Ok(zoo::out_input(b, Some((r, String::new())))?.map(|(n, _)| (n, v))),
        None => Ok(None),
    }
}
fn wrap_sl(b: &[u8], r: Option<(&[u8], Vec<String>)>) -> std::result::Result<Option<(usize, Vec<String>)>, String> {
    match r {
        Some((r, v)) => Ok(zoo::out_slice(b, Some((r, String::new())))?.map(|(n, _)| (n, v))),
        None => Ok(None),
    }
}
/// header and content written are those of the elements in order, and decode to the same list
fn check_back<V: ToBer + ToDer>(v: &V, tag: u32, bers: Vec<Vec<u8>>, ders: Vec<Vec<u8>>, ordered: bool, what: &str) -> R {
    let e = enc_check(v, what)?;
    for (m, got, want) in [("BER", e.ber, bers), ("DER", e.der, ders)] {
        let got = got.map_err(|e| format!("{what} {m}: cannot be encoded: {e}"))?;
        if ordered {
            let w = spec::cons(tag, &want.concat());
            ensure!(got == w, "{what} {m}: encoded as {}, elements give {}", hex(&got), hex(&w));
        } else {
            let t = spec::tlv_der(&got).map_err(|_| format!("{what} {m}: encoded as {}", hex(&got)))?;
            ensure!(t.h.tag == tag && t.h.cons && t.h.class == 0 && t.total == got.len(), "{what} {m}: encoded as {}", hex(&got));
            let Some(v) = spec::split(&got[t.c0..t.c1], false) else { return Err(format!("{what} {m}: encoded as {}", hex(&got))) };
            let mut a: Vec<Vec<u8>> = v.iter().map(|x| x.1.to_vec()).collect();
            let mut w = want;
            a.sort();
            w.sort();
            ensure!(a == w, "{what} {m}: elements {a:x?} written for {w:x?}");
        }
    }
    Ok(true)
}
macro_rules! encs {
    ($v:expr) => {
        (
            $v.iter().map(|t| t.to_ber_vec()).collect::<std::result::Result<Vec<_>, _>>(),
            $v.iter().map(|t| t.to_der_vec()).collect::<std::result::Result<Vec<_>, _>>(),
        )
    };
}
macro_rules! bk {
    ($e:ident, $name:literal, $t:ty, $tag:expr, $ord:expr) => {
        $e.back.push(($name, |b, der| {
            let v = if der { <$t as DerParser>::parse_der(Input::from(b)).ok() } else { <$t as BerParser>::parse_ber(Input::from(b)).ok() };
            let Some((_, v)) = v else { return Ok(false) };
            let (Ok(x), Ok(y)) = encs!(v) else { return Ok(false) };
            check_back(&v, $tag, x, y, $ord, $name)
        }));
    };
}
macro_rules! arr {
    ($e:ident, $t:ty, $n:literal) => {
        $e.boxes.push((concat!("[T; ", $n, "]::parse_ber"), false, 16 + 100 * ($n + 1), false, |b| wrap_in(b, <[$t; $n] as BerParser>::parse_ber(Input::from(b)).ok().map(|(r, v)| (r, list(v))))));
        $e.boxes.push((concat!("[T; ", $n, "]::parse_der"), true, 16 + 100 * ($n + 1), false, |b| wrap_in(b, <[$t; $n] as DerParser>::parse_der(Input::from(b)).ok().map(|(r, v)| (r, list(v))))));
        bk!($e, "array", [$t; $n], 16, true);
    };
}
macro_rules! statics {
    (S $e:ident $t:ty) => {
        $e.all.push(("Sequence::into_ber_sequence_of", false, |c| Sequence::new(c.into()).into_ber_sequence_of::<$t, (), Error>().ok().map(list)));
        $e.all.push(("Sequence::into_der_sequence_of", true, |c| Sequence::new(c.into()).into_der_sequence_of::<$t, (), Error>().ok().map(list)));
        $e.all.push(("(owned) Sequence::into_ber_sequence_of", false, |c| Sequence::new(c.to_vec().into()).into_ber_sequence_of::<$t, (), Error>().ok().map(list)));
        $e.all.push(("(owned) Sequence::into_der_sequence_of", true, |c| Sequence::new(c.to_vec().into()).into_der_sequence_of::<$t, (), Error>().ok().map(list)));
        $e.all.push(("Set::into_ber_set_of", false, |c| Set::new(c.into()).into_ber_set_of::<$t, Error>().ok().map(list)));
        $e.all.push(("Set::into_der_set_of", true, |c| Set::new(c.into()).into_der_set_of::<$t, Error>().ok().map(list)));
        $e.all.push(("(owned) Set::into_ber_set_of", false, |c| Set::new(c.to_vec().into()).into_ber_set_of::<$t, Error>().ok().map(list)));
        $e.all.push(("(owned) Set::into_der_set_of", true, |c| Set::new(c.to_vec().into()).into_der_set_of::<$t, Error>().ok().map(list)));
    };
    (s $e:ident $t:ty) => {};
}
macro_rules! ords {
    (O $e:ident $t:ty) => {
        bx!($e, "BTreeSet", BTreeSet<$t>, 17, true);
        bk!($e, "BTreeSet", BTreeSet<$t>, 17, false);
    };
    (o $e:ident $t:ty) => {};
}
macro_rules! hashes {
    (H $e:ident $t:ty) => {
        bx!($e, "HashSet", HashSet<$t>, 17, true);
        bk!($e, "HashSet", HashSet<$t>, 17, false);
    };
    (h $e:ident $t:ty) => {};
}
macro_rules! el {
    ($v:ident, $name:expr, $t:ty, $tag:expr, $s:ident $o:ident $h:ident) => {{
        let mut e = El { name: $name, tag: $tag, leaf: leaf!($t, &[$tag]), its: vec![], all: vec![], boxes: vec![], back: vec![] };
        e.its.push(("SequenceIterator BER", false, |c| run_it(SequenceIterator::<$t, BerMode, Error>::new(c))));
        e.its.push(("SequenceIterator DER", true, |c| run_it(SequenceIterator::<$t, DerMode, Error>::new(c))));
        e.its.push(("SetIterator BER", false, |c| run_it(SetIterator::<$t, BerMode, Error>::new(c))));
        e.its.push(("SetIterator DER", true, |c| run_it(SetIterator::<$t, DerMode, Error>::new(c))));
        e.its.push(("SequenceIteratorInput BER", false, |c| run_it(SequenceIteratorInput::<$t, BerMode, BerError<Input>>::new(Input::from(c)))));
        e.its.push(("SequenceIteratorInput DER", true, |c| run_it(SequenceIteratorInput::<$t, DerMode, BerError<Input>>::new(Input::from(c)))));
        e.its.push(("Sequence::ber_iter", false, |c| run_it(Sequence::new(c.into()).ber_iter::<$t, Error>())));
        e.its.push(("Sequence::der_iter", true, |c| run_it(Sequence::new(c.into()).der_iter::<$t, Error>())));
        e.its.push(("Set::ber_iter", false, |c| run_it(Set::new(c.into()).ber_iter::<$t, Error>())));
        e.its.push(("Set::der_iter", true, |c| run_it(Set::new(c.into()).der_iter::<$t, Error>())));
        e.all.push(("Sequence::ber_sequence_of", false, |c| Sequence::new(c.into()).ber_sequence_of::<$t, Error>().ok().map(list)));
        e.all.push(("Sequence::der_sequence_of", true, |c| Sequence::new(c.into()).der_sequence_of::<$t, Error>().ok().map(list)));
        e.all.push(("Sequence::into_der_sequence_of_ref", true, |c| Sequence::new(c.into()).into_der_sequence_of_ref::<$t, Error>().ok().map(list)));
        e.all.push(("Set::ber_set_of", false, |c| Set::new(c.into()).ber_set_of::<$t, Error>().ok().map(list)));
        e.all.push(("Set::der_set_of", true, |c| Set::new(c.into()).der_set_of::<$t, Error>().ok().map(list)));
        e.all.push(("Set::into_der_set_of_ref", true, |c| Set::new(c.into()).into_der_set_of_ref::<$t, Error>().ok().map(list)));
        e.all.push(("AnyIterator::try_parse_collect BER", false, |c| AnyIterator::<BerMode>::new(Input::from(c)).try_parse_collect::<Vec<$t>, $t>().ok().filter(|x| x.0.is_empty() && x.0.span().start == c.len()).map(|x| list(x.1))));
        e.all.push(("AnyIterator::try_parse_collect DER", true, |c| AnyIterator::<DerMode>::new(Input::from(c)).try_parse_collect::<Vec<$t>, $t>().ok().filter(|x| x.0.is_empty() && x.0.span().start == c.len()).map(|x| list(x.1))));
        statics!($s e $t);
        bx!(e, "Vec", Vec<$t>, 16, false);
        bx!(e, "SequenceOf", SequenceOf<$t>, 16, false);
        bx!(e, "SetOf", SetOf<$t>, 17, false);
        e.boxes.push(("Sequence::parse_ber_and_then", false, 16, false, |b| wrap_in(b, Sequence::parse_ber_and_then(Input::from(b), |h, i| { if !h.constructed() { return Err(Err::Error(BerError::new(i, InnerError::ConstructExpected))) } AnyIterator::<BerMode>::new(i).try_parse_collect::<Vec<$t>, $t>().map_err(Err::convert) }).ok().map(|(r, v)| (r, list(v))))));
        e.boxes.push(("Sequence::parse_der_and_then", true, 16, false, |b| wrap_in(b, Sequence::parse_der_and_then(Input::from(b), |h, i| { if !h.constructed() { return Err(Err::Error(BerError::new(i, InnerError::ConstructExpected))) } AnyIterator::<DerMode>::new(i).try_parse_collect::<Vec<$t>, $t>().map_err(Err::convert) }).ok().map(|(r, v)| (r, list(v))))));
        e.boxes.push(("Set::parse_ber_and_then", false, 17, false, |b| wrap_in(b, Set::parse_ber_and_then(Input::from(b), |h, i| { if !h.constructed() { return Err(Err::Error(BerError::new(i, InnerError::ConstructExpected))) } AnyIterator::<BerMode>::new(i).try_parse_collect::<Vec<$t>, $t>().map_err(Err::convert) }).ok().map(|(r, v)| (r, list(v))))));
        e.boxes.push(("Set::parse_der_and_then", true, 17, false, |b| wrap_in(b, Set::parse_der_and_then(Input::from(b), |h, i| { if !h.constructed() { return Err(Err::Error(BerError::new(i, InnerError::ConstructExpected))) } AnyIterator::<DerMode>::new(i).try_parse_collect::<Vec<$t>, $t>().map_err(Err::convert) }).ok().map(|(r, v)| (r, list(v))))));
        fn sl<'a>(c: &'a [u8], der: bool) -> ParseResult<'a, Vec<String>, Error> {
            let mut v = vec![];
            let mut c = c;
            while !c.is_empty() {
                let (r, x) = if der { <$t as FromDer<Error>>::from_der(c)? } else { <$t as FromBer<Error>>::from_ber(c)? };
                v.push(txt(&x));
                c = r;
            }
            Ok((c, v))
        }
        e.boxes.push(("Sequence::from_ber_and_then", false, 16, false, |b| wrap_sl(b, Sequence::from_ber_and_then(b, |c| sl(c, false)).ok())));
        e.boxes.push(("Sequence::from_der_and_then", true, 16, false, |b| wrap_sl(b, Sequence::from_der_and_then(b, |c| sl(c, true)).ok())));
        e.boxes.push(("Set::from_ber_and_then", false, 17, false, |b| wrap_sl(b, Set::from_ber_and_then(b, |c| sl(c, false)).ok())));
        e.boxes.push(("Set::from_der_and_then", true, 17, false, |b| wrap_sl(b, Set::from_der_and_then(b, |c| sl(c, true)).ok())));
        e.all.push(("Sequence::parse", false, |c| Sequence::new(c.into()).parse(|c| sl(c, false)).ok().map(|x| x.1)));
        e.all.push(("Sequence::parse_into", true, |c| Sequence::new(c.into()).parse_into(|c| sl(c, true)).ok().map(|x| x.1)));
        e.all.push(("Sequence::and_then", true, |c| Sequence::new(c.into()).and_then(|c| match c { std::borrow::Cow::Borrowed(c) => sl(c, true), _ => panic!("owned") }).ok().map(|x| x.1)));
        e.all.push(("Set::parse", false, |c| Set::new(c.into()).parse(|c| sl(c, false)).ok().map(|x| x.1)));
        e.all.push(("Set::parse_into", true, |c| Set::new(c.into()).parse_into(|c| sl(c, true)).ok().map(|x| x.1)));
        e.all.push(("Set::and_then", false, |c| Set::new(c.into()).and_then(|c| match c { std::borrow::Cow::Borrowed(c) => sl(c, false), _ => panic!("owned") }).ok().map(|x| x.1)));
        arr!(e, $t, 0);
        arr!(e, $t, 1);
        arr!(e, $t, 2);
        arr!(e, $t, 3);
        ords!($o e $t);
        hashes!($h e $t);
        bk!(e, "Vec", Vec<$t>, 16, true);
        bk!(e, "SequenceOf", SequenceOf<$t>, 16, true);
        bk!(e, "SetOf", SetOf<$t>, 17, true);
        e.back.push(("from_iter_to_der", |b, der| {
            let v = if der { <Vec<$t> as DerParser>::parse_der(Input::from(b)).ok() } else { <Vec<$t> as BerParser>::parse_ber(Input::from(b)).ok() };
            let Some((_, v)) = v else { return Ok(false) };
            let (Ok(_), Ok(y)) = encs!(v) else { return Ok(false) };
            let s = Sequence::from_iter_to_der(v.iter()).map_err(|e| format!("Sequence::from_iter_to_der: {e}"))?;
            ensure!(s.content[..] == y.concat()[..], "Sequence::from_iter_to_der: content {}, elements give {}", hex(&s.content), hex(&y.concat()));
            let s = Set::from_iter_to_der(v.iter()).map_err(|e| format!("Set::from_iter_to_der: {e}"))?;
            ensure!(s.content[..] == y.concat()[..], "Set::from_iter_to_der: content {}, elements give {}", hex(&s.content), hex(&y.concat()));
            Ok(true)
        }));
        $v.push(e);
    }};
}

fn els() -> Vec<El> {
    let mut v: Vec<El> = vec![];
    el!(v, "bool", bool, 1, S O H);
    el!(v, "u16", u16, 2, S O H);
    el!(v, "i64", i64, 2, S O H);
    el!(v, "Integer", Integer<'_>, 2, s o h);
    el!(v, "BitString", BitString, 3, s o h);
    el!(v, "OctetString", OctetString<'_>, 4, s o h);
    el!(v, "()", (), 5, s O H);
    el!(v, "PrintableString", PrintableString<'_>, 19, s o h);
    el!(v, "Utf8String", Utf8String<'_>, 12, s o h);
    el!(v, "String", String, 12, S O H);
    el!(v, "Vec<u8>", Vec<u8>, 16, s O H);
    el!(v, "Set", Set<'_>, 17, s o h);
    el!(v, "SetOf<i32>", SetOf<i32>, 17, s o h);
    v
}
thread_local! {
    static ELS: Vec<El> = els();
}

/// elements of a content; None: some element is malformed (texts of those before it)
fn reference(c: &[u8], der: bool, leaf: &Leaf) -> (Vec<String>, bool) {
    let mut v = vec![];
    let mut c = c;
    while !c.is_empty() {
        let Ok(t) = spec::tlv(c, der) else { return (v, true) };
        if !leaf.tags.contains(&t.h.tag) {
            return (v, true);
        }
        match (leaf.dec)(&c[..t.total], der) {
            Some((n, s)) if n == t.total => v.push(s),
            _ => return (v, true),
        }
        c = &c[t.total..];
    }
    (v, false)
}

fn container(b: &[u8]) -> R {
    ELS.with(|es| {
        let mut any = false;
        for e in es {
            // as a content
            for der in [false, true] {
                let (want, err) = reference(b, der, &e.leaf);
                let w = It { ok: want.clone(), err, after: 0 };
                for (api, d, f) in e.its.iter().filter(|x| x.1 == der) {
                    let got = f(b);
                    ensure!(got == w, "{} of {} (DER {d}): expected {w:?}, got {got:?}", api, e.name);
                }
                let w = if err { None } else { Some(want) };
                for (api, d, f) in e.all.iter().filter(|x| x.1 == der) {
                    let got = f(b);
                    ensure!(got == w, "{} of {} (DER {d}): expected {w:?}, got {got:?}", api, e.name);
                }
                any |= w.is_some();
            }
            // as an object
            let th = spec::hdr(b);
            for (api, der, tag, un, f) in &e.boxes {
                let got = f(b).map_err(|m| format!("{api} of {}: {m}", e.name))?;
                let count = if *tag >= 100 { Some((*tag / 100 - 1) as usize) } else { None };
                let tag = *tag % 100;
                let want = match spec::tlv(b, *der) {
                    Err(_) => None,
                    Ok(t) if t.h.class != 0 => continue,
                    Ok(t) if t.h.tag != tag || !t.h.cons => None,
                    Ok(t) => match reference(&b[t.c0..t.c1], *der, &e.leaf) {
                        (_, true) => None,
                        (v, false) if count.is_some_and(|n| n != v.len()) => None,
                        (v, false) => Some((t.total, v)),
                    },
                };
                let (mut got, mut want) = (got, want);
                if *un {
                    for x in [&mut got, &mut want] {
                        if let Some((_, v)) = x {
                            v.sort();
                            v.dedup();
                        }
                    }
                }
                // Sequence/Set and_then: content only
                ensure!(got == want, "{api} of {}: expected {want:?}, got {got:?}", e.name);
                any |= got.is_some();
            }
            if th.is_ok() {
                for (_, f) in &e.back {
                    for der in [false, true] {
                        any |= f(b, der).map_err(|m| format!("{}: {m}", e.name))?;
                    }
                }
            }
        }
        any |= any_elements(b)?;
        any |= tuples(b)?;
        Ok(any)
    })
}

fn any_elements(b: &[u8]) -> R {
    let mut any = false;
    for der in [false, true] {
        // element boundaries
        let mut want: Vec<(usize, usize, usize, usize)> = vec![];
        let mut p = 0;
        let mut err = false;
        while p < b.len() {
            match spec::tlv(&b[p..], der) {
                Ok(t) => {
                    want.push((p, p + t.c0, p + t.c1, p + t.total));
                    p += t.total;
                }
                Err(_) => {
                    err = true;
                    break;
                }
            }
        }
        let mut got = vec![];
        let mut gerr = false;
        macro_rules! run {
            ($m:ty) => {{
                let mut it = AnyIterator::<$m>::new(Input::from(b));
                for _ in 0..100_000 {
                    match it.next() {
                        Some(Ok((_, a))) => {
                            let s = a.data.span();
                            let h = a.header.raw_header().map(|h| h.span());
                            got.push((h.as_ref().map(|h| h.start).unwrap_or(usize::MAX), s.start, s.end));
                            ensure!(h.is_some_and(|h| h.end == s.start), "AnyIterator: header and content of element {} are not adjacent", got.len());
                            ensure!(a.data.as_bytes2() == &b[s.start..s.end], "AnyIterator: content of element {} is not at {s:?}", got.len());
                        }
                        Some(Err(_)) => {
                            gerr = true;
                            break;
                        }
                        None => break,
                    }
                }
                ensure!(it.next().is_none() && it.next().is_none(), "AnyIterator continues after its end");
                let r = AnyIterator::<$m>::new(Input::from(b)).try_collect::<Vec<Any>>();
                ensure!(r.is_ok() == !err, "AnyIterator::try_collect: {:?}, expected error: {err}", r.is_ok());
                if let Ok((r, v)) = r {
                    ensure!(v.len() == want.len(), "AnyIterator::try_collect: {} elements, expected {}", v.len(), want.len());
                    ensure!(r.span().start == b.len() && r.is_empty(), "AnyIterator::try_collect: remaining input at {:?}", r.span());
                    for (a, w) in v.iter().zip(&want) {
                        ensure!(a.data.span().start == w.1 && a.data.span().end == w.2, "AnyIterator::try_collect: element at {:?}, expected {w:?}", a.data.span());
                    }
                }
            }};
        }
        if der {
            run!(DerMode)
        } else {
            run!(BerMode)
        }
        let w: Vec<_> = want.iter().map(|w| (w.0, w.1, w.2)).collect();
        ensure!(got == w && gerr == err, "AnyIterator (DER {der}): elements {got:?} (error: {gerr}), expected {w:?} (error: {err})");
        any |= !want.is_empty();
        // AnySequence, AnySet, Any::iter_elements
        let obj = spec::tlv(b, der);
        macro_rules! inner {
            ($r:expr, $tag:expr, $name:expr, $f:expr, $ord:expr) => {
                match (&obj, $r) {
                    (Ok(t), _) if t.h.class != 0 => {}
                    (Ok(t), Some((n, mut v))) => {
                        ensure!(t.h.tag == $tag && t.h.cons && n == t.total, "{} accepts {} ({n} octets)", $name, hex(b));
                        let Some(s) = spec::split(&b[t.c0..t.c1], der) else { return Err(format!("{} accepts a malformed element", $name)) };
                        let mut s: Vec<(u8, bool, u32, Vec<u8>)> = s.iter().map(|(x, o)| (x.h.class, x.h.cons, x.h.tag, o[x.c0..x.c1].to_vec())).collect();
                        if !$ord {
                            // a set of equal elements holds one of them
                            v.sort();
                            v.dedup();
                            s.sort();
                            s.dedup();
                        }
                        ensure!(v == s, "{}: elements {v:x?}, expected {s:x?}", $name);
                    }
                    (Ok(t), None) => ensure!(t.h.tag != $tag || !t.h.cons || spec::split(&b[t.c0..t.c1], der).is_none(), "{} refuses {}", $name, hex(b)),
                    (Err(_), Some(_)) => return Err(format!("{} accepts a malformed object", $name)),
                    (Err(_), None) => {}
                }
            };
        }
        fn abs<'a, 'b: 'a>(it: impl Iterator<Item = &'a Any<'b>>) -> Vec<(u8, bool, u32, Vec<u8>)> {
            it.map(|a| (a.header.class() as u8, a.header.constructed(), a.header.tag().0, a.data.as_bytes2().to_vec())).collect()
        }
        let i = Input::from(b);
        let r = if der { AnySequence::parse_der(i).ok() } else { AnySequence::parse_ber(i).ok() };
        inner!(r.as_ref().map(|(r, v)| (b.len() - r.len(), abs(v.iter()))), 16, "AnySequence", f, true);
        if let Some((_, v)) = &r {
            ensure!(v.is_empty() == (v.len() == 0) && v.iter().count() == v.len(), "AnySequence::len");
            if let (Ok(x), Ok(y)) = (v.iter().map(|t| t.to_ber_vec()).collect::<std::result::Result<Vec<_>, _>>(), v.iter().map(|t| t.to_der_vec()).collect::<std::result::Result<Vec<_>, _>>()) {
                any |= check_back(v, 16, x, y, true, "AnySequence")?;
            }
        }
        let i = Input::from(b);
        let r = if der { AnySet::<std::collections::hash_map::RandomState>::parse_der(i).ok() } else { AnySet::parse_ber(i).ok() };
        // header equality ignores the length octets
        inner!(r.as_ref().map(|(r, v)| (b.len() - r.len(), abs(v.iter()))), 17, "AnySet", f, false);
        if let Some((_, v)) = &r {
            if let (Ok(x), Ok(y)) = (v.iter().map(|t| t.to_ber_vec()).collect::<std::result::Result<Vec<_>, _>>(), v.iter().map(|t| t.to_der_vec()).collect::<std::result::Result<Vec<_>, _>>()) {
                any |= check_back(v, 17, x, y, false, "AnySet")?;
            }
        }
        if let Ok(t) = &obj {
            let (_, a) = if der { Any::parse_der(Input::from(b)) } else { Any::parse_ber(Input::from(b)) }.map_err(|_| "Any refuses an object".to_string())?;
            for m in [false, true] {
                let s = spec::split(&b[t.c0..t.c1], m);
                let got = if m { a.iter_elements::<DerMode>().map(|r| r.map(|x| (x.1.data.span().start, x.1.data.span().end))).collect::<std::result::Result<Vec<_>, _>>().ok() } else { a.iter_elements::<BerMode>().map(|r| r.map(|x| (x.1.data.span().start, x.1.data.span().end))).collect::<std::result::Result<Vec<_>, _>>().ok() };
                let mut p = t.c0;
                let want = s.map(|s| {
                    s.iter()
                        .map(|(x, _)| {
                            let r = (p + x.c0, p + x.c1);
                            p += x.total;
                            r
                        })
                        .collect::<Vec<_>>()
                });
                ensure!(got == want, "Any::iter_elements (DER {m}): {got:?}, expected {want:?}");
            }
        }
    }
    Ok(any)
}

fn tuples(b: &[u8]) -> R {
    macro_rules! tup {
        ($t:ty, [$($x:ty),*], $n:expr) => {{
            let leaves: Vec<Leaf> = vec![$(leaf!($x, &[0])),*];
            for der in [false, true] {
                let i = Input::from(b);
                let got = if der { <$t as DerParser>::parse_der(i).ok() } else { <$t as BerParser>::parse_ber(i).ok() };
                let got = got.map(|(r, v)| (b.len() - r.len(), strip_span(&dbg_of(&v))));
                let want = match spec::tlv(b, der) {
                    Err(_) => None,
                    Ok(t) if t.h.class != 0 || !t.h.cons => continue,
                    Ok(t) if t.h.tag != 16 => None,
                    Ok(t) => {
                        let mut c = &b[t.c0..t.c1];
                        let mut v = vec![];
                        for l in &leaves {
                            match (l.dec)(c, der) {
                                Some((n, s)) => {
                                    v.push(s);
                                    c = &c[n..];
                                }
                                None => break,
                            }
                        }
                        if v.len() == leaves.len() {
                            Some((t.total, if v.len() == 1 { format!("({},)", v[0]) } else { format!("({})", v.join(", ")) }))
                        } else {
                            None
                        }
                    }
                };
                ensure!(got == want, "{} (DER {der}): expected {want:?}, got {got:?}", $n);
            }
        }};
    }
    tup!((bool,), [bool], "(bool,)");
    tup!((u16, bool), [u16, bool], "(u16, bool)");
    tup!((bool, i64, OctetString), [bool, i64, OctetString], "(bool, i64, OctetString)");
    tup!((i64, i64, i64, i64), [i64, i64, i64, i64], "(i64 x 4)");
    tup!((i64, Option<bool>, i64), [i64, Option<bool>, i64], "(i64, Option<bool>, i64)");
    tup!((i64, bool, i64, (), i64, bool, i64, (), i64, bool, i64), [i64, bool, i64, (), i64, bool, i64, (), i64, bool, i64], "(11)");
    Ok(true)
}

fn elem(g: &mut G, tag: u32) -> Vec<u8> {
    let e = match tag {
        16 => {
            let n = g.rng.below(3);
            let mut c = vec![];
            for _ in 0..n {
                c.extend(spec::enc_i128(g.rng.below(256) as i128));
            }
            spec::cons(16, &c)
        }
        17 => {
            let n = g.rng.below(3);
            let mut c = vec![];
            for _ in 0..n {
                c.extend(spec::enc_i128(g.rng.u64() as i32 as i128));
            }
            spec::cons(17, &c)
        }
        _ => rand_der(&mut g.rng, tag),
    };
    if g.rng.chance(1, 25) {
        mutate(&mut g.rng, &e)
    } else if g.rng.chance(1, 25) && (tag == 16 || tag == 17 || tag == 4 || tag == 12) {
        match spec::tlv_der(&e) {
            Ok(t) => {
                let inner = if tag == 4 || tag == 12 { spec::prim(4, &e[t.c0..t.c1]) } else { e[t.c0..t.c1].to_vec() };
                [&[tag as u8 | 0x20, 0x80][..], &inner, &[0, 0]].concat()
            }
            Err(_) => e,
        }
    } else {
        e
    }
}

fn gen_cont(g: &mut G) {
    for l in 0..=2 {
        g.all(l);
    }
    let tags: Vec<u32> = ELS.with(|e| e.iter().map(|e| e.tag).collect());
    for k in 0..g.n(170) {
        for &t in &tags {
            let n = g.rng.pick(&[0usize, 1, 1, 2, 2, 3, 3, 4, 6, 11, 40]);
            let mut parts: Vec<Vec<u8>> = vec![];
            for i in 0..n {
                let t = if g.rng.chance(1, 30) { g.rng.pick(&[1u32, 2, 3, 4, 5, 12, 16]) } else { t };
                let mut e = if i > 0 && g.rng.chance(1, 6) { Vec::clone(&parts[i - 1]) } else { elem(g, t) };
                if g.rng.chance(1, 60) {
                    let j = g.rng.below(e.len());
                    e.truncate(j);
                }
                parts.push(e);
            }
            let c = parts.concat();
            g.case(&c);
            let ct = g.rng.pick(&[16u32, 17]);
            let mut b = match g.rng.below(6) {
                0 => [&[ct as u8 | 0x20, 0x80][..], &c, &[0, 0]].concat(),
                1 => [&[ct as u8 | 0x20, 0x80][..], &c].concat(),
                2 => enc_loose(&mut g.rng, 0, true, ct, &c),
                3 if k % 8 == 0 => spec::prim(ct, &c),
                _ => spec::cons(ct, &c),
            };
            if g.rng.chance(1, 6) {
                b.extend([2, 1, 9]);
            }
            if g.rng.chance(1, 8) {
                b = mutate(&mut g.rng, &b);
            }
            g.case(&b);
        }
        // heterogeneous, for tuples and Any elements
        let n = g.rng.below(5);
        let mut c = vec![];
        for _ in 0..n {
            c.extend(rand_tlv(&mut g.rng, 2));
        }
        g.case(&c);
        let ct = g.rng.pick(&[16u32, 17]);
        g.case(&spec::cons(ct, &c));
        for ts in [&[2u32, 1][..], &[1, 2, 4], &[2, 2, 2, 2], &[2, 1, 2], &[2, 2], &[2, 1, 2, 5, 2, 1, 2, 5, 2, 1, 2], &[1]] {
            let mut c = vec![];
            for &t in ts {
                c.extend(if t == 2 && k % 2 == 0 { spec::enc_i128(g.rng.below(300) as i128) } else { elem(g, t) });
            }
            if g.rng.chance(1, 8) {
                c.extend([5, 0]);
            }
            let b = spec::cons(16, &c);
            g.case(&b);
            if g.rng.chance(1, 8) {
                g.case(&spec::cons(17, &c));
                g.case(&[&[0x30, 0x80][..], &c, &[0, 0, 7]].concat());
                let m = mutate(&mut g.rng, &b);
                g.case(&m);
            }
        }
    }
}

/// run every decoder (P07)
pub fn touch(b: &[u8]) {
    ELS.with(|es| {
        for e in es {
            for (_, _, f) in &e.its {
                let _ = f(b);
            }
            for (_, _, f) in &e.all {
                let _ = f(b);
            }
            for (_, _, _, _, f) in &e.boxes {
                let _ = f(b);
            }
            for (_, f) in &e.back {
                let _ = (f(b, false).is_ok(), f(b, true).is_ok());
            }
        }
    });
    let _ = (any_elements(b).is_ok(), tuples(b).is_ok());
}

pub fn kinds(v: &mut Vec<Kind>) {
    kind!(v, "P16", "container", "13 element types x about 60 container and iterator interfaces, tuples of 1 to 11, Any elements: all inputs of <= 2 octets, seeded lists of 0 to 40 elements with damaged, foreign, repeated and indefinite-length elements, both as content and as object", container, gen_cont);
}
