//! A zoo of types, each reachable through every interface: P03, P07, P08, P09, P20.
use crate::run::{Kind, G, R};
use crate::spec::{self, hex};
use crate::util::*;
use asn1_rs::*;
use std::collections::{BTreeSet, HashSet};

/// Result of one decoder on one input
#[derive(Debug, PartialEq, Clone)]
pub struct Sum {
    /// octets consumed
    pub n: usize,
    /// what was decoded
    pub dbg: String,
}
/// debug text without memory addresses and capacities
pub fn dbg_of<T: std::fmt::Debug>(v: &T) -> String {
    let t = format!("{v:?}");
    if !t.contains("addr: ") {
        return t;
    }
    let mut d = String::new();
    let mut rest = &t[..];
    while let Some(i) = rest.find("addr: ") {
        d.push_str(&rest[..i]);
        let j = rest[i..].find("bits: ").map(|j| i + j).unwrap_or(rest.len());
        rest = &rest[j..];
        if let Some(k) = rest.find(", capacity") {
            d.push_str(&rest[..k]);
            let e = rest[k..].find('}').map(|e| k + e).unwrap_or(rest.len());
            rest = &rest[e..];
        }
    }
    d.push_str(rest);
    d
}
type Out = std::result::Result<Option<Sum>, String>;

fn sum_input(b: &[u8], rem: &Input, dbg: String) -> Out {
    let r = rem.as_bytes2();
    ensure!(r.len() <= b.len(), "remaining input longer than input");
    let n = b.len() - r.len();
    ensure!(r == &b[n..], "remaining octets are not the tail of the input");
    ensure!(r.as_ptr() == b[n..].as_ptr(), "remaining octets are not part of the input");
    ensure!(rem.span().start == n && rem.span().end == b.len(), "remaining input reports span {:?}, expected {}..{}", rem.span(), n, b.len());
    Ok(Some(Sum { n, dbg }))
}
fn sum_slice(b: &[u8], r: &[u8], dbg: String) -> Out {
    ensure!(r.len() <= b.len(), "remaining input longer than input");
    let n = b.len() - r.len();
    ensure!(r == &b[n..], "remaining octets are not the tail of the input");
    ensure!(r.as_ptr() == b[n..].as_ptr(), "remaining octets are not part of the input");
    Ok(Some(Sum { n, dbg }))
}

pub struct Enc {
    pub content: Length,
    pub total: Length,
    pub ber: std::result::Result<Vec<u8>, String>,
    pub der: std::result::Result<Vec<u8>, String>,
}

pub struct Ty {
    pub name: &'static str,
    pub parse_ber: fn(&[u8]) -> Out,
    pub from_ber: fn(&[u8]) -> Out,
    pub parse_der: fn(&[u8]) -> Out,
    pub from_der: fn(&[u8]) -> Out,
    /// decode (BER if false) then check predicted lengths and writers
    pub enc: Option<fn(&[u8], bool) -> std::result::Result<Option<Enc>, String>>,
    pub stat: Option<fn(&[u8], bool) -> R>,
    /// None/Some decoders (parse_ber_optional, parse_der_optional, Option<T>)
    pub look: fn(&[u8]),
    /// DER contents rule on an accepted object (header, content)
    pub strict: fn(&[u8]) -> bool,
    /// DER re-encoding gives the same octets
    pub reenc: bool,
    pub tag: u32,
    pub cons: bool,
    /// value may be absent (consumes nothing)
    pub opt: bool,
    /// OPTIONAL: (interface, DER, same interface of the plain type, decoder)
    pub opts: Vec<(&'static str, bool, bool, fn(&[u8]) -> Out)>,
    /// encoding of `Some(v)`, `None`, references, for the value decoded from the input
    pub opt_enc: Option<fn(&[u8], bool) -> R>,
    /// accept_tag
    pub acc: fn(u32) -> bool,
}

/// None writes nothing and has length 0; Some(v) is encoded as v; also through references
pub fn opt_enc_check<V: ToBer + ToDer + DynTagged>(v: V, what: &str) -> R
where
    <V as ToBer>::Encoder: asn1_rs::BerEncoder,
{
    fn outs<W: ToBer + ToDer>(w: &W) -> Vec<std::result::Result<Vec<u8>, String>> {
        let mut r = vec![];
        macro_rules! go {
            ($f:ident $($a:expr),*) => {{
                let mut o = vec![];
                let n = w.$f($($a,)* &mut o);
                r.push(match n {
                    Ok(n) if n == o.len() => Ok(o),
                    Ok(n) => Err(format!("returns {n} after {} octets", o.len())),
                    Err(_) => Err("fails".into()),
                });
            }};
        }
        go!(ber_encode);
        go!(der_encode);
        go!(write_ber);
        go!(write_der);
        go!(ber_write_content);
        go!(der_write_content);
        for c in [Class::ContextSpecific, Class::Private] {
            for t in [0u32, 40] {
                go!(ber_encode_tagged_explicit c, t);
                go!(der_encode_tagged_explicit c, t);
                go!(ber_encode_tagged_implicit c, t);
                go!(der_encode_tagged_implicit c, t);
            }
        }
        r.push(w.to_ber_vec().map_err(|_| "fails".into()));
        r.push(w.to_der_vec().map_err(|_| "fails".into()));
        r
    }
    let names = "ber_encode der_encode write_ber write_der ber_write_content der_write_content and tagged encodings";
    let a = outs(&v);
    let lens = (v.ber_content_len(), v.ber_total_len(), v.der_content_len(), v.der_total_len());
    let b = outs(&&v);
    ensure!(a == b, "{what}: encoded through a reference: {b:?}, directly: {a:?} ({names})");
    let s = Some(v);
    let b = outs(&s);
    ensure!(a == b, "{what}: Some(v) is encoded as {b:?}, v as {a:?} ({names})");
    let l = (s.ber_content_len(), s.ber_total_len(), s.der_content_len(), s.der_total_len());
    ensure!(l == lens, "{what}: lengths of Some(v) are {l:?}, of v {lens:?}");
    let b = outs(&&s);
    ensure!(a == b, "{what}: &Some(v) is encoded as {b:?}, v as {a:?} ({names})");
    let n: Option<V> = None;
    for (r, x) in [("None", outs(&n)), ("&None", outs(&&n))] {
        for o in x {
            ensure!(o.as_ref().is_ok_and(|o| o.is_empty()), "{what}: {r} is encoded as {o:?}");
        }
    }
    let z = Length::Definite(0);
    ensure!(n.ber_content_len() == z && n.ber_total_len() == z && n.der_content_len() == z && n.der_total_len() == z, "{what}: None has lengths {:?}", (n.ber_content_len(), n.ber_total_len(), n.der_content_len(), n.der_total_len()));
    Ok(true)
}
macro_rules! opt_enc_fn {
    (E $t:ty, $n:expr) => {
        Some(|b: &[u8], der: bool| {
            let v = if der { <$t as DerParser>::parse_der(Input::from(b)).ok() } else { <$t as BerParser>::parse_ber(Input::from(b)).ok() };
            match v {
                None => Ok(false),
                Some((_, v)) => opt_enc_check(v, $n),
            }
        })
    };
    ($e:ident $t:ty, $n:expr) => {
        None
    };
}
fn o_in<T: std::fmt::Debug>(b: &[u8], r: Option<(Input, Option<T>)>) -> Out {
    match r {
        Some((r, Some(v))) => sum_input(b, &r, dbg_of(&v)),
        Some((r, None)) => match sum_input(b, &r, "None".into())? {
            Some(s) if s.n == 0 => Ok(Some(s)),
            s => Err(format!("absent value consumes {} octets", s.unwrap().n)),
        },
        None => Ok(None),
    }
}
fn o_sl<T: std::fmt::Debug>(b: &[u8], r: Option<(&[u8], Option<T>)>) -> Out {
    match r {
        Some((r, Some(v))) => sum_slice(b, r, dbg_of(&v)),
        Some((r, None)) => match sum_slice(b, r, "None".into())? {
            Some(s) if s.n == 0 => Ok(Some(s)),
            s => Err(format!("absent value consumes {} octets", s.unwrap().n)),
        },
        None => Ok(None),
    }
}
macro_rules! opt_sl {
    (E $v:ident $t:ty) => {
        $v.push(("Option::from_ber", false, true, |b| o_sl(b, <Option<$t> as FromBer<Error>>::from_ber(b).ok())));
        $v.push(("Option::from_der", true, true, |b| o_sl(b, <Option<$t> as FromDer<Error>>::from_der(b).ok())));
    };
    ($e:ident $v:ident $t:ty) => {};
}
macro_rules! opt_fns {
    ($e:ident $t:ty) => {{
        let mut v: Vec<(&'static str, bool, bool, fn(&[u8]) -> Out)> = vec![
            ("Option::parse_ber", false, false, |b| o_in(b, <Option<$t> as BerParser>::parse_ber(Input::from(b)).ok())),
            ("Option::parse_der", true, false, |b| o_in(b, <Option<$t> as DerParser>::parse_der(Input::from(b)).ok())),
            ("parse_ber_optional", false, false, |b| o_in(b, <$t as BerParser>::parse_ber_optional(Input::from(b)).ok())),
            ("parse_der_optional", true, false, |b| o_in(b, <$t as DerParser>::parse_der_optional(Input::from(b)).ok())),
        ];
        opt_sl!($e v $t);
        v
    }};
}

pub struct Cnt<'a>(pub &'a mut Vec<u8>, pub usize);
impl std::io::Write for Cnt<'_> {
    /// short writes: at most `self.1` octets at a time
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// every length and writer statement of P03 about one value
pub fn enc_check<V: ToBer + ToDer + ?Sized>(v: &V, what: &str) -> std::result::Result<Enc, String> {
    fn one(
        what: &str,
        mode: &str,
        content: Length,
        total: Length,
        vec: SerializeResult<Vec<u8>>,
        wr: [(&'static str, SerializeResult<usize>, Vec<u8>); 3],
        hdr: (SerializeResult<usize>, Vec<u8>),
        cont: (SerializeResult<usize>, Vec<u8>),
    ) -> std::result::Result<std::result::Result<Vec<u8>, String>, String> {
        let vec = match vec {
            Ok(v) => v,
            Err(e) => {
                for (w, r, _) in &wr {
                    ensure!(r.is_err(), "{what} {mode}: {w} succeeds where the vector output fails ({e})");
                }
                return Ok(Err(e.to_string()));
            }
        };
        for (w, r, out) in wr {
            match r {
                Ok(n) => {
                    ensure!(out == vec, "{what} {mode}: {w} wrote {} but the vector output is {}", hex(&out), hex(&vec));
                    ensure!(n == out.len(), "{what} {mode}: {w} returned {n} after writing {} octets", out.len());
                }
                Err(e) => return Err(format!("{what} {mode}: {w} fails ({e}) where the vector output succeeds")),
            }
        }
        let (hn, h) = (hdr.0.map_err(|e| format!("{what} {mode} header: {e}"))?, hdr.1);
        let (cn, c) = (cont.0.map_err(|e| format!("{what} {mode} content: {e}"))?, cont.1);
        ensure!(hn == h.len(), "{what} {mode}: header writer returned {hn} after writing {} octets", h.len());
        ensure!(cn == c.len(), "{what} {mode}: content writer returned {cn} after writing {} octets", c.len());
        ensure!([&h[..], &c[..]].concat() == vec, "{what} {mode}: header {} + content {} is not {}", hex(&h), hex(&c), hex(&vec));
        if let Length::Definite(n) = content {
            ensure!(n == c.len(), "{what} {mode}: predicted content length {n}, written {}", c.len());
        }
        if let Length::Definite(n) = total {
            ensure!(n == vec.len(), "{what} {mode}: predicted total length {n}, written {}", vec.len());
        }
        if matches!(content, Length::Definite(_)) {
            ensure!(matches!(total, Length::Definite(_)), "{what} {mode}: total length {total:?} of a definite content");
            if !h.is_empty() {
                let p = spec::hdr(&h).map_err(|_| format!("{what} {mode}: malformed header {}", hex(&h)))?;
                ensure!(p.octets == h.len(), "{what} {mode}: malformed header {}", hex(&h));
                ensure!(p.len == Some(c.len() as u64), "{what} {mode}: header announces {:?}, content has {} octets", p.len, c.len());
            }
        }
        Ok(Ok(vec))
    }
    let (mut a, mut b, mut c, mut h, mut k) = (vec![], vec![], vec![], vec![], vec![]);
    let r1 = v.ber_encode(&mut a);
    let r2 = v.write_ber(&mut b);
    let r3 = v.ber_encode(&mut Cnt(&mut c, 3));
    let rh = v.ber_write_header(&mut h);
    let rk = v.ber_write_content(&mut k);
    let ber = one(what, "BER", v.ber_content_len(), v.ber_total_len(), v.to_ber_vec(), [("ber_encode", r1, a), ("write_ber", r2, b), ("ber_encode in short writes", r3, c)], (rh, h), (rk, k))?;
    let (mut a, mut b, mut c, mut h, mut k) = (vec![], vec![], vec![], vec![], vec![]);
    let r1 = v.der_encode(&mut a);
    let r2 = v.write_der(&mut b);
    let r3 = v.der_encode(&mut Cnt(&mut c, 3));
    let rh = v.der_write_header(&mut h);
    let rk = v.der_write_content(&mut k);
    let der = one(what, "DER", v.der_content_len(), v.der_total_len(), v.to_der_vec(), [("der_encode", r1, a), ("write_der", r2, b), ("der_encode in short writes", r3, c)], (rh, h), (rk, k))?;
    Ok(Enc { content: v.ber_content_len(), total: v.ber_total_len(), ber, der })
}

macro_rules! opt_enc {
    (E $t:ty, $n:expr) => {
        Some(|b: &[u8], der: bool| {
            let v = if der { <$t as DerParser>::parse_der(Input::from(b)).ok() } else { <$t as BerParser>::parse_ber(Input::from(b)).ok() };
            match v {
                None => Ok(None),
                Some((_, v)) => enc_check(&v, $n).map(Some),
            }
        })
    };
    ($e:ident $t:ty, $n:expr) => {
        None
    };
}
macro_rules! opt_stat {
    (S $t:ty, $n:expr) => {
        Some(|b: &[u8], der: bool| {
            let v = if der { <$t as DerParser>::parse_der(Input::from(b)).ok() } else { <$t as BerParser>::parse_ber(Input::from(b)).ok() };
            match v {
                None => Ok(false),
                Some((_, v)) => {
                    let o = v.to_static();
                    let (a, b) = (dbg_of(&v), dbg_of(&o));
                    ensure!(a == b || $n.contains("Any"), "{}: owned copy of {a} is {b}", $n);
                    ensure!(crate::zoo::same(&v, &o), "{}: owned copy {o:?} not equal to {v:?}", $n);
                    Ok(true)
                }
            }
        })
    };
    (s $t:ty, $n:expr) => {
        None
    };
}
macro_rules! slice_if {
    (P $tr:ident $f:ident $g:ident $p:ident $t:ty) => {
        |b| match <$t as $p>::$g(Input::from(b)) {
            Ok((r, v)) => sum_input(b, &r, dbg_of(&v)),
            Err(_) => Ok(None),
        }
    };
    ($e:ident $tr:ident $f:ident $g:ident $p:ident $t:ty) => {
        |b| match <$t as $tr>::$f(b) {
            Ok((r, v)) => sum_slice(b, r, dbg_of(&v)),
            Err(e) => {
                let e: Err<Error> = e;
                let _ = format!("{e} {e:?}");
                Ok(None)
            }
        }
    };
}
macro_rules! ty {
    ($v:ident, $name:expr, $t:ty, $e:ident $s:ident, $tag:expr, $cons:expr, $strict:expr, $reenc:expr) => {
        ty!($v, $name, $t, $e $s, $tag, $cons, $strict, $reenc, false)
    };
    ($v:ident, $name:expr, $t:ty, $e:ident $s:ident, $tag:expr, $cons:expr, $strict:expr, $reenc:expr, $opt:expr) => {
        $v.push(Ty {
            name: $name,
            parse_ber: |b| match <$t as BerParser>::parse_ber(Input::from(b)) {
                Ok((r, v)) => sum_input(b, &r, dbg_of(&v)),
                Err(_) => Ok(None),
            },
            from_ber: slice_if!($e FromBer from_ber parse_ber BerParser $t),
            parse_der: |b| match <$t as DerParser>::parse_der(Input::from(b)) {
                Ok((r, v)) => sum_input(b, &r, dbg_of(&v)),
                Err(_) => Ok(None),
            },
            from_der: slice_if!($e FromDer from_der parse_der DerParser $t),
            enc: opt_enc!($e $t, $name),
            stat: opt_stat!($s $t, $name),
            look: |b| {
                if let Err(e) = <$t as BerParser>::parse_ber(Input::from(b)) {
                    let _ = format!("{e} {e:?}");
                }
                if let Err(e) = <$t as DerParser>::parse_der(Input::from(b)) {
                    let _ = format!("{e} {e:?}");
                }
                let _ = <$t as BerParser>::parse_ber_optional(Input::from(b));
                let _ = <$t as DerParser>::parse_der_optional(Input::from(b));
                let _ = <Vec<$t> as BerParser>::parse_ber(Input::from(b));
                let _ = <Vec<$t> as DerParser>::parse_der(Input::from(b));
            },
            strict: $strict,
            reenc: $reenc,
            tag: $tag,
            cons: $cons,
            opt: $opt,
            opts: opt_fns!($e $t),
            opt_enc: opt_enc_fn!($e $t, $name),
            acc: |t| <$t as DynTagged>::accept_tag(Tag(t)),
        });
    };
}

/// equality of a value and its owned copy
pub fn same<A: PartialEq<B>, B>(a: &A, b: &B) -> bool {
    a == b
}

// ---- DER content rules (header octets already known to be definite)
fn st_any(_: &[u8]) -> bool {
    true
}
fn cont(b: &[u8]) -> Option<(spec::Hdr, &[u8])> {
    let t = spec::tlv_der(b).ok()?;
    Some((t.h.clone(), &b[t.c0..t.c1]))
}
fn st_bool(b: &[u8]) -> bool {
    matches!(cont(b), Some((h, c)) if !h.cons && (c == [0] || c == [0xff]))
}
fn st_int(b: &[u8]) -> bool {
    matches!(cont(b), Some((h, c)) if !h.cons && spec::int_is_min(c))
}
fn st_str(b: &[u8]) -> bool {
    matches!(cont(b), Some((h, _)) if !h.cons)
}
fn st_bits(b: &[u8]) -> bool {
    match cont(b) {
        Some((h, c)) => !h.cons && !c.is_empty() && c[0] < 8 && (c[0] == 0 || c.len() > 1 && c[c.len() - 1] & ((1u8 << c[0]) - 1) == 0),
        None => false,
    }
}
fn st_of(b: &[u8], f: fn(&[u8]) -> bool) -> bool {
    match cont(b) {
        Some((h, c)) => h.cons && spec::split(c, true).is_some_and(|v| v.iter().all(|(_, x)| f(x))),
        None => false,
    }
}
fn st_first(b: &[u8], f: fn(&[u8]) -> bool) -> bool {
    match cont(b) {
        Some((_, c)) => spec::tlv_der(c).is_ok_and(|t| f(&c[..t.total])),
        None => false,
    }
}
fn st_cons(b: &[u8]) -> bool {
    matches!(cont(b), Some((h, _)) if h.cons)
}
fn st_opt(b: &[u8], tag: u32, f: fn(&[u8]) -> bool) -> bool {
    match spec::hdr(b) {
        Ok(h) if h.tag == tag => f(b),
        _ => true,
    }
}

pub fn types() -> Vec<Ty> {
    let mut v: Vec<Ty> = vec![];
    ty!(v, "bool", bool, E S, 1, false, st_bool, true);
    ty!(v, "Boolean", Boolean, E s, 1, false, st_bool, true);
    ty!(v, "()", (), E s, 5, false, st_str, true);
    ty!(v, "Null", Null, E s, 5, false, st_str, true);
    ty!(v, "u8", u8, E S, 2, false, st_int, true);
    ty!(v, "u16", u16, E S, 2, false, st_int, true);
    ty!(v, "u32", u32, E S, 2, false, st_int, true);
    ty!(v, "u64", u64, E S, 2, false, st_int, true);
    ty!(v, "u128", u128, E S, 2, false, st_int, true);
    ty!(v, "i8", i8, E S, 2, false, st_int, true);
    ty!(v, "i16", i16, E S, 2, false, st_int, true);
    ty!(v, "i32", i32, E S, 2, false, st_int, true);
    ty!(v, "i64", i64, E S, 2, false, st_int, true);
    ty!(v, "i128", i128, E S, 2, false, st_int, true);
    ty!(v, "Integer", Integer<'_>, E s, 2, false, st_int, true);
    ty!(v, "Enumerated", Enumerated, E s, 10, false, st_str, false);
    ty!(v, "BitString", BitString, E s, 3, false, st_bits, true);
    ty!(v, "OctetString", OctetString<'_>, E s, 4, false, st_str, true);
    ty!(v, "&[u8]", &'_ [u8], E s, 4, false, st_str, true);
    ty!(v, "Oid", Oid<'_>, E s, 6, false, st_str, true);
    ty!(v, "Real", Real, E s, 9, false, st_str, false);
    ty!(v, "f32", f32, E s, 9, false, st_str, false);
    ty!(v, "f64", f64, E s, 9, false, st_str, false);
    ty!(v, "NumericString", NumericString<'_>, E s, 18, false, st_str, true);
    ty!(v, "PrintableString", PrintableString<'_>, E s, 19, false, st_str, true);
    ty!(v, "TeletexString", TeletexString<'_>, E s, 20, false, st_str, true);
    ty!(v, "VideotexString", VideotexString<'_>, E s, 21, false, st_str, true);
    ty!(v, "Ia5String", Ia5String<'_>, E s, 22, false, st_str, true);
    ty!(v, "GraphicString", GraphicString<'_>, E s, 25, false, st_str, true);
    ty!(v, "VisibleString", VisibleString<'_>, E s, 26, false, st_str, true);
    ty!(v, "GeneralString", GeneralString<'_>, E s, 27, false, st_str, true);
    ty!(v, "ObjectDescriptor", ObjectDescriptor<'_>, E s, 7, false, st_str, true);
    ty!(v, "Utf8String", Utf8String<'_>, E s, 12, false, st_str, true);
    ty!(v, "BmpString", BmpString<'_>, E s, 30, false, st_str, true);
    ty!(v, "UniversalString", UniversalString<'_>, E s, 28, false, st_str, true);
    ty!(v, "String", String, E S, 12, false, st_str, true);
    ty!(v, "&str", &'_ str, E s, 12, false, st_str, true);
    ty!(v, "UtcTime", UtcTime, E s, 23, false, st_str, false);
    ty!(v, "GeneralizedTime", GeneralizedTime, E s, 24, false, st_str, false);
    ty!(v, "EmbeddedPdv", EmbeddedPdv<'_>, e s, 11, true, st_any, false);
    ty!(v, "Any", Any<'_>, E s, 0, false, st_any, true);
    ty!(v, "Sequence", Sequence<'_>, E S, 16, true, st_cons, true);
    ty!(v, "Set", Set<'_>, E s, 17, true, st_cons, true);
    ty!(v, "Vec<bool>", Vec<bool>, E S, 16, true, |b| st_of(b, st_bool), true);
    ty!(v, "Vec<u32>", Vec<u32>, E S, 16, true, |b| st_of(b, st_int), true);
    ty!(v, "Vec<Integer>", Vec<Integer<'_>>, E s, 16, true, |b| st_of(b, st_int), true);
    ty!(v, "Vec<BitString>", Vec<BitString>, E s, 16, true, |b| st_of(b, st_bits), true);
    ty!(v, "Vec<OctetString>", Vec<OctetString<'_>>, E s, 16, true, |b| st_of(b, st_str), true);
    ty!(v, "Vec<Any>", Vec<Any<'_>>, E s, 16, true, |b| st_of(b, st_any), true);
    ty!(v, "Vec<Vec<u16>>", Vec<Vec<u16>>, E S, 16, true, |b| st_of(b, |x| st_of(x, st_int)), true);
    ty!(v, "SequenceOf<i64>", SequenceOf<i64>, E s, 16, true, |b| st_of(b, st_int), true);
    ty!(v, "SetOf<bool>", SetOf<bool>, E s, 17, true, |b| st_of(b, st_bool), true);
    ty!(v, "SetOf<Utf8String>", SetOf<Utf8String<'_>>, E s, 17, true, |b| st_of(b, st_str), true);
    ty!(v, "(bool)", (bool,), P s, 16, true, |b| st_first(b, st_bool), false);
    ty!(v, "BTreeSet<u16>", BTreeSet<u16>, E s, 17, true, |b| st_of(b, st_int), false);
    ty!(v, "HashSet<()>", HashSet<()>, E s, 17, true, |b| st_of(b, st_str), false);
    ty!(v, "(u8,bool)", (u8, bool), P s, 16, true, |b| st_first(b, st_int), false);
    v
}

// ------------------------------------------------------------------ input generators
fn contents(tag: u32, g: &mut G, n: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0xff], vec![1], vec![0x7f], vec![0x80], vec![0, 0], vec![0, 0x7f], vec![0, 0x80], vec![0xff, 0x7f], vec![0xff, 0x80], vec![0xff, 0xff], vec![0x80, 0], vec![0x80, 1], vec![7, 0x80], vec![4, 0xf8], vec![4, 0xf0], vec![8, 0], b"A".to_vec(), b"1 2".to_vec(), b"a.b".to_vec(), vec![0xc3, 0xa9], vec![0, 0x41], vec![0, 0, 0, 0x41], vec![0, 1, 0xf6, 0], vec![0xd8, 0, 0xdc, 0], vec![0x2a, 3, 4], vec![0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d], vec![0x88, 0x37], vec![0xe0], b"991231235959Z".to_vec(), b"9912312359Z".to_vec(), b"991231235959+0100".to_vec(), b"20221231235959Z".to_vec(), b"20221231235959.25Z".to_vec(), b"20221231235959.5".to_vec(), b"20221231235959,5Z".to_vec(), b"20221231235959-0130".to_vec(), vec![0x80, 0, 1], vec![0x40], vec![0x41], vec![0x42], vec![0x81, 0xff, 0, 3], b"\x0315E-1".to_vec(), vec![1; 127], vec![0x31; 128], vec![0x41; 300], vec![0; 17], vec![0x7f; 16], vec![0x7f; 8], vec![0xff; 9]];
    for _ in 0..n {
        let l = g.rng.below(9);
        v.push(g.rng.bytes(l));
    }
    for _ in 0..n {
        v.push(rand_prim_of(&mut g.rng, tag));
    }
    v
}
pub fn rand_prim_of(r: &mut crate::run::Rng, tag: u32) -> Vec<u8> {
    for _ in 0..200 {
        let (t, c) = rand_prim(r);
        if t == tag {
            return c;
        }
    }
    vec![]
}

/// a valid-looking DER element of a universal type
pub fn rand_der(r: &mut crate::run::Rng, tag: u32) -> Vec<u8> {
    let c = match tag {
        2 | 10 => spec::int_min(&{
            let n = 1 + r.below(6);
            let mut x = r.bytes(n);
            if r.chance(1, 2) {
                x[0] &= 0x7f;
            }
            x
        })
        .to_vec(),
        3 => {
            let u = r.below(8) as u8;
            let n = r.below(5);
            let mut x = r.bytes(n);
            let u = if n == 0 { 0 } else { u };
            if let Some(l) = x.last_mut() {
                *l &= !((1u16 << u) as u8).wrapping_sub(1);
            }
            x.insert(0, u);
            x
        }
        1 => vec![r.pick(&[0u8, 0xff])],
        5 => vec![],
        _ => rand_prim_of(r, tag),
    };
    spec::prim(tag, &c)
}

fn gen_zoo(g: &mut G) {
    for l in 0..=2 {
        g.all(l);
    }
    let prim: Vec<u32> = (0..=30).filter(|t| ![16, 17].contains(t)).collect();
    for &t in &prim {
        for c in contents(t, g, 12) {
            let b = spec::prim(t, &c);
            g.case(&b);
            // constructed bit, other classes
            for x in [0x20u8, 0x40, 0x80, 0xa0] {
                let mut k = b.clone();
                k[0] ^= x;
                g.case(&k);
            }
            // non-minimal length
            let mut k = spec::enc_tag(0, false, t);
            k.push(0x82);
            k.extend([(c.len() >> 8) as u8, c.len() as u8]);
            k.extend(&c);
            g.case(&k);
            // trailing data, segments, containers
            g.case(&[&b[..], &[2, 1, 5]].concat());
            g.case(&spec::cons(t, &spec::prim(4, &c)));
            g.case(&spec::cons(t, &[b.clone(), b.clone()].concat()));
            g.case(&[&spec::enc_tag(0, true, t)[..], &[0x80], &b, &[0, 0]].concat());
            for ct in [16u32, 17] {
                g.case(&spec::cons(ct, &b));
                g.case(&spec::cons(ct, &[b.clone(), b.clone()].concat()));
                g.case(&[&spec::enc_tag(0, true, ct)[..], &[0x80], &b, &b, &[0, 0], &[1]].concat());
            }
            g.case(&spec::cons(16, &spec::cons(16, &b)));
            g.case(&spec::enc(2, true, 0, &b));
            g.case(&spec::enc(2, false, 0, &c));
            g.case(&spec::enc(2, true, 1, &b));
        }
    }
    for _ in 0..g.n(6000) {
        // lists of elements of one type, sometimes one damaged
        let t = g.rng.pick(&[1u32, 2, 2, 3, 4, 5, 12, 16, 6, 23, 24, 30]);
        let n = g.rng.below(5);
        let mut c = vec![];
        for _ in 0..n {
            let mut e = if t == 16 { spec::cons(16, &rand_der(&mut g.rng, 2)) } else { rand_der(&mut g.rng, t) };
            if g.rng.chance(1, 12) {
                e = mutate(&mut g.rng, &e);
            }
            c.extend(e);
        }
        let ct = g.rng.pick(&[16u32, 17]);
        let b = if g.rng.chance(1, 4) { [&spec::enc_tag(0, true, ct)[..], &[0x80], &c, &[0, 0]].concat() } else { spec::cons(ct, &c) };
        g.case(&b);
    }
    for _ in 0..g.n(14000) {
        let b = rand_tlv(&mut g.rng, 3);
        g.case(&b);
        let m = mutate(&mut g.rng, &b);
        g.case(&m);
    }
}

// ------------------------------------------------------------------ P08
thread_local! {
    pub static TYPES: Vec<Ty> = types();
}

/// slice interfaces restart positions in nested contents
pub fn strip_span(s: &str) -> String {
    let mut d = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("span: ") {
        d.push_str(&rest[..i]);
        rest = rest[i + 6..].trim_start_matches(|c: char| c.is_ascii_digit() || c == '.');
    }
    d.push_str(rest);
    d
}
fn nospan(s: &Option<Sum>) -> Option<Sum> {
    s.as_ref().map(|s| Sum { n: s.n, dbg: strip_span(&s.dbg) })
}
pub fn out_input(b: &[u8], r: Option<(Input, String)>) -> std::result::Result<Option<(usize, String)>, String> {
    match r {
        Some((r, d)) => sum_input(b, &r, d).map(|s| s.map(|s| (s.n, s.dbg))),
        None => Ok(None),
    }
}
pub fn out_slice(b: &[u8], r: Option<(&[u8], String)>) -> std::result::Result<Option<(usize, String)>, String> {
    match r {
        Some((r, d)) => sum_slice(b, r, d).map(|s| s.map(|s| (s.n, s.dbg))),
        None => Ok(None),
    }
}

fn one_object(b: &[u8]) -> R {
    TYPES.with(|tys| {
        let mut any = false;
        for t in tys {
            let mut res: Vec<(&str, bool, Option<Sum>)> = vec![];
            for (api, der, f) in [("parse_ber", false, t.parse_ber), ("from_ber", false, t.from_ber), ("parse_der", true, t.parse_der), ("from_der", true, t.from_der)] {
                let r = f(b).map_err(|e| format!("{} {api}: {e}", t.name))?;
                if let Some(s) = &r {
                    any = true;
                    if !(t.opt && s.n == 0) {
                        let x = spec::tlv(b, der).map_err(|_| format!("{} {api}: accepted {} although there is no complete object", t.name, s.dbg))?;
                        ensure!(x.total == s.n, "{} {api}: object has {} octets, {} consumed", t.name, x.total, s.n);
                    }
                    // exact prefix
                    let p = f(&b[..s.n]).map_err(|e| format!("{} {api}: {e}", t.name))?;
                    ensure!(p.as_ref() == Some(s), "{} {api}: {s:?} with trailing octets, {p:?} without", t.name);
                    // other suffixes
                    for suf in [&[0u8, 0][..], &[0x30, 0x80, 0xff], &[0xff; 40]] {
                        let w = [&b[..s.n], suf].concat();
                        let q = f(&w).map_err(|e| format!("{} {api}: {e}", t.name))?;
                        ensure!(q.as_ref() == Some(s), "{} {api}: {s:?} alone, {q:?} followed by {}", t.name, hex(suf));
                    }
                    // proper prefixes
                    for k in 0..s.n.min(40) {
                        let q = f(&b[..k]).map_err(|e| format!("{} {api}: {e}", t.name))?;
                        ensure!(q.is_none(), "{} {api}: the first {k} of {} octets are accepted as {q:?}", t.name, s.n);
                    }
                    if s.n > 40 {
                        let q = f(&b[..s.n - 1]).map_err(|e| format!("{} {api}: {e}", t.name))?;
                        ensure!(q.is_none(), "{} {api}: all but the last octet accepted as {q:?}", t.name);
                    }
                }
                res.push((api, der, r));
            }
            for der in [false, true] {
                let w: Vec<_> = res.iter().filter(|x| x.1 == der).collect();
                // known finding: ENUMERATED refused by parse_der, accepted by from_der if not minimal
                // (pinned by the existing tests); one input stands for the call site
                if t.name == "Enumerated" && der && b != [10, 2, 0, 0x7f] && w[0].2.is_none() && spec::tlv_der(b).is_ok_and(|x| !spec::int_is_min(&b[x.c0..x.c1])) {
                    continue;
                }
                ensure!(nospan(&w[0].2) == nospan(&w[1].2), "{}: {} gives {:?}, {} gives {:?}", t.name, w[0].0, w[0].2, w[1].0, w[1].2);
            }
        }
        Ok(any)
    })
}

// ------------------------------------------------------------------ P09
pub fn tree_min(b: &[u8]) -> bool {
    match spec::tlv_der(b) {
        Ok(t) => {
            let h = spec::enc(t.h.class, t.h.cons, t.h.tag, &b[t.c0..t.c1]);
            h == b[..t.total] && (!t.h.cons || spec::split(&b[t.c0..t.c1], true).is_none_or(|v| v.iter().all(|(_, x)| tree_min(x))))
        }
        Err(_) => false,
    }
}

/// typed decoders check the tag number only: re-encoding is compared for universal classes
fn tree_univ(b: &[u8]) -> bool {
    match spec::tlv_der(b) {
        Ok(t) => t.h.class == 0 && (!t.h.cons || spec::split(&b[t.c0..t.c1], true).is_none_or(|v| v.iter().all(|(_, x)| tree_univ(x)))),
        Err(_) => false,
    }
}

fn der_strict(b: &[u8]) -> R {
    TYPES.with(|tys| {
        let mut any = false;
        for t in tys {
            for (api, f, g) in [("parse_der", t.parse_der, t.parse_ber), ("from_der", t.from_der, t.from_ber)] {
                let r = f(b).map_err(|e| format!("{} {api}: {e}", t.name))?;
                let Some(s) = r else { continue };
                any = true;
                let o = g(b).map_err(|e| format!("{}: {e}", t.name))?;
                ensure!(o.as_ref() == Some(&s), "{} {api}: DER reads {s:?}, BER reads {o:?}", t.name);
                if s.n == 0 && t.opt {
                    continue;
                }
                let h = spec::hdr(b).map_err(|_| format!("{} {api}: malformed header accepted", t.name))?;
                ensure!(h.len.is_some(), "{} {api}: indefinite length accepted in DER", t.name);
                ensure!((t.strict)(&b[..s.n]), "{} {api}: non-DER content accepted: {}", t.name, s.dbg);
            }
            if t.reenc {
                if let (Some(e), Ok(Some(s))) = (t.enc, (t.parse_der)(b)) {
                    if tree_min(&b[..s.n]) && (t.name == "Any" || t.name == "Vec<Any>" && b[0] < 0x40 || (t.name == "Sequence" || t.name == "Set") && b[0] < 0x40 || tree_univ(&b[..s.n])) {
                        match e(b, true)? {
                            Some(x) => {
                                let d = x.der.map_err(|e| format!("{}: {} accepted in DER cannot be encoded: {e}", t.name, s.dbg))?;
                                ensure!(d == &b[..s.n], "{}: {} accepted in DER is encoded as {}", t.name, s.dbg, hex(&d));
                            }
                            None => {}
                        }
                    }
                }
            }
        }
        Ok(any)
    })
}

// ------------------------------------------------------------------ P03
fn lengths_decoded(b: &[u8]) -> R {
    TYPES.with(|tys| {
        let mut any = false;
        for t in tys {
            if let Some(e) = t.enc {
                for der in [false, true] {
                    any |= e(b, der)?.is_some();
                }
            }
        }
        Ok(any)
    })
}

// ------------------------------------------------------------------ P20
fn owned(b: &[u8]) -> R {
    TYPES.with(|tys| {
        let mut any = false;
        for t in tys {
            if let Some(e) = t.stat {
                for der in [false, true] {
                    any |= e(b, der)?;
                }
            }
        }
        Ok(any)
    })
}

// ------------------------------------------------------------------ P17
fn optional(b: &[u8]) -> R {
    TYPES.with(|tys| {
        let mut any = false;
        for t in tys {
            for (api, der, slice, f) in &t.opts {
                let got = f(b).map_err(|e| format!("{} {api}: {e}", t.name))?;
                let plain = match (*slice, *der) {
                    (false, false) => t.parse_ber,
                    (false, true) => t.parse_der,
                    (true, false) => t.from_ber,
                    (true, true) => t.from_der,
                };
                let want = if b.is_empty() {
                    Some(Sum { n: 0, dbg: "None".into() })
                } else {
                    match spec::hdr(b) {
                        Err(_) => None,
                        Ok(h) if *der && h.len.is_none() => None,
                        Ok(h) => {
                            let mine = t.tag == h.tag || t.name == "Any" || t.name == "EmbeddedPdv" && (t.acc)(h.tag) || t.name == "RelativeOid";
                            ensure!(mine == (t.acc)(h.tag) || matches!(t.name, "Oid"), "{}: accepts tag {}: {}", t.name, h.tag, (t.acc)(h.tag));
                            if (t.acc)(h.tag) {
                                plain(b)?
                            } else {
                                Some(Sum { n: 0, dbg: "None".into() })
                            }
                        }
                    }
                };
                ensure!(got == want, "{} {api}: expected {want:?}, got {got:?}", t.name);
                any |= got.is_some();
            }
            if let Some(e) = t.opt_enc {
                for der in [false, true] {
                    any |= e(b, der)?;
                }
            }
        }
        Ok(any)
    })
}
fn gen_opt(g: &mut G) {
    g.case(&[]);
    gen_zoo(g);
}

pub fn kinds(v: &mut Vec<Kind>) {
    kind!(v, "P17", "optional", "zoo of 60 types x Option/parse_*_optional interfaces on the inputs of one_object; encoding of Some/None/references", optional, gen_opt);
    kind!(v, "P08", "one_object", "zoo of 60 types x 4 interfaces on: all inputs of <= 2 octets, every universal primitive tag x 70 contents x class/constructed/length variants and containers, seeded lists and trees with mutations", one_object, gen_zoo);
    kind!(v, "P09", "der_strict", "same inputs as one_object", der_strict, gen_zoo);
    kind!(v, "P03", "lengths_decoded", "values decoded from the inputs of one_object", lengths_decoded, gen_zoo);
    kind!(v, "P20", "owned", "values decoded from the inputs of one_object", owned, gen_zoo);
}
