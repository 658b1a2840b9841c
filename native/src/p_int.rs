//! P04 integer decoding, P05 integer encoding
use crate::run::{Kind, G, R};
use crate::spec::{self, hex};
use crate::util::*;
use asn1_rs::nom::Input as _;
use asn1_rs::*;
use std::convert::TryFrom;

macro_rules! for_int {
    ($m:ident) => {
        $m!(i8, as_i8, from_i8, int_i128);
        $m!(i16, as_i16, from_i16, int_i128);
        $m!(i32, as_i32, from_i32, int_i128);
        $m!(i64, as_i64, from_i64, int_i128);
        $m!(i128, as_i128, from_i128, int_i128);
        $m!(isize, as_isize, from_isize, int_i128);
        $m!(u8, as_u8, from_u8, int_u128);
        $m!(u16, as_u16, from_u16, int_u128);
        $m!(u32, as_u32, from_u32, int_u128);
        $m!(u64, as_u64, from_u64, int_u128);
        $m!(u128, as_u128, from_u128, int_u128);
        $m!(usize, as_usize, from_usize, int_u128);
    };
}

/// `b`: content octets of an INTEGER
fn int_dec(b: &[u8]) -> R {
    let v = spec::prim(2, b);
    let minimal = spec::int_is_min(b);
    let mut nt = false;
    macro_rules! one {
        ($t:ident, $as:ident, $from:ident, $val:ident) => {{
            let expect: Option<$t> = spec::$val(b).and_then(|x| $t::try_from(x).ok());
            let name = stringify!($t);
            let ber = [
                ("parse_ber", $t::parse_ber(Input::from(&v)).map(|(r, x)| (r.len(), x)).ok()),
                ("from_ber", $t::from_ber(&v).map(|(r, x)| (r.len(), x)).ok()),
                ("try_from(Any)", Any::from_ber(&v).ok().and_then(|(_, a)| $t::try_from(a).ok()).map(|x| (0, x))),
                ("Integer.as", Some(Integer::new(b).$as()).and_then(|r| r.ok()).map(|x| (0, x))),
                ("TryFrom<Integer>", $t::try_from(Integer::new(b)).ok().map(|x| (0, x))),
            ];
            for (api, r) in ber {
                match (expect, r) {
                    (Some(e), Some((n, x))) => {
                        ensure!(e == x, "{name} {api}: {x} expected {e}");
                        ensure!(n == 0, "{name} {api}: {n} octets left");
                        nt = true;
                    }
                    // redundant leading octets: may be rejected
                    (Some(e), None) => ensure!(!minimal, "{name} {api}: rejected value {e}"),
                    (None, Some((_, x))) => return Err(format!("{name} {api}: accepted as {x}, value does not fit")),
                    (None, None) => {}
                }
            }
            let der = [
                ("parse_der", $t::parse_der(Input::from(&v)).map(|(r, x)| (r.len(), x)).ok()),
                ("from_der", $t::from_der(&v).map(|(r, x)| (r.len(), x)).ok()),
            ];
            for (api, r) in der {
                match (expect, r) {
                    (Some(e), Some((n, x))) => {
                        ensure!(minimal, "{name} {api}: redundant leading octets accepted");
                        ensure!(e == x && n == 0, "{name} {api}: {x} expected {e}");
                    }
                    (Some(e), None) => ensure!(!minimal, "{name} {api}: rejected value {e}"),
                    (None, Some((_, x))) => return Err(format!("{name} {api}: accepted as {x}, value does not fit")),
                    (None, None) => {}
                }
            }
            // constructed encodings are rejected
            let mut c = v.clone();
            c[0] |= 0x20;
            ensure!($t::parse_ber(Input::from(&c)).is_err() && $t::from_ber(&c).is_err(), "{name}: constructed accepted");
            ensure!($t::parse_der(Input::from(&c)).is_err() && $t::from_der(&c).is_err(), "{name}: constructed accepted (DER)");
        }};
    }
    for_int!(one);
    // arbitrary precision
    if b.is_empty() {
        ensure!(Integer::parse_ber(Input::from(&v)).is_err() && Integer::from_ber(&v).is_err(), "empty INTEGER accepted");
        ensure!(Integer::parse_der(Input::from(&v)).is_err() && Integer::from_der(&v).is_err(), "empty INTEGER accepted (DER)");
    } else {
        for (api, r) in [("parse_ber", Integer::parse_ber(Input::from(&v)).ok().map(|x| x.1)), ("from_ber", Integer::from_ber(&v).ok().map(|x| x.1))] {
            let i = r.ok_or(format!("Integer {api}: rejected"))?;
            ensure!(i.as_ref() == b, "Integer {api}: octets {}", hex(i.as_ref()));
            ensure!(i.as_raw_slice() == Some(b), "as_raw_slice");
            check_big(&i, b)?;
        }
        for (api, r) in [("parse_der", Integer::parse_der(Input::from(&v)).ok().map(|x| x.1)), ("from_der", Integer::from_der(&v).ok().map(|x| x.1))] {
            ensure!(r.is_some() == minimal, "Integer {api}: accepted={} minimal={minimal}", r.is_some());
            if let Some(i) = r {
                ensure!(i.as_ref() == b, "Integer {api}: octets");
            }
        }
        nt = true;
    }
    Ok(nt)
}

fn check_big(i: &Integer, b: &[u8]) -> std::result::Result<(), String> {
    // reference: schoolbook evaluation through decimal-free comparison of magnitude octets
    let neg = b[0] >= 0x80;
    let big = i.as_bigint();
    let mut mag: Vec<u8> = b.to_vec();
    if neg {
        // two's complement negate
        for x in mag.iter_mut() {
            *x = !*x;
        }
        for x in mag.iter_mut().rev() {
            let (y, c) = x.overflowing_add(1);
            *x = y;
            if !c {
                break;
            }
        }
    }
    while mag.len() > 1 && mag[0] == 0 {
        mag.remove(0);
    }
    let (sign, m) = big.to_bytes_be();
    ensure!(m == mag, "as_bigint magnitude {} expected {}", hex(&m), hex(&mag));
    let zero = mag == [0];
    let es = if zero { Sign::NoSign } else if neg { Sign::Minus } else { Sign::Plus };
    ensure!(sign == es, "as_bigint sign");
    match i.as_biguint() {
        Ok(u) => {
            ensure!(!neg, "as_biguint accepted a negative value");
            ensure!(u.to_bytes_be() == mag, "as_biguint value");
        }
        Err(_) => ensure!(neg, "as_biguint rejected a non-negative value"),
    }
    Ok(())
}

fn gen_dec(g: &mut G) {
    g.all(0);
    g.all(1);
    g.all(2);
    let a = [0x00, 0x01, 0x7f, 0x80, 0x81, 0xfe, 0xff];
    for l in 3..=if g.thorough { 6 } else { 5 } {
        g.words(&a, l);
    }
    for l in 6..=19 {
        for first in a {
            for second in a {
                for fill in [0x00, 0x55, 0xff, 0x80, 0x7f] {
                    let mut v = vec![fill; l];
                    v[0] = first;
                    v[1] = second;
                    g.case(&v);
                    for z in 2..l {
                        // z leading copies of first
                        let mut v = vec![fill; l];
                        for x in v.iter_mut().take(z) {
                            *x = first;
                        }
                        g.case(&v);
                        v[z] = second;
                        g.case(&v);
                    }
                }
            }
        }
    }
    for _ in 0..g.n(20_000) {
        let n = 1 + g.rng.below(20);
        let v = g.rng.bytes(n);
        g.case(&v);
    }
}

/// content = 16 octets (i128 / u128 value)
fn int_enc(b: &[u8]) -> R {
    if b.len() != 16 {
        return Ok(false);
    }
    let i = i128::from_be_bytes(b.try_into().unwrap());
    let u = u128::from_be_bytes(b.try_into().unwrap());
    macro_rules! one {
        (IMPL $t:ident, $as:ident, $from:ident, $v:expr, $e:expr) => {{
            if let Ok(x) = $t::try_from($v) {
                let name = stringify!($t);
                let c: Vec<u8> = $e;
                let expect = spec::prim(2, &c);
                for (api, r) in [
                    ("to_ber_vec", x.to_ber_vec()),
                    ("to_der_vec", x.to_der_vec()),
                    ("Integer::to_ber_vec", Integer::from(x).to_ber_vec()),
                    ("Integer::to_der_vec", Integer::$from(x).to_der_vec()),
                    ("&T", ToDer::to_der_vec(&&x)),
                ] {
                    let v = r.map_err(|e| format!("{name} {api}: {e:?}"))?;
                    ensure!(v == expect, "{name} {x} {api}: {} expected {}", hex(&v), hex(&expect));
                }
                ensure!(x.ber_content_len() == Length::Definite(c.len()) && x.der_content_len() == Length::Definite(c.len()), "{name} content_len");
                ensure!(x.ber_total_len() == Length::Definite(expect.len()) && x.der_total_len() == Length::Definite(expect.len()), "{name} total_len");
                ensure!(Integer::from(x).as_ref() == &c[..], "Integer::from({name} {x})");
                ensure!(Integer::from(x).$as() == Ok(x), "{name} {x}: Integer round trip");
                ensure!(Integer::from(x).as_bigint() == BigInt::from(x), "{name} {x}: bigint");
                ensure!($t::from_der(&expect).map(|r| r.1) == Ok(x), "{name} {x}: from_der round trip");
                ensure!($t::parse_der(Input::from(&expect)).map(|r| r.1).ok() == Some(x), "{name} {x}: parse_der round trip");
                ensure!($t::parse_ber(Input::from(&expect)).map(|r| r.1).ok() == Some(x), "{name} {x}: parse_ber round trip");
            }
        }};
        (i8, $as:ident, $from:ident, $val:ident) => { one!(IMPL i8, $as, $from, i, spec::enc_i128(i)) };
        (i16, $as:ident, $from:ident, $val:ident) => { one!(IMPL i16, $as, $from, i, spec::enc_i128(i)) };
        (i32, $as:ident, $from:ident, $val:ident) => { one!(IMPL i32, $as, $from, i, spec::enc_i128(i)) };
        (i64, $as:ident, $from:ident, $val:ident) => { one!(IMPL i64, $as, $from, i, spec::enc_i128(i)) };
        (i128, $as:ident, $from:ident, $val:ident) => { one!(IMPL i128, $as, $from, i, spec::enc_i128(i)) };
        (isize, $as:ident, $from:ident, $val:ident) => { one!(IMPL isize, $as, $from, i, spec::enc_i128(i)) };
        ($t:ident, $as:ident, $from:ident, $val:ident) => { one!(IMPL $t, $as, $from, u, spec::enc_u128(u)) };
    }
    for_int!(one);
    Ok(true)
}

fn gen_enc(g: &mut G) {
    for v in -70_000i128..=70_000 {
        if v.abs() < 600 || v % 37 == 0 || (v & 0xff) < 2 {
            g.case(&v.to_be_bytes());
        }
    }
    for k in 0..128 {
        for d in -2i128..=2 {
            g.case(&((1u128 << k).wrapping_add(d as u128)).to_be_bytes());
            g.case(&(0u128.wrapping_sub((1u128 << k).wrapping_add(d as u128))).to_be_bytes());
        }
    }
    for _ in 0..g.n(20_000) {
        let sh = g.rng.below(128);
        let x = ((g.rng.u64() as u128) << 64) | g.rng.u64() as u128;
        g.case(&(x >> sh).to_be_bytes());
        g.case(&((x as i128) >> sh).to_be_bytes());
    }
}

/// arbitrary-length octet arrays through from_const_array, and integer macros
fn int_const(b: &[u8]) -> R {
    macro_rules! arr {
        ($($n:literal),*) => { match b.len() { $( $n => Integer::from_const_array::<$n>(b.try_into().unwrap()), )* _ => return Ok(false) } };
    }
    let i = arr!(1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 20, 32);
    let mut e = vec![0u8];
    e.extend_from_slice(b);
    let e = spec::int_min(&e).to_vec();
    ensure!(i.as_ref() == &e[..], "from_const_array({}) = {} expected {}", hex(b), hex(i.as_ref()), hex(&e));
    let v = i.to_der_vec().map_err(|e| format!("{e:?}"))?;
    ensure!(v == spec::prim(2, &e), "to_der_vec");
    let (_, j) = Integer::from_der(&v).map_err(|e| format!("{e:?}"))?;
    ensure!(j == i && j.as_biguint().ok() == Some(BigUint::from_bytes_be(b)), "round trip");
    Ok(true)
}

fn gen_const(g: &mut G) {
    g.all(1);
    g.all(2);
    let a = [0x00, 0x01, 0x7f, 0x80, 0xff];
    for l in 3..=5 {
        g.words(&a, l);
    }
    for l in [7, 8, 9, 12, 16, 17, 20, 32] {
        for z in 0..l {
            for n in a {
                for f in a {
                    let mut v = vec![f; l];
                    for x in v.iter_mut().take(z) {
                        *x = 0;
                    }
                    v[z] = n;
                    g.case(&v);
                }
            }
        }
    }
}

fn int_macro(_b: &[u8]) -> R {
    macro_rules! t {
        ($($x:literal),*) => { $( {
            let i = asn1_rs::int!($x);
            let e = spec::enc_i128($x);
            ensure!(i.as_ref() == &e[..], "int!({}) = {}", stringify!($x), hex(i.as_ref()));
        } )* };
    }
    t!(0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 8388607, 8388608, 16777216, 2147483647, 2147483648, 4294967295, 4294967296, 1099511627776, 9223372036854775807);
    Ok(true)
}

pub fn kinds(v: &mut Vec<Kind>) {
    kind!(v, "P04", "int_decode", "contents: all <=2 octets, all 3..5 over 7 boundary octets, structured 6..19 octets, seeded random", int_dec, gen_dec);
    kind!(v, "P05", "int_encode", "values: dense +-600, strided +-70000, all 2^k+-2, seeded random over 128 bits", int_enc, gen_enc);
    kind!(v, "P05", "int_from_array", "octet arrays of 13 sizes", int_const, gen_const);
    kind!(v, "P05", "int_macro", "19 literals", int_macro, |g| g.case(&[]));
}
