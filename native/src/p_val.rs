//! P13 times, P14 REAL
use crate::run::{Kind, G, R};
use crate::spec::{self, hex};
use asn1_rs::*;

#[derive(Clone, Debug, PartialEq)]
struct T {
    year: i64,
    mon: i64,
    day: i64,
    h: i64,
    m: i64,
    s: i64,
    ms: Option<i64>,
    /// None: local time; Some(minutes)
    tz: Option<(i64, i64, bool)>,
}

enum P {
    Yes(T),
    Maybe(T),
    No,
}

fn num(b: &[u8]) -> Option<i64> {
    if b.is_empty() || !b.iter().all(|c| c.is_ascii_digit()) {
        return None;
    }
    Some(b.iter().fold(0, |a, c| a * 10 + (c - b'0') as i64))
}

/// X.680 46/47, with the library's documented limits (at most 3 fractional digits, fraction of a second only)
fn parse(b: &[u8], gen: bool) -> P {
    let y = if gen { 4 } else { 2 };
    if b.len() < y + 8 {
        return P::No;
    }
    let f = |a: usize, n: usize| b.get(a..a + n).and_then(num);
    let (Some(year), Some(mon), Some(day), Some(h), Some(m)) = (f(0, y), f(y, 2), f(y + 2, 2), f(y + 4, 2), f(y + 6, 2)) else { return P::No };
    let mut rest = &b[y + 8..];
    let mut maybe = false;
    let mut s = 0;
    if rest.len() >= 2 && num(&rest[..2]).is_some() {
        s = num(&rest[..2]).unwrap();
        rest = &rest[2..];
    } else {
        // seconds are optional in BER; the library only supports the form with Z
        maybe = true;
    }
    let mut ms = None;
    if gen && !rest.is_empty() && (rest[0] == b'.' || rest[0] == b',') {
        let n = rest[1..].iter().take_while(|c| c.is_ascii_digit()).count();
        if n == 0 || n > 3 || maybe {
            return P::No;
        }
        let v = num(&rest[1..1 + n]).unwrap();
        ms = Some(v * [0, 100, 10, 1][n]);
        rest = &rest[1 + n..];
    }
    let tz = match rest {
        [] if gen => {
            if maybe {
                return P::No;
            }
            None
        }
        [b'Z'] => Some((0, 0, false)),
        [c @ (b'+' | b'-'), r @ ..] if r.len() == 4 => match (num(&r[..2]), num(&r[2..])) {
            (Some(a), Some(b)) => Some(if *c == b'-' { (-a, -b, true) } else { (a, b, true) }),
            _ => return P::No,
        },
        _ => return P::No,
    };
    if !(1..=12).contains(&mon) || !(1..=31).contains(&day) || h > 23 || m > 59 || s > 59 {
        return P::No;
    }
    let t = T { year, mon, day, h, m, s, ms, tz };
    if maybe {
        P::Maybe(t)
    } else {
        P::Yes(t)
    }
}

fn leap(y: i64) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
/// seconds since 1970-01-01T00:00:00Z of the date if it exists
fn instant(t: &T, year: i64) -> Option<i64> {
    let ml = [31, if leap(year) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    if t.day > ml[t.mon as usize - 1] {
        return None;
    }
    let mut days = 0i64;
    let yy = year - 1;
    // days before 1 Jan of `year`, proleptic Gregorian, from 0001-01-01
    days += yy * 365 + yy.div_euclid(4) - yy.div_euclid(100) + yy.div_euclid(400);
    for k in 0..t.mon as usize - 1 {
        days += ml[k];
    }
    days += t.day - 1;
    days -= 719162; // 1970-01-01
    let (oh, om) = t.tz.map(|z| (z.0, z.1)).unwrap_or((0, 0));
    if oh.abs() > 25 || om.abs() > 59 {
        return None;
    }
    Some(days * 86400 + t.h * 3600 + t.m * 60 + t.s - oh * 3600 - om * 60)
}

fn fields(d: &ASN1DateTime, t: &T) -> std::result::Result<(), String> {
    let got = T {
        year: d.year as i64,
        mon: d.month as i64,
        day: d.day as i64,
        h: d.hour as i64,
        m: d.minute as i64,
        s: d.second as i64,
        ms: d.millisecond.map(|x| x as i64),
        tz: match d.tz {
            ASN1TimeZone::Undefined => None,
            ASN1TimeZone::Z => Some((0, 0, false)),
            // (-h, m): the sign of the hour applies to the minutes (constructor convention of the parser)
            ASN1TimeZone::Offset(h, m) => Some((h as i64, if h < 0 { -(m as i64).abs() } else { m as i64 }, true)),
        },
    };
    ensure!(&got == t, "fields {d:?} expected {t:?}");
    Ok(())
}

macro_rules! ifaces {
    ($t:ty, $b:expr) => {
        [
            ("parse_ber", false, <$t as BerParser>::parse_ber(Input::from($b)).ok().map(|x| x.1)),
            ("from_ber", false, <$t as FromBer>::from_ber($b).ok().map(|x| x.1)),
            ("parse_der", true, <$t as DerParser>::parse_der(Input::from($b)).ok().map(|x| x.1)),
            ("from_der", true, <$t as FromDer>::from_der($b).ok().map(|x| x.1)),
        ]
    };
}

fn offset_text(t: &T) -> String {
    match t.tz {
        None => "".into(),
        Some((_, _, false)) => "Z".into(),
        Some((a, b, _)) => format!("{}{:02}{:02}", if a < 0 || b < 0 { '-' } else { '+' }, a.abs(), b.abs()),
    }
}

fn gentime(c: &[u8]) -> R {
    let b = spec::prim(24, c);
    let p = parse(c, true);
    let direct = GeneralizedTime::from_bytes(c).ok();
    let mut nt = false;
    for (api, der, r) in ifaces!(GeneralizedTime, &b).into_iter().chain([("from_bytes", false, direct)]) {
        let der_ok = c.last() == Some(&b'Z') && !c.contains(&b',');
        match &p {
            P::No => ensure!(r.is_none(), "{api}: invalid time accepted as {:?}", r.unwrap()),
            P::Yes(_) if !der || der_ok => ensure!(r.is_some(), "{api}: valid time refused"),
            _ => {}
        }
        if der && !der_ok {
            ensure!(r.is_none(), "{api}: not in DER form but accepted");
        }
        if let (Some(x), P::Yes(t) | P::Maybe(t)) = (r, &p) {
            nt = true;
            fields(&x.0, t)?;
            let want = instant(t, t.year);
            match (x.utc_datetime(), want) {
                (Ok(d), Some(w)) => {
                    ensure!(d.unix_timestamp() == w, "{api}: instant {} expected {w}", d.unix_timestamp());
                    ensure!(d.millisecond() as i64 == t.ms.unwrap_or(0), "{api}: milliseconds {}", d.millisecond());
                }
                (Err(_), None) => {}
                (Ok(d), None) => return Err(format!("{api}: impossible date reported as {d}")),
                (Err(e), Some(w)) => return Err(format!("{api}: instant {w} refused: {e}")),
            }
            let ms = t.ms.map(|m| format!(".{m:03}")).unwrap_or_default();
            let disp = format!("{:04}-{:02}-{:02} {:02}:{:02}:{:02}{ms}{}", t.year, t.mon, t.day, t.h, t.m, t.s, offset_text(t));
            ensure!(x.to_string() == disp, "{api}: displayed as {x} expected {disp}");
            if t.tz.map(|z| !z.2).unwrap_or(false) {
                enc_gen(&x)?;
            }
        }
    }
    // constructed encodings are refused
    let mut k = b.clone();
    k[0] |= 0x20;
    ensure!(GeneralizedTime::parse_ber(Input::from(&k)).is_err() && GeneralizedTime::from_der(&k).is_err(), "constructed accepted");
    Ok(nt)
}

fn enc_gen(x: &GeneralizedTime) -> std::result::Result<(), String> {
    let d = &x.0;
    let e = x.to_der_vec().map_err(|e| e.to_string())?;
    let mut txt = format!("{:04}{:02}{:02}{:02}{:02}{:02}", d.year, d.month, d.day, d.hour, d.minute, d.second);
    match d.millisecond {
        None | Some(0) => {}
        Some(v) => {
            let f = format!("{v:03}");
            txt.push('.');
            txt.push_str(f.trim_end_matches('0'));
        }
    }
    txt.push('Z');
    let want = spec::prim(24, txt.as_bytes());
    ensure!(e == want, "GeneralizedTime encoded as {:?} expected {txt}", String::from_utf8_lossy(&e));
    let mut v = vec![];
    let n = x.write_ber(&mut v).map_err(|e| e.to_string())?;
    ensure!(v == want && n == v.len(), "writer");
    let (_, y) = GeneralizedTime::from_der(&e).map_err(|e| format!("{e}"))?;
    let ms = |m: Option<u16>| m.unwrap_or(0);
    ensure!(
        (y.0.year, y.0.month, y.0.day, y.0.hour, y.0.minute, y.0.second, ms(y.0.millisecond), y.0.tz) == (d.year, d.month, d.day, d.hour, d.minute, d.second, ms(d.millisecond), ASN1TimeZone::Z),
        "decode(encode) = {y:?}, encoded {x:?}"
    );
    Ok(())
}

fn utctime(c: &[u8]) -> R {
    let b = spec::prim(23, c);
    let p = parse(c, false);
    let direct = UtcTime::from_bytes(c).ok();
    let mut nt = false;
    for (api, _der, r) in ifaces!(UtcTime, &b).into_iter().chain([("from_bytes", false, direct)]) {
        match &p {
            P::No => ensure!(r.is_none(), "{api}: invalid time accepted as {:?}", r.unwrap()),
            P::Yes(_) => ensure!(r.is_some(), "{api}: valid time refused"),
            _ => {}
        }
        if let (Some(x), P::Yes(t) | P::Maybe(t)) = (r, &p) {
            nt = true;
            fields(&x.0, t)?;
            let full = if t.year >= 50 { 1900 + t.year } else { 2000 + t.year };
            for (what, got, want) in [
                ("utc_datetime", x.utc_datetime().ok().map(|d| d.unix_timestamp()), instant(t, t.year)),
                ("utc_adjusted_datetime", x.utc_adjusted_datetime().ok().map(|d| d.unix_timestamp()), instant(t, full)),
                ("timestamp", x.timestamp().ok(), instant(t, full)),
            ] {
                ensure!(got == want, "{api}: {what} {got:?} expected {want:?}");
            }
            let disp = format!("{:04}-{:02}-{:02} {:02}:{:02}:{:02}{}", t.year, t.mon, t.day, t.h, t.m, t.s, offset_text(t));
            ensure!(x.to_string() == disp, "{api}: displayed as {x} expected {disp}");
            if t.tz.map(|z| !z.2).unwrap_or(false) {
                enc_utc(&x)?;
            }
        }
    }
    let mut k = b.clone();
    k[0] |= 0x20;
    ensure!(UtcTime::parse_ber(Input::from(&k)).is_err() && UtcTime::from_der(&k).is_err(), "constructed accepted");
    Ok(nt)
}

fn enc_utc(x: &UtcTime) -> std::result::Result<(), String> {
    let d = &x.0;
    let txt = format!("{:02}{:02}{:02}{:02}{:02}{:02}Z", d.year % 100, d.month, d.day, d.hour, d.minute, d.second);
    let e = x.to_der_vec().map_err(|e| e.to_string())?;
    ensure!(e == spec::prim(23, txt.as_bytes()), "UtcTime encoded as {:?} expected {txt}", String::from_utf8_lossy(&e));
    let (_, y) = UtcTime::from_der(&e).map_err(|e| format!("{e}"))?;
    ensure!(
        (y.0.year, y.0.month, y.0.day, y.0.hour, y.0.minute, y.0.second, y.0.tz) == (d.year % 100, d.month, d.day, d.hour, d.minute, d.second, ASN1TimeZone::Z),
        "decode(encode) = {y:?}, encoded {x:?}"
    );
    Ok(())
}

fn gen_times(g: &mut G, gen: bool) {
    let pre: &[u8] = if gen { b"20" } else { b"" };
    let years: Vec<String> = if gen { ["0000", "0001", "0004", "0100", "0400", "1582", "1600", "1899", "1900", "1949", "1950", "1969", "1970", "1972", "1999", "2000", "2001", "2004", "2049", "2050", "2099", "2100", "9996", "9999"].iter().map(|s| s.to_string()).collect() } else { (0..100).map(|y| format!("{y:02}")).collect() };
    for y in &years {
        for mo in 0..=13 {
            for d in [0, 1, 2, 28, 29, 30, 31, 32] {
                g.case(format!("{y}{mo:02}{d:02}000000Z").as_bytes());
                g.case(format!("{y}{mo:02}{d:02}235959+0130").as_bytes());
            }
        }
    }
    let y4 = String::from_utf8(pre.to_vec()).unwrap() + "24";
    for h in 0..100 {
        g.case(format!("{y4}0229{h:02}3000Z").as_bytes());
        g.case(format!("{y4}022910{h:02}00Z").as_bytes());
        g.case(format!("{y4}02291030{h:02}Z").as_bytes());
        g.case(format!("{y4}{h:02}15103011Z").as_bytes());
        g.case(format!("{y4}02{h:02}103011Z").as_bytes());
        for s in ['+', '-'] {
            g.case(format!("{y4}0229103011{s}{h:02}00").as_bytes());
            g.case(format!("{y4}0229103011{s}00{h:02}").as_bytes());
            g.case(format!("{y4}0229103011{s}05{h:02}").as_bytes());
            g.case(format!("{y4}0229103011{s}{h:02}30").as_bytes());
        }
    }
    // endings
    for secs in ["", "1", "11", "111"] {
        for fr in ["", ".", ",", ".0", ",0", ".5", ",5", ".05", ".005", ".123", ".999", ".000", ".100", ".120", ".1234", ".1230", ".12345", ".-5", ".+5", ". 5", ".5.5"] {
            for tz in ["", "Z", "z", "+", "-", "+0", "+00", "+000", "+0000", "-0000", "+0130", "-0130", "-0030", "+0030", "+2359", "-2359", "+2459", "+00000", "Z0", "ZZ", "+01:30", "+01 30", "+1", "-1a00", " ", "\x7f", "*"] {
                g.case(format!("{y4}02291030{secs}{fr}{tz}").as_bytes());
            }
        }
    }
    for ms in 0..1000 {
        g.case(format!("{y4}0102030405.{ms:03}Z").as_bytes());
    }
    // every octet in every position
    let base = if gen { &b"20240229103011.25+0130"[..] } else { &b"240229103011-0130"[..] };
    for i in 0..base.len() {
        for x in 0..=255u8 {
            let mut v = base.to_vec();
            v[i] = x;
            g.case(&v);
        }
        let mut v = base.to_vec();
        v.remove(i);
        g.case(&v);
        let mut v = base.to_vec();
        v.insert(i, b'0');
        g.case(&v);
    }
    g.case(b"");
    for _ in 0..g.n(40_000) {
        let mut s = if gen { format!("{:04}", g.rng.below(10000)) } else { format!("{:02}", g.rng.below(100)) };
        s += &format!("{:02}{:02}{:02}{:02}{:02}", g.rng.below(13), g.rng.below(32), g.rng.below(25), g.rng.below(61), g.rng.below(61));
        if gen && g.rng.chance(1, 2) {
            let n = 1 + g.rng.below(4);
            s.push(if g.rng.chance(1, 4) { ',' } else { '.' });
            for _ in 0..n {
                s.push((b'0' + g.rng.below(10) as u8) as char);
            }
        }
        match g.rng.below(4) {
            0 => s.push('Z'),
            1 => {}
            _ => {
                let sg = if g.rng.chance(1, 2) { '+' } else { '-' };
                s += &format!("{sg}{:02}{:02}", g.rng.below(27), g.rng.below(62))
            }
        }
        let mut b = s.into_bytes();
        if g.rng.chance(1, 8) {
            b = crate::util::mutate(&mut g.rng, &b);
        }
        g.case(&b);
    }
}

/// values built through the API: year(2) mon day h m s ms(2) kind
fn time_build(b: &[u8]) -> R {
    if b.len() != 10 {
        return Ok(false);
    }
    let year = u16::from_be_bytes([b[0], b[1]]) as u32 % 10000;
    let ms = u16::from_be_bytes([b[7], b[8]]) % 1001;
    let ms = if ms == 1000 { None } else { Some(ms) };
    let tz = match b[9] {
        0 => ASN1TimeZone::Z,
        1 => ASN1TimeZone::Undefined,
        k => ASN1TimeZone::Offset(k as i8 / 8, 0),
    };
    let d = ASN1DateTime::new(year, 1 + b[2] % 12, 1 + b[3] % 31, b[4] % 24, b[5] % 60, b[6] % 60, ms, tz);
    if let ASN1TimeZone::Offset(..) = tz {
        // the text written must denote the same instant
        let x = GeneralizedTime::new(d.clone());
        let e = x.to_der_vec().map_err(|e| e.to_string())?;
        let (_, y) = GeneralizedTime::from_der(&e).map_err(|e| e.to_string())?;
        ensure!(y.utc_datetime().ok().map(|d| d.unix_timestamp()) == x.utc_datetime().ok().map(|d| d.unix_timestamp()), "{x:?} encoded as {:?}, another instant", String::from_utf8_lossy(&e[2..]));
        return Ok(true);
    }
    enc_gen(&GeneralizedTime::new(d.clone()))?;
    enc_utc(&UtcTime::new(d))?;
    Ok(true)
}
fn gen_time_build(g: &mut G) {
    // known finding: a time with an offset
    g.case(&[7, 0xe8, 1, 2, 3, 4, 5, 3, 0xe8, 8]);
    for ms in 0..=1000u16 {
        let m = ms.to_be_bytes();
        g.case(&[7, 0xe8, 1, 2, 3, 4, 5, m[0], m[1], 0]);
    }
    for y in 0..10000u16 {
        let m = y.to_be_bytes();
        g.case(&[m[0], m[1], (y % 12) as u8, (y % 31) as u8, (y % 24) as u8, (y % 60) as u8, (y % 59) as u8, 0, 7, 0]);
    }
    for _ in 0..g.n(3000) {
        let mut v: Vec<u8> = (0..9).map(|_| g.rng.byte()).collect();
        v.push(g.rng.below(2) as u8);
        g.case(&v);
    }
}

// ------------------------------------------------------------------ P14
/// exact value of a finite f64: (negative, odd-normalised mantissa, exponent)
fn exact(f: f64) -> (bool, u64, i64) {
    let b = f.to_bits();
    let e = ((b >> 52) & 0x7ff) as i64;
    let m = b & ((1 << 52) - 1);
    let (m, e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
    norm(b >> 63 == 1, m, e)
}
fn norm(s: bool, m: u64, e: i64) -> (bool, u64, i64) {
    if m == 0 {
        return (s, 0, 0);
    }
    let z = m.trailing_zeros();
    (s, m >> z, e + z as i64)
}
/// round to nearest even with 53 bits
fn round53(m: u64) -> (u64, i64) {
    let l = 64 - m.leading_zeros() as i64;
    if l <= 53 {
        return (m, 0);
    }
    let d = l - 53;
    let mut q = m >> d;
    let r = m & ((1 << d) - 1);
    let half = 1u64 << (d - 1);
    if r > half || (r == half && q & 1 == 1) {
        q += 1;
    }
    (q, d)
}

fn real_value(r: &Real) -> Option<(bool, u64, i64)> {
    match r {
        Real::Binary { mantissa, base: 2, exponent, .. } if mantissa.is_finite() => {
            let (s, m, e) = exact(*mantissa);
            Some(norm(s, m, e + *exponent as i64))
        }
        Real::Binary { mantissa, base, exponent, .. } if mantissa.is_finite() && base.is_power_of_two() => {
            let (s, m, e) = exact(*mantissa);
            Some(norm(s, m, e + *exponent as i64 * base.trailing_zeros() as i64))
        }
        _ => None,
    }
}

enum RV {
    Zero,
    Inf,
    NInf,
    NaN,
    Bin(bool, u64, i64),
    /// implementation limits: may be refused
    Big,
    Dec,
    No,
}
fn real_spec(c: &[u8]) -> RV {
    let Some(&f) = c.first() else { return RV::Zero };
    if f & 0x80 != 0 {
        let mut p = 1;
        let n = if f & 3 == 3 {
            let Some(&n) = c.get(1) else { return RV::No };
            p = 2;
            n as usize
        } else {
            (f & 3) as usize + 1
        };
        if n == 0 || c.len() < p + n + 1 {
            return RV::No;
        }
        let base = match f >> 4 & 3 {
            0 => 1,
            1 => 3,
            2 => 4,
            _ => return RV::No,
        };
        if n > 4 || c.len() - p - n > 8 {
            return RV::Big;
        }
        let mut e: i64 = if c[p] & 0x80 != 0 { -1 } else { 0 };
        for x in &c[p..p + n] {
            e = e << 8 | *x as i64;
        }
        let mut m: u64 = 0;
        for x in &c[p + n..] {
            m = m << 8 | *x as u64;
        }
        let e = e * base;
        if e > i32::MAX as i64 || e < i32::MIN as i64 {
            return RV::Big;
        }
        let (m, d) = round53(m);
        let (s, m, e) = norm(f & 0x40 != 0, m, d + e + (f >> 2 & 3) as i64);
        RV::Bin(s, m, e)
    } else if f & 0x40 != 0 {
        if c.len() != 1 {
            return RV::No;
        }
        match f {
            0x40 => RV::Inf,
            0x41 => RV::NInf,
            0x42 => RV::NaN,
            _ => RV::No,
        }
    } else if f & 0x3f == 0 {
        RV::No
    } else {
        RV::Dec
    }
}

fn ldexp(s: bool, m: u64, e: i64) -> f64 {
    // exact: m has at most 53 bits and the result is normal
    let l = 64 - m.leading_zeros() as i64;
    let ee = e + l - 1 + 1023;
    assert!((1..2047).contains(&ee));
    let frac = (m << (53 - l)) & ((1 << 52) - 1);
    f64::from_bits((s as u64) << 63 | (ee as u64) << 52 | frac)
}

/// m < 2^53, e >= -1074, m * 2^e < 2^1024: exact
fn ldexp_exact(s: bool, m: u64, e: i64) -> f64 {
    let mut f = m as f64;
    let mut e = e;
    while e > 0 {
        f *= 2.0;
        e -= 1;
    }
    // divisions by two of an exact multiple of 2^-1074 are exact
    while e < 0 {
        f /= 2.0;
        e += 1;
    }
    if s { -f } else { f }
}

fn real_decode(c: &[u8]) -> R {
    let b = spec::prim(9, c);
    let want = real_spec(c);
    for (api, _, r) in ifaces!(Real, &b) {
        match (&want, &r) {
            (RV::No, Some(x)) => return Err(format!("{api}: malformed REAL accepted as {x:?}")),
            (RV::Zero | RV::Inf | RV::NInf | RV::NaN | RV::Bin(..), None) => return Err(format!("{api}: valid REAL refused")),
            (RV::Zero, Some(x)) => ensure!(*x == Real::Zero && x.f64() == 0.0, "{api}: {x:?}"),
            (RV::Inf, Some(x)) => ensure!(*x == Real::Infinity && x.f64() == f64::INFINITY && x.f32() == f32::INFINITY, "{api}: {x:?}"),
            (RV::NInf, Some(x)) => ensure!(*x == Real::NegInfinity && x.f64() == f64::NEG_INFINITY, "{api}: {x:?}"),
            (RV::NaN, Some(x)) => ensure!(*x == Real::NaN && x.f64().is_nan(), "{api}: {x:?}"),
            (RV::Bin(s, m, e), Some(x)) => {
                let v = real_value(x);
                let same = v == Some((*s, *m, *e)) || (*m == 0 && matches!(v, Some((_, 0, _)))) || (*m == 0 && *x == Real::Zero);
                ensure!(same, "{api}: {x:?} expected sign {s} {m} * 2^{e}");
                if *m == 0 {
                    ensure!(x.f64() == 0.0, "{api}: zero mantissa");
                } else {
                    // every value whose nearest float is unambiguous
                    let l = 64 - m.leading_zeros() as i64;
                    let f = if e + l > 1024 {
                        Some(if *s { f64::NEG_INFINITY } else { f64::INFINITY })
                    } else if e + l <= -1076 {
                        Some(if *s { -0.0 } else { 0.0 })
                    } else if (-1000..1000).contains(&(e + l)) {
                        Some(ldexp(*s, *m, *e))
                    } else if *e >= -1074 && l <= 53 {
                        Some(ldexp_exact(*s, *m, *e))
                    } else {
                        None
                    };
                    if let Some(f) = f {
                        ensure!(x.f64() == f, "{api}: f64() {} expected {f}", x.f64());
                        ensure!(x.f32() == f as f32, "{api}: f32() {}", x.f32());
                        let y = f64::from_der(&b).map_err(|e| e.to_string())?.1;
                        let z = f64::parse_ber(Input::from(&b)).map_err(|e| e.to_string())?.1;
                        ensure!(y == f && z == f, "f64 decoded as {y}");
                        let y = f32::from_ber(&b).map_err(|e| e.to_string())?.1;
                        ensure!(y == f as f32, "f32 decoded as {y}");
                    }
                }
            }
            (RV::Dec, Some(x)) => {
                // base 10 forms: compare with the text
                let t = std::str::from_utf8(&c[1..]).map_err(|_| "not a text")?;
                let form = c[0] & 3;
                ensure!(form != 0, "{api}: reserved decimal form accepted");
                if form == 1 {
                    let v: i64 = t.parse().map_err(|_| format!("{api}: {t:?} accepted as NR1"))?;
                    if v.unsigned_abs() < 1 << 53 {
                        ensure!(x.f64() == v as f64, "{api}: {t} read as {}", x.f64());
                    }
                } else {
                    let v: f64 = t.parse().map_err(|_| format!("{api}: {t:?} accepted"))?;
                    if v == 0.0 {
                        ensure!(x.f64() == 0.0, "{api}: {t} read as {}", x.f64());
                    } else if v.is_finite() && v.abs() > 1e-250 && v.abs() < 1e250 {
                        ensure!(((x.f64() - v) / v).abs() < 1e-9, "{api}: {t} read as {}", x.f64());
                    }
                }
            }
            (RV::Dec, None) => {
                if let Ok(t) = std::str::from_utf8(&c[1..]) {
                    let plain = |s: &str| !s.is_empty() && s.len() < 15 && s.bytes().all(|b| b.is_ascii_digit());
                    let u = t.strip_prefix('-').unwrap_or(t);
                    ensure!(!(c[0] == 1 && plain(u)), "{api}: NR1 {t} refused");
                    if let Some((a, bb)) = u.split_once('.') {
                        ensure!(!(c[0] == 2 && plain(a) && plain(bb)), "{api}: NR2 {t} refused");
                    }
                }
            }
            _ => {}
        }
    }
    let mut k = b.clone();
    k[0] |= 0x20;
    ensure!(Real::parse_ber(Input::from(&k)).is_err() && Real::from_ber(&k).is_err(), "constructed accepted");
    ensure!(Real::parse_der(Input::from(&k)).is_err() && Real::from_der(&k).is_err(), "constructed accepted");
    Ok(!matches!(want, RV::No))
}
fn gen_real_decode(g: &mut G) {
    for l in 0..=2 {
        g.all(l);
    }
    let a = [0x00, 0x01, 0x02, 0x03, 0x7f, 0x80, 0x81, 0xff];
    for f in 0x80..=0xffu8 {
        for l in 2..=if g.thorough { 5 } else { 4 } {
            g.with_prefix(&[f], &a, l);
        }
        for n in 5..=14 {
            for x in [0u8, 1, 0x55, 0x80, 0xff] {
                let mut v = vec![f, if f & 3 == 3 { 1 } else { 0 }];
                v.extend(vec![x; n]);
                g.case(&v);
            }
        }
        for ex in 0..=255u8 {
            g.case(&[f, ex, 3]);
            g.case(&[f, if f & 3 == 3 { 1 } else { 0 }, ex, 5]);
            g.case(&[f, if f & 3 == 3 { 2 } else { 0xff }, ex, 5, 7, 9]);
        }
    }
    for t in ["0", "1", "-1", "10", "100", "-100", "123456", "9007199254740991", "+5", " 5", "5 ", "0x1", "", "1.", ".5", "1.5", "-1.5", "0.25", "3.14", "314.E-2", "1E10", "1E-10", "15E-1", "-15E+1", "1,5", "1e5", "inf", "NaN", "0.0", "-0.0", "1E300", "1E-300", "12345678901234567890"] {
        for f in 0..=0x43u8 {
            let mut v = vec![f];
            v.extend(t.bytes());
            g.case(&v);
        }
    }
    for _ in 0..g.n(60_000) {
        let n = g.rng.below(9);
        let mut v = vec![0x80 | g.rng.byte()];
        if g.rng.chance(1, 3) {
            v[0] |= 3;
            v.push(g.rng.below(6) as u8);
        }
        let k = g.rng.pick(&[0u8, 0xff, 0, 0xff, 1, 0x80]);
        v.push(k);
        v.extend(g.rng.bytes(n));
        g.case(&v);
    }
}

/// b: enc base selector, exponent (2), f64 bits (8)
fn real_encode(b: &[u8]) -> R {
    if b.len() != 11 {
        return Ok(false);
    }
    let base = [2u8, 8, 16][(b[0] % 3) as usize];
    let e = i16::from_be_bytes([b[1], b[2]]) as i32;
    let m = f64::from_bits(u64::from_be_bytes([b[3], b[4], b[5], b[6], b[7], b[8], b[9], b[10]]));
    if !m.is_finite() || m.abs() < 1e-280 || m.abs() > 1e280 {
        return Ok(false);
    }
    let r = Real::binary(m, 2, e).with_enc_base(base);
    let v = r.to_der_vec().map_err(|x| format!("{r:?} refused: {x}"))?;
    let mut w = vec![];
    let n = r.write_ber(&mut w).map_err(|x| x.to_string())?;
    ensure!(n == w.len() && w == v, "writer");
    ensure!(r.ber_total_len() == Length::Definite(v.len()), "predicted length");
    let t = spec::tlv_der(&v).map_err(|_| format!("{r:?} encoded as {}", hex(&v)))?;
    ensure!(t.total == v.len() && t.h.tag == 9 && !t.h.cons, "header {}", hex(&v));
    let want = real_value(&r).unwrap();
    // reference decoder
    match real_spec(&v[t.c0..]) {
        RV::Bin(s, mm, ee) => ensure!((s, mm, ee) == want, "{r:?} encoded as {}: {mm} * 2^{ee}", hex(&v)),
        _ => return Err(format!("{r:?} encoded as {}: not a binary REAL", hex(&v))),
    }
    let fb = v[t.c0];
    ensure!([1, 3, 4][(b[0] % 3) as usize] == [1, 3, 4, 0][(fb >> 4 & 3) as usize], "{r:?}: encoding base bits {fb:02x}");
    for (api, _, x) in ifaces!(Real, &v) {
        let x = x.ok_or(format!("{api}: {r:?} encoded as {} is refused", hex(&v)))?;
        ensure!(real_value(&x) == Some(want), "{api}: {r:?} -> {} -> {x:?}", hex(&v));
    }
    Ok(true)
}
fn re(b: u8, e: i32, m: f64) -> Vec<u8> {
    let mut v = vec![b];
    v.extend((e as i16).to_be_bytes());
    v.extend(m.to_bits().to_be_bytes());
    v
}
fn gen_real_encode(g: &mut G) {
    let ms = [1.0, -1.0, 2.0, 3.0, 0.5, 0.375, -0.1, 0.1, 1e10, 1.5e-7, 255.0, 256.0, 4096.0, 9007199254740991.0, 9007199254740993.0, 1.8446744073709552e19, 3.6893488147419103e19, 1e200, 1e-200, 1024.0, 12.0, 20.0, 24.0, 48.0];
    for base in 0..3 {
        for m in ms {
            for e in -300..300 {
                g.case(&re(base, e, m));
            }
            for e in [-32768, -32767, -1025, -1024, -1000, -513, -512, -511, 511, 512, 513, 1000, 1023, 1024, 1025, 32765, 32766, 32767] {
                g.case(&re(base, e, m));
            }
        }
        for k in -900..900 {
            g.case(&re(base, 0, 2f64.powi(k)));
            g.case(&re(base, -k, 1.0 + 2f64.powi(-(k as i32).abs().min(52))));
        }
    }
    for _ in 0..g.n(40_000) {
        let mut v = vec![g.rng.below(3) as u8];
        let e = g.rng.below(2200) as i32 - 1100;
        v.extend((e as i16).to_be_bytes());
        let sh = g.rng.below(53);
        let m = ((g.rng.u64() >> 11 >> sh) as f64) * 2f64.powi(g.rng.below(200) as i32 - 100) * if g.rng.chance(1, 2) { -1.0 } else { 1.0 };
        v.extend(m.to_bits().to_be_bytes());
        g.case(&v);
    }
}

/// f64 bits: floats through the typed and Real interfaces
fn real_float(b: &[u8]) -> R {
    if b.len() != 8 {
        return Ok(false);
    }
    let f = f64::from_bits(u64::from_be_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]));
    let r = Real::from(f);
    let close = |x: f64| x == f || (x.is_nan() && f.is_nan()) || ((x - f) / f).abs() < 1e-9;
    let small = f.is_finite() && (f == 0.0 || (f.abs() > 1e-200 && f.abs() < 1e200));
    if f.is_finite() && !small {
        return Ok(false);
    }
    ensure!(close(r.f64()), "Real::from({f}).f64() = {}", r.f64());
    let v = f.to_der_vec().map_err(|e| e.to_string())?;
    ensure!(f.ber_total_len() == Length::Definite(v.len()) && f.der_total_len() == Length::Definite(v.len()), "predicted length of {f}");
    let (rest, y) = f64::from_der(&v).map_err(|e| format!("{f} encoded as {}: {e}", hex(&v)))?;
    ensure!(rest.is_empty() && close(y), "{f} -> {} -> {y}", hex(&v));
    let int = f.fract() == 0.0 && f.abs() < 9007199254740992.0;
    if int || !f.is_finite() {
        ensure!(y == f || (y.is_nan() && f.is_nan()), "{f} -> {} -> {y}", hex(&v));
    }
    let (_, z) = Real::parse_der(Input::from(&v)).map_err(|e| e.to_string())?;
    ensure!(close(z.f64()), "Real");
    ensure!(z.is_finite() == f.is_finite() && z.is_infinite() == f.is_infinite(), "is_finite");
    let g = f as f32;
    if (g.abs() > 1e-30 && g.abs() < 1e30) || g == 0.0 {
        let v = g.to_der_vec().map_err(|e| e.to_string())?;
        let (_, y) = f32::from_der(&v).map_err(|e| e.to_string())?;
        ensure!(y == g || ((y - g) / g).abs() < 1e-5, "f32 {g} -> {y}");
    }
    Ok(true)
}
fn gen_real_float(g: &mut G) {
    for f in [0.0, -0.0, 1.0, -1.0, 0.5, 0.1, 10.0, 100.0, 1e15, 123456789.0, -3.14, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 9007199254740991.0] {
        g.case(&f.to_bits().to_be_bytes());
    }
    for i in 0..2000i64 {
        g.case(&((i - 1000) as f64).to_bits().to_be_bytes());
        g.case(&((i - 1000) as f64 / 64.0).to_bits().to_be_bytes());
    }
    for _ in 0..g.n(5000) {
        let f = (g.rng.u64() >> 11) as f64 / (1u64 << g.rng.below(60)) as f64;
        g.case(&f.to_bits().to_be_bytes());
    }
}

pub fn kinds(v: &mut Vec<Kind>) {
    kind!(v, "P13", "gentime", "GeneralizedTime contents: calendar boundaries, every two-digit field value, all ending combinations, every octet in every position of a template, seeded", gentime, |g: &mut G| gen_times(g, true));
    kind!(v, "P13", "utctime", "UTCTime contents: every year x month x boundary days, every two-digit field value, endings, every octet in every position, seeded", utctime, |g: &mut G| gen_times(g, false));
    kind!(v, "P13", "time_build", "times built from fields: every millisecond value, every year 0..9999, seeded", time_build, gen_time_build);
    kind!(v, "P14", "real_decode", "REAL contents: all of <= 2 octets, every first octet with words over 8 octets up to 4 (5), every exponent octet, decimal texts, seeded", real_decode, gen_real_decode);
    kind!(v, "P14", "real_encode", "binary REAL values: 24 mantissas x 3 bases x exponents, powers of two, seeded", real_encode, gen_real_encode);
    kind!(v, "P14", "real_float", "f64/f32 values through the typed interfaces: integers, dyadic fractions, seeded", real_float, gen_real_float);
}
