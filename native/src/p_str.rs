//! P10 octet/bit strings, P11 object identifiers, P12 restricted strings
use crate::run::{Kind, Rng, G, R};
use crate::spec::{self, hex};
use asn1_rs::*;
use std::borrow::Cow;

// ------------------------------------------------------------------ reference for segmented strings
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Acc {
    Yes,
    No,
    /// not settled by the property: the value must be right if accepted
    Maybe,
}
fn worst(a: Acc, b: Acc) -> Acc {
    match (a, b) {
        (Acc::No, _) | (_, Acc::No) => Acc::No,
        (Acc::Maybe, _) | (_, Acc::Maybe) => Acc::Maybe,
        _ => Acc::Yes,
    }
}
/// value of a bit/octet string: bits as (octets, number of bits)
type Bits = Vec<bool>;

fn bits_of(b: &[u8]) -> Bits {
    b.iter().flat_map(|x| (0..8).map(move |i| x & (0x80 >> i) != 0)).collect()
}

/// `c`: content octets of a constructed string whose elements must have number `tag` (3 or 4); `bit`: bit string
pub fn segs(c: &[u8], tag: u32, limit: usize, top: bool) -> (Acc, Bits) {
    if limit == 0 {
        return (Acc::No, vec![]);
    }
    if c.is_empty() {
        return (if top { Acc::Maybe } else { Acc::Yes }, vec![]);
    }
    let els = match spec::split(c, false) {
        Some(e) => e,
        None => return (Acc::No, vec![]),
    };
    let mut acc = Acc::Yes;
    let mut v = vec![];
    let n = els.len();
    for (k, (t, b)) in els.iter().enumerate() {
        if t.h.tag != tag {
            return (Acc::No, vec![]);
        }
        if t.h.class != 0 {
            acc = worst(acc, Acc::Maybe);
        }
        let c = &b[t.c0..t.c1];
        if t.h.cons {
            if c.is_empty() {
                acc = worst(acc, Acc::Maybe);
                continue;
            }
            let (a, x) = segs(c, tag, limit - 1, false);
            acc = worst(acc, a);
            if x.len() % 8 != 0 && k + 1 < n {
                acc = worst(acc, Acc::Maybe);
            }
            v.extend(x);
        } else if tag == 4 {
            if limit == 1 && !c.is_empty() {
                return (Acc::No, vec![]);
            }
            v.extend(bits_of(c));
        } else {
            if c.is_empty() {
                acc = worst(acc, Acc::Maybe);
                continue;
            }
            if limit == 1 {
                return (Acc::No, vec![]);
            }
            match bits_content(c) {
                Some(x) => {
                    if c[0] != 0 && k + 1 < n {
                        acc = worst(acc, Acc::Maybe);
                    }
                    v.extend(x)
                }
                None => return (Acc::No, vec![]),
            }
        }
    }
    (acc, v)
}

/// primitive BIT STRING content
fn bits_content(c: &[u8]) -> Option<Bits> {
    let u = *c.first()? as usize;
    if u > 7 || u > 8 * (c.len() - 1) {
        return None;
    }
    let mut v = bits_of(&c[1..]);
    v.truncate(v.len() - u);
    Some(v)
}
fn octets(b: &Bits) -> Vec<u8> {
    b.chunks(8).map(|c| c.iter().enumerate().fold(0, |a, (i, x)| a | (*x as u8) << (7 - i))).collect()
}
fn enc_bits(b: &Bits) -> Vec<u8> {
    let mut v = vec![((8 - b.len() % 8) % 8) as u8];
    v.extend(octets(b));
    v
}

macro_rules! all_ifaces {
    ($t:ty, $b:expr) => {{
        let b: &[u8] = $b;
        let ber: Vec<(&str, Option<(usize, $t)>)> = vec![
            ("parse_ber", <$t as BerParser>::parse_ber(Input::from(b)).ok().map(|(r, x)| (r.len(), x))),
            ("from_ber", <$t as FromBer>::from_ber(b).ok().map(|(r, x)| (r.len(), x))),
        ];
        let der: Vec<(&str, Option<(usize, $t)>)> = vec![
            ("parse_der", <$t as DerParser>::parse_der(Input::from(b)).ok().map(|(r, x)| (r.len(), x))),
            ("from_der", <$t as FromDer>::from_der(b).ok().map(|(r, x)| (r.len(), x))),
        ];
        (ber, der)
    }};
}

fn acc_check<T>(api: &str, r: &Option<T>, a: Acc) -> std::result::Result<(), String> {
    match a {
        Acc::Yes => ensure!(r.is_some(), "{api}: valid encoding refused"),
        Acc::No => ensure!(r.is_none(), "{api}: invalid encoding accepted"),
        Acc::Maybe => {}
    }
    Ok(())
}

/// b: complete object whose tag number is taken as that of the type under test
fn octet_bit(b: &[u8]) -> R {
    let t = match spec::tlv_ber(b) {
        Ok(t) => t,
        Err(_) => return Ok(false),
    };
    if t.h.class != 0 || (t.h.tag != 3 && t.h.tag != 4) {
        return Ok(false);
    }
    let c = &b[t.c0..t.c1];
    let rest = b.len() - t.total;
    let der_ok = !t.h.cons;
    let mut nt = false;
    if t.h.tag == 4 {
        let (acc, bits) = if t.h.cons { segs(c, 4, 5, true) } else { (Acc::Yes, bits_of(c)) };
        let want = octets(&bits);
        let (ber, der) = all_ifaces!(OctetString, b);
        for (api, r) in ber.iter().chain(if der_ok { der.iter() } else { [].iter() }) {
            acc_check(&format!("OctetString {api}"), r, acc)?;
            if let Some((n, x)) = r {
                ensure!(*n == rest, "OctetString {api}: {n} octets left");
                ensure!(x.as_ref() == want, "OctetString {api}: {} expected {}", hex(x.as_ref()), hex(&want));
                ensure!(x.as_cow().as_ref() == &want[..], "as_cow");
                let e = x.to_ber_vec().map_err(|e| e.to_string())?;
                ensure!(e == spec::prim(4, &want), "OctetString encoded as {}", hex(&e));
                let e = x.to_der_vec().map_err(|e| e.to_string())?;
                ensure!(e == spec::prim(4, &want), "OctetString DER encoded as {}", hex(&e));
                nt = true;
            }
        }
        if !der_ok {
            for (api, r) in der {
                ensure!(r.is_none(), "OctetString {api}: constructed accepted");
            }
        }
        let (ber, der) = all_ifaces!(&[u8], b);
        for (api, r) in ber.iter().chain(der.iter()) {
            ensure!(r.is_some() == !t.h.cons, "&[u8] {api}: accepted={}", r.is_some());
            if let Some((n, x)) = r {
                ensure!(*n == rest && *x == c, "&[u8] {api}: value");
                let e = x.to_der_vec().map_err(|e| e.to_string())?;
                ensure!(e == spec::prim(4, c), "&[u8] encoded as {}", hex(&e));
            }
        }
    } else {
        let (acc, bits) = if t.h.cons {
            segs(c, 3, 5, true)
        } else {
            match bits_content(c) {
                Some(v) => (Acc::Yes, v),
                None => (Acc::No, vec![]),
            }
        };
        let (ber, der) = all_ifaces!(BitString, b);
        for (api, r) in ber {
            acc_check(&format!("BitString {api}"), &r, acc)?;
            if let Some((n, x)) = r {
                ensure!(n == rest, "BitString {api}: {n} octets left");
                check_bits(&x, &bits)?;
                nt = true;
            }
        }
        let padding_ok = match c {
            [u, .., l] if *u <= 7 => l & ((1u16 << u) - 1) as u8 == 0,
            _ => true,
        };
        for (api, r) in der {
            let want = !t.h.cons && acc == Acc::Yes && padding_ok;
            ensure!(r.is_some() == want, "BitString {api}: accepted={} expected={want}", r.is_some());
            if let Some((_, x)) = r {
                check_bits(&x, &bits)?;
            }
        }
    }
    Ok(nt)
}

fn check_bits(x: &BitString, bits: &Bits) -> std::result::Result<(), String> {
    ensure!(x.len() == bits.len(), "BitString length {} expected {}", x.len(), bits.len());
    ensure!(x.is_empty() == bits.is_empty(), "is_empty");
    for (i, v) in bits.iter().enumerate() {
        ensure!(x.is_set(i) == *v, "bit {i}");
        ensure!(x.as_bitslice()[i] == *v, "bit slice {i}");
    }
    for i in [bits.len(), bits.len() + 1, bits.len() + 7, bits.len() + 8, usize::MAX] {
        ensure!(!x.is_set(i), "bit {i} after the end is set");
    }
    let want = spec::prim(3, &enc_bits(bits));
    for e in [x.to_ber_vec(), x.to_der_vec()] {
        let e = e.map_err(|e| e.to_string())?;
        ensure!(e == want, "BitString encoded as {} expected {}", hex(&e), hex(&want));
    }
    let (_, y) = BitString::from_der(&want).map_err(|e| format!("re-decode {e}"))?;
    ensure!(&y == x, "BitString round trip");
    Ok(())
}

fn rand_seg(r: &mut Rng, tag: u32, depth: usize) -> Vec<u8> {
    if depth > 0 && r.chance(2, 3) {
        let n = r.below(4);
        let mut c = vec![];
        for _ in 0..n {
            let d = depth - 1 - r.below(2).min(depth - 1);
            c.extend(rand_seg(r, tag, d));
        }
        let t = if r.chance(1, 25) { r.pick(&[0u32, 2, 3, 4, 12, 16]) } else { tag };
        let cl = if r.chance(1, 40) { 2 } else { 0 };
        if r.chance(1, 2) {
            let mut v = spec::enc_tag(cl, true, t);
            v.push(0x80);
            v.extend(c);
            v.extend([0, 0]);
            v
        } else {
            crate::util::enc_loose(r, cl, true, t, &c)
        }
    } else {
        let n = r.below(5);
        let mut c = vec![];
        if tag == 3 {
            c.push(if r.chance(1, 12) { r.below(20) as u8 } else if r.chance(1, 6) { r.below(8) as u8 } else { 0 });
        }
        c.extend(r.bytes(n));
        if r.chance(1, 15) {
            c.clear();
        }
        let t = if r.chance(1, 30) { r.pick(&[0u32, 2, 3, 4, 12, 5]) } else { tag };
        { let cl = if r.chance(1, 60) { 1 } else { 0 }; crate::util::enc_loose(r, cl, false, t, &c) }
    }
}

fn gen_octet_bit(g: &mut G) {
    // primitive
    for l in 0..=2 {
        let a: Vec<u8> = if l < 2 { (0..=255).collect() } else { vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0x10, 0x20, 0x40, 0x7f, 0x80, 0xc0, 0xe0, 0xf0, 0xfe, 0xff] };
        let mut ws = vec![];
        collect(&a, l, &mut ws);
        for w in ws {
            for t in [3, 4] {
                g.case(&spec::prim(t, &w));
            }
        }
    }
    for u in 0..=9u8 {
        for last in 0..=255u8 {
            for mid in [vec![], vec![0x55], vec![0, 0xff]] {
                let mut c = vec![u];
                c.extend(&mid);
                c.push(last);
                g.case(&spec::prim(3, &c));
            }
        }
    }
    // documented examples and depth ladder
    for tag in [3u32, 4] {
        let leaf: &[u8] = if tag == 3 { &[3, 2, 0, 0xa5] } else { &[4, 1, 0xa5] };
        for d in 0..9 {
            for form in 0..4 {
                let mut v = leaf.to_vec();
                for k in 0..d {
                    let indef = form == 1 || (form == 2 && k % 2 == 0) || (form == 3 && k % 2 == 1);
                    if indef {
                        let mut w = spec::enc_tag(0, true, tag);
                        w.push(0x80);
                        w.extend(&v);
                        w.extend([0, 0]);
                        v = w;
                    } else {
                        v = spec::cons(tag, &v);
                    }
                }
                g.case(&v);
                v.extend([1, 2, 3]);
                g.case(&v);
            }
        }
        for n in [0usize, 1, 127, 128, 129, 255, 256, 257, 70000] {
            let mut c = vec![0xc3; n];
            if tag == 3 {
                c.insert(0, 0);
            }
            g.case(&spec::prim(tag, &c));
            let inner = spec::prim(tag, &c);
            g.case(&spec::cons(tag, &[inner.clone(), inner.clone()].concat()));
        }
        // elements that are not segments
        for bad in [&[0u8, 0][..], &[0, 1, 7], &[0x20, 0], &[0x80, 0], &[2, 1, 1], &[0x0c, 1, 0x41], &[0x24, 0], &[0x23, 0], &[0x04, 0x05, 1], &[0x30, 0]] {
            for pos in 0..3 {
                let mut parts = vec![leaf.to_vec(), leaf.to_vec()];
                parts.insert(pos, bad.to_vec());
                let c = parts.concat();
                g.case(&spec::cons(tag, &c));
                let mut w = spec::enc_tag(0, true, tag);
                w.push(0x80);
                w.extend(&c);
                w.extend([0, 0]);
                g.case(&w);
            }
        }
    }
    for _ in 0..g.n(60_000) {
        let tag = g.rng.pick(&[3u32, 4]);
        let d = g.rng.below(7);
        let mut v = rand_seg(&mut g.rng, tag, d);
        if g.rng.chance(1, 4) {
            v = crate::util::mutate(&mut g.rng, &v);
        }
        if g.rng.chance(1, 3) {
            let n = g.rng.below(4);
            v.extend(g.rng.bytes(n));
        }
        g.case(&v);
    }
}

fn collect(a: &[u8], l: usize, out: &mut Vec<Vec<u8>>) {
    let mut cur: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..l {
        cur = cur.iter().flat_map(|w| a.iter().map(move |x| [&w[..], &[*x]].concat())).collect();
    }
    out.extend(cur);
}

/// b[0] = offset, b[1] = number of trailing bits dropped, rest = octets: BitString from an arbitrary bit slice
fn bit_slice(b: &[u8]) -> R {
    if b.len() < 3 {
        return Ok(false);
    }
    let all = bits_of(&b[2..]);
    let from = (b[0] as usize).min(all.len());
    let to = all.len() - (b[1] as usize).min(all.len() - from);
    let src = BitString::new(0, &b[2..]);
    let x = BitString::from(&src.as_bitslice()[from..to]);
    check_bits(&x, &all[from..to].to_vec())?;
    if to > from && from == 0 && b[1] < 8 {
        let y = BitString::new(b[1], &b[2..]);
        if (b[1] as usize) < all.len() {
            check_bits(&y, &all[..all.len() - b[1] as usize].to_vec())?;
        }
    }
    // mutation through the mutable view keeps the encoding in step
    let mut z = BitString::from(&src.as_bitslice()[from..to]);
    let mut want = all[from..to].to_vec();
    for i in (0..want.len()).step_by(3) {
        let v = !want[i];
        z.as_mut_bitslice().set(i, v);
        want[i] = v;
    }
    check_bits(&z, &want)?;
    Ok(true)
}
fn gen_bit_slice(g: &mut G) {
    for n in 1..=3 {
        for f in 0..=(8 * n) as u8 {
            for t in 0..=(8 * n) as u8 {
                for p in [0xa5u8, 0xff, 0x00, 0x36] {
                    let mut v = vec![f, t];
                    v.extend(std::iter::repeat(p).take(n));
                    g.case(&v);
                }
            }
        }
    }
    for _ in 0..g.n(5000) {
        let n = 3 + g.rng.below(6);
        let mut v = vec![g.rng.below(20) as u8, g.rng.below(20) as u8];
        v.extend(g.rng.bytes(n - 2));
        g.case(&v);
    }
}

// ------------------------------------------------------------------ P11
fn sub_ids(c: &[u8]) -> Option<Vec<u128>> {
    // None: unterminated or too large for the oracle
    let mut v = vec![];
    let mut cur: u128 = 0;
    let mut open = false;
    for x in c {
        if cur >> 115 != 0 {
            return None;
        }
        cur = cur << 7 | (x & 0x7f) as u128;
        open = true;
        if x & 0x80 == 0 {
            v.push(cur);
            cur = 0;
            open = false;
        }
    }
    if open {
        None
    } else {
        Some(v)
    }
}
fn arcs_of(subs: &[u128], rel: bool) -> Vec<u128> {
    if rel {
        return subs.to_vec();
    }
    let f = subs[0];
    let mut v = if f < 40 {
        vec![0, f]
    } else if f < 80 {
        vec![1, f - 40]
    } else {
        vec![2, f - 80]
    };
    v.extend(&subs[1..]);
    v
}
fn b128(v: u128) -> Vec<u8> {
    let mut out = vec![(v & 0x7f) as u8];
    let mut v = v >> 7;
    while v > 0 {
        out.insert(0, 0x80 | (v & 0x7f) as u8);
        v >>= 7;
    }
    out
}

/// content octets of an OID / RELATIVE-OID
fn oid_decode(c: &[u8]) -> R {
    let mut nt = false;
    for rel in [false, true] {
        let tag = if rel { 13 } else { 6 };
        let v = spec::prim(tag, c);
        let (ber, der) = all_ifaces!(Oid, &v);
        let direct = if rel { Oid::new_relative(Cow::Borrowed(c)) } else { Oid::new(Cow::Borrowed(c)) };
        let mut list: Vec<(&str, Option<(usize, Oid)>)> = ber.into_iter().chain(der).collect();
        if !c.is_empty() {
            list.push(("new", Some((0, direct))));
        }
        if rel {
            let a = Oid::from_ber_relative(&v).ok().map(|(r, x)| (r.len(), x));
            let b = Oid::from_der_relative(&v).ok().map(|(r, x)| (r.len(), x));
            if !c.is_empty() {
                list.push(("from_ber_relative", a));
                list.push(("from_der_relative", b));
            }
        } else {
            ensure!(Oid::from_ber_relative(&v).is_err() && Oid::from_der_relative(&v).is_err(), "relative decoder accepted an absolute OID");
        }
        // constructed form is refused
        let mut k = v.clone();
        k[0] |= 0x20;
        let (b2, d2) = all_ifaces!(Oid, &k);
        for (api, r) in b2.iter().chain(d2.iter()) {
            ensure!(r.is_none(), "Oid {api}: constructed accepted");
        }
        for (api, r) in list {
            if c.is_empty() {
                ensure!(r.is_none(), "Oid {api}: empty content accepted");
                continue;
            }
            let subs = sub_ids(c);
            let Some((n, x)) = r else {
                ensure!(subs.is_none() || c_nonminimal(c), "Oid {api}: valid content refused");
                continue;
            };
            ensure!(n == 0, "Oid {api}: {n} left");
            ensure!(x.as_bytes() == c, "Oid {api}: octets {}", hex(x.as_bytes()));
            let e = x.to_der_vec().map_err(|e| e.to_string())?;
            ensure!(e == v, "Oid {api}: re-encoded as {}", hex(&e));
            let (_, back) = Oid::from_der(&e).map_err(|e| e.to_string())?;
            ensure!(back == x, "Oid {api}: decode(encode) differs");
            ensure!(x.tag() == Tag(tag), "Oid {api}: tag");
            let Some(subs) = subs else { continue };
            if c_nonminimal(c) {
                continue;
            }
            nt = true;
            let arcs = arcs_of(&subs, rel);
            let big: Vec<String> = x.iter_bigint().map(|b| b.to_string()).collect();
            let want: Vec<String> = arcs.iter().map(|b| b.to_string()).collect();
            ensure!(big == want, "Oid {api} ({}): big arcs {big:?} expected {want:?}", hex(c));
            let mut it = x.iter_bigint();
            for k in (0..=arcs.len()).rev() {
                ensure!(it.size_hint() == (k, Some(k)), "size_hint {:?} expected {k}", it.size_hint());
                ensure!(it.next().is_some() == (k > 0), "iterator length");
            }
            ensure!(it.next().is_none(), "not fused");
            let fit = subs.iter().all(|s| *s <= u64::MAX as u128);
            match x.iter() {
                Some(it) => {
                    ensure!(fit, "iter() reported arcs although one exceeds 64 bits");
                    ensure!(it.len() == arcs.len(), "iter().len()");
                    let got: Vec<u128> = it.map(|x| x as u128).collect();
                    ensure!(got == arcs, "iter(): {got:?} expected {arcs:?}");
                }
                None => ensure!(!fit, "iter() refused arcs of at most 64 bits"),
            }
            let dot = want.join(".");
            ensure!(x.to_id_string() == dot, "to_id_string {} expected {dot}", x.to_id_string());
            let disp = if rel { format!("rel. {dot}") } else { dot.clone() };
            ensure!(format!("{x}") == disp, "Display {x} expected {disp}");
            if !rel && fit {
                let p: Oid = dot.parse().map_err(|e| format!("parse {dot}: {e}"))?;
                ensure!(p == x, "FromStr(to_id_string) differs");
            }
            if fit {
                let a: Vec<u64> = arcs.iter().map(|x| *x as u64).collect();
                let y = if rel { Oid::from_relative(&a) } else { Oid::from(&a) }.map_err(|e| format!("from: {e}"))?;
                ensure!(y == x && y.as_bytes() == c, "from(arcs) gives {}", hex(y.as_bytes()));
            }
            ensure!(x.to_owned() == x && x.starts_with(&x), "to_owned/starts_with");
            for cut in 0..c.len() {
                let y = Oid::new(Cow::Borrowed(&c[..cut]));
                ensure!(x.starts_with(&y), "starts_with prefix");
                ensure!(!y.starts_with(&x), "shorter starts_with longer");
                ensure!(y != x, "prefix equal");
            }
            let mut w = c.to_vec();
            *w.last_mut().unwrap() ^= 1;
            let y = Oid::new(Cow::Borrowed(&w));
            ensure!(!x.starts_with(&y) && x != y, "different octets compare equal");
            let other = if rel { Oid::new(Cow::Borrowed(c)) } else { Oid::new_relative(Cow::Borrowed(c)) };
            ensure!(other != x, "relative and absolute compare equal");
        }
    }
    Ok(nt)
}
fn c_nonminimal(c: &[u8]) -> bool {
    let mut start = true;
    for x in c {
        if start && *x == 0x80 {
            return true;
        }
        start = x & 0x80 == 0;
    }
    false
}
fn gen_oid_decode(g: &mut G) {
    g.all(0);
    g.all(1);
    g.all(2);
    let a = [0x00, 0x01, 0x27, 0x28, 0x4f, 0x50, 0x7f, 0x80, 0x81, 0xff];
    for l in 3..=if g.thorough { 6 } else { 5 } {
        g.words(&a, l);
    }
    // arcs around every 7-bit boundary, alone and in every position
    let mut vals: Vec<u128> = vec![];
    for k in 0..=74u32 {
        for d in [-1i128, 0, 1] {
            let x = (1i128 << k) + d;
            if x >= 0 {
                vals.push(x as u128);
            }
        }
    }
    vals.extend([39, 40, 79, 80, 81, u64::MAX as u128 - 80, u64::MAX as u128 - 79, u64::MAX as u128, u64::MAX as u128 + 80]);
    for v in vals {
        let e = b128(v);
        g.case(&e);
        g.case(&[&[0x2a][..], &e].concat());
        g.case(&[&e[..], &[0x03]].concat());
        g.case(&[&[0x2a, 0x86, 0x48][..], &e, &e].concat());
    }
    for _ in 0..g.n(15000) {
        let n = 1 + g.rng.below(12);
        let mut v = vec![];
        for _ in 0..n {
            let sh = g.rng.below(64);
            v.extend(b128((g.rng.u64() >> sh) as u128));
        }
        if g.rng.chance(1, 6) {
            v = crate::util::mutate(&mut g.rng, &v);
        }
        g.case(&v);
    }
}

/// arcs as 9-octet records (shift, 8 octets): value = be64 >> shift
fn oid_build(b: &[u8]) -> R {
    let arcs: Vec<u64> = b.chunks(9).filter(|c| c.len() == 9).map(|c| u64::from_be_bytes([c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8]]) >> (c[0] % 64)).collect();
    // relative
    let r = Oid::from_relative(&arcs);
    if arcs.is_empty() {
        ensure!(r.is_err(), "from_relative([]) accepted");
    } else {
        let want: Vec<u8> = arcs.iter().flat_map(|a| b128(*a as u128)).collect();
        let o = r.map_err(|e| e.to_string())?;
        ensure!(o.as_bytes() == want, "from_relative {arcs:?}: {} expected {}", hex(o.as_bytes()), hex(&want));
        ensure!(o.iter().map(|i| i.collect::<Vec<_>>()) == Some(arcs.clone()), "arcs of from_relative");
        let v = o.to_ber_vec().map_err(|e| e.to_string())?;
        ensure!(v == spec::prim(13, &want), "relative OID encoded as {}", hex(&v));
    }
    // absolute
    if arcs.len() == 1 {
        return Ok(true);
    }
    let valid = arcs.len() >= 2 && arcs[0] <= 2 && (arcs[0] == 2 || arcs[1] < 40) && arcs[1].checked_add(40 * arcs[0]).is_some();
    let r = Oid::from(&arcs);
    let s = arcs.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(".");
    let p: std::result::Result<Oid, _> = s.parse();
    ensure!(p.clone().ok() == r.clone().ok(), "FromStr and from disagree on {s}");
    if !valid {
        // an arc whose sub-identifier exceeds 64 bits may be refused; anything else invalid must be
        ensure!(r.is_err(), "invalid arcs {arcs:?} accepted");
        return Ok(true);
    }
    let o = r.map_err(|e| format!("{arcs:?}: {e}"))?;
    let mut want = b128((arcs[0] * 40) as u128 + arcs[1] as u128);
    want.extend(arcs[2..].iter().flat_map(|a| b128(*a as u128)));
    ensure!(o.as_bytes() == want, "from {arcs:?}: {} expected {}", hex(o.as_bytes()), hex(&want));
    let v = o.to_der_vec().map_err(|e| e.to_string())?;
    ensure!(v == spec::prim(6, &want), "OID encoded as {}", hex(&v));
    let (_, q) = Oid::from_der(&v).map_err(|e| e.to_string())?;
    ensure!(q == o, "decode(encode)");
    ensure!(q.iter().map(|i| i.collect::<Vec<_>>()) == Some(arcs.clone()), "arcs of {arcs:?}: {:?}", q.iter().map(|i| i.collect::<Vec<_>>()));
    ensure!(q.to_id_string() == s, "dotted {} expected {s}", q.to_id_string());
    Ok(true)
}
fn rec(v: u64) -> Vec<u8> {
    let mut x = vec![0];
    x.extend(v.to_be_bytes());
    x
}
fn gen_oid_build(g: &mut G) {
    g.case(&[]);
    let small = [0u64, 1, 2, 3, 38, 39, 40, 41, 47, 79, 80, 127, 128, 16383, 16384, u32::MAX as u64, u64::MAX - 81, u64::MAX - 80, u64::MAX - 79, u64::MAX - 1, u64::MAX];
    for a in small {
        g.case(&rec(a));
        for b in small {
            g.case(&[rec(a), rec(b)].concat());
            for c in small {
                g.case(&[rec(a), rec(b), rec(c)].concat());
            }
        }
    }
    for k in 0..64 {
        for d in [0u64, 1] {
            let v = (1u64 << k).wrapping_sub(d);
            for a in [0u64, 1, 2] {
                g.case(&[rec(a), rec(v), rec(v)].concat());
                g.case(&[rec(a), rec(3), rec(v), rec(v), rec(1)].concat());
            }
        }
    }
    for _ in 0..g.n(8000) {
        let n = 2 + g.rng.below(8);
        let mut v = rec(g.rng.below(3) as u64);
        let x = if g.rng.chance(3, 4) { g.rng.below(40) as u64 } else { g.rng.u64() >> g.rng.below(64) };
        v.extend(rec(x));
        for _ in 2..n {
            v.push(g.rng.below(64) as u8);
            v.extend(g.rng.u64().to_be_bytes());
        }
        g.case(&v);
    }
}
fn oid_macro(_: &[u8]) -> R {
    let list: Vec<(Oid, &str)> = vec![
        (oid!(1.2.840.113549.1.1.1), "1.2.840.113549.1.1.1"),
        (oid!(2.5.4.3), "2.5.4.3"),
        (oid!(0.9.2342.19200300.100.1.1), "0.9.2342.19200300.100.1.1"),
        (oid!(1.39.127.128.16383.16384), "1.39.127.128.16383.16384"),
    ];
    for (o, s) in list {
        ensure!(o.to_id_string() == s, "oid!({s}) is {}", o.to_id_string());
        let arcs: Vec<u64> = s.split('.').map(|x| x.parse().unwrap()).collect();
        ensure!(Oid::from(&arcs).map_err(|e| e.to_string())? == o, "oid!({s}) octets");
    }
    Ok(true)
}

// ------------------------------------------------------------------ P12
fn printable(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b" '()+,-./:=?".contains(&b)
}
fn utf16(c: &[u8]) -> Option<String> {
    if c.len() % 2 != 0 {
        return None;
    }
    let mut s = String::new();
    let u: Vec<u32> = c.chunks(2).map(|p| (p[0] as u32) * 256 + p[1] as u32).collect();
    let mut i = 0;
    while i < u.len() {
        let x = u[i];
        if (0xd800..0xdc00).contains(&x) {
            let y = *u.get(i + 1)?;
            if !(0xdc00..0xe000).contains(&y) {
                return None;
            }
            s.push(char::from_u32(0x10000 + (x - 0xd800) * 0x400 + (y - 0xdc00))?);
            i += 2;
        } else if (0xdc00..0xe000).contains(&x) {
            return None;
        } else {
            s.push(char::from_u32(x)?);
            i += 1;
        }
    }
    Some(s)
}
fn utf32(c: &[u8]) -> Option<String> {
    if c.len() % 4 != 0 {
        return None;
    }
    c.chunks(4)
        .map(|p| {
            let v = u32::from_be_bytes([p[0], p[1], p[2], p[3]]);
            if v > 0x10ffff || (0xd800..0xe000).contains(&v) {
                None
            } else {
                char::from_u32(v)
            }
        })
        .collect()
}
/// UTF-8 well-formedness (RFC 3629), independent of the standard library
fn utf8(c: &[u8]) -> Option<String> {
    let mut s = String::new();
    let mut i = 0;
    while i < c.len() {
        let b = c[i];
        let (n, min, mut v) = match b {
            0..=0x7f => (0, 0, b as u32),
            0xc2..=0xdf => (1, 0x80, (b & 0x1f) as u32),
            0xe0..=0xef => (2, 0x800, (b & 0xf) as u32),
            0xf0..=0xf4 => (3, 0x10000, (b & 7) as u32),
            _ => return None,
        };
        for k in 0..n {
            let x = *c.get(i + 1 + k)?;
            if x & 0xc0 != 0x80 {
                return None;
            }
            v = v << 6 | (x & 0x3f) as u32;
        }
        if v < min {
            return None;
        }
        s.push(char::from_u32(v)?);
        i += n + 1;
    }
    Some(s)
}
fn ascii_if(c: &[u8], f: fn(u8) -> bool) -> Option<String> {
    if c.iter().all(|b| *b < 0x80 && f(*b)) {
        Some(c.iter().map(|b| *b as char).collect())
    } else {
        None
    }
}

fn alphabet(tag: u32, c: &[u8]) -> Option<String> {
    match tag {
        12 => utf8(c),
        18 => ascii_if(c, |b| b.is_ascii_digit() || b == b' '),
        19 => ascii_if(c, printable),
        20 | 21 => ascii_if(c, |b| (0x20..=0x7f).contains(&b)),
        22 | 25 | 27 | 7 => ascii_if(c, |_| true),
        26 => ascii_if(c, |b| (0x20..=0x7e).contains(&b)),
        30 => utf16(c),
        28 => utf32(c),
        _ => unreachable!(),
    }
}

/// b: complete object
fn strings(b: &[u8]) -> R {
    let t = match spec::tlv_ber(b) {
        Ok(t) => t,
        Err(_) => return Ok(false),
    };
    if t.h.class != 0 {
        return Ok(false);
    }
    let c = &b[t.c0..t.c1];
    let rest = b.len() - t.total;
    let mut nt = false;
    macro_rules! one {
        ($t:ident, $cs:expr) => {{
            let name = stringify!($t);
            let tag = <$t as Tagged>::TAG.0;
            if tag == t.h.tag {
                let (acc, oct) = if t.h.cons { let (a, x) = segs(c, 4, 5, true); (a, octets(&x)) } else { (Acc::Yes, c.to_vec()) };
                let text = alphabet(tag, &oct);
                let acc = if acc == Acc::No || text.is_none() { Acc::No } else { acc };
                let (ber, der) = all_ifaces!($t, b);
                for (api, r) in ber {
                    acc_check(&format!("{name} {api}"), &r, acc)?;
                    if let Some((n, x)) = r {
                        nt = true;
                        ensure!(n == rest, "{name} {api}: {n} octets left");
                        let want = text.clone().unwrap();
                        ensure!(x.as_ref() == want, "{name} {api}: text {:?} expected {want:?}", x.as_ref());
                        ensure!(x.string() == want, "{name} string()");
                        for e in [x.to_ber_vec(), x.to_der_vec()] {
                            let e = e.map_err(|e| e.to_string())?;
                            ensure!(e == spec::prim(tag, &oct), "{name} encoded as {} expected {}", hex(&e), hex(&spec::prim(tag, &oct)));
                        }
                        let y = $t::new(&want);
                        ensure!(y == x && y.to_der_vec().map_err(|e| e.to_string())? == spec::prim(tag, &oct), "{name}::new");
                        let y = $t::from(want.clone());
                        ensure!(y == x, "{name}::from(String)");
                    }
                }
                for (api, r) in der {
                    let want = !t.h.cons && acc == Acc::Yes && t.h.len.is_some();
                    ensure!(r.is_some() == want, "{name} {api}: accepted={} expected={want}", r.is_some());
                    if let Some((_, x)) = r {
                        ensure!(x.as_ref() == text.clone().unwrap(), "{name} {api}: text");
                    }
                }
                if !t.h.cons {
                    let f: Option<fn(&[u8]) -> Result<()>> = $cs;
                    if let Some(f) = f {
                        ensure!(f(c).is_ok() == text.is_some(), "{name}::test_valid_charset {}", f(c).is_ok());
                    }
                }
            }
        }};
    }
    one!(Utf8String, Some(Utf8String::test_valid_charset));
    one!(NumericString, Some(NumericString::test_valid_charset));
    one!(PrintableString, Some(PrintableString::test_valid_charset));
    one!(TeletexString, Some(TeletexString::test_valid_charset));
    one!(VideotexString, Some(VideotexString::test_valid_charset));
    one!(Ia5String, Some(Ia5String::test_valid_charset));
    one!(GraphicString, Some(GraphicString::test_valid_charset));
    one!(VisibleString, Some(VisibleString::test_valid_charset));
    one!(GeneralString, Some(GeneralString::test_valid_charset));
    one!(ObjectDescriptor, Some(ObjectDescriptor::test_valid_charset));
    one!(BmpString, Some(BmpString::test_valid_charset));
    one!(UniversalString, None);
    if t.h.tag == 12 {
        // &str and String
        let text = utf8(c);
        let (ber, der) = all_ifaces!(&str, b);
        for (api, r) in ber.into_iter().chain(der) {
            let want = !t.h.cons && text.is_some();
            ensure!(r.is_some() == want, "&str {api}: accepted={} expected={want}", r.is_some());
            if let Some((n, x)) = r {
                ensure!(n == rest && Some(x) == text.as_deref(), "&str {api}: value");
                ensure!(x.to_der_vec().map_err(|e| e.to_string())? == spec::prim(12, c), "&str encoding");
            }
        }
        let (acc, oct) = if t.h.cons { let (a, x) = segs(c, 4, 5, true); (a, octets(&x)) } else { (Acc::Yes, c.to_vec()) };
        let text = utf8(&oct);
        let acc = if text.is_none() { Acc::No } else { acc };
        let (ber, der) = all_ifaces!(String, b);
        for (api, r) in ber {
            acc_check(&format!("String {api}"), &r, acc)?;
            if let Some((n, x)) = r {
                ensure!(n == rest && Some(&x) == text.as_ref(), "String {api}: {x:?}");
                ensure!(x.to_der_vec().map_err(|e| e.to_string())? == spec::prim(12, &oct), "String encoding");
            }
        }
        for (api, r) in der {
            let want = !t.h.cons && acc == Acc::Yes;
            ensure!(r.is_some() == want, "String {api}: accepted={} expected={want}", r.is_some());
        }
    }
    Ok(nt)
}

const STAGS: [u32; 12] = [12, 18, 19, 20, 21, 22, 25, 26, 27, 7, 30, 28];

fn gen_strings(g: &mut G) {
    for t in STAGS {
        g.case(&spec::prim(t, &[]));
        for x in 0..=255u8 {
            for pre in [&b""[..], b"1", b"12 ", b"\xc3", b"\xe0\xa0", b"\xf0\x90\x80", b"\0\0\0", b"\0", b"\xd8\0\xdc"] {
                let mut c = pre.to_vec();
                c.push(x);
                g.case(&spec::prim(t, &c));
                c.push(b'3');
                g.case(&spec::prim(t, &c));
            }
        }
    }
    // UTF-8: all 2-octet strings, and 3/4-octet strings over class representatives
    for a in 0x80..=255u8 {
        for b in 0..=255u8 {
            g.case(&spec::prim(12, &[a, b]));
        }
    }
    let reps = [0x00, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf8, 0xff];
    let mut ws = vec![];
    collect(&reps, 3, &mut ws);
    collect(&[0x7f, 0x80, 0x8f, 0x90, 0xbf, 0xc2, 0xe0, 0xf0, 0xf4], 4, &mut ws);
    for w in &ws {
        g.case(&spec::prim(12, w));
    }
    // UTF-16 / UTF-32 boundaries
    let u16s = [0u16, 0x41, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xd801, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfeff, 0xfffe, 0xffff];
    for a in u16s {
        g.case(&spec::prim(30, &a.to_be_bytes()));
        for b in u16s {
            g.case(&spec::prim(30, &[a.to_be_bytes(), b.to_be_bytes()].concat()));
            for c in [0x41u16, 0xd800, 0xdc00] {
                g.case(&spec::prim(30, &[a.to_be_bytes(), b.to_be_bytes(), c.to_be_bytes()].concat()));
            }
        }
    }
    let u32s = [0u32, 0x41, 0x80, 0xff, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x1000041, 0x80000041, 0xffffffff];
    for a in u32s {
        g.case(&spec::prim(28, &a.to_be_bytes()));
        for b in u32s {
            g.case(&spec::prim(28, &[a.to_be_bytes(), b.to_be_bytes()].concat()));
        }
    }
    for n in [127usize, 128, 256, 1000] {
        for t in STAGS {
            let c: Vec<u8> = match t {
                30 => [0u8, 0x37].repeat(n),
                28 => [0u8, 0, 0, 0x37].repeat(n),
                _ => vec![b'7'; n],
            };
            g.case(&spec::prim(t, &c));
        }
    }
    for _ in 0..g.n(50_000) {
        let t = g.rng.pick(&STAGS);
        let chars = ['0', '9', ' ', 'a', 'Z', '*', '@', '\'', '=', '?', '\u{7f}', '\u{1}', '\u{e9}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '_', '&'];
        let n = g.rng.below(8);
        let m = if g.rng.chance(1, 2) { 10 } else { chars.len() };
        let s: String = (0..n).map(|_| chars[g.rng.below(m)]).collect();
        let mut c: Vec<u8> = match t {
            30 => s.encode_utf16().flat_map(|u| u.to_be_bytes()).collect(),
            28 => s.chars().flat_map(|u| (u as u32).to_be_bytes()).collect(),
            _ => s.into_bytes(),
        };
        if g.rng.chance(1, 5) {
            c = crate::util::mutate(&mut g.rng, &c);
        }
        let mut v = if g.rng.chance(1, 2) {
            // segmented: cut anywhere, also inside a character
            let mut parts = vec![];
            let mut rest = &c[..];
            while !rest.is_empty() {
                let k = 1 + g.rng.below(rest.len());
                parts.extend(spec::prim(4, &rest[..k]));
                rest = &rest[k..];
                if g.rng.chance(1, 6) {
                    parts = spec::cons(4, &parts);
                }
            }
            if g.rng.chance(1, 12) {
                parts.extend(spec::prim(t, b"7"));
            }
            if g.rng.chance(1, 2) {
                let mut w = spec::enc_tag(0, true, t);
                w.push(0x80);
                w.extend(parts);
                w.extend([0, 0]);
                w
            } else {
                spec::cons(t, &parts)
            }
        } else {
            crate::util::enc_loose(&mut g.rng, 0, false, t, &c)
        };
        if g.rng.chance(1, 4) {
            v.extend([5, 0]);
        }
        g.case(&v);
    }
}

pub fn kinds(v: &mut Vec<Kind>) {
    kind!(v, "P10", "octet_bit", "OCTET/BIT STRING objects: every primitive content <= 1 octet, class representatives of length 2, every (unused, last octet), depth ladder 0..8 in 4 forms, bad segments in every position, seeded segment trees and mutations", octet_bit, gen_octet_bit);
    kind!(v, "P10", "bit_slice", "BitString from every sub-range of 1..3 octets, seeded longer", bit_slice, gen_bit_slice);
    kind!(v, "P11", "oid_decode", "OID/RELATIVE-OID contents: all of <= 2 octets, all words over 10 octets up to 5 (6), arcs at all 2^k boundaries, seeded", oid_decode, gen_oid_decode);
    kind!(v, "P11", "oid_build", "arc lists: all triples over 21 boundary arcs, 2^k boundaries, seeded", oid_build, gen_oid_build);
    kind!(v, "P11", "oid_macro", "oid! literals", oid_macro, |g: &mut G| g.case(&[]));
    kind!(v, "P12", "strings", "restricted strings: every octet in several contexts for each of 12 types, all UTF-8 pairs, UTF-8/16/32 boundary words, segmented forms cut anywhere, seeded", strings, gen_strings);
}
