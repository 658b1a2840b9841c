//! P01 header decoding, P02 header encoding, P06 content delimitation, P19 input spans
use crate::run::{Kind, G, R};
use crate::spec::{self, hex};
use crate::util::*;
use asn1_rs::nom::Input as _;
use asn1_rs::*;

pub fn class_of(c: u8) -> Class {
    match c & 3 {
        0 => Class::Universal,
        1 => Class::Application,
        2 => Class::ContextSpecific,
        _ => Class::Private,
    }
}

pub fn len_of(l: Option<u64>) -> Length {
    match l {
        Some(n) => Length::Definite(n as usize),
        None => Length::Indefinite,
    }
}

/// compare a decoded header with the specification
pub fn same_header(h: &Header, s: &spec::Hdr, b: &[u8], api: &str) -> Result<(), String> {
    ensure!(h.class() as u8 == s.class, "{api}: class {:?} for {}", h.class(), hex(b));
    ensure!(h.constructed() == s.cons && h.is_constructed() == s.cons && h.is_primitive() != s.cons, "{api}: constructed bit");
    ensure!(h.tag().0 == s.tag, "{api}: tag {} expected {}", h.tag().0, s.tag);
    ensure!(h.length() == len_of(s.len), "{api}: length {:?} expected {:?}", h.length(), s.len);
    ensure!(h.raw_tag() == Some(&b[..s.tag_octets]), "{api}: raw tag {:?}", h.raw_tag());
    let rh = h.raw_header().map(|i| i.as_bytes2());
    ensure!(rh == Some(&b[..s.octets]), "{api}: raw header {:?}", rh);
    Ok(())
}

fn hdr(b: &[u8]) -> R {
    let s = spec::hdr(b);
    let mut nt = false;
    for der in [false, true] {
        let expect = match &s {
            Ok(h) if der && h.len.is_none() => Err(spec::Bad::Invalid),
            x => x.clone(),
        };
        let r = if der { Header::parse_der(Input::from(b)) } else { Header::parse_ber(Input::from(b)) };
        match (&expect, &r) {
            (Ok(e), Ok((rem, h))) => {
                nt = true;
                same_header(h, e, b, if der { "parse_der" } else { "parse_ber" })?;
                ensure!(rem.as_bytes2() == &b[e.octets..], "remaining bytes");
                ensure!(rem.start() == e.octets && rem.end() == b.len(), "remaining span {:?}", rem.span());
            }
            (Err(_), Err(_)) => {}
            (e, r) => return Err(format!("der={der}: expected {e:?}, got ok={}", r.is_ok())),
        }
        let r = if der { <Header as FromDer>::from_der(b) } else { <Header as FromBer>::from_ber(b) };
        match (&expect, &r) {
            (Ok(e), Ok((rem, h))) => {
                same_header(h, e, b, if der { "from_der" } else { "from_ber" })?;
                ensure!(*rem == &b[e.octets..], "remaining bytes (from)");
            }
            (Err(_), Err(_)) => {}
            (e, r) => return Err(format!("bytes api der={der}: expected {e:?}, got ok={}", r.is_ok())),
        }
    }
    // object-level entry points see the same header
    for der in [false, true] {
        let any = if der { Any::from_der(b) } else { Any::from_ber(b) };
        if let Ok((_, any)) = any {
            let e = match &s {
                Ok(e) => e,
                Err(_) => return Err("Any accepted, header malformed".into()),
            };
            ensure!(!(der && e.len.is_none()), "Any::from_der accepted indefinite");
            same_header(&any.header, e, b, "Any")?;
        }
    }
    Ok(nt || s.is_err() && !b.is_empty())
}

fn gen_hdr(g: &mut G) {
    g.all(0);
    g.all(1);
    g.all(2);
    // every identifier octet with a set of long-form octets
    let ia: Vec<u8> = vec![0, 1, 0x1e, 0x1f, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0xff];
    let la: Vec<u8> = vec![0, 1, 0x7f, 0x80, 0x81, 0x82, 0x84, 0x88, 0x89, 0xfe, 0xff];
    for b0 in [0x1f, 0x3f, 0x5f, 0x9f, 0xff, 0xbf] {
        for n in 1..=7 {
            let mut words: Vec<Vec<u8>> = vec![vec![]];
            for _ in 0..n {
                let mut w2 = vec![];
                for w in &words {
                    for &x in if n <= 4 { &ia[..] } else { &[0x00, 0x0f, 0x10, 0x7f, 0x80, 0x8f, 0x90, 0xff][..] } {
                        if w.last().map(|l| *l < 0x80).unwrap_or(false) {
                            continue;
                        }
                        let mut v = w.clone();
                        v.push(x);
                        w2.push(v);
                    }
                }
                words = w2;
                if words.len() > 60_000 {
                    break;
                }
            }
            for w in &words {
                let mut v = vec![b0];
                v.extend(w);
                v.push(0x05);
                g.case(&v);
                if g.stop {
                    return;
                }
            }
        }
    }
    for b0 in [0x02, 0x30, 0x9f, 0x5f, 0xa0, 0xdf, 0x1f] {
        for l in 0..=255u8 {
            for fill in [0u8, 1, 0x7f, 0x80, 0xff] {
                for lead in 0..=3usize {
                    let mut v = if b0 & 0x1f == 0x1f { vec![b0, 0x81, 0x05, l] } else { vec![b0, l] };
                    let n = if l & 0x80 != 0 { (l & 0x7f) as usize } else { 2 };
                    let mut c = vec![fill; n];
                    // leading zeros, only the last octets are significant
                    let keep = [n, 8, 9, 4][lead].min(n);
                    for x in c.iter_mut().take(n - keep) {
                        *x = 0;
                    }
                    v.extend(&c);
                    g.case(&v);
                    let k = v.len() - 1;
                    g.case(&v[..k]);
                    v.extend([1, 2, 3]);
                    g.case(&v);
                }
            }
        }
    }
    g.upto(&la, if g.thorough { 6 } else { 5 });
    for _ in 0..g.n(150_000) {
        let class = g.rng.below(4) as u8;
        let cons = g.rng.chance(1, 2);
        let tag = rand_tag(&mut g.rng);
        let mut v = spec::enc_tag(class, cons, tag);
        if g.rng.chance(1, 6) && tag < 31 {
            v = vec![(class << 6) | if cons { 0x20 } else { 0 } | 0x1f, 0x80, tag as u8];
        }
        match g.rng.below(4) {
            0 => v.push(g.rng.byte()),
            1 => v.push(0x80),
            _ => {
                let n = g.rng.below(10);
                let c = g.rng.bytes(n);
                v.push(0x80 + n as u8);
                v.extend(c);
            }
        }
        let n = g.rng.below(4);
        let x = g.rng.bytes(n);
        v.extend(x);
        if g.rng.chance(1, 3) {
            v = mutate(&mut g.rng, &v);
        }
        g.case(&v);
        if g.stop {
            return;
        }
    }
}

// ---------------------------------------------------------------- P02

fn dec_params(b: &[u8]) -> Option<(u8, bool, u32, Option<u64>)> {
    if b.len() != 14 {
        return None;
    }
    let tag = u32::from_be_bytes(b[2..6].try_into().unwrap());
    let len = u64::from_be_bytes(b[6..14].try_into().unwrap());
    Some((b[0] & 3, b[1] & 1 != 0, tag, if b[1] & 2 != 0 { None } else { Some(len) }))
}

fn enc_params(class: u8, cons: bool, tag: u32, len: Option<u64>) -> Vec<u8> {
    let mut v = vec![class, cons as u8 | if len.is_none() { 2 } else { 0 }];
    v.extend(tag.to_be_bytes());
    v.extend(len.unwrap_or(0).to_be_bytes());
    v
}

fn hdr_enc(b: &[u8]) -> R {
    let (class, cons, tag, len) = match dec_params(b) {
        Some(x) => x,
        None => return Ok(false),
    };
    let mut expect = spec::enc_tag(class, cons, tag);
    match len {
        Some(n) => expect.extend(spec::enc_len(n)),
        None => expect.push(0x80),
    }
    let h = Header::new(class_of(class), cons, Tag(tag), len_of(len));
    for (what, v) in [("to_ber_vec", h.to_ber_vec()), ("to_der_vec", h.to_der_vec())] {
        let v = v.map_err(|e| format!("{what}: {e:?}"))?;
        ensure!(v == expect, "{what}: {} expected {}", hex(&v), hex(&expect));
    }
    let mut w = vec![];
    let n = h.ber_write_header(&mut w).map_err(|e| format!("{e:?}"))?;
    ensure!(w == expect && n == w.len(), "ber_write_header: {} n={n}", hex(&w));
    w.clear();
    let n = h.der_write_header(&mut w).map_err(|e| format!("{e:?}"))?;
    ensure!(w == expect && n == w.len(), "der_write_header: {} n={n}", hex(&w));
    // raw encoders
    let mut w = vec![];
    let mut e = BerGenericEncoder::new();
    let n1 = e.write_tag_generic(class_of(class), cons, Tag(tag), &mut w).map_err(|e| format!("{e:?}"))?;
    ensure!(n1 == w.len() && w == spec::enc_tag(class, cons, tag), "write_tag_generic n={n1} {}", hex(&w));
    ensure!(ber_tag_length(Tag(tag)) == n1, "ber_tag_length {} != {n1}", ber_tag_length(Tag(tag)));
    let mut w = vec![];
    let n2 = e.write_length(len_of(len), &mut w).map_err(|e| format!("{e:?}"))?;
    ensure!(n2 == w.len() && w[..] == expect[n1..], "write_length n={n2} {}", hex(&w));
    let ll = ber_length_length(len_of(len)).map_err(|e| format!("{e:?}"))?;
    ensure!(ll == n2, "ber_length_length {ll} != {n2}");
    let hl = ber_header_length(Tag(tag), len_of(len)).map_err(|e| format!("{e:?}"))?;
    ensure!(hl == n1 + n2, "ber_header_length {hl} != {}", n1 + n2);
    if let Some(n) = len {
        if n < u64::MAX - 100 {
            let t = ber_total_length(Tag(tag), len_of(len));
            ensure!(t == Length::Definite(n as usize + hl), "ber_total_length {t:?}");
            let t = Length::Definite(n as usize) + hl;
            ensure!(t == Length::Definite(n as usize + hl), "Length + usize");
            let t = hl + Length::Definite(n as usize);
            ensure!(t == Length::Definite(n as usize + hl), "usize + Length");
            let mut t = Length::Definite(n as usize);
            t += hl;
            ensure!(t == Length::Definite(n as usize + hl), "Length += usize");
        }
    } else {
        ensure!(ber_total_length(Tag(tag), len_of(len)) == Length::Indefinite, "total of indefinite");
    }
    // the two specialised encoders
    let mut w = vec![];
    let n = Constructed::new().write_tag_info(class_of(class), cons, Tag(tag), &mut w).map_err(|e| format!("{e:?}"))?;
    ensure!(n == w.len() && w == spec::enc_tag(class, true, tag), "Constructed encoder");
    let mut w = vec![];
    let n = ConstructedIndefinite::new().write_tag_info(class_of(class), cons, Tag(tag), &mut w).map_err(|e| format!("{e:?}"))?;
    ensure!(n == w.len() && w == spec::enc_tag(class, true, tag), "ConstructedIndefinite encoder");
    let mut w = vec![];
    let n = Primitive::<19>::new().write_tag_info(class_of(class), cons, Tag(tag), &mut w).map_err(|e| format!("{e:?}"))?;
    ensure!(n == 1 && w == [19], "Primitive encoder");
    // round trip
    if cons || len.is_some() {
        let (rem, d) = Header::parse_ber(Input::from(&expect)).map_err(|e| format!("round trip: {e:?}"))?;
        ensure!(rem.is_empty(), "round trip rem");
        let s = spec::hdr(&expect).map_err(|e| format!("{e:?}"))?;
        same_header(&d, &s, &expect, "round trip")?;
        ensure!(d.class() == h.class() && d.constructed() == cons && d.tag() == h.tag() && d.length() == h.length(), "round trip differs");
        let v2 = d.to_ber_vec().map_err(|e| format!("{e:?}"))?;
        ensure!(v2 == expect, "re-encode");
    }
    Ok(true)
}

fn gen_hdr_enc(g: &mut G) {
    let mut tags: Vec<u32> = (0..300).collect();
    let mut lens: Vec<u64> = (0..300).collect();
    for k in 5..32 {
        for d in [-1i64, 0, 1] {
            tags.push(((1i64 << k) + d) as u32);
        }
    }
    tags.push(u32::MAX);
    for k in 7..64 {
        for d in [-1i128, 0, 1] {
            lens.push(((1i128 << k) + d) as u64);
        }
    }
    lens.push(u64::MAX);
    for class in 0..4 {
        for cons in [false, true] {
            for &t in &tags {
                g.case(&enc_params(class, cons, t, Some(5)));
                g.case(&enc_params(class, cons, t, Some(70000)));
                g.case(&enc_params(class, cons, t, None));
            }
            for &l in &lens {
                g.case(&enc_params(class, cons, 2, Some(l)));
                g.case(&enc_params(class, cons, 1000, Some(l)));
            }
        }
    }
    for _ in 0..g.n(60_000) {
        let t = rand_tag(&mut g.rng);
        let sh = g.rng.below(64);
        let l = g.rng.u64() >> sh;
        let c = g.rng.below(4) as u8;
        let k = g.rng.chance(1, 2);
        let ind = g.rng.chance(1, 8);
        g.case(&enc_params(c, k, t, if ind { None } else { Some(l) }));
    }
}

// ---------------------------------------------------------------- P06

fn delimit(b: &[u8]) -> R {
    let mut nt = false;
    // whole-object entry points
    let ber = spec::tlv_ber(b);
    let der = spec::tlv_der(b);
    let chk = |what: &str, e: &std::result::Result<spec::Tlv, spec::Bad>, got: Option<(usize, Vec<u8>)>| -> std::result::Result<(), String> {
        match (e, got) {
            (Ok(t), Some((rem, data))) => {
                ensure!(rem == b.len() - t.total, "{what}: remaining {rem}, expected {}", b.len() - t.total);
                ensure!(data == &b[t.c0..t.c1], "{what}: content {} expected {}", hex(&data), hex(&b[t.c0..t.c1]));
                Ok(())
            }
            (Err(_), None) => Ok(()),
            (e, g) => Err(format!("{what}: expected {e:?} got {g:?}")),
        }
    };
    let r = Any::parse_ber(Input::from(b));
    if let (Ok((rem, a)), Ok(t)) = (&r, &ber) {
        ensure!(rem.as_bytes2() == &b[t.total..] && rem.span() == &(t.total..b.len()), "remaining span {:?}", rem.span());
        ensure!(a.data.span() == &(t.c0..t.c1), "content span {:?}", a.data.span());
    }
    chk("Any::parse_ber", &ber, r.ok().map(|(r, a)| (r.len(), a.data.as_bytes2().to_vec())))?;
    let r = Any::parse_der(Input::from(b));
    if let (Ok((rem, a)), Ok(t)) = (&r, &der) {
        ensure!(rem.span() == &(t.total..b.len()), "der remaining span {:?}", rem.span());
        ensure!(a.data.span() == &(t.c0..t.c1), "der content span {:?}", a.data.span());
    }
    chk("Any::parse_der", &der, r.ok().map(|(r, a)| (r.len(), a.data.as_bytes2().to_vec())))?;
    chk("Any::from_ber", &ber, Any::from_ber(b).ok().map(|(r, a)| (r.len(), a.data.as_bytes2().to_vec())))?;
    chk("Any::from_der", &der, Any::from_der(b).ok().map(|(r, a)| (r.len(), a.data.as_bytes2().to_vec())))?;
    chk("parse_ber_as_input", &ber, Any::parse_ber_as_input(Input::from(b)).ok().map(|(r, (_, d))| (r.len(), d.as_bytes2().to_vec())))?;
    chk("parse_der_as_input", &der, Any::parse_der_as_input(Input::from(b)).ok().map(|(r, (_, d))| (r.len(), d.as_bytes2().to_vec())))?;
    // content delimitation with explicit depth limits
    if let Ok(h) = spec::hdr(b) {
        let (rem, hd) = Header::parse_ber(Input::from(b)).map_err(|e| format!("header {e:?}"))?;
        let body = &b[h.octets..];
        for depth in [0usize, 1, 2, 3, 8, 50] {
            let e = spec::content(body, &h, depth);
            let g = BerMode::get_object_content(&hd, rem.clone(), depth);
            match (&e, &g) {
                (Ok((used, clen)), Ok((r, c))) => {
                    ensure!(c.as_bytes2() == &body[..*clen], "get_object_content({depth}) content {:?}", c);
                    ensure!(r.as_bytes2() == &body[*used..], "get_object_content({depth}) rem {:?}", r);
                    ensure!(c.span() == &(h.octets..h.octets + clen), "span {:?}", c.span());
                    ensure!(r.span() == &(h.octets + used..b.len()), "span {:?}", r.span());
                    nt = true;
                }
                (Err(_), Err(_)) => {}
                _ => {
                    if depth == 0 && h.len.is_some() && g.is_err() {
                        continue;
                    }
                    return Err(format!("get_object_content({depth}): expected {e:?}, got {:?}", g.map(|(r, c)| (r.len(), c.len()))));
                }
            }
            if depth == 8 {
                let g2 = hd.parse_ber_content(rem.clone());
                ensure!(g2.is_ok() == e.is_ok(), "Header::parse_ber_content depth");
                if let (Ok((r, c)), Ok((used, clen))) = (g2, &e) {
                    ensure!(r.len() == body.len() - used && c.len() == *clen, "Header::parse_ber_content");
                }
            }
            if depth == 50 {
                let g2 = ber_get_content(&hd, rem.clone());
                ensure!(g2.is_ok() == e.is_ok(), "ber_get_content");
                if let (Ok((r, c)), Ok((used, clen))) = (g2, &e) {
                    ensure!(r.len() == body.len() - used && c.len() == *clen, "ber_get_content");
                }
            }
        }
        let e = spec::tlv_der(b);
        for g in [der_get_content(&hd, rem.clone()), hd.parse_der_content(rem.clone()), Any::parse_der_content(rem.clone(), &hd)] {
            ensure!(g.is_ok() == e.is_ok(), "der_get_content ok={} expected {e:?}", g.is_ok());
            if let (Ok((r, c)), Ok(t)) = (g, &e) {
                ensure!(r.as_bytes2() == &b[t.total..] && c.as_bytes2() == &b[t.c0..t.c1], "der content");
            }
        }
    }
    Ok(nt)
}

fn nest(n: usize, inner: &[u8], eoc: bool) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..n {
        v.extend([0x30, 0x80]);
    }
    v.extend(inner);
    if eoc {
        for _ in 0..n {
            v.extend([0, 0]);
        }
    }
    v
}

fn gen_delimit(g: &mut G) {
    g.upto(&[0x00, 0x01, 0x02, 0x04, 0x24, 0x30, 0x80, 0xa0], if g.thorough { 7 } else { 6 });
    g.upto(&[0x00, 0x20, 0x30, 0x80, 0x40, 0x1f], if g.thorough { 8 } else { 7 });
    g.with_prefix(&[0x30, 0x80], &[0x00, 0x20, 0x40, 0x80, 0xa0, 0x01, 0x30], if g.thorough { 7 } else { 6 });
    for n in 0..=60 {
        for inner in [&[][..], &[0x05, 0x00], &[0x02, 0x01, 0x05], &[0, 0], &[0x02, 0x05, 0x01], &[0x40, 0x00], &[0x20, 0x00]] {
            g.case(&nest(n, inner, true));
            g.case(&nest(n, inner, false));
            let mut v = nest(n, inner, true);
            v.extend([0, 0, 1]);
            g.case(&v);
            let v = spec::enc(0, true, 16, &nest(n, inner, true));
            g.case(&v);
            g.case(&nest(1, &v, true));
        }
    }
    for n in [126usize, 127, 128, 129, 255, 256, 257, 65535, 65536] {
        for d in [-1i64, 0, 1] {
            let mut v = vec![4];
            v.extend(spec::enc_len(n as u64));
            v.extend(vec![0u8; (n as i64 + d) as usize]);
            g.case(&v);
            g.case(&nest(1, &v, true));
        }
    }
    for _ in 0..g.n(120_000) {
        let d = 1 + g.rng.below(5);
        let mut v = rand_tlv(&mut g.rng, d);
        if g.rng.chance(1, 2) {
            let n = g.rng.below(5);
            let x = g.rng.bytes(n);
            v.extend(x);
        }
        if g.rng.chance(1, 3) {
            v = mutate(&mut g.rng, &v);
        }
        g.case(&v);
        if g.stop {
            return;
        }
    }
}

// ---------------------------------------------------------------- P19

fn spans(b: &[u8]) -> R {
    // b[0] = selector of operations, rest = data
    if b.is_empty() {
        return Ok(false);
    }
    let ops = b[0];
    let full = &b[1..];
    let mut cur = Input::from(full);
    ensure!(cur.span() == &(0..full.len()) && cur.start() == 0 && cur.end() == full.len(), "initial span");
    ensure!(Input::from_slice(full) == cur && Input::from(&full.to_vec()).span() == cur.span(), "constructors");
    let (mut s, mut e) = (0usize, full.len());
    let mut x = ops as usize;
    let mut nt = false;
    for _ in 0..4 {
        let len = e - s;
        let k = x % (len + 1);
        let op = (x / 7) % 4;
        x = x.wrapping_mul(31).wrapping_add(17) % 100_003;
        ensure!(cur.len() == len && cur.input_len() == len && cur.is_empty() == (len == 0), "len");
        ensure!(cur.as_bytes2() == &full[s..e] && cur.as_ref() == &full[s..e], "bytes");
        ensure!(cur.slice_index(k) == Ok(k), "slice_index");
        ensure!(cur.slice_index(len).is_ok() && cur.slice_index(len + 1) == Err(Needed::new(1)), "slice_index beyond");
        ensure!(cur.iter_elements().eq(full[s..e].iter().cloned()), "iter_elements");
        ensure!(cur.iter_indices().eq(full[s..e].iter().cloned().enumerate()), "iter_indices");
        let p = full[s..e].iter().position(|c| *c == ops);
        ensure!(cur.position(|c| c == ops) == p, "position");
        let c2 = cur.const_clone();
        ensure!(c2 == cur, "const_clone");
        let (rest, pre) = cur.take_split(k);
        ensure!(pre == cur.take(k) && rest == cur.take_from(k), "take_split = (take_from, take)");
        ensure!(pre.span() == &(s..s + k) && rest.span() == &(s + k..e), "spans of take/take_from");
        ensure!(pre.as_bytes2() == &full[s..s + k] && rest.as_bytes2() == &full[s + k..e], "bytes of take/take_from");
        nt |= len > 0;
        match op {
            0 | 1 => {
                cur = rest;
                s += k;
            }
            2 => {
                cur = pre;
                e = s + k;
            }
            _ => {
                cur = rest.take(rest.len() / 2);
                s += k;
                e = s + (e - s) / 2;
            }
        }
        ensure!(cur.span() == &(s..e), "span after op {op}");
    }
    ensure!(cur.clone().into_bytes() == &full[s..e], "into_bytes");
    Ok(nt)
}

fn gen_spans(g: &mut G) {
    for op in 0..=255u8 {
        for n in 0..12usize {
            let mut v = vec![op];
            v.extend((0..n).map(|i| (i as u8).wrapping_mul(op)));
            g.case(&v);
        }
    }
    for _ in 0..g.n(20_000) {
        let n = g.rng.below(64);
        let v = g.rng.bytes(n + 1);
        g.case(&v);
    }
}

/// spans of every parsed sub-object point at its own octets of the outermost input
fn tree_spans(b: &[u8]) -> R {
    fn walk(full: &[u8], base: usize, a: &Any, der: bool, depth: usize) -> R {
        let mut nt = false;
        let sp = a.data.span().clone();
        ensure!(sp.start >= base && sp.end <= full.len() && sp.start <= sp.end, "span {sp:?} out of range");
        ensure!(&full[sp.clone()] == a.data.as_bytes2(), "span does not designate the content");
        if let Some(rh) = a.header.raw_header() {
            let r = rh.span().clone();
            ensure!(&full[r.clone()] == rh.as_bytes2() && r.end == sp.start, "raw header span {r:?}");
        }
        if a.header.is_constructed() && depth < 12 {
            let cont = a.data.as_bytes2();
            let parts = spec::split(cont, der);
            let mut pos = sp.start;
            let mut items = vec![];
            if der {
                for r in a.iter_elements::<DerMode>() {
                    items.push(r.map_err(|e| format!("{e:?}")));
                }
            } else {
                for r in a.iter_elements::<BerMode>() {
                    items.push(r.map_err(|e| format!("{e:?}")));
                }
            }
            match parts {
                Some(p) => {
                    ensure!(p.len() == items.len(), "iterator yields {} items, expected {}", items.len(), p.len());
                    for (i, (t, bytes)) in items.into_iter().zip(p) {
                        let (span, sub) = i?;
                        ensure!(span.as_bytes2() == bytes, "element octets");
                        ensure!(span.span() == &(pos..pos + t.total), "element span {:?}", span.span());
                        ensure!(sub.data.span() == &(pos + t.c0..pos + t.c1), "element content span {:?}", sub.data.span());
                        nt = true;
                        walk(full, pos, &sub, der, depth + 1)?;
                        pos += t.total;
                    }
                }
                None => {
                    ensure!(items.last().map(|i| i.is_err()).unwrap_or(false), "iterator over malformed content reports no error");
                    ensure!(items.iter().filter(|i| i.is_err()).count() == 1, "iterator continues after error");
                }
            }
        }
        Ok(nt)
    }
    let mut nt = false;
    if let Ok((_, a)) = Any::parse_ber(Input::from(b)) {
        nt |= walk(b, 0, &a, false, 0)?;
    }
    if let Ok((_, a)) = Any::parse_der(Input::from(b)) {
        nt |= walk(b, 0, &a, true, 0)?;
    }
    Ok(nt)
}

fn gen_tree(g: &mut G) {
    g.with_prefix(&[0x30, 0x06], &[0x00, 0x01, 0x02, 0x30, 0x80, 0x24], 6);
    for _ in 0..g.n(80_000) {
        let n = g.rng.below(4);
        let mut c = vec![];
        for _ in 0..=n {
            c.extend(rand_tlv(&mut g.rng, 3));
        }
        let mut v = if g.rng.chance(1, 3) {
            let mut v = vec![0x30, 0x80];
            v.extend(&c);
            v.extend([0, 0]);
            v
        } else {
            spec::cons(16, &c)
        };
        if g.rng.chance(1, 3) {
            v = mutate(&mut g.rng, &v);
        }
        g.case(&v);
        if g.stop {
            return;
        }
    }
}

pub fn kinds(v: &mut Vec<Kind>) {
    kind!(v, "P01", "hdr_decode", "all strings of <=2 octets; long-form tag/length boundary grid; all strings of <=5 over 11 interesting octets; seeded random headers", hdr, gen_hdr);
    kind!(v, "P02", "hdr_encode", "(class,constructed,tag,length) grid around all powers of two; seeded random", hdr_enc, gen_hdr_enc);
    kind!(v, "P06", "delimit", "all strings of <=6/7 over TLV alphabets; nesting 0..60; length boundaries; seeded random TLV trees with mutations", delimit, gen_delimit);
    kind!(v, "P19", "input_ops", "every op selector x 12 sizes; seeded random", spans, gen_spans);
    kind!(v, "P19", "tree_spans", "seeded random TLV trees with mutations; all 6-octet sequence bodies over 6 octets", tree_spans, gen_tree);
}
