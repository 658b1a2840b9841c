//! Independent executable specification of BER/DER (X.690), written from the standard
//! and from the property statements, not from the crate under test.
#![allow(dead_code)]

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Hdr {
    pub class: u8,
    pub cons: bool,
    pub tag: u32,
    /// None = indefinite
    pub len: Option<u64>,
    pub tag_octets: usize,
    pub octets: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bad {
    Short,
    Invalid,
}

/// Identifier + length octets (X.690 8.1.2, 8.1.3)
pub fn hdr(b: &[u8]) -> Result<Hdr, Bad> {
    let b0 = *b.first().ok_or(Bad::Short)?;
    let class = b0 >> 6;
    let cons = b0 & 0x20 != 0;
    let mut p = 1;
    let mut tag = (b0 & 0x1f) as u32;
    if tag == 31 {
        let mut v: u128 = 0;
        let mut n = 0;
        loop {
            let c = *b.get(p).ok_or(Bad::Short)?;
            p += 1;
            n += 1;
            if n > 5 {
                return Err(Bad::Invalid);
            }
            v = v * 128 + (c & 0x7f) as u128;
            if v > u32::MAX as u128 {
                return Err(Bad::Invalid);
            }
            if c < 0x80 {
                break;
            }
        }
        tag = v as u32;
    }
    let tag_octets = p;
    let l0 = *b.get(p).ok_or(Bad::Short)?;
    p += 1;
    let len = if l0 < 0x80 {
        Some(l0 as u64)
    } else if l0 == 0x80 {
        if !cons {
            return Err(Bad::Invalid);
        }
        None
    } else if l0 == 0xff {
        return Err(Bad::Invalid);
    } else {
        let n = (l0 & 0x7f) as usize;
        if b.len() - p < n {
            return Err(Bad::Short);
        }
        let mut v: u64 = 0;
        for i in 0..n {
            if v >> 56 != 0 {
                return Err(Bad::Invalid);
            }
            v = v * 256 + b[p + i] as u64;
        }
        p += n;
        Some(v)
    };
    Ok(Hdr { class, cons, tag, len, tag_octets, octets: p })
}

/// Number of octets consumed by the content (including EOC for indefinite) and number of content octets.
/// `depth`: remaining nesting budget (an object may be visited only with depth >= 1)
pub fn content(b: &[u8], h: &Hdr, depth: usize) -> Result<(usize, usize), Bad> {
    if depth == 0 {
        return Err(Bad::Invalid);
    }
    match h.len {
        Some(l) => {
            if (b.len() as u64) < l {
                Err(Bad::Short)
            } else {
                Ok((l as usize, l as usize))
            }
        }
        None => {
            let mut p = 0;
            loop {
                let h2 = hdr(&b[p..])?;
                let (n, _) = content(&b[p + h2.octets..], &h2, depth - 1)?;
                let is_eoc = h2.class == 0 && !h2.cons && h2.tag == 0 && h2.len == Some(0);
                if is_eoc {
                    // 8.1.5: exactly two octets
                    if h2.octets != 2 {
                        return Err(Bad::Invalid);
                    }
                    return Ok((p + h2.octets, p));
                }
                p += h2.octets + n;
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct Tlv {
    pub h: Hdr,
    /// content range, relative to start of TLV
    pub c0: usize,
    pub c1: usize,
    /// total octets
    pub total: usize,
}

pub fn tlv_ber(b: &[u8]) -> Result<Tlv, Bad> {
    let h = hdr(b)?;
    let (n, c) = content(&b[h.octets..], &h, 50)?;
    Ok(Tlv { c0: h.octets, c1: h.octets + c, total: h.octets + n, h })
}

pub fn tlv_der(b: &[u8]) -> Result<Tlv, Bad> {
    let h = hdr(b)?;
    let l = h.len.ok_or(Bad::Invalid)?;
    if ((b.len() - h.octets) as u64) < l {
        return Err(Bad::Short);
    }
    let l = l as usize;
    Ok(Tlv { c0: h.octets, c1: h.octets + l, total: h.octets + l, h })
}

pub fn tlv(b: &[u8], der: bool) -> Result<Tlv, Bad> {
    if der { tlv_der(b) } else { tlv_ber(b) }
}

/// split a concatenation of TLVs; None if malformed
pub fn split(b: &[u8], der: bool) -> Option<Vec<(Tlv, &[u8])>> {
    let mut v = vec![];
    let mut p = 0;
    while p < b.len() {
        let t = tlv(&b[p..], der).ok()?;
        let end = p + t.total;
        v.push((t, &b[p..end]));
        p = end;
    }
    Some(v)
}

// ---- encoding

pub fn enc_tag(class: u8, cons: bool, tag: u32) -> Vec<u8> {
    let first = (class << 6) | if cons { 0x20 } else { 0 };
    if tag < 31 {
        return vec![first | tag as u8];
    }
    let mut v = vec![first | 31];
    let mut groups = vec![];
    let mut t = tag;
    loop {
        groups.push((t % 128) as u8);
        t /= 128;
        if t == 0 {
            break;
        }
    }
    for i in (0..groups.len()).rev() {
        v.push(groups[i] | if i > 0 { 0x80 } else { 0 });
    }
    v
}

pub fn enc_len(n: u64) -> Vec<u8> {
    if n < 128 {
        return vec![n as u8];
    }
    let mut v = vec![];
    let mut m = n;
    while m > 0 {
        v.insert(0, (m % 256) as u8);
        m /= 256;
    }
    v.insert(0, 0x80 + v.len() as u8);
    v
}

pub fn enc(class: u8, cons: bool, tag: u32, c: &[u8]) -> Vec<u8> {
    let mut v = enc_tag(class, cons, tag);
    v.extend(enc_len(c.len() as u64));
    v.extend_from_slice(c);
    v
}

pub fn prim(tag: u32, c: &[u8]) -> Vec<u8> {
    enc(0, false, tag, c)
}
pub fn cons(tag: u32, c: &[u8]) -> Vec<u8> {
    enc(0, true, tag, c)
}

/// minimal two's complement of an i128
pub fn enc_i128(v: i128) -> Vec<u8> {
    let b = v.to_be_bytes();
    let mut s = 0;
    while s < 15 && ((b[s] == 0 && b[s + 1] < 0x80) || (b[s] == 0xff && b[s + 1] >= 0x80)) {
        s += 1;
    }
    b[s..].to_vec()
}

pub fn enc_u128(v: u128) -> Vec<u8> {
    let mut b = vec![0u8];
    b.extend_from_slice(&v.to_be_bytes());
    while b.len() > 1 && b[0] == 0 && b[1] < 0x80 {
        b.remove(0);
    }
    b
}

/// strip redundant leading octets of two's complement
pub fn int_min(b: &[u8]) -> &[u8] {
    let mut s = 0;
    while b.len() - s > 1 && ((b[s] == 0 && b[s + 1] < 0x80) || (b[s] == 0xff && b[s + 1] >= 0x80)) {
        s += 1;
    }
    &b[s..]
}

pub fn int_is_min(b: &[u8]) -> bool {
    !b.is_empty() && int_min(b).len() == b.len()
}

/// value as (negative?, i128) if fits in i128
pub fn int_i128(b: &[u8]) -> Option<i128> {
    if b.is_empty() {
        return None;
    }
    let m = int_min(b);
    if m.len() > 16 {
        return None;
    }
    let mut v: i128 = if m[0] >= 0x80 { -1 } else { 0 };
    for &x in m {
        v = (v << 8) | x as i128;
    }
    Some(v)
}

pub fn int_u128(b: &[u8]) -> Option<u128> {
    if b.is_empty() || b[0] >= 0x80 {
        return None;
    }
    let m = int_min(b);
    let m = if m.len() > 1 && m[0] == 0 { &m[1..] } else { m };
    if m.len() > 16 {
        return None;
    }
    let mut v: u128 = 0;
    for &x in m {
        v = (v << 8) | x as u128;
    }
    Some(v)
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn unhex(s: &str) -> Vec<u8> {
    let s: Vec<u8> = s.bytes().filter(|c| c.is_ascii_hexdigit()).collect();
    s.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
}
