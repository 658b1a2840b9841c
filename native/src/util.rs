use crate::run::Rng;
use crate::spec;

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}
macro_rules! kind {
    ($v:ident, $prop:literal, $name:literal, $domain:expr, $check:expr, $gen:expr) => {
        $v.push(crate::run::Kind { prop: $prop, name: $name, domain: $domain, check: $check, gen: $gen });
    };
}

/// random, mostly well-formed TLV tree
pub fn rand_tlv(r: &mut Rng, depth: usize) -> Vec<u8> {
    let class = if r.chance(2, 3) { 0 } else { r.below(4) as u8 };
    if depth > 0 && r.chance(1, 2) {
        let tag = if r.chance(1, 2) { r.pick(&[16u32, 17, 4, 3, 12, 0, 1]) } else { rand_tag(r) };
        let n = r.below(4);
        let mut c = vec![];
        for _ in 0..n {
            c.extend(rand_tlv(r, depth - 1));
        }
        if r.chance(2, 5) {
            let mut v = spec::enc_tag(class, true, tag);
            v.push(0x80);
            v.extend(c);
            v.extend([0, 0]);
            v
        } else {
            enc_loose(r, class, true, tag, &c)
        }
    } else {
        let (tag, c) = rand_prim(r);
        enc_loose(r, class, false, tag, &c)
    }
}

pub fn rand_tag(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => r.below(31) as u32,
        1 => 31 + r.below(100) as u32,
        2 => r.pick(&[30, 31, 127, 128, 16383, 16384, 2097151, 2097152, 268435455, 268435456, u32::MAX, u32::MAX - 1]),
        3 => r.u64() as u32,
        _ => r.below(40) as u32,
    }
}

/// primitive universal tag with plausible content
pub fn rand_prim(r: &mut Rng) -> (u32, Vec<u8>) {
    let tag = r.pick(&[1u32, 2, 2, 3, 4, 5, 6, 9, 10, 12, 13, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 30, 7, 0]);
    let n = r.below(7);
    let c = match tag {
        1 => vec![r.pick(&[0u8, 0xff, 0xff, 1])],
        5 => vec![],
        0 => {
            if r.chance(1, 3) {
                vec![]
            } else {
                r.bytes(n)
            }
        }
        3 => {
            let mut c = vec![r.below(8) as u8];
            c.extend(r.bytes(n));
            c
        }
        12 | 19 | 20 | 21 | 22 | 26 | 27 | 25 | 7 => (0..n).map(|_| r.pick(b"abcXYZ 019'()+,-./:=?*\x7f\xc3\xa9")).collect(),
        18 => (0..n).map(|_| r.pick(b"0123456789 a")).collect(),
        23 => b"991231235959Z".to_vec(),
        24 => b"20221231235959.5Z".to_vec(),
        28 => {
            let mut c = vec![];
            for _ in 0..n {
                c.extend([0, 0, r.below(2) as u8, r.byte()]);
            }
            c
        }
        30 => {
            let mut c = vec![];
            for _ in 0..n {
                c.extend([r.below(3) as u8, r.byte()]);
            }
            c
        }
        _ => r.bytes(n),
    };
    (tag, c)
}

/// sometimes non-minimal length / tag
pub fn enc_loose(r: &mut Rng, class: u8, cons: bool, tag: u32, c: &[u8]) -> Vec<u8> {
    let mut v = spec::enc_tag(class, cons, tag);
    if r.chance(1, 8) {
        let z = 1 + r.below(4);
        let l = spec::enc_len(c.len() as u64);
        let l: Vec<u8> = if c.len() < 128 { l } else { l[1..].to_vec() };
        v.push(0x80 + (z + l.len()) as u8);
        v.extend(vec![0u8; z]);
        v.extend(l);
    } else {
        v.extend(spec::enc_len(c.len() as u64));
    }
    v.extend_from_slice(c);
    v
}

pub fn mutate(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    for _ in 0..1 + r.below(2) {
        match r.below(6) {
            0 if !v.is_empty() => {
                let i = r.below(v.len());
                v[i] = r.ibyte();
            }
            1 if !v.is_empty() => {
                let i = r.below(v.len());
                v[i] ^= 1 << r.below(8);
            }
            2 => {
                let i = r.below(v.len() + 1);
                let x = r.ibyte();
                v.insert(i, x);
            }
            3 if !v.is_empty() => {
                let i = r.below(v.len());
                v.remove(i);
            }
            4 if !v.is_empty() => {
                let i = r.below(v.len());
                v.truncate(i);
            }
            _ if !v.is_empty() => {
                let i = r.below(v.len().min(4));
                v[i] = r.ibyte();
            }
            _ => {}
        }
    }
    v
}
