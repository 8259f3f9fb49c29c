//! Workload generators: keys, families of look-alike keys, messages.
use crate::core::*;
use crate::refimpl as rf;
use std::sync::Arc;

pub type K = [u8; 57];

fn int_mul_q(n: u64) -> Option<K> {
    let mut a = [0u8; 57];
    for _ in 0..n {
        a = rf::int_add(&a, &rf::q_bytes())?;
    }
    Some(a)
}
fn small(v: u64) -> K {
    let mut a = [0u8; 57];
    a[..8].copy_from_slice(&v.to_le_bytes());
    a
}

/// Honest raw-form keys whose public point has a coordinate with an extreme 28-bit limb (0, 1, all ones,
/// all ones but one; every limb of x and y), and two that were refused before the decoding fix.
/// Found by walking 10^9 consecutive points with the reference implementation.
pub fn corpus() -> &'static Vec<K> {
    static C: std::sync::OnceLock<Vec<K>> = std::sync::OnceLock::new();
    C.get_or_init(|| include_str!("corpus.txt").split_whitespace().map(|l| rf::hexb(l).try_into().unwrap()).collect())
}
pub fn corpus_key(i: usize) -> K {
    corpus()[i]
}

/// A raw-form key (top bit set) with a scalar of special residue mod q.
pub fn raw_special(c: &mut Ctx) -> K {
    let t = c.below(5);
    let d = c.logu(1 << 20);
    let mut k = match t {
        // s = 4q + 4d: residue 4d, tiny
        0 => rf::int_add(&int_mul_q(4).unwrap(), &small(4 * d)).unwrap(),
        // s = 3q + t, t = 3 mod 4
        1 => rf::int_add(&int_mul_q(3).unwrap(), &small(4 * d + 3)).unwrap(),
        // s = 2q + t, t = 2 mod 4: just above 2^447
        2 => rf::int_add(&int_mul_q(2).unwrap(), &small(4 * d + 2)).unwrap(),
        // largest scalars
        3 => {
            let mut k = [0xffu8; 57];
            k[0] = 0xfc ^ (d as u8 & 0x3c);
            k
        }
        // smallest: 2^447 + 4d
        _ => {
            let mut k = small(4 * d);
            k[55] |= 0x80;
            k
        }
    };
    k[55] |= 0x80;
    k[56] = 0x80 | if c.chance(1, 4) { c.below(128) as u8 } else { 0 };
    k
}

pub fn fresh_key(c: &mut Ctx) -> K {
    let kind = c.weighted(&[6, 5, 3, 1, 1, 1, 2, 1]);
    let mut k: K = expand(c.seed(), 57).try_into().unwrap();
    match kind {
        0 => k[56] &= 0x7f,
        1 => k[56] |= 0x80,
        2 => return raw_special(c),
        3 => {
            // constant bytes
            let b = [0u8, 0xff, 0x80, 0x7f, 1][c.below(5) as usize];
            k = [b; 57];
            if c.chance(1, 2) {
                k[56] ^= 0x80;
            }
        }
        4 => {
            // sparse or dense
            let inv = if c.chance(1, 2) { 0xff } else { 0 };
            k = [inv; 57];
            for _ in 0..=c.below(3) {
                let p = c.below(456) as usize;
                k[p / 8] ^= 1 << (p % 8);
            }
        }
        5 => {
            // zero / ff runs inside random bytes
            let a = c.below(57) as usize;
            let n = c.below(30) as usize;
            let b = if c.chance(1, 2) { 0xff } else { 0 };
            for x in k.iter_mut().skip(a).take(n) {
                *x = b;
            }
        }
        6 => k = corpus_key(c.below(corpus().len() as u32) as usize),
        _ => {
            // 32-bit words of extreme values
            let bits = c.seed();
            for i in 0..14 {
                let w: u32 = match bits >> (2 * i) & 7 {
                    0 => 0,
                    1 => u32::MAX,
                    2 => 1,
                    3 => 0x8000_0000,
                    4 => 0xffff_0000,
                    _ => continue,
                };
                k[4 * i..4 * i + 4].copy_from_slice(&w.to_le_bytes());
            }
            k[56] |= 0x80;
        }
    }
    k
}

/// A key that looks like `k` in most respects.
pub fn sibling(c: &mut Ctx, k: &K) -> K {
    let mut r = *k;
    match c.below(9) {
        6 => {
            // same bytes in another order
            let (a, b) = (1 + c.below(54) as usize, 1 + c.below(54) as usize);
            r.swap(a, b);
            if a == b || r == *k {
                r[8..40].rotate_left(8);
            }
        }
        7 => {
            // same sum
            let a = 1 + c.below(54) as usize;
            r[a] = r[a].wrapping_add(1);
            r[a + 1] = r[a + 1].wrapping_sub(1);
        }
        8 => {
            // same exclusive-or
            let (a, b) = (c.below(7) as usize * 8, c.below(7) as usize * 8);
            if a != b {
                r[a + 3] ^= 0x11;
                r[b + 3] ^= 0x11;
            } else {
                r[55] ^= 1;
            }
        }
        0 => r[56] ^= 0x80,
        1 => r[56] ^= 1 << c.below(7),
        2 => r[0] ^= 1 << c.below(8),
        3 => {
            let p = c.below(57) as usize;
            r[p] ^= 1 << c.below(8);
        }
        4 => r[55] ^= 0x80 >> c.below(2),
        _ => {
            // same first and last bytes, different middle
            let e = expand(c.seed(), 57);
            r[16..48].copy_from_slice(&e[16..48]);
        }
    }
    r
}

pub type Msg = Arc<Vec<u8>>;

const LENS: [usize; 44] = [
    0, 1, 2, 7, 8, 9, 11, 12, 13, 31, 32, 33, 56, 57, 58, 63, 64, 65, 68, 69, 70, 113, 114, 115, 127, 128, 129, 135, 136, 137, 147, 148, 149, 204, 205, 206, 255,
    256, 257, 271, 272, 273, 511, 512,
];
const BIG: [usize; 11] = [1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288, 1048576];

pub fn msg_len(c: &mut Ctx, max: usize) -> usize {
    let l = match c.weighted(&[4, 5, 4, 2, 2, 2]) {
        0 => 32,
        1 => *c.pick(&LENS),
        2 => c.below(300) as usize,
        3 => {
            // sizes of buffers, for the message or for one of the two transcripts holding it
            let off = *c.pick(&[0usize, 0, 0, 57, 67, 114, 124]);
            (*c.pick(&BIG) + c.below(5) as usize).saturating_sub(2 + off)
        }
        4 => {
            // block boundaries of the two hashes: 10+57+len and 10+57+57+len
            let k = 1 + c.below(40) as usize;
            let off = if c.chance(1, 2) { 67 } else { 124 };
            (136 * k + 2 - c.below(5) as usize).saturating_sub(off)
        }
        _ if max > 4_000_000 && c.chance(1, 6) => 1_000_000 + c.logu(max as u64 - 1_000_000) as usize,
        _ => c.logu(1_200_000) as usize,
    };
    l.min(max)
}
/// What text-minded carriers do to a message: line ends, padding, case, escapes.
pub fn retyped(c: &mut Ctx, m: &[u8]) -> Vec<u8> {
    let mut r = m.to_vec();
    const TAILS: [&[u8]; 12] = [b"\n", b"\r\n", b"\r", b" ", b"\0", b"\t", b"=", b"\0\0\0\0", b"\n\n", b"\x1a", b"\x80", b"\xff"];
    const HEADS: [&[u8]; 6] = [b"\xef\xbb\xbf", b" ", b"\n", b"0x", b"\0", b"SigEd448\0\0"];
    match c.below(8) {
        0 | 1 => r.extend_from_slice(c.pick(&TAILS)),
        2 => {
            let mut t = c.pick(&HEADS).to_vec();
            t.extend(&r);
            r = t;
        }
        3 => {
            // the last byte, and whatever repeats it, stripped
            if let Some(l) = r.last().copied() {
                while r.last() == Some(&l) {
                    r.pop();
                }
            }
        }
        4 => {
            if let Some(l) = r.last().copied() {
                r.push(l);
            }
        }
        5 => {
            for b in r.iter_mut() {
                *b = if b.is_ascii_lowercase() { b.to_ascii_uppercase() } else { b.to_ascii_lowercase() };
            }
        }
        6 => {
            // seventh-bit or line-end cleaning
            if c.chance(1, 2) {
                for b in r.iter_mut() {
                    *b &= 0x7f;
                }
            } else {
                r.retain(|b| !b"\r\n\0 "[..].contains(b));
            }
        }
        _ => {
            let w = *c.pick(&[2usize, 4, 8]);
            for x in r.chunks_exact_mut(w) {
                x.reverse();
            }
        }
    }
    r
}
/// What a carrier that splits a message may do: drop, repeat or swap pieces.
pub fn refragmented(c: &mut Ctx, m: &[u8]) -> Vec<u8> {
    let f = *c.pick(&[1usize, 8, 16, 32, 64, 128, 136, 256, 512, 1024, 1448, 4096, 8192, 65536]);
    let n = m.len() / f;
    if n < 2 {
        let mut r = m.to_vec();
        let h = r.len() / 2;
        r.rotate_left(h);
        return r;
    }
    let i = position(c, n);
    match c.below(3) {
        0 => [&m[..i * f], &m[(i + 1) * f..]].concat(),
        1 => [&m[..(i + 1) * f], &m[i * f..]].concat(),
        _ => {
            let j = position(c, n);
            let mut r = m.to_vec();
            let a = m[i * f..(i + 1) * f].to_vec();
            r.copy_within(j * f..(j + 1) * f, i * f);
            r[j * f..(j + 1) * f].copy_from_slice(&a);
            r
        }
    }
}
pub fn content(c: &mut Ctx, len: usize) -> Vec<u8> {
    match c.weighted(&[8, 1, 1, 1, 1, 1, 1]) {
        6 => {
            // lines of text
            let s = c.seed();
            let mut v: Vec<u8> = expand(s, len).iter().map(|b| if *b < 8 { b'\n' } else { b"etaoin shrdluETAOINSHRDLU cmfwyp"[(*b & 31) as usize] }).collect();
            if let (Some(l), true) = (v.last_mut(), s & 1 == 1) {
                *l = b'\n';
            }
            v
        }
        0 => expand(c.seed(), len),
        1 => vec![0; len],
        2 => vec![0xff; len],
        3 => {
            let mut v = expand(c.seed(), len);
            let z = c.logu(len as u64) as usize;
            for x in v.iter_mut().rev().take(z) {
                *x = 0;
            }
            v
        }
        4 => {
            let mut v = b"SigEd448\0\0".to_vec();
            v.extend(expand(c.seed(), len.saturating_sub(10)));
            v.truncate(len);
            v
        }
        _ => {
            let s = c.seed();
            expand(s, len).iter().map(|b| b"0123456789abcdef"[(*b & 15) as usize]).collect()
        }
    }
}
pub fn message(c: &mut Ctx, max: usize) -> Vec<u8> {
    let l = msg_len(c, max);
    content(c, l)
}
/// A position in 0..n, biased to the ends and to block boundaries.
pub fn position(c: &mut Ctx, n: usize) -> usize {
    if n == 0 {
        return 0;
    }
    match c.below(5) {
        0 => 0,
        1 => n - 1,
        2 => (c.logu(n as u64 - 1) as usize).min(n - 1),
        3 => n - 1 - (c.logu(n as u64 - 1) as usize).min(n - 1),
        _ => c.below(n as u32) as usize,
    }
}
/// A message that looks like `m`: same length or nearly.
pub fn msg_sibling(c: &mut Ctx, m: &[u8]) -> Vec<u8> {
    let mut r = m.to_vec();
    match c.below(8) {
        6 => return retyped(c, m),
        7 => return refragmented(c, m),
        0 if !r.is_empty() => {
            let p = position(c, r.len());
            r[p] ^= 1 << c.below(8);
        }
        1 => r.push(0),
        2 => {
            r.pop();
        }
        3 => r.insert(0, 0),
        4 if r.len() > 1 => r.reverse(),
        5 if r.len() > 1 => {
            let h = r.len() / 2;
            r.rotate_left(h);
        }
        _ => r.push(c.below(256) as u8),
    }
    r
}

/// Independent random keys reach the whole key space: with n of them, a key bit that never
/// changes has probability 912 * 2^-n, a byte value that never occurs anywhere 256 * e^(-57n/256).
pub fn key_space(keys: &[[u8; 57]]) -> Option<String> {
    if keys.len() < 64 {
        return None;
    }
    let (mut and, mut or) = ([0xffu8; 57], [0u8; 57]);
    let mut val = [false; 256];
    for k in keys {
        for i in 0..57 {
            and[i] &= k[i];
            or[i] |= k[i];
            val[k[i] as usize] = true;
        }
    }
    for i in 0..57 {
        let fixed = and[i] | !or[i];
        if fixed != 0 {
            return Some(format!("bits {:02x} of key byte {} are the same in all {} keys", fixed, i, keys.len()));
        }
    }
    if keys.len() >= 256 {
        if let Some(v) = val.iter().position(|v| !v) {
            return Some(format!("byte value {:02x} occurs nowhere in {} keys", v, keys.len()));
        }
    }
    None
}
