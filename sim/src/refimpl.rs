//! Independent Ed448 (RFC 8032) reference used as oracle and as "foreign implementation" peer.
//! Shares no code, representation or algorithm with /repo: radix-2^56 field, affine/extended
//! coordinates on the untwisted curve, plain double-and-add, own Keccak, own scalar arithmetic.
#![allow(clippy::needless_range_loop)]

pub const M56: u64 = (1 << 56) - 1;

#[derive(Clone, Copy, Debug)]
pub struct Fe(pub [u64; 8]);

pub const P56: [u64; 8] = [M56, M56, M56, M56, M56 - 1, M56, M56, M56];

impl Fe {
    pub const ZERO: Fe = Fe([0; 8]);
    pub const ONE: Fe = Fe([1, 0, 0, 0, 0, 0, 0, 0]);
    pub fn small(v: u64) -> Fe {
        let mut r = Fe::ZERO;
        r.0[0] = v;
        r
    }
    /// little-endian 56 bytes, value may be >= p (reduced implicitly)
    pub fn from_bytes(b: &[u8]) -> Fe {
        let mut r = [0u64; 8];
        for i in 0..8 {
            for j in 0..7 {
                r[i] |= (b[7 * i + j] as u64) << (8 * j);
            }
        }
        Fe(r)
    }
    pub fn canon(&self) -> [u64; 8] {
        let mut a = self.carry().carry().0;
        // a < 2^448 + small after carries; subtract p up to twice
        for _ in 0..2 {
            let mut t = [0u64; 8];
            let mut borrow: i128 = 0;
            for i in 0..8 {
                let v = a[i] as i128 - P56[i] as i128 + borrow;
                t[i] = (v & M56 as i128) as u64;
                borrow = v >> 56;
            }
            if borrow == 0 {
                a = t;
            }
        }
        a
    }
    pub fn to_bytes(&self) -> [u8; 56] {
        let a = self.canon();
        let mut r = [0u8; 56];
        for i in 0..8 {
            for j in 0..7 {
                r[7 * i + j] = (a[i] >> (8 * j)) as u8;
            }
        }
        r
    }
    #[inline(always)]
    fn carry(&self) -> Fe {
        let mut a = self.0;
        let mut c = 0u64;
        for i in 0..8 {
            let v = a[i] + c;
            a[i] = v & M56;
            c = v >> 56;
        }
        a[0] += c;
        a[4] += c;
        Fe(a)
    }
    #[inline(always)]
    pub fn add(&self, o: &Fe) -> Fe {
        let mut r = [0u64; 8];
        for i in 0..8 {
            r[i] = self.0[i] + o.0[i];
        }
        Fe(r).carry()
    }
    #[inline(always)]
    pub fn sub(&self, o: &Fe) -> Fe {
        let mut r = [0u64; 8];
        for i in 0..8 {
            r[i] = self.0[i] + 2 * P56[i] - o.0[i];
        }
        Fe(r).carry()
    }
    pub fn neg(&self) -> Fe {
        Fe::ZERO.sub(self)
    }
    #[inline(always)]
    pub fn mul(&self, o: &Fe) -> Fe {
        let a = &self.0;
        let b = &o.0;
        // column sums, with 2^448 = 2^224 + 1 folded in
        let m = |i: usize, j: usize| a[i] as u128 * b[j] as u128;
        let c8 = m(1, 7) + m(2, 6) + m(3, 5) + m(4, 4) + m(5, 3) + m(6, 2) + m(7, 1);
        let c9 = m(2, 7) + m(3, 6) + m(4, 5) + m(5, 4) + m(6, 3) + m(7, 2);
        let c10 = m(3, 7) + m(4, 6) + m(5, 5) + m(6, 4) + m(7, 3);
        let c11 = m(4, 7) + m(5, 6) + m(6, 5) + m(7, 4);
        let c12 = m(5, 7) + m(6, 6) + m(7, 5);
        let c13 = m(6, 7) + m(7, 6);
        let c14 = m(7, 7);
        let (d8, d9, d10) = (c8 + c12, c9 + c13, c10 + c14);
        let c = [
            m(0, 0) + d8,
            m(0, 1) + m(1, 0) + d9,
            m(0, 2) + m(1, 1) + m(2, 0) + d10,
            m(0, 3) + m(1, 2) + m(2, 1) + m(3, 0) + c11,
            m(0, 4) + m(1, 3) + m(2, 2) + m(3, 1) + m(4, 0) + d8 + c12,
            m(0, 5) + m(1, 4) + m(2, 3) + m(3, 2) + m(4, 1) + m(5, 0) + d9 + c13,
            m(0, 6) + m(1, 5) + m(2, 4) + m(3, 3) + m(4, 2) + m(5, 1) + m(6, 0) + d10 + c14,
            m(0, 7) + m(1, 6) + m(2, 5) + m(3, 4) + m(4, 3) + m(5, 2) + m(6, 1) + m(7, 0) + c11,
        ];
        let mut r = [0u64; 8];
        let mut k: u128 = 0;
        for i in 0..8 {
            let v = c[i] + k;
            r[i] = (v as u64) & M56;
            k = v >> 56;
        }
        let mut x0 = r[0] as u128 + k;
        let mut x4 = r[4] as u128 + k;
        r[0] = (x0 as u64) & M56;
        x0 >>= 56;
        r[1] += x0 as u64;
        r[4] = (x4 as u64) & M56;
        x4 >>= 56;
        r[5] += x4 as u64;
        Fe(r)
    }
    #[inline(always)]
    pub fn sq(&self) -> Fe {
        self.mul(self)
    }
    fn sqn(&self, n: usize) -> Fe {
        let mut r = *self;
        for _ in 0..n {
            r = r.sq();
        }
        r
    }
    /// x^(2^n - 1)
    fn pow2n1(&self, n: usize) -> Fe {
        if n == 1 {
            return *self;
        }
        let h = self.pow2n1(n / 2);
        let t = h.sqn(n / 2).mul(&h);
        if n % 2 == 1 {
            t.sq().mul(self)
        } else {
            t
        }
    }
    /// x^((p-3)/4), (p-3)/4 = 2^446 - 2^222 - 1
    fn pow_p34(&self) -> Fe {
        // 2^446-2^222-1 = (2^223-1)*2^223 + (2^222-1)
        let a = self.pow2n1(222);
        let b = a.sq().mul(self);
        b.sqn(223).mul(&a)
    }
    pub fn inv(&self) -> Fe {
        // x^(p-2) = x^(4*((p-3)/4)+1)
        self.pow_p34().sqn(2).mul(self)
    }
    pub fn eq(&self, o: &Fe) -> bool {
        self.canon() == o.canon()
    }
    pub fn is_zero(&self) -> bool {
        self.canon() == [0; 8]
    }
    pub fn odd(&self) -> bool {
        self.canon()[0] & 1 == 1
    }
}

pub fn fe_d() -> Fe {
    Fe::small(39081).neg()
}

/// Projective point (X:Y:Z) on x^2+y^2 = 1 + d x^2 y^2.
#[derive(Clone, Copy, Debug)]
pub struct Pt {
    pub x: Fe,
    pub y: Fe,
    pub z: Fe,
}

impl Pt {
    pub fn id() -> Pt {
        Pt { x: Fe::ZERO, y: Fe::ONE, z: Fe::ONE }
    }
    pub fn base() -> Pt {
        let x = hexb("4f1970c66bed0ded221d15a622bf36da9e146570470f1767ea6de324a3d3a46412ae1af72ab66511433b80e18b00938e2626a82bc70cc05e");
        let y = hexb("693f46716eb6bc248876203756c9c7624bea73736ca3984087789c1e05a0c2d73ad3ff1ce67c39c4fdbd132c4ed7c8ad9808795bf230fa14");
        let r = |mut v: Vec<u8>| {
            v.reverse();
            v
        };
        Pt { x: Fe::from_bytes(&r(x)), y: Fe::from_bytes(&r(y)), z: Fe::ONE }
    }
    pub fn add(&self, o: &Pt) -> Pt {
        let a = self.z.mul(&o.z);
        let b = a.sq();
        let c = self.x.mul(&o.x);
        let d = self.y.mul(&o.y);
        let e = fe_d().mul(&c).mul(&d);
        let f = b.sub(&e);
        let g = b.add(&e);
        let h = self.x.add(&self.y).mul(&o.x.add(&o.y));
        Pt {
            x: a.mul(&f).mul(&h.sub(&c).sub(&d)),
            y: a.mul(&g).mul(&d.sub(&c)),
            z: f.mul(&g),
        }
    }
    pub fn dbl(&self) -> Pt {
        let b = self.x.add(&self.y).sq();
        let c = self.x.sq();
        let d = self.y.sq();
        let e = c.add(&d);
        let h = self.z.sq();
        let j = e.sub(&h.add(&h));
        Pt { x: b.sub(&e).mul(&j), y: e.mul(&c.sub(&d)), z: e.mul(&j) }
    }
    pub fn neg(&self) -> Pt {
        Pt { x: self.x.neg(), y: self.y, z: self.z }
    }
    /// scalar: little-endian bytes
    pub fn mul(&self, s: &[u8]) -> Pt {
        let mut r = Pt::id();
        for i in (0..s.len() * 8).rev() {
            r = r.dbl();
            if s[i / 8] >> (i % 8) & 1 == 1 {
                r = r.add(self);
            }
        }
        r
    }
    pub fn mul4(&self) -> Pt {
        self.dbl().dbl()
    }
    pub fn eq(&self, o: &Pt) -> bool {
        self.x.mul(&o.z).eq(&o.x.mul(&self.z)) && self.y.mul(&o.z).eq(&o.y.mul(&self.z))
    }
    pub fn affine(&self) -> Pt {
        let i = self.z.inv();
        Pt { x: self.x.mul(&i), y: self.y.mul(&i), z: Fe::ONE }
    }
    pub fn encode(&self) -> [u8; 57] {
        let a = self.affine();
        let mut r = [0u8; 57];
        r[..56].copy_from_slice(&a.y.to_bytes());
        if a.x.odd() {
            r[56] = 0x80;
        }
        r
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Dec {
    pub p: Pt,
    /// y < p, and not (x == 0 with sign bit set)
    pub canonical: bool,
    pub low_order: bool,
}

/// RFC 8032 5.2.3 decoding; lenient about y >= p and "negative zero" but flags them.
pub fn decode(b: &[u8]) -> Option<Dec> {
    if b.len() != 57 || b[56] & 0x7f != 0 {
        return None;
    }
    let sign = b[56] >> 7 == 1;
    let y = Fe::from_bytes(&b[..56]);
    let mut canonical = y.to_bytes()[..] == b[..56];
    let y2 = y.sq();
    let u = y2.sub(&Fe::ONE);
    let v = fe_d().mul(&y2).sub(&Fe::ONE);
    // x = u^3 v (u^5 v^3)^((p-3)/4)
    let u3 = u.sq().mul(&u);
    let u5 = u3.mul(&u.sq());
    let v3 = v.sq().mul(&v);
    let mut x = u3.mul(&v).mul(&u5.mul(&v3).pow_p34());
    if !v.mul(&x.sq()).eq(&u) {
        return None;
    }
    if x.is_zero() && sign {
        canonical = false;
    }
    if x.odd() != sign {
        x = x.neg();
    }
    let p = Pt { x, y, z: Fe::ONE };
    let low_order = p.mul4().eq(&Pt::id());
    Some(Dec { p, canonical, low_order })
}

// ---------------------------------------------------------------- scalars
pub const Q: [u64; 7] = [
    0x2378c292ab5844f3,
    0x216cc2728dc58f55,
    0xc44edb49aed63690,
    0xffffffff7cca23e9,
    0xffffffffffffffff,
    0xffffffffffffffff,
    0x3fffffffffffffff,
];

fn ge(a: &[u64; 8], b: &[u64; 8]) -> bool {
    for i in (0..8).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}

/// little-endian bytes of any length, reduced mod q by shift-and-subtract
pub fn sc_reduce(b: &[u8]) -> [u8; 56] {
    let mut q = [0u64; 8];
    q[..7].copy_from_slice(&Q);
    let mut r = [0u64; 8];
    for i in (0..b.len() * 8).rev() {
        let mut c = (b[i / 8] >> (i % 8) & 1) as u64;
        for j in 0..8 {
            let n = r[j] >> 63;
            r[j] = r[j] << 1 | c;
            c = n;
        }
        if ge(&r, &q) {
            let mut br = 0i128;
            for j in 0..8 {
                let v = r[j] as i128 - q[j] as i128 + br;
                r[j] = v as u64;
                br = v >> 64;
            }
        }
    }
    let mut o = [0u8; 56];
    for i in 0..56 {
        o[i] = (r[i / 8] >> (8 * (i % 8))) as u8;
    }
    o
}

/// (a*b + c) mod q
pub fn sc_muladd(a: &[u8; 56], b: &[u8; 56], c: &[u8; 56]) -> [u8; 56] {
    let mut t = [0u64; 114];
    for i in 0..56 {
        t[i] += c[i] as u64;
        for j in 0..56 {
            t[i + j] += a[i] as u64 * b[j] as u64;
        }
    }
    let mut o = [0u8; 114];
    let mut k = 0u64;
    for i in 0..114 {
        let v = t[i] + k;
        o[i] = v as u8;
        k = v >> 8;
    }
    sc_reduce(&o)
}

pub fn q_bytes() -> [u8; 57] {
    let mut o = [0u8; 57];
    for i in 0..56 {
        o[i] = (Q[i / 8] >> (8 * (i % 8))) as u8;
    }
    o
}

/// a + b as 57-byte little-endian integers (no reduction), None on overflow
pub fn int_add(a: &[u8; 57], b: &[u8; 57]) -> Option<[u8; 57]> {
    let mut o = [0u8; 57];
    let mut c = 0u16;
    for i in 0..57 {
        let v = a[i] as u16 + b[i] as u16 + c;
        o[i] = v as u8;
        c = v >> 8;
    }
    if c == 0 {
        Some(o)
    } else {
        None
    }
}

// ---------------------------------------------------------------- SHAKE256
fn keccakf(s: &mut [u64; 25]) {
    const RHO: [u32; 24] = [1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44];
    const PI: [usize; 24] = [10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1];
    let mut lfsr: u8 = 1;
    for _ in 0..24 {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = s[x] ^ s[x + 5] ^ s[x + 10] ^ s[x + 15] ^ s[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                s[x + 5 * y] ^= d;
            }
        }
        let mut t = s[1];
        for i in 0..24 {
            let u = s[PI[i]];
            s[PI[i]] = t.rotate_left(RHO[i]);
            t = u;
        }
        for y in 0..5 {
            let mut r = [0u64; 5];
            r.copy_from_slice(&s[5 * y..5 * y + 5]);
            for x in 0..5 {
                s[5 * y + x] = r[x] ^ (!r[(x + 1) % 5] & r[(x + 2) % 5]);
            }
        }
        // round constant from the LFSR x^8+x^6+x^5+x^4+1
        let mut rc = 0u64;
        for j in 0..7 {
            if lfsr & 1 == 1 {
                rc ^= 1u64 << ((1u32 << j) - 1);
            }
            let hi = lfsr >> 7;
            lfsr <<= 1;
            if hi == 1 {
                lfsr ^= 0x71;
            }
        }
        s[0] ^= rc;
    }
}

pub fn shake256(parts: &[&[u8]], out: &mut [u8]) {
    let mut s = [0u64; 25];
    let mut pos = 0usize;
    for p in parts {
        for &b in p.iter() {
            s[pos / 8] ^= (b as u64) << (8 * (pos % 8));
            pos += 1;
            if pos == 136 {
                keccakf(&mut s);
                pos = 0;
            }
        }
    }
    s[pos / 8] ^= 0x1f << (8 * (pos % 8));
    s[135 / 8] ^= 0x80u64 << (8 * (135 % 8));
    keccakf(&mut s);
    let mut pos = 0;
    for o in out.iter_mut() {
        if pos == 136 {
            keccakf(&mut s);
            pos = 0;
        }
        *o = (s[pos / 8] >> (8 * (pos % 8))) as u8;
        pos += 1;
    }
}

const DOM: &[u8] = b"SigEd448\x00\x00";

// ---------------------------------------------------------------- EdDSA
pub fn clamp(s: &[u8]) -> [u8; 57] {
    let mut r = [0u8; 57];
    r.copy_from_slice(&s[..57]);
    r[0] &= 0xfc;
    r[55] |= 0x80;
    r[56] = 0;
    r
}

/// (clamped scalar, prefix) of either private-key form.
pub fn expand(key: &[u8; 57]) -> ([u8; 57], [u8; 57]) {
    if key[56] & 0x80 == 0 {
        expand_seed(key)
    } else {
        let s = clamp(key);
        (s, s)
    }
}
pub fn expand_seed(key: &[u8; 57]) -> ([u8; 57], [u8; 57]) {
    let mut h = [0u8; 114];
    shake256(&[key], &mut h);
    let s = clamp(&h[..57]);
    let mut p = [0u8; 57];
    p.copy_from_slice(&h[57..]);
    (s, p)
}
pub fn public_of_scalar(s: &[u8; 57]) -> [u8; 57] {
    Pt::base().mul(&sc_reduce(s)).encode()
}
pub fn derive(key: &[u8; 57]) -> [u8; 57] {
    public_of_scalar(&expand(key).0)
}
pub fn sign_core(s: &[u8; 57], prefix: &[u8; 57], msg: &[u8]) -> [u8; 114] {
    let a = public_of_scalar(s);
    let mut h = [0u8; 114];
    shake256(&[DOM, prefix, msg], &mut h);
    let r = sc_reduce(&h);
    let rp = Pt::base().mul(&r).encode();
    shake256(&[DOM, &rp, &a, msg], &mut h);
    let k = sc_reduce(&h);
    let ss = sc_muladd(&k, &sc_reduce(s), &r);
    let mut o = [0u8; 114];
    o[..57].copy_from_slice(&rp);
    o[57..113].copy_from_slice(&ss);
    o
}
/// A signature with the given secret scalar and nonce (a signer that picks its own nonces).
pub fn sign_nonce(s: &[u8; 57], r: &[u8; 57], msg: &[u8]) -> [u8; 114] {
    let a = Pt::base().mul(s).encode();
    let rr = Pt::base().mul(r).encode();
    let mut h = [0u8; 114];
    shake256(&[b"SigEd448\0\0", &rr, &a, msg], &mut h);
    let mut sig = [0u8; 114];
    sig[..57].copy_from_slice(&rr);
    sig[57..113].copy_from_slice(&sc_muladd(&sc_reduce(&h), &sc_reduce(s), &sc_reduce(r)));
    sig
}
pub fn sign(key: &[u8; 57], msg: &[u8]) -> [u8; 114] {
    let (s, p) = expand(key);
    sign_core(&s, &p, msg)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Verdict {
    /// RFC 8032 verification accepts.
    Accept,
    /// no reading of the encodings makes the verification equation hold
    Reject,
    /// only a lenient reading (non-canonical scalar/point, torsion, low order) accepts: no claim
    Grey,
}

/// Full-length inputs only (57, 114).
pub fn verify(pk: &[u8], sig: &[u8], msg: &[u8]) -> Verdict {
    assert!(pk.len() == 57 && sig.len() >= 114);
    let (a, r) = match (decode(pk), decode(&sig[..57])) {
        (Some(a), Some(r)) => (a, r),
        _ => return Verdict::Reject,
    };
    let s_red = sc_reduce(&sig[57..114]);
    let canon_s = s_red[..] == sig[57..113] && sig[113] == 0;
    let sb4 = Pt::base().mul(&s_red).mul4();
    let r4 = r.p.mul4();
    let canon = canon_s && a.canonical && r.canonical && !a.low_order && !r.low_order;
    // candidate public-key encodings entering the challenge
    let mut quarter = [0u8; 57];
    // 4^{-1} mod q, then times 4 as integer: kills the torsion component, identity on the subgroup
    quarter[..56].copy_from_slice(&inv4());
    let torsion_free = a.p.mul4().mul(&quarter);
    let mut cands: Vec<[u8; 57]> = vec![];
    let mut raw = [0u8; 57];
    raw.copy_from_slice(pk);
    cands.push(raw);
    for c in [a.p.encode(), torsion_free.encode()] {
        if !cands.contains(&c) {
            cands.push(c);
        }
    }
    for (i, c) in cands.iter().enumerate() {
        let mut h = [0u8; 114];
        shake256(&[DOM, &sig[..57], c, msg], &mut h);
        let k = sc_reduce(&h);
        let rhs = r4.add(&a.p.mul(&k).mul4());
        if sb4.eq(&rhs) {
            // exact (cofactorless) equation on canonical data in the prime-order subgroup
            if i == 0 && canon && cands.len() == 1 {
                return Verdict::Accept;
            }
            return Verdict::Grey;
        }
    }
    Verdict::Reject
}

pub fn inv4() -> [u8; 56] {
    // (3q+1)/4 or (q+1)/4: q = 3 mod 4 -> (q+1)/4
    let mut q1 = q_bytes();
    let mut one = [0u8; 57];
    one[0] = 1;
    q1 = int_add(&q1, &one).unwrap();
    let mut o = [0u8; 56];
    for i in 0..56 {
        o[i] = q1[i] >> 2 | q1[i + 1] << 6;
    }
    o
}

pub fn hexb(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn tohex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// Known-answer self test of the oracle itself (RFC 8032 7.4 vectors).
pub fn selftest() -> Result<(), String> {
    let mut o = [0u8; 32];
    shake256(&[b""], &mut o);
    if tohex(&o) != "46b9dd2b0ba88d13233b3feb743eeb243fcd52ea62b81b82b50c27646ed5762f" {
        return Err("shake256".into());
    }
    let k: [u8; 57] = hexb("6c82a562cb808d10d632be89c8513ebf6c929f34ddfa8c9f63c9960ef6e348a3528c8a3fcc2f044e39a3fc5b94492f8f032e7549a20098f95b").try_into().unwrap();
    if tohex(&derive(&k)) != "5fd7449b59b461fd2ce787ec616ad46a1da1342485a70e1f8a0ea75d80e96778edf124769b46c7061bd6783df1e50f6cd1fa1abeafe8256180" {
        return Err("derive".into());
    }
    let s = sign(&k, b"");
    if tohex(&s) != "533a37f6bbe457251f023c0d88f976ae2dfb504a843e34d2074fd823d41a591f2b233f034f628281f2fd7a22ddd47d7828c59bd0a21bfd3980ff0d2028d4b18a9df63e006c5d1c2d345b925d8dc00b4104852db99ac5c7cdda8530a113a0f4dbb61149f05a7363268c71d95808ff2e652600" {
        return Err("sign".into());
    }
    if verify(&derive(&k), &s, b"") != Verdict::Accept || verify(&derive(&k), &s, b"x") != Verdict::Reject {
        return Err("verify".into());
    }
    Ok(())
}
