//! One library call as data: which call, with which arguments, and its observable result.
use crate::core::*;
use crate::gen::*;
use libgoldilocks::goldilocks as gl;
use libgoldilocks::{PrehashSigner, SecretKey, SigningKey, VerifyingKey};
use ops::{Item, Key, Kind, SerFault, TapeVal};
use rand_core::{Error as RngError, RngCore};
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum Op {
    Derive(K, u8),
    Sign(K, Msg, u8),
    SignExplicit(K, K, Msg),
    Verify(Vec<u8>, Vec<u8>, Msg, u8),
    PrivToSecret(K),
    SecToPub(K),
    Ser(Kind, K, u8),
    De(Kind, Arc<Vec<u8>>, u8),
    Random(u64),
    RandomConst(u8),
    Generate,
    // calls that end abnormally, by the caller's fault
    RandomPanics(u32),
    SerPanics(Kind, K),
    SerFails(Kind, K),
    DePanics(Kind),
    DeFails(Kind),
    RandomReentrant(K, u64),
    SerReentrant(Kind, K),
    DeReentrant(Kind, K),
}

/// The observable outcome of a call.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Out {
    Bytes(Vec<u8>),
    Verdict(u8),
    Err(String),
    Panic,
}
impl Out {
    pub fn to_vec(&self) -> Vec<u8> {
        match self {
            Out::Bytes(b) => [&[0u8][..], b].concat(),
            Out::Verdict(v) => vec![1, *v],
            Out::Err(e) => [&[2u8][..], e.as_bytes()].concat(),
            Out::Panic => vec![3],
        }
    }
    pub fn from_vec(v: &[u8]) -> Out {
        match v[0] {
            0 => Out::Bytes(v[1..].to_vec()),
            1 => Out::Verdict(v[1]),
            2 => Out::Err(String::from_utf8_lossy(&v[1..]).into_owned()),
            _ => Out::Panic,
        }
    }
    pub fn show(&self) -> String {
        match self {
            Out::Bytes(b) => format!("bytes {}", hx(b)),
            o => format!("{:?}", o),
        }
    }
}

/// Generator with a fixed stream.
pub struct StreamRng(pub Sm);
impl RngCore for StreamRng {
    fn next_u32(&mut self) -> u32 {
        self.0.next() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0.next()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.0.fill(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), RngError> {
        self.0.fill(d);
        Ok(())
    }
}
/// A generator stuck at one value.
struct ConstRng(u8);
impl RngCore for ConstRng {
    fn next_u32(&mut self) -> u32 {
        u32::from_ne_bytes([self.0; 4])
    }
    fn next_u64(&mut self) -> u64 {
        u64::from_ne_bytes([self.0; 8])
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        d.fill(self.0)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), RngError> {
        d.fill(self.0);
        Ok(())
    }
}
struct PanicRng(u32);
impl PanicRng {
    fn hit(&mut self, d: &mut [u8]) -> ! {
        let n = (self.0 as usize).min(d.len());
        for x in &mut d[..n] {
            *x = 0xa5;
        }
        panic!("injected: generator failed")
    }
}
impl RngCore for PanicRng {
    fn next_u32(&mut self) -> u32 {
        self.hit(&mut [])
    }
    fn next_u64(&mut self) -> u64 {
        self.hit(&mut [])
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.hit(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), RngError> {
        self.hit(d)
    }
}
/// A generator that itself uses the library while being asked for bytes.
struct ReentrantRng(K, Sm);
impl ReentrantRng {
    fn inner(&mut self) {
        let s = gl::ed448_sign(&self.0, b"reentrant");
        self.1 .0 ^= hash_bytes(&s) ^ hash_bytes(&ops::random_key(&mut StreamRng(Sm(self.1 .0))).to_bytes());
    }
}
impl RngCore for ReentrantRng {
    fn next_u32(&mut self) -> u32 {
        self.inner();
        self.1.next() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.inner();
        self.1.next()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.inner();
        self.1.fill(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), RngError> {
        self.fill_bytes(d);
        Ok(())
    }
}

pub fn key_bytes(k: &Key) -> Vec<u8> {
    match k {
        Key::Signing(s) => [&s.to_bytes()[..], s.verifying_key().as_bytes()].concat(),
        Key::Verifying(v) => v.as_bytes().to_vec(),
        Key::Secret(_) => ops::to_string(k).map(|s| s.into_bytes()).unwrap_or_default(),
    }
}
fn keyout(r: Result<Key, String>) -> Out {
    match r {
        Ok(k) => Out::Bytes(key_bytes(&k)),
        Err(_) => Out::Err("serde".into()),
    }
}

/// the same with the arguments placed by the simulation
pub fn verify_placed(pk: &[u8], sig: &[u8], m: &[u8], e: u8) -> Out {
    use crate::os::placed;
    placed(pk, |pk| placed(sig, |sig| placed(m, |m| verify_entry(pk, sig, m, e))))
}
pub fn verify_entry(pk: &[u8], sig: &[u8], m: &[u8], e: u8) -> Out {
    if e == 0 {
        match gl::ed448_verify(pk, sig, m) {
            Ok(b) => Out::Verdict(b as u8),
            Err(e) => Out::Err(format!("{:?}", e)),
        }
    } else {
        match gl::ed448_verify_with_error(pk, sig, m) {
            Ok(()) => Out::Verdict(1),
            Err(e) => Out::Err(format!("{:?}", e)),
        }
    }
}

impl Op {
    pub fn name(&self) -> &'static str {
        match self {
            Op::Derive(..) => "op.derive",
            Op::Sign(..) => "op.sign",
            Op::SignExplicit(..) => "op.sign_explicit",
            Op::Verify(..) => "op.verify",
            Op::PrivToSecret(..) => "op.private_to_secret",
            Op::SecToPub(..) => "op.secret_to_public",
            Op::Ser(..) => "op.serialize",
            Op::De(..) => "op.deserialize",
            Op::Random(..) => "op.random_key",
            Op::RandomConst(..) => "fault.generator_stuck",
            Op::Generate => "op.generate_key",
            Op::RandomPanics(..) => "fault.generator_panicked",
            Op::SerPanics(..) => "fault.serializer_panicked",
            Op::SerFails(..) => "fault.serializer_failed",
            Op::DePanics(..) => "fault.deserializer_panicked",
            Op::DeFails(..) => "fault.deserializer_failed",
            Op::RandomReentrant(..) => "op.random_key_reentrant",
            Op::SerReentrant(..) => "op.serialize_reentrant",
            Op::DeReentrant(..) => "op.deserialize_reentrant",
        }
    }
    pub fn show(&self) -> String {
        match self {
            Op::Derive(k, v) => format!("derive(key={}, route {})", hx(k), v),
            Op::Sign(k, m, v) => format!("sign(key={}, msg={} bytes {}, route {})", hx(k), m.len(), hx(&m[..m.len().min(24)]), v),
            Op::SignExplicit(s, n, m) => format!("sign_with_secret_and_nonce({}, {}, {} bytes)", hx(s), hx(n), m.len()),
            Op::Verify(p, s, m, v) => format!("verify(pk={}, sig={}, msg={} bytes, entry {})", hx(p), hx(s), m.len(), v),
            Op::PrivToSecret(k) => format!("private_to_secret({})", hx(k)),
            Op::SecToPub(k) => format!("secret_to_public({})", hx(k)),
            Op::Ser(k, b, v) => format!("serialize({:?} {}, format {})", k, hx(b), v),
            Op::De(k, b, v) => format!("deserialize({:?}, {:?}, format {})", k, String::from_utf8_lossy(b), v),
            o => format!("{:?}", o),
        }
    }
    pub fn msg_len(&self) -> usize {
        match self {
            Op::Sign(_, m, _) | Op::SignExplicit(_, _, m) | Op::Verify(_, _, m, _) => m.len(),
            Op::De(_, b, _) => b.len(),
            _ => 0,
        }
    }
    /// Perform the call. Panics inside the library become Out::Panic.
    pub fn exec(&self) -> Out {
        guard(|| self.raw()).unwrap_or(Out::Panic)
    }
    fn raw(&self) -> Out {
        match self {
            Op::Derive(k, v) => Out::Bytes(match v % 5 {
                0 => gl::ed448_derive_public(k).to_vec(),
                1 => SigningKey::from_slice(k).verifying_key().as_bytes().to_vec(),
                2 => match SigningKey::from_bytes(k) {
                    Ok(s) => s.verifying_key().as_bytes().to_vec(),
                    Err(e) => return Out::Err(format!("{:?}", e)),
                },
                3 => SigningKey::from_str(&crate::refimpl::tohex(k)).verifying_key().as_bytes().to_vec(),
                _ => SigningKey::from(SecretKey::from_bytes(k)).verifying_key().as_bytes().to_vec(),
            }),
            Op::Sign(k, m, v) => crate::os::placed(m, |m| {
                Out::Bytes(match v % 3 {
                    0 => gl::ed448_sign(k, m).to_vec(),
                    1 => match SigningKey::from_slice(k).sign_prehash(m) {
                        Ok(s) => s.as_slice().to_vec(),
                        Err(e) => return Out::Err(format!("{:?}", e)),
                    },
                    _ => gl::sign_by_private(k, m).to_vec(),
                })
            }),
            Op::SignExplicit(s, n, m) => Out::Bytes(crate::os::placed(m, |m| gl::sign_with_secret_and_nonce(s, n, m).to_vec())),
            Op::Verify(p, s, m, e) => verify_placed(p, s, m, *e),
            Op::PrivToSecret(k) => Out::Bytes(gl::private_to_secret(k).to_vec()),
            Op::SecToPub(k) => Out::Bytes(gl::secret_to_public(k).to_vec()),
            Op::Ser(kind, b, f) => {
                let k = Key::make(*kind, b);
                let mut calls = 0;
                match f % 4 {
                    0 => match ops::to_string(&k) {
                        Ok(s) => Out::Bytes(s.into_bytes()),
                        Err(_) => Out::Err("serde".into()),
                    },
                    1 => {
                        let mut w = vec![];
                        match ops::to_writer(&k, &mut w) {
                            Ok(()) => Out::Bytes(w),
                            Err(_) => Out::Err("serde".into()),
                        }
                    }
                    2 => match ops::to_value(&k) {
                        Ok(s) => Out::Bytes(s.to_string().into_bytes()),
                        Err(_) => Out::Err("serde".into()),
                    },
                    _ => match ops::ser_tape(&k, true, SerFault::None, &mut calls) {
                        Ok(TapeVal::Str(s)) => Out::Bytes(s.into_bytes()),
                        Ok(o) => Out::Err(format!("{:?}", o)),
                        Err(_) => Out::Err("serde".into()),
                    },
                }
            }
            Op::De(kind, b, f) => keyout(match f % 4 {
                0 => ops::from_slice(*kind, b),
                1 => ops::from_reader(*kind, &mut &b[..]),
                2 => match serde_json::from_slice::<serde_json::Value>(b) {
                    Ok(v) => ops::from_value(*kind, v),
                    Err(e) => Err(e.to_string()),
                },
                _ => ops::de_tape(*kind, true, &Item::Owned(String::from_utf8_lossy(b).trim_matches('"').to_string())).map_err(|e| e.0),
            }),
            Op::Random(s) => Out::Bytes(key_bytes(&Key::Signing(ops::random_key(&mut StreamRng(Sm(*s)))))),
            Op::RandomConst(x) => Out::Bytes(ops::random_key(&mut ConstRng(*x)).to_bytes().to_vec()),
            Op::Generate => Out::Bytes(gl::ed448_generate_key().to_vec()),
            Op::RandomPanics(n) => Out::Bytes(ops::random_key(&mut PanicRng(*n)).to_bytes().to_vec()),
            Op::SerPanics(k, b) => {
                let mut c = 0;
                Out::Err(format!("{:?}", ops::ser_tape(&Key::make(*k, b), true, SerFault::Panic, &mut c).is_err()))
            }
            Op::SerFails(k, b) => {
                let mut c = 0;
                Out::Err(format!("{:?}", ops::ser_tape(&Key::make(*k, b), true, SerFault::Fail, &mut c).is_err()))
            }
            Op::DePanics(k) => keyout(ops::de_tape(*k, true, &Item::Panic).map_err(|e| e.0)),
            Op::DeFails(k) => keyout(ops::de_tape(*k, true, &Item::Fail).map_err(|e| e.0)),
            Op::SerReentrant(kind, b) => {
                let mut c = 0;
                match ops::ser_tape(&Key::make(*kind, b), true, SerFault::Nested, &mut c) {
                    Ok(TapeVal::Str(s)) => Out::Bytes(s.into_bytes()),
                    Ok(o) => Out::Err(format!("{:?}", o)),
                    Err(_) => Out::Err("serde".into()),
                }
            }
            Op::DeReentrant(kind, b) => keyout(ops::de_tape(*kind, true, &Item::Nested(crate::refimpl::tohex(b))).map_err(|e| e.0)),
            Op::RandomReentrant(k, s) => Out::Bytes(ops::random_key(&mut ReentrantRng(*k, Sm(*s))).to_bytes().to_vec()),
        }
    }
}

#[allow(dead_code)]
pub fn vk(b: &[u8]) -> VerifyingKey {
    VerifyingKey::from_bytes(b)
}

/// A pool of calls built around few key families and messages, so that look-alike arguments meet.
/// Signatures and public keys come from the reference implementation: building a pool runs no library code.
pub struct PoolCfg {
    pub families: usize,
    pub per_family: usize,
    pub max_msg: usize,
    pub aborts: bool,
}
pub struct Pool {
    pub ops: Vec<Op>,
    pub family: Vec<usize>,
}
pub fn build_pool(c: &mut Ctx, cfg: &PoolCfg) -> Pool {
    use crate::refimpl as rf;
    let mut p = Pool { ops: vec![], family: vec![] };
    for f in 0..cfg.families {
        let k0 = fresh_key(c);
        let mut keys = vec![k0];
        for _ in 0..2 {
            let s = sibling(c, &k0);
            keys.push(s);
        }
        let m0 = if cfg.max_msg > 50_000 && f % 12 == 11 { content(c, (1 << 20) + 77_777 * f) } else { message(c, cfg.max_msg) };
        let m1 = msg_sibling(c, &m0);
        // and one of another size, so that every pool holds the smallest messages next to larger ones
        let l2 = [0, 1, 0, 32, 0, 12, 0, 13][f % 8];
        let m2 = if f % 16 < 8 && m0.len() >= l2 { m0[..l2].to_vec() } else { content(c, l2) };
        let msgs: Vec<Msg> = vec![Arc::new(m0), Arc::new(m1), Arc::new(m2)];
        let pks: Vec<K> = keys.iter().map(rf::derive).collect();
        // the second public key is the one of a sibling; sigs[i][j]: key i, message j
        let sigs: Vec<Vec<Vec<u8>>> = keys.iter().map(|k| msgs.iter().map(|m| rf::sign(k, m).to_vec()).collect()).collect();
        // of every look-alike key the ordinary calls, so that they meet in every family
        for (i, k) in keys.iter().enumerate() {
            let mi = (f + i) % 3;
            let v = (f / 3 + i) as u8;
            for op in [
                Op::Derive(*k, v % 5),
                Op::Sign(*k, msgs[mi].clone(), v % 3),
                Op::Verify(pks[i].to_vec(), sigs[i][mi].clone(), msgs[mi].clone(), v % 2),
                Op::De(ops::Kind::Signing, Arc::new(format!("\"{}\"", rf::tohex(k)).into_bytes()), v % 4),
            ] {
                p.ops.push(op);
                p.family.push(f);
            }
        }
        for _ in 0..cfg.per_family {
            let ki = c.below(3) as usize;
            let mi = c.weighted(&[3, 3, 2]);
            let (k, m) = (keys[ki], msgs[mi].clone());
            let kind = *c.pick(&ops::KINDS);
            let w = if cfg.aborts { [8, 10, 2, 18, 2, 2, 4, 6, 2, 2, 2, 2, 2, 2, 2, 1, 1] } else { [8, 10, 2, 18, 2, 2, 4, 6, 2, 0, 0, 0, 0, 0, 0, 0, 0] };
            let op = match c.weighted(&w) {
                0 => Op::Derive(k, c.below(5) as u8),
                1 => Op::Sign(k, m, c.below(3) as u8),
                2 => {
                    let n = *c.pick(&keys);
                    Op::SignExplicit(k, n, m)
                }
                3 => {
                    // genuine, or a near miss of a genuine triple
                    let mut pk = pks[ki].to_vec();
                    let mut sg = sigs[ki][mi].clone();
                    let mut mm = m.clone();
                    match c.below(13) {
                        0..=4 => {}
                        5 => pk = pks[(ki + 1) % 3].to_vec(),
                        6 => sg = sigs[(ki + 1) % 3][mi].clone(),
                        7 => mm = msgs[(mi + 1) % 3].clone(),
                        8 => {
                            let b = c.below(912) as usize;
                            sg[b / 8] ^= 1 << (b % 8);
                        }
                        9 => pk[56] ^= 0x80, // the mirrored key: same y, other x
                        10 => match c.below(4) {
                            0 => sg[56] ^= 0x80, // mirrored R
                            1 => sg[113] ^= 0x80 >> c.below(8),
                            2 => sg[0] ^= 1,
                            _ => sg[57] ^= 1,
                        },
                        11 => {
                            let b = c.below(456) as usize;
                            pk[b / 8] ^= 1 << (b % 8);
                        }
                        _ => {
                            if c.chance(1, 2) {
                                let l = c.below(114) as usize;
                                sg.truncate(l);
                            } else {
                                let l = c.below(58) as usize;
                                pk.truncate(l);
                            }
                        }
                    }
                    Op::Verify(pk, sg, mm, c.below(2) as u8)
                }
                4 => Op::PrivToSecret(k),
                5 => Op::SecToPub(k),
                6 => Op::Ser(kind, k, c.below(4) as u8),
                7 => {
                    let mut t = format!("\"{}\"", rf::tohex(&k)).into_bytes();
                    if c.chance(1, 3) {
                        let p = c.below(t.len() as u32) as usize;
                        t[p] = b"0fFg\"x"[c.below(6) as usize];
                    }
                    if c.chance(1, 6) {
                        let n = c.below(t.len() as u32) as usize;
                        t.truncate(n);
                    }
                    Op::De(kind, Arc::new(t), c.below(4) as u8)
                }
                8 => Op::Random(c.below(8) as u64),
                9 => Op::RandomPanics(c.below(58)),
                10 => Op::SerPanics(kind, k),
                11 => Op::SerFails(kind, k),
                12 => Op::DePanics(kind),
                13 => Op::DeFails(kind),
                14 => Op::RandomReentrant(k, c.below(8) as u64),
                15 => Op::SerReentrant(kind, k),
                _ => Op::DeReentrant(kind, k),
            };
            p.ops.push(op);
            p.family.push(f);
        }
    }
    p
}
