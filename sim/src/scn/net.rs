//! C01-C03: signers and verifiers on a simulated network (discrete events, faults, Byzantine senders).
use crate::core::*;
use crate::gen::*;
use crate::op::{verify_placed, Out};
use crate::os::placed;
use crate::refimpl as rf;
use libgoldilocks::goldilocks as gl;
use libgoldilocks::{PrehashSigner, SigningKey};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap};
use std::sync::Arc;

/// How many bytes a buffer grows by: mostly few, sometimes many, sometimes exactly what a narrow length field loses.
fn growth(c: &mut Ctx) -> usize {
    match c.below(8) {
        0 => 1 + c.logu(200_000) as usize,
        1 => *c.pick(&[256usize, 256, 512, 1024, 65_536, 65_536, 131_072]),
        _ => 1 + c.logu(120) as usize,
    }
}
#[derive(Clone, PartialEq, Debug)]
struct Packet {
    pk: Vec<u8>,
    sig: Vec<u8>,
    msg: Msg,
    /// index of the honest transmission this packet is, untouched; None once altered or crafted
    intact: Option<usize>,
    note: &'static str,
}
struct Signer {
    key: K,
    imp: u8, // 0 function API, 1 key object, 2 reference implementation, 3 library, raw entry points
    obj: Option<SigningKey>,
    pk: Option<Vec<u8>>,
}
enum Ev {
    Sign(usize),
    Restart(usize),
    Send(usize, usize), // transmission, receiver
    Deliver(usize, Packet),
    Craft(usize),
}
struct Net<'a> {
    c: &'a mut Ctx,
    q: BinaryHeap<Reverse<(u64, u64)>>,
    evs: BTreeMap<u64, Ev>,
    seq: u64,
    signers: Vec<Signer>,
    recv: Vec<u8>, // entry point of each receiver (0, 1; 2 = reference peer)
    sent: Vec<Packet>,
    acked: BTreeMap<(usize, usize), bool>,
    issued: BTreeMap<u64, Vec<(Vec<u8>, Vec<u8>, Msg)>>,
    faults_on: bool,
    rate: [u32; 16],
    delivered: u32,
    max_msg: usize,
}

fn key3(pk: &[u8], sig: &[u8], m: &[u8]) -> u64 {
    mix(hash_bytes(pk) ^ mix(hash_bytes(sig) ^ mix(hash_bytes(m))))
}

impl Net<'_> {
    fn at(&mut self, d: u64, e: Ev) {
        self.seq += 1;
        self.q.push(Reverse((self.c.now_us + d, self.seq)));
        self.evs.insert(self.seq, e);
    }
    fn is(&self, p: &str) -> bool {
        self.c.prop == p
    }

    fn sign(&mut self, i: usize) -> Option<Packet> {
        let msg: Msg = if !self.sent.is_empty() && self.c.chance(1, 4) {
            let m = self.c.below(self.sent.len() as u32) as usize;
            let m = self.sent[m].msg.clone();
            if self.c.chance(1, 2) {
                m // the same message signed again / by someone else
            } else {
                Arc::new(msg_sibling(self.c, &m))
            }
        } else {
            Arc::new(message(self.c, self.max_msg))
        };
        let s = &self.signers[i];
        let (key, imp, obj) = (s.key, s.imp, s.obj);
        let own_nonce = if imp == 2 && self.c.chance(1, 2) { Some(fresh_key(self.c)).filter(|k| rf::sc_reduce(&rf::clamp(k)) != [0; 56]) } else { None };
        self.c.phase(1);
        let r = guard(|| match imp {
            0 => (gl::ed448_derive_public(&key).to_vec(), placed(&msg, |m| gl::ed448_sign(&key, m).to_vec())),
            1 => {
                let o = obj.unwrap_or_else(|| SigningKey::from_slice(&key));
                let s = placed(&msg, |m| o.sign_prehash(m)).expect("sign_prehash");
                (o.verifying_key().as_bytes().to_vec(), s.as_slice().to_vec())
            }
            3 if key[56] & 0x80 == 0 => (gl::private_to_public(&key).to_vec(), placed(&msg, |m| gl::sign_by_private(&key, m).to_vec())),
            3 => {
                let mut n = key;
                n[3] ^= 0x55;
                (gl::secret_to_public(&key).to_vec(), gl::sign_with_secret_and_nonce(&key, &n, &msg).to_vec())
            }
            _ if own_nonce.is_some() => {
                // a foreign signer that chooses its nonces itself, and chooses awkward ones
                let r = rf::clamp(&own_nonce.unwrap());
                (rf::derive(&key).to_vec(), rf::sign_nonce(&rf::expand(&key).0, &r, &msg).to_vec())
            }
            _ => (rf::derive(&key).to_vec(), rf::sign(&key, &msg).to_vec()),
        });
        self.c.phase(0);
        let (pk, sig) = match r {
            Ok(x) => x,
            Err(e) => {
                if self.is("C02") {
                    self.c.fail("sign-panicked", format!("signing {} bytes with key {} panicked: {}", msg.len(), hx(&key), e));
                }
                return None;
            }
        };
        self.c.count(match imp {
            0 => "op.sign_function_api",
            1 => "op.sign_key_object",
            2 => "op.sign_reference_peer",
            _ => "op.sign_raw_entry_points",
        });
        if self.is("C02") {
            // a restarted signer still has the key it published
            if let Some(p) = &self.signers[i].pk {
                if *p != pk {
                    let d = format!("key {} published {} and after a restart {}", hx(&key), hx(p), hx(&pk));
                    self.c.fail("public-key-changed", d);
                }
            }
        }
        self.signers[i].pk = Some(pk.clone());
        let idx = self.sent.len();
        let p = Packet { pk, sig, msg, intact: Some(idx), note: "" };
        self.issued.entry(key3(&p.pk, &p.sig[..p.sig.len().min(114)], &p.msg)).or_default().push((p.pk.clone(), p.sig[..p.sig.len().min(114)].to_vec(), p.msg.clone()));
        self.c.ev(hash_bytes(&p.sig));
        let (l, k) = (p.msg.len(), p.pk.clone());
        self.c.log(|| format!("signer {} (impl {}) signs message #{} of {} bytes; private {} public {}", i, imp, idx, l, hx(&key), hx(&k)));
        self.sent.push(p.clone());
        Some(p)
    }

    fn corrupt(&mut self, p: &mut Packet) {
        // one or more independent alterations
        let n = 1 + self.c.weighted(&[6, 2, 1]);
        for _ in 0..n {
            self.alter(p);
        }
        p.intact = self.sent.iter().position(|s| s.pk == p.pk && s.sig == p.sig && s.msg == p.msg);
    }
    fn other(&mut self) -> Option<Packet> {
        if self.sent.is_empty() {
            return None;
        }
        let i = self.c.below(self.sent.len() as u32) as usize;
        Some(self.sent[i].clone())
    }
    fn alter(&mut self, p: &mut Packet) {
        let kind = self.c.weighted(&[5, 5, 5, 6, 2, 2, 2, 3, 3, 3, 3, 2, 1, 2, 1, 2, 3, 3]);
        let c = &mut *self.c;
        match kind {
            0 if !p.pk.is_empty() => {
                let n = 8 * p.pk.len();
                let b = if c.chance(1, 6) { n - 1 } else { c.below(n as u32) as usize }; // the last bit mirrors the point
                p.pk[b / 8] ^= 1 << (b % 8);
                p.note = "bit flip in public key";
                c.fault("fault.bitflip_pubkey");
            }
            1 if p.sig.len() >= 57 => {
                let b = if c.chance(1, 8) { 455 } else { c.below(456) as usize };
                p.sig[b / 8] ^= 1 << (b % 8);
                p.note = "bit flip in R";
                c.fault("fault.bitflip_sig_r");
            }
            2 if p.sig.len() >= 114 => {
                let b = c.below(456) as usize;
                p.sig[57 + b / 8] ^= 1 << (b % 8);
                p.note = "bit flip in S";
                c.fault("fault.bitflip_sig_s");
            }
            3 if !p.msg.is_empty() => {
                let mut m = p.msg.to_vec();
                let i = position(c, m.len());
                m[i] ^= 1 << c.below(8);
                p.msg = Arc::new(m);
                p.note = "bit flip in message";
                c.fault("fault.bitflip_message");
            }
            4 if !p.msg.is_empty() => {
                let mut m = p.msg.to_vec();
                let cut = 1 + c.logu(m.len() as u64 - 1) as usize;
                m.truncate(m.len() - cut.min(m.len()));
                p.msg = Arc::new(m);
                p.note = "message truncated";
                c.fault("fault.truncate_message");
            }
            5 => {
                let mut m = p.msg.to_vec();
                let n = growth(c);
                match c.below(3) {
                    0 => m.extend(vec![0; n]),
                    1 => m.extend(expand(n as u64, n)),
                    _ => {
                        let mut z = vec![0; n];
                        z.extend(m);
                        m = z;
                    }
                }
                p.msg = Arc::new(m);
                p.note = "message extended";
                c.fault("fault.extend_message");
            }
            6 => {
                // a block of the packet reads as zeros
                let mut all = [&p.pk[..], &p.sig[..], &p.msg[..]].concat();
                if all.is_empty() {
                    return;
                }
                let a = position(c, all.len());
                let n = 1 + c.logu(256) as usize;
                for x in all.iter_mut().skip(a).take(n) {
                    *x = 0;
                }
                let (a, b) = (p.pk.len(), p.sig.len());
                p.pk = all[..a].to_vec();
                p.sig = all[a..a + b].to_vec();
                p.msg = Arc::new(all[a + b..].to_vec());
                p.note = "zero-filled block";
                c.fault("fault.zero_fill");
            }
            7 => {
                if let Some(o) = self.other() {
                    p.pk = o.pk;
                    p.note = "spliced public key";
                    self.c.fault("fault.splice_pubkey");
                }
            }
            8 => {
                if let Some(o) = self.other() {
                    if p.sig.len() >= 114 && o.sig.len() >= 114 && self.c.chance(1, 2) {
                        if self.c.chance(1, 2) {
                            p.sig[..57].copy_from_slice(&o.sig[..57]);
                        } else {
                            p.sig[57..114].copy_from_slice(&o.sig[57..114]);
                        }
                        p.note = "spliced half of a signature";
                    } else {
                        p.sig = o.sig;
                        p.note = "spliced signature";
                    }
                    self.c.fault("fault.splice_signature");
                }
            }
            9 => {
                if let Some(o) = self.other() {
                    p.msg = o.msg;
                    p.note = "spliced or stale message";
                    self.c.fault("fault.splice_message");
                }
            }
            10 => {
                let mut n = growth(c);
                if c.chance(1, 10) {
                    // a length that looks short in few bits
                    n = (*c.pick(&[256usize, 65_536]) * (1 + c.below(2) as usize) + c.below(115) as usize).saturating_sub(p.sig.len());
                }
                let s = c.seed();
                match c.below(3) {
                    0 => p.sig.extend(expand(s, n)),
                    1 => p.sig.extend(vec![0; n]),
                    _ => {
                        let again = p.sig.clone();
                        p.sig.extend(again);
                    }
                }
                p.note = "trailing bytes after signature";
                c.fault("fault.trailing_signature_bytes");
            }
            11 => {
                if c.chance(1, 2) {
                    let n = p.sig.len() as u32;
                    let k = c.below(n.max(1)) as usize;
                    p.sig.truncate(k);
                    p.note = "signature truncated";
                    c.fault("fault.truncate_signature");
                    if c.chance(1, 3) {
                        p.sig.resize(114, 0);
                        p.note = "signature tail lost";
                    }
                } else {
                    let n = p.pk.len() as u32;
                    let k = c.below(n.max(1)) as usize;
                    p.pk.truncate(k);
                    p.note = "public key truncated";
                    c.fault("fault.truncate_pubkey");
                    if c.chance(1, 3) {
                        p.pk.resize(57, 0);
                        p.note = "public key tail lost";
                    }
                }
            }
            12 => {
                match c.below(3) {
                    0 => p.pk = vec![0; 57],
                    1 => p.sig = vec![0; 114],
                    _ => {
                        p.pk = vec![0; 57];
                        p.sig = vec![0; 114];
                    }
                }
                p.note = "zeroed";
                c.fault("fault.zeroed_field");
            }
            13 => {
                // several neighbouring bytes damaged
                let s = c.seed();
                let n = 1 + c.logu(16) as usize;
                let e = expand(s, n);
                let which = c.below(3);
                let a;
                let t: &mut [u8] = match which {
                    0 => &mut p.pk,
                    1 => &mut p.sig,
                    _ => {
                        a = Arc::make_mut(&mut p.msg);
                        a
                    }
                };
                if t.is_empty() {
                    return;
                }
                let i = c.below(t.len() as u32) as usize;
                for (x, y) in t.iter_mut().skip(i).zip(e) {
                    *x = y;
                }
                p.note = "burst damage";
                c.fault("fault.burst");
            }
            14 => {
                std::mem::swap(&mut p.pk, &mut p.sig);
                p.note = "fields swapped";
                c.fault("fault.fields_swapped");
            }
            15 => {
                let n = growth(c);
                match c.below(4) {
                    0 => p.pk.extend(vec![0; n]),
                    1 => {
                        let s = c.seed();
                        p.pk.extend(expand(s, n));
                    }
                    2 => {
                        let again = p.pk.clone();
                        p.pk.extend(again);
                    }
                    _ => {
                        let mut z = vec![0; n.min(57)];
                        z.extend(&p.pk);
                        p.pk = z;
                    }
                }
                p.note = "public key extended";
                c.fault("fault.extend_pubkey");
            }
            16 => {
                p.msg = Arc::new(retyped(c, &p.msg));
                p.note = "message text rewritten in transit";
                c.fault("fault.text_rewrite");
            }
            17 => {
                p.msg = Arc::new(refragmented(c, &p.msg));
                p.note = "message fragments lost, repeated or swapped";
                c.fault("fault.fragments");
            }
            _ => {}
        }
    }

    /// Packets nobody honest would send.
    fn craft(&mut self) -> Packet {
        let low: [&str; 4] = ["01", "00", "feffffffffffffffffffffffffffffffffffffffffffffffffffffff", ""];
        let base = self.other();
        let c = &mut *self.c;
        let mut lowpt = |c: &mut Ctx| -> Vec<u8> {
            let mut v = rf::hexb(low[c.below(4) as usize]);
            if v.len() == 28 {
                // p - 1
                v = rf::Fe::ZERO.sub(&rf::Fe::ONE).to_bytes().to_vec();
            }
            v.resize(57, 0);
            if c.chance(1, 2) {
                v[56] ^= 0x80;
            }
            v
        };
        let scalar = |c: &mut Ctx| -> Vec<u8> {
            let mut v = match c.below(6) {
                0 => vec![0; 57],
                1 => {
                    let mut v = vec![0; 57];
                    v[0] = 1 + c.below(4) as u8;
                    v
                }
                2 => rf::q_bytes().to_vec(),
                3 => {
                    let mut v = rf::q_bytes().to_vec();
                    v[0] -= 1 + c.below(3) as u8;
                    v
                }
                4 => vec![0xff; 57],
                _ => {
                    let mut v = rf::sc_reduce(&expand(c.seed(), 114)).to_vec();
                    v.push(0);
                    v
                }
            };
            v.resize(57, 0);
            v
        };
        let coord = |c: &mut Ctx| -> Vec<u8> {
            // y built from limb patterns; about half of them are on the curve
            let mut v = vec![0u8; 57];
            match c.below(4) {
                0 => v = expand(c.seed(), 57),
                1 => {
                    let bits = c.seed() << 32 | c.seed();
                    for i in 0..16 {
                        let w: u32 = [0, 0xfffffff, 1, 0xffffffe][(bits >> (2 * i) & 3) as usize];
                        for b in 0..28 {
                            let p = 28 * i + b;
                            v[p / 8] |= ((w >> b & 1) as u8) << (p % 8);
                        }
                    }
                }
                2 => {
                    // around p and 2^448
                    v = vec![0xff; 57];
                    v[28] = 0xfe | c.below(2) as u8;
                    v[0] = 0xff - c.below(8) as u8;
                }
                _ => {
                    v[0] = c.below(256) as u8;
                    v[c.below(56) as usize] = c.below(256) as u8;
                }
            }
            v[56] = if c.chance(1, 2) { 0x80 } else { 0 };
            if c.chance(1, 8) {
                v[56] |= 1 << c.below(7);
            }
            v
        };
        let s = scalar(c);
        let (mut pk, mut sig, mut msg, note);
        msg = base.as_ref().map(|b| b.msg.clone()).unwrap_or_else(|| Arc::new(vec![7; 5]));
        let bpk = base.as_ref().map(|b| b.pk.clone()).unwrap_or_else(|| vec![1; 57]);
        let bsig = base.as_ref().map(|b| b.sig.clone()).unwrap_or_else(|| vec![1; 114]);
        match c.below(10) {
            0 => {
                pk = lowpt(c);
                sig = rf::Pt::base().mul(&s).encode().to_vec();
                sig.extend(&s);
                note = "low-order key, R=[S]B";
            }
            1 => {
                pk = bpk;
                sig = rf::Pt::base().mul(&s).encode().to_vec();
                sig.extend(&s);
                note = "R=[S]B under an honest key";
            }
            2 => {
                pk = bpk;
                sig = lowpt(c);
                sig.extend(&s);
                note = "low-order R";
            }
            3 => {
                pk = bpk.clone();
                sig = bpk;
                sig.extend(&s);
                note = "R equals the key";
            }
            4 => {
                pk = coord(c);
                sig = bsig;
                note = "constructed public key";
            }
            5 => {
                pk = bpk;
                sig = coord(c);
                sig.extend(&s);
                note = "constructed R";
            }
            6 if bsig.len() >= 114 => {
                // S + q: an algebraic equivalent (outside C01, counted)
                let t: K = bsig[57..114].try_into().unwrap();
                let t = rf::int_add(&t, &rf::q_bytes()).unwrap_or(t);
                pk = bpk;
                sig = bsig;
                sig[57..114].copy_from_slice(&t);
                note = "S+q";
            }
            7 if bsig.len() >= 114 => {
                // negated R and S
                pk = bpk;
                sig = bsig;
                sig[56] ^= 0x80;
                if c.chance(1, 2) {
                    pk[56] ^= 0x80;
                }
                note = "sign bits flipped";
            }
            8 => {
                let n = c.below(300) as usize;
                pk = expand(c.seed(), if c.chance(2, 3) { 57 } else { n });
                let n = c.below(300) as usize;
                sig = expand(c.seed(), if c.chance(2, 3) { 114 } else { n });
                note = "garbage";
            }
            _ => {
                let n = c.below(200) as usize;
                pk = if c.chance(1, 2) { bpk } else { vec![0; 57] };
                sig = if c.chance(1, 2) { vec![0; 114] } else { vec![0; n] };
                note = "zeros";
            }
        }
        if c.chance(1, 6) {
            pk.truncate(c.below(58) as usize);
        }
        if c.chance(1, 6) {
            sig.truncate(c.below(115) as usize);
        }
        if c.chance(1, 8) {
            msg = Arc::new(message(c, 300));
        }
        let _ = &mut pk;
        let _ = &mut sig;
        c.fault("fault.byzantine_packet");
        Packet { pk, sig, msg, intact: None, note }
    }

    fn genuine(&self, p: &Packet) -> bool {
        p.sig.len() >= 114 && self.issued.get(&key3(&p.pk, &p.sig[..114], &p.msg)).is_some_and(|l| l.iter().any(|(a, b, m)| *a == p.pk && b[..] == p.sig[..114] && *m == p.msg))
    }

    fn deliver(&mut self, r: usize, p: Packet) {
        self.delivered += 1;
        let entry = self.recv[r];
        let genuine = self.genuine(&p);
        let (note, ml) = (p.note, p.msg.len());
        if entry == 2 {
            // an independent implementation receives
            if genuine && p.intact.is_some() && self.is("C02") {
                self.c.count("check.reference_verifies_intact");
                let v = rf::verify(&p.pk, &p.sig, &p.msg);
                self.c.log(|| format!("receiver {} (reference) gets message of {} bytes intact: {:?}", r, ml, v));
                let low = rf::decode(&p.pk).is_some_and(|d| d.low_order) || rf::decode(&p.sig[..57]).is_some_and(|d| d.low_order);
                if v == rf::Verdict::Reject || (v == rf::Verdict::Grey && !low) {
                    self.c.fail("peer-refused", format!("an independent RFC 8032 verifier says {:?} for an issued signature: pk={} sig={} msg={}", v, hx(&p.pk), hx(&p.sig), hx(&p.msg)));
                }
                self.acked.insert((p.intact.unwrap(), r), true);
            }
            return;
        }
        self.c.phase(2);
        let o = guard(|| verify_placed(&p.pk, &p.sig, &p.msg, entry));
        self.c.phase(0);
        self.c.count(if entry == 0 { "op.verify" } else { "op.verify_with_error" });
        self.c.ev(match &o {
            Ok(Out::Verdict(v)) => 10 + *v as u64,
            Ok(Out::Err(e)) => hash_str(e),
            _ => 12,
        });
        self.c.log(|| format!("receiver {} (entry {}) gets {} [pk {} bytes, sig {} bytes, msg {} bytes]: {:?}", r, entry, if note.is_empty() { "an intact packet" } else { note }, p.pk.len(), p.sig.len(), ml, o.as_ref().map(|o| o.show())));
        let accepted = matches!(o, Ok(Out::Verdict(1)));
        let show = |p: &Packet| format!("pk={} sig={} msg={}", hx(&p.pk), hx(&p.sig), hx(&p.msg));
        match self.c.prop {
            "C01" => {
                self.c.count(if genuine { "check.genuine" } else { "check.forged_or_altered" });
                if accepted && !genuine {
                    if p.pk.len() != 57 || p.sig.len() < 114 {
                        self.c.fail("accepted-malformed", format!("accepted ({}): {}", p.note, show(&p)));
                    }
                    match rf::verify(&p.pk, &p.sig, &p.msg) {
                        rf::Verdict::Reject => self.c.fail("accepted-forgery", format!("accepted though never signed ({}): {}", p.note, show(&p))),
                        rf::Verdict::Grey => self.c.count("probe.algebraic_equivalent_accepted"),
                        rf::Verdict::Accept => self.c.count("probe.unissued_but_rfc_valid"),
                    }
                }
                let zero = p.pk == vec![0; 57] || p.sig == vec![0; 114];
                if zero {
                    self.c.count("check.zero_key_or_signature");
                    if !matches!(o, Ok(Out::Err(_))) {
                        self.c.fail("zero-not-refused", format!("all-zero key or signature gave {:?} instead of an error: {}", o.map(|o| o.show()), show(&p)));
                    }
                }
            }
            "C02" => {
                if let (Some(i), true) = (p.intact, genuine) {
                    self.c.count("check.intact_delivery");
                    if !accepted {
                        self.c.fail("honest-refused", format!("an issued signature was refused by entry {} with {:?}: {}", entry, o.map(|o| o.show()), show(&p)));
                    }
                    self.acked.insert((i, r), true);
                }
            }
            _ => self.c03(&p, entry, o, genuine),
        }
    }

    fn c03(&mut self, p: &Packet, entry: u8, o: Result<Out, String>, genuine: bool) {
        let show = |p: &Packet| format!("pk={} sig={} msg={}", hx(&p.pk), hx(&p.sig), hx(&p.msg));
        let o2 = guard(|| verify_placed(&p.pk, &p.sig, &p.msg, 1 - entry));
        self.c.count("check.arbitrary_bytes");
        let (a, b) = match (o, o2) {
            (Ok(a), Ok(b)) => (a, b),
            (x, y) => self.c.fail("verifier-panicked", format!("entry points ended {:?} / {:?} on {}", x.map(|o| o.show()), y.map(|o| o.show()), show(p))),
        };
        let (v, w) = if entry == 0 { (a, b) } else { (b, a) }; // v: ed448_verify, w: ed448_verify_with_error
        let inv = Out::Err("InvalidSignatureError".into());
        let agree = match (&v, &w) {
            (Out::Verdict(1), Out::Verdict(1)) => true,
            (Out::Verdict(0), e) => *e == inv,
            (Out::Err(x), Out::Err(y)) => x == y,
            _ => false,
        };
        if !agree {
            self.c.fail("entry-points-disagree", format!("ed448_verify: {:?}, ed448_verify_with_error: {:?} on {}", v, w, show(p)));
        }
        // error classification, only where exactly one thing is wrong
        #[derive(PartialEq, Clone, Copy)]
        enum Q {
            Good,
            BadLen,
            Undecodable,
            Odd,
        }
        let point = |b: &[u8]| match rf::decode(b) {
            None => Q::Undecodable,
            Some(d) if d.canonical && !d.low_order => Q::Good,
            _ => Q::Odd,
        };
        let zero = p.pk == vec![0; 57] || p.sig == vec![0; 114];
        let qp = if p.pk.len() != 57 { Q::BadLen } else { point(&p.pk) };
        let qs = if p.sig.len() < 114 {
            Q::BadLen
        } else if p.sig.len() > 114 {
            Q::Odd
        } else {
            match point(&p.sig[..57]) {
                Q::Good if rf::sc_reduce(&p.sig[57..114])[..] == p.sig[57..113] && p.sig[113] == 0 => Q::Good,
                Q::Good => Q::Odd,
                x => x,
            }
        };
        let want: Option<(Out, &'static str)> = if zero {
            None
        } else {
            match (qp, qs) {
                (Q::BadLen, Q::Good) => Some((Out::Err("InvalidPubkeyLengthError".into()), "check.bad_pubkey_length")),
                (Q::Good, Q::BadLen) => Some((Out::Err("InvalidSignatureLengthError".into()), "check.bad_signature_length")),
                (Q::Undecodable, Q::Good) => Some((Out::Err("DecodePubkeyError".into()), "check.undecodable_pubkey")),
                (Q::Good, Q::Undecodable) => Some((Out::Err("DecodeSignatureError".into()), "check.undecodable_r")),
                (Q::Good, Q::Good) if genuine => Some((Out::Verdict(1), "check.genuine_after_malformed")),
                (Q::Good, Q::Good) if rf::verify(&p.pk, &p.sig, &p.msg) == rf::Verdict::Reject => Some((Out::Verdict(0), "check.well_formed_mismatch")),
                _ => None,
            }
        };
        if let Some((want, k)) = want {
            self.c.count(k);
            if v != want {
                self.c.fail("wrong-classification", format!("expected {:?}, ed448_verify gave {:?} ({}) on {}", want, v, p.note, show(p)));
            }
        }
    }

    fn send(&mut self, p: Packet, r: usize) {
        let lat = 100 + self.c.below(2000) as u64;
        if !self.faults_on {
            self.at(lat, Ev::Deliver(r, p));
            return;
        }
        if self.c.chance(self.rate[0], 100) {
            self.c.fault("fault.drop");
            self.c.log(|| format!("packet to receiver {} lost", r));
            return;
        }
        if self.c.chance(self.rate[1], 100) {
            self.c.fault("fault.duplicate");
            let l2 = lat + 1 + self.c.below(50_000) as u64;
            self.at(l2, Ev::Deliver(r, p.clone()));
        }
        let mut lat = lat;
        if self.c.chance(self.rate[2], 100) {
            self.c.fault("fault.delay_reorder");
            lat += 1000 * self.c.below(60_000) as u64;
            if self.c.chance(1, 6) {
                self.c.fault("fault.delivered_years_late");
                lat += self.c.logu(600_000_000) * 1_000_000;
            }
        }
        let mut r = r;
        if self.c.chance(self.rate[3], 100) && self.recv.len() > 1 {
            self.c.fault("fault.misroute");
            r = self.c.below(self.recv.len() as u32) as usize;
        }
        let mut p = p;
        if self.c.chance(self.rate[4], 100) {
            self.corrupt(&mut p);
        }
        self.at(lat, Ev::Deliver(r, p));
    }

    fn run(&mut self, budget: u32) {
        while let Some(Reverse((t, s))) = self.q.pop() {
            if self.delivered >= budget {
                break;
            }
            self.c.now_us = t;
            match self.evs.remove(&s).unwrap() {
                Ev::Sign(i) => {
                    if let Some(p) = self.sign(i) {
                        let idx = p.intact.unwrap();
                        for r in 0..self.recv.len() {
                            if self.recv.len() == 1 || !self.c.chance(1, 3) {
                                self.at(0, Ev::Send(idx, r));
                            }
                        }
                    }
                }
                Ev::Send(i, r) => {
                    let p = self.sent[i].clone();
                    self.send(p, r)
                }
                Ev::Restart(i) => {
                    self.c.fault("fault.signer_restart");
                    let key = self.signers[i].key;
                    self.c.log(|| format!("signer {} restarts from its stored private key", i));
                    let o = guard(|| SigningKey::from_slice(&key));
                    match o {
                        Ok(o) => self.signers[i].obj = Some(o),
                        Err(e) if self.c.prop == "C02" => self.c.fail("restart-panicked", format!("key {}: {}", hx(&key), e)),
                        Err(_) => self.signers[i].obj = None,
                    }
                    if self.c.chance(1, 2) {
                        self.signers[i].imp = self.c.below(4) as u8;
                    }
                    if self.c.chance(1, 4) {
                        crate::os::set_clock(self.c);
                    }
                }
                Ev::Deliver(r, p) => self.deliver(r, p),
                Ev::Craft(r) => {
                    let p = self.craft();
                    self.deliver(r, p)
                }
            }
        }
    }
}

/// A long quiet stretch: many keys, one signature each, delivered intact to one verifier. Rare
/// arithmetic conditions (carries, short limbs) only show up in volume.
fn soak(c: &mut Ctx) {
    let n = if c.thorough { 400 } else { 120 };
    let base = c.seed();
    let from = c.below(n) as u64;
    let entry = c.below(2) as u8;
    c.fault("fault.signer_restart");
    for i in from..from + n as u64 {
        c.now_us += 1_000_000;
        let mut key: K = expand(mix(base ^ i), 57).try_into().unwrap();
        key[56] = key[56] & 0x7f | ((i & 1) as u8) << 7;
        let msg = expand(i ^ base << 8, (i % 90) as usize);
        let r = guard(|| {
            let pk = gl::ed448_derive_public(&key).to_vec();
            let sig = gl::ed448_sign(&key, &msg).to_vec();
            let v = verify_placed(&pk, &sig, &msg, entry);
            (pk, sig, v)
        });
        c.count("op.sign_soak");
        match r {
            Ok((_, _, Out::Verdict(1))) => {}
            Ok((pk, sig, v)) => c.fail("honest-refused", format!("key {}: refused with {}: pk={} sig={} msg={}", hx(&key), v.show(), hx(&pk), hx(&sig), hx(&msg))),
            Err(e) => c.fail("sign-panicked", format!("key {} message {}: {}", hx(&key), hx(&msg), e)),
        }
        c.ev(key[0] as u64 | (key[1] as u64) << 8);
    }
    c.add("check.intact_delivery", n as u64);
}

pub fn scenario(c: &mut Ctx) {
    crate::os::surroundings(c);
    let prop = c.prop;
    if prop == "C02" && c.chance(1, 10) {
        soak(c);
        return;
    }
    let ns = c.range(1, 3);
    let nr = c.range(1, 3);
    let mut signers = vec![];
    let mut prev: Option<K> = None;
    for _ in 0..ns {
        let key = match prev {
            Some(k) if c.chance(1, 3) => sibling(c, &k),
            _ => fresh_key(c),
        };
        prev = Some(key);
        signers.push(Signer { key, imp: c.below(4) as u8, obj: None, pk: None });
    }
    let recv: Vec<u8> = (0..nr).map(|_| c.below(if prop == "C02" { 3 } else { 2 }) as u8).collect();
    let mut rate = [0u32; 16];
    let heavy = prop != "C02";
    for (i, r) in rate.iter_mut().enumerate().take(5) {
        *r = match c.below(3) {
            0 => 0,
            1 => 15,
            _ => 40,
        };
        if i == 0 && heavy {
            *r /= 4; // a dropped packet teaches nothing about acceptance
        }
        if i == 4 && heavy {
            *r = 60 + *r;
        }
    }
    let max_msg = match c.weighted(&[20, 10, 7, 1]) {
        0 => 300,
        1 => 5000,
        2 => 1_200_000,
        _ => 20_000_000,
    };
    let nmsg = c.range(1, 5);
    let ncraft = if prop == "C02" { 0 } else { c.range(0, 6) };
    let nrestart = c.below(3);
    let mut n = Net {
        c,
        q: BinaryHeap::new(),
        evs: BTreeMap::new(),
        seq: 0,
        signers,
        recv,
        sent: vec![],
        acked: BTreeMap::new(),
        issued: BTreeMap::new(),
        faults_on: true,
        rate,
        delivered: 0,
        max_msg,
    };
    for _ in 0..nmsg {
        let i = n.c.below(ns as u32) as usize;
        let t = n.c.below(100_000) as u64;
        n.at(t, Ev::Sign(i));
    }
    for _ in 0..nrestart {
        let i = n.c.below(ns as u32) as usize;
        let t = n.c.below(100_000) as u64;
        n.at(t, Ev::Restart(i));
    }
    for _ in 0..ncraft {
        let r = n.c.below(nr as u32) as usize;
        let t = n.c.below(150_000) as u64;
        n.at(t, Ev::Craft(r));
    }
    if prop != "C02" {
        // adversarial retransmissions of everything sent so far
        n.run(24);
        let extra = n.c.below(8);
        for _ in 0..extra {
            if let Some(p) = n.other() {
                let mut p = p;
                n.corrupt(&mut p);
                let r = n.c.below(nr as u32) as usize;
                n.at(1000, Ev::Deliver(r, p));
            }
        }
        n.run(60);
        if prop == "C03" && !n.sent.is_empty() {
            // the verifier is still sane
            for r in 0..nr {
                let p = n.other().unwrap();
                n.deliver(r, p);
            }
        }
        return;
    }
    n.run(40);
    // faults stop: every unacknowledged message is retransmitted and must get through in one round
    n.faults_on = false;
    n.q.clear();
    n.evs.clear();
    n.delivered = 0;
    let todo: Vec<(usize, usize)> = (0..n.sent.len()).flat_map(|i| (0..nr).map(move |r| (i, r))).filter(|k| !n.acked.contains_key(k)).collect();
    for (i, r) in &todo {
        n.at(10, Ev::Send(*i, *r));
    }
    n.c.add("check.retransmissions_after_faults", todo.len() as u64);
    n.run(10_000);
    for i in 0..n.sent.len() {
        for r in 0..nr {
            if !n.acked.contains_key(&(i, r)) {
                n.c.fail("never-accepted", format!("message {} is still not verified at receiver {} after faults stopped", i, r));
            }
        }
    }
}
