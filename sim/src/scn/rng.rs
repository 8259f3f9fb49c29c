//! C06: key generation from a caller's generator that may fail, stall or repeat itself.
use crate::core::*;
use rand_core::{Error as RngError, RngCore};

/// Byte stream with a failure point; records how it is used.
struct CallerRng {
    world: u64,
    /// which output byte is altered (index into this call's output) and how
    flip: Option<(usize, u8)>,
    produced: usize,
    /// bytes that can still be delivered before the generator fails
    fail_after: usize,
    /// a failed fill delivers the bytes it still has first
    partial: bool,
    panics: u32,
    errors: u32,
    calls: u32,
    sticky: bool,
    failed: bool,
}
impl CallerRng {
    fn new(world: u64) -> CallerRng {
        CallerRng { world, flip: None, produced: 0, fail_after: usize::MAX, partial: true, panics: 0, errors: 0, calls: 0, sticky: true, failed: false }
    }
    fn fill(&mut self, d: &mut [u8]) -> bool {
        self.calls += 1;
        if self.failed && self.sticky {
            return false;
        }
        let mut n = d.len();
        let ok = self.produced + n <= self.fail_after;
        if !ok {
            self.failed = true;
            n = if self.partial { self.fail_after - self.produced } else { 0 };
        }
        for x in d[..n].iter_mut() {
            let mut b = crate::os::prf(self.world, self.produced as u64);
            if let Some((i, v)) = self.flip {
                if i == self.produced {
                    b ^= v;
                }
            }
            *x = b;
            self.produced += 1;
        }
        ok
    }
    fn must(&mut self, d: &mut [u8]) {
        if !self.fill(d) {
            self.panics += 1;
            panic!("injected: generator failed");
        }
    }
}
impl RngCore for CallerRng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.must(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.must(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.must(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), RngError> {
        if self.fill(d) {
            Ok(())
        } else {
            self.errors += 1;
            Err(RngError::from(core::num::NonZeroU32::new(RngError::CUSTOM_START + 1).unwrap()))
        }
    }
}

fn gen(c: &mut Ctx, r: &mut CallerRng) -> Result<[u8; 57], String> {
    c.count("op.random_key");
    let k = guard(|| ops::random_key(r))?;
    let b = k.to_bytes();
    Ok(b)
}

/// Very many keys from one or two generators.
fn many(c: &mut Ctx, world: u64) {
    c.fault("fault.very_many_keys");
    let n = 1u32 << c.range(6, 12);
    let two = c.chance(1, 2);
    let mut r = [CallerRng::new(world), CallerRng::new(mix(world ^ 0x2222))];
    let mut seen = std::collections::HashSet::new();
    c.log(|| format!("{} keys in a row from {} generators", n + 5, 1 + two as u32));
    for i in 0..n + 5 {
        let w = if two { i as usize % 2 } else { 0 };
        match gen(c, &mut r[w]) {
            Ok(k) => {
                if !seen.insert(k) {
                    c.fail("repeated-key", format!("key {} generated again as number {}", hx(&k), i));
                }
            }
            Err(e) => c.fail("generation-panicked", format!("working generator, yet: {}", e)),
        }
    }
    c.count("check.key_space");
    let keys: Vec<[u8; 57]> = seen.into_iter().collect();
    if let Some(e) = crate::gen::key_space(&keys) {
        c.fail("part-of-key-space", e);
    }
}

pub fn scenario(c: &mut Ctx) {
    let rounds = c.range(1, 6);
    let mut seen: Vec<([u8; 57], u64)> = vec![];
    // the OS generator is live but must not matter (nor rescue a failed caller generator)
    // what a fresh process makes of a given generator (no library code has run in this process yet)
    let rec_world = c.seed();
    let fresh = in_child(|| {
        let mut r = CallerRng::new(rec_world);
        guard(|| ops::random_key(&mut r)).map(|k| k.to_bytes().to_vec()).unwrap_or_default()
    })
    .unwrap_or_default();
    crate::os::boot(c.seed());
    crate::os::surroundings(c);
    for round in 0..rounds {
        c.now_us += 1000;
        let world = mix(c.seed() ^ (round as u64) << 40);
        if c.chance(1, 250) {
            many(c, world);
        }
        match c.below(4) {
            // plain generation, one generator used several times
            0 => {
                let mut r = CallerRng::new(world);
                let n = c.range(1, 4);
                for i in 0..n {
                    let p0 = r.produced;
                    match gen(c, &mut r) {
                        Err(e) => c.fail("generation-panicked", format!("working generator, yet: {}", e)),
                        Ok(k) => {
                            c.count("check.distinct");
                            let used = r.produced - p0;
                            c.log(|| format!("key {} of generator {:x}: {} from {} output bytes", i, world, hx(&k), used));
                            if used < 57 {
                                c.fail("too-little-randomness", format!("a key was made from {} bytes of output", used));
                            }
                            if let Some((_, w)) = seen.iter().find(|x| x.0 == k) {
                                c.fail("repeated-key", format!("key {} generated twice (generators {:x} and {:x})", hx(&k), w, world));
                            }
                            seen.push((k, world));
                            c.ev(hash_bytes(&k));
                        }
                    }
                }
            }
            // sensitivity: every key byte follows this call's output
            1 => {
                let warm = c.below(3);
                let mk = |c: &mut Ctx, flip: Option<(usize, u8)>, w: u64| -> ([u8; 57], usize) {
                    let mut r = CallerRng::new(w);
                    for _ in 0..warm {
                        let _ = gen(c, &mut r);
                    }
                    let p0 = r.produced;
                    r.flip = flip.map(|(i, v)| (p0 + i, v));
                    match gen(c, &mut r) {
                        Ok(k) => (k, r.produced - p0),
                        Err(e) => c.fail("generation-panicked", format!("working generator, yet: {}", e)),
                    }
                };
                let (base, used) = mk(c, None, world);
                // independent output in this call: every byte must move in at least one of several worlds
                let mut moved = [false; 57];
                for w in 1..7u64 {
                    let (k, _) = mk(c, None, mix(world ^ w));
                    for i in 0..57 {
                        moved[i] |= k[i] != base[i];
                    }
                }
                c.count("check.every_byte_random");
                c.ev(used as u64);
                if let Some(i) = moved.iter().position(|m| !m) {
                    c.fail("constant-byte", format!("key byte {} is {:02x} whatever the generator delivers", i, base[i]));
                }
                // one flipped output bit is another key
                if used >= 57 {
                    let tries = 12;
                    for _ in 0..tries {
                        let i = c.below(used as u32) as usize;
                        let bit = 1u8 << c.below(8);
                        let (k, _) = mk(c, Some((i, bit)), world);
                        c.fault("fault.output_bit_flipped");
                        if used == 57 && k == base {
                            c.fail("output-ignored", format!("output byte {} with bit {:02x} flipped gives the same key {}", i, bit, hx(&base)));
                        }
                    }
                }
                c.log(|| format!("sensitivity of generator {:x} after {} earlier keys, {} bytes used", world, warm, used));
                // the very same output again gives the same key (nothing else enters)
            }
            // a generator that dies before delivering
            2 => {
                let mut r = CallerRng::new(world);
                let warm = c.below(3);
                for _ in 0..warm {
                    let _ = gen(c, &mut r);
                }
                r.partial = c.chance(1, 2);
                r.sticky = !c.chance(1, 3);
                let left = c.below(57) as usize;
                r.fail_after = r.produced + left;
                let p = gen(c, &mut r);
                if r.failed {
                    c.fault("fault.generator_failed");
                }
                let (pn, en, f) = (r.panics, r.errors, r.failed);
                c.ev(left as u64 ^ (r.partial as u64) << 8);
                c.log(|| format!("generator {:x} fails after {} more bytes (panics {}, errors {}): {:?}", world, left, pn, en, p.as_ref().map(|k| hx(k))));
                c.count("check.fail_closed");
                if let Ok(k) = p {
                    if f || left < 57 {
                        c.fail("key-without-randomness", format!("the generator failed after {} of 57 bytes, yet key {} was returned", left, hx(&k)));
                    }
                }
                // a fresh generator works as if nothing had happened
                let mut a = CallerRng::new(rec_world);
                let k1 = gen(c, &mut a);
                c.count("check.recovery");
                match k1 {
                    Ok(k) if k[..] == fresh[..] => {}
                    k => c.fail("failure-leaves-traces", format!("after a failed generation the next key is {:?}, in a fresh process {:?}", k.map(|k| hx(&k)), hx(&fresh))),
                }
            }
            // two generators interleaved: each key follows its own generator
            _ => {
                let (wa, wb) = (world, mix(world ^ 5));
                let (mut a, mut b) = (CallerRng::new(wa), CallerRng::new(wb));
                let n = c.range(2, 5);
                for _ in 0..n {
                    let which = c.below(2);
                    let r = if which == 0 { &mut a } else { &mut b };
                    match gen(c, r) {
                        Ok(k) => {
                            if seen.iter().any(|x| x.0 == k) {
                                c.fail("repeated-key", format!("key {} generated twice", hx(&k)));
                            }
                            seen.push((k, world));
                            c.ev(hash_bytes(&k));
                        }
                        Err(e) => c.fail("generation-panicked", format!("working generator, yet: {}", e)),
                    }
                }
                c.nontrivial = true;
                c.count("check.interleaved_generators");
            }
        }
    }
}
