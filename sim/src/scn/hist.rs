//! C09: results do not depend on the history of earlier calls. C11: allocation failures.
use crate::core::*;
use crate::gen::*;
use crate::op::*;
use crate::os::ALLOC;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;

pub struct Solo {
    pub pool: Pool,
    pub out: Vec<Out>,
    pub steps: Vec<u64>,
    pub statics: Vec<u64>,
    pub guards: Vec<Vec<u32>>,
}
static mut SOLO: Option<Solo> = None;
#[allow(static_mut_refs)]
pub fn solo() -> &'static Solo {
    unsafe { SOLO.as_ref().expect("setup") }
}

/// Build the pool for this seed and compute, in a fresh process each, what every call returns alone.
pub fn setup_with(seed: u64, prop: &'static str, cfg: PoolCfg) {
    let sh = map_shared::<Shared>();
    let mut c = Ctx::new(prop, false, Src::Gen(Sm(mix(seed ^ hash_str(prop) ^ 0x9001))), sh, false);
    let pool = build_pool(&mut c, &cfg);
    let n = pool.ops.len();
    let (mut out, mut steps, mut statics, mut guards) = (vec![], vec![], vec![], vec![]);
    // in parallel, 8 at a time: each child executes one call and reports
    let mut results: Vec<Option<Vec<u8>>> = vec![None; n];
    std::thread::scope(|s| {
        let ops = &pool.ops;
        let hs: Vec<_> = (0..8)
            .map(|w| {
                s.spawn(move || {
                    let mut v = vec![];
                    let mut i = w;
                    while i < n {
                        let r = in_child(|| {
                            crate::os::init();
                            crate::os::boot(1);
                            unsafe {
                                libc::alarm(120);
                                crate::sched::ALONE = true;
                                crate::sched::single_threaded(true);
                            }
                            crate::sched::collect_guards(true);
                            let (o, st, sa) = crate::sched::counted(u64::MAX, || ops[i].exec());
                            let mut b = vec![];
                            b.extend(st.to_le_bytes());
                            b.extend(sa.to_le_bytes());
                            let g: Vec<u32> = (0..65536u32).filter(|g| unsafe { crate::sched::SEEN[*g as usize] } != 0).collect();
                            b.extend((g.len() as u32).to_le_bytes());
                            for x in g {
                                b.extend((x | (unsafe { crate::sched::SEEN[x as usize] } as u32) << 16).to_le_bytes());
                            }
                            b.extend(o.to_vec());
                            b
                        });
                        v.push((i, r.ok()));
                        i += 8;
                    }
                    v
                })
            })
            .collect();
        for h in hs {
            for (i, r) in h.join().unwrap() {
                results[i] = r;
            }
        }
    });
    for (i, r) in results.into_iter().enumerate() {
        match r {
            Some(b) => {
                let u = |o: usize| u64::from_le_bytes(b[o..o + 8].try_into().unwrap());
                steps.push(u(0));
                statics.push(u(8));
                let ng = u32::from_le_bytes(b[16..20].try_into().unwrap()) as usize;
                guards.push((0..ng).map(|j| u32::from_le_bytes(b[20 + 4 * j..24 + 4 * j].try_into().unwrap())).collect());
                out.push(Out::from_vec(&b[20 + 4 * ng..]));
            }
            None => {
                // dies or hangs even alone: other properties' business; never compared
                eprintln!("note: call {} does not return when run alone", i);
                steps.push(0);
                statics.push(0);
                guards.push(vec![]);
                out.push(Out::Err("does not return alone".into()));
            }
        }
    }
    unsafe { SOLO = Some(Solo { pool, out, steps, statics, guards }) }
}
pub fn c09_setup(seed: u64, thorough: bool) {
    setup_with(seed, "C09", PoolCfg { families: if thorough { 96 } else { 40 }, per_family: 20, max_msg: 3000, aborts: true })
}
pub fn c11_setup(seed: u64, thorough: bool) {
    setup_with(seed, "C11", PoolCfg { families: if thorough { 60 } else { 24 }, per_family: 10, max_msg: 70_000, aborts: false })
}

/// Caller-owned buffers reused from call to call: same addresses, new contents.
pub struct Arena {
    pk: Vec<u8>,
    sig: Vec<u8>,
    msg: Vec<u8>,
}
impl Arena {
    pub fn new() -> Arena {
        Arena { pk: Vec::with_capacity(512), sig: Vec::with_capacity(512), msg: Vec::with_capacity(1 << 21) }
    }
    pub fn exec(&mut self, op: &Op) -> Out {
        use libgoldilocks::goldilocks as gl;
        match op {
            Op::Verify(p, s, m, e) => {
                for (d, s) in [(&mut self.pk, &p[..]), (&mut self.sig, &s[..]), (&mut self.msg, &m[..])] {
                    d.clear();
                    d.extend_from_slice(s);
                }
                guard(|| verify_entry(&self.pk, &self.sig, &self.msg, *e)).unwrap_or(Out::Panic)
            }
            Op::Sign(k, m, 0) => {
                self.pk.clear();
                self.pk.extend_from_slice(k);
                self.msg.clear();
                self.msg.extend_from_slice(m);
                let k: &[u8; 57] = self.pk[..].try_into().unwrap();
                guard(|| Out::Bytes(gl::ed448_sign(k, &self.msg).to_vec())).unwrap_or(Out::Panic)
            }
            Op::Derive(k, 0) => {
                self.pk.clear();
                self.pk.extend_from_slice(k);
                let k: &[u8; 57] = self.pk[..].try_into().unwrap();
                guard(|| Out::Bytes(gl::ed448_derive_public(k).to_vec())).unwrap_or(Out::Panic)
            }
            o => o.exec(),
        }
    }
}

pub fn c09(c: &mut Ctx) {
    let s = solo();
    let n = s.pool.ops.len();
    crate::os::boot(c.seed());
    crate::os::surroundings(c);
    let mut arena = Arena::new();
    let len = c.range(2, 40);
    let fam = c.below(s.pool.family[n - 1] as u32 + 1) as usize;
    let focus = c.chance(3, 4);
    let idx: Vec<usize> = if focus { (0..n).filter(|i| s.pool.family[*i] == fam).collect() } else { (0..n).collect() };
    let reuse = c.chance(1, 2);
    let abort_bias = c.below(3);
    let mut hist: Vec<usize> = vec![];
    if c.chance(1, 160) {
        marathon(c, s, &idx);
    }
    for step in 0..len {
        c.now_us += 1000;
        if c.chance(1, 25) {
            // the next call comes much later, or the wall clock is set
            c.fault("fault.clock_jump");
            if c.chance(1, 2) {
                c.now_us += c.logu(600_000_000) * 1_000_000;
            } else {
                crate::os::set_clock(c);
            }
        }
        // sometimes a long stretch of other calls first
        if c.chance(1, 40) {
            burst(c, s, &idx);
        }
        let mut i = *c.pick(&idx);
        if !hist.is_empty() && c.chance(1, 4) {
            i = *c.pick(&hist); // the same call again
        }
        if abort_bias == 2 && c.chance(1, 2) {
            let ab: Vec<usize> = (0..n).filter(|i| s.pool.ops[*i].name().starts_with("fault.")).collect();
            if !ab.is_empty() {
                i = *c.pick(&ab);
            }
        }
        hist.push(i);
        let op = &s.pool.ops[i];
        let hop = c.chance(1, 10);
        let got = if hop {
            c.count("sched.thread_hop");
            let op2 = op.clone();
            crate::sched::handed_over();
            let r = std::thread::spawn(move || op2.exec()).join().unwrap_or(Out::Panic);
            crate::sched::single_threaded(true);
            r
        } else if reuse {
            arena.exec(op)
        } else {
            op.exec()
        };
        c.count(op.name());
        if op.name().starts_with("fault.") || matches!(got, Out::Err(_)) {
            c.nontrivial = true;
        }
        c.ev(i as u64);
        c.log(|| format!("{}: {} -> {}", step, op.show(), got.show()));
        c.count("check.same_as_alone");
        if got != s.out[i] {
            c.fail("history-dependent", format!("after {} earlier calls {} gives {}, alone it gives {}", step, op.show(), got.show(), s.out[i].show()));
        }
    }
}

/// More than 65536 calls of one kind in one process, every result checked.
fn marathon(c: &mut Ctx, s: &'static Solo, idx: &[usize]) {
    c.fault("fault.very_long_history");
    c.long_run();
    let n = [1 << 12, 1 << 13, 1 << 14, 1 << 16][c.weighted(&[6, 2, 2, 3])] + 4 + c.below(64) as usize;
    let kinds = ["op.sign", "op.sign", "op.verify", "op.verify", "op.derive", "op.serialize", "op.deserialize", "refused"];
    let kind = *c.pick(&kinds);
    if kind == "refused" {
        // cheaply refused verifications; what follows in this run must be unaffected
        let e = c.below(2) as u8;
        c.log(|| format!("{} refused verifications", n));
        for j in 0..n {
            let pk = vec![j as u8; j % 57];
            if let Ok(Out::Verdict(1)) = guard(|| verify_entry(&pk, &[3; 114], b"x", e)) {
                c.fail("history-dependent", format!("refused verification {} of a long series was accepted", j));
            }
        }
        c.add("op.verify", n as u64);
        return;
    }
    // a verification takes some 2 ms
    let n = if kind == "op.verify" && !c.thorough { n.min(4100 + n % 64) } else { n };
    let mut of: Vec<usize> = idx.iter().copied().filter(|i| s.pool.ops[*i].name() == kind && s.pool.ops[*i].msg_len() < 600).collect();
    if of.is_empty() {
        of = (0..s.pool.ops.len()).filter(|i| s.pool.ops[*i].name() == kind && s.pool.ops[*i].msg_len() < 600).collect();
    }
    if of.is_empty() {
        return;
    }
    let rot = c.range(1, of.len().min(8));
    let first = c.below(of.len() as u32) as usize;
    c.log(|| format!("{} times {} ({} different calls in turn)", n, kind, rot));
    for j in 0..n {
        let i = of[(first + j % rot) % of.len()];
        let o = s.pool.ops[i].exec();
        if o != s.out[i] {
            c.fail("history-dependent", format!("call {} of a long series: {} gives {}, alone it gives {}", j, s.pool.ops[i].show(), o.show(), s.out[i].show()));
        }
    }
    c.add("op.repeated", n as u64);
}

fn burst(c: &mut Ctx, s: &'static Solo, idx: &[usize]) {
    c.fault("fault.long_history");
    match c.below(4) {
        0 => {
            // many distinct keys
            let n = 1 << c.range(4, 10);
            let s0 = c.seed();
            c.log(|| format!("derives {} distinct keys", n));
            for j in 0..n as u64 {
                let k: K = expand(mix(s0 ^ j), 57).try_into().unwrap();
                let _ = guard(|| libgoldilocks::goldilocks::ed448_derive_public(&k));
            }
            c.add("op.derive", n as u64);
        }
        1 => {
            // many distinct triples
            let n = 1 << c.range(3, 8);
            let ops: Vec<&Op> = s.pool.ops.iter().filter(|o| matches!(o, Op::Verify(..))).collect();
            c.log(|| format!("verifies {} triples", n));
            for j in 0..n {
                let o = ops[j % ops.len()];
                if let Op::Verify(p, sg, m, e) = o {
                    let mut m2 = m.to_vec();
                    m2.extend((j as u32).to_le_bytes());
                    let _ = Op::Verify(p.clone(), sg.clone(), Arc::new(m2), *e).exec();
                }
            }
            c.add("op.verify", n as u64);
        }
        2 => {
            // one cheap call very often
            let n = 1u64 << c.range(8, 17);
            let k = [7u8; 57];
            c.log(|| format!("serialises a key {} times", n));
            let key = ops::Key::make(ops::Kind::Secret, &k);
            for _ in 0..n {
                let _ = guard(|| ops::to_string(&key));
            }
            c.add("op.serialize", n);
        }
        _ => {
            let n = 1 << c.range(3, 8);
            let i = *c.pick(idx);
            c.log(|| format!("{} times {}", n, s.pool.ops[i].show()));
            for j in 0..n {
                let o = s.pool.ops[i].exec();
                if o != s.out[i] {
                    c.fail("history-dependent", format!("repetition {} of {} gives {}, alone it gives {}", j, s.pool.ops[i].show(), o.show(), s.out[i].show()));
                }
            }
            c.add("op.repeated", n as u64);
        }
    }
}

// ------------------------------------------------------------------------------------------ C11
pub fn c11(c: &mut Ctx) {
    let s = solo();
    crate::os::boot(c.seed());
    crate::os::surroundings(c);
    let tries = c.range(2, 6);
    for _ in 0..tries {
        c.now_us += 1000;
        let i = c.below(s.pool.ops.len() as u32) as usize;
        let op = &s.pool.ops[i];
        // how many allocations does the call make, and how large
        let measure = in_child(|| {
            ALLOC.seen.store(0, SeqCst);
            ALLOC.fail_from.store(u64::MAX, SeqCst);
            ALLOC.fail_size.store(u64::MAX, SeqCst);
            ALLOC.armed.store(true, SeqCst);
            let o = op.exec();
            ALLOC.armed.store(false, SeqCst);
            std::hint::black_box(&o);
            ALLOC.seen.load(SeqCst).to_le_bytes().to_vec()
        });
        let n = match measure {
            Ok(b) => u64::from_le_bytes(b.try_into().unwrap()),
            Err(_) => continue,
        };
        c.add("probe.allocations_seen", n);
        if n == 0 {
            continue;
        }
        let plan = c.below(3);
        let at = c.below(n.min(u32::MAX as u64) as u32) as u64;
        let size = match c.below(3) {
            0 => op.msg_len() as u64,
            1 => 1 + c.logu(200_000.max(2 * op.msg_len() as u64)),
            _ => op.msg_len() as u64 / 2 + 1,
        };
        let same: Vec<usize> = (0..s.pool.ops.len()).filter(|j| s.pool.family[*j] == s.pool.family[i] && s.pool.ops[*j].msg_len() < 80_000).collect();
        let follow = if same.is_empty() { i } else { *c.pick(&same) };
        let fired = map_shared::<u64>();
        let r = in_child(|| {
            unsafe {
                libc::close(2);
            }
            ALLOC.seen.store(0, SeqCst);
            ALLOC.fired.store(0, SeqCst);
            match plan {
                0 => {
                    ALLOC.fail_from.store(at, SeqCst);
                    ALLOC.fail_count.store(1, SeqCst);
                }
                1 => {
                    ALLOC.fail_from.store(at, SeqCst);
                    ALLOC.fail_count.store(u64::MAX, SeqCst);
                }
                _ => ALLOC.fail_size.store(size.max(1), SeqCst),
            }
            unsafe { *fired = 1 };
            ALLOC.armed.store(true, SeqCst);
            let o = op.exec();
            ALLOC.armed.store(false, SeqCst);
            unsafe { *fired = 2 + ALLOC.fired.load(SeqCst) };
            // memory is back: the same call, then another one
            let again = op.exec();
            let next = s.pool.ops[follow].exec();
            let mut b = vec![];
            for o in [o, again, next] {
                let v = o.to_vec();
                b.extend((v.len() as u32).to_le_bytes());
                b.extend(v);
            }
            b
        });
        let f = unsafe { *fired };
        unsafe { libc::munmap(fired as *mut _, 8) };
        c.count(op.name());
        c.ev(i as u64 ^ plan as u64 * 31 ^ at << 16);
        let what = match plan {
            0 => format!("allocation {} of {} fails", at, n),
            1 => format!("all allocations from {} of {} fail", at, n),
            _ => format!("allocations of {} bytes or more fail", size),
        };
        match r {
            Err(_) => {
                c.fault("fault.alloc_failed_process_terminated");
                c.log(|| format!("{}: {}: process terminated", op.show(), what));
            }
            Ok(b) => {
                let mut at = 0;
                let mut part = || {
                    let n = u32::from_le_bytes(b[at..at + 4].try_into().unwrap()) as usize;
                    at += 4 + n;
                    Out::from_vec(&b[at - n..at])
                };
                let (o, again, next) = (part(), part(), part());
                if f > 2 {
                    c.fault("fault.alloc_failed_call_returned");
                }
                c.log(|| format!("{}: {}: {}", op.show(), what, o.show()));
                c.count("check.result_under_alloc_failure");
                let fine = o == s.out[i] || matches!(o, Out::Err(_)) || o == Out::Panic;
                if !fine {
                    c.fail("wrong-under-oom", format!("{}: {} -> {}, correct is {}", what, op.show(), o.show(), s.out[i].show()));
                }
                c.add("check.result_after_alloc_failure", 2);
                for (j, o) in [(i, again), (follow, next)] {
                    if o != s.out[j] {
                        c.fail("wrong-after-oom", format!("{} in {}; with memory available again {} -> {}, correct is {}", what, op.show(), s.pool.ops[j].show(), o.show(), s.out[j].show()));
                    }
                }
            }
        }
    }
}
