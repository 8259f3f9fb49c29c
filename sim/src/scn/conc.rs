//! C08: concurrent callers see sequential results. C12: every call ends in bounded steps.
use super::hist::{setup_with, solo};
use crate::core::*;
use crate::gen::*;
use crate::op::*;
use crate::refimpl as rf;
use crate::sched::{self, Hints};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex};

pub fn c08_setup(seed: u64, thorough: bool) {
    setup_with(seed, "C08", PoolCfg { families: if thorough { 40 } else { 16 }, per_family: 12, max_msg: 1500, aborts: false })
}
pub fn c12_setup(seed: u64, thorough: bool) {
    setup_with(seed, "C12", PoolCfg { families: if thorough { 40 } else { 16 }, per_family: 12, max_msg: 5000, aborts: true })
}

/// Generous bound on the steps of one call: about ten times what the slowest call takes (verification, 2.0 M), plus a linear part.
pub fn limit(op: &Op) -> u64 {
    20_000_000 + 100 * op.msg_len() as u64
}

fn hints(ids: &[usize]) -> Hints {
    let s = solo();
    let mut m: std::collections::BTreeMap<u32, u8> = Default::default();
    for x in ids.iter().flat_map(|i| s.guards[*i].iter().copied()) {
        let n = m.entry(x & 65535).or_insert(0);
        *n = (*n).max((x >> 16) as u8);
    }
    Hints {
        steps: ids.iter().map(|i| s.steps[*i]).max().unwrap_or(2),
        statics: ids.iter().map(|i| s.statics[*i]).max().unwrap_or(0),
        guards: m.keys().copied().collect(),
        rare: m.into_iter().filter(|x| x.1 <= 6).collect(),
    }
}

pub fn c08(c: &mut Ctx) {
    let s = solo();
    crate::os::boot(c.seed());
    crate::os::surroundings(c);
    sched::single_threaded(false);
    let n = s.pool.ops.len();
    let fam = c.below(s.pool.family[n - 1] as u32 + 1) as usize;
    let mut idx: Vec<usize> = if c.chance(4, 5) { (0..n).filter(|i| s.pool.family[*i] == fam).collect() } else { (0..n).collect() };
    idx.retain(|i| s.steps[*i] > 0 || s.out[*i] != Out::Err("does not return alone".into()));
    let t = c.range(2, 4);
    let mut plan: Vec<Vec<usize>> = vec![];
    for _ in 0..t {
        let k = c.range(1, 3);
        plan.push((0..k).map(|_| *c.pick(&idx)).collect());
    }
    // sometimes everybody makes the same kind of call at the same time
    if c.chance(1, 3) {
        let kind = s.pool.ops[plan[0][0]].name();
        let same: Vec<usize> = idx.iter().copied().filter(|i| s.pool.ops[*i].name() == kind).collect();
        for p in plan.iter_mut() {
            for x in p.iter_mut() {
                *x = *c.pick(&same);
            }
        }
    }
    // a warm-up call before the threads start, or none (first use may initialise something)
    if c.chance(1, 2) {
        let i = *c.pick(&idx);
        let o = s.pool.ops[i].exec();
        c.log(|| format!("before: {}", s.pool.ops[i].show()));
        if o != s.out[i] {
            c.fail("wrong-result", format!("{} gives {}, alone {}", s.pool.ops[i].show(), o.show(), s.out[i].show()));
        }
    }
    let gens: Arc<Mutex<Vec<Vec<u8>>>> = Default::default();
    let gen_in = c.below(6) as usize; // one task also generates keys from the OS
    let all: Vec<usize> = plan.iter().flatten().copied().collect();
    sched::set_hints(hints(&all));
    for (ti, p) in plan.iter().enumerate() {
        for i in p {
            c.ev((ti as u64) << 32 | *i as u64);
            let name = s.pool.ops[*i].name();
            c.count(name);
            c.log(|| format!("task {}: {}", ti, s.pool.ops[*i].show()));
        }
    }
    let switches = 1 + c.below(24);
    let bodies: Vec<Box<dyn FnOnce() + Send>> = plan
        .into_iter()
        .enumerate()
        .map(|(ti, p)| {
            let gens = gens.clone();
            Box::new(move || {
                let s = solo();
                for i in p {
                    sched::op_begin(u64::MAX);
                    let o = s.pool.ops[i].exec();
                    sched::op_end();
                    let c = ctx();
                    c.count("check.same_as_alone");
                    if o != s.out[i] {
                        c.fail("wrong-result", format!("task {}: {} gives {}, alone {}", ti, s.pool.ops[i].show(), o.show(), s.out[i].show()));
                    }
                    if gen_in == ti {
                        sched::op_begin(u64::MAX);
                        let k = guard(|| libgoldilocks::goldilocks::ed448_generate_key().to_vec());
                        sched::op_end();
                        let c = ctx();
                        c.count("op.generate_key");
                        match k {
                            Ok(k) => {
                                let mut g = gens.lock().unwrap();
                                if g.contains(&k) {
                                    c.fail("repeated-key", format!("two concurrent generations gave {}", hx(&k)));
                                }
                                g.push(k);
                            }
                            Err(e) => c.fail("generation-panicked", e),
                        }
                    }
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    sched::run_tasks(bodies, switches);
    c.now_us += 1000;
}

pub fn c12(c: &mut Ctx) {
    crate::os::boot(c.seed());
    crate::os::surroundings(c);
    if c.chance(1, 24) {
        scaling(c)
    } else if c.chance(1, 120) {
        huge(c)
    } else if c.chance(1, 2) {
        hostile(c)
    } else {
        together(c)
    }
}

/// Hostile and unusual arguments, one caller.
/// The system's entropy works, is interrupted, missing, refused for good, or stuck.
fn entropy_trouble(c: &mut Ctx) {
    let o = crate::os::os();
    let at = o.calls.load(SeqCst);
    o.nfaults.store(0, SeqCst);
    o.down_from.store(u64::MAX, SeqCst);
    o.zeros.store(false, SeqCst);
    o.enosys.store(false, SeqCst);
    match c.below(7) {
        0 => {}
        1 => {
            o.down_from.store(at + c.below(3) as u64, SeqCst);
            c.fault("fault.entropy_down");
        }
        2 => {
            o.zeros.store(true, SeqCst);
            c.fault("fault.entropy_stuck");
        }
        3 => {
            o.enosys.store(true, SeqCst);
            c.fault("fault.getrandom_missing");
        }
        _ => {
            use crate::os::EFault::*;
            for i in 0..1 + c.below(3) as u64 {
                let k = [Eintr, Short, Eagain, Eio, Eintr3, Zero][c.below(6) as usize];
                crate::os::add_fault(at + i, k);
            }
            c.fault("fault.entropy_request_failed");
        }
    }
}
fn hostile(c: &mut Ctx) {
    let n = c.range(1, 5);
    let mut max = 0;
    for _ in 0..n {
        c.now_us += 1000;
        let k = fresh_key(c);
        let big = c.chance(1, 8);
        let m: Msg = Arc::new(message(c, if big { 1_200_000 } else { 3000 }));
        let op = match c.below(10) {
            8 => Op::RandomConst([0, 0xff, 0x80, 1][c.below(4) as usize]),
            9 => {
                entropy_trouble(c);
                Op::Generate
            }
            0 => Op::Derive(k, c.below(5) as u8),
            1 => Op::Sign(k, m, c.below(3) as u8),
            2 => {
                let n = fresh_key(c);
                Op::SignExplicit(k, n, m)
            }
            3 => match c.below(3) {
                0 => Op::RandomReentrant(k, c.seed()),
                1 => Op::SerReentrant(*c.pick(&ops::KINDS), k),
                _ => Op::DeReentrant(*c.pick(&ops::KINDS), k),
            },
            4 => {
                let mut t = super::store::record(&k);
                super::store::damage(c, &mut t);
                Op::De(*c.pick(&ops::KINDS), Arc::new(t), c.below(4) as u8)
            }
            _ => {
                let (mut pk, mut sg) = (rf::derive(&k).to_vec(), rf::sign(&k, &m).to_vec());
                match c.below(7) {
                    0 => {}
                    1 => {
                        let b = c.below(912) as usize;
                        sg[b / 8] ^= 1 << (b % 8);
                    }
                    2 => {
                        let x = [0u8, 0xff, 0x80, 1][c.below(4) as usize];
                        for v in sg[57..].iter_mut() {
                            *v = x;
                        }
                    }
                    3 => {
                        let l = c.below(115) as usize;
                        sg.truncate(l);
                    }
                    4 => {
                        pk = vec![0; 57];
                        pk[0] = c.below(2) as u8;
                        pk[56] = if c.chance(1, 2) { 0x80 } else { 0 };
                    }
                    5 => {
                        let s = c.seed();
                        pk = expand(s, c.below(120) as usize);
                    }
                    _ => {
                        // R at the edges of the field
                        for v in sg[..56].iter_mut() {
                            *v = 0xff;
                        }
                        sg[28] = 0xfe | c.below(2) as u8;
                        sg[0] = 0xff - c.below(4) as u8;
                        sg[56] = 0;
                    }
                }
                c.fault("fault.hostile_input");
                Op::Verify(pk, sg, m, c.below(2) as u8)
            }
        };
        c.count(op.name());
        let lim = limit(&op);
        let (o, st, _) = sched::counted(lim, || op.exec());
        max = max.max(st);
        c.ev(st);
        c.log(|| format!("{} -> {} in {} steps (limit {})", op.show(), o.show(), st, lim));
        c.count("check.bounded_steps");
        if st > lim {
            c.fail("step-limit", format!("{} took {} steps (limit {})", op.show(), st, lim));
        }
    }
    c.add("probe.steps_total", max);
}

/// A message of many megabytes, on a thread with the default stack of 2 MiB: the call must return.
fn huge(c: &mut Ctx) {
    c.long_run();
    let k = fresh_key(c);
    let n2 = fresh_key(c);
    let len = 1usize << c.range(20, if c.thorough { 27 } else { 25 });
    let len = len + c.logu(len as u64 / 4) as usize;
    let m: Msg = Arc::new(expand(c.seed(), len));
    let op = match c.below(6) {
        0 | 1 => Op::Sign(k, m, c.below(3) as u8),
        2 => Op::SignExplicit(k, n2, m),
        3 => {
            let mut t = vec![b'"'];
            t.extend(m.iter().map(|b| b"0123456789abcdef"[(*b & 15) as usize]));
            t.push(b'"');
            Op::De(*c.pick(&ops::KINDS), Arc::new(t), c.below(4) as u8)
        }
        _ => {
            // whether the signature matches does not matter here
            let (pk, sg) = (rf::derive(&k).to_vec(), rf::sign(&k, b"").to_vec());
            Op::Verify(pk, sg, m, c.below(2) as u8)
        }
    };
    c.count(op.name());
    c.fault("fault.huge_message");
    c.now_us += 1000;
    c.log(|| format!("{} with {} bytes on a 2 MiB stack", op.name(), len));
    sched::handed_over();
    let r = std::thread::Builder::new().stack_size(2 << 20).spawn(move || op.exec()).unwrap().join();
    sched::single_threaded(true);
    c.ev(len as u64);
    c.count("check.call_returned");
    if r.is_err() {
        c.fail("did-not-return", format!("a call with {} bytes did not return", len));
    }
}

/// The same call on messages of n, 2n and 4n bytes: the growth may at most double with the length.
fn scaling(c: &mut Ctx) {
    let k = fresh_key(c);
    let n2 = fresh_key(c);
    let n = c.range(20_000, 126_000) as usize;
    let kind = c.below(6);
    let route = c.below(3) as u8;
    let seed = c.seed();
    let flat = c.chance(1, 4);
    let mut st = vec![];
    let mut name = "";
    for (i, l) in [n, 2 * n, 4 * n].into_iter().enumerate() {
        c.now_us += 1000;
        let m: Msg = Arc::new(if flat { vec![seed as u8; l] } else { expand(seed, l) });
        let op = match kind {
            0 | 1 => Op::Sign(k, m, route),
            2 => Op::SignExplicit(k, n2, m),
            5 => {
                let mut t = vec![b'"'];
                t.extend(m.iter().map(|b| b"0123456789abcdef"[(*b & 15) as usize]));
                t.push(b'"');
                Op::De(*[ops::Kind::Secret, ops::Kind::Signing, ops::Kind::Verifying].get(route as usize).unwrap(), Arc::new(t), 3)
            }
            _ => {
                let (pk, sg) = (rf::derive(&k).to_vec(), rf::sign(&k, &m).to_vec());
                Op::Verify(pk, sg, m, route % 2)
            }
        };
        name = op.name();
        c.count(name);
        let lim = limit(&op);
        // once uncounted, so that first-use work does not blur the comparison
        if i == 0 {
            op.exec();
        }
        let (_, s, _) = sched::counted(lim, || op.exec());
        c.log(|| format!("{} bytes: {} took {} steps", l, name, s));
        c.ev(s);
        st.push(s as i64);
    }
    c.count("check.linear_growth");
    c.nontrivial = true;
    // linear: second difference = 2 * first; quadratic: 4 * first. The slack covers the part that
    // depends on the hashed bytes and buffer doubling.
    let (a, b) = (st[1] - st[0], st[2] - st[1]);
    if b > 3 * a.max(0) + 250_000 {
        c.fail("superlinear", format!("{} takes {}, {} and {} steps for {}, {} and {} bytes", name, st[0], st[1], st[2], n, 2 * n, 4 * n));
    }
}

/// Several callers, some stalled mid-call, some calls aborted by their caller.
fn together(c: &mut Ctx) {
    let s = solo();
    sched::single_threaded(false);
    let n = s.pool.ops.len();
    let t = c.range(2, 5);
    let aborted: Vec<usize> = (0..n).filter(|i| s.pool.ops[*i].name().starts_with("fault.")).collect();
    let mut plan: Vec<Vec<usize>> = vec![];
    for _ in 0..t {
        let k = c.range(1, 3);
        plan.push(
            (0..k)
                .map(|_| {
                    if !aborted.is_empty() && c.chance(1, 4) {
                        *c.pick(&aborted)
                    } else {
                        c.below(n as u32) as usize
                    }
                })
                .collect(),
        );
    }
    // often everybody makes the same kind of call at the same time
    if c.chance(1, 2) {
        let kind = s.pool.ops[c.below(n as u32) as usize].name();
        let same: Vec<usize> = (0..n).filter(|i| s.pool.ops[*i].name() == kind).collect();
        for x in plan.iter_mut().flatten() {
            if c.chance(4, 5) {
                *x = *c.pick(&same);
            }
        }
    }
    let all: Vec<usize> = plan.iter().flatten().copied().collect();
    sched::set_hints(hints(&all));
    for (ti, p) in plan.iter().enumerate() {
        for i in p {
            c.ev((ti as u64) << 32 | *i as u64);
            let name = s.pool.ops[*i].name();
            c.count(name);
            c.log(|| format!("task {}: {}", ti, s.pool.ops[*i].show()));
        }
    }
    let gen_in: Vec<bool> = (0..t).map(|_| c.chance(1, 4)).collect();
    if gen_in.contains(&true) {
        entropy_trouble(c);
    }
    let switches = 1 + c.below(24);
    let bodies: Vec<Box<dyn FnOnce() + Send>> = plan
        .into_iter()
        .zip(gen_in)
        .map(|(p, gen)| {
            Box::new(move || {
                let s = solo();
                if gen {
                    sched::op_begin(limit(&Op::Generate));
                    let _ = Op::Generate.exec();
                    sched::op_end();
                    ctx().count("op.generate_key");
                }
                for i in p {
                    sched::op_begin(limit(&s.pool.ops[i]));
                    let _ = s.pool.ops[i].exec();
                    sched::op_end();
                    ctx().count("check.call_returned");
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    sched::run_tasks(bodies, switches);
    c.now_us += 1000;
}
