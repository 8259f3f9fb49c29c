//! C07: keys from the operating system's randomness across threads, forks, restarts and entropy faults.
use crate::core::*;
use crate::os::{add_fault, boot, os, EFault};
use libgoldilocks::goldilocks::ed448_generate_key;
use std::sync::atomic::Ordering::SeqCst;

/// A life of one process: what it does, including the processes it forks.
#[derive(Clone, Debug)]
enum Act {
    Gen(u32),
    Fork(Vec<Act>),
    Threads(Vec<u32>, u64), // keys per thread, schedule seed
}

#[derive(Clone, Debug)]
struct Made {
    key: Option<Vec<u8>>, // None: the call failed (panicked)
    asked: u64,           // entropy requests during the call (single-threaded parts only)
    got: u64,             // entropy bytes delivered during the call
    down: u64,            // requests refused for good during the call
    path: String,
}

fn script(c: &mut Ctx, depth: u32) -> Vec<Act> {
    let n = c.range(1, 4);
    (0..n)
        .map(|_| match c.weighted(&[5, if depth < 3 { 4 } else { 0 }, if depth < 2 { 2 } else { 0 }]) {
            0 => Act::Gen(1 + c.logu(4) as u32),
            1 => Act::Fork(script(c, depth + 1)),
            _ => {
                let t = c.range(2, 3);
                let v = (0..t).map(|_| 1 + c.below(3)).collect();
                Act::Threads(v, c.seed())
            }
        })
        .collect()
}

fn enc(v: &[Made]) -> Vec<u8> {
    serde_json::to_vec(&v.iter().map(|m| (m.key.clone(), m.asked, m.got, m.down, m.path.clone())).collect::<Vec<_>>()).unwrap()
}
fn dec(b: &[u8]) -> Option<Vec<Made>> {
    let v: Vec<(Option<Vec<u8>>, u64, u64, u64, String)> = serde_json::from_slice(b).ok()?;
    Some(v.into_iter().map(|(key, asked, got, down, path)| Made { key, asked, got, down, path }).collect())
}

fn one(path: String) -> Made {
    let o = os();
    let (a, g, d) = (o.calls.load(SeqCst), o.delivered.load(SeqCst), o.fired_down.load(SeqCst));
    let k = guard(|| ed448_generate_key().to_vec()).ok();
    Made { key: k, asked: o.calls.load(SeqCst) - a, got: o.delivered.load(SeqCst) - g, down: o.fired_down.load(SeqCst) - d, path }
}

/// Run a script in the current process.
fn live(acts: &[Act], path: &str) -> Vec<Made> {
    let mut out = vec![];
    for (i, a) in acts.iter().enumerate() {
        let p = format!("{}.{}", path, i);
        match a {
            Act::Gen(n) => {
                for j in 0..*n {
                    out.push(one(format!("{}k{}", p, j)));
                }
            }
            Act::Fork(s) => {
                // fork(2): the child carries the parent's memory; the parent goes on afterwards
                let r = in_child(|| enc(&live(s, &format!("{}f", p))));
                match r.ok().and_then(|b| dec(&b)) {
                    Some(v) => out.extend(v),
                    None => out.push(Made { key: None, asked: 0, got: 0, down: 0, path: format!("{}f(died)", p) }),
                }
            }
            Act::Threads(v, seed) => {
                let keys: std::sync::Arc<std::sync::Mutex<Vec<Made>>> = Default::default();
                ctx().src = Src::Gen(Sm(*seed));
                crate::sched::single_threaded(false);
                crate::sched::set_hints(crate::sched::Hints { steps: 300, statics: 8, guards: vec![], rare: vec![] });
                let bodies: Vec<Box<dyn FnOnce() + Send>> = v
                    .iter()
                    .enumerate()
                    .map(|(t, n)| {
                        let (keys, n, p) = (keys.clone(), *n, p.clone());
                        Box::new(move || {
                            for j in 0..n {
                                crate::sched::op_begin(u64::MAX);
                                let m = one(format!("{}t{}k{}", p, t, j));
                                crate::sched::op_end();
                                // attribution of requests is not meaningful across threads
                                keys.lock().unwrap().push(Made { asked: 0, got: 0, down: 0, ..m });
                            }
                        }) as Box<dyn FnOnce() + Send>
                    })
                    .collect();
                crate::sched::run_tasks(bodies, 20);
                crate::sched::single_threaded(true);
                let mut ks = keys.lock().unwrap().clone();
                ks.sort_by(|a, b| a.path.cmp(&b.path));
                out.extend(ks);
            }
        }
    }
    out
}

fn show(m: &Made) -> String {
    match &m.key {
        Some(k) => format!("{}: {}", m.path, hx(k)),
        None => format!("{}: no key", m.path),
    }
}

pub fn scenario(c: &mut Ctx) {
    match c.weighted(&[100, 40, 80, 2]) {
        0 => tree(c),
        1 => sensitivity(c),
        2 => faults(c),
        _ => marathon(c),
    }
}

/// One process and a forked child generate very many keys.
fn marathon(c: &mut Ctx) {
    c.long_run();
    c.fault("fault.very_many_keys");
    let w = c.seed();
    boot(w);
    let same_pid = c.chance(1, 4);
    os().same_pid.store(same_pid, SeqCst);
    let n = 1u64 << c.range(6, 16);
    let n = n + 5;
    let fork_at = c.below(n as u32) as u64;
    c.log(|| format!("{} keys in one process, as many again in a child forked after {}", n, fork_at));
    let r = sub_run(c, 1, |_| {
        let mut out: Vec<u8> = vec![];
        let life = |out: &mut Vec<u8>, from: u64| {
            for _ in from..n {
                match guard(|| ed448_generate_key()) {
                    Ok(k) => out.extend(&k),
                    Err(_) => return,
                }
            }
        };
        for _ in 0..fork_at {
            if let Ok(k) = guard(|| ed448_generate_key()) {
                out.extend(&k)
            }
        }
        if let Ok(v) = in_child(|| {
            let mut o = vec![];
            life(&mut o, 0);
            o
        }) {
            out.extend(v);
        }
        life(&mut out, fork_at);
        // report only what the parent needs: how many, and whether any repeats
        let mut seen = std::collections::HashMap::new();
        let mut rep: Vec<u8> = vec![];
        for (i, k) in out.chunks(57).enumerate() {
            if let Some(j) = seen.insert(k.to_vec(), i) {
                rep = format!("key {} repeats key {}: {}", i, j, hx(k)).into_bytes();
                break;
            }
        }
        let keys: Vec<[u8; 57]> = out.chunks_exact(57).map(|k| k.try_into().unwrap()).collect();
        if let (true, Some(e)) = (rep.is_empty(), crate::gen::key_space(&keys)) {
            rep = format!("!{}", e).into_bytes();
        }
        let mut v = (out.len() as u64 / 57).to_le_bytes().to_vec();
        v.extend(rep);
        v
    });
    let Ok(b) = r else { c.fail("generation-died", "a process died while generating many keys".into()) };
    let made = u64::from_le_bytes(b[..8].try_into().unwrap());
    c.add("op.generate_key", made);
    c.add("check.pairwise_distinct", made * (made - 1) / 2);
    c.ev(made ^ w);
    c.now_us += 100 * made;
    if made != 2 * n {
        c.fail("generation-failed", format!("{} of {} keys", made, 2 * n));
    }
    c.count("check.key_space");
    if b.len() > 8 && b[8] == b'!' {
        c.fail("part-of-key-space", String::from_utf8_lossy(&b[9..]).into_owned());
    }
    if b.len() > 8 {
        c.fail("repeated-key", String::from_utf8_lossy(&b[8..]).into_owned());
    }
}

/// lifetimes in one world: each starts as a fresh process image; the kernel's stream goes on
fn world(c: &mut Ctx, w: u64, lives: &[(Vec<Act>, u64)], enosys: bool, same_pid: bool, skew: u64) -> Vec<Made> {
    boot(w);
    os().same_pid.store(same_pid, SeqCst);
    os().skew_ns.store(skew, SeqCst);
    os().enosys.store(enosys, SeqCst);
    let mut all = vec![];
    for (i, (s, seed)) in lives.iter().enumerate() {
        let r = sub_run(c, *seed, |_| enc(&live(s, &format!("L{}", i))));
        match r.ok().and_then(|b| dec(&b)) {
            Some(v) => all.extend(v),
            None => c.fail("generation-died", format!("process {} died while generating keys from a working source", i)),
        }
    }
    all
}

fn tree(c: &mut Ctx) {
    let nl = c.range(1, 3);
    let lives: Vec<(Vec<Act>, u64)> = (0..nl).map(|_| (script(c, 0), c.seed())).collect();
    let enosys = c.chance(1, 5);
    let same_pid = c.chance(1, 4);
    let skew = if c.chance(1, 4) {
        crate::os::set_clock(c);
        os().skew_ns.load(SeqCst)
    } else {
        0
    };
    let forks = format!("{:?}", lives).matches("Fork").count();
    let threads = format!("{:?}", lives).matches("Threads").count();
    for _ in 0..forks {
        c.fault(if same_pid { "fault.fork_same_pid" } else { "fault.fork" });
    }
    for _ in 0..threads {
        c.fault("fault.concurrent_generation");
    }
    for _ in 1..nl {
        c.fault("fault.restart");
    }
    if enosys {
        c.fault("fault.getrandom_missing");
    }
    c.log(|| format!("processes: {:?}, getrandom missing: {}", lives.iter().map(|l| &l.0).collect::<Vec<_>>(), enosys));
    let w0 = c.seed();
    let base = world(c, w0, &lives, enosys, same_pid, skew);
    c.add("op.generate_key", base.len() as u64);
    c.now_us += 1000 * base.len() as u64;
    for m in &base {
        c.log(|| show(m));
        if m.key.is_none() {
            c.fail("generation-failed", format!("{}: no key though entropy was available", m.path));
        }
    }
    for (i, a) in base.iter().enumerate() {
        c.ev(hash_bytes(a.key.as_ref().unwrap()));
        for b in &base[..i] {
            c.count("check.pairwise_distinct");
            if a.key == b.key {
                c.fail("repeated-key", format!("{} and {} are the same key", show(b), show(a)));
            }
        }
    }
    // same schedule, other entropy: everything must change
    let mut moved = vec![[false; 57]; base.len()];
    let nw = if c.chance(1, 3) { 6 } else { 1 };
    for k in 0..nw {
        let other = world(c, mix(w0 ^ (k + 1)), &lives, enosys, same_pid, skew);
        if other.len() != base.len() {
            continue; // schedules may diverge when behaviour depends on entropy
        }
        for (i, m) in other.iter().enumerate() {
            let (Some(a), Some(b)) = (&base[i].key, &m.key) else { continue };
            for j in 0..57 {
                moved[i][j] |= a[j] != b[j];
            }
            c.count("check.other_entropy_other_key");
            if base.iter().any(|x| x.key == m.key) {
                c.fail("key-independent-of-entropy", format!("{} comes out the same with different entropy: {}", m.path, show(m)));
            }
        }
    }
    if nw == 6 {
        c.count("check.every_byte_depends_on_entropy");
        for (i, m) in moved.iter().enumerate() {
            if let Some(j) = m.iter().position(|x| !x) {
                c.fail("constant-byte", format!("byte {} of key {} is the same in 7 worlds of entropy", j, show(&base[i])));
            }
        }
    }
}

/// how many bytes of delivered entropy does one key depend on
fn sensitivity(c: &mut Ctx) {
    let warm = c.below(3) as usize;
    let w = c.seed();
    let run = |c: &mut Ctx, flip: Option<(u64, u64)>| -> Option<(Vec<u8>, u64, u64)> {
        boot(w);
        if let Some((i, l)) = flip {
            os().flip_at.store(i, SeqCst);
            os().flip_len.store(l, SeqCst);
            os().flip_xor.store(0x10, SeqCst);
        }
        let b = sub_run(c, 1, |_| {
            let mut last = one("w".into());
            let mut d0 = 0;
            for _ in 0..warm {
                d0 = os().delivered.load(SeqCst);
                last = one("w".into());
            }
            let d1 = os().delivered.load(SeqCst);
            let mut o = vec![];
            o.extend(d0.to_le_bytes());
            o.extend(d1.to_le_bytes());
            o.extend(last.key.unwrap_or_default());
            o
        })
        .ok()?;
        let u = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
        Some((b[16..].to_vec(), u(0), u(8)))
    };
    let Some((base, _, total)) = run(c, None) else { return };
    if base.len() != 57 {
        c.fail("generation-failed", "no key though entropy was available".into());
    }
    let mut n = 0;
    // which blocks of the delivered entropy matter (a pool may have been filled well before), then which bytes of them
    let block = 64.max(total / 64);
    let mut at = total;
    while at > 0 && n < 28 {
        let from = at.saturating_sub(block);
        let hit = total <= 512 || matches!(run(c, Some((from, at - from))), Some((k, _, _)) if k != base);
        if hit {
            for i in (from..at).take(4096) {
                if let Some((k, _, _)) = run(c, Some((i, 1))) {
                    c.fault("fault.entropy_byte_changed");
                    if k != base {
                        n += 1;
                    }
                }
                if n >= 28 {
                    break;
                }
            }
        }
        at = from;
    }
    c.ev(total ^ (warm as u64) << 32);
    c.log(|| format!("key {} of a process depends on at least {} of {} delivered entropy bytes", warm, n, total));
    c.count("check.entropy_bytes_per_key");
    if n < 28 {
        c.fail("too-little-entropy", format!("a key depends on only {} bytes of entropy ({} delivered)", n, total));
    }
}

fn faults(c: &mut Ctx) {
    let n = c.range(1, 5);
    let w = c.seed();
    boot(w);
    let enosys = c.chance(1, 4);
    os().enosys.store(enosys, SeqCst);
    let transient_only = c.chance(1, 2);
    let nf = c.below(4);
    let mut plan = vec![];
    for _ in 0..nf {
        let at = c.below(8) as u64;
        let k = if transient_only { [EFault::Eintr, EFault::Short, EFault::Eintr3][c.below(3) as usize] } else { [EFault::Eio, EFault::Eagain, EFault::Eintr, EFault::Short, EFault::Zero][c.below(5) as usize] };
        add_fault(at, k);
        plan.push((at, k));
    }
    let down = if !transient_only && c.chance(2, 3) { c.below(4) as u64 } else { u64::MAX };
    os().down_from.store(down, SeqCst);
    os().give_up.store(5000, SeqCst);
    let seed = c.seed();
    let threads = c.chance(1, 6);
    let acts = if threads { vec![Act::Threads(vec![2, 2], seed)] } else { vec![Act::Gen(n as u32)] };
    let r = sub_run(c, seed, |_| enc(&live(&acts, "L")));
    let f: Vec<u64> = os().fired.iter().map(|x| x.load(SeqCst)).collect();
    for (k, name) in [(1, "fault.entropy_eintr"), (2, "fault.entropy_short_read"), (3, "fault.entropy_eagain"), (4, "fault.entropy_eio"), (5, "fault.entropy_eintr_series"), (6, "fault.entropy_eof")] {
        if f[k] > 0 {
            c.fault(name);
        }
    }
    if os().fired_down.load(SeqCst) > 0 {
        c.fault("fault.entropy_down");
    }
    if os().fired_enosys.load(SeqCst) > 0 {
        c.fault("fault.getrandom_missing");
    }
    c.log(|| format!("{} keys with entropy faults {:?}, down from request {}, getrandom missing {}", n, plan, down as i64, enosys));
    let Some(made) = r.ok().and_then(|b| dec(&b)) else {
        if transient_only {
            c.fail("generation-died", format!("interrupted or short reads ended the process ({:?})", plan));
        }
        return;
    };
    c.add("op.generate_key", made.len() as u64);
    for (i, m) in made.iter().enumerate() {
        c.log(|| show(m));
        match &m.key {
            None => {
                if transient_only {
                    c.fail("not-retried", format!("{}: no key, though the source only had {:?}", m.path, plan));
                }
                c.count("check.failed_closed");
            }
            Some(k) => {
                c.ev(hash_bytes(k));
                c.count("check.key_under_faults");
                if !threads && m.down > 0 && m.got < 28 {
                    c.fail("key-without-entropy", format!("{}: the source failed for good during the call ({} bytes delivered), yet {}", m.path, m.got, show(m)));
                }
                if down == 0 {
                    c.fail("key-without-entropy", format!("the source never delivered a byte, yet {}", show(m)));
                }
                for o in &made[..i] {
                    if o.key == m.key {
                        c.fail("repeated-key", format!("{} and {} are the same key", show(o), show(m)));
                    }
                }
            }
        }
    }
    // the keys that were made are made of entropy
    if !threads && c.chance(1, 2) {
        let run = |c: &mut Ctx, w2: u64| -> Option<Vec<Made>> {
            boot(w2);
            os().enosys.store(enosys, SeqCst);
            for (a, k) in &plan {
                add_fault(*a, *k);
            }
            os().down_from.store(down, SeqCst);
            os().give_up.store(5000, SeqCst);
            sub_run(c, seed, |_| enc(&live(&acts, "L"))).ok().and_then(|b| dec(&b))
        };
        let mut moved = vec![[false; 57]; made.len()];
        for i in 1..7 {
            let Some(o) = run(c, mix(w ^ i)) else { return };
            if o.len() != made.len() {
                return;
            }
            for (j, m) in o.iter().enumerate() {
                if let (Some(a), Some(b)) = (&made[j].key, &m.key) {
                    for x in 0..57 {
                        moved[j][x] |= a[x] != b[x];
                    }
                }
            }
        }
        c.count("check.every_byte_depends_on_entropy");
        for (j, m) in made.iter().enumerate() {
            if m.key.is_some() {
                if let Some(x) = moved[j].iter().position(|x| !x) {
                    c.fail("constant-byte", format!("with faults {:?}, byte {} of {} is the same in 7 worlds of entropy", plan, x, show(m)));
                }
            }
        }
    }
}
