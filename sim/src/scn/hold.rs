//! C19: no history of calls, refused and aborted ones included, makes the process hold ever more.
use crate::core::*;
use crate::gen::*;
use crate::op::*;
use crate::os::{os, ALLOC};
use libgoldilocks::goldilocks as gl;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;

static mut POOL: Option<Pool> = None;
#[allow(static_mut_refs)]
fn pool() -> &'static Pool {
    unsafe { POOL.as_ref().expect("setup") }
}
pub fn setup(seed: u64, thorough: bool) {
    let sh = map_shared::<Shared>();
    let mut c = Ctx::new("C19", false, Src::Gen(Sm(mix(seed ^ 0x1919))), sh, false);
    let p = build_pool(&mut c, &PoolCfg { families: if thorough { 40 } else { 16 }, per_family: 14, max_msg: 2500, aborts: true });
    unsafe { POOL = Some(p) }
}

fn descriptors() -> i64 {
    (0..512).filter(|f| unsafe { libc::fcntl(*f, libc::F_GETFD) } >= 0).count() as i64
}

const KINDS: [&str; 12] = [
    "verifications of undecodable keys", "verifications of undecodable points", "verifications of genuine traffic", "rejected verifications", "keys derived", "messages signed",
    "records written and read", "malformed records", "aborted calls", "keys generated", "mixed calls", "calls on short-lived threads",
];

/// Call number i of the series. Arguments differ from call to call.
fn call(kind: usize, seed: u64, i: u64, ids: &[usize]) {
    let p = pool();
    let h = mix(seed ^ i.wrapping_mul(0x9e3779b97f4a7c15));
    match kind {
        0 => {
            // lengths and contents that do not decode
            let n = if h & 1 == 0 { 57 } else { (h >> 8) as usize % 120 };
            let pk = expand(h, n);
            let _ = guard(|| verify_entry(&pk, &[5; 114], &h.to_le_bytes(), (h >> 1) as u8 & 1));
        }
        1 => {
            let o = &p.ops[ids[(h >> 20) as usize % ids.len()]];
            if let Op::Verify(k, s, m, e) = o {
                let mut s = s.clone();
                let j = (h >> 40) as usize % 57;
                if s.len() > j {
                    s[j] ^= 1 << (h & 7);
                }
                if h & 0x300 == 0 {
                    s.truncate((h >> 12) as usize % 114);
                }
                let _ = guard(|| verify_entry(k, &s, m, *e));
            }
        }
        2 => {
            let _ = p.ops[ids[i as usize % ids.len()]].exec();
        }
        3 => {
            if let Op::Verify(k, s, m, e) = &p.ops[ids[i as usize % ids.len()]] {
                let mut m = m.to_vec();
                m.extend(h.to_le_bytes());
                let _ = guard(|| verify_entry(k, s, &m, *e));
            }
        }
        4 => {
            let k: K = expand(h, 57).try_into().unwrap();
            let _ = Op::Derive(k, (h >> 3) as u8 % 5).exec();
        }
        5 => {
            let k: K = expand(if h & 1 == 0 { seed } else { h }, 57).try_into().unwrap();
            let m = Arc::new(expand(h, (h >> 16) as usize % 400));
            let _ = Op::Sign(k, m, (h >> 3) as u8 % 3).exec();
        }
        6 => {
            let k: K = expand(h, 57).try_into().unwrap();
            let kind = ops::KINDS[(h >> 5) as usize % 3];
            if let Out::Bytes(b) = Op::Ser(kind, k, (h >> 7) as u8 % 3).exec() {
                // reading a signing key derives its public key, which is slow
                let kind = if kind == ops::Kind::Signing && h & 15 != 0 { ops::Kind::Secret } else { kind };
                let _ = Op::De(kind, Arc::new(b), (h >> 9) as u8 % 4).exec();
            }
        }
        7 => {
            let k: K = expand(h, 57).try_into().unwrap();
            let mut t = format!("\"{}\"", crate::refimpl::tohex(&k)).into_bytes();
            let j = (h >> 20) as usize % t.len();
            if h & 1 == 0 {
                t[j] = b"g\"\\ \0z"[(h >> 30) as usize % 6];
            } else {
                t.truncate(j);
            }
            let _ = Op::De(ops::KINDS[(h >> 5) as usize % 3], Arc::new(t), (h >> 9) as u8 % 4).exec();
        }
        8 => {
            let k: K = expand(h, 57).try_into().unwrap();
            let kd = ops::KINDS[(h >> 5) as usize % 3];
            let _ = match (h >> 8) % 5 {
                0 => Op::RandomPanics((h >> 12) as u32 % 57),
                1 => Op::SerPanics(kd, k),
                2 => Op::SerFails(kd, k),
                3 => Op::DePanics(kd),
                _ => Op::DeFails(kd),
            }
            .exec();
        }
        9 => {
            if h & 7 == 0 {
                let _ = Op::Random(h).exec();
            } else {
                let _ = guard(gl::ed448_generate_key);
            }
        }
        10 => {
            let _ = p.ops[ids[(h >> 20) as usize % ids.len()]].exec();
        }
        _ => {
            let o = &p.ops[ids[(h >> 20) as usize % ids.len()]];
            let _ = std::thread::scope(|s| s.spawn(|| o.exec()).join());
        }
    }
}

pub fn scenario(c: &mut Ctx) {
    crate::os::boot(c.seed());
    crate::os::surroundings(c);
    if c.chance(1, 6) {
        peak(c);
        return;
    }
    let p = pool();
    let kind = c.below(KINDS.len() as u32) as usize;
    let seed = c.seed();
    let cheap = matches!(kind, 0 | 6 | 7 | 8 | 9);
    let ids: Vec<usize> = match kind {
        1 | 3 => (0..p.ops.len()).filter(|i| matches!(p.ops[*i], Op::Verify(..))).collect(),
        2 => (0..p.ops.len()).filter(|i| matches!(&p.ops[*i], Op::Verify(k, s, ..) if k.len() == 57 && s.len() == 114)).collect(),
        _ => {
            let f = c.below(p.family[p.ops.len() - 1] as u32 + 1) as usize;
            (0..p.ops.len()).filter(|i| p.family[*i] == f || kind == 10).collect()
        }
    };
    // the entropy device instead of the system call; entropy that fails for good
    let trouble = if kind == 9 { c.below(4) } else { 0 };
    if trouble == 1 {
        os().enosys.store(true, SeqCst);
        c.fault("fault.getrandom_missing");
    }
    if trouble == 2 {
        os().down_from.store(os().calls.load(SeqCst) + c.below(200) as u64, SeqCst);
        os().give_up.store(50_000, SeqCst);
        c.fault("fault.entropy_outage");
    }
    // warm up, then measure after 1, 2, 4, 8 times as many calls
    let unit = if cheap { 1u64 << c.range(6, 9) } else { 1 << c.range(3, 4) };
    let most = unit.max(if cheap { 16384 } else { 8192 });
    c.long_run();
    crate::sched::single_threaded(kind != 11);
    ALLOC.live.store(0, SeqCst);
    ALLOC.watch.store(true, SeqCst);
    let mut i = 0;
    let mut run = |n: u64| {
        while i < n {
            call(kind, seed, i, &ids);
            i += 1;
        }
        (ALLOC.live.load(SeqCst), descriptors())
    };
    let mut n = unit;
    let mut last = run(n);
    let first = last;
    let (mut heap_grows, mut fds_grow) = (true, true);
    let mut rounds = 0;
    loop {
        n *= 2;
        let now = run(n);
        heap_grows &= now.0 > last.0;
        fds_grow &= now.1 > last.1;
        last = now;
        rounds += 1;
        // growth that goes on is followed up to sizes no bounded cache of this library would have
        if (!heap_grows && !fds_grow && rounds >= 3) || (rounds >= 3 && n >= most) || last.1 > 400 {
            break;
        }
    }
    ALLOC.watch.store(false, SeqCst);
    crate::sched::single_threaded(true);
    c.now_us += 1000 * n;
    c.add("op.calls", n);
    c.count("check.holdings");
    let f = ["fault.undecodable_input", "fault.undecodable_input", "", "fault.rejected_input", "", "", "", "fault.malformed_record", "fault.caller_aborted", "", "", "fault.thread_exit"][kind];
    if !f.is_empty() {
        c.nontrivial = true;
        c.add(f, n);
    }
    c.ev(kind as u64 ^ seed << 8);
    c.log(|| format!("{} {}: heap balance {} -> {} bytes, descriptors {} -> {}", n, KINDS[kind], first.0, last.0, first.1, last.1));
    if fds_grow && last.1 - first.1 >= 3 {
        c.fail("descriptors-pile-up", format!("{} {}: open descriptors went from {} (after {}) to {}", n, KINDS[kind], first.1, unit, last.1));
    }
    if heap_grows && (last.0 - first.0) as u64 >= (n - unit) / 16 {
        c.fail("memory-piles-up", format!("{} {}: the heap held by the process grew in every one of {} doublings, by {} bytes after the first {} calls", n, KINDS[kind], rounds, last.0 - first.0, unit));
    }
}

/// What one call needs at most grows no faster than its input.
fn peak(c: &mut Ctx) {
    c.long_run();
    c.fault("fault.growing_inputs");
    let which = c.below(4);
    let base = 1000 + c.below(400_000) as usize;
    let seed = c.seed();
    let k: K = expand(seed, 57).try_into().unwrap();
    let k2 = crate::refimpl::derive(&k);
    let e = c.below(2) as u8;
    let need = |n: usize| -> (i64, i64) {
        let op = match which {
            0 => Op::Sign(k, Arc::new(expand(seed, n)), (seed & 1) as u8),
            1 => Op::Verify(k2.to_vec(), [&k2[..], &[1; 56][..], &[0]].concat(), Arc::new(expand(seed, n)), e),
            2 => Op::Verify(k2.to_vec(), expand(seed, n), Arc::new(vec![1; 5]), e),
            _ => Op::De(ops::Kind::Secret, Arc::new([b"\"", &vec![b'a'; n][..], b"\""].concat()), (seed % 4) as u8),
        };
        let _ = op.exec(); // first use
        ALLOC.live.store(0, SeqCst);
        ALLOC.peak.store(0, SeqCst);
        ALLOC.watch.store(true, SeqCst);
        let o = op.exec();
        drop(o);
        ALLOC.watch.store(false, SeqCst);
        (ALLOC.peak.load(SeqCst), ALLOC.live.load(SeqCst))
    };
    let (a, la) = need(base);
    let (b, lb) = need(4 * base);
    c.count("check.peak");
    c.ev(which as u64 ^ (base as u64) << 4);
    c.log(|| format!("input kind {} of {} bytes: peak {} bytes, left over {}; four times as long: {}, {}", which, base, a, la, b, lb));
    if b > 6 * a + 64 * 1024 + 16 * base as i64 {
        c.fail("memory-superlinear", format!("input kind {}: {} bytes of input need {} bytes at most, {} need {}", which, base, a, 4 * base, b));
    }
}
