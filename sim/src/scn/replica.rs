//! C10: replicas sign the same things in different orders, processes, times and entropy conditions.
use crate::core::*;
use crate::gen::*;
use crate::refimpl as rf;
use libgoldilocks::goldilocks as gl;
use libgoldilocks::{PrehashSigner, SigningKey};
use std::collections::BTreeMap;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;

#[derive(Clone)]
struct Job {
    key: K,
    nonce: K,
    msg: Msg,
    route: u8, // 0 ed448_sign, 1 key object, 2 sign_by_private, 3 sign_with_secret_and_nonce
}
impl Job {
    fn lib(&self) -> Vec<u8> {
        crate::os::placed(&self.msg, |m| match self.route {
            0 => gl::ed448_sign(&self.key, m).to_vec(),
            1 => SigningKey::from_slice(&self.key).sign_prehash(m).expect("sign_prehash").as_slice().get(..114).unwrap_or(&[]).to_vec(),
            2 => gl::sign_by_private(&self.key, m).to_vec(),
            _ => gl::sign_with_secret_and_nonce(&self.key, &self.nonce, m).to_vec(),
        })
    }
    /// (scalar, prefix) this signature is made with
    fn ident(&self) -> ([u8; 57], [u8; 57]) {
        match self.route {
            0 | 1 => rf::expand(&self.key),
            2 => rf::expand_seed(&self.key),
            _ => (rf::clamp(&self.key), self.nonce),
        }
    }
    fn show(&self) -> String {
        format!("route {} key {} msg {} bytes {}", self.route, hx(&self.key), self.msg.len(), hx(&self.msg[..self.msg.len().min(32)]))
    }
}

pub fn scenario(c: &mut Ctx) {
    let nk = c.range(1, 3);
    let mut keys: Vec<K> = vec![fresh_key(c)];
    while keys.len() < nk {
        let k = if c.chance(2, 3) {
            let k = *c.pick(&keys.clone());
            sibling(c, &k)
        } else {
            fresh_key(c)
        };
        keys.push(k);
    }
    let max = match c.weighted(&[6, 3, 1]) {
        0 => 300,
        1 => 5000,
        _ => 1_200_000,
    };
    let nm = c.range(1, 4);
    let mut msgs: Vec<Msg> = vec![Arc::new(message(c, max))];
    while msgs.len() < nm {
        let m = if c.chance(2, 3) {
            let m = c.pick(&msgs.clone()).clone();
            Arc::new(msg_sibling(c, &m))
        } else {
            Arc::new(message(c, max))
        };
        msgs.push(m);
    }
    let nj = c.range(2, 8);
    let jobs: Vec<Job> = (0..nj)
        .map(|_| {
            let key = *c.pick(&keys);
            let nonce = *c.pick(&keys);
            let msg = c.pick(&msgs).clone();
            Job { key, nonce, msg, route: c.weighted(&[5, 3, 1, 1]) as u8 }
        })
        .collect();
    let want: Vec<Vec<u8>> = jobs
        .iter()
        .map(|j| {
            let (s, p) = j.ident();
            rf::sign_core(&s, &p, &j.msg).to_vec()
        })
        .collect();
    crate::os::boot(c.seed());
    let nr = c.range(2, 4);
    let mut commits: BTreeMap<Vec<u8>, (([u8; 57], [u8; 57]), Msg)> = BTreeMap::new();
    for r in 0..nr {
        c.now_us += 1_000_000;
        // this replica's environment
        let o = crate::os::os();
        let w = c.seed();
        o.world.store(w, SeqCst);
        o.skew_ns.store(0, SeqCst);
        if c.chance(2, 3) {
            crate::os::set_clock(c);
        }
        let skew = o.skew_ns.load(SeqCst);
        let ent = c.below(4);
        o.down_from.store(if ent == 3 { o.calls.load(SeqCst) } else { u64::MAX }, SeqCst);
        o.enosys.store(ent == 2, SeqCst);
        if ent == 3 {
            c.fault("fault.entropy_down");
        }
        if ent == 2 {
            c.fault("fault.getrandom_missing");
        }
        crate::os::surroundings(c);
        // order of work, restarts and threads
        let mut order: Vec<usize> = (0..nj).collect();
        for i in (1..nj).rev() {
            let j = i - c.below(i as u32 + 1) as usize;
            order.swap(i, j);
        }
        let dup = c.below(2);
        if dup == 1 {
            let x = *c.pick(&order.clone());
            order.push(x);
        }
        let mut i = 0;
        while i < order.len() {
            let take = c.range(1, order.len() - i);
            let chunk = order[i..i + take].to_vec();
            i += take;
            if i < order.len() {
                c.fault("fault.replica_restart");
            }
            let threads = c.chance(1, 4);
            c.log(|| format!("replica {} signs {:?} in one process (clock skew {} ns, entropy mode {}, other thread: {})", r, chunk, skew as i64, ent, threads));
            let js: Vec<Job> = chunk.iter().map(|j| jobs[*j].clone()).collect();
            let pre = if c.chance(1, 40) { 1u64 << c.range(3, 10) } else { 0 };
            let (ps, pk0) = (c.seed(), c.below(2) == 0);
            if pre > 0 {
                c.fault("fault.busy_replica");
                c.log(|| format!("replica {} has signed {} other messages before", r, pre));
            }
            let out = in_child(|| {
                for j in 0..pre {
                    let k: K = if pk0 { jobs[0].key } else { expand(mix(ps ^ j), 57).try_into().unwrap() };
                    let m = expand(mix(ps ^ j << 20), 32);
                    let _ = guard(|| gl::ed448_sign(&k, &m));
                }
                let one = |j: &Job| guard(|| j.lib()).unwrap_or_default();
                let mut v = vec![];
                for j in &js {
                    let s = if threads {
                        crate::sched::handed_over();
                        let j = j.clone();
                        std::thread::spawn(move || guard(|| j.lib()).unwrap_or_default()).join().unwrap_or_default()
                    } else {
                        one(j)
                    };
                    v.push(s.len() as u8);
                    v.extend(s);
                }
                v
            });
            let out = match out {
                Ok(o) => o,
                Err(st) => c.fail("signing-died", format!("a signing replica died with status {:#x} on {:?}", st, js.iter().map(|j| j.show()).collect::<Vec<_>>())),
            };
            let mut p = 0;
            for j in &chunk {
                c.count("op.sign");
                let n = *out.get(p).unwrap_or(&0) as usize;
                let s = out.get(p + 1..p + 1 + n).unwrap_or(&[]).to_vec();
                p += 1 + n;
                let job = &jobs[*j];
                c.ev(hash_bytes(&s) ^ *j as u64);
                if s.is_empty() {
                    c.fail("signing-panicked", format!("replica {}: {}", r, job.show()));
                }
                if job.route != 3 && s.len() == 114 {
                    c.count("check.nonce_commitment_unique");
                    let id = (job.ident(), job.msg.clone());
                    if let Some(o) = commits.get(&s[..57]) {
                        if o.0 != id.0 || o.1 != id.1 {
                            c.fail("nonce-reused", format!("commitment {} was used for two different signatures; now {}", hx(&s[..57]), job.show()));
                        }
                    } else {
                        commits.insert(s[..57].to_vec(), id);
                    }
                }
                c.count("check.same_signature_everywhere");
                if s != want[*j] {
                    c.fail("signature-differs", format!("replica {} made {}, the RFC 8032 construction gives {}: {}", r, hx(&s), hx(&want[*j]), job.show()));
                }
            }
        }
    }
    c.add("probe.clock_reads_by_library", crate::os::os().clock_reads.load(SeqCst));
    c.add("probe.entropy_reads_by_library", crate::os::os().calls.load(SeqCst));
}
