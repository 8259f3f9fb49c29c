//! Choice sequence, run context and the shared-memory mailbox between a run and its runner.
use std::collections::BTreeMap;

pub const MAXC: usize = 1 << 18;
pub const MAXB: usize = 1 << 20;

#[repr(C)]
pub struct Shared {
    pub status: u32, // 0 running, 1 finished (blob valid)
    pub nchoices: u32,
    pub blob_len: u32,
    pub phase: u32, // scenario-defined marker (what was executing when the run died)
    pub choices: [u32; MAXC],
    pub blob: [u8; MAXB],
}

pub fn map_shared<T>() -> *mut T {
    map_shared_n::<T>(1)
}
pub fn map_shared_n<T>(n: usize) -> *mut T {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<T>() * n,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut T
    }
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
pub fn hash_bytes(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ s.len() as u64;
    for c in s.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(w));
    }
    h
}

/// Deterministic byte expansion of a small seed (no choice is drawn).
pub struct Sm(pub u64);
impl Sm {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let w = self.next().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    pub fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 11) % n
    }
}
pub fn expand(seed: u64, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    Sm(mix(seed ^ 0x5eed)).fill(&mut v);
    v
}

pub enum Src {
    Gen(Sm),
    Replay(Vec<u32>, usize),
}

#[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct Report {
    pub fp: u64,
    pub nontrivial: bool,
    pub sim_us: u64,
    pub stats: BTreeMap<String, u64>,
    pub violation: Option<(String, String)>,
    pub trace: Vec<String>,
}

pub struct Ctx {
    pub prop: &'static str,
    pub thorough: bool,
    pub src: Src,
    pub sh: *mut Shared,
    pub fp: u64,
    pub nontrivial: bool,
    pub now_us: u64,
    pub stats: BTreeMap<&'static str, u64>,
    pub tracing: bool,
    pub trace: Vec<String>,
}

static mut CTX: *mut Ctx = std::ptr::null_mut();
/// The context of the run this process is executing (one thread touches it at a time).
pub fn ctx() -> &'static mut Ctx {
    unsafe { &mut *CTX }
}
pub fn set_ctx(c: *mut Ctx) {
    unsafe { CTX = c }
}
pub fn have_ctx() -> bool {
    unsafe { !CTX.is_null() }
}

impl Ctx {
    pub fn new(prop: &'static str, thorough: bool, src: Src, sh: *mut Shared, tracing: bool) -> Ctx {
        Ctx { prop, thorough, src, sh, fp: hash_str(prop), nontrivial: false, now_us: 0, stats: BTreeMap::new(), tracing, trace: vec![] }
    }
    /// The one source of every decision of a run: a value in 0..n, 0 being the simplest.
    pub fn below(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.src {
            Src::Gen(g) => ((g.next() >> 32) * n as u64 >> 32) as u32,
            Src::Replay(l, p) => {
                let v = l.get(*p).copied().unwrap_or(0) % n;
                *p += 1;
                v
            }
        };
        unsafe {
            let k = (*self.sh).nchoices as usize;
            if k < MAXC {
                (*self.sh).choices[k] = v;
                (*self.sh).nchoices += 1;
            }
        }
        v
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u32) as usize
    }
    /// true with probability num/den; false is the simplest value
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den) >= den - num
    }
    pub fn seed(&mut self) -> u64 {
        self.below(u32::MAX) as u64
    }
    /// log-uniform in 0..=max
    pub fn logu(&mut self, max: u64) -> u64 {
        let bits = 64 - max.leading_zeros();
        let b = self.below(bits + 1);
        if b == 0 {
            return 0;
        }
        let lo = 1u64 << (b - 1);
        let hi = ((1u64 << b) - 1).min(max);
        lo + self.below((hi - lo + 1).min(u32::MAX as u64) as u32) as u64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u32) as usize]
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let t: u32 = w.iter().sum();
        let mut r = self.below(t);
        for (i, x) in w.iter().enumerate() {
            if r < *x {
                return i;
            }
            r -= x;
        }
        0
    }
    pub fn ev(&mut self, code: u64) {
        self.fp = mix(self.fp ^ code);
    }
    pub fn evs(&mut self, s: &str) {
        self.ev(hash_str(s))
    }
    pub fn count(&mut self, k: &'static str) {
        *self.stats.entry(k).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.stats.entry(k).or_insert(0) += n;
    }
    /// a fault actually took effect
    pub fn fault(&mut self, k: &'static str) {
        self.nontrivial = true;
        self.count(k);
        self.evs(k);
    }
    pub fn log<F: FnOnce() -> String>(&mut self, f: F) {
        if self.tracing && self.trace.len() < 400 {
            let t = self.now_us;
            self.trace.push(format!("[{:>9} us] {}", t, f()));
        }
    }
    /// allow this run more processor time than usual
    pub fn long_run(&self) {
        let l = libc::rlimit { rlim_cur: 200, rlim_max: 300 };
        unsafe { libc::setrlimit(libc::RLIMIT_CPU, &l) };
    }
    pub fn report(&self, violation: Option<(String, String)>) -> Report {
        Report {
            fp: self.fp,
            nontrivial: self.nontrivial,
            sim_us: self.now_us,
            stats: self.stats.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
            violation,
            trace: self.trace.clone(),
        }
    }
    fn flush(&self, violation: Option<(String, String)>) -> ! {
        crate::os::disarm_all();
        let r = self.report(violation);
        let b = serde_json::to_vec(&r).unwrap();
        let b = if b.len() > MAXB { serde_json::to_vec(&Report { trace: vec!["(trace too long)".into()], ..r }).unwrap() } else { b };
        unsafe {
            (&mut (*self.sh).blob)[..b.len()].copy_from_slice(&b);
            (*self.sh).blob_len = b.len() as u32;
            (*self.sh).status = 1;
            libc::_exit(0)
        }
    }
    pub fn finish(&self) -> ! {
        self.flush(None)
    }
    /// Stop the run with a violation of this property.
    pub fn fail(&mut self, class: &str, detail: String) -> ! {
        crate::os::disarm_all();
        if self.tracing {
            let t = self.now_us;
            self.trace.push(format!("[{:>9} us] VIOLATION {}: {}", t, class, detail));
        }
        self.flush(Some((class.to_string(), detail)))
    }
    pub fn phase(&mut self, p: u32) {
        unsafe { (*self.sh).phase = p }
    }
}

pub fn hx(b: &[u8]) -> String {
    if b.len() > 160 {
        format!("{}..({} bytes, h={:016x})", crate::refimpl::tohex(&b[..24]), b.len(), hash_bytes(b))
    } else {
        crate::refimpl::tohex(b)
    }
}

thread_local! { static QUIET: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }
/// Run library code, turning a panic into Err(message); no message is printed.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}
pub fn install_panic_hook() {
    let d = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if QUIET.with(|q| q.get()) == 0 {
            d(i)
        }
    }));
}

/// Execute `f` in a forked child and return the bytes it produced, or Err(wait status).
pub fn in_child(f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, i32> {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(fds[0]);
            crate::os::forked();
            let v = f();
            crate::os::disarm_local();
            let mut o = 0;
            while o < v.len() {
                let n = libc::write(fds[1], v[o..].as_ptr() as *const _, v.len() - o);
                if n <= 0 {
                    libc::_exit(99);
                }
                o += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut out = vec![];
        let mut buf = [0u8; 65536];
        loop {
            let n = crate::os::raw_read(fds[0], &mut buf);
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fds[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if st == 0 {
            Ok(out)
        } else {
            Err(st)
        }
    }
}

/// Execute `f` in a forked child as a simulation of its own: its decisions follow from one seed drawn
/// here. A violation found inside is reported as this run's.
pub fn sub_run(c: &mut Ctx, seed: u64, f: impl FnOnce(&mut Ctx) -> Vec<u8>) -> Result<Vec<u8>, i32> {
    let sh = map_shared::<Shared>();
    let (prop, thorough, tracing, now) = (c.prop, c.thorough, c.tracing, c.now_us);
    let r = in_child(|| {
        let k = Box::leak(Box::new(Ctx::new(prop, thorough, Src::Gen(Sm(seed)), sh, tracing)));
        k.now_us = now;
        set_ctx(k);
        let v = f(ctx());
        let rep = serde_json::to_vec(&ctx().report(None)).unwrap();
        let mut o = (rep.len() as u32).to_le_bytes().to_vec();
        o.extend(rep);
        o.extend(v);
        o
    });
    let st = unsafe { (*sh).status };
    let viol: Option<Report> = if st == 1 { unsafe { serde_json::from_slice(&(&(*sh).blob)[..(*sh).blob_len as usize]).ok() } } else { None };
    unsafe { libc::munmap(sh as *mut _, std::mem::size_of::<Shared>()) };
    if let Some(r) = viol {
        if let Some((cl, d)) = r.violation {
            c.trace.extend(r.trace);
            c.fail(&cl, d);
        }
    }
    let b = r?;
    if b.len() < 4 {
        return Err(-1);
    }
    let n = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
    if let Ok(rep) = serde_json::from_slice::<Report>(&b[4..4 + n]) {
        for (k, v) in rep.stats {
            *c.stats.entry(Box::leak(k.into_boxed_str())).or_insert(0) += v;
        }
        c.ev(rep.fp);
        c.nontrivial |= rep.nontrivial;
        c.trace.extend(rep.trace);
    }
    Ok(b[4 + n..].to_vec())
}
