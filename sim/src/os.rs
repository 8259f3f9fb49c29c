//! The simulated operating system: entropy, clocks, futexes and the allocator. The library (and std
//! and getrandom below it) reach these through the ordinary libc symbols, which this executable
//! defines itself.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, Ordering::{Relaxed, SeqCst}};

// ------------------------------------------------------------------------------ raw system calls
#[inline(always)]
pub unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub fn raw_read(fd: i32, buf: &mut [u8]) -> i64 {
    loop {
        let r = unsafe { raw6(libc::SYS_read, fd as i64, buf.as_mut_ptr() as i64, buf.len() as i64, 0, 0, 0) };
        if r != -(libc::EINTR as i64) {
            return r;
        }
    }
}
pub fn raw_futex_wait(w: &AtomicU32, v: u32) {
    unsafe {
        raw6(libc::SYS_futex, w as *const _ as i64, libc::FUTEX_WAIT as i64, v as i64, 0, 0, 0);
    }
}
pub fn raw_futex_wake(w: &AtomicU32) {
    unsafe {
        raw6(libc::SYS_futex, w as *const _ as i64, libc::FUTEX_WAKE as i64, i32::MAX as i64, 0, 0, 0);
    }
}
unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

// ------------------------------------------------------------------------------ simulated OS state
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u32)]
pub enum EFault {
    None = 0,
    Eintr = 1,
    Short = 2,
    Eagain = 3,
    Eio = 4,
    Eintr3 = 5,
    Zero = 6,
}
pub const MAXF: usize = 32;
pub const MAXLOG: usize = 4096;
/// Lives in shared memory: like the kernel's, the entropy stream is one for the whole process tree.
#[repr(C)]
pub struct SimOs {
    pub on: AtomicBool,
    pub world: AtomicU64,
    pub calls: AtomicU64,     // entropy requests with a non-empty buffer
    pub delivered: AtomicU64, // bytes handed out
    pub enosys: AtomicBool,   // getrandom(2) missing: the /dev/urandom route
    pub down_from: AtomicU64, // from this request on, everything fails (EIO)
    pub nfaults: AtomicU32,
    pub fault_at: [AtomicU64; MAXF],
    pub fault_kind: [AtomicU32; MAXF],
    pub fired: [AtomicU64; 8],
    pub fired_down: AtomicU64,
    pub give_up: AtomicU64, // a process refused entropy this often is ended by its operator (0: never)
    pub zeros: AtomicBool,  // a broken source: delivers only zero bytes
    pub fired_enosys: AtomicU64,
    pub flip_at: AtomicU64,  // delivered-byte index whose value is changed
    pub flip_len: AtomicU64, // how many bytes from there on
    pub flip_xor: AtomicU64, // by xoring this (0: no flip)
    pub eintr_left: AtomicU64,
    pub clock_ns: AtomicU64,
    pub clock_reads: AtomicU64,
    pub skew_ns: AtomicU64,
    pub sleeps: AtomicU64,
    pub next_pid: AtomicU32,
    pub cpus: AtomicU32,
    pub env_mode: AtomicU32, // what getenv answers for names that are not set (0: nothing)
    pub env_reads: AtomicU64,
    pub same_pid: AtomicBool, // children live in pid namespaces of their own and see their parent's number
}
static PID: AtomicU32 = AtomicU32::new(4000);
/// Called in a child right after fork(2).
pub fn forked() {
    if unsafe { !OS.is_null() } && !os().same_pid.load(SeqCst) {
        PID.store(os().next_pid.fetch_add(1, SeqCst), SeqCst);
    }
}
/// The wall clock is set: small steps, years back and forth, before 1970, around 2038.
pub fn set_clock(c: &mut crate::core::Ctx) {
    let t: i64 = match c.below(6) {
        0 => 1_700_000_000 + c.logu(600_000_000) as i64,
        1 => 1_700_000_000 - c.logu(600_000_000) as i64,
        2 => -(1 + c.logu(2_000_000_000) as i64),
        3 => [0, 1, 946_684_800, 1_577_836_800, i32::MAX as i64, 1 << 31, u32::MAX as i64, 1 << 32][c.below(8) as usize],
        4 => 7_000_000_000,
        _ => c.seed() as i64,
    };
    os().skew_ns.store(((t - 1_700_000_000) * 1_000_000_000) as u64, SeqCst);
    c.fault("fault.clock_set");
    c.log(|| format!("the wall clock is set to {} s after 1970", t));
}
/// fresh heap memory holds this byte (0: as the system delivers it)
static DIRT: AtomicU32 = AtomicU32::new(0);
/// argument buffers start this many bytes after an aligned address
pub static SHIFT: AtomicU32 = AtomicU32::new(0);
/// What surrounds the calls without being an argument: contents of fresh memory, placement of buffers, environment variables.
pub fn surroundings(c: &mut crate::core::Ctx) {
    DIRT.store(0, SeqCst);
    SHIFT.store(0, SeqCst);
    os().env_mode.store(0, SeqCst);
    if c.chance(1, 2) {
        let d = 1 + c.below(255);
        DIRT.store(d, SeqCst);
        c.fault("fault.dirty_memory");
    }
    if c.chance(1, 3) {
        let n = 1 + c.below(15);
        SHIFT.store(n, SeqCst);
        c.fault("fault.unaligned_arguments");
    }
    if c.chance(1, 4) {
        os().env_mode.store(1 + c.below(5), SeqCst);
        c.fault("fault.environment_variables_set");
    }
    os().cpus.store(8, SeqCst);
    if c.chance(1, 4) {
        os().cpus.store([1, 2, 3, 64, 256][c.below(5) as usize], SeqCst);
        c.fault("fault.other_processor_count");
    }
    let (d, n, e) = (DIRT.load(SeqCst), SHIFT.load(SeqCst), os().env_mode.load(SeqCst));
    c.log(|| format!("surroundings: fresh memory holds {:#04x}, buffers start {} bytes after an aligned address, environment {}", d, n, e));
}
/// `m` at an address chosen by the simulation.
pub fn placed<R>(m: &[u8], f: impl FnOnce(&[u8]) -> R) -> R {
    let n = SHIFT.load(SeqCst) as usize;
    if n == 0 || m.len() > 1 << 18 || ALLOC.armed.load(SeqCst) {
        return f(m);
    }
    let mut v: Vec<u128> = vec![0; (m.len() + n) / 16 + 1];
    let b = unsafe { std::slice::from_raw_parts_mut(v.as_mut_ptr() as *mut u8, v.len() * 16) };
    b[n..n + m.len()].copy_from_slice(m);
    f(&b[n..n + m.len()])
}
/// How many processors the process may use.
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, len: usize, set: *mut u8) -> i32 {
    if on() {
        let n = (os().cpus.load(SeqCst) as usize).min(8 * len);
        for i in 0..len {
            *set.add(i) = (0..8).fold(0, |b, j| b | (((8 * i + j < n) as u8) << j));
        }
        return 0;
    }
    let r = ret(raw6(libc::SYS_sched_getaffinity, pid as i64, len as i64, set as i64, 0, 0, 0));
    if r < 0 {
        return -1;
    }
    for i in r as usize..len {
        *set.add(i) = 0;
    }
    0
}
extern "C" {
    static environ: *const *const libc::c_char;
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *const libc::c_char {
    let n = std::ffi::CStr::from_ptr(name).to_bytes();
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let s = std::ffi::CStr::from_ptr(*e).to_bytes();
        if s.len() > n.len() && s[n.len()] == b'=' && &s[..n.len()] == n {
            return (*e).add(n.len() + 1);
        }
        e = e.add(1);
    }
    if on() && !n.starts_with(b"RUST_") && !n.starts_with(b"EDSIM_") && !n.starts_with(b"MALLOC_") {
        os().env_reads.fetch_add(1, SeqCst);
        let v: &[u8] = match os().env_mode.load(SeqCst) {
            0 => return std::ptr::null(),
            1 => b"1\0",
            2 => b"0\0",
            3 => b"\0",
            4 => b"true\0",
            _ => b"/tmp\0",
        };
        return v.as_ptr() as *const _;
    }
    std::ptr::null()
}
static mut OS: *mut SimOs = std::ptr::null_mut();
pub fn os() -> &'static SimOs {
    unsafe { &*OS }
}
pub fn init() {
    unsafe {
        OS = crate::core::map_shared::<SimOs>();
        os().down_from.store(u64::MAX, SeqCst);
    }
}
fn on() -> bool {
    unsafe { !OS.is_null() && (*OS).on.load(SeqCst) }
}
pub fn boot(world: u64) {
    let o = os();
    o.world.store(world, SeqCst);
    o.calls.store(0, SeqCst);
    o.delivered.store(0, SeqCst);
    o.enosys.store(false, SeqCst);
    o.down_from.store(u64::MAX, SeqCst);
    o.nfaults.store(0, SeqCst);
    for f in &o.fired {
        f.store(0, SeqCst)
    }
    o.fired_down.store(0, SeqCst);
    o.fired_enosys.store(0, SeqCst);
    o.flip_xor.store(0, SeqCst);
    o.eintr_left.store(0, SeqCst);
    o.clock_ns.store(1_700_000_000_000_000_000, SeqCst);
    o.clock_reads.store(0, SeqCst);
    o.skew_ns.store(0, SeqCst);
    o.sleeps.store(0, SeqCst);
    o.next_pid.store(4001, SeqCst);
    o.same_pid.store(false, SeqCst);
    o.env_mode.store(0, SeqCst);
    o.cpus.store(8, SeqCst);
    o.env_reads.store(0, SeqCst);
    o.give_up.store(0, SeqCst);
    o.zeros.store(false, SeqCst);
    DIRT.store(0, SeqCst);
    SHIFT.store(0, SeqCst);
    o.on.store(true, SeqCst);
}
pub fn add_fault(at: u64, k: EFault) {
    let o = os();
    let n = o.nfaults.load(SeqCst) as usize;
    if n < MAXF {
        o.fault_at[n].store(at, SeqCst);
        o.fault_kind[n].store(k as u32, SeqCst);
        o.nfaults.store(n as u32 + 1, SeqCst);
    }
}
pub fn disarm_all() {
    if unsafe { !OS.is_null() } {
        os().on.store(false, SeqCst);
    }
    disarm_local();
}
/// without touching the state shared with other processes
pub fn disarm_local() {
    ALLOC.armed.store(false, SeqCst);
    crate::sched::stop();
}
pub fn prf(world: u64, i: u64) -> u8 {
    (crate::core::mix(world.rotate_left(17) ^ crate::core::mix(i / 4)) >> (16 * (i % 4))) as u8
}

unsafe fn entropy(buf: *mut u8, len: usize, from_file: bool) -> i64 {
    let o = os();
    if o.enosys.load(SeqCst) && !from_file {
        o.fired_enosys.fetch_add(1, SeqCst);
        return -(libc::ENOSYS as i64);
    }
    if len == 0 {
        return 0;
    }
    if o.eintr_left.load(SeqCst) > 0 {
        o.eintr_left.fetch_sub(1, SeqCst);
        o.fired[EFault::Eintr as usize].fetch_add(1, SeqCst);
        return -(libc::EINTR as i64);
    }
    let c = o.calls.fetch_add(1, SeqCst);
    if c >= o.down_from.load(SeqCst) {
        let n = o.fired_down.fetch_add(1, SeqCst);
        let g = o.give_up.load(SeqCst);
        if g != 0 && n > g {
            libc::_exit(97);
        }
        return -(libc::EIO as i64);
    }
    let mut n = len;
    for i in 0..o.nfaults.load(SeqCst) as usize {
        if o.fault_at[i].load(SeqCst) == c {
            let k = o.fault_kind[i].load(SeqCst);
            o.fired[k as usize].fetch_add(1, SeqCst);
            match k {
                1 => return -(libc::EINTR as i64),
                2 => n = (len / 2).max(1),
                3 => return -(libc::EAGAIN as i64),
                4 => return -(libc::EIO as i64),
                5 => {
                    o.eintr_left.store(2, SeqCst);
                    return -(libc::EINTR as i64);
                }
                _ => return 0,
            }
        }
    }
    let base = o.delivered.fetch_add(n as u64, SeqCst);
    let w = o.world.load(SeqCst);
    let (fa, fl, fx) = (o.flip_at.load(SeqCst), o.flip_len.load(SeqCst), o.flip_xor.load(SeqCst));
    for i in 0..n {
        let mut b = if o.zeros.load(SeqCst) { 0 } else { prf(w, base + i as u64) };
        if fx != 0 && (fa..fa + fl).contains(&(base + i as u64)) {
            b ^= fx as u8;
        }
        *buf.add(i) = b;
    }
    n as i64
}

// ------------------------------------------------------------------------------ libc symbols
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_getrandom && on() {
        return ret(entropy(a as *mut u8, b as usize, false));
    }
    if n == libc::SYS_getpid && on() {
        return PID.load(SeqCst) as i64;
    }
    if n == libc::SYS_gettid && on() {
        return gettid() as i64;
    }
    if n == libc::SYS_futex {
        if let Some(r) = crate::sched::futex(a as *const AtomicU32, b as i32, c as u32, d) {
            return ret(r);
        }
    }
    ret(raw6(n, a, b, c, d, e, f))
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if on() {
        return PID.load(SeqCst) as i32;
    }
    raw6(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn gettid() -> i32 {
    if on() {
        return PID.load(SeqCst) as i32 + 100_000 * crate::sched::task_number() as i32;
    }
    raw6(libc::SYS_gettid, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if on() {
        return ret(entropy(buf, len, false)) as isize;
    }
    ret(raw6(libc::SYS_getrandom, buf as i64, len as i64, flags as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut u8, len: usize) -> i32 {
    if on() {
        let mut o = 0;
        while o < len {
            let r = entropy(buf.add(o), len - o, false);
            if r == -(libc::EINTR as i64) {
                continue;
            }
            if r <= 0 {
                ret(if r == 0 { -(libc::EIO as i64) } else { r });
                return -1;
            }
            o += r as usize;
        }
        return 0;
    }
    ret(raw6(libc::SYS_getrandom, buf as i64, len as i64, 0, 0, 0, 0).min(0)) as i32
}
static URANDOM: [AtomicBool; 1024] = [const { AtomicBool::new(false) }; 1024];
unsafe fn is_rnd(p: *const libc::c_char) -> bool {
    let s = std::ffi::CStr::from_ptr(p).to_bytes();
    s == b"/dev/urandom" || s == b"/dev/random"
}
unsafe fn do_open(dirfd: i64, p: *const libc::c_char, fl: i32, mode: u32) -> i32 {
    let r = ret(raw6(libc::SYS_openat, dirfd, p as i64, fl as i64, mode as i64, 0, 0)) as i32;
    if r >= 0 && (r as usize) < URANDOM.len() {
        URANDOM[r as usize].store(on() && is_rnd(p), SeqCst);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const libc::c_char, fl: i32, mode: u32) -> i32 {
    do_open(libc::AT_FDCWD as i64, p, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const libc::c_char, fl: i32, mode: u32) -> i32 {
    do_open(libc::AT_FDCWD as i64, p, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: i32, p: *const libc::c_char, fl: i32, mode: u32) -> i32 {
    do_open(d as i64, p, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: i32, p: *const libc::c_char, fl: i32, mode: u32) -> i32 {
    do_open(d as i64, p, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, len: usize) -> isize {
    if on() && fd >= 0 && (fd as usize) < URANDOM.len() && URANDOM[fd as usize].load(SeqCst) {
        return ret(entropy(buf, len, true)) as isize;
    }
    ret(raw6(libc::SYS_read, fd as i64, buf as i64, len as i64, 0, 0, 0)) as isize
}
unsafe fn real_clock(id: i32, ts: *mut libc::timespec) -> i32 {
    ret(raw6(libc::SYS_clock_gettime, id as i64, ts as i64, 0, 0, 0, 0)) as i32
}
pub fn wall() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { real_clock(libc::CLOCK_MONOTONIC, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}
fn sim_clock(id: i32) -> i64 {
    let o = os();
    o.clock_reads.fetch_add(1, SeqCst);
    // simulated time of the run, plus a little per reading
    let run = if crate::core::have_ctx() { crate::core::ctx().now_us.wrapping_mul(1000) } else { 0 };
    let t = o.clock_ns.fetch_add(1_000, SeqCst).wrapping_add(run);
    if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE {
        t.wrapping_add(o.skew_ns.load(SeqCst)) as i64
    } else {
        (t - 1_699_000_000_000_000_000) as i64 // the monotonic clock is not set back
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    if on() {
        let v = sim_clock(id);
        (*ts).tv_sec = v.div_euclid(1_000_000_000);
        (*ts).tv_nsec = v.rem_euclid(1_000_000_000);
        return 0;
    }
    real_clock(id, ts)
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _: *mut u8) -> i32 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(libc::CLOCK_REALTIME, &mut t);
    if !tv.is_null() {
        (*tv).tv_sec = t.tv_sec;
        (*tv).tv_usec = t.tv_nsec / 1000;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(p: *mut i64) -> i64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(libc::CLOCK_REALTIME, &mut t);
    if !p.is_null() {
        *p = t.tv_sec;
    }
    t.tv_sec
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if on() {
        os().clock_ns.fetch_add((*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64, SeqCst);
        os().sleeps.fetch_add(1, SeqCst);
        crate::sched::os_yield();
        return 0;
    }
    ret(raw6(libc::SYS_nanosleep, ts as i64, rem as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, fl: i32, ts: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if on() {
        let t = (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64;
        if fl == 0 {
            os().clock_ns.fetch_add(t, SeqCst);
        }
        os().sleeps.fetch_add(1, SeqCst);
        crate::sched::os_yield();
        return 0;
    }
    -raw6(libc::SYS_clock_nanosleep, id as i64, fl as i64, ts as i64, rem as i64, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if crate::sched::os_yield() {
        return 0;
    }
    ret(raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as i32
}

// ------------------------------------------------------------------------------ allocator
pub struct SimAlloc {
    pub armed: AtomicBool,
    pub seen: AtomicU64,
    pub fail_from: AtomicU64,
    pub fail_count: AtomicU64,
    pub fail_size: AtomicU64, // requests of at least this size fail
    pub fired: AtomicU64,
    pub bytes: AtomicU64, // work measure: bytes requested while counting
    pub watch: AtomicBool, // keep the balance below
    pub live: AtomicI64,
    pub peak: AtomicI64,
}
#[global_allocator]
pub static ALLOC: SimAlloc = SimAlloc {
    armed: AtomicBool::new(false),
    seen: AtomicU64::new(0),
    fail_from: AtomicU64::new(u64::MAX),
    fail_count: AtomicU64::new(0),
    fail_size: AtomicU64::new(u64::MAX),
    fired: AtomicU64::new(0),
    bytes: AtomicU64::new(0),
    watch: AtomicBool::new(false),
    live: AtomicI64::new(0),
    peak: AtomicI64::new(0),
};
impl SimAlloc {
    #[inline]
    fn balance(&self, d: i64) {
        if self.watch.load(Relaxed) {
            let l = self.live.fetch_add(d, Relaxed) + d;
            if d > 0 {
                self.peak.fetch_max(l, Relaxed);
            }
        }
    }
    #[inline]
    fn refuse(&self, size: usize) -> bool {
        crate::sched::alloc_work(size);
        if !self.armed.load(SeqCst) {
            return false;
        }
        let n = self.seen.fetch_add(1, SeqCst);
        let f = self.fail_from.load(SeqCst);
        let hit = (n >= f && n - f < self.fail_count.load(SeqCst)) || size as u64 >= self.fail_size.load(SeqCst);
        if hit {
            self.fired.fetch_add(1, SeqCst);
        }
        hit
    }
}
#[inline]
unsafe fn soil(p: *mut u8, from: usize, to: usize) {
    let d = DIRT.load(SeqCst);
    if d != 0 && !p.is_null() && to > from {
        std::ptr::write_bytes(p.add(from), d as u8, (to - from).min(1 << 16));
    }
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if self.refuse(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        self.balance(l.size() as i64);
        soil(p, 0, l.size());
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if self.refuse(l.size()) {
            return std::ptr::null_mut();
        }
        self.balance(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        self.balance(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if self.refuse(n) {
            return std::ptr::null_mut();
        }
        let p = System.realloc(p, l, n);
        self.balance(n as i64 - l.size() as i64);
        soil(p, l.size(), n);
        p
    }
}
