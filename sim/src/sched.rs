//! Deterministic scheduler for real threads. The instrumented library reports every basic block and
//! every memory access; exactly one simulated task runs at a time and every switch is a recorded
//! choice. std's futexes arrive through the interposed `syscall`.
use crate::core::{ctx, guard, have_ctx};
use crate::os::{raw_futex_wait, raw_futex_wake};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

pub const MAXT: usize = 16;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Free,
    Ready,
    Blocked(usize, bool), // futex address, has a timeout
    Stalled,
    Done,
}
thread_local! { static TASK: Cell<usize> = const { Cell::new(usize::MAX) }; }

struct Sched {
    active: bool,
    n: usize,
    cur: usize,
    st: [St; MAXT],
    timed_out: [bool; MAXT],
    switches_left: u32,
    quantum_end: u64,
    preempt_step: u64,
    watch_guard: u32,
    watch_hits: u32,
    watch_mem: u32,
    op_steps: [u64; MAXT],
    op_limit: [u64; MAXT],
    slice_start: u64,
    max_op: u64,
}
static GATE: [AtomicU32; MAXT + 1] = [const { AtomicU32::new(0) }; MAXT + 1];
static mut S: Sched = Sched {
    active: false,
    n: 0,
    cur: 0,
    st: [St::Free; MAXT],
    timed_out: [false; MAXT],
    switches_left: 0,
    quantum_end: u64::MAX,
    preempt_step: u64::MAX,
    watch_guard: 0,
    watch_hits: 0,
    watch_mem: 0,
    op_steps: [0; MAXT],
    op_limit: [u64::MAX; MAXT],
    slice_start: 0,
    max_op: 0,
};
// hot state
static mut ON: bool = false; // callbacks live
static mut STEPS: u64 = 0;
static mut NEXT: u64 = u64::MAX;
static mut WATCH_G: u32 = 0;
static mut WATCH_M: u32 = 0;
static mut WATCH_N: u32 = 0; // counts down over blocks that the calls of this run do not reach when made alone
static mut KNOWN: [u8; 65536] = [0; 65536];
static mut NGUARDS: u32 = 0;
static mut STATIC_HITS: u64 = 0;
static mut COUNT_ONLY: bool = false;
static mut SEEN_ON: bool = false;
pub static mut SEEN: [u8; 65536] = [0; 65536];
static mut COUNT_LIMIT: u64 = u64::MAX;

extern "C" {
    static __data_start: u8;
    static _end: u8;
}
#[allow(static_mut_refs)]
fn s() -> &'static mut Sched {
    unsafe { &mut S }
}
pub fn stop() {
    unsafe {
        ON = false;
        COUNT_ONLY = false;
        S.active = false;
    }
}
pub fn instrumented() -> bool {
    unsafe { NGUARDS > 0 }
}
pub fn nguards() -> u32 {
    unsafe { NGUARDS }
}

// ---------------------------------------------------------------- SanitizerCoverage callbacks
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    if start == stop || *start != 0 {
        return;
    }
    while p < stop {
        NGUARDS += 1;
        *p = NGUARDS;
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !ON {
        return;
    }
    STEPS += 1;
    if SEEN_ON {
        let x = &mut SEEN[(*g as usize) & 65535];
        *x = x.saturating_add(1);
    }
    if WATCH_N > 0 && KNOWN[(*g as usize) & 65535] == 0 {
        slow_novel();
    }
    if *g == WATCH_G || STEPS >= NEXT {
        slow_pc(*g)
    }
}
#[cold]
unsafe fn slow_novel() {
    if me() >= MAXT || !s().active {
        return;
    }
    WATCH_N -= 1;
    if WATCH_N == 0 {
        ctx().count("sched.preempt_at_code_not_reached_alone");
        preempt();
    }
}
macro_rules! mem {
    ($($n:ident),*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $n(a: *const u8) {
            if !ON { return; }
            STEPS += 1;
            if a >= &raw const __data_start && a < &raw const _end {
                STATIC_HITS += 1;
                if WATCH_M > 0 { slow_mem() }
            }
            if STEPS >= NEXT { slow_pc(u32::MAX) }
        }
    )*};
}
mem!(
    __sanitizer_cov_load1, __sanitizer_cov_load2, __sanitizer_cov_load4, __sanitizer_cov_load8, __sanitizer_cov_load16,
    __sanitizer_cov_store1, __sanitizer_cov_store2, __sanitizer_cov_store4, __sanitizer_cov_store8, __sanitizer_cov_store16
);
pub fn alloc_work(size: usize) {
    // bytes requested count as work, so quadratic copying shows up as steps
    unsafe {
        if ON && size >= 256 {
            STEPS += size as u64 / 16;
        }
    }
}

pub fn task_number() -> usize {
    let t = me();
    if t >= MAXT { 0 } else { t + 1 }
}
fn me() -> usize {
    TASK.with(|t| t.get())
}

#[cold]
unsafe fn slow_mem() {
    if me() >= MAXT || !s().active {
        return;
    }
    WATCH_M -= 1;
    if WATCH_M == 0 {
        ctx().count("sched.preempt_at_static_access");
        preempt();
    }
}
#[cold]
unsafe fn slow_pc(g: u32) {
    if COUNT_ONLY {
        if STEPS >= COUNT_LIMIT {
            let st = STEPS;
            on_limit(st, COUNT_LIMIT);
        }
        if STEPS >= NEXT {
            NEXT = COUNT_LIMIT;
        }
        return;
    }
    let t = me();
    if t >= MAXT || !s().active {
        return;
    }
    if g == WATCH_G && WATCH_G != 0 {
        s().watch_hits -= 1;
        if s().watch_hits == 0 {
            WATCH_G = 0;
            ctx().count("sched.preempt_at_block");
            preempt();
            return;
        }
    }
    if STEPS >= NEXT {
        let used = s().op_steps[t] + (STEPS - s().slice_start);
        if used >= s().op_limit[t] {
            let l = s().op_limit[t];
            on_limit(used, l);
        }
        if STEPS >= s().preempt_step {
            s().preempt_step = u64::MAX;
            ctx().count("sched.preempt_after_steps");
            preempt();
            return;
        }
        if STEPS >= s().quantum_end {
            ctx().count("sched.quantum_expired");
            for i in 0..s().n {
                if s().st[i] == St::Stalled {
                    s().st[i] = St::Ready;
                }
            }
            if STEPS > 2_000_000_000 {
                ON = false;
                ctx().fail("no-progress", "the tasks used 2e9 steps without finishing".into());
            }
            // bypasses the preemption budget: fairness, so that a spinning task cannot starve others;
            // while somebody else can still run, waiting is not charged to the waiting call
            if (0..s().n).any(|i| i != t && s().st[i] == St::Ready) {
                s().slice_start = STEPS;
            }
            switch(false);
            return;
        }
        arm();
    }
}
fn on_limit(used: u64, limit: u64) -> ! {
    stop();
    let c = ctx();
    c.fail("step-limit", format!("a call used {} steps without returning (limit {})", used, limit))
}

/// Count steps of `f` run alone on this thread; more than `limit` steps is a violation.
pub fn counted<T>(limit: u64, f: impl FnOnce() -> T) -> (T, u64, u64) {
    unsafe {
        STEPS = 0;
        STATIC_HITS = 0;
        WATCH_G = 0;
        WATCH_M = 0;
        WATCH_N = 0;
        COUNT_LIMIT = limit;
        NEXT = limit;
        COUNT_ONLY = true;
        ON = true;
        let r = f();
        ON = false;
        COUNT_ONLY = false;
        NEXT = u64::MAX;
        (r, STEPS, STATIC_HITS)
    }
}
pub fn collect_guards(on: bool) {
    unsafe { SEEN_ON = on }
}

// ---------------------------------------------------------------- scheduling
unsafe fn arm() {
    let t = s().cur;
    let limit_at = s().slice_start.saturating_add(s().op_limit[t].saturating_sub(s().op_steps[t]));
    NEXT = s().quantum_end.min(s().preempt_step).min(limit_at);
}

/// Hints about where to preempt, measured on solo executions of the operations of this run.
pub struct Hints {
    pub steps: u64,
    pub statics: u64,
    pub guards: Vec<u32>,
    /// blocks executed a few times per call, with how often: the code around the arithmetic
    pub rare: Vec<(u32, u8)>,
}
static mut HINTS: Option<Hints> = None;
pub fn set_hints(h: Hints) {
    unsafe {
        for g in &h.guards {
            KNOWN[*g as usize & 65535] = 1;
        }
        HINTS = Some(h)
    }
}

unsafe fn directive() {
    // decide how long the task just scheduled may run before it is interrupted
    let c = ctx();
    s().preempt_step = u64::MAX;
    WATCH_G = 0;
    WATCH_M = 0;
    WATCH_N = 0;
    s().quantum_end = STEPS + 4_000_000;
    s().slice_start = STEPS;
    if s().switches_left == 0 {
        arm();
        return;
    }
    #[allow(static_mut_refs)]
    let h = HINTS.as_ref().unwrap();
    let mut kind = c.weighted(&[1, 3, 2, 2, if h.statics > 0 { 5 } else { 0 }, 6, 5]);
    if kind == 5 && h.rare.is_empty() || kind == 3 && h.guards.is_empty() {
        kind = 1;
    }
    match kind {
        0 => {}
        1 => s().preempt_step = STEPS + 1 + c.logu(h.steps.max(2)),
        2 => s().preempt_step = STEPS + 1 + c.below(h.steps.clamp(2, u32::MAX as u64) as u32) as u64,
        3 => {
            WATCH_G = *c.pick(&h.guards);
            s().watch_hits = 1 + c.logu(64) as u32;
        }
        5 => {
            let (g, n) = *c.pick(&h.rare);
            WATCH_G = g;
            s().watch_hits = 1 + c.below(n as u32);
        }
        6 => WATCH_N = 1 + c.logu(15) as u32,
        _ => WATCH_M = 1 + c.logu(h.statics.min(1 << 20)) as u32,
    }
    arm();
}

fn pick() -> Option<usize> {
    // a wait may end early: spuriously, or because its time is over
    if s().switches_left > 0 && (0..s().n).any(|i| matches!(s().st[i], St::Blocked(..))) && ctx().chance(1, 24) {
        let b: Vec<usize> = (0..s().n).filter(|i| matches!(s().st[*i], St::Blocked(..))).collect();
        let i = *ctx().pick(&b);
        if let St::Blocked(_, true) = s().st[i] {
            s().timed_out[i] = ctx().chance(1, 2);
        }
        s().st[i] = St::Ready;
        s().switches_left -= 1;
        ctx().fault("fault.wait_ended_early");
    }
    let ready = |s: &Sched| (0..s.n).filter(|&i| s.st[i] == St::Ready).collect::<Vec<_>>();
    let mut r = ready(s());
    if r.is_empty() {
        for i in 0..s().n {
            if s().st[i] == St::Stalled {
                s().st[i] = St::Ready;
            }
        }
        r = ready(s());
    }
    if r.is_empty() {
        // only time can help: expire one timed wait
        for i in 0..s().n {
            if let St::Blocked(_, true) = s().st[i] {
                s().st[i] = St::Ready;
                s().timed_out[i] = true;
                return Some(i);
            }
        }
        return None;
    }
    Some(r[ctx().below(r.len() as u32) as usize])
}

unsafe fn hand_to(n: usize) {
    GATE[n].store(1, SeqCst);
    raw_futex_wake(&GATE[n]);
}
fn wait_gate(n: usize) {
    while GATE[n].swap(0, SeqCst) == 0 {
        raw_futex_wait(&GATE[n], 0);
    }
}

/// Give the processor to another task (or keep it). `block`: current task is not ready.
unsafe fn switch(from_budget: bool) {
    let was = ON;
    ON = false;
    let t = me();
    let sd = s();
    sd.op_steps[t] += STEPS - sd.slice_start;
    sd.slice_start = STEPS;
    if from_budget && sd.switches_left > 0 {
        sd.switches_left -= 1;
    }
    let n = match pick() {
        Some(n) => n,
        None => deadlock(),
    };
    if n != t {
        let c = ctx();
        c.nontrivial = true;
        c.count("sched.switches");
        c.ev(0x5317 ^ (t as u64) << 8 ^ (n as u64) << 16 ^ sd.op_steps[t] << 24);
        let st = sd.op_steps[t];
        c.log(|| format!("task {} interrupted after {} steps of its current call; task {} runs", t, st, n));
        sd.cur = n;
        hand_to(n);
        wait_gate(t);
    }
    sd.cur = t;
    directive();
    ON = was;
}
fn deadlock() -> ! {
    stop();
    let v: Vec<String> = (0..s().n).map(|i| format!("task {}: {:?}", i, s().st[i])).collect();
    ctx().fail("deadlock", format!("no task can make progress: {}", v.join(", ")))
}
unsafe fn preempt() {
    let was = ON;
    ON = false;
    preempt_inner();
    ON = was;
}
unsafe fn preempt_inner() {
    let t = me();
    if s().switches_left == 0 {
        arm();
        return;
    }
    if s().n > 1 && ctx().chance(1, 5) {
        s().st[t] = St::Stalled;
        ctx().count("fault.thread_stalled_mid_call");
        ctx().nontrivial = true;
    }
    switch(true);
}

/// called between operations
pub fn op_begin(limit: u64) {
    unsafe {
        let t = me();
        if t >= MAXT || !s().active {
            return;
        }
        s().op_steps[t] = 0;
        s().op_limit[t] = limit;
        s().slice_start = STEPS;
        arm();
        ON = true;
    }
}
pub fn op_end() -> u64 {
    unsafe {
        let t = me();
        if t >= MAXT || !s().active {
            return 0;
        }
        ON = false;
        let used = s().op_steps[t] + (STEPS - s().slice_start);
        if used > s().max_op {
            s().max_op = used;
        }
        s().op_limit[t] = u64::MAX;
        s().op_steps[t] = 0;
        s().slice_start = STEPS;
        if s().n > 1 {
            switch(false);
        }
        used
    }
}
pub fn max_op() -> u64 {
    s().max_op
}

/// sched_yield / sleep inside library code
pub fn os_yield() -> bool {
    unsafe {
        if !s().active || me() >= MAXT {
            return false;
        }
        ctx().count("sched.os_yield");
        for i in 0..s().n {
            if s().st[i] == St::Stalled {
                s().st[i] = St::Ready;
            }
        }
        switch(false);
        true
    }
}

/// Outside run_tasks: how many threads the harness has while library code runs (0: not known). A thread
/// that waits without a limit while there is no other thread can never be woken.
static mut THREADS: usize = 0;
/// One thread runs library code and the harness has no other.
pub fn single_threaded(b: bool) {
    unsafe { THREADS = b as usize }
}
/// The harness's main thread waits in join for a second one that runs library code.
pub fn handed_over() {
    unsafe { THREADS = 2 }
}
/// Set in the processes that make one call alone: they end when they wait for ever.
pub static mut ALONE: bool = false;
unsafe fn threads() -> usize {
    let mut st: libc::stat = std::mem::zeroed();
    if libc::stat(c"/proc/self/task".as_ptr(), &mut st) != 0 || st.st_nlink < 3 {
        return usize::MAX;
    }
    st.st_nlink as usize - 2
}
/// An untimed wait of unscheduled code: returns when woken, ends the run if nobody is left to do that.
unsafe fn wait_unscheduled(addr: *const AtomicU32, op: i32, val: u32) -> i64 {
    loop {
        let n = threads();
        if (*addr).load(SeqCst) != val {
            return -(libc::EAGAIN as i64);
        }
        if n <= THREADS {
            if ALONE {
                libc::_exit(77);
            }
            if have_ctx() {
                ctx().fail("deadlock", "the only thread waits for a lock that nobody can release".into());
            }
        }
        // helper threads of the library, or a thread that is just ending: look again now and then
        let t = libc::timespec { tv_sec: 0, tv_nsec: 50_000_000 };
        let r = crate::os::raw6(libc::SYS_futex, addr as i64, ((op & !0x7f) | libc::FUTEX_WAIT) as i64, val as i64, &t as *const _ as i64, 0, 0);
        if r != -(libc::ETIMEDOUT as i64) {
            return r;
        }
    }
}

pub unsafe fn futex(addr: *const AtomicU32, op: i32, val: u32, timeout: i64) -> Option<i64> {
    let cmd = op & 0x7f;
    let waits = cmd == libc::FUTEX_WAIT || cmd == libc::FUTEX_WAIT_BITSET;
    if !s().active || me() >= MAXT {
        if waits && timeout == 0 && THREADS != 0 {
            return Some(wait_unscheduled(addr, op & !libc::FUTEX_CLOCK_REALTIME, val));
        }
        return None;
    }
    if waits {
        if (*addr).load(SeqCst) != val {
            return Some(-(libc::EAGAIN as i64));
        }
        let t = me();
        s().st[t] = St::Blocked(addr as usize, timeout != 0);
        s().timed_out[t] = false;
        ctx().count("sched.futex_wait");
        switch(false);
        if s().timed_out[t] {
            s().timed_out[t] = false;
            return Some(-(libc::ETIMEDOUT as i64));
        }
        return Some(0);
    }
    if cmd == libc::FUTEX_WAKE || cmd == libc::FUTEX_WAKE_BITSET {
        let mut k = 0;
        loop {
            let w: Vec<usize> = (0..s().n).filter(|i| matches!(s().st[*i], St::Blocked(a, _) if a == addr as usize)).collect();
            if k >= val as i64 || w.is_empty() {
                return Some(k);
            }
            let i = w[if w.len() > 1 { ctx().below(w.len() as u32) as usize } else { 0 }];
            s().st[i] = St::Ready;
            k += 1;
        }
    }
    None
}
/// Run the bodies as simulated tasks until all are done.
pub fn run_tasks(bodies: Vec<Box<dyn FnOnce() + Send>>, switches: u32) {
    let n = bodies.len();
    assert!(n <= MAXT);
    unsafe {
        let sd = s();
        sd.n = n;
        sd.switches_left = switches;
        sd.max_op = 0;
        for i in 0..MAXT {
            sd.st[i] = if i < n { St::Ready } else { St::Free };
            sd.op_steps[i] = 0;
            sd.op_limit[i] = u64::MAX;
        }
        for g in &GATE {
            g.store(0, SeqCst);
        }
        STEPS = 0;
        #[allow(static_mut_refs)]
        if HINTS.is_none() {
            HINTS = Some(Hints { steps: 400_000, statics: 0, guards: vec![], rare: vec![] });
        }
        let mut hs: Vec<Option<std::thread::JoinHandle<()>>> = vec![];
        for (i, b) in bodies.into_iter().enumerate() {
            hs.push(Some(
                std::thread::Builder::new()
                    .stack_size(2 << 20)
                    .spawn(move || {
                        wait_gate(i);
                        TASK.with(|t| t.set(i));
                        ON = false;
                        directive();
                        let r = guard(b);
                        ON = false;
                        TASK.with(|t| t.set(usize::MAX));
                        if let Err(e) = r {
                            stop();
                            eprintln!("harness: task body panicked: {}", e);
                            libc::_exit(70);
                        }
                        s().st[i] = St::Done;
                        hand_to(MAXT);
                    })
                    .unwrap(),
            ));
        }
        sd.active = true;
        let mut done = 0;
        while done < n {
            let t = match pick() {
                Some(t) => t,
                None => deadlock(),
            };
            s().cur = t;
            hand_to(t);
            wait_gate(MAXT);
            // the finished thread runs its destructors to the end before anyone else continues
            for i in 0..n {
                if s().st[i] == St::Done && hs[i].is_some() {
                    hs[i].take().unwrap().join().unwrap();
                    done += 1;
                }
            }
        }
        stop();
    }
}

// ---------------------------------------------------------------- copied bytes
/// Bytes moved count as work too, so that quadratic copying shows up as steps even where no block of
/// the library executes. Only the instrumented build defines these (everything links against them).
#[cfg(sched_build)]
mod copies {
    use super::{alloc_work, ON};
    #[inline(always)]
    unsafe fn fwd(d: *mut u8, s: *const u8, n: usize) {
        std::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
    }
    #[no_mangle]
    pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        if ON {
            alloc_work(n);
        }
        fwd(d, s, n);
        d
    }
    #[no_mangle]
    pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        if ON {
            alloc_work(n);
        }
        if (d as usize).wrapping_sub(s as usize) >= n {
            fwd(d, s, n);
        } else if n > 0 {
            std::arch::asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") d.add(n - 1) => _, inout("rsi") s.add(n - 1) => _, options(nostack));
        }
        d
    }
}
