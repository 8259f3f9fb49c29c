mod conc;
mod hist;
mod hold;
mod ident;
mod net;
mod osrng;
mod replica;
mod rng;
mod store;
use crate::runner::Death;
use crate::Prop;

const LIB: &str = "libgoldilocks built from /repo's working tree (all modules)";
const DEPS: &str = "sha3, hex, rand, serde, serde_json as pinned in sim/Cargo.lock";
const STD: &str = "std threads, locks and panics";
fn none(_: u64, _: bool) {}

pub static PROPS: [Prop; 14] = [
    Prop {
        id: "C01", sched_build: false, quick: 16000, thorough: 400000, setup: none, scenario: net::scenario, death: Death::Ignored,
        rule: "a run is one seeded network history (1-3 signers, 1-3 verifiers; drops, duplicates, delays, misroutes, altered, spliced and crafted packets); non-trivial if at least one fault took effect; distinct means a different hash of the sequence of faults, issued signatures and verdicts",
        real: &[LIB, DEPS], stub: &["network and time (discrete-event simulation)", "foreign peers (independent RFC 8032 reference, sim/src/refimpl.rs)"],
        assumes: &["an unissued triple the library accepts is judged by the independent reference implementation"],
    },
    Prop {
        id: "C02", sched_build: false, quick: 14000, thorough: 400000, setup: none, scenario: net::scenario, death: Death::Violates,
        rule: "a run is one seeded network history with signer restarts; non-trivial if at least one fault took effect; distinct by hash of faults, signatures and verdicts",
        real: &[LIB, DEPS], stub: &["network and time (discrete-event simulation)", "foreign peers (independent RFC 8032 reference, sim/src/refimpl.rs)"],
        assumes: &["the reference implementation is a correct RFC 8032 Ed448 (checked against RFC vectors at every start)"],
    },
    Prop {
        id: "C03", sched_build: false, quick: 9000, thorough: 300000, setup: none, scenario: net::scenario, death: Death::Violates,
        rule: "a run is one seeded network history with corrupted, truncated and crafted packets delivered to both verification entry points; non-trivial if at least one fault took effect; distinct by hash of faults, signatures and verdicts",
        real: &[LIB, DEPS], stub: &["network and time (discrete-event simulation)", "foreign peers (independent RFC 8032 reference, sim/src/refimpl.rs)"],
        assumes: &["whether bytes decode to a point is judged by the independent reference; non-canonical and low-order points carry no claim"],
    },
    Prop {
        id: "C04", sched_build: false, quick: 150000, thorough: 2000000, setup: none, scenario: store::c04, death: Death::Violates,
        rule: "a run is one seeded history of storing, crashing, damaging and loading key records on a simulated disk; non-trivial if at least one fault took effect; distinct by hash of faults and load outcomes",
        real: &[LIB, DEPS], stub: &["disk (durable and volatile state, torn and lost writes, damage at rest)", "clock"],
        assumes: &["rename is atomic and durable; fsync makes the content durable", "JSON string parsing is judged by serde_json itself"],
    },
    Prop {
        id: "C05", sched_build: false, quick: 150000, thorough: 2000000, setup: none, scenario: store::c05, death: Death::Violates,
        rule: "a run is a seeded series of key transfers through faulty readers, writers and serde formats; non-trivial if a fault took effect or a non-string or binary value was offered; distinct by hash of faults and outcomes",
        real: &[LIB, DEPS], stub: &["readers, writers and serde formats (simulated)"],
        assumes: &["byte-valued and optional text may be accepted or refused, but never misread"],
    },
    Prop {
        id: "C06", sched_build: false, quick: 14000, thorough: 800000, setup: none, scenario: rng::scenario, death: Death::Ignored,
        rule: "a run is a seeded series of key generations from caller generators that work, fail or are altered bit by bit; non-trivial if a generator failed, was altered or interleaved; distinct by hash of keys and faults",
        real: &[LIB, DEPS], stub: &["caller-supplied generator", "operating-system entropy"],
        assumes: &["a generator that fails part-way keeps failing unless stated otherwise"],
    },
    Prop {
        id: "C07", sched_build: true, quick: 10000, thorough: 300000, setup: none, scenario: osrng::scenario, death: Death::Ignored,
        rule: "a run is a seeded tree of processes and threads generating keys, or one process under entropy faults; non-trivial if it forked, ran threads, restarted or met an entropy fault; distinct by hash of faults, schedules and keys",
        real: &[LIB, DEPS, STD, "fork(2)"], stub: &["kernel entropy (getrandom, /dev/urandom) and clock", "thread scheduler"],
        assumes: &["keys made from entropy delivered earlier in the same process are not held against a later failure of the source"],
    },
    Prop {
        id: "C08", sched_build: true, quick: 16000, thorough: 200000, setup: conc::c08_setup, scenario: conc::c08, death: Death::Violates,
        rule: "a run is 2-4 threads making 1-3 calls each under one seeded schedule with preemption inside library code; non-trivial if at least one switch happened inside a call; distinct by hash of calls and switch points",
        real: &[LIB, DEPS, STD], stub: &["thread scheduler (one thread at a time, preemption at instrumented blocks and memory accesses)", "futex, clock, kernel entropy"],
        assumes: &["sequentially consistent interleavings; weak-memory effects are not simulated", "code of dependencies (sha3, hex, serde) is not preempted inside"],
    },
    Prop {
        id: "C09", sched_build: false, quick: 5000, thorough: 300000, setup: hist::c09_setup, scenario: hist::c09, death: Death::Violates,
        rule: "a run is one seeded history of 2-40 calls (look-alike arguments, reused buffers, rejected and aborted calls, long bursts, thread hops), every result compared with a fresh process; non-trivial if it contains a rejected or aborted call or a burst; distinct by hash of the history",
        real: &[LIB, DEPS, STD], stub: &["caller-supplied generators, serializers, deserializers", "kernel entropy and clock"],
        assumes: &["the result in a freshly started process is the reference"],
    },
    Prop {
        id: "C10", sched_build: false, quick: 12000, thorough: 400000, setup: none, scenario: replica::scenario, death: Death::Violates,
        rule: "a run is 2-4 replicas signing the same jobs in different orders, processes, threads, clocks and entropy conditions; non-trivial if at least one fault took effect; distinct by hash of faults and signatures",
        real: &[LIB, DEPS, "fork(2)"], stub: &["clock, kernel entropy", "foreign signer (independent RFC 8032 reference)"],
        assumes: &["the reference implementation is a correct RFC 8032 Ed448"],
    },
    Prop {
        id: "C11", sched_build: false, quick: 20000, thorough: 400000, setup: hist::c11_setup, scenario: hist::c11, death: Death::Ignored,
        rule: "a run is 2-6 calls, each with one seeded allocation-failure plan inside it; non-trivial if an allocation was refused; distinct by hash of calls and plans",
        real: &[LIB, DEPS], stub: &["memory allocator (refuses chosen requests)"],
        assumes: &["termination of the process and reported errors are acceptable outcomes"],
    },
    Prop {
        id: "C12", sched_build: true, quick: 14000, thorough: 200000, setup: conc::c12_setup, scenario: conc::c12, death: Death::Violates,
        rule: "a run is either up to 5 hostile calls with step counting, or 2-5 threads with stalled and aborted calls under one seeded schedule; non-trivial if a hostile input, stall or switch happened; distinct by hash of calls, steps and switch points",
        real: &[LIB, DEPS, STD], stub: &["thread scheduler, futex, clock, kernel entropy"],
        assumes: &["steps are instrumented blocks, memory accesses and requested bytes in the library; a stalled thread resumes eventually"],
    },
    Prop {
        id: "C13", sched_build: false, quick: 20000, thorough: 400000, setup: none, scenario: ident::scenario, death: Death::Violates,
        rule: "a run is one seeded history of imports, exports, handovers and restarts of 1-3 keys; non-trivial if a handover, restart or malformed import happened; distinct by hash of the history and signatures",
        real: &[LIB, DEPS], stub: &["nodes and their restarts", "foreign verifier (independent RFC 8032 reference)"],
        assumes: &["the reference implementation is a correct RFC 8032 Ed448"],
    },
    Prop {
        id: "C19", sched_build: false, quick: 4000, thorough: 150000, setup: hold::setup, scenario: hold::scenario, death: Death::Ignored,
        rule: "a run is one seeded series of calls of one kind (genuine, refused, malformed, aborted, on short-lived threads, under entropy outage) with the heap balance and open descriptors read after every doubling, or one call at two input sizes with its peak; non-trivial if a refused, malformed or aborted call or a fault is involved; distinct by hash of kind and seeds",
        real: &[LIB, DEPS, STD], stub: &["memory allocator (balance and peak)", "caller-supplied generators, serializers, deserializers", "kernel entropy and clock"],
        assumes: &["a cache that stops growing before 16384 cheap or 8192 slow calls is not a leak", "memory taken behind the allocator's back (mmap) is not seen"],
    },
];
