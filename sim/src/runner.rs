//! Forks workers, executes runs, collects statistics, minimises and reports violations.
use crate::core::*;
use crate::Prop;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

#[derive(Clone)]
pub struct Outcome {
    pub report: Report,
    pub choices: Vec<u32>,
    /// harness problem, not a verdict
    pub error: Option<String>,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Death {
    /// the process dying (signal, unexpected exit) violates the property
    Violates,
    /// dying is not what this property forbids
    Ignored,
}

pub fn run_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    mix(mix(seed ^ hash_str(prop)) ^ idx.wrapping_mul(0xd1342543de82ef95))
}

pub fn execute(p: &Prop, thorough: bool, src: Src, sh: *mut Shared, tracing: bool) -> Outcome {
    unsafe {
        (*sh).status = 0;
        (*sh).nchoices = 0;
        (*sh).blob_len = 0;
        (*sh).phase = 0;
        let pid = libc::fork();
        if pid < 0 {
            return Outcome { report: Report::default(), choices: vec![], error: Some("fork failed".into()) };
        }
        if pid == 0 {
            libc::setpgid(0, 0);
            let cpu = if crate::sched::instrumented() { 120 } else { 40 };
            let l = libc::rlimit { rlim_cur: cpu, rlim_max: 300 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            libc::alarm(400);
            let c = Box::leak(Box::new(Ctx::new(p.id, thorough, src, sh, tracing)));
            set_ctx(c);
            crate::os::init(); // an operating system of its own
            crate::os::boot(0x0b007);
            crate::sched::single_threaded(true);
            (p.scenario)(ctx());
            ctx().finish();
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        libc::kill(-pid, libc::SIGKILL); // stray descendants
        let choices = (&(*sh).choices)[..(*sh).nchoices as usize].to_vec();
        if (*sh).status == 1 {
            let r: Result<Report, _> = serde_json::from_slice(&(&(*sh).blob)[..(*sh).blob_len as usize]);
            return match r {
                Ok(report) => Outcome { report, choices, error: None },
                Err(e) => Outcome { report: Report::default(), choices, error: Some(format!("report: {}", e)) },
            };
        }
        let what = if libc::WIFSIGNALED(st) { format!("signal {}", libc::WTERMSIG(st)) } else { format!("exit {}", libc::WEXITSTATUS(st)) };
        if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) != libc::SIGALRM && libc::WTERMSIG(st) != libc::SIGKILL {
            let sig = libc::WTERMSIG(st);
            let mut report = Report { fp: mix(sig as u64 ^ (*sh).phase as u64), ..Default::default() };
            report.stats.insert("run.died".into(), 1);
            if p.death == Death::Violates {
                let class = if sig == libc::SIGXCPU { "hang" } else { "process-died" };
                report.violation = Some((class.into(), format!("the simulated process died ({}) in phase {}", what, (*sh).phase)));
            }
            return Outcome { report, choices, error: None };
        }
        Outcome { report: Report::default(), choices, error: Some(format!("run ended without a report: {}", what)) }
    }
}

#[repr(C)]
struct Board {
    min_violation: AtomicU64,
    done: AtomicU64,
}

pub struct Cfg {
    pub seed: u64,
    pub tier: String,
    pub runs: u64,
    pub cap_s: f64,
    pub workers: usize,
    pub verif: String,
}

#[derive(serde::Serialize, serde::Deserialize, Default)]
struct WorkerOut {
    stats: BTreeMap<String, u64>,
    fps: Vec<(u64, u64)>, // (fingerprint, count) of non-trivial runs
    runs: u64,
    sim_us: u64,
    doubled: u64,
    mismatch: Vec<u64>,
    samples: Vec<Value>,
    violation: Option<(u64, Vec<u32>, String, String)>,
    error: Option<String>,
    log: Vec<(u64, u64)>,
}

fn same(a: &Outcome, b: &Outcome) -> bool {
    let ca = a.report.violation.as_ref().map(|v| &v.0);
    let cb = b.report.violation.as_ref().map(|v| &v.0);
    a.report.fp == b.report.fp && a.choices == b.choices && ca == cb && a.report.stats == b.report.stats
}

fn worker(p: &Prop, cfg: &Cfg, w: usize, board: &Board, t0: f64, keep_log: bool) -> WorkerOut {
    let sh = map_shared::<Shared>();
    let mut o = WorkerOut::default();
    let mut fps: HashSet<u64> = HashSet::new();
    let thorough = cfg.tier == "thorough";
    let mut i = w as u64;
    while i < cfg.runs {
        if board.min_violation.load(SeqCst) < i || (crate::os::wall() - t0 > cfg.cap_s && o.runs > 0) {
            break;
        }
        let tracing = i < 2;
        let src = || Src::Gen(Sm(run_seed(cfg.seed, p.id, i)));
        let tr = crate::os::wall();
        let mut r = execute(p, thorough, src(), sh, tracing);
        if std::env::var_os("EDSIM_SLOW").is_some() && crate::os::wall() - tr > 1.0 {
            eprintln!("run {} took {:.1} s", i, crate::os::wall() - tr);
        }
        if r.error.is_some() {
            r = execute(p, thorough, src(), sh, tracing); // transient (memory pressure)
        }
        if let Some(e) = r.error {
            o.error = Some(format!("run {}: {}", i, e));
            break;
        }
        if i % 16 == 3 && r.report.violation.is_none() {
            o.doubled += 1;
            let r2 = execute(p, thorough, src(), sh, false);
            if !same(&r, &r2) {
                o.mismatch.push(i);
                if r2.report.violation.is_some() {
                    r = r2;
                }
            }
        }
        o.runs += 1;
        o.sim_us += r.report.sim_us;
        for (k, v) in &r.report.stats {
            *o.stats.entry(k.clone()).or_insert(0) += v;
        }
        if r.report.nontrivial {
            fps.insert(r.report.fp);
        }
        if keep_log {
            o.log.push((i, r.report.fp ^ mix(r.choices.len() as u64) ^ hash_str(&format!("{:?}", r.choices))));
        }
        if tracing {
            let mut t = r.report.trace.clone();
            t.truncate(25);
            o.samples.push(json!({"run": i, "seed": format!("{:016x}", run_seed(cfg.seed, p.id, i)), "choices": r.choices.len(), "events": t}));
        }
        if let Some((class, detail)) = r.report.violation {
            board.min_violation.fetch_min(i, SeqCst);
            o.violation = Some((i, r.choices, class, detail));
            break;
        }
        board.done.fetch_add(1, SeqCst);
        i += cfg.workers as u64;
    }
    o.fps = fps.into_iter().map(|f| (f, 1)).collect();
    o
}

/// Shrink a failing choice sequence: shorter tails, removed chunks, smaller values.
fn minimise(p: &Prop, thorough: bool, start: Vec<u32>, class: &str, budget_s: f64, sh: *mut Shared) -> (Vec<u32>, u64) {
    let t0 = crate::os::wall();
    let mut best = start;
    let mut tries = 0u64;
    let test = |c: &Vec<u32>, tries: &mut u64| -> Option<Vec<u32>> {
        *tries += 1;
        let o = execute(p, thorough, Src::Replay(c.clone(), 0), sh, false);
        match o.report.violation {
            Some((cl, _)) if cl == class => {
                let mut u = o.choices;
                u.truncate(c.len().max(1).min(u.len()));
                while u.last() == Some(&0) {
                    u.pop();
                }
                Some(u)
            }
            _ => None,
        }
    };
    let over = || crate::os::wall() - t0 > budget_s;
    loop {
        let before = (best.len(), best.iter().map(|x| *x as u64).sum::<u64>());
        let mut sz = best.len() / 2;
        while sz >= 1 && !over() {
            let mut i = 0;
            while i < best.len() && !over() {
                let e = (i + sz).min(best.len());
                let mut c = best.clone();
                c.drain(i..e);
                if let Some(u) = test(&c, &mut tries).filter(|u| u.len() < best.len()) {
                    best = u;
                    continue;
                }
                let mut c = best.clone();
                if c[i..e].iter().any(|x| *x != 0) {
                    c[i..e].fill(0);
                    if let Some(u) = test(&c, &mut tries).filter(|u| u.len() <= best.len()) {
                        best = u;
                    }
                }
                i += sz;
            }
            sz /= 2;
        }
        let mut i = 0;
        while i < best.len() && !over() {
            for d in [2u32, 16, 1024] {
                if i < best.len() && best[i] > 1 {
                    let mut c = best.clone();
                    c[i] = if d == 2 { c[i] / 2 } else { c[i] % d };
                    if c[i] < best[i] {
                        if let Some(u) = test(&c, &mut tries).filter(|u| u.len() <= best.len()) {
                            best = u;
                        }
                    }
                }
            }
            i += 1;
        }
        let after = (best.len(), best.iter().map(|x| *x as u64).sum::<u64>());
        if over() || after >= before {
            break;
        }
    }
    (best, tries)
}

pub fn check(p: &Prop, cfg: &Cfg, keep_log: Option<&str>) -> i32 {
    let t0 = crate::os::wall();
    let board = unsafe { &*map_shared::<Board>() };
    board.min_violation.store(u64::MAX, SeqCst);
    let mut pipes = vec![];
    for w in 0..cfg.workers {
        unsafe {
            let mut fds = [0i32; 2];
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::close(fds[0]);
                let o = worker(p, cfg, w, board, t0, keep_log.is_some());
                let v = serde_json::to_vec(&o).unwrap();
                let mut off = 0;
                while off < v.len() {
                    let n = libc::write(fds[1], v[off..].as_ptr() as *const _, v.len() - off);
                    if n <= 0 {
                        libc::_exit(1);
                    }
                    off += n as usize;
                }
                libc::_exit(0);
            }
            libc::close(fds[1]);
            pipes.push((pid, fds[0]));
        }
    }
    let mut outs: Vec<WorkerOut> = vec![];
    let mut errors: Vec<String> = vec![];
    for (pid, fd) in pipes {
        let mut v = vec![];
        let mut b = vec![0u8; 1 << 16];
        loop {
            let n = crate::os::raw_read(fd, &mut b);
            if n <= 0 {
                break;
            }
            v.extend_from_slice(&b[..n as usize]);
        }
        let mut st = 0;
        unsafe { while libc::waitpid(pid, &mut st, 0) < 0 {} }
        match serde_json::from_slice::<WorkerOut>(&v) {
            Ok(o) => outs.push(o),
            Err(e) => errors.push(format!("worker died: {} (status {})", e, st)),
        }
    }
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut fps: HashSet<u64> = HashSet::new();
    let (mut runs, mut sim_us, mut doubled) = (0u64, 0u64, 0u64);
    let mut mismatch = vec![];
    let mut samples = vec![];
    let mut viol: Option<(u64, Vec<u32>, String, String)> = None;
    let mut logs = vec![];
    for o in outs {
        for (k, v) in o.stats {
            *stats.entry(k).or_insert(0) += v;
        }
        fps.extend(o.fps.iter().map(|x| x.0));
        runs += o.runs;
        sim_us += o.sim_us;
        doubled += o.doubled;
        mismatch.extend(o.mismatch);
        samples.extend(o.samples);
        logs.extend(o.log);
        if let Some(e) = o.error {
            errors.push(e);
        }
        if let Some(v) = o.violation {
            if viol.as_ref().map_or(true, |x| v.0 < x.0) {
                viol = Some(v);
            }
        }
    }
    if let Some(f) = keep_log {
        logs.sort();
        let s: String = logs.iter().map(|(i, h)| format!("{} {:016x}\n", i, h)).collect();
        std::fs::write(f, s).unwrap();
    }
    let explore_s = crate::os::wall() - t0;
    let thorough = cfg.tier == "thorough";
    let mut code = 0;
    if let Some((idx, choices, class, detail)) = &viol {
        let sh = map_shared::<Shared>();
        let (mut best, tries) = minimise(p, thorough, choices.clone(), class, if thorough { 120.0 } else { 45.0 }, sh);
        let mut fin = execute(p, thorough, Src::Replay(best.clone(), 0), sh, true);
        if fin.report.violation.as_ref().map(|v| &v.0) != Some(class) {
            best = choices.clone();
            fin = execute(p, thorough, Src::Replay(best.clone(), 0), sh, true);
        }
        let (c2, d2) = fin.report.violation.clone().unwrap_or((class.clone(), detail.clone()));
        let dir = format!("{}/out", cfg.verif);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/replay-{}-seed{}-run{}.json", dir, p.id, cfg.seed, idx);
        let doc = json!({"property": p.id, "verif_seed": cfg.seed, "tier": cfg.tier, "run": idx,
            "seed": format!("{:016x}", run_seed(cfg.seed, p.id, *idx)), "class": c2, "detail": d2,
            "choices": best, "choices_before_minimisation": choices.len(), "minimisation_runs": tries,
            "trace": fin.report.trace});
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
        // replay in a fresh process
        let again = std::process::Command::new(std::env::current_exe().unwrap()).arg("replay").arg(&path).arg("--quiet").status();
        let ok = matches!(again.map(|s| s.code()), Ok(Some(1)));
        println!("violation class={} run={} choices {} -> {} (replay in a fresh process: {})", c2, idx, choices.len(), best.len(), if ok { "reproduced" } else { "NOT reproduced" });
        println!("  {}", d2);
        for l in fin.report.trace.iter().take(40) {
            println!("  {}", l);
        }
        println!("VIOLATION property={} replay={}", p.id, path);
        code = 1;
    } else if !errors.is_empty() || !mismatch.is_empty() || runs == 0 {
        for e in &errors {
            eprintln!("harness error: {}", e);
        }
        if !mismatch.is_empty() {
            eprintln!("harness error: runs {:?} did not repeat exactly", &mismatch[..mismatch.len().min(8)]);
        }
        code = 2;
    }
    let pick = |pre: &str| -> BTreeMap<String, u64> {
        stats.iter().filter(|(k, _)| k.starts_with(pre)).map(|(k, v)| (k[pre.len()..].to_string(), *v)).collect()
    };
    let wall = crate::os::wall() - t0;
    samples.sort_by_key(|s| s["run"].as_u64());
    let ev = json!({
        "property": p.id, "tier": cfg.tier, "seed": cfg.seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": fps.len(),
            "rule": p.rule,
            "samples": samples,
            "runs_per_hour": (runs as f64 / explore_s * 3600.0) as u64,
            "seeds": runs,
            "simulated_time_s": sim_us as f64 / 1e6,
            "faults_injected": pick("fault."),
            "operations": pick("op."),
            "probes": pick("probe."),
            "scheduling": pick("sched."),
            "oracle_checks": pick("check."),
            "runs_ended_by_process_death": stats.get("run.died").copied().unwrap_or(0),
            "instrumentation_points": crate::sched::nguards(),
            "determinism": {"runs_executed_twice": doubled, "differences": mismatch.len()},
            "real_components": p.real,
            "stub_components": p.stub,
            "workers": cfg.workers,
        },
        "assumptions": p.assumes,
        "wall_s": wall,
        "violations": if code == 1 { 1 } else { 0 },
    });
    let dir = format!("{}/evidence", cfg.verif);
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{}/{}.json", dir, p.id), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    if code == 0 {
        println!("{}: property held in {} runs ({} distinct non-trivial), {:.1} s", p.id, runs, fps.len(), wall);
    }
    code
}

pub fn replay(path: &str, quiet: bool, props: &'static [Prop]) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay json");
    let id = v["property"].as_str().unwrap();
    let p = props.iter().find(|p| p.id == id).expect("property");
    let thorough = v["tier"] == "thorough";
    let seed = v["verif_seed"].as_u64().unwrap();
    (p.setup)(seed, thorough);
    let ch: Vec<u32> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
    let sh = map_shared::<Shared>();
    let o = execute(p, thorough, Src::Replay(ch, 0), sh, true);
    if let Some(e) = o.error {
        eprintln!("harness error: {}", e);
        return 2;
    }
    if !quiet {
        for l in &o.report.trace {
            println!("{}", l);
        }
    }
    match o.report.violation {
        Some((c, d)) if c == v["class"].as_str().unwrap_or("") => {
            if !quiet {
                println!("reproduced {}: {}", c, d);
                println!("VIOLATION property={} replay={}", id, path);
            }
            1
        }
        Some((c, d)) => {
            if !quiet {
                println!("a different violation: {}: {}", c, d);
                println!("VIOLATION property={} replay={}", id, path);
            }
            3
        }
        None => {
            if !quiet {
                println!("not reproduced: the property held on this run");
            }
            0
        }
    }
}
