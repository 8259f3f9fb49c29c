#![allow(invalid_runtime_symbol_definitions, unknown_lints, dead_code, clippy::all)]
mod core;
mod gen;
mod op;
mod os;
mod refimpl;
mod runner;
mod sched;
mod scn;

use crate::core::Ctx;
use runner::{Cfg, Death};

pub struct Prop {
    pub id: &'static str,
    pub sched_build: bool,
    pub quick: u64,
    pub thorough: u64,
    pub setup: fn(u64, bool),
    pub scenario: fn(&mut Ctx),
    pub death: Death,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumes: &'static [&'static str],
}

fn no_aslr() {
    unsafe {
        let p = libc::personality(0xffffffff);
        if p >= 0 && p & libc::ADDR_NO_RANDOMIZE == 0 && libc::personality(p as u64 | libc::ADDR_NO_RANDOMIZE as u64) >= 0 && std::env::var_os("EDSIM_REEXEC").is_none() {
            use std::os::unix::process::CommandExt;
            let mut a = std::env::args_os();
            a.next();
            let _ = std::process::Command::new("/proc/self/exe").args(a).env("EDSIM_REEXEC", "1").exec();
        }
    }
}

fn main() {
    no_aslr();
    os::init();
    core::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let env = |k: &str, d: &str| std::env::var(k).unwrap_or(d.to_string());
    if let Err(e) = refimpl::selftest() {
        eprintln!("harness error: reference implementation self test failed: {}", e);
        std::process::exit(2);
    }
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let prop = |id: &str| scn::PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("no such property {}", id));
    let code = match cmd {
        "which" => {
            println!("{}", if prop(&a[2]).sched_build { "sched" } else { "fast" });
            0
        }
        "check" => {
            let p = prop(&a[2]);
            if p.sched_build && !sched::instrumented() {
                eprintln!("harness error: this check needs the instrumented build");
                std::process::exit(2);
            }
            let tier = env("VERIF_TIER", "quick");
            let seed: u64 = env("VERIF_SEED", "1").parse().unwrap_or(1);
            let runs = if tier == "thorough" { p.thorough } else { p.quick };
            let runs = env("EDSIM_RUNS", "").parse().unwrap_or(runs);
            let cap = env("EDSIM_CAP_S", "").parse().unwrap_or(if tier == "thorough" { 3000.0 } else { 150.0 });
            let workers = env("EDSIM_WORKERS", "").parse().unwrap_or(8);
            let cfg = Cfg { seed, tier: tier.clone(), runs, cap_s: cap, workers, verif: env("EDSIM_VERIF", "/verif") };
            (p.setup)(seed, tier == "thorough");
            let log = std::env::var("EDSIM_LOG").ok();
            runner::check(p, &cfg, log.as_deref())
        }
        "replay" => runner::replay(&a[2], a.iter().any(|x| x == "--quiet"), &scn::PROPS),
        "run" => {
            // one run of a property, traced: edsim run C01 <index>
            let p = prop(&a[2]);
            let seed: u64 = env("VERIF_SEED", "1").parse().unwrap_or(1);
            (p.setup)(seed, false);
            let sh = core::map_shared::<core::Shared>();
            let o = runner::execute(p, false, core::Src::Gen(core::Sm(runner::run_seed(seed, p.id, a[3].parse().unwrap()))), sh, true);
            for l in &o.report.trace {
                println!("{}", l);
            }
            println!("{:?} choices={} fp={:016x} {:?} {:?}", o.report.violation, o.choices.len(), o.report.fp, o.report.stats, o.error);
            0
        }
        _ => {
            eprintln!("usage: edsim check <id> | replay <file> | run <id> <index>");
            2
        }
    };
    std::process::exit(code);
}
