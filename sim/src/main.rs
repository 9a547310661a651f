//! Deterministic simulation of nmea-parser with fault injection. See /verif/DESIGN.md.

mod compare;
mod cov;
mod exec;
mod flat;
mod gen;
mod mids;
mod model;
mod nmea;
mod props;
mod rng;
mod runner;
mod sched;
mod seams;
mod shm;
mod trace;
mod truth;
mod world;

use std::path::PathBuf;

#[global_allocator]
static ALLOC: seams::SimAlloc = seams::SimAlloc;

const PROPS: [&str; 21] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14",
    "C15", "C16", "C17", "C18", "C19", "C20", "C21"];

fn usage() -> ! {
    eprintln!("usage: nmea-sim check ID [--seed N] [--tier quick|thorough] [--runs N] [--secs S] [--workers W] [--out DIR] [--findings FILE]\n\
               \x20      nmea-sim replay FILE [--findings FILE]\n\
               \x20      nmea-sim selftest [ID] [--runs N]\n\
               \x20      nmea-sim show ID --seed N --run N");
    std::process::exit(2)
}

/// Runs per search, and the wall-clock limit that ends a search early on a slow machine.
fn plan(prop: &str, thorough: bool) -> (u64, f64) {
    let quick = match prop {
        "C01" => 100000,
        "C13" => 1200,
        "C14" => 16000,
        "C05" => 18000,
        "C08" | "C11" => 26000,
        "C18" => 16000,
        "C09" | "C10" | "C12" | "C19" | "C21" => 30000,
        _ => 45000,
    };
    if thorough {
        (quick * 30, 600.0)
    } else {
        (quick, 120.0)
    }
}

/// Addresses are a source of nondeterminism too: run without address-space randomisation where the system allows it.
fn fixed_addresses() {
    const MARK: &str = "NMEA_SIM_FIXED";
    if std::env::var_os(MARK).is_some() {
        std::env::remove_var(MARK);
        return;
    }
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p < 0 || p & libc::ADDR_NO_RANDOMIZE != 0 || libc::personality((p | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) < 0 {
            return;
        }
    }
    use std::os::unix::process::CommandExt;
    if let Ok(exe) = std::env::current_exe() {
        let _ = std::process::Command::new(exe).args(std::env::args_os().skip(1)).env(MARK, "1").exec();
    }
}

fn main() {
    fixed_addresses();
    seams::init_memory_functions();
    shm::init();
    shm::reset();
    cov::init_shared();
    exec::install_panic_hook();
    let _ = log::set_logger(&seams::LOGGER);
    props::set_log("off");
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let num = |k: &str| opt(k).map(|v| v.parse::<u64>().unwrap_or_else(|_| usage()));
    let thorough = opt("--tier").as_deref() == Some("thorough");
    let findings = PathBuf::from(opt("--findings").unwrap_or_else(|| "/verif/known-findings.txt".into()));
    let make = |prop: &str| {
        let (runs, secs) = plan(prop, thorough);
        let out = PathBuf::from(opt("--out").unwrap_or_else(|| "/verif/evidence".into()));
        runner::Opts {
            prop: prop.to_string(),
            seed: num("--seed").unwrap_or(1),
            thorough,
            runs: num("--runs").unwrap_or(runs),
            secs: opt("--secs").and_then(|v| v.parse().ok()).unwrap_or(secs),
            workers: num("--workers").unwrap_or(8).clamp(1, 64) as usize,
            replays: out.join("replays"),
            out,
            findings: findings.clone(),
        }
    };
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let p = args.get(2).cloned().unwrap_or_else(|| usage());
            if !PROPS.contains(&p.as_str()) {
                usage()
            }
            runner::check(&make(&p))
        }
        Some("replay") => runner::replay_file(&PathBuf::from(args.get(2).unwrap_or_else(|| usage())), &findings),
        Some("selftest") => {
            let mut bad = 0;
            for p in PROPS.iter().filter(|p| args.get(2).map(|a| a.starts_with("--") || a == *p).unwrap_or(true)) {
                let mut o = make(p);
                o.runs = num("--runs").unwrap_or(60);
                bad |= runner::selftest(&mut o);
            }
            bad
        }
        Some("show") => {
            let p = args.get(2).cloned().unwrap_or_else(|| usage());
            let t = gen::generate(&p, num("--seed").unwrap_or(1), num("--run").unwrap_or(0), thorough);
            print!("{}", t.to_text(&[]));
            0
        }
        _ => usage(),
    };
    std::process::exit(code)
}
