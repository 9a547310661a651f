//! Search driver: forks one process per run, finds the first violating run, minimises it, writes
//! the replay file and the evidence.

use crate::props;
use crate::rng::{hash_bytes, splitmix};
use crate::seams::{die, real_monotonic};
use crate::shm::{self, CNAMES, NCOUNT, C};
use crate::trace::*;
use crate::{cov, gen};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::*};

pub struct Finding {
    pub prop: String,
    pub id: String,
    pub line: String,
}

/// The committed list of defects of the code under test that are recorded, not repaired.
pub fn load_findings(p: &Path) -> Vec<Finding> {
    let s = std::fs::read_to_string(p).unwrap_or_default();
    let mut v = vec![];
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("KNOWN-FINDING: property=") {
            let mut it = r.splitn(3, ' ');
            let prop = it.next().unwrap_or("").to_string();
            if let Some(id) = it.next().and_then(|x| x.strip_prefix("id=")) {
                v.push(Finding { prop, id: id.to_string(), line: l.to_string() });
            }
        }
    }
    v
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Held { nontrivial: bool },
    Violation { class: String, detail: String, switches: Vec<(u64, u32)> },
    Harness(String),
}

/// Decides one trace in a child process of its own. The child's counters are left in shm.
pub fn eval(make: impl FnOnce() -> Trace, listed: &dyn Fn(&str) -> bool) -> Verdict {
    shm::reset();
    unsafe {
        let pid = libc::fork();
        if pid < 0 {
            return Verdict::Harness("fork failed".into());
        }
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let cpu = libc::rlimit { rlim_cur: 100, rlim_max: 110 };
            libc::setrlimit(libc::RLIMIT_CPU, &cpu);
            let mem = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &mem);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            libc::alarm(300);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let t = make();
                let mut h = 0u64;
                for s in &t.steps {
                    let mut x = h ^ hash_bytes(s.text.as_bytes()) ^ (s.now as u64).rotate_left(17)
                        ^ ((s.node as u64) << 32) ^ s.src as u64 ^ ((s.tags as u64) << 48);
                    h = splitmix(&mut x);
                }
                shm::get().exact = h;
                props::check(&t, listed)
            }));
            let s = shm::get();
            match r {
                Ok(Ok(nt)) => {
                    s.nontrivial = nt as u64;
                    s.status = 1;
                }
                Ok(Err(b)) if b.class == "harness" => {
                    shm::set_violation(&b.class, &b.detail);
                    s.status = 3;
                }
                Ok(Err(b)) => shm::set_violation(&b.class, &b.detail),
                Err(_) => {
                    shm::set_violation("harness", &crate::exec::last_panic());
                    s.status = 3;
                }
            }
            die(0)
        }
        let mut st = 0i32;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let s = shm::get();
        match s.status {
            1 if st == 0 => Verdict::Held { nontrivial: s.nontrivial != 0 },
            2 => Verdict::Violation { class: shm::class(), detail: shm::detail(),
                switches: s.switches[..s.nswitch as usize].to_vec() },
            3 => Verdict::Harness(shm::detail()),
            _ => Verdict::Violation { class: "died".into(),
                detail: format!("the process {} (step {})", shm::status_text(st), s.step as i64),
                switches: s.switches[..s.nswitch as usize].to_vec() },
        }
    }
}

// ------------------------------------------------------------------------------------------------

const SIGCAP: usize = 1 << 22;
const MAXW: usize = 64;

#[repr(C)]
struct Slot {
    runs: AtomicU64,
    nontrivial: AtomicU64,
    sim_us: AtomicU64,
    calls: AtomicU64,
    harness: AtomicU64,
    order: AtomicU64, // order-independent digest of (run, outcome)
    counters: [AtomicU64; NCOUNT],
}
#[repr(C)]
struct Agg {
    best: AtomicU64,
    exact_n: AtomicU64,
    shape_n: AtomicU64,
    switch_n: AtomicU64,
    slots: [Slot; MAXW],
    exact: [AtomicU64; SIGCAP],
    shape: [AtomicU64; SIGCAP],
}

fn agg_new() -> &'static Agg {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Agg>(), libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        assert!(p != libc::MAP_FAILED);
        let a = &*(p as *const Agg);
        a.best.store(u64::MAX, SeqCst);
        a
    }
}

fn insert(tab: &[AtomicU64; SIGCAP], n: &AtomicU64, v: u64) {
    let v = v | 1;
    if n.load(Relaxed) > (SIGCAP as u64) * 3 / 4 {
        return;
    }
    let mut i = (v >> 20) as usize % SIGCAP;
    loop {
        match tab[i].compare_exchange(0, v, SeqCst, SeqCst) {
            Ok(_) => {
                n.fetch_add(1, SeqCst);
                return;
            }
            Err(x) if x == v => return,
            Err(_) => i = (i + 1) % SIGCAP,
        }
    }
}

pub struct Opts {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub runs: u64,
    pub secs: f64,
    pub workers: usize,
    pub out: PathBuf,
    pub replays: PathBuf,
    pub findings: PathBuf,
}

struct Search {
    best: Option<u64>,
    runs: u64,
    nontrivial: u64,
    sim_us: u64,
    calls: u64,
    harness: u64,
    digest: u64,
    counters: Vec<u64>,
    exact: u64,
    shape: u64,
    wall: f64,
}

fn search(o: &Opts, listed: &dyn Fn(&str) -> bool) -> Search {
    let a = agg_new();
    let t0 = real_monotonic();
    let mut pids = vec![];
    for w in 0..o.workers {
        unsafe {
            let pid = libc::fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                shm::init();
                let sl = &a.slots[w];
                let mut run = w as u64;
                while run < o.runs && run < a.best.load(SeqCst) && real_monotonic() - t0 < o.secs {
                    let v = eval(|| gen::generate(&o.prop, o.seed, run, o.thorough), listed);
                    let s = shm::get();
                    let outcome = match &v {
                        Verdict::Held { nontrivial } => {
                            if *nontrivial {
                                sl.nontrivial.fetch_add(1, Relaxed);
                                insert(&a.exact, &a.exact_n, s.exact);
                                insert(&a.shape, &a.shape_n, s.sig);
                            }
                            *nontrivial as u64
                        }
                        Verdict::Violation { class, .. } => {
                            a.best.fetch_min(run, SeqCst);
                            hash_bytes(class.as_bytes())
                        }
                        Verdict::Harness(d) => {
                            if sl.harness.fetch_add(1, Relaxed) == 0 {
                                eprintln!("harness error in run {}: {}", run, d);
                            }
                            7
                        }
                    };
                    let mut x = run ^ s.sig.rotate_left(7) ^ s.exact ^ outcome.rotate_left(40) ^ s.calls.rotate_left(20);
                    sl.order.fetch_xor(splitmix(&mut x), Relaxed);
                    sl.runs.fetch_add(1, Relaxed);
                    sl.sim_us.fetch_add(s.sim_us, Relaxed);
                    sl.calls.fetch_add(s.calls, Relaxed);
                    for k in 0..NCOUNT {
                        sl.counters[k].fetch_add(s.counters[k], Relaxed);
                    }
                    run += o.workers as u64;
                }
                die(0)
            }
            pids.push(pid);
        }
    }
    let mut dead = 0;
    for p in pids {
        let mut st = 0;
        unsafe { while libc::waitpid(p, &mut st, 0) < 0 {} }
        if st != 0 {
            dead += 1;
        }
    }
    let sum = |f: &dyn Fn(&Slot) -> &AtomicU64| a.slots.iter().map(|s| f(s).load(SeqCst)).sum::<u64>();
    let best = a.best.load(SeqCst);
    Search {
        best: if best == u64::MAX { None } else { Some(best) },
        runs: sum(&|s| &s.runs),
        nontrivial: sum(&|s| &s.nontrivial),
        sim_us: sum(&|s| &s.sim_us),
        calls: sum(&|s| &s.calls),
        harness: sum(&|s| &s.harness) + dead,
        digest: a.slots.iter().fold(0, |x, s| x ^ s.order.load(SeqCst)),
        counters: (0..NCOUNT).map(|k| sum(&|s| &s.counters[k])).collect(),
        exact: a.exact_n.load(SeqCst),
        shape: a.shape_n.load(SeqCst),
        wall: real_monotonic() - t0,
    }
}

// ------------------------------------------------------------------------------------------------
// Minimisation

struct Min<'a> {
    class: String,
    listed: &'a dyn Fn(&str) -> bool,
    evals: u32,
    t0: f64,
    detail: String,
    switches: Vec<(u64, u32)>,
}

impl Min<'_> {
    fn spent(&self) -> bool {
        self.evals >= 3000 || real_monotonic() - self.t0 > 100.0
    }
    fn fails(&mut self, t: &Trace) -> bool {
        if self.spent() {
            return false;
        }
        self.evals += 1;
        match eval(|| t.clone(), self.listed) {
            Verdict::Violation { class, detail, switches } if class == self.class => {
                self.detail = detail;
                self.switches = switches;
                true
            }
            _ => false,
        }
    }

    fn ddmin<T: Clone>(&mut self, items: Vec<T>, build: &dyn Fn(&[T]) -> Vec<Trace>) -> Vec<T> {
        let mut cur = items;
        let mut n = 2usize;
        while cur.len() > 1 {
            let size = cur.len().div_ceil(n);
            let mut reduced = false;
            let mut from = 0;
            while from < cur.len() {
                let to = (from + size).min(cur.len());
                let rest: Vec<T> = cur[..from].iter().chain(&cur[to..]).cloned().collect();
                if build(&rest).iter().any(|t| self.fails(t)) {
                    cur = rest;
                    reduced = true;
                    n = n.saturating_sub(1).max(2);
                    // continue at the same position
                } else {
                    from = to;
                }
                if self.spent() {
                    return cur;
                }
            }
            if size == 1 {
                if !reduced {
                    break;
                }
            } else if !reduced {
                n = (n * 2).min(cur.len());
            }
        }
        if cur.len() == 1 && build(&[]).iter().any(|t| self.fails(t)) {
            cur.clear();
        }
        cur
    }
}

fn minimise(mut t: Trace, class: &str, listed: &dyn Fn(&str) -> bool) -> (Trace, String, u32) {
    let mut m = Min { class: class.to_string(), listed, evals: 0, t0: real_monotonic(), detail: String::new(), switches: vec![] };
    if !m.fails(&t) {
        return (t, String::new(), m.evals);
    }
    let threads = t.prop == "C11";
    let base = t.clone();
    let frame = Trace { steps: vec![], ..t.clone() };
    let best_detail;
    let steps = m.ddmin(t.steps.clone(), &|st| {
        let mut c = frame.clone();
        c.steps = st.to_vec();
        if !threads {
            return vec![c];
        }
        (0..12u64).map(|k| {
            let mut d = c.clone();
            if k > 0 {
                d.set("sched", base.envu("sched").wrapping_add(k * 7919));
                d.set("den", [base.envu("den"), 3, 20, 200][k as usize % 4].max(2));
            }
            d
        }).collect()
    });
    t.steps = steps;
    if threads {
        // the schedule that made the last candidate fail
        let mut ok = false;
        for k in 0..40u64 {
            let mut d = t.clone();
            d.set("sched", base.envu("sched").wrapping_add(k * 7919));
            d.set("den", [base.envu("den"), 3, 20, 200][k as usize % 4].max(2));
            if m.fails(&d) {
                t = d;
                ok = true;
                break;
            }
        }
        if !ok {
            t = base.clone();
            m.fails(&t);
        }
        t.switches = Some(m.switches.clone());
        if m.fails(&t) {
            let b = t.clone();
            let sw = m.ddmin(t.switches.clone().unwrap_or_default(), &|s| {
                let mut c = b.clone();
                c.switches = Some(s.to_vec());
                vec![c]
            });
            t.switches = Some(sw);
        } else {
            t.switches = None;
        }
    }
    // simpler environment
    let mut tries: Vec<Trace> = vec![];
    for (k, v) in [("tz", "UTC0"), ("log", "off")] {
        let mut c = t.clone();
        if c.envs(k) != v {
            c.set(k, v);
            tries.push(c);
        }
    }
    for c in tries {
        let mut d = t.clone();
        for k in ["tz", "log"] {
            if c.envs(k) != base.envs(k) {
                d.set(k, c.envs(k));
            }
        }
        if m.fails(&d) {
            t = d;
        }
    }
    if t.steps.iter().any(|s| s.tick != 0) {
        let mut c = t.clone();
        c.steps.iter_mut().for_each(|s| s.tick = 0);
        if m.fails(&c) {
            t = c;
        }
    }
    // final confirmation sets the detail
    m.evals = m.evals.min(2990);
    m.t0 = real_monotonic();
    if !m.fails(&t) {
        t = base;
        m.fails(&t);
    }
    best_detail = m.detail.clone();
    (t, best_detail, m.evals)
}

// ------------------------------------------------------------------------------------------------

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn sample(t: &Trace) -> String {
    let shown = t.steps.len().min(14);
    let steps: Vec<String> = t.steps[..shown].iter().map(|s| {
        let text: String = s.text.chars().take(160).collect();
        js(&format!("node {} source {} part {} tags {} clock {}: {}", s.node, s.src, s.part, s.tags, props::show_clock(s.now), text))
    }).collect();
    let env: Vec<String> = t.env.iter().map(|(k, v)| format!("{}: {}", js(k), js(v))).collect();
    format!("{{\"env\": {{{}}}, \"steps_total\": {}, \"first_steps\": [{}]}}", env.join(", "), t.steps.len(), steps.join(", "))
}

pub fn replay_file(path: &Path, findings: &Path) -> i32 {
    let s = match std::fs::read_to_string(path) {
        Ok(s) => s,
        Err(e) => {
            println!("cannot read {}: {}", path.display(), e);
            return 2;
        }
    };
    let t = match Trace::from_text(&s) {
        Ok(t) => t,
        Err(e) => {
            println!("{}", e);
            return 2;
        }
    };
    let f = load_findings(findings);
    let prop = t.prop.clone();
    match eval(|| t, &|id| f.iter().any(|x| x.prop == prop && x.id == id)) {
        Verdict::Held { .. } => {
            println!("the property held");
            0
        }
        Verdict::Violation { class, detail, .. } => {
            println!("class: {}\n{}", class, detail);
            println!("VIOLATION property={} replay={}", prop, path.display());
            1
        }
        Verdict::Harness(d) => {
            println!("harness error: {}", d);
            2
        }
    }
}

pub fn check(o: &Opts) -> i32 {
    let t0 = real_monotonic();
    let findings = load_findings(&o.findings);
    let prop = o.prop.clone();
    let listed = |id: &str| findings.iter().any(|f| f.prop == prop && f.id == id);
    for f in findings.iter().filter(|f| f.prop == o.prop) {
        match gen::canonical(&f.id) {
            Some(t) => match eval(|| t, &|_| false) {
                Verdict::Violation { .. } => println!("{}", f.line),
                Verdict::Held { .. } => println!("note: listed finding {} does not reproduce", f.id),
                Verdict::Harness(d) => {
                    println!("harness error: {}", d);
                    return 2;
                }
            },
            None => {
                println!("harness error: no scenario for listed finding {}", f.id);
                return 2;
            }
        }
    }
    let s = search(o, &listed);
    let mut violations = 0;
    let mut code = 0;
    let mut vio = String::new();
    if s.harness > 0 {
        println!("harness error in {} runs", s.harness);
        code = 2;
    }
    if let Some(run) = s.best {
        let t = gen::generate(&o.prop, o.seed, run, o.thorough);
        let full = t.steps.len();
        match eval(|| t.clone(), &listed) {
            Verdict::Violation { class, detail, .. } => {
                let (m, d2, evals) = minimise(t.clone(), &class, &listed);
                std::fs::create_dir_all(&o.replays).ok();
                let path = o.replays.join(format!("{}-seed{}-run{}.replay", o.prop, o.seed, run));
                let write = |m: &Trace, d: &str| {
                    let notes = vec![format!("violation of {}: {}", o.prop, class), d.to_string(),
                        format!("seed {} run {} tier {}; {} of {} steps left after minimisation ({} evaluations)", o.seed, run,
                            if o.thorough { "thorough" } else { "quick" }, m.steps.len(), full, evals),
                        format!("replay with: sim/target/release/nmea-sim replay {}", path.display())];
                    std::fs::write(&path, m.to_text(&notes)).is_ok()
                };
                let again = |p: &Path| -> bool {
                    let exe = std::env::current_exe().unwrap_or_default();
                    match std::process::Command::new(exe).arg("replay").arg(p).arg("--findings").arg(&o.findings)
                        .stderr(std::process::Stdio::null()).output() {
                        Ok(x) => x.status.code() == Some(1)
                            && String::from_utf8_lossy(&x.stdout).contains(&format!("class: {}\n", class)),
                        Err(_) => false,
                    }
                };
                let mut shown = d2.clone();
                let mut ok = write(&m, &d2) && again(&path);
                if !ok {
                    shown = detail.clone();
                    ok = write(&t, &detail) && again(&path);
                }
                println!("seed {} run {}: {}\n{}", o.seed, run, class, shown);
                println!("{} steps of {} left after {} minimisation runs; replayed in a new process: {}", m.steps.len(), full, evals,
                    if ok { "reproduced exactly" } else { "NOT reproduced" });
                if ok {
                    println!("VIOLATION property={} replay={}", o.prop, path.display());
                    violations = 1;
                    code = 1;
                    vio = format!("{}: {}", class, shown);
                } else {
                    println!("harness error: the violation does not replay");
                    code = 2;
                }
            }
            v => {
                println!("harness error: run {} violated in a worker but not again: {:?}", run, v);
                code = 2;
            }
        }
    }
    if s.runs < o.runs && code == 0 {
        println!("note: {} of {} planned runs done in the time allowed", s.runs, o.runs);
    }
    let wall = real_monotonic() - t0;
    println!("{}: {} runs ({} non-trivial, {} distinct, {} distinct histories), {} calls, {:.1} s", o.prop, s.runs, s.nontrivial, s.exact,
        s.shape, s.calls, wall);
    if code != 2 {
        if let Err(e) = evidence(o, &s, violations, &vio, wall) {
            println!("cannot write evidence: {}", e);
            code = 2;
        }
    }
    code
}

fn evidence(o: &Opts, s: &Search, violations: u32, vio: &str, wall: f64) -> std::io::Result<()> {
    let mut faults: BTreeMap<&str, u64> = BTreeMap::new();
    let mut seen: BTreeMap<&str, u64> = BTreeMap::new();
    for k in 0..C::Last as usize {
        if s.counters[k] == 0 {
            continue;
        }
        if let Some(n) = CNAMES[k].strip_prefix("fault:") {
            faults.insert(n, s.counters[k]);
        } else if let Some(n) = CNAMES[k].strip_prefix("seen:") {
            seen.insert(n, s.counters[k]);
        }
    }
    let obj = |m: &BTreeMap<&str, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
    // two short runs of this very search, written out
    let mut cands: Vec<Trace> = (0..s.runs.min(12)).map(|r| gen::generate(&o.prop, o.seed, r, o.thorough)).collect();
    cands.sort_by_key(|t| (t.steps.len() < 3, t.steps.len()));
    let samples: Vec<String> = cands.iter().take(2).map(sample).collect();
    let list = |v: &[&str]| v.iter().map(|x| js(x)).collect::<Vec<_>>().join(", ");
    let per_hour = s.runs as f64 / s.wall.max(0.001) * 3600.0;
    let mut e = String::new();
    e.push_str("{\n");
    e.push_str(&format!("  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n", js(&o.prop),
        js(if o.thorough { "thorough" } else { "quick" }), o.seed));
    e.push_str("  \"coverage\": {\n");
    e.push_str(&format!("    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n", s.runs, s.exact));
    e.push_str(&format!("    \"rule\": {},\n", js(props::rule(&o.prop))));
    e.push_str(&format!("    \"samples\": [{}],\n", samples.join(", ")));
    e.push_str(&format!("    \"simulated_runs\": {},\n    \"runs_with_own_seed\": {},\n    \"planned_runs\": {},\n    \"nontrivial_runs\": {},\n",
        s.runs, s.runs, o.runs, s.nontrivial));
    e.push_str(&format!("    \"distinct_histories\": {},\n    \"distinct_histories_measure\": {},\n", s.shape,
        js("hash over the sequence of (sentence or fragment class, source, fault tags, outcome class), with the sequence of thread switches where threads are simulated; counted over non-trivial runs")));
    e.push_str(&format!("    \"runs_per_hour\": {:.0},\n    \"seeds_per_hour\": {:.0},\n", per_hour, per_hour));
    e.push_str(&format!("    \"simulated_seconds\": {:.3},\n    \"simulated_calls\": {},\n", s.sim_us as f64 / 1e6, s.calls));
    e.push_str(&format!("    \"faults_injected\": {},\n    \"observed\": {},\n", obj(&faults), obj(&seen)));
    e.push_str(&format!("    \"instrumented_edges\": {},\n    \"edges_reached_during_calls\": {},\n", cov::total(), cov::covered()));
    e.push_str(&format!("    \"workers\": {},\n    \"search_digest\": \"{:016x}\",\n", o.workers, s.digest));
    e.push_str(&format!("    \"real_components\": [{}],\n", list(&["nmea-parser (all of /repo/src, built from the working tree, overflow checks and debug assertions on)",
        "chrono", "regex", "bitvec", "hashbrown/std collections", "log facade", "std threads and locks"])));
    e.push_str(&format!("    \"stub_components\": [{}]", list(&["wall and monotonic clock (clock_gettime, gettimeofday, time)", "entropy for hash seeds (getrandom)",
        "thread scheduler and futexes (C11)", "heap accounting in front of the system allocator", "logger sink",
        "sentence sources, links and channel (generated traffic with faults)"])));
    if !vio.is_empty() {
        e.push_str(&format!(",\n    \"violation\": {}", js(vio)));
    }
    e.push_str("\n  },\n");
    e.push_str(&format!("  \"assumptions\": [{}],\n", list(&["generators cover the sentences of the supported types as the NMEA 0183 and ITU-R M.1371 tables describe them; other inputs are sampled, not enumerated",
        "the simulator owns every source of nondeterminism the crate reaches: clock, hash seeds, time zone, log level, thread schedule",
        "thread preemption happens at basic blocks, memory accesses and accesses to globals of the crate, allocations, clock reads, log records and futex calls of one processor (sequential consistency)"])));
    e.push_str(&format!("  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n", wall, violations));
    std::fs::create_dir_all(&o.out)?;
    let p = o.out.join(format!("{}.json", o.prop));
    std::fs::write(&p, e)
}

/// One seed is one execution: the same search, twice and with another number of workers, has the
/// same digest, and another seed has another one.
pub fn selftest(o: &mut Opts) -> i32 {
    let f = |_: &str| true;
    let a = search(o, &f);
    let b = search(o, &f);
    o.workers = 3;
    let c = search(o, &f);
    o.seed += 1;
    let d = search(o, &f);
    let ok = a.digest == b.digest && a.digest == c.digest && a.digest != d.digest && a.counters == b.counters && a.counters == c.counters
        && a.harness + b.harness + c.harness + d.harness == 0;
    println!("{} determinism over {} runs: {:016x} {:016x} {:016x} / {:016x} {}", o.prop, a.runs, a.digest, b.digest, c.digest, d.digest,
        if ok { "ok" } else { "FAILED" });
    if a.counters != b.counters || a.counters != c.counters {
        for k in 0..C::Last as usize {
            if a.counters[k] != b.counters[k] || a.counters[k] != c.counters[k] {
                println!("  {}: {} {} {}", CNAMES[k], a.counters[k], b.counters[k], c.counters[k]);
            }
        }
    }
    !ok as i32
}
