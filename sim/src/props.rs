//! The checks: run a trace against the real crate and decide the property on the recorded history.
//! Every check is a function of the trace alone.

use crate::compare;
use crate::exec::*;
use crate::model::*;
use crate::nmea::*;
use crate::rng::{hash_bytes, splitmix, Rng};
use crate::seams;
use crate::shm::{self, count, isolated, Isolated, C};
use crate::trace::*;
use nmea_parser::NmeaParser;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::atomic::Ordering::*;

pub struct Bad {
    pub class: String,
    pub detail: String,
}
pub type Res = Result<bool, Bad>;

fn bad<T>(class: &str, detail: String) -> Result<T, Bad> {
    Err(Bad { class: class.into(), detail })
}

pub fn set_env(t: &Trace, prefix: &str) {
    seams::set_hash_seed(t.envu(&format!("{}hash", prefix)));
    set_tz(t.envs(&format!("{}tz", prefix)));
    set_log(t.envs(&format!("{}log", prefix)));
}
pub fn set_tz(tz: &str) {
    extern "C" {
        fn tzset();
    }
    std::env::set_var("TZ", if tz.is_empty() { "UTC0" } else { tz });
    unsafe { tzset() }
}
pub fn set_log(l: &str) {
    log::set_max_level(match l {
        "error" => log::LevelFilter::Error,
        "warn" => log::LevelFilter::Warn,
        "info" => log::LevelFilter::Info,
        "debug" => log::LevelFilter::Debug,
        "trace" => log::LevelFilter::Trace,
        _ => log::LevelFilter::Off,
    });
}

/// Decides the trace's property. Ok(true) = held, and the run was non-trivial.
pub fn check(t: &Trace, listed: &dyn Fn(&str) -> bool) -> Res {
    set_env(t, "");
    seams::CLOCK_ON.store(true, SeqCst);
    crate::cov::BUDGET_BLOCKS.store(400_000_000, SeqCst);
    seams::BUDGET_CALLS.store(5_000_000, SeqCst);
    seams::BUDGET_BYTES.store(2_000_000_000, SeqCst);
    seams::BUDGET_MOVED.store(20_000_000_000, SeqCst);
    shm::get().steps_note(t);
    let r = match t.prop.as_str() {
        "C01" => c01(t),
        "C02" => c02(t),
        "C03" => c03(t),
        "C04" | "C05" | "C06" => reassembly(t, Scope::Ais),
        "C07" => reassembly(t, Scope::Gsv),
        "C08" => reassembly(t, Scope::T24),
        "C09" => c09(t),
        "C10" => c10(t),
        "C11" => c11(t),
        "C12" => c12(t),
        "C13" => c13(t),
        "C14" => c14(t),
        "C15" => clock(t, &["Gga", "Gll"], "timestamp"),
        "C16" => clock(t, &["VesselStaticData"], "eta"),
        "C17" => clock(t, &["Rmc"], "timestamp"),
        "C18" => c18(t, listed),
        "C19" => c19(t),
        "C20" => c20(t, listed),
        "C21" => c21(t),
        p => bad("harness", format!("unknown property {}", p)),
    };
    count(C::ClockReads, seams::READS.load(Relaxed));
    count(C::LogRecords, seams::LOG_RECORDS.load(Relaxed));
    r
}

impl shm::Shm {
    fn steps_note(&mut self, t: &Trace) {
        let (mut lo, mut hi) = (i64::MAX, i64::MIN);
        for s in &t.steps {
            lo = lo.min(s.now);
            hi = hi.max(s.now);
        }
        if hi > lo {
            self.sim_us = (hi - lo).min(400 * DAY_US) as u64;
        }
        count(C::Steps, t.steps.len() as u64);
    }
}

/// Signature of an execution: which parts arrived in which order, with which faults and outcomes.
fn sign(steps: &[&Step], outs: &[Out]) {
    let mut h = 0u64;
    for (s, o) in steps.iter().zip(outs) {
        let k = match syntax(&s.text) {
            Syn::Vdm { count, num, .. } => 1000 + count * 16 + num,
            Syn::Gsv { count, num, .. } => 2000 + count * 16 + num,
            Syn::Other => 1,
        };
        let mut x = h ^ k.wrapping_mul(0x1_0001) ^ ((s.src as u64) << 40) ^ ((s.tags as u64) << 20)
            ^ ((o.kind as u64) << 60);
        h = splitmix(&mut x);
        match o.kind {
            Kind::Data => count(C::DataReturned, 1),
            Kind::Incomplete => count(C::Incomplete, 1),
            Kind::Err if o.dbg.contains("Corrupted") => count(C::Corrupted, 1),
            Kind::Err => count(C::Rejected, 1),
            Kind::Panic => {}
        }
    }
    shm::get().sig = h;
}

fn main_run(t: &Trace) -> Vec<Out> {
    main_run_of(t.steps.clone())
}
fn main_run_of(steps: Vec<Step>) -> Vec<Out> {
    let s2 = steps.clone();
    let outs = on_thread(move || run_steps(s2.iter()));
    sign(&steps.iter().collect::<Vec<_>>(), &outs);
    outs
}

fn no_panic(steps: &[Step], outs: &[Out]) -> Result<(), Bad> {
    for (i, o) in outs.iter().enumerate() {
        if o.kind == Kind::Panic {
            return bad("panic", format!("step {}: {:?} -> {}", i, steps[i].text, o.dbg));
        }
    }
    Ok(())
}

/// Twin execution in a pristine copy of the process.
fn twin(steps: Vec<Step>) -> Result<Vec<String>, Bad> {
    count(C::Twin, 1);
    match isolated_dbg(steps) {
        Ok(v) => Ok(v),
        Err(w) => bad("died", format!("the twin execution {}", w)),
    }
}

fn say(i: usize, s: &Step, got: &str, want: &str, why: &str) -> String {
    format!("step {} ({}): {:?}\n  returned {}\n  expected {}", i, why, s.text, got, want)
}

// ------------------------------------------------------------------------------------------------

fn c01(t: &Trace) -> Res {
    TOUCH.store(true, SeqCst);
    let outs = main_run(t);
    no_panic(&t.steps, &outs)?;
    Ok(t.steps.len() > 1)
}

fn c02(t: &Trace) -> Res {
    let outs = main_run(t);
    let mut twin_steps = t.steps.clone();
    let mut stripped = 0;
    for (i, s) in t.steps.iter().enumerate() {
        let (b, c) = split_cs(&s.text);
        if !cs_ok(&s.text) {
            if outs[i].dbg != "Err(CorruptedSentence)" {
                return bad("damage accepted", say(i, s, &outs[i].dbg, "Err(CorruptedSentence)",
                    &format!("the XOR of the bytes is {:02X}", xor(b))));
            }
        } else if outs[i].dbg == "Err(CorruptedSentence)" {
            return bad("right checksum rejected", say(i, s, &outs[i].dbg, "any other result",
                &format!("the XOR of the bytes up to the last '*' is {:02X}", xor(b))));
        } else if c.map(|c| !c.is_empty()).unwrap_or(false) && !b.contains('*') {
            twin_steps[i].text = b.to_string();
            stripped += 1;
        }
    }
    let tw = twin(twin_steps)?;
    for (i, s) in t.steps.iter().enumerate() {
        if outs[i].dbg != tw[i] {
            return bad("checksum changes result", say(i, s, &outs[i].dbg, &tw[i], "same history without right checksums"));
        }
    }
    Ok(stripped > 0 && outs.iter().any(|o| o.dbg == "Err(CorruptedSentence)"))
}

fn c03(t: &Trace) -> Res {
    let outs = main_run(t);
    let mut m = Model::new();
    let mut keep = vec![];
    let mut pending_at_reject = false;
    for (i, s) in t.steps.iter().enumerate() {
        let completing = matches!(m.feed(i, &s.text), Expect::Joined { .. } | Expect::Group(_) | Expect::Pair { .. });
        // also the fragment completing a type 24 half, or a message nothing can be made of
        if outs[i].kind == Kind::Err && !completing {
            if m.pending() > 0 {
                pending_at_reject = true;
            }
            continue;
        }
        keep.push(i);
    }
    let removed = t.steps.len() - keep.len();
    let tw = twin(keep.iter().map(|i| t.steps[*i].clone()).collect())?;
    for (k, i) in keep.iter().enumerate() {
        if outs[*i].dbg != tw[k] {
            return bad("rejected sentence left a trace", say(*i, &t.steps[*i], &outs[*i].dbg, &tw[k],
                &format!("same history without the {} rejected sentences", removed)));
        }
    }
    Ok(removed > 0 && pending_at_reject)
}

// ------------------------------------------------------------------------------------------------
// C04-C08: the reference model.

#[derive(Clone, Copy, PartialEq)]
enum Scope {
    Ais,
    Gsv,
    T24,
}

/// What the crate itself says about complete sentences: texts fed to a new parser, last result.
fn references(list: Vec<(Step, Vec<String>)>) -> Result<Vec<String>, Bad> {
    if list.is_empty() {
        return Ok(vec![]);
    }
    let r = isolated(move || {
        on_thread(move || {
            let mut v = vec![];
            for (s, texts) in list.iter().rev() {
                let mut p = NmeaParser::new();
                let mut last = String::new();
                for x in texts {
                    set_clock(s);
                    last = call(&mut p, x).dbg;
                }
                v.push(last);
            }
            v.reverse();
            v
        })
    });
    match r {
        Isolated::Done(v) => Ok(v),
        Isolated::Died(w) => bad("died", format!("a new parser given complete sentences {}", w)),
    }
}

fn ref_texts(e: &Expect, steps: &[Step], i: usize) -> Option<Vec<String>> {
    match e {
        Expect::Alone => Some(vec![steps[i].text.clone()]),
        Expect::Joined { single, .. } => Some(vec![single.clone()]),
        Expect::Group(v) => Some(v.iter().map(|k| steps[*k].text.clone()).collect()),
        Expect::Pair { a, b, last_is_b, .. } => {
            Some(if *last_is_b { vec![a.clone(), b.clone()] } else { vec![b.clone(), a.clone()] })
        }
        _ => None,
    }
}

fn tally(e: &Expect) {
    match e {
        Expect::Joined { first, second, .. } => {
            count(C::Joined, 1);
            if second < first {
                count(C::JoinedReversed, 1);
            }
        }
        Expect::Group(v) => {
            count(C::Group, 1);
            if v.windows(2).any(|w| w[0] > w[1]) {
                count(C::GroupReversed, 1);
            }
        }
        Expect::Pair { last_is_b, .. } => {
            count(C::Pair, 1);
            if !last_is_b {
                count(C::PairReversed, 1);
            }
        }
        _ => {}
    }
}

fn feed_all(steps: &[Step]) -> (Vec<Expect>, Model, usize) {
    let mut m = Model::new();
    let mut replaced = 0;
    let mut e = vec![];
    for (i, s) in steps.iter().enumerate() {
        let before = m.pending();
        let x = m.feed(i, &s.text);
        if x == Expect::Incomplete && m.pending() == before {
            replaced += 1;
        }
        tally(&x);
        e.push(x);
    }
    count(C::Replaced, replaced);
    count(C::Orphan, m.pending() as u64);
    count(C::PeakPending, m.peak as u64);
    (e, m, replaced as usize)
}

fn in_scope(scope: Scope, e: &Expect, text: &str) -> bool {
    let syn = syntax(text);
    match scope {
        Scope::Ais => match (&syn, e) {
            (_, Expect::Pair { .. }) => false,
            (Syn::Vdm { count: 2, .. }, _) => true,
            (Syn::Vdm { count: 1, payload, .. }, _) => t24_of(payload).is_none(),
            _ => false,
        },
        Scope::Gsv => matches!(syn, Syn::Gsv { .. }),
        Scope::T24 => match (&syn, e) {
            (_, Expect::Pair { .. }) => true,
            // the half was completed by this part, or waits for its own counterpart
            (Syn::Vdm { count: 2, .. }, Expect::Incomplete) => true,
            (Syn::Vdm { count: 1, payload, .. }, _) => t24_of(payload).is_some(),
            _ => false,
        },
    }
}

fn reassembly(t: &Trace, scope: Scope) -> Res {
    let outs = main_run(t);
    let (exp, _, _) = feed_all(&t.steps);
    let mut want: Vec<(usize, Vec<String>)> = vec![];
    for (i, e) in exp.iter().enumerate() {
        if in_scope(scope, e, &t.steps[i].text) {
            if let Some(x) = ref_texts(e, &t.steps, i) {
                want.push((i, x));
            }
        }
    }
    let refs = references(want.iter().map(|(i, x)| (t.steps[*i].clone(), x.clone())).collect())?;
    let by: HashMap<usize, &String> = want.iter().map(|w| w.0).zip(refs.iter()).collect();
    let mut done = false;
    for (i, s) in t.steps.iter().enumerate() {
        if !in_scope(scope, &exp[i], &s.text) {
            continue;
        }
        let got = &outs[i].dbg;
        match &exp[i] {
            Expect::Corrupted => {
                if got != "Err(CorruptedSentence)" {
                    return bad("damage accepted", say(i, s, got, "Err(CorruptedSentence)", "damaged part"));
                }
            }
            Expect::Incomplete => {
                if got != "Incomplete" {
                    let c = if outs[i].kind == Kind::Data { "data where a part is missing" } else { "part not accepted" };
                    return bad(c, say(i, s, got, "Incomplete", "a counterpart is still missing"));
                }
            }
            e => {
                let w = by[&i];
                if got != w {
                    let (c, why) = match e {
                        Expect::Joined { first, second, .. } => (
                            if got == "Incomplete" { "complete message not returned" } else { "message differs" },
                            format!("completes the message of steps {} and {}", first, second),
                        ),
                        Expect::Group(v) => (
                            if got == "Incomplete" { "complete group not returned" } else { "group differs" },
                            format!("completes the group of steps {:?}", v),
                        ),
                        Expect::Pair { ca, cb, .. } => (
                            if got == "Incomplete" { "complete pair not returned" } else { "pair differs" },
                            format!("completes the pair of part A {:?} and part B {:?}", ca, cb),
                        ),
                        _ => ("unfragmented message differs", "complete in itself".into()),
                    };
                    return bad(c, say(i, s, got, w, &why));
                }
                done |= !matches!(e, Expect::Alone);
                truth_of(t, e, i, got)?;
            }
        }
    }
    Ok(done)
}

/// Groups and pairs also against what the stations put in.
fn truth_of(t: &Trace, e: &Expect, i: usize, got: &str) -> Result<(), Bad> {
    let s = &t.steps[i];
    let tr = |k: usize| t.truths.get(t.steps[k].unit as usize);
    match e {
        Expect::Group(v) => {
            let ts: Vec<&Truth> = v.iter().filter_map(|k| tr(*k)).filter(|x| x.kind.starts_with("GSV")).collect();
            if ts.len() == v.len() {
                if let Err(x) = compare::check_group(&ts, got, s) {
                    return bad("group is not what was transmitted", say(i, s, got, &x, &format!("group of steps {:?}", v)));
                }
            }
        }
        Expect::Pair { ca, cb, .. } => {
            let same = |c: &Vec<usize>| c.iter().map(|k| t.steps[*k].unit).collect::<BTreeSet<_>>().len() == 1;
            if same(ca) && same(cb) {
                if let (Some(a), Some(b)) = (tr(ca[0]), tr(cb[0])) {
                    if a.kind == "A" && b.kind == "B" {
                        if let Err(x) = compare::check_pair(a, b, got, s) {
                            return bad("pair is not what was transmitted",
                                say(i, s, got, &x, &format!("part A of step {:?}, part B of step {:?}", ca, cb)));
                        }
                    }
                }
            }
        }
        _ => {}
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------

fn c09(t: &Trace) -> Res {
    let srcs: BTreeSet<u32> = t.steps.iter().map(|s| s.src).collect();
    // the premise: no identity is shared, also none made of parts of different messages
    let mut owner: HashMap<String, u32> = HashMap::new();
    for src in &srcs {
        let mut m = Model::new();
        for (i, s) in t.steps.iter().enumerate().filter(|(_, s)| s.src == *src) {
            if !cs_ok(&s.text) {
                continue;
            }
            let mut keys = vec![];
            match ident(&s.text) {
                Some(Ident::Ais(a, b, c)) => keys.push(format!("a{},{},{}", a, b, c)),
                Some(Ident::Gsv(a, _)) => keys.push(format!("g{}", a)),
                Some(Ident::T24(x)) => keys.push(format!("t{}", x)),
                None => {}
            }
            let before: HashSet<u64> = m.t24_keys();
            match m.feed(i, &s.text) {
                Expect::Pair { a, .. } => {
                    if let Some(Ident::T24(x)) = ident(&a) {
                        keys.push(format!("t{}", x));
                    }
                }
                _ => {
                    for x in m.t24_keys().difference(&before) {
                        keys.push(format!("t{}", x));
                    }
                }
            }
            for k in keys {
                if *owner.entry(k).or_insert(*src) != *src {
                    return Ok(false);
                }
            }
        }
    }
    let outs = main_run(t);
    let mut data = 0;
    for src in &srcs {
        let idx: Vec<usize> = (0..t.steps.len()).filter(|i| t.steps[*i].src == *src).collect();
        let alone = twin(idx.iter().map(|i| t.steps[*i].clone()).collect())?;
        for (k, i) in idx.iter().enumerate() {
            if outs[*i].dbg != alone[k] {
                return bad("another source changed the result", say(*i, &t.steps[*i], &outs[*i].dbg, &alone[k],
                    &format!("source {} alone", src)));
            }
        }
        data += idx.iter().any(|i| outs[*i].kind == Kind::Data) as usize;
    }
    Ok(data > 1)
}

fn c10(t: &Trace) -> Res {
    let outs = main_run(t);
    let selfs: Vec<usize> = (0..t.steps.len()).filter(|i| t.steps[*i].tags & SELF != 0).collect();
    let refs = references(selfs.iter().map(|i| (t.steps[*i].clone(), vec![t.steps[*i].text.clone()])).collect())?;
    for (k, i) in selfs.iter().enumerate() {
        if outs[*i].dbg != refs[k] {
            return bad("history changed a self-contained sentence", say(*i, &t.steps[*i], &outs[*i].dbg, &refs[k], "new parser"));
        }
    }
    let rest: Vec<usize> = (0..t.steps.len()).filter(|i| t.steps[*i].tags & SELF == 0).collect();
    let tw = twin(rest.iter().map(|i| t.steps[*i].clone()).collect())?;
    for (k, i) in rest.iter().enumerate() {
        if outs[*i].dbg != tw[k] {
            return bad("self-contained sentence changed a pending message", say(*i, &t.steps[*i], &outs[*i].dbg, &tw[k],
                "same history without self-contained sentences"));
        }
    }
    Ok(!selfs.is_empty() && !rest.is_empty())
}

// ------------------------------------------------------------------------------------------------
// C11

struct Shared {
    parsers: Vec<std::cell::UnsafeCell<Option<NmeaParser>>>,
    outs: Vec<std::cell::UnsafeCell<Option<Out>>>,
    done: Vec<std::sync::atomic::AtomicBool>,
}
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}

fn c11(t: &Trace) -> Res {
    let np = t.steps.iter().map(|s| s.node + 1).max().unwrap_or(0) as usize;
    let nt = (t.envu("threads") as usize).clamp(1, crate::sched::MAXT);
    let mut base: Vec<Option<String>> = vec![None; t.steps.len()];
    for p in 0..np {
        let idx: Vec<usize> = (0..t.steps.len()).filter(|i| t.steps[*i].node == p as u32).collect();
        if idx.is_empty() {
            continue;
        }
        let v = twin(idx.iter().map(|i| t.steps[*i].clone()).collect())?;
        for (k, i) in idx.iter().enumerate() {
            base[*i] = Some(v[k].clone());
        }
    }
    // previous call on the same parser
    let mut prev: Vec<Option<usize>> = vec![];
    let mut last: HashMap<u32, usize> = HashMap::new();
    for (i, s) in t.steps.iter().enumerate() {
        prev.push(last.insert(s.node, i));
    }
    let sh = std::sync::Arc::new(Shared {
        parsers: (0..np).map(|_| std::cell::UnsafeCell::new(None)).collect(),
        outs: t.steps.iter().map(|_| std::cell::UnsafeCell::new(None)).collect(),
        done: t.steps.iter().map(|_| std::sync::atomic::AtomicBool::new(false)).collect(),
    });
    if let Some(s) = t.steps.first() {
        seams::set_clock(s.now, 0);
    }
    count(C::Parsers, np as u64);
    count(C::Threads, nt as u64);
    crate::cov::ON_ACCESS.store(t.envu("access") != 0, SeqCst);
    crate::sched::setup(nt, t.envu("sched"), t.envu("den"), t.envu("hot"), t.envu("glob"), t.switches.clone());
    let mut hs = vec![];
    for tid in 0..nt {
        let ops: Vec<(usize, Step, Option<usize>)> = t.steps.iter().enumerate()
            .filter(|(_, s)| s.src as usize % nt == tid).map(|(i, s)| (i, s.clone(), prev[i])).collect();
        let sh = sh.clone();
        hs.push(std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
            crate::sched::enter(tid);
            for (i, s, before) in ops {
                if let Some(b) = before {
                    while !sh.done[b].load(SeqCst) {
                        crate::sched::blocked();
                    }
                }
                shm::get().step = i as u64;
                let cell = unsafe { &mut *sh.parsers[s.node as usize].get() };
                let p = cell.get_or_insert_with(|| {
                    let (r, _) = seams::in_call(NmeaParser::new);
                    r.unwrap_or_else(|_| NmeaParser::new())
                });
                // handing over a parser moves it
                let o = if i % 3 == 0 {
                    let mut q = cell.take().expect("parser");
                    let o = call(&mut q, &s.text);
                    *cell = Some(q);
                    o
                } else {
                    call(p, &s.text)
                };
                unsafe { *sh.outs[i].get() = Some(o) };
                sh.done[i].store(true, SeqCst);
                crate::sched::unblocked();
                crate::sched::boundary();
            }
            crate::sched::leave();
        }).expect("spawn"));
    }
    crate::sched::run();
    for h in hs {
        let _ = h.join();
    }
    crate::sched::off();
    count(C::Preempt, crate::sched::SWITCHES.load(Relaxed));
    count(C::PreemptInCall, crate::sched::INNER.load(Relaxed));
    count(C::FutexBlock, crate::sched::BLOCKS.load(Relaxed));
    let mut outs = vec![];
    for c in sh.outs.iter() {
        outs.push(unsafe { (*c.get()).clone() }.unwrap_or(Out { kind: Kind::Panic, dbg: "call never made".into(), work: Default::default() }));
    }
    sign(&t.steps.iter().collect::<Vec<_>>(), &outs);
    let s = shm::get();
    for i in 0..s.nswitch as usize {
        let mut x = s.sig ^ s.switches[i].0.wrapping_mul(31) ^ s.switches[i].1 as u64;
        s.sig = splitmix(&mut x);
    }
    for (i, o) in outs.iter().enumerate() {
        let w = base[i].clone().unwrap_or_default();
        if o.dbg != w {
            return bad(if o.kind == Kind::Panic { "panic under concurrency" } else { "concurrent use changed a result" },
                say(i, &t.steps[i], &o.dbg, &w, &format!("parser {} alone on one thread", t.steps[i].node)));
        }
    }
    Ok(crate::sched::INNER.load(Relaxed) > 0 && outs.iter().any(|o| o.kind == Kind::Data))
}

// ------------------------------------------------------------------------------------------------

/// Environment variables a deployment may set.
fn environment(vars: u64) {
    const V: [(&str, &[&str]); 12] = [
        ("RUST_LOG", &["debug", "trace", "nmea_parser=debug", "error"]), ("LANG", &["de_DE.UTF-8", "tr_TR.UTF-8", "C", "ja_JP.eucJP"]),
        ("LC_ALL", &["de_DE.UTF-8", "tr_TR.UTF-8", "C", "POSIX"]), ("LC_NUMERIC", &["de_DE.UTF-8", "fr_FR"]), ("RUST_BACKTRACE", &["1", "full"]),
        ("HOME", &["/nonexistent", ""]), ("USER", &["nobody", "root"]), ("PATH", &["", "/nonexistent"]), ("TMPDIR", &["/nonexistent"]),
        ("HOSTNAME", &["a", "b"]), ("DEBUG", &["1"]), ("NMEA_PARSER_DEBUG", &["1"]),
    ];
    if vars == 0 {
        return;
    }
    let mut r = Rng::new(vars);
    for (k, v) in V.iter() {
        if r.chance(1, 2) {
            std::env::set_var(k, r.pickc(v));
        }
    }
    if r.chance(1, 2) {
        let _ = std::env::set_current_dir(r.pickc(&["/", "/proc", "/dev"]));
    }
    set_tz(&std::env::var("TZ").unwrap_or_default());
}

/// Runs at another stack depth and after other allocations.
fn placed<R>(seed: u64, f: impl FnOnce() -> R) -> R {
    if seed == 0 {
        return f();
    }
    #[inline(never)]
    fn deeper<R>(n: usize, f: impl FnOnce() -> R) -> R {
        let mut pad = [0u8; 1024];
        std::hint::black_box(&mut pad);
        let f: Box<dyn FnOnce() -> R + '_> = Box::new(f);
        let r = if n == 0 { f() } else { go(n - 1, f) };
        std::hint::black_box(&mut pad);
        r
    }
    #[inline(never)]
    fn go<R>(n: usize, f: Box<dyn FnOnce() -> R + '_>) -> R {
        let mut pad = [0u8; 1024];
        std::hint::black_box(&mut pad);
        let r = if n == 0 { f() } else { go(n - 1, f) };
        std::hint::black_box(&mut pad);
        r
    }
    let mut r = Rng::new(seed);
    for _ in 0..r.usize(40) {
        std::mem::forget(Vec::<u8>::with_capacity(1 + r.usize(300)));
    }
    deeper(r.usize(400), f)
}

fn on_named_thread<R: Send + 'static>(name: &str, f: impl FnOnce() -> R + Send + 'static) -> R {
    std::thread::Builder::new().name(name.into()).stack_size(16 << 20).spawn(f).expect("spawn").join().unwrap_or_else(|_| panic!("harness thread panicked"))
}

fn c12(t: &Trace) -> Res {
    let outs = main_run(t);
    let mut n = 0;
    for v in 0..t.envu("variants") {
        let p = format!("v{}", v);
        let (hash, tz, lg, th) =
            (t.envu(&format!("{}hash", p)), t.envs(&format!("{}tz", p)).to_string(), t.envs(&format!("{}log", p)).to_string(),
            t.envu(&format!("{}thread", p)));
        let (vars, place, filter) = (t.envu(&format!("{}vars", p)), t.envu(&format!("{}place", p)), t.envu(&format!("{}filter", p)) != 0);
        count(C::HashSeeds, 1);
        count(C::TimeZones, (tz != t.envs("tz")) as u64);
        count(C::LogLevels, (lg != t.envs("log")) as u64);
        count(C::ThreadChange, th);
        count(C::Twin, 1);
        let steps = t.steps.clone();
        let (tz2, lg2) = (tz.clone(), lg.clone());
        let r = isolated(move || {
            seams::set_hash_seed(hash);
            set_tz(&tz2);
            set_log(&lg2);
            environment(vars);
            seams::LOG_FILTER.store(filter, SeqCst);
            let go = move || placed(place, move || run_steps(steps.iter()).into_iter().map(|o| o.dbg).collect::<Vec<_>>());
            match th {
                0 => go(),
                1 => on_thread(go),
                3 => on_named_thread("main", go),
                _ => on_thread(move || on_thread(go)),
            }
        });
        let v = match r {
            Isolated::Done(v) => v,
            Isolated::Died(w) => return bad("died", format!("a variant execution {}", w)),
        };
        for (i, s) in t.steps.iter().enumerate() {
            if outs[i].dbg != v[i] {
                return bad("result depends on the environment", say(i, s, &v[i], &outs[i].dbg,
                    &format!("hash seed {}, TZ {}, log level {}, thread {}, variables {}, placement {}, logger filter {} against hash seed {}, TZ {}, log level {}", hash, tz, lg, th, vars, place, filter,
                        t.envs("hash"), t.envs("tz"), t.envs("log"))));
            }
        }
        n += 1;
    }
    Ok(n > 0 && outs.iter().any(|o| o.kind == Kind::Data))
}

// ------------------------------------------------------------------------------------------------
// C13

fn c13(t: &Trace) -> Res {
    let steps = t.steps.clone();
    let (exp, _, _) = feed_all(&t.steps);
    let _ = exp;
    let r = on_thread(move || -> Result<(Vec<Out>, bool), Bad> {
        // What the process keeps once and for all (caches of the libraries) is no parser's memory.
        let counters = shm::get().counters;
        let every: Vec<Step> = (0..12).flat_map(|k| crate::gen::generate("C20", 271_828, k, false).steps)
            .chain((0..6).flat_map(|k| crate::gen::generate("C15", 271_828, k, false).steps)).collect();
        shm::get().counters = counters;
        let warm: Vec<Step> = {
            let mut v: Vec<Step> = every.clone();
            for (i, s) in steps.iter().enumerate() {
                if i < 150 || i % 29 == 0 {
                    v.push(s.clone());
                }
            }
            v
        };
        {
            let mut p = match seams::in_call(NmeaParser::new).0 {
                Ok(p) => p,
                Err(_) => return bad("panic", "NmeaParser::new".into()),
            };
            for s in &warm {
                set_clock(s);
                let _ = call(&mut p, &s.text);
            }
            let _ = seams::in_call(|| drop(p));
        }
        // What a parser sets up on the first sentence of a kind is no growth either: one sentence of each kind.
        let setup = {
            let mut kinds: HashSet<String> = HashSet::new();
            let mut p = match seams::in_call(NmeaParser::new).0 {
                Ok(p) => p,
                Err(_) => return bad("panic", "NmeaParser::new".into()),
            };
            let n0 = seams::net_bytes();
            for s in every.iter().chain(&steps) {
                let f: Vec<&str> = s.text.split(',').collect();
                let ty: String = f[0].chars().rev().take(3).collect();
                let k = format!("{} {}", ty, if ty.starts_with('M') { f.get(5).and_then(|x| x.chars().next()).unwrap_or(' ') } else { ' ' });
                if kinds.len() < 60 && kinds.insert(k) {
                    set_clock(s);
                    let _ = call(&mut p, &s.text);
                }
            }
            let n = seams::net_bytes() - n0;
            let _ = seams::in_call(|| drop(p));
            n.max(0)
        };
        let before = seams::net_bytes();
        let mut p = match seams::in_call(NmeaParser::new).0 {
            Ok(p) => p,
            Err(_) => return bad("panic", "NmeaParser::new".into()),
        };
        // what a new parser takes is not retained by parsing
        let n0 = seams::net_bytes();
        let mut m = Model::new();
        let mut outs = vec![];
        let mut worst = 0i64;
        let longest = steps.iter().map(|s| s.text.len()).max().unwrap_or(0) as i64;
        // peak of simultaneously waiting parts so far -> retained memory allowed
        for (i, s) in steps.iter().enumerate() {
            shm::get().step = i as u64;
            set_clock(s);
            outs.push(call(&mut p, &s.text));
            m.feed(i, &s.text);
            let net = seams::net_bytes() - n0;
            worst = worst.max(net);
            let bound = 20_000 + setup + m.peak as i64 * (1500 + 2 * longest);
            if net > bound {
                return bad("retained memory grows", format!(
                    "after {} sentences the parser retains {} bytes; at most {} parts have been waiting at one time ({} now), allowed {} bytes; \
                     last sentence {:?}", i + 1, net, m.peak, m.pending(), bound, s.text));
            }
        }
        let kept = seams::net_bytes() - n0;
        let _ = seams::in_call(|| drop(p));
        let left = seams::net_bytes() - before;
        if left > 4096 {
            return bad("memory not released on drop", format!("{} of {} retained bytes are still allocated after dropping the parser", left, kept));
        }
        Ok((outs, worst > 0 && m.peak > 0))
    });
    match r {
        Ok((outs, nt)) => {
            sign(&t.steps.iter().collect::<Vec<_>>(), &outs);
            no_panic(&t.steps, &outs)?;
            Ok(nt)
        }
        Err(b) => Err(b),
    }
}

// ------------------------------------------------------------------------------------------------
// C14

fn median(mut v: Vec<u64>) -> u64 {
    v.sort();
    v[v.len() / 2]
}

fn c14(t: &Trace) -> Res {
    // No sentence here may need more.
    let maxlen = t.steps.iter().map(|s| s.text.len()).max().unwrap_or(0) as u64;
    crate::cov::BUDGET_BLOCKS.store(3_000_000 + maxlen * 20_000, SeqCst);
    seams::BUDGET_CALLS.store(100_000 + maxlen * 200, SeqCst);
    seams::BUDGET_BYTES.store(20_000_000 + maxlen * 50_000, SeqCst);
    seams::BUDGET_MOVED.store(20_000_000 + maxlen * 50_000, SeqCst);
    let steps = t.steps.clone();
    match t.envs("mode") {
        "load" => {
            let outs = main_run(t);
            no_panic(&t.steps, &outs)?;
            let probes: Vec<Step> = t.steps.iter().filter(|s| s.tags & PROBE != 0).cloned().collect();
            let p2 = probes.clone();
            let fresh = on_thread(move || run_steps(p2.iter()));
            let mut by: BTreeMap<u8, (Vec<u64>, Vec<u64>, Vec<u64>, Vec<u64>, usize, Vec<u64>, Vec<u64>)> = BTreeMap::new();
            let mut k = 0;
            for (i, s) in t.steps.iter().enumerate() {
                if s.tags & PROBE == 0 {
                    continue;
                }
                let e = by.entry(s.part).or_default();
                e.0.push(outs[i].work.blocks);
                e.1.push(fresh[k].work.blocks);
                e.2.push(outs[i].work.bytes);
                e.3.push(fresh[k].work.bytes);
                e.5.push(outs[i].work.moved);
                e.6.push(fresh[k].work.moved);
                e.4 = i;
                k += 1;
            }
            for (part, (a, b, c, d, i, e, f)) in by {
                if a.len() < 5 {
                    continue;
                }
                for (what, x, y, slack) in [("basic blocks", median(a), median(b), 1500), ("allocated bytes", median(c), median(d), 6000),
                    ("bytes moved", median(e), median(f), 6000)] {
                    if x > 2 * y + slack {
                        return bad("work grows with history", format!(
                            "sentence kind {} (e.g. step {}: {:?}) takes {} {} after {} sentences and {} in a new parser (medians)",
                            part, i, t.steps[i].text, x, what, t.steps.len(), y));
                    }
                }
            }
            Ok(t.steps.len() > 100)
        }
        _ => {
            // pairs of sentences, each in its own parser; the second has huge numbers or is 8 times as long
            let length = t.envs("mode") == "length";
            let outs = on_thread(move || {
                let mut v = vec![];
                for (i, s) in steps.iter().enumerate() {
                    shm::get().step = i as u64;
                    set_clock(s);
                    let mut p = NmeaParser::new();
                    // a first call, so that one-time initialisation is not counted
                    let _ = call(&mut p, &s.text);
                    let mut p = NmeaParser::new();
                    v.push(call(&mut p, &s.text));
                }
                v
            });
            sign(&t.steps.iter().collect::<Vec<_>>(), &outs);
            no_panic(&t.steps, &outs)?;
            let mut n = 0;
            let mut first: HashMap<u32, usize> = HashMap::new();
            for (i, s) in t.steps.iter().enumerate() {
                if s.part == 1 {
                    first.insert(s.unit, i);
                    continue;
                }
                let j = match first.get(&s.unit) {
                    Some(j) => *j,
                    None => continue,
                };
                n += 1;
                let (a, b) = (outs[j].work, outs[i].work);
                let f = if length { 24 } else { 2 };
                for (what, x, y, slack) in [("basic blocks", b.blocks, a.blocks, 1000), ("allocations", b.calls, a.calls, 40),
                    ("allocated bytes", b.bytes, a.bytes, 4000), ("bytes moved", b.moved, a.moved, 8000)] {
                    if x > f * y + slack {
                        let cut = |s: &str| s.chars().take(120).collect::<String>();
                        return bad(if length { "work grows faster than the sentence" } else { "work grows with a number" }, format!(
                            "{} {} for {:?} (length {}) and {} for {:?} (length {})", y, what, cut(&t.steps[j].text), t.steps[j].text.len(), x,
                            cut(&s.text), s.text.len()));
                    }
                }
            }
            Ok(n > 0)
        }
    }
}

// ------------------------------------------------------------------------------------------------
// C15-C17

fn clock(t: &Trace, kinds: &[&str], field: &str) -> Res {
    let outs = main_run(t);
    // histories that differ in what the clock shows (to the second) or does are different ones
    let mut h = shm::get().sig;
    for s in &t.steps {
        let mut x = h ^ (s.now.div_euclid(1_000_000) as u64).wrapping_mul(0x1_0001) ^ ((s.tick as u64) << 50);
        h = splitmix(&mut x);
    }
    shm::get().sig = h;
    let (exp, _, _) = feed_all(&t.steps);
    let mut n = 0;
    for (i, s) in t.steps.iter().enumerate() {
        let tr = match t.truths.get(s.unit as usize) {
            Some(x) if kinds.contains(&x.kind.as_str()) => x,
            _ => continue,
        };
        match &exp[i] {
            Expect::Alone => {}
            Expect::Joined { first, second, .. } if t.steps[*first].unit == t.steps[*second].unit => {}
            _ => continue,
        }
        n += 1;
        if let Err(e) = compare::check(tr, &outs[i].dbg, s, Some(&[field])) {
            return bad("date differs", say(i, s, &outs[i].dbg, &e,
                &format!("clock {} + {} us per reading", show_clock(s.now), s.tick)));
        }
    }
    Ok(n > 0)
}

pub fn show_clock(us: i64) -> String {
    let (y, m, d) = civil(us.div_euclid(DAY_US));
    let r = us.rem_euclid(DAY_US);
    format!("{:04}-{:02}-{:02} {:02}:{:02}:{:02}.{:06}", y, m, d, r / 3_600_000_000, r / 60_000_000 % 60, r / 1_000_000 % 60, r % 1_000_000)
}

// ------------------------------------------------------------------------------------------------
// C18

fn c18(t: &Trace, listed: &dyn Fn(&str) -> bool) -> Res {
    let outs = main_run(t);
    let (exp, _, _) = feed_all(&t.steps);
    // steps of each identity
    let mut by: BTreeMap<Ident, Vec<usize>> = BTreeMap::new();
    for (i, s) in t.steps.iter().enumerate() {
        if !cs_ok(&s.text) {
            continue;
        }
        if let Some(id) = ident(&s.text) {
            by.entry(id).or_default().push(i);
        }
    }
    let mut nontrivial = false;
    for (id, st) in by {
        let n = match &id {
            Ident::Ais(..) | Ident::T24(_) => 2,
            Ident::Gsv(_, n) => *n as usize,
        };
        // the longest suffix made of complete transmissions in order
        let mut start = st.len();
        while start >= n {
            let w = &st[start - n..start];
            let whole = w.iter().enumerate().all(|(k, i)| {
                t.steps[*i].part as usize == k + 1 && t.steps[*i].src == t.steps[w[0]].src
            });
            if !whole {
                break;
            }
            start -= n;
        }
        let clean = (st.len() - start) / n;
        if clean < 2 {
            continue;
        }
        // what waited when the clean phase began
        let mut m = Model::new();
        for i in 0..st[start] {
            m.feed(i, &t.steps[i].text);
        }
        let last_waits = match &id {
            Ident::Ais(..) => m.waiting_ais(&id).map(|w| w.0 == 2).unwrap_or(false),
            Ident::Gsv(_, n) => m.waiting_gsv(&id).iter().any(|w| w.0 == *n),
            Ident::T24(x) => m.waiting_t24(*x).map(|w| w.0).unwrap_or(false),
        };
        let any_waits = match &id {
            Ident::Ais(..) => m.waiting_ais(&id).is_some(),
            Ident::Gsv(..) => !m.waiting_gsv(&id).is_empty(),
            Ident::T24(x) => m.waiting_t24(*x).is_some(),
        };
        if any_waits {
            count(C::Leftover, 1);
            nontrivial = true;
        }
        let kf = match &id {
            Ident::Ais(..) => "leftover-last-ais-part",
            Ident::Gsv(..) => "leftover-last-gsv-sentence",
            Ident::T24(_) => "leftover-type24-part-b",
        };
        for k in 1..clean {
            let w = &st[start + k * n..start + (k + 1) * n];
            let list: Vec<(Step, Vec<String>)> = {
                let i = w[n - 1];
                let texts = match &id {
                    Ident::Ais(..) => {
                        let mut m = Model::new();
                        let mut x = vec![];
                        for j in w {
                            if let Expect::Joined { single, .. } = m.feed(*j, &t.steps[*j].text) {
                                x = vec![single];
                            }
                        }
                        x
                    }
                    _ => w.iter().map(|j| t.steps[*j].text.clone()).collect(),
                };
                vec![(t.steps[i].clone(), texts)]
            };
            let want = references(list)?.remove(0);
            for (j, i) in w.iter().enumerate() {
                let expect = if j + 1 == n { want.as_str() } else { "Incomplete" };
                if outs[*i].dbg == expect {
                    continue;
                }
                if last_waits && listed(kf) {
                    // exactly what the listed finding predicts, nothing else
                    let pred = match ref_texts(&exp[*i], &t.steps, *i) {
                        Some(x) => references(vec![(t.steps[*i].clone(), x)])?.remove(0),
                        None => "Incomplete".into(),
                    };
                    if outs[*i].dbg == pred {
                        count(C::Excused, 1);
                        continue;
                    }
                }
                return bad(&format!("no recovery{}", if last_waits { format!(" ({})", kf) } else { String::new() }),
                    say(*i, &t.steps[*i], &outs[*i].dbg, expect,
                    &format!("complete in-order transmission number {} of {:?} since the channel works again", k + 1, id)));
            }
        }
    }
    Ok(nontrivial)
}

// ------------------------------------------------------------------------------------------------
// C19

fn c19(t: &Trace) -> Res {
    // Segments between restarts; `part` 1 = continue on another thread.
    let mut segs: Vec<(usize, usize, bool, bool)> = vec![];
    let mut from = 0;
    let (mut thread, mut keep) = (false, false);
    for (i, s) in t.steps.iter().enumerate() {
        if s.tags & RESTART != 0 {
            segs.push((from, i, thread, keep));
            from = i + 1;
            thread = s.part == 1;
            keep = s.tags & KEEP != 0;
        }
    }
    segs.push((from, t.steps.len(), thread, keep));
    let steps = std::sync::Arc::new(t.steps.clone());
    let run = {
        let (segs, steps) = (segs.clone(), steps.clone());
        move || -> Vec<Out> {
            let mut outs: Vec<Out> = vec![];
            let mut kept: Vec<NmeaParser> = vec![];
            let mut cur = NmeaParser::new();
            let mut pending_at_restart = 0u64;
            for (k, (a, b, thread, keep)) in segs.into_iter().enumerate() {
                if k > 0 {
                    let old = std::mem::replace(&mut cur, NmeaParser::new());
                    if keep {
                        kept.push(old);
                    }
                    outs.push(Out { kind: Kind::Incomplete, dbg: "restart".into(), work: Default::default() });
                }
                if thread {
                    let st = steps.clone();
                    let r = on_thread(move || {
                        let mut p = NmeaParser::new();
                        let v: Vec<Out> = (a..b).map(|i| {
                            set_clock(&st[i]);
                            shm::get().step = i as u64;
                            call(&mut p, &st[i].text)
                        }).collect();
                        (p, v)
                    });
                    cur = r.0;
                    outs.extend(r.1);
                } else {
                    for i in a..b {
                        set_clock(&steps[i]);
                        shm::get().step = i as u64;
                        outs.push(call(&mut cur, &steps[i].text));
                    }
                }
                pending_at_restart += 1;
            }
            let _ = pending_at_restart;
            outs
        }
    };
    let outs = on_thread(run);
    sign(&t.steps.iter().collect::<Vec<_>>(), &outs);
    let mut pend = false;
    for (k, (a, b, ..)) in segs.iter().enumerate() {
        if k > 0 {
            let mut m = Model::new();
            for i in segs[k - 1].0..segs[k - 1].1 {
                m.feed(i, &t.steps[i].text);
            }
            pend |= m.pending() > 0;
        }
        let alone = twin(t.steps[*a..*b].to_vec())?;
        for i in *a..*b {
            if outs[i].dbg != alone[i - a] {
                return bad("state survived a restart", say(i, &t.steps[i], &outs[i].dbg, &alone[i - a],
                    "a process that started at the restart"));
            }
        }
        // messages wholly after the restart are returned exactly
        let seg = &t.steps[*a..*b];
        let mut m = Model::new();
        let mut list = vec![];
        let mut at = vec![];
        for (i, s) in seg.iter().enumerate() {
            let e = m.feed(i, &s.text);
            if let (Expect::Joined { .. } | Expect::Group(_) | Expect::Pair { .. }, Some(x)) = (&e, ref_texts(&e, seg, i)) {
                list.push((s.clone(), x));
                at.push(a + i);
            }
        }
        let refs = references(list)?;
        for (r, i) in refs.iter().zip(at) {
            if outs[i].dbg != *r {
                return bad("message after the restart differs", say(i, &t.steps[i], &outs[i].dbg, r, "all parts arrived after the restart"));
            }
        }
    }
    Ok(segs.len() > 1 && pend)
}

// ------------------------------------------------------------------------------------------------
// C20

fn c20(t: &Trace, listed: &dyn Fn(&str) -> bool) -> Res {
    // The premise: an identity is not used for another message while one of its parts still waits.
    let mut m = Model::new();
    let mut steps: Vec<Step> = vec![];
    let mut kept: Vec<Step> = vec![];
    for s in &t.steps {
        if cs_ok(&s.text) {
            if let Some(id) = ident(&s.text) {
                let waits: Vec<usize> = match &id {
                    Ident::Ais(..) => m.waiting_ais(&id).map(|w| vec![w.1]).unwrap_or_default(),
                    Ident::Gsv(..) => m.waiting_gsv(&id).into_iter().map(|w| w.1).collect(),
                    Ident::T24(x) => m.waiting_t24(*x).map(|w| w.1).unwrap_or_default(),
                };
                if waits.iter().any(|k| kept[*k].src != s.src) {
                    continue;
                }
            }
        }
        m.feed(kept.len(), &s.text);
        kept.push(s.clone());
        steps.push(s.clone());
    }
    let outs = main_run_of(steps.clone());
    let t2 = Trace { steps: steps.clone(), truths: t.truths.clone(), ..Default::default() };
    let (exp, _, _) = feed_all(&steps);
    let mut n = 0;
    for (i, s) in steps.iter().enumerate() {
        let got = &outs[i].dbg;
        match &exp[i] {
            Expect::Corrupted => {
                if got != "Err(CorruptedSentence)" {
                    return bad("damage accepted", say(i, s, got, "Err(CorruptedSentence)", "damaged on the way"));
                }
            }
            Expect::Incomplete => {
                if got != "Incomplete" {
                    return bad("not what was transmitted", say(i, s, got, "Incomplete", "a part is still missing"));
                }
            }
            Expect::Alone | Expect::Joined { .. } => {
                let tr = match t.truths.get(s.unit as usize) {
                    Some(x) if s.tags & DAMAGED == 0 => x,
                    _ => continue,
                };
                if let Expect::Joined { first, second, .. } = &exp[i] {
                    if steps[*first].unit != steps[*second].unit {
                        continue;
                    }
                }
                if let Err(e) = compare::check(tr, got, s, None) {
                    if tr.f.iter().any(|f| f.0.starts_with("kf.")) && listed("type27-fields") {
                        let mut k = tr.clone();
                        for (a, v) in &tr.f {
                            if let Some(x) = a.strip_prefix("kf.") {
                                k.f.retain(|f| f.0 != x);
                                k.f.push((x.to_string(), v.clone()));
                            }
                        }
                        if compare::check(&k, got, s, None).is_ok() {
                            count(C::Excused, 1);
                            continue;
                        }
                    }
                    return bad("not what was transmitted", say(i, s, got, &e, &format!("clock {}", show_clock(s.now))));
                }
                n += 1;
            }
            e => {
                truth_of(&t2, e, i, got)?;
                n += 1;
            }
        }
    }
    accessors(&steps, &t.truths)?;
    Ok(n > 0)
}

/// Position accessors and the vessel's country agree with the returned fields and the MMSI.
fn accessors(steps: &[Step], truths: &[Truth]) -> Result<(), Bad> {
    use nmea_parser::{LatLon, ParsedSentence::*};
    let steps = steps.to_vec();
    let truths = truths.to_vec();
    on_thread(move || {
        let mut p = NmeaParser::new();
        for (i, s) in steps.iter().enumerate() {
            set_clock(s);
            let mut err: Option<String> = None;
            let tr = truths.get(s.unit as usize);
            let o = call_with(&mut p, &s.text, |r| {
                let pos: Option<(Option<f64>, Option<f64>, Option<f64>, Option<f64>)> = match r {
                    VesselDynamicData(d) => Some((d.latitude(), d.longitude(), d.latitude, d.longitude)),
                    BaseStationReport(d) => Some((d.latitude(), d.longitude(), d.latitude, d.longitude)),
                    StandardSarAircraftPositionReport(d) => Some((d.latitude(), d.longitude(), d.latitude, d.longitude)),
                    AidToNavigationReport(d) => Some((d.latitude(), d.longitude(), d.latitude, d.longitude)),
                    Gga(d) => Some((d.latitude(), d.longitude(), d.latitude, d.longitude)),
                    Gll(d) => Some((d.latitude(), d.longitude(), d.latitude, d.longitude)),
                    Rmc(d) => Some((d.latitude(), d.longitude(), d.latitude, d.longitude)),
                    _ => None,
                };
                if let Some((a, b, c, d)) = pos {
                    if a != c || b != d {
                        err = Some(format!("position accessors say {:?} {:?}, fields {:?} {:?}", a, b, c, d));
                    }
                }
                if let VesselStaticData(d) = r {
                    if let Some(Val::S(m)) = tr.and_then(|t| t.f.iter().find(|f| f.0 == "mmsi")).map(|f| &f.1) {
                        if let Ok(x) = m[0].parse::<u32>() {
                            if d.mmsi == x {
                                let want = crate::truth::MIDS.iter().find(|c| c.0 == x / 1_000_000).map(|c| c.1);
                                if d.country() != want {
                                    err = Some(format!("country of MMSI {} is {:?}, assigned to {:?}", x, d.country(), want));
                                }
                            }
                        }
                    }
                }
            });
            if let Some(e) = err {
                return bad("not what was transmitted", say(i, s, &o.dbg, &e, "accessor"));
            }
        }
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------------
// C21

fn c21(t: &Trace) -> Res {
    let outs = main_run(t);
    let dated = |d: &str| {
        if d.starts_with("Ok(Gga") || d.starts_with("Ok(Gll") || d.starts_with("Ok(Rmc") {
            blank(d, &["timestamp"])
        } else if d.starts_with("Ok(VesselStaticData") {
            blank(d, &["eta"])
        } else {
            d.to_string()
        }
    };
    let mut r = Rng::new(t.envu("clock") ^ hash_bytes(b"clock"));
    for k in 0..t.envu("variants") {
        let mut steps = t.steps.clone();
        let mut off = 0i64;
        // each step's clock depends on its own text, so that removing steps keeps the others' clocks
        let seed = r.u64();
        let mode = (t.envu("clock") + 2 * k) % 5;
        let step_at = Rng::new(seed).usize(steps.len().max(1));
        let step_by = *Rng::new(seed ^ 1).pick(&[-1i64, 1, -60, 60, 301, -301, 601, 3_601, -3_601, 7_201, 86_401, -86_401, 604_801, 31 * 86_400, -400 * 86_400]) * 1_000_000;
        for (i, s) in steps.iter_mut().enumerate() {
            let mut x = seed ^ hash_bytes(s.text.as_bytes()) ^ (s.now as u64);
            let v = splitmix(&mut x);
            match mode {
                // years between deliveries, forward and back
                0 => s.now = us(1971 + (v % 200) as i64, 1 + (v >> 8) as i64 % 12, 1 + (v >> 16) as i64 % 28, 0, 0, 0) + (v >> 24) as i64 % DAY_US,
                // always forward, long pauses
                1 => {
                    off += (v % (40 * DAY_US as u64)) as i64;
                    s.now += off;
                }
                // instants at which a number of seconds, days or years is zero or no longer fits
                2 => {
                    let e = [0i64, 0, 1, 86_399, 86_400, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 1_000_000_000, 315_964_800, 951_782_400, 253_000_000_000];
                    s.now = e[(v % e.len() as u64) as usize] * 1_000_000 + [0i64, 0, 1, 999_999][(v >> 8) as usize % 4];
                }
                // one step, the rest as it was
                3 => {
                    if i >= step_at {
                        s.now = (s.now + step_by).max(0);
                    }
                }
                // standing still or moving during calls
                _ => {
                    s.now = us(2023, 12, 31, 23, 59, 59) + 999_999;
                    s.tick = (v % 3) as i64 * 1_000_000 - 1_000_000;
                }
            }
            if i > 0 && s.now < t.steps[i].now {
                count(C::ClockBack, 1);
            } else {
                count(C::ClockForward, 1);
            }
            if s.tick != 0 {
                count(C::TickInCall, 1);
            }
        }
        let v = twin(steps.clone())?;
        for (i, s) in t.steps.iter().enumerate() {
            let (a, b) = (dated(&outs[i].dbg), dated(&v[i]));
            if a != b {
                return bad("clock changed a result", say(i, s, &b, &a, &format!("clock {} instead of {}", show_clock(steps[i].now), show_clock(s.now))));
            }
        }
    }
    Ok(outs.iter().any(|o| o.kind == Kind::Data) && t.steps.len() > 1)
}

/// How cases are made, and what makes one non-trivial.
pub fn rule(p: &str) -> &'static str {
    match p {
        "C01" => "one run = seeded sequence of valid, truncated, mutated, garbage and hostile sentences on one parser under seeded clock, zone, log level; non-trivial = more than one sentence was delivered; distinct = different delivered texts and clocks",
        "C02" => "one run = faulty channel traffic with damaged bytes, with and without checksums, against a twin execution without the right checksums; non-trivial = at least one right checksum was stripped in the twin and at least one damaged sentence arrived",
        "C03" => "one run = interleaved multi-part traffic with rejected sentences among it, against a twin without them; non-trivial = a sentence was rejected while a part was waiting",
        "C04" | "C05" | "C06" => "one run = interleaved two-part AIS messages through lossy, duplicating, reordering, damaging links against the reference model; non-trivial = at least one message was completed from two parts",
        "C07" => "one run = interleaved GSV groups through faulty links against the reference model; non-trivial = at least one group was completed from more than one sentence or a group of one was returned",
        "C08" => "one run = type 24 parts of several vessels through faulty links against the reference model; non-trivial = at least one pair was completed",
        "C09" => "one run = several sources with disjoint identities interleaved on one parser, against each source alone; non-trivial = at least two sources got data returned and no identity was shared",
        "C10" => "one run = self-contained sentences among parts of pending messages, against a new parser and against the history without them; non-trivial = both kinds occur",
        "C11" => "one run = several parsers used from several real threads under the seeded preemptive scheduler (one processor), against each parser alone; non-trivial = a thread was preempted inside a call and data was returned",
        "C12" => "one run = one delivery sequence executed in pristine processes with other hash seeds, time zones, log levels and threads; non-trivial = a variant was executed and data was returned",
        "C13" => "one run = a long stream with heap accounting after every call against the number of waiting parts of the reference model; non-trivial = memory was retained and parts waited",
        "C14" => "one run = probe sentences after a long history against the same in a new parser, or pairs of sentences that differ in a number or in length, measured in basic blocks and allocations; non-trivial = a comparison was made after more than 100 sentences, or a pair was compared",
        "C15" => "one run = GGA and GLL sentences at seeded clock instants, with steps, midnights and the clock moving during the call; non-trivial = at least one timestamp was compared",
        "C16" => "one run = type 5 messages with seeded ETA at seeded clock instants, with steps, year boundaries and the clock moving during the call; non-trivial = at least one ETA was compared",
        "C17" => "one run = RMC sentences with seeded date and time under seeded clocks; non-trivial = at least one timestamp was compared",
        "C18" => "one run = a phase with faults, then complete in-order transmissions under the same identities without faults; non-trivial = a part was left waiting when the faults stopped",
        "C19" => "one run = interleaved traffic cut by restarts at seeded points (old parser dropped or kept, same or another thread), against a process that starts there; non-trivial = a part was waiting at a restart",
        "C20" => "one run = stations transmit known values, interleaved through faulty links; every returned value is compared with what was put in; non-trivial = at least one message was compared field by field",
        "C21" => "one run = one delivery sequence under several other clock histories; non-trivial = data was returned",
        _ => "",
    }
}
