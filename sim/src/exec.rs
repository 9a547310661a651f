//! Runs steps against the real crate.

use crate::seams::{self, in_call, Work};
use crate::trace::*;
use nmea_parser::{NmeaParser, ParseError, ParsedSentence};
use std::cell::RefCell;

thread_local! {
    static PANIC_AT: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let inc = seams::TLS.with(|t| t.in_call.replace(false));
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        PANIC_AT.with(|p| *p.borrow_mut() = format!("{} ({})", msg, loc));
        if !inc {
            if std::env::var("NMEA_SIM_DEBUG").is_ok() {
                eprintln!("harness panic: {} ({})", msg, loc);
            }
        }
        seams::TLS.with(|t| t.in_call.set(inc));
    }));
}
pub fn last_panic() -> String {
    PANIC_AT.with(|p| p.borrow().clone())
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Data,
    Incomplete,
    Err,
    Panic,
}

#[derive(Clone, Debug)]
pub struct Out {
    pub kind: Kind,
    /// Debug rendering; errors by variant only; panics with their message.
    pub dbg: String,
    pub work: Work,
}

pub fn render(r: &Result<ParsedSentence, ParseError>) -> (Kind, String) {
    match r {
        Ok(ParsedSentence::Incomplete) => (Kind::Incomplete, "Incomplete".into()),
        Ok(_) => (Kind::Data, format!("{:?}", r)),
        Err(ParseError::UnsupportedSentenceType(_)) => (Kind::Err, "Err(UnsupportedSentenceType)".into()),
        Err(ParseError::CorruptedSentence(_)) => (Kind::Err, "Err(CorruptedSentence)".into()),
        Err(ParseError::InvalidSentence(_)) => (Kind::Err, "Err(InvalidSentence)".into()),
        #[allow(unreachable_patterns)]
        Err(_) => (Kind::Err, "Err(other)".into()),
    }
}

pub fn call(p: &mut NmeaParser, text: &str) -> Out {
    call_with(p, text, |_| {})
}

/// Also read every result in all the ways the crate offers.
pub static TOUCH: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn touch(r: &Result<ParsedSentence, ParseError>) -> usize {
    use nmea_parser::{LatLon, ParsedSentence::*};
    fn at(x: &dyn LatLon) -> usize {
        x.latitude().is_some() as usize + x.longitude().is_some() as usize
    }
    let len = |s: String| s.len();
    match r {
        Ok(VesselDynamicData(d)) => {
            at(d) + len(d.station.to_string()) + len(d.ais_type.to_string())
                + d.positioning_system_meta.map(|m| len(m.to_string())).unwrap_or(0)
        }
        Ok(VesselStaticData(d)) => {
            d.country().map(|c| c.len()).unwrap_or(0) + len(d.ais_type.to_string()) + len(d.ship_type.to_string())
                + len(d.cargo_type.to_string()) + d.position_fix_type.map(|m| len(m.to_string())).unwrap_or(0)
        }
        Ok(BaseStationReport(d)) => at(d) + len(d.station.to_string()) + d.position_fix_type.map(|m| len(m.to_string())).unwrap_or(0),
        Ok(StandardSarAircraftPositionReport(d)) => at(d) + len(d.station.to_string()),
        Ok(AidToNavigationReport(d)) => at(d) + len(d.station.to_string()) + d.position_fix_type.map(|m| len(m.to_string())).unwrap_or(0),
        Ok(BinaryAddressedMessage(d)) => len(d.station.to_string()),
        Ok(UtcDateInquiry(d)) => len(d.station.to_string()),
        Ok(Gga(d)) => at(d) + len(d.source.to_string()) + len(d.quality.to_string()),
        Ok(Rmc(d)) => at(d) + len(d.source.to_string()),
        Ok(Gll(d)) => at(d) + len(d.source.to_string()) + d.faa_mode.map(|m| len(m.to_string())).unwrap_or(0),
        Ok(Gsa(d)) => len(d.source.to_string()) + d.mode2_3d.map(|m| len(m.to_string())).unwrap_or(0),
        Ok(Vtg(d)) => len(d.source.to_string()) + d.faa_mode.map(|m| len(m.to_string())).unwrap_or(0),
        Ok(Gsv(v)) => v.iter().map(|d| len(d.source.to_string())).sum(),
        Ok(_) => 0,
        Err(e) => len(e.to_string()) + len(format!("{:?}", e)),
    }
}

pub fn call_with(p: &mut NmeaParser, text: &str, look: impl FnOnce(&ParsedSentence)) -> Out {
    crate::shm::get().calls += 1;
    let (r, work) = in_call(|| p.parse_sentence(text));
    match r {
        Ok(r) => {
            if TOUCH.load(std::sync::atomic::Ordering::Relaxed) {
                if in_call(|| touch(&r.clone()) + (r == r.clone()) as usize).0.is_err() {
                    return Out { kind: Kind::Panic, dbg: format!("PANIC reading the result: {}", last_panic()), work };
                }
            }
            let (kind, dbg) = render(&r);
            if let Ok(v) = &r {
                look(v);
            }
            let _ = in_call(|| drop(r));
            Out { kind, dbg, work }
        }
        Err(_) => Out { kind: Kind::Panic, dbg: format!("PANIC {}", last_panic()), work },
    }
}

pub fn set_clock(s: &Step) {
    seams::set_clock(s.now, s.tick);
}

/// Feeds all steps to one parser per node (restarts replace it). One output per step.
pub fn run_steps<'a>(steps: impl Iterator<Item = &'a Step>) -> Vec<Out> {
    let mut nodes: std::collections::BTreeMap<u32, NmeaParser> = Default::default();
    let mut kept = vec![];
    let mut outs = vec![];
    for (i, s) in steps.enumerate() {
        crate::shm::get().step = i as u64;
        set_clock(s);
        if s.tags & RESTART != 0 {
            let old = nodes.insert(s.node, NmeaParser::new());
            if s.tags & KEEP != 0 {
                kept.push(old);
            }
            outs.push(Out { kind: Kind::Incomplete, dbg: "restart".into(), work: Work::default() });
            continue;
        }
        let p = nodes.entry(s.node).or_insert_with(NmeaParser::new);
        outs.push(call(p, &s.text));
    }
    outs
}

/// Runs `f` on a new thread (new hash keys, new thread-locals).
pub fn on_thread<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> R {
    let h = std::thread::Builder::new().stack_size(16 << 20).spawn(f).expect("spawn");
    match h.join() {
        Ok(r) => r,
        Err(_) => panic!("harness thread panicked"),
    }
}

/// Results of the steps in a pristine copy of this process; None + reason if it died.
pub fn isolated_dbg(steps: Vec<Step>) -> Result<Vec<String>, String> {
    use crate::shm::{isolated, Isolated};
    match isolated(move || on_thread(move || run_steps(steps.iter()).into_iter().map(|o| o.dbg).collect())) {
        Isolated::Done(v) => Ok(v),
        Isolated::Died(w) => Err(w),
    }
}

/// What a new parser returns for one sentence at the step's clock.
pub fn fresh(s: &Step, text: &str) -> Out {
    set_clock(s);
    let mut p = NmeaParser::new();
    call(&mut p, text)
}

/// Removes the named fields from a rendered result.
pub fn blank(dbg: &str, fields: &[&str]) -> String {
    use crate::flat::{parse, show, Node};
    fn go(n: &mut Node, fields: &[&str]) {
        match n {
            Node::Struct(_, v) => {
                v.retain(|(k, _)| !fields.contains(&k.as_str()));
                v.iter_mut().for_each(|(_, n)| go(n, fields));
            }
            Node::Tuple(_, v) | Node::List(v) => v.iter_mut().for_each(|n| go(n, fields)),
            Node::Atom(_) => {}
        }
    }
    if !dbg.starts_with("Ok(") {
        return dbg.to_string();
    }
    match parse(dbg) {
        Some(mut n) => {
            go(&mut n, fields);
            show(&n)
        }
        None => dbg.to_string(),
    }
}
