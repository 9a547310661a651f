//! The trace of a run: everything that happens to the system under test. Replay files are traces.

use std::collections::BTreeMap;

// Tags: which fault put this delivery here, and its role.
pub const DUP: u32 = 1;
pub const LATE: u32 = 2; // overtaken by at least one later sentence of its link
pub const DAMAGED: u32 = 4;
pub const INSERTED: u32 = 8; // not transmitted by any source: noise
pub const RESTART: u32 = 16; // not a delivery: the consumer restarts
pub const SELF: u32 = 32; // complete in itself
pub const WARM: u32 = 64;
pub const PROBE: u32 = 128; // a delivery the check looks at in particular
pub const STALLED: u32 = 256;
pub const NOCS: u32 = 512; // sent without a checksum
pub const KEEP: u32 = 1024; // restart that keeps the old parser value alive

#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub node: u32,
    pub src: u32,
    pub unit: u32, // index into truths, u32::MAX if none
    pub part: u8,
    pub tags: u32,
    pub now: i64,
    pub tick: i64,
    pub text: String,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    /// One of these Debug renderings.
    S(Vec<String>),
    /// Number (rendered bare or in Some), compared with a relative tolerance.
    F(f64),
    /// ETA given as month, day, hour, minute.
    Eta(u32, u32, u32, u32),
    /// Time of day.
    Tod(u32, u32, u32),
    /// Day, month, two-digit year, hour, minute, second.
    Dmy(u32, u32, u32, u32, u32, u32),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Truth {
    pub kind: String,
    pub f: Vec<(String, Val)>,
}

#[derive(Clone, Debug, Default)]
pub struct Trace {
    pub prop: String,
    pub env: BTreeMap<String, String>,
    pub steps: Vec<Step>,
    pub truths: Vec<Truth>,
    pub switches: Option<Vec<(u64, u32)>>,
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '%' => o.push_str("%25;"),
            ' '..='~' => o.push(c),
            c => o.push_str(&format!("%{:x};", c as u32)),
        }
    }
    o
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '%' {
            let mut h = String::new();
            for d in it.by_ref() {
                if d == ';' {
                    break;
                }
                h.push(d);
            }
            o.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('?'));
        } else {
            o.push(c);
        }
    }
    o
}
fn esc2(s: &str) -> String {
    esc(s).replace(' ', "%20;").replace('|', "%7c;").replace('=', "%3d;")
}

fn val_out(v: &Val) -> String {
    match v {
        Val::S(a) => format!("s:{}", a.iter().map(|x| esc2(x)).collect::<Vec<_>>().join("|")),
        Val::F(f) => format!("f:{:?}", f),
        Val::Eta(a, b, c, d) => format!("e:{}|{}|{}|{}", a, b, c, d),
        Val::Tod(a, b, c) => format!("t:{}|{}|{}", a, b, c),
        Val::Dmy(a, b, c, d, e, f) => format!("d:{}|{}|{}|{}|{}|{}", a, b, c, d, e, f),
    }
}
fn val_in(s: &str) -> Option<Val> {
    let (k, r) = s.split_once(':')?;
    let n: Vec<u32> = if k == "e" || k == "t" || k == "d" {
        r.split('|').filter_map(|x| x.parse().ok()).collect()
    } else {
        vec![]
    };
    Some(match k {
        "s" => Val::S(r.split('|').map(unesc).collect()),
        "f" => Val::F(r.parse().ok()?),
        "e" if n.len() == 4 => Val::Eta(n[0], n[1], n[2], n[3]),
        "t" if n.len() == 3 => Val::Tod(n[0], n[1], n[2]),
        "d" if n.len() == 6 => Val::Dmy(n[0], n[1], n[2], n[3], n[4], n[5]),
        _ => return None,
    })
}

impl Trace {
    pub fn envu(&self, k: &str) -> u64 {
        self.env.get(k).and_then(|s| s.parse().ok()).unwrap_or(0)
    }
    pub fn envs(&self, k: &str) -> &str {
        self.env.get(k).map(|s| s.as_str()).unwrap_or("")
    }
    pub fn set(&mut self, k: &str, v: impl ToString) {
        self.env.insert(k.to_string(), v.to_string());
    }

    pub fn to_text(&self, comments: &[String]) -> String {
        let mut o = String::new();
        o.push_str("nmea-sim-replay 1\n");
        for c in comments {
            for l in c.lines() {
                o.push_str(&format!("# {}\n", esc(l)));
            }
        }
        o.push_str(&format!("property {}\n", self.prop));
        for (k, v) in &self.env {
            o.push_str(&format!("env {} {}\n", k, esc(v)));
        }
        let used: std::collections::BTreeSet<u32> = self.steps.iter().map(|s| s.unit).collect();
        for (i, t) in self.truths.iter().enumerate() {
            if used.contains(&(i as u32)) {
                o.push_str(&format!("truth {} {}", i, esc2(&t.kind)));
                for (k, v) in &t.f {
                    o.push_str(&format!(" {}={}", k, val_out(v)));
                }
                o.push('\n');
            }
        }
        o.push_str("# step node source unit part tags now_us tick_us text\n");
        for s in &self.steps {
            o.push_str(&format!("step {} {} {} {} {} {} {} |{}\n", s.node, s.src, s.unit, s.part, s.tags,
                s.now, s.tick, esc(&s.text)));
        }
        if let Some(sw) = &self.switches {
            o.push_str("# switch preemption-point thread\nswitches\n");
            for (i, t) in sw {
                o.push_str(&format!("switch {} {}\n", i, t));
            }
        }
        o
    }

    pub fn from_text(s: &str) -> Result<Trace, String> {
        let mut t = Trace::default();
        let mut lines = s.lines();
        if lines.next() != Some("nmea-sim-replay 1") {
            return Err("not a replay file".into());
        }
        for l in lines {
            if l.starts_with('#') || l.is_empty() {
                continue;
            }
            let (k, r) = l.split_once(' ').unwrap_or((l, ""));
            let bad = || format!("bad line: {}", l);
            match k {
                "property" => t.prop = r.to_string(),
                "env" => {
                    let (a, b) = r.split_once(' ').unwrap_or((r, ""));
                    t.env.insert(a.to_string(), unesc(b));
                }
                "truth" => {
                    let mut it = r.split(' ');
                    let i: usize = it.next().and_then(|x| x.parse().ok()).ok_or_else(bad)?;
                    let kind = unesc(it.next().ok_or_else(bad)?);
                    let mut f = vec![];
                    for kv in it {
                        let (a, b) = kv.split_once('=').ok_or_else(bad)?;
                        f.push((a.to_string(), val_in(b).ok_or_else(bad)?));
                    }
                    while t.truths.len() <= i {
                        t.truths.push(Truth { kind: String::new(), f: vec![] });
                    }
                    t.truths[i] = Truth { kind, f };
                }
                "step" => {
                    let (h, text) = r.split_once('|').ok_or_else(bad)?;
                    let n: Vec<i64> = h.split_whitespace().filter_map(|x| x.parse().ok()).collect();
                    if n.len() != 7 {
                        return Err(bad());
                    }
                    t.steps.push(Step { node: n[0] as u32, src: n[1] as u32, unit: n[2] as u32, part: n[3] as u8,
                        tags: n[4] as u32, now: n[5], tick: n[6], text: unesc(text) });
                }
                "switches" => t.switches = Some(vec![]),
                "switch" => {
                    let (a, b) = r.split_once(' ').ok_or_else(bad)?;
                    t.switches.get_or_insert_with(Vec::new)
                        .push((a.parse().map_err(|_| bad())?, b.parse().map_err(|_| bad())?));
                }
                _ => return Err(bad()),
            }
        }
        Ok(t)
    }
}
