//! Workloads and fault sequences, one generator per property. Everything is drawn from the run's
//! generator of pseudo-random numbers; the result is a trace.

use crate::nmea::*;
use crate::rng::Rng;
use crate::shm::{count, C};
use crate::trace::*;
use crate::truth::*;
use crate::world::*;
use std::collections::HashSet;

pub const ZONES: [&str; 12] = ["UTC0", "JST-9", "CST6CDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "PST8PDT,M3.2.0,M11.1.0", "XYZ-14", "XYZ+12", "EST5EDT,M3.2.0,M11.1.0", "NZST-12NZDT,M9.5.0,M4.1.0/3",
    "IST-5:30", "ABC-0:00:01", "XYZ+23:59"];

pub fn generate(prop: &str, seed: u64, run: u64, thorough: bool) -> Trace {
    let mut r = Rng::for_run(seed, prop, run);
    let mut t = Trace { prop: prop.to_string(), ..Default::default() };
    t.set("seed", seed);
    t.set("run", run);
    t.set("hash", r.u64() >> 1);
    t.set("tz", r.pickc(&ZONES));
    t.set("log", if r.chance(1, 3) { "trace" } else { "off" });
    let big = if thorough && r.chance(1, 4) { 4 } else { 1 };
    match prop {
        "C01" => c01(&mut r, &mut t, big),
        "C02" => c02(&mut r, &mut t, big),
        "C03" => c03(&mut r, &mut t, big),
        "C04" => c04(&mut r, &mut t, big),
        "C05" => c05(&mut r, &mut t, big),
        "C06" => c06(&mut r, &mut t, big),
        "C07" => c07(&mut r, &mut t, big),
        "C08" => c08(&mut r, &mut t, big),
        "C09" => c09(&mut r, &mut t, big),
        "C10" => c10(&mut r, &mut t, big),
        "C11" => c11(&mut r, &mut t, big),
        "C12" => c12(&mut r, &mut t, big),
        "C13" => c13(&mut r, &mut t, big),
        "C14" => c14(&mut r, &mut t, big),
        "C15" | "C16" | "C17" => clock_world(&mut r, &mut t, prop, big),
        "C18" => c18(&mut r, &mut t, big),
        "C19" => c19(&mut r, &mut t, big),
        "C20" => c20(&mut r, &mut t, big),
        "C21" => c21(&mut r, &mut t, big),
        _ => panic!("unknown property {}", prop),
    }
    if !matches!(prop, "C13" | "C14") {
        worn(&mut r, &mut t);
    }
    t
}

// ------------------------------------------------------------------------------------------------

/// Removes deliveries whose damage the checksum does not reveal: outside the fault model.
fn revealed(v: Vec<Step>) -> Vec<Step> {
    v.into_iter().filter(|s| s.tags & DAMAGED == 0 || !cs_ok(&s.text)).collect()
}

struct World {
    mix: Mix,
    faults: Faults,
    rejects: u64, // 1/100 per delivery
    base: i64,
}

/// A receiver hearing stations of all kinds over a faulty channel.
fn world(r: &mut Rng, n: usize, allow_damage: bool) -> World {
    let mut m = Mix::default();
    let k = 1 + r.usize(6);
    m.ais = colliding_ids(r, k);
    m.gsv = talkers(r, 4);
    m.gnss = talkers(r, 3);
    let k = 1 + r.usize(4);
    m.t24 = near_mmsis(r, k);
    m.mmsis = m.t24.clone();
    m.w = [r.below(11), r.below(5), r.below(8), r.below(8), r.below(4)];
    if m.w.iter().sum::<u64>() == 0 {
        m.w[0] = 1;
    }
    m.n = 1 + r.usize(n);
    m.gap = r.pickc(&[10_000, 100_000, 300_000, 2_000_000]);
    m.part_gap = r.pickc(&[1, 20_000, 200_000, 2_000_000]);
    m.nocs_pct = r.pickc(&[0, 0, 5, 50]);
    m.two_pct = r.pickc(&[100, 100, 60]);
    m.gsv_max = r.pickc(&[3, 5, 9]);
    let mut f = Faults::swarm(r, m.part_gap);
    if allow_damage && r.chance(1, 2) {
        f.damage = r.pickc(&[200, 1000, 3000]);
    }
    World { mix: m, faults: f, rejects: r.pickc(&[0, 5, 20, 50]), base: start_time(r) }
}

fn talkers(r: &mut Rng, max: usize) -> Vec<String> {
    let k = 1 + r.usize(max);
    let mut v: Vec<String> = vec![];
    while v.len() < k {
        let t = r.pick(&SYSTEMS).0.to_string();
        if !v.contains(&t) {
            v.push(t);
        }
    }
    v
}

/// Damage only where the checksum can reveal it.
fn deliver_checked(r: &mut Rng, txs: Vec<Tx>, f: &Faults, base: i64) -> Vec<Step> {
    let (a, b): (Vec<Tx>, Vec<Tx>) = txs.into_iter().partition(|x| x.step.tags & NOCS == 0);
    let mut v = revealed(deliver(r, a, f, base));
    let clean = Faults { damage: 0, ..f.clone() };
    v.extend(deliver(r, b, &clean, base));
    v.sort_by_key(|s| s.now);
    v
}

fn build(r: &mut Rng, w: &World, t: &mut Trace) {
    let txs = w.mix.generate(r, 0, w.base, &mut t.truths);
    let v = deliver_checked(r, txs, &w.faults, w.base);
    t.steps = insert_rejects(r, v, w, &mut t.truths);
    let ty = w.mix.ais.first().map(|x| x.ty.clone()).unwrap_or("!AIVDM".into());
    flood(r, &mut t.steps, &ty, 2);
    passing(r, &mut t.steps);
}

/// Now and then: many parts of messages that are never completed, of identities and vessels nobody
/// else uses. kind 0 = two-part messages, 1 = class B halves, 2 = any.
fn flood(r: &mut Rng, steps: &mut Vec<Step>, ty: &str, kind: u64) {
    if steps.is_empty() {
        return;
    }
    let n = if r.chance(1, 60) {
        r.pickc(&[9u64, 17, 20, 33, 65, 70, 101, 140])
    } else if r.chance(1, 170) {
        r.pickc(&[300u64, 300, 600, 600, 1100, 1100, 2100])
    } else {
        return;
    };
    flood_of(r, steps, ty, kind, n);
}

fn flood_of(r: &mut Rng, steps: &mut Vec<Step>, ty: &str, kind: u64, n: u64) {
    count(C::Flood, 1);
    let at = r.usize(steps.len());
    let now = steps[at].now;
    let kind = if kind == 2 { r.pickc(&[0u64, 1, 2, 2, 3]) } else { kind };
    let mut v = vec![];
    for i in 0..n {
        let text = if kind == 3 || kind == 2 && i % 4 == 3 {
            // satellite groups of a talker nobody else uses; never the last missing sentence
            with_cs(&format!("$7PGSV,{},{},12,01,40,083,46", 3 + i, 1 + i % 2))
        } else if kind == 0 || (kind == 2 && i % 2 == 0) {
            with_cs(&format!("{},2,{},{},A,5{:0>20},0", ty, 1 + i % 2, 7_000_000 + i, i))
        } else {
            let msg = ais(r, 240 + (i % 2) as u32, 1_000_000 + i as u32, now);
            ais_sentences(&msg.bits, &AisId { ty: ty.into(), id: 0, ch: "A".into() }, None, false, true).remove(0)
        };
        let mut s = step(text, u32::MAX, u32::MAX, 0, INSERTED);
        s.now = now;
        v.push(s);
    }
    steps.splice(at..at, v);
}

/// Two-part messages whose parts are equal, empty or begin with one another.
fn alike(r: &mut Rng, id: &AisId) -> Vec<String> {
    let mut b = Bits::default();
    b.u(r.pickc(&[1u64, 5, 6, 18, 21, 8, 0]), 6);
    for _ in 0..r.pickc(&[0u64, 4, 14, 27, 35]) {
        b.u(r.below(64), 6);
    }
    let p = b.armor().0;
    let (x, y) = match r.below(5) {
        0 | 1 => (p.clone(), p.clone()),
        2 => (p.clone(), p[..r.usize(p.len() + 1)].to_string()),
        3 => (p[..r.usize(p.len() + 1)].to_string(), p.clone()),
        _ => (String::new(), String::new()),
    };
    vec![
        with_cs(&format!("{},2,1,{},{},{},0", id.ty, id.id, id.ch, x)),
        with_cs(&format!("{},2,2,{},{},{},0", id.ty, id.id, id.ch, y)),
    ]
}

fn insert_rejects(r: &mut Rng, v: Vec<Step>, w: &World, truths: &mut Vec<Truth>) -> Vec<Step> {
    if w.rejects == 0 {
        return v;
    }
    let mut o = vec![];
    // now and then hardly anything but rejected sentences for a while
    let burst = if r.chance(1, 25) { (r.usize(v.len().max(1)), r.pickc(&[20, 40, 70, 130, 300, 1100]) + r.usize(20)) } else { (usize::MAX, 0) };
    for (i, s) in v.into_iter().enumerate() {
        if i == burst.0 {
            let id = if w.mix.ais.is_empty() { ais_id(r) } else { r.pick(&w.mix.ais).clone() };
            let m = if w.mix.t24.is_empty() { mmsi(r) } else { r.pickc(&w.mix.t24) };
            let some: Vec<String> = (0..1 + r.usize(4)).map(|_| reject(r, truths, &id, m, "GP")).collect();
            for _ in 0..burst.1 {
                let mut x = step(r.pick(&some).clone(), s.src, u32::MAX, 0, INSERTED);
                x.now = s.now;
                count(C::Noise, 1);
                o.push(x);
            }
        }
        if r.chance(w.rejects, 100) {
            let id = if w.mix.ais.is_empty() { ais_id(r) } else { r.pick(&w.mix.ais).clone() };
            let m = if w.mix.t24.is_empty() { mmsi(r) } else { r.pickc(&w.mix.t24) };
            let tk = if w.mix.gsv.is_empty() { "GP".to_string() } else { r.pick(&w.mix.gsv).clone() };
            let text = if r.chance(1, 4) { odd_part(r, &id) } else { reject(r, truths, &id, m, &tk) };
            let mut x = step(text, s.src, u32::MAX, 0, INSERTED);
            x.now = s.now;
            count(C::Noise, 1);
            o.push(x);
        }
        o.push(s);
    }
    o
}

/// Sometimes long pauses between deliveries and steps of the clock.
fn passing(r: &mut Rng, v: &mut [Step]) {
    if r.chance(1, 4) {
        let p = r.pickc(&[1u64, 5, 20]);
        clock_steps(r, v, p, i64::MAX / 4);
    }
}

/// Steps the wall clock at random points; later deliveries keep the offset.
fn clock_steps(r: &mut Rng, v: &mut [Step], p: u64, max: i64) {
    let mut off = 0i64;
    for s in v.iter_mut() {
        if r.chance(p, 100) {
            let d = r.pickc(&[1_000_000i64, 60_000_000, 3_600_000_000, DAY_US, 31 * DAY_US, 366 * DAY_US]).min(max);
            let d = r.below(d as u64) as i64;
            if r.chance(1, 2) {
                off += d;
                count(C::ClockForward, 1);
            } else {
                off -= d;
                count(C::ClockBack, 1);
            }
        }
        s.now += off;
        s.now = s.now.clamp(us(1970, 1, 1, 0, 0, 0), us(9998, 1, 1, 0, 0, 0));
    }
}

// ------------------------------------------------------------------------------------------------
// C01: anything at all.

fn noise_text(r: &mut Rng, w: &World, pool: &[String], truths: &mut Vec<Truth>) -> String {
    let id = if r.chance(1, 2) { r.pick(&w.mix.ais).clone() } else { ais_id(r) };
    let fix = |r: &mut Rng, b: String| match r.below(8) {
        0 => b,
        1 => format!("{}*", b),
        2 => format!("{}*00", b),
        _ => with_cs(&b),
    };
    match r.below(13) {
        10 | 11 | 12 => {
            // a fresh sentence with one or two characters replaced by or moved behind multi-byte ones,
            // or with one number out of any range
            let b = if r.chance(2, 3) {
                let (kind, tk) = (r.pickc(&GNSS_KINDS), r.pick(&SYSTEMS).0);
                if r.chance(1, 5) { gsv_group(r, tk, 1).remove(0).0 } else { gnss(r, kind, tk).0 }
            } else {
                let ty = r.pickc(&AIS_TYPES);
                let m = mmsi(r);
                let msg = ais(r, ty, m, w.base);
                let two = r.chance(1, 2);
                let k = if two { split_at(r, &msg.bits) } else { None };
                let v = ais_sentences(&msg.bits, &id, k, true, false);
                r.pick(&v).clone()
            };
            let mut c: Vec<char> = b.chars().collect();
            for _ in 0..1 + r.below(2) {
                let wide = r.pickc(&['\u{e4}', '\u{b0}', '\u{20ac}', '\u{ff11}', '\u{661}', '\u{1f6a2}', '\u{2212}']);
                match r.below(4) {
                    0 => {
                        let j = r.usize(c.len());
                        c[j] = wide;
                    }
                    3 => {
                        // the length in bytes stays
                        let j = r.usize(c.len());
                        let e = (j + wide.len_utf8()).min(c.len());
                        c.splice(j..e, [wide]);
                    }
                    1 => {
                        let j = r.usize(c.len() + 1);
                        c.insert(j, wide);
                    }
                    _ => {
                        let s: String = c.iter().collect();
                        let mut f: Vec<String> = s.split(',').map(|x| x.to_string()).collect();
                        let j = 1 + r.usize(f.len().max(2) - 1);
                        if j < f.len() {
                            f[j] = match r.below(3) {
                                0 => odd_time(r),
                                1 => odd_num(r),
                                _ => odd_real(r),
                            };
                        }
                        c = f.join(",").chars().collect();
                    }
                }
                if c.is_empty() {
                    break;
                }
            }
            fix(r, c.into_iter().collect())
        }
        0 => {
            // arbitrary payload of an arbitrary type and length
            let n = if r.chance(1, 30) { r.below(3000) } else { r.below(90) };
            let ty = r.below(64);
            let mut b = Bits::default();
            b.u(ty, 6);
            let ones = r.below(3);
            for _ in 0..n {
                let v = match ones {
                    0 => r.below(64),
                    1 => 63,
                    _ => 0,
                };
                b.u(v, 6);
            }
            let (p, _) = b.armor();
            let (c, k) = r.pickc(&[("1", "1"), ("1", "1"), ("2", "1"), ("2", "2"), ("3", "1"), ("0", "0"), ("255", "255")]);
            let b = format!("{},{},{},{},{},{},{}", id.ty, c, k, id.id, id.ch, p, r.below(6));
            fix(r, b)
        }
        1 | 2 | 3 => {
            // a well-formed sentence with some fields replaced
            let s = if pool.is_empty() { "$GPGGA,,,,,,,,,,,,,,".to_string() } else { r.pick(pool).clone() };
            let body = split_cs(&s).0.to_string();
            let mut f: Vec<String> = body.split(',').map(|x| x.to_string()).collect();
            for _ in 0..1 + r.below(3) {
                if f.is_empty() {
                    break;
                }
                let i = r.usize(f.len());
                match r.below(6) {
                    0 => f[i] = odd_field(r),
                    1 => f[i] = odd_field(r),
                    2 => {
                        let keep = r.usize(f.len()) + 1;
                        f.truncate(keep);
                    }
                    3 if r.chance(1, 8) => {
                        // more fields than any counter of theirs may hold
                        let n = r.pickc(&[4, 16, 40, 120, 250, 256, 256, 300, 600]) + r.usize(9);
                        let v = if r.chance(2, 3) { String::new() } else { odd_num(r) };
                        let at = if r.chance(1, 2) { f.len() } else { i };
                        f.splice(at..at, vec![v; if r.chance(1, 200) { n + 65_530 } else { n }]);
                    }
                    3 => f.insert(i, odd_field(r)),
                    4 => {
                        f.remove(i);
                    }
                    _ => {
                        let mut c: Vec<char> = f[i].chars().collect();
                        if !c.is_empty() {
                            let j = r.usize(c.len());
                            match r.below(4) {
                                0 => {
                                    c.remove(j);
                                }
                                1 => c[j] = (32 + r.below(95) as u8) as char,
                                2 => c[j] = odd_char(r),
                                _ => c.truncate(j),
                            }
                        }
                        f[i] = c.into_iter().collect();
                    }
                }
            }
            fix(r, f.join(","))
        }
        4 => {
            // sentence type mutilated
            let h = r.pickc(&["$", "!", "", "$G", "!A", "$GP", "!AI", "$GPG", "!AIVD", "$GPGGAA", "!AIVDMM", "$\u{e4}\u{f6}\u{fc}", "!\u{20ac}VDM",
                "$\u{e4}GGA", "$G\u{e4}GA", "!A\u{e4}DM", "\u{1f6a2}", "$GGA", "!VDM", "$P", "!AIVDO"]);
            let b = format!("{}{}{}", h, r.pickc(&["", ",", ",,,,,,,,,,,,,,,,,,,,,"]), odd_field(r));
            fix(r, b)
        }
        5 => {
            // protocol 'not available' and limit values in GNSS sentences
            let tk = r.pick(&SYSTEMS).0;
            let b = match r.below(6) {
                0 => format!("${}GGA,{},{},N,{},E,{},{},{},{},M,{},M,{},{}", tk, odd_time(r), odd_field(r), odd_field(r), r.below(12), odd_field(r),
                    odd_field(r), odd_field(r), odd_field(r), odd_field(r), odd_field(r)),
                1 => format!("${}RMC,{},A,4916.45,N,12311.12,W,{},{},{},{},{}", tk, odd_time(r), if r.chance(1, 2) { odd_real(r) } else { odd_field(r) },
                    if r.chance(1, 2) { odd_real(r) } else { odd_field(r) }, odd_time(r), odd_real(r), r.pickc(&["E", "W", "E", "W", "", "X"])),
                2 => format!("${}GLL,4916.45,N,12311.12,W,{},{},{}", tk, odd_time(r), odd_field(r), odd_field(r)),
                3 => format!("${}GSV,{},{},{},{},{},{},{}", tk, odd_num(r), odd_num(r), odd_num(r), odd_num(r), odd_num(r), odd_num(r), odd_num(r)),
                4 => format!("${}GSA,{},{},{},{},{}", tk, r.pickc(&["A", "M", "", "X"]), odd_num(r), odd_num(r), odd_num(r), odd_field(r)),
                _ => format!("${}VTG,{},T,{},M,{},N,{},K,{}", tk, odd_field(r), odd_field(r), odd_field(r), odd_field(r), odd_field(r)),
            };
            fix(r, b)
        }
        6 => {
            let lim = if r.chance(1, 20) { 5000 } else if r.chance(1, 4) { 300 } else { 40 };
            let n = r.below(lim);
            if r.chance(1, 6) {
                // no delimiter anywhere
                return (0..n).map(|_| odd_char(r)).filter(|c| !matches!(c, ',' | '*')).collect();
            }
            (0..n).map(|_| if r.chance(1, 4) { r.pickc(&[',', '*', '$', '!', '0', '9', '.', '-']) } else { odd_char(r) }).collect()
        }
        7 => {
            // fragment headers at their limits
            let b = format!("{},{},{},{},{},{},0", id.ty, odd_num(r), odd_num(r), odd_num(r), id.ch, odd_field(r));
            fix(r, b)
        }
        8 => {
            // a valid message of any type whose last bits are missing
            let ty = r.pickc(&AIS_TYPES);
            let m = mmsi(r);
            let msg = ais(r, ty, m, w.base);
            let (mut p, _) = msg.bits.armor();
            if r.chance(1, 3) {
                // some of its bits replaced
                let mut c: Vec<char> = p.chars().collect();
                for _ in 0..1 + r.below(3) {
                    let j = r.usize(c.len());
                    let v = if r.chance(1, 3) { r.pickc(&[0, 63, 31, 32]) } else { r.below(64) } as u8;
                    c[j] = (if v < 40 { v + 48 } else { v + 56 }) as char;
                }
                p = c.into_iter().collect();
            } else {
                p.truncate(r.usize(p.len() + 1));
            }
            if r.chance(1, 2) {
                fix(r, format!("{},1,1,,{},{},0", id.ty, id.ch, p))
            } else {
                let k = r.usize(p.len() + 1);
                let n = 1 + r.below(2);
                fix(r, format!("{},2,{},{},{},{},0", id.ty, n, id.id, id.ch, if n == 1 { &p[..k] } else { &p[k..] }))
            }
        }
        _ => {
            let m = mmsi(r);
            if r.chance(1, 3) { odd_part(r, &id) } else { reject(r, truths, &id, m, "GP") }
        }
    }
}

fn odd_char(r: &mut Rng) -> char {
    match r.below(4) {
        0 => r.pickc(&['\u{e4}', '\u{20ac}', '\u{1f6a2}', '\u{0}', '\u{7f}', '\u{80}', '\u{ff}', '\u{660}', '\u{ff11}', '\u{212a}', '\u{130}']),
        _ => (r.below(127) as u8) as char,
    }
}
fn odd_num(r: &mut Rng) -> String {
    r.pickc(&["", "0", "1", "2", "3", "4", "9", "10", "127", "128", "255", "256", "65535", "65536", "2147483647", "2147483648", "4294967295",
        "4294967296", "18446744073709551615", "18446744073709551616", "-1", "-0", "+1", "1.5", "01", "007", "1e3", "x", " 1", "99999999999999999999999",
        "\u{661}"]).to_string()
}
fn odd_time(r: &mut Rng) -> String {
    r.pickc(&["", "0", "12", "123", "1234", "12345", "123456", "240000", "235960", "235959", "000000", "999999", "126099", "-12345", "+1+1+1",
        "320199", "310299", "290200", "290201", "000000", "311299", "010100", "12\u{e4}456", "1\u{20ac}", "\u{20ac}\u{20ac}\u{20ac}\u{20ac}\u{20ac}\u{20ac}",
        "123456.789", "12345678901234567890", "      ", "1 2 3 ", "0x1234", "\u{661}\u{662}\u{663}\u{661}\u{662}\u{663}"]).to_string()
}
fn odd_real(r: &mut Rng) -> String {
    r.pickc(&["", "NaN", "-NaN", "nan", "inf", "-inf", "infinity", "1e400", "-1e400", "1e-400", "1e308", "0.0", "-0.0", "-0.1", ".", ".5", "5.", "--5",
        "359.95", "360.0", "360.1", "-360.0", "9999.999", "99999999999.9", "1e3", "12", "3.4028236e38", "9007199254740993"]).to_string()
}
fn odd_field(r: &mut Rng) -> String {
    match r.below(5) {
        0 => odd_num(r),
        1 => odd_time(r),
        2 => r.pickc(&["", "NaN", "inf", "-inf", "1e400", "-1e-400", "1e308", "0.0", "-0.0", ".", ".5", "5.", "--5", "9999.999", "9060.0", "18060.00",
            "4916.45\u{e4}", "\u{e4}4916.45", "49\u{e4}6.45", "4916.", "4916", "0000.0", "9999999999.9", "N", "S", "E", "W", "A", "V", "D", "x"]).to_string(),
        3 => {
            let n = r.below(6);
            (0..n).map(|_| odd_char(r)).filter(|c| *c != ',').collect()
        }
        _ => {
            let n = r.below(30);
            (0..n).map(|_| (48 + r.below(72) as u8) as char).filter(|c| *c != ',').collect()
        }
    }
}

fn c01(r: &mut Rng, t: &mut Trace, big: usize) {
    let w = world(r, 12 * big, true);
    build(r, &w, t);
    let pool: Vec<String> = t.steps.iter().map(|s| s.text.clone()).collect();
    let mut v = vec![];
    let steps = std::mem::take(&mut t.steps);
    let extra = 1 + r.usize(30 * big);
    let mut at: Vec<usize> = (0..extra).map(|_| r.usize(steps.len() + 1)).collect();
    at.sort();
    let mut k = 0;
    for i in 0..=steps.len() {
        while k < at.len() && at[k] == i {
            let text = noise_text(r, &w, &pool, &mut t.truths);
            let mut s = step(text, 0, u32::MAX, 0, INSERTED);
            s.now = steps.get(i).map(|s| s.now).unwrap_or(w.base);
            count(C::Noise, 1);
            v.push(s);
            k += 1;
        }
        if i < steps.len() {
            v.push(steps[i].clone());
        }
    }
    // undetected damage: the checksum matches the damaged sentence
    for s in v.iter_mut() {
        if r.chance(1, 12) {
            let d = damage(r, split_cs(&s.text).0);
            s.text = with_cs(&d);
            s.tags |= DAMAGED;
            count(C::Damage, 1);
        }
    }
    clock_steps(r, &mut v, 10, i64::MAX / 4);
    edge_clock(r, &mut v);
    t.steps = v;
}

/// Some runs at unusual wall-clock readings, also ones that move during the call.
fn edge_clock(r: &mut Rng, v: &mut [Step]) {
    if r.chance(1, 2) {
        let y = r.pickc(&[1970i64, 1999, 2000, 2027, 2028, 2038, 2099, 2100, 2104, 2262, 4000, 9998]);
        let b = r.pickc(&[us(y, 1, 1, 0, 0, 0), us(y, 12, 31, 23, 59, 59), us(y, 2, 28, 23, 59, 59), us(y, 7, 15, 12, 0, 0)]);
        for (i, s) in v.iter_mut().enumerate() {
            s.now = b + i as i64 * 100_000;
            if leap(y) && r.chance(1, 10) {
                s.now = us(y, 2, 29, 12, 0, 0);
            }
        }
    }
    for s in v.iter_mut() {
        if r.chance(1, 4) {
            s.tick = r.pickc(&[1i64, 500_000, 1_000_000, 3_600_000_000, -1_000_000]);
            if s.now < 10_000_000 && s.tick < 0 {
                s.tick = 1;
            }
            count(C::TickInCall, 1);
        }
    }
}

// ------------------------------------------------------------------------------------------------
// C02: checksums.

fn c02(r: &mut Rng, t: &mut Trace, big: usize) {
    let mut w = world(r, 15 * big, true);
    w.faults.damage = r.pickc(&[1000, 3000, 6000]);
    w.rejects = 0;
    let txs = w.mix.generate(r, 0, w.base, &mut t.truths);
    t.steps = deliver(r, txs, &w.faults, w.base);
    for s in t.steps.iter_mut() {
        if !r.chance(1, 3) {
            continue;
        }
        let (b, _) = split_cs(&s.text);
        if b.contains('*') {
            continue;
        }
        // also sentences longer than the standard's 82 characters, damaged anywhere
        let long;
        let b = if r.chance(1, 10) {
            let n = match r.below(60) {
                0 => 66_000,
                1..=10 => r.below(3000),
                _ => r.below(300),
            };
            let fill = r.pickc(&["0", ",", ",0", "w", " ", "\u{e4}"]);
            long = format!("{}{}", b, fill.repeat(n as usize / fill.len()));
            &long[..]
        } else {
            b
        };
        let x = xor(b);
        if b.len() > 82 && r.chance(1, 2) {
            let at = if r.chance(1, 2) { b.len() - 1 - r.usize(b.len().min(40)) } else { r.usize(b.len()) };
            let mut v = b.as_bytes().to_vec();
            v[at] ^= 1 << r.below(5);
            if let Ok(d) = String::from_utf8(v) {
                if !d.contains('*') {
                    s.text = format!("{}*{:02X}", d, x);
                    s.tags |= DAMAGED;
                    count(C::Damage, 1);
                    continue;
                }
            }
        }
        let c = match r.below(20) {
            18 => r.pickc(&["??", "--", "XX", "xx", "hh", "ZZ", "FF", "ff", "0", "00", "000", "NA", "N/A", "__", "..", "  ", "\0\0", "0000", "FFFF", "01", "7F", "-1", "+0", "None"]).to_string(),
            19 => {
                // one digit in the other case, or right as a number only
                let u = format!("{:02X}", x);
                let l = format!("{:02x}", x);
                match r.below(3) {
                    0 => format!("{}{}", &u[..1], &l[1..]),
                    1 => format!("{}{}", &l[..1], &u[1..]),
                    _ => format!("+{:X}", x),
                }
            }
            0 | 1 => format!("{:02X}", x ^ (1 << r.below(8)) as u8),
            2 => format!("{:02X}", x.wrapping_add(r.below(255) as u8 + 1)),
            3 => format!("{:02x}", x),
            4 => format!("{:X}", x),
            5 => format!("{:03X}", x),
            6 => format!("{:02X}", x.rotate_left(4)),
            7 => format!(" {:02X}", x),
            8 => format!("{:02X}0", x),
            9 => format!("{:X}", x >> 4),
            10 => format!("0x{:02X}", x),
            11 => "00".to_string(),
            12 => format!("{:02}", x),
            13 => odd_field(r),
            14 => format!("{:02X}", xor(&format!("${}", b))), // start character counted in
            // something between, before or behind the right digits
            15 | 16 => {
                let (a, b) = (format!("{:X}", x >> 4), format!("{:X}", x & 15));
                let junk = match r.below(8) {
                    0 => "\r\n".to_string(),
                    1 => "\n".to_string(),
                    2 => "\r".to_string(),
                    3 => format!(",{}", 1_600_000_000 + r.below(400_000_000)),
                    4 => format!(",{}", odd_field(r)),
                    5 => ((r.below(32)) as u8 as char).to_string(),
                    6 => r.pickc(&[";", "\\", "$", "!", "\u{feff}", "\u{a0}", "\u{7f}", "h", "H"]).to_string(),
                    _ => ((32 + r.below(95)) as u8 as char).to_string(),
                };
                match r.below(6) {
                    0 => format!("{}{}{}", junk, a, b),
                    1 => format!("{}{}{}", a, junk, b),
                    _ => format!("{}{}{}", a, b, junk),
                }
            }
            _ => format!("{:02X}", x ^ 0x20),
        };
        let c: String = c.chars().filter(|c| *c != '*').collect();
        s.text = format!("{}*{}", b, c);
        s.tags |= DAMAGED;
        count(C::Damage, 1);
    }
    // correct checksums over unusual content
    let n = r.below(4);
    for _ in 0..n {
        let i = r.usize(t.steps.len() + 1);
        let tk = r.pick(&SYSTEMS).0;
        let body = match r.below(4) {
            0 => format!("${}GGA,120000,,,,,0,\u{e4}{}", tk, odd_field(r)),
            1 => format!("!AIVDM,1,1,,{}\u{20ac},{},0", r.below(3), odd_field(r)),
            2 => format!("${}VTG,{},T,,M,,N,,K", tk, r.below(360)),
            _ => format!("${}{},{}", tk, odd_field(r), odd_field(r)),
        };
        let body: String = body.chars().filter(|c| *c != '*').collect();
        let mut body = body;
        if r.chance(1, 4) {
            // only the last '*' begins the checksum
            let mut at = 1 + r.usize(body.len() - 1);
            while !body.is_char_boundary(at) {
                at -= 1;
            }
            if at > 0 {
                body.insert(at, '*');
            }
        }
        let mut s = step(with_cs(&body), 0, u32::MAX, 0, INSERTED);
        s.now = w.base;
        t.steps.insert(i, s);
    }
    t.steps.retain(|s| s.text.chars().next().map(|c| c.is_ascii()).unwrap_or(true));
}

// ------------------------------------------------------------------------------------------------
// C03: rejected sentences leave no trace.

fn c03(r: &mut Rng, t: &mut Trace, big: usize) {
    let mut w = world(r, 12 * big, true);
    w.rejects = r.pickc(&[30, 60, 100]);
    build(r, &w, t);
    if r.chance(1, 2) {
        // anything at all; what is not rejected stays in both executions
        let pool: Vec<String> = t.steps.iter().take(30).map(|s| s.text.clone()).collect();
        let n = 1 + r.usize(8 * big);
        for _ in 0..n {
            let i = r.usize(t.steps.len() + 1);
            let text = match r.below(3) {
                0 => noise_text(r, &w, &pool, &mut t.truths),
                _ => refused(r),
            };
            let mut x = step(text, 0, u32::MAX, 0, INSERTED);
            x.now = t.steps.get(i).or(t.steps.last()).map_or(w.base, |s| s.now);
            count(C::Noise, 1);
            t.steps.insert(i, x);
        }
    }
}

/// A GNSS sentence most of whose fields are in order; one is not.
fn refused(r: &mut Rng) -> String {
    let (kind, tk) = (r.pickc(&["GGA", "GLL", "RMC", "GSA", "VTG", "GSV"]), r.pick(&SYSTEMS).0);
    let b = if kind == "GSV" { gsv_group(r, tk, 1).remove(0).0 } else { gnss(r, kind, tk).0 };
    let mut f: Vec<String> = b.split(',').map(|x| x.to_string()).collect();
    let j = 1 + r.usize(f.len().max(2) - 1);
    if j < f.len() {
        f[j] = match r.below(4) {
            0 => odd_num(r),
            1 => odd_real(r),
            _ => r.pickc(&["X", "Q", "x1", "1x", "--", "1.2.3", "9", "4", "0", "A", "V", "E", "W", "N", " ", "?", "01.", "-5"]).to_string(),
        };
    }
    with_cs(&f.join(","))
}

// ------------------------------------------------------------------------------------------------
// C04-C06: two-part AIS messages.

fn unique_ids(r: &mut Rng, n: usize) -> Vec<AisId> {
    let k = n.min(24);
    let mut v = colliding_ids(r, k);
    let mut seen: HashSet<AisId> = v.iter().cloned().collect();
    let mut i = 0u64;
    while v.len() < n {
        let mut x = v[r.usize(k.max(1))].clone();
        x.id = i;
        i += 1;
        if seen.insert(x.clone()) {
            v.push(x);
        }
    }
    r.shuffle(&mut v);
    v
}

/// Two-part messages, each identity used once; types without type 24.
fn two_part(r: &mut Rng, ids: &[AisId], base: i64, gap: i64, part_gap: i64, truths: &mut Vec<Truth>) -> Vec<Tx> {
    let mut v = vec![];
    let mut tt = 0i64;
    for (i, id) in ids.iter().enumerate() {
        tt += r.below(1 + 2 * gap as u64) as i64;
        let ty = r.pickc(&[1, 3, 4, 5, 5, 5, 6, 9, 10, 18, 21, 21, 27, 7]);
        let m = mmsi(r);
        let msg = ais(r, ty, m, base + tt);
        let k = match split_at(r, &msg.bits) {
            Some(k) => k,
            None => continue,
        };
        truths.push(ais_truth(&msg, id.talker(), id.own()));
        let u = truths.len() as u32 - 1;
        let mut texts = ais_sentences(&msg.bits, id, Some(k), true, !r.chance(1, 12));
        if r.chance(1, 40) {
            // an empty part
            let all = ais_sentences(&msg.bits, id, None, true, true).remove(0);
            if let Syn::Vdm { payload, .. } = syntax(&all) {
                let e = r.chance(1, 2);
                texts = vec![
                    with_cs(&format!("{},2,1,{},{},{},0", id.ty, id.id, id.ch, if e { "" } else { &payload })),
                    with_cs(&format!("{},2,2,{},{},{},0", id.ty, id.id, id.ch, if e { &payload } else { "" })),
                ];
            }
        }
        let mut u = u;
        if r.chance(1, 25) {
            texts = alike(r, id);
            u = u32::MAX;
        }
        let mut t2 = tt;
        for (p, s) in texts.into_iter().enumerate() {
            if p > 0 {
                t2 += 1 + r.below(1 + part_gap as u64) as i64;
            }
            v.push(Tx { t: t2, step: step(s, i as u32, u, p as u8 + 1, 0) });
        }
    }
    v
}

fn side_traffic(r: &mut Rng, v: &mut Vec<Step>, ids: &[AisId], truths: &mut Vec<Truth>, base: i64) {
    if r.chance(1, 3) {
        return;
    }
    let pct = r.pickc(&[5, 20, 60]);
    let mut o = vec![];
    for s in v.drain(..) {
        if r.chance(pct, 100) {
            let id = if r.chance(2, 3) { Some(r.pick(ids).clone()) } else { None };
            let now = s.now;
            if r.chance(1, 2) {
                let id = id.unwrap_or_else(|| ais_id(r));
                let m = mmsi(r);
                let text = if r.chance(1, 2) { odd_part(r, &id) } else { reject(r, truths, &id, m, "GP") };
                let mut x = step(text, u32::MAX, u32::MAX, 0, INSERTED);
                x.now = now;
                count(C::Noise, 1);
                o.push(x);
            } else {
                let mut x = filler(r, truths, id.as_ref(), None, base, true);
                x.src = u32::MAX;
                x.now = now;
                o.push(x);
            }
        }
        o.push(s);
    }
    *v = o;
}

fn c04(r: &mut Rng, t: &mut Trace, big: usize) {
    let base = start_time(r);
    let n = 1 + r.usize(14 * big);
    let ids = unique_ids(r, n);
    let gap = r.pickc(&[1_000, 100_000, 1_000_000]);
    let part_gap = r.pickc(&[1, 50_000, 1_000_000, 20_000_000]);
    let mut steps = vec![];
    let mut b = base;
    // the same identities again in a later round, after everything of the earlier one has arrived
    for _ in 0..1 + r.below(3) {
        let mut ids = ids.clone();
        r.shuffle(&mut ids);
        let txs = two_part(r, &ids, b, gap, part_gap, &mut t.truths);
        let f = Faults::reorder_only(r, part_gap);
        let v = deliver(r, txs, &f, b);
        b = v.iter().map(|s| s.now).max().unwrap_or(b) + 1;
        steps.extend(v);
    }
    side_traffic(r, &mut steps, &ids, &mut t.truths, base);
    flood(r, &mut steps, &ids[0].ty, 2);
    if r.chance(1, 3) {
        clock_steps(r, &mut steps, 10, i64::MAX / 4);
    }
    t.steps = steps;
}

fn c05(r: &mut Rng, t: &mut Trace, big: usize) {
    let base = start_time(r);
    let flood = r.chance(1, 12);
    let n = if flood {
        if r.chance(1, 20) { 3000 + r.usize(6000 * big) } else { 200 + r.usize(1200 * big) }
    } else {
        2 + r.usize(25 * big)
    };
    let ids = unique_ids(r, n);
    let part_gap = r.pickc(&[1, 100_000, 5_000_000, 60_000_000]);
    let gap = if flood { 1000 } else { r.pickc(&[1_000, 100_000]) };
    let txs = two_part(r, &ids, base, gap, if flood { 60_000_000 } else { part_gap }, &mut t.truths);
    let mut f = Faults::swarm(r, part_gap);
    if !flood {
        f.loss = f.loss.max(r.pickc(&[0, 1000, 3000, 5000]));
    } else {
        count(C::Flood, 1);
    }
    let mut v = deliver(r, txs, &f, base);
    side_traffic(r, &mut v, &ids, &mut t.truths, base);
    if !flood && r.chance(1, 2500) {
        // past the largest number of 16 bits
        flood_of(r, &mut v, &ids[0].ty, 0, 66_000);
    }
    passing(r, &mut v);
    t.steps = v;
}

fn c06(r: &mut Rng, t: &mut Trace, big: usize) {
    let base = start_time(r);
    let k = 1 + r.usize(3);
    let ids = colliding_ids(r, k);
    // several messages per identity, any copy of any part at any time
    let mut parts: Vec<Step> = vec![];
    for (i, id) in ids.iter().enumerate() {
        for _ in 0..1 + r.below(4) {
            let ty = r.pickc(&[1, 4, 5, 5, 6, 9, 18, 21, 27]);
            let m = mmsi(r);
            let msg = ais(r, ty, m, base);
            let k = split_at(r, &msg.bits).unwrap();
            t.truths.push(ais_truth(&msg, id.talker(), id.own()));
            let mut u = t.truths.len() as u32 - 1;
            let mut texts = ais_sentences(&msg.bits, id, Some(k), true, true);
            if r.chance(1, 12) {
                texts = alike(r, id);
                u = u32::MAX;
            }
            for (p, s) in texts.into_iter().enumerate() {
                parts.push(step(s, i as u32, u, p as u8 + 1, 0));
            }
        }
    }
    let n = 2 + r.usize(30 * big);
    let mut v = vec![];
    let mut last: Vec<usize> = vec![];
    for j in 0..n {
        // prefer copies of what was sent lately
        let i = if !last.is_empty() && r.chance(1, 3) { *r.pick(&last) } else { r.usize(parts.len()) };
        if last.contains(&i) {
            count(C::Dup, 1);
        }
        last.push(i);
        if last.len() > 4 {
            last.remove(0);
        }
        let mut s = parts[i].clone();
        s.now = base + j as i64 * 1000;
        v.push(s);
    }
    side_traffic(r, &mut v, &ids, &mut t.truths, base);
    flood(r, &mut v, &ids[0].ty, 2);
    passing(r, &mut v);
    t.steps = v;
}

// ------------------------------------------------------------------------------------------------

fn c07(r: &mut Rng, t: &mut Trace, big: usize) {
    let base = start_time(r);
    let tk = talkers(r, 5);
    let mut pool: Vec<(i64, Step)> = vec![];
    let rounds = 1 + r.below(4 * big as u64);
    let mut src = 0;
    let mut steps = vec![];
    let mut b = base;
    let free = r.chance(1, 3); // any copy of any sentence at any time
    let ns: Vec<u64> = (0..3).map(|_| r.edgy(1, 9, &[1, 2, 3, 9]) as u64).collect();
    for _ in 0..rounds {
        let mut txs = vec![];
        let mut tt = 0;
        for talker in &tk {
            for _ in 0..1 + r.below(2) {
                let n = if r.chance(2, 3) { r.pickc(&ns) } else { r.edgy(1, 9, &[1, 2, 9]) as u64 };
                tt += r.below(200_000) as i64;
                let mut x = tt;
                for (k, (body, tr)) in gsv_group(r, talker, n).into_iter().enumerate() {
                    t.truths.push(tr);
                    x += r.below(100_000) as i64 + 1;
                    let text = if r.chance(1, 15) { body } else { with_cs(&body) };
                    let s = step(text, src, t.truths.len() as u32 - 1, k as u8 + 1, 0);
                    pool.push((x, s.clone()));
                    txs.push(Tx { t: x, step: s });
                }
                src += 1;
            }
        }
        if !free {
            let f = if r.chance(1, 3) { Faults::reorder_only(r, 100_000) } else { Faults::swarm(r, 100_000) };
            let v = deliver(r, txs, &f, b);
            b = v.iter().map(|s| s.now).max().unwrap_or(b) + 1;
            steps.extend(v);
        }
    }
    if free {
        let n = 2 + r.usize(60 * big);
        let mut last: Vec<usize> = vec![];
        for j in 0..n {
            let i = if !last.is_empty() && r.chance(1, 4) {
                let l = *r.pick(&last);
                (l + r.usize(3)).min(pool.len() - 1)
            } else {
                r.usize(pool.len())
            };
            if last.contains(&i) {
                count(C::Dup, 1);
            }
            last.push(i);
            let mut s = pool[i].1.clone();
            s.now = base + j as i64 * 1000;
            steps.push(s);
        }
    }
    let ids = colliding_ids(r, 2);
    side_traffic(r, &mut steps, &ids, &mut t.truths, base);
    flood(r, &mut steps, &ids[0].ty, 2);
    passing(r, &mut steps);
    t.steps = steps;
}

fn c08(r: &mut Rng, t: &mut Trace, big: usize) {
    let base = start_time(r);
    let k = if r.chance(1, 15) { count(C::Flood, 1); 100 + r.usize(300) } else { 1 + r.usize(6) };
    let ms = near_mmsis(r, k);
    let free = r.chance(1, 2);
    let gap = r.pickc(&[10_000i64, 1_000_000, 30_000_000]);
    let frag = r.pickc(&[0u64, 0, 20, 60]);
    let mut fid = unique_ids(r, 64);
    let sid = colliding_ids(r, 3);
    let mut txs = vec![];
    let mut pool = vec![];
    let mut tt = 0i64;
    for round in 0..1 + r.below(4 * big as u64) {
        for (i, m) in ms.iter().enumerate() {
            tt += r.below(200_000) as i64;
            let mut x = tt;
            let mut halves = vec![240u32, 241];
            if r.chance(1, 3) {
                halves.swap(0, 1);
            }
            for ty in halves {
                let msg = ais(r, ty, *m, base);
                let (texts, id) = if r.chance(frag, 100) && !fid.is_empty() {
                    let id = fid.pop().unwrap();
                    let k = split_at(r, &msg.bits);
                    (ais_sentences(&msg.bits, &id, k, true, true), id)
                } else {
                    let id = r.pick(&sid).clone();
                    (ais_sentences(&msg.bits, &id, None, r.chance(1, 2), !r.chance(1, 15)), id)
                };
                t.truths.push(ais_truth(&msg, id.talker(), id.own()));
                let u = t.truths.len() as u32 - 1;
                for (p, s) in texts.into_iter().enumerate() {
                    x += 1 + r.below(gap as u64) as i64;
                    let s = step(s, (round * 1000) as u32 + i as u32, u, p as u8 + 1, 0);
                    pool.push(s.clone());
                    txs.push(Tx { t: x, step: s });
                }
            }
        }
    }
    let mut v = if free {
        let n = 2 + r.usize(40 * big);
        let mut o: Vec<Step> = vec![];
        let mut prev = 0;
        for j in 0..n {
            let i = if r.chance(1, 3) { (prev + r.usize(3)).min(pool.len() - 1) } else { r.usize(pool.len()) };
            if i == prev && j > 0 {
                count(C::Dup, 1);
            }
            prev = i;
            let mut s: Step = pool[i].clone();
            s.now = base + j as i64 * 1000;
            o.push(s);
        }
        o
    } else {
        let f = Faults::swarm(r, gap);
        deliver(r, txs, &f, base)
    };
    // side traffic: also reports of the same vessels
    let pct = r.pickc(&[0u64, 5, 30]);
    let mut o = vec![];
    for s in v.drain(..) {
        if r.chance(pct, 100) {
            let now = s.now;
            let m = r.pickc(&ms);
            let id = r.pick(&sid).clone();
            let mut x = if r.chance(1, 4) {
                count(C::Noise, 1);
                step(reject(r, &mut t.truths, &id, m, "GP"), u32::MAX, u32::MAX, 0, INSERTED)
            } else {
                filler(r, &mut t.truths, Some(&id), Some(m), base, true)
            };
            x.now = now;
            o.push(x);
        }
        o.push(s);
    }
    flood(r, &mut o, &sid[0].ty, 1);
    passing(r, &mut o);
    t.steps = o;
}

// ------------------------------------------------------------------------------------------------
// C09: independent sources.

fn c09(r: &mut Rng, t: &mut Trace, big: usize) {
    let base = start_time(r);
    let ns = 2 + r.usize(3);
    let mut ids = colliding_ids(r, ns * 3);
    let mut ms = near_mmsis(r, ns * 2);
    let mut tks: Vec<String> = SYSTEMS.iter().map(|s| s.0.to_string()).collect();
    r.shuffle(&mut tks);
    let mut all: Vec<Vec<Step>> = vec![];
    for src in 0..ns {
        let mut w = world(r, 8 * big, true);
        w.base = base;
        let k = (1 + r.usize(3)).min(ids.len());
        w.mix.ais = ids.split_off(ids.len() - k);
        if ids.is_empty() {
            ids = vec![];
        }
        w.mix.t24 = ms.split_off(ms.len() - 2);
        w.mix.mmsis = vec![];
        w.mix.gsv = vec![tks.pop().unwrap()];
        w.mix.src = src as u32;
        if w.mix.ais.is_empty() {
            w.mix.w[0] = 0;
            w.mix.w[1] = 0;
            w.mix.w[3] = 0;
            w.mix.w[4] += 1;
        }
        w.mix.types = vec![1, 3, 4, 5, 5, 6, 9, 10, 18, 21, 27, 7];
        let txs = w.mix.generate(r, 0, base, &mut t.truths);
        let v = deliver_checked(r, txs, &w.faults, base);
        let v = if w.mix.ais.is_empty() { v } else { insert_rejects(r, v, &w, &mut t.truths) };
        all.push(v);
    }
    count(C::Sources, ns as u64);
    // any interleaving that keeps each source's order
    let mode = r.below(3);
    let mut pos = vec![0usize; ns];
    let mut out = vec![];
    let mut cur = 0;
    while pos.iter().zip(&all).any(|(p, v)| *p < v.len()) {
        match mode {
            0 => cur = r.usize(ns),
            1 => {
                if r.chance(1, 4) {
                    cur = r.usize(ns)
                }
            }
            _ => cur = (cur + 1) % ns,
        }
        if pos[cur] < all[cur].len() {
            let mut s = all[cur][pos[cur]].clone();
            s.src = cur as u32;
            s.now = base + out.len() as i64 * 10_000;
            pos[cur] += 1;
            out.push(s);
        } else if mode == 1 {
            cur = r.usize(ns);
        }
    }
    flood(r, &mut out, "!AIVDM", 2);
    passing(r, &mut out);
    t.steps = out;
}

// ------------------------------------------------------------------------------------------------

fn c10(r: &mut Rng, t: &mut Trace, big: usize) {
    let w = world(r, 12 * big, true);
    build(r, &w, t);
    let mut o = vec![];
    let pct = r.pickc(&[20u64, 50, 100]);
    for s in std::mem::take(&mut t.steps) {
        let now = s.now;
        if r.chance(pct, 100) {
            let id = if r.chance(3, 4) { Some(r.pick(&w.mix.ais).clone()) } else { None };
            let m = if r.chance(3, 4) { Some(r.pickc(&w.mix.t24)) } else { None };
            let cs = !r.chance(1, 8);
            let mut x = filler(r, &mut t.truths, id.as_ref(), m, w.base, cs);
            x.now = now;
            o.push(x);
        }
        o.push(s);
    }
    t.steps = o;
    clock_steps(r, &mut t.steps, 5, i64::MAX / 4);
}

fn c11(r: &mut Rng, t: &mut Trace, big: usize) {
    let np = 2 + r.usize(3);
    let nt = 2 + r.usize(3);
    let mut all = vec![];
    let base = start_time(r);
    for p in 0..np {
        let mut w = world(r, 6 * big, true);
        w.mix.w[4] = w.mix.w[4].max(1);
        let txs = w.mix.generate(r, 0, base, &mut t.truths);
        let v = deliver_checked(r, txs, &w.faults, base);
        let mut v = insert_rejects(r, v, &w, &mut t.truths);
        v.truncate(14 * big);
        for s in v.iter_mut() {
            s.node = p as u32;
        }
        all.push(v);
    }
    // shared text: the same sentences on several parsers at once
    if r.chance(1, 3) {
        let a = all[0].clone();
        let k = 1 + r.usize(np - 1);
        all[k] = a.into_iter().map(|mut s| {
            s.node = k as u32;
            s
        }).collect();
    }
    let mut pos = vec![0usize; np];
    let mut owner: Vec<u32> = (0..np).map(|i| (i % nt) as u32).collect();
    let hand = r.pickc(&[0u64, 10, 50]);
    while pos.iter().zip(&all).any(|(p, v)| *p < v.len()) {
        let p = r.usize(np);
        if pos[p] >= all[p].len() {
            continue;
        }
        if r.chance(hand, 100) {
            let o = r.usize(nt) as u32;
            if o != owner[p] {
                count(C::Handover, 1);
            }
            owner[p] = o;
        }
        let mut s = all[p][pos[p]].clone();
        s.src = owner[p];
        s.now = base;
        s.tick = 0;
        pos[p] += 1;
        t.steps.push(s);
    }
    t.set("threads", nt);
    t.set("sched", r.u64() >> 1);
    t.set("den", r.pickc(&[20, 200, 2000, 20000, 100000]));
    t.set("access", r.chance(3, 4) as u64);
    if r.chance(1, 2) {
        // preempt at few places of the code, but there at every other visit
        t.set("hot", r.pickc(&[30u64, 100, 300, 1000]));
        t.set("den", r.pickc(&[0, 20_000, 100_000]));
    }
    if r.chance(1, 2) {
        t.set("glob", r.pickc(&[2u64, 3, 10]));
    }
}

fn c12(r: &mut Rng, t: &mut Trace, big: usize) {
    let w = world(r, 12 * big, true);
    build(r, &w, t);
    t.steps.truncate(60 * big);
    edge_clock_plain(r, &mut t.steps);
    let n = 2 + r.below(2);
    for i in 0..n {
        t.set(&format!("v{}hash", i), r.u64() >> 1);
        t.set(&format!("v{}tz", i), r.pickc(&ZONES));
        t.set(&format!("v{}log", i), r.pickc(&["off", "error", "warn", "info", "debug", "trace"]));
        t.set(&format!("v{}thread", i), r.below(4));
        t.set(&format!("v{}vars", i), if r.chance(1, 2) { r.u64() >> 1 } else { 0 });
        t.set(&format!("v{}place", i), if r.chance(1, 2) { r.u64() >> 1 } else { 0 });
        t.set(&format!("v{}filter", i), r.chance(1, 4) as u64);
    }
    t.set("variants", n);
    // now and then far longer lines than a receiver sends
    if r.chance(1, 10) && !t.steps.is_empty() {
        for _ in 0..1 + r.usize(3) {
            let k = r.usize(t.steps.len());
            let body = split_cs(&t.steps[k].text).0.to_string() + &",".repeat(100 + r.usize(900));
            t.steps[k].text = with_cs(&body);
        }
    }
}

/// Midnights, month ends and year ends, without movement during a call.
fn edge_clock_plain(r: &mut Rng, v: &mut [Step]) {
    let y = r.pickc(&[1999i64, 2000, 2020, 2023, 2024, 2099]);
    let b = r.pickc(&[us(y, 12, 31, 23, 0, 0), us(y, 2, 28, 12, 0, 0), us(y, 6, 30, 18, 0, 0), us(y, 3, 1, 0, 0, 0)]);
    let d = r.pickc(&[10_000_000i64, 600_000_000, 3_600_000_000]);
    if r.chance(2, 3) {
        for (i, s) in v.iter_mut().enumerate() {
            s.now = b + i as i64 * d;
        }
    }
}

// ------------------------------------------------------------------------------------------------
// C13, C14: memory and work over long histories.

/// A long history in which next to nothing is ever repeated and nothing stays pending for long, so that
/// whatever is left behind per identity, per text or per call adds up.
fn churn(r: &mut Rng, t: &mut Trace, big: usize, base: i64) {
    count(C::Churn, 1);
    let n = (6000 + r.usize(14000)) * big;
    for (i, (s, _)) in churn_texts(r, n, base, false).into_iter().enumerate() {
        let mut s = step(s, 0, u32::MAX, 0, INSERTED);
        s.now = base + i as i64 * 1000;
        t.steps.push(s);
    }
}

/// Now and then: the parser has been in use for long. What it handled shares no identity with the rest.
fn worn(r: &mut Rng, t: &mut Trace) {
    let threads = t.prop == "C11";
    let n = if !threads && r.chance(1, 2500) {
        66_000
    } else if r.chance(1, 100) {
        r.pickc(&[140usize, 270, 270, 600, 1100, 3000])
    } else {
        return;
    };
    if t.steps.is_empty() {
        return;
    }
    count(C::Churn, 1);
    let at = if r.chance(1, 2) { 0 } else { r.usize(t.steps.len()) };
    let now = t.steps[at].now;
    // an own source; for threads the one that uses the parser
    let (src, node) = (if threads { t.steps[at].src } else { u32::MAX }, t.steps[at].node);
    let mut v = churn_texts(r, n, now, true);
    // the checksum of a sentence that begins with a multi-byte character is not specified
    v.retain(|(s, _)| s.is_ascii());
    let self_tag = if t.prop == "C10" { SELF } else { 0 };
    t.steps.splice(at..at, v.into_iter().map(|(s, k)| {
        let mut s = step(s, src, u32::MAX, 0, INSERTED | if k == 2 || k >= 8 { self_tag } else { 0 });
        s.now = now;
        s.node = node;
        s
    }));
}

fn churn_texts(r: &mut Rng, n: usize, base: i64, apart: bool) -> Vec<(String, u64)> {
    let kind = r.below(10);
    let mixed = r.chance(1, 4);
    let vary = r.chance(2, 3);
    let al: Vec<char> = ('A'..='Z').chain('0'..='9').collect();
    let (ty0, ch0, tk0) = if apart { ("!7QVDM".into(), channel(r), "7Q".into()) } else { (ais_ty(r), channel(r), r.pick(&SYSTEMS).0.to_string()) };
    let mut o: Vec<(String, u64)> = vec![];
    let mut v: Vec<String> = vec![];
    let mut i = if apart { 5_000_000 } else { 0u64 };
    while o.len() < n {
        i += 1;
        let k = if mixed || r.chance(1, 50) { r.below(10) } else { kind };
        let two: String = if vary && apart {
            format!("7{}", r.pickc(&al))
        } else if vary {
            (0..2).map(|_| r.pickc(&al)).collect()
        } else { tk0.clone() };
        let ty = if vary && r.chance(1, 2) { format!("!{}VDM", two) } else { ty0.clone() };
        let ch = if vary { r.pickc(&["A", "B", "1", "2", "", "C", "a"]).to_string() } else { ch0.clone() };
        let m = 200_000_000 + (i as u32).wrapping_mul(7919) % 575_000_000;
        let id = AisId { ty: ty.clone(), id: i, ch };
        match k {
            0 => {
                // both parts of a message, possibly with a copy of the first to arrive
                let ty = r.pickc(&[1u32, 18, 9, 4]);
                let msg = ais(r, ty, m, base);
                let at = split_at(r, &msg.bits);
                let mut p = ais_sentences(&msg.bits, &id, at, true, true);
                if r.chance(1, 2) {
                    p.reverse();
                }
                if r.chance(1, 3) {
                    v.push(p[0].clone());
                }
                v.extend(p);
            }
            1 => {
                // the halves of a class B report, possibly with a copy of the first to arrive
                let mut a = ais(r, 240, m, base);
                let mut b = ais(r, 241, m, base);
                if r.chance(1, 2) {
                    std::mem::swap(&mut a, &mut b);
                }
                let a = ais_sentences(&a.bits, &id, None, false, true);
                for _ in 0..1 + r.pickc(&[0, 0, 0, 1, 3]) {
                    v.extend(a.clone());
                }
                v.extend(ais_sentences(&b.bits, &id, None, false, true));
            }
            2 => {
                let ty = r.pickc(&[1u32, 2, 3, 4, 5, 6, 9, 10, 18, 19, 21, 27, 7, 8, 14]);
                let msg = ais(r, ty, m, base);
                v.extend(ais_sentences(&msg.bits, &id, None, r.clone().chance(1, 2), true));
            }
            3 => {
                let g = 1 + r.below(9);
                let mut p: Vec<String> = (1..=g).map(|j| with_cs(&format!("${}GSV,{},{},{},{:02},40,{:03},46", two, g, j, 4 * g, 1 + i % 90, i % 360))).collect();
                if r.chance(1, 3) {
                    r.shuffle(&mut p);
                }
                if r.chance(1, 5) {
                    let c = p[0].clone();
                    p.insert(0, c);
                }
                v.extend(p);
            }
            4 => v.push(with_cs(&match r.below(7) {
                // parts of messages the parser does not join
                0 => format!("{},2,1,,{},5{:0>20},0", id.ty, id.ch, i),
                1 => format!("{},2,2,,{},5{:0>20},0", id.ty, id.ch, i),
                2 => format!("{},3,{},{},{},5{:0>20},0", id.ty, 1 + i % 3, i, id.ch, i),
                3 => format!("{},2,{},{},{},5{:0>20},0", id.ty, r.pickc(&[0, 3, 9]), i, id.ch, i),
                4 => format!("{},0,0,{},{},5{:0>20},0", id.ty, i, id.ch, i),
                5 => format!("{},2,1,x{},{},5{:0>20},0", id.ty, i, id.ch, i),
                _ => format!("{},9,{},{},{},5{:0>20},0", id.ty, 1 + i % 9, i, id.ch, i),
            })),
            5 => {
                let s = format!("{},2,1,{},{},5{:0>20},0", id.ty, i, id.ch, i);
                v.push(r.pickc(&[0u8, 1, 2]).to_string() + &s);
                v.push(format!("{}*{:02X}", s, xor(&s) ^ (1 + (i % 255) as u8)));
            }
            6 => v.push(with_cs(&match r.below(4) {
                0 => format!("${}ZDA,{},1,2,3,4,5", two, i),
                1 => format!("${}X{},{}", two, i, i),
                2 => format!("!{}ABM,{},1,1,A,x,0", two, i),
                _ => format!("\u{e9}{},{}", i, i),
            })),
            7 => v.push(with_cs(&match r.below(3) {
                0 => format!("${}GSV,2,{},8,01,40,083,46", two, 3 + i),
                1 => format!("${}GSV,x{},1,8,01,40,083,46", two, i),
                _ => format!("{},x{},1,1,A,5,0", id.ty, i),
            })),
            8 => {
                let k = r.pickc(&GNSS_KINDS);
                v.push(with_cs(&gnss(r, k, &two).0));
            }
            _ => v.push(with_cs(&match r.below(3) {
                0 => format!("${}VTG,{}.1,T,,M,{}.5,N,,K", two, i % 360, i),
                1 => format!("${}GSA,A,3,{},,,,,,,,,,,,1,1,1", two, i % 200),
                _ => format!("${}VTG,,T,,M,{}.25,N,,K", two, i),
            })),
        }
        o.extend(v.drain(..).map(|s| (s, k)));
    }
    o
}

fn c13(r: &mut Rng, t: &mut Trace, big: usize) {
    let base = start_time(r);
    if r.chance(1, 14) {
        return churn(r, t, big, base);
    }
    if r.chance(1, 50) {
        // the same few things over and over, for very long: the smallest leak adds up
        count(C::Churn, 1);
        let mut few: Vec<String> = vec![];
        for _ in 0..1 + r.usize(2) {
            let (id, m) = (ais_id(r), mmsi(r));
            match r.below(8) {
                0 | 1 => few.push(reject(r, &mut t.truths, &id, m, "GP")),
                2 => few.extend(nothing(r, &mut t.truths, &id, m, base)),
                3 => {
                    let k = r.pickc(&GNSS_KINDS);
                    let tk = r.pick(&SYSTEMS).0;
                    few.push(with_cs(&gnss(r, k, tk).0));
                }
                4 => {
                    let n = 1 + r.below(3);
                    few.extend(gsv_group(r, "GP", n).into_iter().map(|x| with_cs(&x.0)));
                }
                5 => {
                    let (a, b) = (ais(r, 240, m, base), ais(r, 241, m, base));
                    few.extend(ais_sentences(&a.bits, &id, None, false, true));
                    few.extend(ais_sentences(&b.bits, &id, None, false, true));
                }
                x => {
                    let ty = r.pickc(&[1u32, 4, 5, 6, 9, 10, 18, 21, 27]);
                    let msg = ais(r, ty, m, base);
                    let at = if x == 6 { split_at(r, &msg.bits) } else { None };
                    few.extend(ais_sentences(&msg.bits, &id, at, true, true));
                }
            }
        }
        let n = (50_000 + r.usize(20_000)) * big.min(2);
        for i in 0..n {
            let mut s = step(few[i % few.len()].clone(), 0, u32::MAX, 0, INSERTED);
            s.now = base + i as i64 * 1000;
            t.steps.push(s);
        }
        return;
    }
    let mut w = world(r, 1, true);
    w.base = base;
    // sentences whose processing is cheap, so that histories can be long
    w.mix.types = vec![1, 4, 5, 6, 9, 10, 18, 21, 27, 7];
    w.mix.w = [r.below(10), r.below(4), r.below(6), r.below(8), 0];
    w.mix.w[r.usize(4)] += 3;
    w.mix.gsv_max = r.pickc(&[2, 4, 9]);
    w.mix.n = 1000 + r.usize(1500 * big);
    w.rejects = r.pickc(&[0, 10, 100]);
    w.mix.ais = unique_ids(r, [3usize, 20, 200][r.clone().usize(3)]);
    let _ = r.u64();
    w.mix.nocs_pct = 2;
    match r.below(4) {
        0 => {
            // everything arrives in order: nothing should stay
            w.faults = Faults::default();
        }
        1 => {
            w.faults = Faults { dup: 5000, ..Faults::default() };
        }
        _ => {}
    }
    // bounded identities, so what is pending stays bounded
    build(r, &w, t);
    if r.chance(1, 3) {
        // an excursion: many outstanding parts at one time
        count(C::Flood, 1);
        let n = 100 + r.below(400);
        let at = r.usize(t.steps.len() + 1);
        let ty = ais_ty(r);
        let mut v = vec![];
        for i in 0..n {
            let mut s = step(with_cs(&format!("{},2,1,{},A,5{:0>20},0", ty, 100_000 + i, i)), 0, u32::MAX, 1, INSERTED);
            s.now = base;
            v.push(s);
        }
        if r.chance(1, 2) {
            for i in 0..n {
                let mut s = step(with_cs(&format!("{},2,2,{},A,0,0", ty, 100_000 + i)), 0, u32::MAX, 2, INSERTED);
                s.now = base;
                v.push(s);
            }
        }
        t.steps.splice(at..at, v);
    }
}

fn c14(r: &mut Rng, t: &mut Trace, big: usize) {
    let base = start_time(r);
    let mode = r.pickc(&["load", "load", "numbers", "numbers", "length"]);
    t.set("mode", mode);
    match mode {
        "load" => {
            // a long history and many parts outstanding, then probes
            count(C::Flood, 1);
            let h = r.pickc(&[300u64, 1000, 2000]) * big as u64;
            let kind = r.below(5);
            let ty = ais_ty(r);
            let ch = channel(r);
            let tk = r.pick(&SYSTEMS).0;
            for i in 0..h {
                let k = if kind == 4 { r.below(4) } else { kind };
                let text = match k {
                    0 => {
                        let p = 1 + r.below(2);
                        with_cs(&format!("{},2,{},{},{},5{:0>20},0", ty, p, 1000 + i, ch, i))
                    }
                    1 => {
                        let m = 200_000_000 + i as u32;
                        let msg = ais(r, 240 + (i % 2) as u32, m, base);
                        ais_sentences(&msg.bits, &AisId { ty: ty.clone(), id: 0, ch: ch.clone() }, None, false, true).remove(0)
                    }
                    2 => with_cs(&format!("${}GSV,{},1,12,01,40,083,46", tk, 3 + i)),
                    _ => {
                        // completed and rejected ones: history without anything pending
                        let id = AisId { ty: ty.clone(), id: i % 10, ch: ch.clone() };
                        match r.below(3) {
                            0 => {
                                let tt = &mut t.truths;
                                reject(r, tt, &id, 200_000_000, tk)
                            }
                            1 => with_cs(&format!("${}GSV,1,1,01,01,40,083,46", tk)),
                            _ => {
                                let m = mmsi(r);
                                let msg = ais(r, 18, m, base);
                                ais_sentences(&msg.bits, &id, None, true, true).remove(0)
                            }
                        }
                    }
                };
                let mut s = step(text, 0, u32::MAX, 0, WARM);
                s.now = base;
                t.steps.push(s);
            }
            t.truths.clear();
            probes(r, t, &ty, &ch, tk, base, big);
        }
        "numbers" => {
            count(C::HugeNumber, 1);
            // pairs: the same sentence with small and with huge numbers (part = 1 small, 2 huge; unit = pair)
            let tk = r.pick(&SYSTEMS).0;
            let ty = ais_ty(r);
            let n = 4 + r.below(12);
            for i in 0..n {
                let big_u32 = r.pickc(&[255u64, 1000, 65_535, 1_000_000, 16_777_216, 2_147_483_647, 4_294_967_295]);
                let big_u64 = r.pickc(&[u32::MAX as u64, 1 << 40, u64::MAX]);
                let (a, b) = match r.below(18) {
                    12..=17 => {
                        // any valid sentence against itself with a huge number in one field
                        let a = valid_body(r, base);
                        let mut f: Vec<String> = a.split(',').map(|x| x.to_string()).collect();
                        let ais = a.starts_with('!');
                        let mut k = 1 + r.usize(f.len() - 1);
                        // a payload or a position that was absent takes work that has nothing to do with the number
                        let absent = match a.get(3..6) {
                            Some("GGA") => k == 2 || k == 4,
                            Some("RMC") => k == 3 || k == 5,
                            Some("GLL") => k == 1 || k == 3,
                            _ => false,
                        };
                        if ais && k == 5 || absent && f[k].is_empty() {
                            k += 1;
                        }
                        f[k] = match r.below(6) {
                            0 | 1 => big_u32.to_string(),
                            2 | 3 => big_u64.to_string(),
                            4 => format!("-{}", big_u32),
                            _ => r.pickc(&["1e300", "-1e300", "99999999999999999999999999", "1e-300"]).to_string(),
                        };
                        (a, f.join(","))
                    }
                    8 | 9 => {
                        // one type of message with other field values; lengths agree
                        let k = r.pickc(&[1u32, 4, 5, 6, 9, 10, 18, 19, 21, 27, 240, 241]);
                        let m = ais(r, k, 1, base);
                        let mut v = m.bits.clone();
                        let x = r.pickc(&[999_999_999u64, 1_073_741_823, 536_870_911, 244_123_456]);
                        for j in 0..30 {
                            v.0[8 + j] = (x >> (29 - j)) & 1 != 0;
                        }
                        if r.chance(1, 2) {
                            let w = 38 + r.usize(v.0.len().saturating_sub(38).max(1));
                            for j in w..(w + 1 + r.usize(30)).min(v.0.len()) {
                                v.0[j] = true;
                            }
                        }
                        let id = AisId { ty: ty.clone(), id: 0, ch: "A".into() };
                        (split_cs(&ais_sentences(&m.bits, &id, None, false, true)[0]).0.to_string(),
                            split_cs(&ais_sentences(&v, &id, None, false, true)[0]).0.to_string())
                    }
                    10 => (format!("${}GGA,000000,0000.1,N,00000.1,E,1,1,1,1,M,1,M,1,1", tk),
                        format!("${}GGA,235959,8959.9,S,17959.9,W,8,{},1e300,1e300,M,-1e300,M,{},{}", tk, r.pickc(&[255u64, 99]), r.pickc(&[255u64, big_u64]),
                            r.pickc(&[65_535u64, big_u64]))),
                    11 => (format!("${}RMC,000000,A,0000.1,N,00000.1,E,1,1,010100,1,E", tk),
                        format!("${}RMC,235959,A,8959.9,S,17959.9,W,{},1e300,{},1e300,W", tk, big_u64, r.pickc(&["311299", "290200", "999999", "311268"]))),
                    0 | 1 => (format!("${}GSV,4,1,16,01,40,083,46", tk), format!("${}GSV,{},1,16,01,40,083,46", tk, big_u32)),
                    2 => (format!("${}GSV,4,2,16,01,40,083,46", tk), format!("${}GSV,{},{},16,01,40,083,46", tk, big_u32, big_u32 - r.below(2))),
                    3 => (format!("${}GSV,2,1,16,01,40,083,46", tk), format!("${}GSV,2,1,{},01,40,083,46", tk, big_u32)),
                    4 => (format!("{},2,1,3,A,55P5,0", ty), format!("{},2,1,{},A,55P5,0", ty, big_u64)),
                    5 => (format!("{},3,1,3,A,55P5,0", ty), format!("{},255,255,{},A,55P5,0", ty, big_u64)),
                    6 => (format!("${}GSA,A,3,1,,,,,,,,,,,,1,1,1", tk), format!("${}GSA,A,3,255,,,,,,,,,,,,{},1,1", tk, big_u64)),
                    _ => (format!("${}VTG,1,T,1,M,1,N,1,K", tk), format!("${}VTG,{},T,{},M,1e300,N,1,K", tk, big_u64, big_u64)),
                };
                for (p, s) in [(1u8, a), (2, b)] {
                    let mut s = step(with_cs(&s), 0, i as u32, p, PROBE);
                    s.now = base;
                    t.steps.push(s);
                }
            }
        }
        _ => {
            count(C::LongSentence, 1);
            // the same construct in sizes L and 8L
            let n = 2 + r.below(3);
            for i in 0..n {
                let l = r.pickc(&[400u64, 400, 1500, 1500, 6000]);
                let k = r.below(19);
                let ty = ais_ty(r);
                let tk = r.pick(&SYSTEMS).0;
                let cs = r.pickc(&[0, 0, 0, 1, 1, 2]);
                let valid = valid_body(r, base);
                let at = r.usize(valid.split(',').count());
                let c = r.pickc(&["0", "9", "w", ",", ",", ",1", "1,", "12,34,", "A", ".", "*", "\u{e4}"]);
                for p in 1..=2u8 {
                    let n = (if p == 1 { l } else { 8 * l }) as usize;
                    let rep: String = std::iter::repeat(c).take(n / c.len().min(n)).collect();
                    let zeros: String = std::iter::repeat('0').take(n).collect();
                    let b = match k {
                        0 => format!("{},1,1,,A,5{},0", ty, zeros),
                        1 => format!("{},1,1,,A,6{},0", ty, zeros),
                        2 => format!("{},2,{},1,{},5000,0", ty, r.clone().below(2) + 1, rep),
                        3 => format!("${}GGA,{},,,,,0,,,,,,,,", tk, rep),
                        4 => format!("${}GGA,120000,4916.{}1,N,12311.12,W,1,,,,,,,,", tk, zeros),
                        5 => format!("${}GSV,1,1,01,01,{},083,46", tk, rep),
                        6 => format!("${}{}", tk, rep),
                        7 => format!("${}VTG,{}1,T,,M,,N,,K", tk, zeros),
                        8 => format!("{},1,1,,A,55P5,0,{}", ty, rep),
                        9 => format!("{},2,1,3,{},55P5,0", ty, rep),
                        10 => format!("${}GSV,1,1,01,01,40,083,46,{}", tk, rep),
                        11 => format!("${}GSA,A,3,{}", tk, rep),
                        13..=18 => {
                            let mut f: Vec<String> = valid.split(',').map(|x| x.to_string()).collect();
                            f[at] = if k < 16 { format!("{}{}", f[at], rep) } else { rep };
                            f.join(",")
                        }
                        _ => format!("${}RMC,120000,A,,,,,,,{},,", tk, rep),
                    };
                    let b = match cs {
                        0 => with_cs(&b),
                        1 if !b.contains('*') => b,
                        _ => format!("{}*{:02X}", b, xor(&b) ^ 1),
                    };
                    let mut s = step(b, 0, i as u32, p, PROBE);
                    s.now = base;
                    t.steps.push(s);
                }
            }
        }
    }
}

/// A valid sentence without its checksum.
fn valid_body(r: &mut Rng, base: i64) -> String {
    if r.chance(1, 2) {
        let kind = r.pickc(&["GGA", "RMC", "GSA", "GLL", "VTG"]);
        let tk = r.pick(&SYSTEMS).0;
        split_cs(&gnss(r, kind, tk).0).0.to_string()
    } else if r.chance(1, 4) {
        let tk = r.pick(&SYSTEMS).0;
        format!("${}GSV,{},1,08,01,40,083,46,02,17,308,41,12,07,344,39,14,22,228,45", tk, r.pickc(&[1, 2]))
    } else {
        let k = r.pickc(&[1u32, 4, 5, 6, 9, 10, 18, 19, 21, 27, 240, 241]);
        let m = mmsi(r);
        let m = ais(r, k, m, base);
        let id = AisId { ty: ais_ty(r), id: r.below(10), ch: "A".into() };
        let split = if r.chance(1, 3) { Some(10) } else { None };
        let v = ais_sentences(&m.bits, &id, split, false, true);
        split_cs(r.pick(&v)).0.to_string()
    }
}

/// Probe sentences: the same kinds in a loaded and in a new parser.
fn probes(r: &mut Rng, t: &mut Trace, ty: &str, ch: &str, tk: &str, base: i64, _big: usize) {
    let mut unit = 0;
    for _ in 0..9 {
        let id = AisId { ty: ty.to_string(), id: 500_000 + unit as u64, ch: ch.to_string() };
        let m5 = mmsi(r);
        let m = ais(r, 5, m5, base);
        let mut texts = ais_sentences(&m.bits, &id, Some(40), true, true);
        if r.chance(1, 2) {
            texts.swap(0, 1);
        }
        let (mut a, mut b) = {
            let mm = 500_000_000 + unit;
            (ais(r, 240, mm, base), ais(r, 241, mm, base))
        };
        if r.chance(1, 2) {
            std::mem::swap(&mut a, &mut b);
        }
        texts.extend(ais_sentences(&a.bits, &id, None, false, true));
        texts.extend(ais_sentences(&b.bits, &id, None, false, true));
        texts.push(with_cs(&format!("${}GSV,2,1,08,01,40,083,46,02,40,083,46", tk)));
        texts.push(with_cs(&format!("${}GSV,2,2,08,05,40,083,46,06,40,083,46", tk)));
        texts.push(with_cs(&format!("${}VTG,1,T,1,M,1,N,1,K", tk)));
        texts.push(format!("{},2,1,1,A,0*{:02X}", ty, 0));
        for (k, s) in texts.into_iter().enumerate() {
            let mut s = step(s, 0, unit, k as u8, PROBE);
            s.now = base;
            t.steps.push(s);
        }
        unit += 1;
    }
}

// ------------------------------------------------------------------------------------------------
// C15-C17: dates from the clock.

fn boundary(r: &mut Rng) -> i64 {
    let y = r.pickc(&[1970i64, 1971, 1980, 1999, 2000, 2019, 2020, 2023, 2024, 2027, 2028, 2038, 2099, 2100, 2101, 2399, 2400]);
    let (m, d) = r.pickc(&[(1i64, 1i64), (3, 1), (2, 28), (2, 29), (7, 1), (12, 31), (6, 15)]);
    let d = d.min(mdays(y, m));
    us(y, m, d, 0, 0, 0)
}

pub fn bad_time(r: &mut Rng) -> &'static str {
    r.pickc(&["", "240000", "126000", "250000", "12", "1234", "12345", "1a3000", "ab", "99", "-12345", "120099", "999999"])
}

fn clock_world(r: &mut Rng, t: &mut Trace, prop: &str, big: usize) {
    let n = 2 + r.usize(18 * big);
    let mut now = if r.chance(2, 3) { boundary(r) + r.range(-3, 3) * 1_000_000 } else { start_time(r) };
    let ids = colliding_ids(r, 3);
    let mut last: Option<(Vec<String>, u32)> = None;
    for i in 0..n {
        // how the clock gets to this call
        match r.below(10) {
            0 => {
                let b = boundary(r);
                count(if b > now { C::ClockForward } else { C::ClockBack }, 1);
                now = b + r.range(-2, 2) * r.pickc(&[1i64, 1_000_000, 60_000_000]);
            }
            1 => {
                now += DAY_US * r.range(1, 400);
                count(C::ClockForward, 1);
            }
            2 => {
                now -= DAY_US * r.range(1, 400);
                count(C::ClockBack, 1);
            }
            3 => {
                // to just before the next midnight
                now = (now.div_euclid(DAY_US) + 1) * DAY_US - r.pickc(&[1i64, 2, 1000, 1_000_000]);
            }
            _ => now += r.below(r.clone().pickc(&[1_000_000u64, 60_000_000, 3_600_000_000])) as i64,
        }
        now = now.clamp(us(1970, 1, 2, 0, 0, 0), us(9998, 1, 1, 0, 0, 0));
        let tick = if r.chance(1, 3) {
            count(C::TickInCall, 1);
            r.pickc(&[1i64, 1, 2, 1000, 1_000_000, 43_200_000_000, DAY_US, -1, -1_000_000])
        } else {
            0
        };
        if tick > 0 && now.div_euclid(DAY_US) != (now + 3 * tick).div_euclid(DAY_US) {
            count(C::MidnightInCall, 1);
        }
        let push = |t: &mut Trace, now: i64, text: String, unit: u32, tags: u32| {
            let mut s = step(text, 0, unit, 1, tags);
            s.now = now;
            s.tick = tick;
            t.steps.push(s);
        };
        let other = r.chance(1, 5);
        let from = t.steps.len();
        if let (Some((texts, u)), true) = (&last, r.chance(1, 5)) {
            // stations repeat a report: the same sentences once more, at another reading
            if let (Some((_, Val::Eta(mo, d, h, mi))), true) = (t.truths[*u as usize].f.iter().find(|x| x.0 == "eta"), r.chance(1, 2)) {
                let (y, ..) = civil(now.div_euclid(DAY_US));
                if valid(y, *mo as i64, *d as i64) && *h < 24 && *mi < 60 {
                    now = us(y, *mo as i64, *d as i64, *h as i64, *mi as i64, 0)
                        + r.pickc(&[0i64, -1, -1_000_000, -3_600_000_000, -DAY_US, 60_000_000, 3_600_000_000, DAY_US]);
                    now = now.clamp(us(1970, 1, 2, 0, 0, 0), us(9998, 1, 1, 0, 0, 0));
                }
            }
            count(C::Dup, 1);
            let (texts, u) = (texts.clone(), *u);
            for x in texts {
                push(t, now, x, u, PROBE);
            }
            continue;
        }
        match (prop, other) {
            ("C15", false) | ("C16", true) => {
                let tk = r.pick(&SYSTEMS).0;
                let kind = r.pickc(&["GGA", "GLL"]);
                let (b, mut tr) = gnss(r, kind, tk);
                let mut b = b;
                if r.chance(1, 6) {
                    // an invalid time of day
                    let bt = bad_time(r);
                    let mut f: Vec<String> = b.split(',').map(|x| x.to_string()).collect();
                    let k = if kind == "GGA" { 1 } else { 5 };
                    f[k] = bt.to_string();
                    b = f.join(",");
                    tr.f.retain(|x| x.0 != "timestamp");
                    tr.f.push(("timestamp".into(), Val::S(vec!["None".into()])));
                    count(C::AbsentValue, 1);
                }
                t.truths.push(tr);
                push(t, now, with_cs(&b), t.truths.len() as u32 - 1, PROBE);
            }
            ("C17", false) | ("C15", true) => {
                let tk = r.pick(&SYSTEMS).0;
                let (b, mut tr) = gnss(r, "RMC", tk);
                let mut f: Vec<String> = b.split(',').map(|x| x.to_string()).collect();
                let mut set = |tr: &mut Truth, v: Val| {
                    tr.f.retain(|x| x.0 != "timestamp");
                    tr.f.push(("timestamp".into(), v));
                };
                match r.below(12) {
                    0 => {
                        f[1] = bad_time(r).to_string();
                        set(&mut tr, Val::S(vec!["None".into()]));
                        count(C::AbsentValue, 1);
                    }
                    1 => {
                        f[9] = r.pickc(&["", "320120", "001220", "011320", "010020", "310420", "300220", "0101", "01012", "ab0120", "-10120"]).to_string();
                        set(&mut tr, Val::S(vec!["None".into()]));
                        count(C::AbsentValue, 1);
                    }
                    2 => {
                        // 29 February
                        let (h, m, s) = tod(r);
                        let y = r.range(0, 99) as u32;
                        f[1] = format!("{:02}{:02}{:02}", h, m, s);
                        f[9] = format!("2902{:02}", y);
                        set(&mut tr, Val::Dmy(29, 2, y, h, m, s));
                    }
                    3 => {
                        // a fix of the clock's own day or its neighbours
                        let (y, m, d) = civil(now.div_euclid(DAY_US) + r.range(-1, 1));
                        let (h, mi, s) = tod(r);
                        f[1] = format!("{:02}{:02}{:02}", h, mi, s);
                        f[9] = format!("{:02}{:02}{:02}", d, m, y % 100);
                        set(&mut tr, Val::Dmy(d as u32, m as u32, (y % 100) as u32, h, mi, s));
                    }
                    _ => {}
                }
                t.truths.push(tr);
                push(t, now, with_cs(&f.join(",")), t.truths.len() as u32 - 1, PROBE);
            }
            _ => {
                let mut id = r.pick(&ids).clone();
                id.id = 1000 + i as u64;
                let m = mmsi(r);
                let msg = ais(r, 5, m, now);
                let truth = ais_truth(&msg, id.talker(), id.own());
                if r.chance(1, 6) {
                    // the clock shows the very moment, or is next to it
                    if let Some((_, Val::Eta(mo, d, h, mi))) = truth.f.iter().find(|x| x.0 == "eta") {
                        let (y, ..) = civil(now.div_euclid(DAY_US));
                        if valid(y, *mo as i64, *d as i64) && *h < 24 && *mi < 60 {
                            now = us(y, *mo as i64, *d as i64, *h as i64, *mi as i64, 0)
                                + r.pickc(&[0i64, 0, 0, -1, 1, -1_000_000, 60_000_000, 59_999_999, 3_600_000_000, -3_600_000_000]);
                            now = now.clamp(us(1970, 1, 2, 0, 0, 0), us(9998, 1, 1, 0, 0, 0));
                        }
                    }
                }
                t.truths.push(truth);
                let u = t.truths.len() as u32 - 1;
                let k = if r.chance(1, 2) { split_at(r, &msg.bits) } else { None };
                let mut v = ais_sentences(&msg.bits, &id, k, true, true);
                if r.chance(1, 4) {
                    v.reverse();
                }
                if v.len() == 2 && r.chance(1, 3) {
                    // the first part arrived at another reading
                    let mut s = step(v.remove(0), 0, u, 1, PROBE);
                    s.now = (now - r.range(-400, 400) * DAY_US).max(us(1970, 1, 2, 0, 0, 0));
                    s.tick = 0;
                    t.steps.push(s);
                }
                for s in v {
                    push(t, now, s, u, PROBE);
                }
            }
        }
        if let Some(s) = t.steps.get(from) {
            if !other {
                last = Some((t.steps[from..].iter().map(|x| x.text.clone()).collect(), s.unit));
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------
// C18: recovery after a faulty period.

fn c18(r: &mut Rng, t: &mut Trace, big: usize) {
    let base = start_time(r);
    let (na, ng, nv) = (r.usize(4), r.usize(3), r.usize(4));
    let ids = colliding_ids(r, na.max(1));
    let tks: Vec<(String, u64)> = talkers(r, 3).into_iter().map(|k| (k, r.edgy(1, 9, &[2, 3, 9]) as u64)).collect();
    let ms = near_mmsis(r, nv.max(1));
    let mut src = 0u32;
    let mut send = |r: &mut Rng, t: &mut Trace, n: usize, t0: i64, gap: i64, part_gap: i64, clean: bool| -> Vec<Tx> {
        let mut v = vec![];
        let mut order: Vec<u32> = vec![];
        for i in 0..na {
            order.push(i as u32);
        }
        for i in 0..ng.min(tks.len()) {
            order.push(100 + i as u32);
        }
        for i in 0..nv {
            order.push(200 + i as u32);
        }
        if order.is_empty() {
            order.push(0);
        }
        let mut tt = t0;
        for _ in 0..n {
            r.shuffle(&mut order);
            for o in order.clone() {
                tt += 1 + r.below(gap as u64) as i64;
                let mut texts = vec![];
                let mut units = vec![];
                match o {
                    0..=99 => {
                        let id = &ids[o as usize];
                        let ty = r.pickc(&[1, 4, 5, 5, 9, 18, 21]);
                        let m = mmsi(r);
                        let msg = ais(r, ty, m, base);
                        let k = split_at(r, &msg.bits);
                        t.truths.push(ais_truth(&msg, id.talker(), id.own()));
                        for s in ais_sentences(&msg.bits, id, k, true, true) {
                            texts.push(s);
                            units.push(t.truths.len() as u32 - 1);
                        }
                    }
                    100..=199 => {
                        let (tk, n) = &tks[o as usize - 100];
                        for (b, tr) in gsv_group(r, tk, *n) {
                            t.truths.push(tr);
                            texts.push(with_cs(&b));
                            units.push(t.truths.len() as u32 - 1);
                        }
                    }
                    _ => {
                        let m = ms[o as usize - 200];
                        let id = ids[0].clone();
                        for ty in [240, 241] {
                            let msg = ais(r, ty, m, base);
                            t.truths.push(ais_truth(&msg, id.talker(), id.own()));
                            texts.push(ais_sentences(&msg.bits, &id, None, false, true).remove(0));
                            units.push(t.truths.len() as u32 - 1);
                        }
                    }
                }
                let mut x = tt;
                for (k, s) in texts.into_iter().enumerate() {
                    x += 1 + r.below(part_gap as u64) as i64;
                    v.push(Tx { t: x, step: step(s, src, units[k], k as u8 + 1, 0) });
                }
                src += 1;
                if clean {
                    // identities may overlap each other, but not their own next message
                    tt += 0;
                }
            }
            tt += part_gap * 12;
        }
        v
    };
    let part_gap = r.pickc(&[1i64, 1000, 100_000]);
    let n1 = 1 + r.usize(4 * big);
    let a = send(r, t, n1, 0, 50_000, part_gap, false);
    let mut f = Faults::swarm(r, part_gap);
    f.loss = f.loss.max(r.pickc(&[1000, 3000, 5000]));
    f.damage = r.pickc(&[0, 1000]);
    let mut v = revealed(deliver(r, a, &f, base));
    let b2 = v.iter().map(|s| s.now).max().unwrap_or(base) + 1;
    let n2 = 3 + r.usize(3);
    let b = send(r, t, n2, 0, 50_000, part_gap, true);
    v.extend(deliver(r, b, &Faults::default(), b2));
    if r.chance(1, 3) {
        // reports complete in themselves in between
        let mut o = vec![];
        for s in v.drain(..) {
            if r.chance(1, 4) {
                let mut x = filler(r, &mut t.truths, Some(&ids[0]), Some(ms[0]), base, true);
                x.src = u32::MAX;
                x.now = s.now;
                o.push(x);
            }
            o.push(s);
        }
        v = o;
    }
    flood(r, &mut v, &ids[0].ty, 2);
    t.steps = v;
    if r.chance(1, 3) {
        clock_steps(r, &mut t.steps, 5, i64::MAX / 4);
    }
}

fn c19(r: &mut Rng, t: &mut Trace, big: usize) {
    let w = world(r, 20 * big, true);
    build(r, &w, t);
    // now and then a consumer that does not get far
    let n = if r.chance(1, 250) { 260 + r.below(60) } else { 1 + r.below(3) };
    for _ in 0..n {
        // prefer moments with something in flight
        let at = r.usize(t.steps.len() + 1);
        let tags = match r.below(3) {
            0 => {
                count(C::RestartKept, 1);
                RESTART | KEEP
            }
            _ => RESTART,
        };
        let mut s = step(String::new(), 0, u32::MAX, 0, tags);
        s.part = r.below(2) as u8; // 1 = continue on another thread
        s.now = t.steps.get(at).map(|x| x.now).unwrap_or(w.base);
        t.steps.insert(at, s);
        count(C::Restart, 1);
    }
}

// ------------------------------------------------------------------------------------------------
// C20: end to end.

fn c20(r: &mut Rng, t: &mut Trace, big: usize) {
    let base = start_time(r);
    let stations = 1 + r.usize(4);
    let mut ids = unique_ids(r, 40 * big);
    let mut src = 0u32;
    let mut v: Vec<Step> = vec![];
    let ms = near_mmsis(r, 6);
    let tks = talkers(r, 4);
    for st in 0..stations {
        let own_ids: Vec<AisId> = ids.split_off(ids.len().saturating_sub(8 * big));
        let mut txs = vec![];
        let mut tt = 0i64;
        let part_gap = r.pickc(&[1i64, 50_000, 1_000_000]);
        let mut k24 = ms.iter().enumerate().filter(|(i, _)| i % stations == st).map(|(_, m)| *m).collect::<Vec<_>>();
        let mut groups: Vec<(String, u64)> = tks.iter().enumerate().filter(|(i, _)| i % stations == st)
            .flat_map(|(_, k)| (0..2).map(|_| (k.clone(), r.edgy(1, 9, &[1, 2, 3, 9]) as u64)).collect::<Vec<_>>()).collect();
        groups.sort();
        groups.dedup();
        let again = r.chance(1, 4);
        for id in &own_ids {
            tt += r.below(300_000) as i64;
            let mut texts: Vec<String> = vec![];
            let mut units: Vec<u32> = vec![];
            match r.below(11) {
                10 => {
                    let m = mmsi(r);
                    for s in nothing(r, &mut t.truths, id, m, base + tt) {
                        texts.push(s);
                        t.truths.push(Truth { kind: "Nothing".into(), f: vec![] });
                        units.push(t.truths.len() as u32 - 1);
                    }
                    let u = *units.last().unwrap();
                    units = vec![u; texts.len()];
                }
                0..=4 => {
                    let ty = r.pickc(&[1, 2, 3, 4, 5, 5, 5, 6, 9, 10, 18, 21, 21, 27]);
                    let m = mmsi(r);
                    let msg = ais(r, ty, m, base + tt);
                    t.truths.push(ais_truth(&msg, id.talker(), id.own()));
                    let u = t.truths.len() as u32 - 1;
                    let k = if r.chance(2, 3) { split_at(r, &msg.bits) } else { None };
                    for s in ais_sentences(&msg.bits, id, k, r.chance(1, 2), true) {
                        texts.push(s);
                        units.push(u);
                    }
                }
                5 | 6 if !groups.is_empty() => {
                    let i = r.usize(groups.len());
                    let (tk, n) = if again { groups[i].clone() } else { groups.remove(i) };
                    for (b, tr) in gsv_group(r, &tk, n) {
                        t.truths.push(tr);
                        texts.push(with_cs(&b));
                        units.push(t.truths.len() as u32 - 1);
                    }
                }
                7 | 8 if !k24.is_empty() => {
                    let i = r.usize(k24.len());
                    let m = if again { k24[i] } else { k24.remove(i) };
                    let mut parts = vec![240u32, 241];
                    if r.chance(1, 3) {
                        parts.swap(0, 1);
                    }
                    for ty in parts {
                        let msg = ais(r, ty, m, base + tt);
                        t.truths.push(ais_truth(&msg, id.talker(), id.own()));
                        texts.push(ais_sentences(&msg.bits, id, None, r.chance(1, 2), true).remove(0));
                        units.push(t.truths.len() as u32 - 1);
                    }
                }
                _ => {
                    let kind = r.pickc(&GNSS_KINDS);
                    let tk = r.pick(&SYSTEMS).0;
                    let (b, tr) = gnss(r, kind, tk);
                    t.truths.push(tr);
                    texts.push(with_cs(&b));
                    units.push(t.truths.len() as u32 - 1);
                }
            }
            let mut x = tt;
            for (k, s) in texts.into_iter().enumerate() {
                x += 1 + r.below(1 + part_gap as u64) as i64;
                txs.push(Tx { t: x, step: step(s, src, units[k], k as u8 + 1, 0) });
            }
            src += 1;
        }
        let mut f = Faults::swarm(r, part_gap);
        if r.chance(1, 2) {
            f.damage = r.pickc(&[300, 1500]);
        }
        v.extend(revealed(deliver(r, txs, &f, base)));
    }
    v.sort_by_key(|s| s.now);
    if r.chance(1, 4) {
        clock_steps(r, &mut v, 5, i64::MAX / 4);
    }
    for s in v.iter_mut() {
        if r.chance(1, 8) {
            s.tick = r.pickc(&[1, 1000, 1_000_000]);
            count(C::TickInCall, 1);
        }
    }
    flood(r, &mut v, "!AIVDM", 2);
    t.steps = v;
}

fn c21(r: &mut Rng, t: &mut Trace, big: usize) {
    let w = world(r, 15 * big, true);
    build(r, &w, t);
    if r.chance(1, 6000) {
        flood_of(r, &mut t.steps, "!AIVDM", 0, 66_000);
    }
    t.set("clock", r.u64() >> 1);
    t.set("variants", 3);
}

// ------------------------------------------------------------------------------------------------

/// The scenario that shows a recorded finding.
pub fn canonical(id: &str) -> Option<Trace> {
    let mut r = Rng::for_run(1, id, 0);
    let mut t = Trace { prop: if id == "type27-fields" { "C20" } else { "C18" }.to_string(), ..Default::default() };
    t.set("tz", "UTC0");
    t.set("log", "off");
    t.set("hash", 1);
    let base = us(2024, 5, 1, 12, 0, 0);
    let mut add = |t: &mut Trace, src: u32, part: u8, text: String, tr: Truth| {
        t.truths.push(tr);
        let mut s = step(text, src, t.truths.len() as u32 - 1, part, 0);
        s.now = base + t.steps.len() as i64 * 1_000_000;
        t.steps.push(s);
    };
    let aid = unique_ids(&mut r, 1).remove(0);
    match id {
        "type27-fields" => {
            let m = mmsi(&mut r);
            let msg = ais(&mut r, 27, m, base);
            let tr = ais_truth(&msg, aid.talker(), aid.own());
            add(&mut t, 0, 1, ais_sentences(&msg.bits, &aid, None, false, true).remove(0), tr);
        }
        "leftover-last-ais-part" => {
            for src in 0..4u32 {
                let m = mmsi(&mut r);
                let msg = ais(&mut r, 5, m, base);
                let k = split_at(&mut r, &msg.bits);
                for (i, s) in ais_sentences(&msg.bits, &aid, k, true, true).into_iter().enumerate() {
                    // the first part of the first message was lost
                    if src > 0 || i == 1 {
                        let tr = ais_truth(&msg, aid.talker(), aid.own());
                        add(&mut t, src, i as u8 + 1, s, tr);
                    }
                }
            }
        }
        "leftover-last-gsv-sentence" => {
            for src in 0..4u32 {
                for (i, (b, tr)) in gsv_group(&mut r, "GP", 2).into_iter().enumerate() {
                    if src > 0 || i == 1 {
                        add(&mut t, src, i as u8 + 1, with_cs(&b), tr);
                    }
                }
            }
        }
        "leftover-type24-part-b" => {
            let m = mmsi(&mut r);
            for src in 0..4u32 {
                for (i, ty) in [240u32, 241].into_iter().enumerate() {
                    let msg = ais(&mut r, ty, m, base);
                    if src > 0 || i == 1 {
                        let tr = ais_truth(&msg, aid.talker(), aid.own());
                        add(&mut t, src, i as u8 + 1, ais_sentences(&msg.bits, &aid, None, false, true).remove(0), tr);
                    }
                }
            }
        }
        _ => return None,
    }
    Some(t)
}
