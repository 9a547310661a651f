//! Stations, receivers and the links between them: turns transmissions into a trace of deliveries.

use crate::nmea::*;
use crate::rng::Rng;
use crate::shm::{count, C};
use crate::trace::*;
use crate::truth::*;

/// AIS identity: sentence type with talker, sequential message id, radio channel.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct AisId {
    pub ty: String,
    pub id: u64,
    pub ch: String,
}
impl AisId {
    pub fn talker(&self) -> &str {
        &self.ty[1..3]
    }
    pub fn own(&self) -> bool {
        self.ty.ends_with("VDO")
    }
}

pub fn channel(r: &mut Rng) -> String {
    r.pickc(&["A", "B", "A", "B", "A", "B", "1", "2", ""]).to_string()
}

pub fn ais_ty(r: &mut Rng) -> String {
    let t = if r.chance(1, 2) { "AI" } else { r.pick(&STATIONS).0 };
    format!("!{}{}", t, if r.chance(1, 5) { "VDO" } else { "VDM" })
}

pub fn ais_id(r: &mut Rng) -> AisId {
    let id = if r.chance(1, 10) { r.pickc(&[10, 11, 12, 99, 100, 255, 256, 65536, u32::MAX as u64, u64::MAX]) } else { r.below(10) };
    AisId { ty: ais_ty(r), id, ch: channel(r) }
}

/// Identities that differ in exactly one component or run together when written next to each other.
pub fn colliding_ids(r: &mut Rng, n: usize) -> Vec<AisId> {
    let base = ais_id(r);
    let mut v = vec![base.clone()];
    let ids = [1u64, 2, 11, 12, 21, 112, 121, 0, 10, 100, 3];
    let chs = ["A", "B", "1", "2", "", "a", "b", "AB", "A1", "12", "0", "01", "02", "C"];
    let mut guard = 0;
    while v.len() < n && guard < 1000 {
        guard += 1;
        let mut x = v[r.usize(v.len())].clone();
        match r.below(5) {
            0 if r.chance(1, 6) => x.ch = r.pickc(&["A ", " A", " ", "A\t", "B ", "\u{a0}A", "A.", "A;"]).into(),
            0 => x.ch = r.pickc(&chs).into(),
            // the same number to anybody who keeps fewer bits or digits of it
            1 if r.chance(1, 6) => {
                x.id = x.id.wrapping_add(r.pickc(&[10, 100, 128, 256, 1000, 1024, 10_000, 1 << 16, 1 << 24, 1 << 31, 1 << 32, 1 << 53, 1 << 63]))
            }
            1 => x.id = r.pickc(&ids),
            2 => {
                let t = r.pick(&STATIONS).0;
                x.ty = format!("!{}{}", t, &x.ty[3..]);
            }
            3 => x.ty = format!("{}{}", &x.ty[..3], if x.own() { "VDM" } else { "VDO" }),
            _ => {
                // move a digit between id and channel
                x.ch = r.pickc(&["1", "2", ""]).into();
                x.id = r.pickc(&ids);
            }
        }
        if !v.contains(&x) {
            v.push(x);
        }
    }
    v
}

/// MMSIs that differ in one bit or one digit.
pub fn near_mmsis(r: &mut Rng, n: usize) -> Vec<u32> {
    let base = mmsi(r);
    let mut v = vec![base];
    while v.len() < n {
        let b = v[r.usize(v.len())];
        let x = match r.below(4) {
            0 => b ^ (1 << r.below(30)),
            1 => b / 10,
            2 => (b % 100_000_000) * 10 + r.below(10) as u32,
            _ => mmsi(r),
        } & 0x3fff_ffff;
        if !v.contains(&x) {
            v.push(x);
        }
    }
    v
}

pub fn start_time(r: &mut Rng) -> i64 {
    if r.chance(1, 60) {
        // where counters of seconds begin, and where narrow ones end
        return r.pickc(&[0i64, 0, (1 << 31) - 2, (1 << 32) - 2]) * 1_000_000 + r.below(3_000_000) as i64 * r.below(2) as i64;
    }
    let y = r.edgy(2001, 2098, &[2020, 2023, 2024, 2026]);
    let base = match r.below(6) {
        0 => us(y, 12, 31, 23, 59, 50),
        1 => us(y, 2, 28, 23, 59, 50),
        _ => us(y, 1, 1, 0, 0, 0) + r.below(365) as i64 * DAY_US,
    };
    base + r.below(DAY_US as u64 / 4) as i64 * 4 / if r.chance(1, 2) { 1 } else { 1_000_000 }
}

/// AIS sentences of a message; split position in payload characters.
pub fn ais_sentences(bits: &Bits, id: &AisId, split: Option<usize>, single_id: bool, cs: bool) -> Vec<String> {
    let (p, fill) = bits.armor();
    let fin = |b: String| if cs { with_cs(&b) } else { b };
    match split {
        None => {
            let i = if single_id { id.id.to_string() } else { String::new() };
            vec![fin(format!("{},1,1,{},{},{},{}", id.ty, i, id.ch, p, fill))]
        }
        Some(k) => vec![
            fin(format!("{},2,1,{},{},{},0", id.ty, id.id, id.ch, &p[..k])),
            fin(format!("{},2,2,{},{},{},{}", id.ty, id.id, id.ch, &p[k..], fill)),
        ],
    }
}

pub fn split_at(r: &mut Rng, bits: &Bits) -> Option<usize> {
    let n = (bits.0.len() + 5) / 6;
    if n < 2 {
        return None;
    }
    Some(r.edgy(1, n as i64 - 1, &[1, n as i64 - 1, (n / 2) as i64]).max(1) as usize)
}

/// Fault profile of a link for one run.
#[derive(Clone, Debug, Default)]
pub struct Faults {
    pub loss: u64,   // 1/10000
    pub dup: u64,    // 1/10000
    pub late: u64,   // 1/10000: delayed by up to `late_us`
    pub late_us: i64,
    pub jitter_us: i64,
    pub burst: bool, // Gilbert-Elliott loss bursts
    pub stall: u64,  // 1/10000 per sentence: the link holds everything back for a while
    pub damage: u64, // 1/10000
}

impl Faults {
    /// Each kind of fault is on or off per run.
    pub fn swarm(r: &mut Rng, part_gap: i64) -> Faults {
        let mut f = Faults::default();
        let scale = part_gap.max(1000);
        if r.chance(1, 2) {
            f.loss = r.pickc(&[200, 1000, 3000, 5000]);
        }
        if r.chance(1, 2) {
            f.dup = r.pickc(&[200, 1000, 3000, 6000]);
        }
        if r.chance(1, 2) {
            f.late = r.pickc(&[300, 2000, 5000]);
            f.late_us = scale * r.pickc(&[2, 10, 100]);
        }
        if r.chance(1, 2) {
            f.jitter_us = scale * r.pickc(&[1, 3]);
        }
        f.burst = r.chance(1, 4);
        if r.chance(1, 4) {
            f.stall = r.pickc(&[100, 500]);
        }
        f
    }
    pub fn reorder_only(r: &mut Rng, part_gap: i64) -> Faults {
        let mut f = Faults::swarm(r, part_gap);
        f.loss = 0;
        f.dup = 0;
        f.burst = false;
        f
    }
}

/// One sentence put on the air.
#[derive(Clone, Debug)]
pub struct Tx {
    pub t: i64,
    pub step: Step,
}

pub fn step(text: String, src: u32, unit: u32, part: u8, tags: u32) -> Step {
    Step { node: 0, src, unit, part, tags, now: 0, tick: 0, text }
}

/// Damages a sentence in a way its checksum reveals (checked by the caller).
pub fn damage(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.below(3) {
        if c.is_empty() {
            break;
        }
        let i = r.usize(c.len());
        match r.below(7) {
            0 | 1 => c[i] = (33 + r.below(94) as u8) as char,
            2 => {
                c.remove(i);
            }
            3 => c.insert(i, (33 + r.below(94) as u8) as char),
            4 => {
                let j = r.usize(c.len());
                c.swap(i, j);
            }
            5 => c[i] = r.pickc(&['\u{e4}', '\u{153}', '\u{20ac}', '\u{fffd}', '\u{1f6a2}', '\u{80}', '\u{141}']),
            _ => c[i] = ((c[i] as u32 ^ (1 << r.below(7))) as u8 & 0x7f) as char,
        }
    }
    // Which bytes a checksum covers is only defined for a one-byte start character.
    if c.first().map(|c| !c.is_ascii()).unwrap_or(false) {
        c[0] = '!';
    }
    c.into_iter().collect()
}

/// Sends the transmissions over a link with faults; returns the arrivals in order with clock readings
/// base + arrival time.
pub fn deliver(r: &mut Rng, mut txs: Vec<Tx>, f: &Faults, base: i64) -> Vec<Step> {
    txs.sort_by_key(|t| t.t);
    let mut arr: Vec<(i64, usize, Step)> = vec![];
    let mut bad = false;
    let mut stall_until = i64::MIN;
    let mut seq = 0;
    for tx in txs {
        if f.burst {
            if r.chance(1, if bad { 6 } else { 25 }) {
                bad = !bad;
            }
            if bad {
                count(C::BurstLoss, 1);
                continue;
            }
        }
        if f.loss > 0 && r.bp(f.loss) {
            count(C::Loss, 1);
            continue;
        }
        let copies = if f.dup > 0 && r.bp(f.dup) {
            let n = 1 + r.below(3);
            count(C::Dup, n);
            1 + n
        } else {
            1
        };
        if f.stall > 0 && tx.t > stall_until && r.bp(f.stall) {
            stall_until = tx.t + r.range(1, 20) * f.jitter_us.max(100_000);
        }
        for k in 0..copies {
            let mut s = tx.step.clone();
            let mut t = tx.t;
            if k > 0 {
                s.tags |= DUP;
                t += r.below(1 + 4 * f.jitter_us.max(f.late_us).max(50_000) as u64) as i64;
            } else {
                if f.jitter_us > 0 {
                    t += r.below(1 + f.jitter_us as u64) as i64;
                }
                if f.late > 0 && r.bp(f.late) {
                    count(C::Delay, 1);
                    t += r.below(1 + f.late_us as u64) as i64;
                }
            }
            if t < stall_until {
                t = stall_until;
                s.tags |= STALLED;
                count(C::Stall, 1);
            }
            if f.damage > 0 && r.bp(f.damage) {
                let d = damage(r, &s.text);
                if d != s.text {
                    s.text = d;
                    s.tags |= DAMAGED;
                    count(C::Damage, 1);
                }
            }
            s.now = base + t;
            arr.push((t, seq, s));
            seq += 1;
        }
    }
    arr.sort_by_key(|a| (a.0, a.1));
    let mut max = 0;
    let mut v = vec![];
    for (_, q, mut s) in arr {
        if q < max {
            s.tags |= LATE;
            count(C::Reorder, 1);
        }
        max = max.max(q);
        v.push(s);
    }
    v
}

/// What to transmit.
#[derive(Clone, Debug)]
pub struct Mix {
    pub src: u32,
    pub ais: Vec<AisId>,
    pub two_pct: u64,
    pub types: Vec<u32>,
    pub gsv: Vec<String>,
    pub gsv_max: u64,
    pub t24: Vec<u32>,
    pub mmsis: Vec<u32>,
    pub gnss: Vec<String>,
    /// weights: two-part-capable AIS, single AIS, GSV, type 24, GNSS
    pub w: [u64; 5],
    pub n: usize,
    pub gap: i64,
    pub part_gap: i64,
    pub nocs_pct: u64,
}

impl Default for Mix {
    fn default() -> Mix {
        Mix {
            src: 0,
            ais: vec![],
            two_pct: 100,
            types: vec![1, 3, 4, 5, 5, 5, 6, 9, 10, 18, 21, 21, 27, 7, 8],
            gsv: vec![],
            gsv_max: 9,
            t24: vec![],
            mmsis: vec![],
            gnss: vec!["GP".into(), "GN".into()],
            w: [10, 2, 0, 0, 1],
            n: 20,
            gap: 200_000,
            part_gap: 50_000,
            nocs_pct: 0,
        }
    }
}

impl Mix {
    /// Transmissions of `n` messages from time `t0` on; truths are appended to `truths`.
    pub fn generate(&self, r: &mut Rng, t0: i64, base: i64, truths: &mut Vec<Truth>) -> Vec<Tx> {
        let mut v = vec![];
        let mut t = t0;
        let tot: u64 = self.w.iter().sum();
        for _ in 0..self.n {
            t += r.below(1 + 2 * self.gap as u64) as i64;
            let cs = !(self.nocs_pct > 0 && r.chance(self.nocs_pct, 100));
            let tag = if cs { 0 } else { NOCS };
            let mut x = r.below(tot);
            let mut k = 0;
            while x >= self.w[k] {
                x -= self.w[k];
                k += 1;
            }
            let mut push = |r: &mut Rng, texts: Vec<String>, units: Vec<u32>, tags: u32| {
                let mut tt = t;
                for (i, s) in texts.into_iter().enumerate() {
                    if i > 0 {
                        tt += 1 + r.below(1 + self.part_gap as u64) as i64;
                    }
                    let u = if units.len() == 1 { units[0] } else { units[i] };
                    v.push(Tx { t: tt, step: step(s, self.src, u, i as u8 + 1, tags | tag) });
                }
            };
            match k {
                0 | 1 => {
                    let id = r.pick(&self.ais).clone();
                    let ty = r.pickc(&self.types);
                    let m = if !self.mmsis.is_empty() && r.chance(2, 3) { r.pickc(&self.mmsis) } else { mmsi(r) };
                    let msg = ais(r, ty, m, base + t);
                    truths.push(ais_truth(&msg, id.talker(), id.own()));
                    let u = truths.len() as u32 - 1;
                    let split = if k == 0 && r.chance(self.two_pct, 100) { split_at(r, &msg.bits) } else { None };
                    let self_contained = split.is_none();
                    let s = ais_sentences(&msg.bits, &id, split, r.chance(1, 2), cs);
                    push(r, s, vec![u], if self_contained { SELF } else { 0 });
                }
                2 => {
                    let talker = r.pick(&self.gsv).clone();
                    let n = r.edgy(1, self.gsv_max as i64, &[1, 2, 3, self.gsv_max as i64]) as u64;
                    let g = gsv_group(r, &talker, n);
                    let mut units = vec![];
                    let mut texts = vec![];
                    for (b, tr) in g {
                        truths.push(tr);
                        units.push(truths.len() as u32 - 1);
                        texts.push(if cs { with_cs(&b) } else { b });
                    }
                    if units.len() == 1 {
                        push(r, texts, units, 0);
                    } else {
                        push(r, texts, units, 0);
                    }
                }
                3 => {
                    let m = r.pickc(&self.t24);
                    let own = self.ais.first().map(|i| i.own()).unwrap_or(false);
                    let _ = own;
                    let mut texts = vec![];
                    let mut units = vec![];
                    let mut parts = vec![240u32, 241];
                    if r.chance(1, 3) {
                        parts.swap(0, 1);
                    }
                    if r.chance(1, 5) {
                        parts.pop();
                    }
                    let id = if self.ais.is_empty() { ais_id(r) } else { r.pick(&self.ais).clone() };
                    for ty in parts {
                        let msg = ais(r, ty, m, base + t);
                        truths.push(ais_truth(&msg, id.talker(), id.own()));
                        let u = truths.len() as u32 - 1;
                        let split = if r.chance(self.two_pct, 400) { split_at(r, &msg.bits) } else { None };
                        for s in ais_sentences(&msg.bits, &id, split, r.chance(1, 2), cs) {
                            texts.push(s);
                            units.push(u);
                        }
                    }
                    push(r, texts, units, 0);
                }
                _ => {
                    let talker = r.pick(&self.gnss).clone();
                    let kind = r.pickc(&GNSS_KINDS);
                    let (b, tr) = gnss(r, kind, &talker);
                    truths.push(tr);
                    let u = truths.len() as u32 - 1;
                    push(r, vec![if cs { with_cs(&b) } else { b }], vec![u], SELF);
                }
            }
        }
        v
    }
}

/// A self-contained sentence and its truth index: any kind, same identity material as pending parts if given.
pub fn filler(r: &mut Rng, truths: &mut Vec<Truth>, id: Option<&AisId>, m: Option<u32>, base: i64, cs: bool) -> Step {
    let fin = |b: String| if cs { with_cs(&b) } else { b };
    if r.chance(1, 3) {
        let kind = r.pickc(&GNSS_KINDS);
        let talker = r.pick(&SYSTEMS).0;
        let (b, t) = gnss(r, kind, talker);
        truths.push(t);
        step(fin(b), 0, truths.len() as u32 - 1, 1, SELF)
    } else {
        let id = id.cloned().unwrap_or_else(|| ais_id(r));
        let ty = r.pickc(&[1, 2, 3, 4, 5, 6, 9, 10, 18, 21, 27]);
        let mm = m.unwrap_or_else(|| mmsi(r));
        let msg = ais(r, ty, mm, base);
        truths.push(ais_truth(&msg, id.talker(), id.own()));
        let s = ais_sentences(&msg.bits, &id, None, r.chance(1, 2), cs).remove(0);
        step(s, 0, truths.len() as u32 - 1, 1, SELF)
    }
}

/// Parts of an identity whose header or payload nobody expects: numbers outside the message, counts
/// that are not supported, payloads that are empty, very short or long, of an unknown type or with
/// characters outside the alphabet. The checksum is right.
pub fn odd_part(r: &mut Rng, id: &AisId) -> String {
    let num = 1 + r.below(2);
    let payload = |r: &mut Rng| -> String {
        let mut b = Bits::default();
        let n = r.pickc(&[0u64, 1, 3, 20, 60, 200]);
        match r.below(7) {
            0 => return String::new(),
            1 => return r.pickc(&["0", "5", "H", "w", "55", "H0", "6000"]).to_string(),
            2 => {
                let m = mmsi(r);
                b.u(24, 6).u(0, 2).u(m as u64, 30).u(2 + r.below(2), 2);
            }
            3 => {
                b.u(r.pickc(&[0u64, 7, 8, 11, 19, 28, 63]), 6);
            }
            _ => {}
        }
        for _ in 0..n {
            b.u(r.below(64), 6);
        }
        let mut p = b.armor().0;
        if r.chance(1, 2) {
            let at = r.usize(p.len() + 1);
            p.insert(at, r.pickc(&['~', 'X', '_', ' ', '/', '!', 'x', '}', '\u{e4}', '\u{20ac}']));
        }
        p
    };
    let p = payload(r);
    let b = match r.below(9) {
        0 => format!("{},2,{},{},{},{},0", id.ty, r.pickc(&[0u64, 3, 4, 9, 255]), id.id, id.ch, p),
        1 => format!("{},{},{},{},{},{},0", id.ty, r.pickc(&[0u64, 3, 4, 5, 9, 255]), num, id.id, id.ch, p),
        2 => format!("{},2,{},{},{},{},0", id.ty, num, r.pickc(&["", "x", "-1", "1.0"]), id.ch, p),
        3 => format!("{},1,{},{},{},{},0", id.ty, r.pickc(&[0u64, 2, 3]), id.id, id.ch, p),
        _ => format!("{},2,{},{},{},{},{}", id.ty, num, id.id, id.ch, p, r.below(6)),
    };
    with_cs(&b)
}

/// Sentences that must be rejected: wrong checksum, unknown or unimplemented type, malformed header or field.
pub fn reject(r: &mut Rng, truths: &mut Vec<Truth>, id: &AisId, m: u32, talker: &str) -> String {
    let msg = { let ty = r.pickc(&AIS_TYPES); ais(r, ty, m, 0) };
    let (p, _) = msg.bits.armor();
    let _ = &truths;
    let num = 1 + r.below(2);
    match r.below(14) {
        0 | 1 => {
            // right header, wrong checksum: a part of a pending message's identity
            let b = format!("{},2,{},{},{},{},0", id.ty, num, id.id, id.ch, p);
            let x = xor(&b) ^ (1 << r.below(8)) as u8;
            format!("{}*{:02X}", b, x)
        }
        2 => {
            let b = format!("{},1,1,,{},{},0", id.ty, id.ch, p);
            format!("{}*{:02X}", b, xor(&b).wrapping_add(1))
        }
        3 => {
            let n = 1 + r.below(4);
            let i = r.below(n);
            let b = gsv_group(r, talker, n)[i as usize].0.clone();
            format!("{}*{:02X}", b, xor(&b).wrapping_sub(1))
        }
        4 => with_cs(&format!("{},{},{},{},{},{},0", id.ty, r.pickc(&["x", "", "-1", "256", "2.0", " 2"]), num, id.id, id.ch, p)),
        5 => with_cs(&format!("{},2,{},{},{},{},0", id.ty, r.pickc(&["x", "", "-1", "256", "1.5"]), id.id, id.ch, p)),
        6 => with_cs(&format!("${}GSV,{},{},12,01,,,", talker, r.pickc(&["x", "-1", "4294967296", "1.5", "", "0"]), num)),
        7 => with_cs(&format!("${}GSV,{},{},12,01,,,", talker, 1 + r.below(5), r.pickc(&["x", "-1", "4294967296", "0", "", "6", "7", "9", "10", "4294967295"]))),
        8 => {
            let b = r.pickc(&["ZDA,120000,01,01,2020,,", "ALM,1,1", "HDT,1.0,T", "XTE,A,A,0.1,L,N", "BOD,1,T", "RMA,A",
                "TRF,1", "STN,1", "VBW,1", "XTC,A", "AAM,A"]);
            with_cs(&format!("${}{}", talker, b))
        }
        9 => {
            let mut b = Bits::default();
            let ty = r.pickc(&[7u64, 8, 11, 12, 13, 14, 15, 16, 17, 19, 20, 22, 23, 25, 26, 0, 28, 40, 63]);
            b.u(ty, 6).u(0, 2).u(m as u64, 30);
            for _ in 0..r.below(20) {
                b.u(r.below(64), 6);
            }
            ais_sentences(&b, id, None, true, true).remove(0)
        }
        10 => {
            let mut b = Bits::default();
            b.u(24, 6).u(0, 2).u(m as u64, 30).u(2 + r.below(2), 2);
            for _ in 0..21 {
                b.u(r.below(64), 6);
            }
            ais_sentences(&b, id, None, true, true).remove(0)
        }
        11 => with_cs(&r.pickc(&["$GPGGA,120000,12x4.5,N,02400.1,E,1,04,,,M,,M,,", "$GPGLL,4916.45,N,1x311.12,W,225444,A,",
            "$GPGSA,X,3,04,,,,,,,,,,,,1.0,1.0,1.0", "$GPGSA,A,9,04,,,,,,,,,,,,1.0,1.0,1.0", "$GPGSA,A,3,999,,,,,,,,,,,,1,1,1",
            "$GPRMC,120000,Q,4916.45,N,12311.12,W,0,0,010120,,", "$GPRMC,120000,A,4916.45,N,12311.12,W,0,0,010120,1.0,Q",
            "$GPGGA,120000,1234.5,N,02400.1,E,x,04,,,M,,M,,", "$GPGGA,120000,1234.5,N,02400.1,E,1,04,abc,,M,,M,,"]).to_string()),
        12 => r.pickc(&["", "*", "garbage", "$", "!", ",", "!,", "$,", "$GP,", "!AIVDM", "$PUBX,00", "$GPXXX,1", "!AIVDX,2,1,1,A,x,0",
            "\u{20ac}\u{20ac},1", "!AIVDM,2", "!AIVDM,2,1*00"]).to_string(),
        _ => with_cs(&format!("{},1,1,{},{},{}\u{7e},0", id.ty, id.id, id.ch, p)),
    }
}

/// Sentences that carry no message of a kind the crate reports: other types whose bodies look like
/// known ones, message types that are not decoded (whole or in parts), malformed ones.
pub fn nothing(r: &mut Rng, truths: &mut Vec<Truth>, id: &AisId, m: u32, base: i64) -> Vec<String> {
    let cut = |s: &str| split_cs(s).0.to_string();
    match r.below(6) {
        0 => {
            let kind = r.pickc(&GNSS_KINDS);
            let tk = r.pick(&SYSTEMS).0;
            let b = gnss(r, kind, tk).0;
            let (ty, rest) = b.split_at(b.find(',').unwrap_or(b.len()));
            let t = match r.below(8) {
                0 => format!("{}{}", ty, r.pickc(&["X", "A", "1", "_"])),
                1 => format!("${}", kind),
                2 => format!("!{}", &ty[1..]),
                3 => ty.to_lowercase(),
                4 => format!("{}{}", &ty[..ty.len() - 1], r.pickc(&["Z", "Q", "0"])),
                5 => ty[1..].to_string(),
                6 => format!("$X{}", &ty[1..]),
                _ => format!("{}{}", &ty[..3], kind.to_lowercase()),
            };
            vec![with_cs(&format!("{}{}", t, rest))]
        }
        1 => {
            let ty = r.pickc(&AIS_TYPES);
            let msg = ais(r, ty, m, base);
            let s = cut(&ais_sentences(&msg.bits, id, None, true, true).remove(0));
            let rest = &s[id.ty.len()..];
            let t = match r.below(6) {
                0 => format!("{}{}", id.ty, r.pickc(&["X", "M", "1"])),
                1 => format!("!{}", &id.ty[3..]),
                2 => format!("${}", &id.ty[1..]),
                3 => id.ty.to_lowercase(),
                4 => format!("{}{}", &id.ty[..3], r.pickc(&["ABM", "BBM", "VDL", "VDQ", "VSD"])),
                _ => id.ty[1..].to_string(),
            };
            vec![with_cs(&format!("{}{}", t, rest))]
        }
        2 | 3 => {
            // message types that are not decoded; some long enough for two sentences
            let mut b = Bits::default();
            let ty = r.pickc(&[7u64, 8, 8, 11, 12, 13, 14, 15, 16, 17, 19, 20, 22, 23, 25, 26, 0, 28, 31, 32, 40, 63]);
            b.u(ty, 6).u(r.below(4), 2).u(m as u64, 30);
            let n = r.pickc(&[6u64, 15, 22, 45, 60, 66]);
            for _ in 0..n {
                b.u(r.below(64), 6);
            }
            let k = if r.chance(1, 2) { split_at(r, &b) } else { None };
            ais_sentences(&b, id, k, r.chance(1, 2), true)
        }
        4 => {
            // a message in three or more sentences
            let msg = ais(r, 5, m, base);
            let p = msg.bits.armor().0;
            let n = 3 + r.usize(7);
            let len = p.len() / n + 1;
            let mut v = vec![];
            for (i, c) in p.as_bytes().chunks(len).enumerate() {
                v.push(with_cs(&format!("{},{},{},{},{},{},0", id.ty, n, i + 1, id.id, id.ch, String::from_utf8_lossy(c))));
            }
            v
        }
        _ => {
            let tk = r.pick(&SYSTEMS).0;
            vec![reject(r, truths, id, m, tk)]
        }
    }
}
