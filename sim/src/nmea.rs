//! NMEA 0183 / AIS framing as the transmitting side and the channel see it (independent of the
//! crate under test), and calendar arithmetic.

pub fn xor(body: &str) -> u8 {
    let mut it = body.chars();
    it.next();
    it.as_str().bytes().fold(0, |a, b| a ^ b)
}

pub fn with_cs(body: &str) -> String {
    format!("{}*{:02X}", body, xor(body))
}

/// Body and checksum text (None without '*').
pub fn split_cs(text: &str) -> (&str, Option<&str>) {
    match text.rfind('*') {
        Some(p) => (&text[..p], Some(&text[p + 1..])),
        None => (text, None),
    }
}

/// False iff the sentence carries a checksum that does not match its bytes.
pub fn cs_ok(text: &str) -> bool {
    match split_cs(text) {
        (_, None) | (_, Some("")) => true,
        (b, Some(g)) => g == format!("{:02X}", xor(b)),
    }
}

#[derive(Clone, Debug, Default)]
pub struct Bits(pub Vec<bool>);

impl Bits {
    pub fn u(&mut self, v: u64, n: usize) -> &mut Self {
        for i in (0..n).rev() {
            self.0.push((v >> i) & 1 != 0);
        }
        self
    }
    pub fn i(&mut self, v: i64, n: usize) -> &mut Self {
        self.u((v as u64) & (u64::MAX >> (64 - n)), n)
    }
    pub fn b(&mut self, v: bool) -> &mut Self {
        self.0.push(v);
        self
    }
    /// Six-bit text padded with '@'.
    pub fn text(&mut self, s: &str, n: usize) -> &mut Self {
        let mut k = 0;
        for c in s.bytes().take(n) {
            self.u((c & 63) as u64, 6);
            k += 1;
        }
        for _ in k..n {
            self.u(0, 6);
        }
        self
    }
    /// Armored payload and number of fill bits.
    pub fn armor(&self) -> (String, usize) {
        let mut s = String::new();
        for ch in self.0.chunks(6) {
            let mut v = 0u8;
            for k in 0..6 {
                v = (v << 1) | (ch.get(k).copied().unwrap_or(false) as u8);
            }
            s.push((if v < 40 { v + 48 } else { v + 56 }) as char);
        }
        (s, (6 - self.0.len() % 6) % 6)
    }
}

pub fn valid_armor(p: &str) -> bool {
    p.bytes().all(|c| (48..=87).contains(&c) || (96..=119).contains(&c))
}

pub fn unarmor(p: &str) -> Vec<bool> {
    let mut v = Vec::new();
    for c in p.bytes() {
        let x = if c < 88 { c - 48 } else { c - 56 };
        for k in (0..6).rev() {
            v.push((x >> k) & 1 != 0);
        }
    }
    v
}

pub fn bits_at(b: &[bool], i: usize, n: usize) -> u64 {
    (i..i + n).fold(0, |a, k| (a << 1) | b.get(k).copied().unwrap_or(false) as u64)
}

/// What a (checksum-valid) sentence is, by its header.
#[derive(Clone, Debug, PartialEq)]
pub enum Syn {
    /// AIS sentence whose header is well-formed.
    Vdm { ty: String, count: u64, num: u64, id: Option<u64>, ch: String, payload: String },
    /// Satellites-in-view sentence whose header is well-formed.
    Gsv { ty: String, count: u64, num: u64 },
    Other,
}

pub fn syntax(text: &str) -> Syn {
    let (body, _) = split_cs(text);
    let f: Vec<&str> = body.split(',').collect();
    let ty = f[0];
    if !ty.is_ascii() || ty.len() != 6 || f.len() < 2 {
        return Syn::Other;
    }
    if ty.starts_with('!') && (ty.ends_with("VDM") || ty.ends_with("VDO")) {
        let count = f.get(1).and_then(|s| s.parse::<u8>().ok());
        let num = f.get(2).and_then(|s| s.parse::<u8>().ok());
        if let (Some(c), Some(n)) = (count, num) {
            return Syn::Vdm {
                ty: ty.to_string(),
                count: c as u64,
                num: n as u64,
                id: f.get(3).and_then(|s| s.parse().ok()),
                ch: f.get(4).unwrap_or(&"").to_string(),
                payload: f.get(5).unwrap_or(&"").to_string(),
            };
        }
    }
    if ty.starts_with('$') && ty.ends_with("GSV") {
        let count = f.get(1).and_then(|s| s.parse::<u32>().ok());
        let num = f.get(2).and_then(|s| s.parse::<u32>().ok());
        if let (Some(c), Some(n)) = (count, num) {
            if n >= 1 && n <= c {
                return Syn::Gsv { ty: ty.to_string(), count: c as u64, num: n as u64 };
            }
        }
    }
    Syn::Other
}

// ------------------------------------------------------------------------------------------------
// Calendar (proleptic Gregorian, days since 1970-01-01).

pub fn leap(y: i64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
pub fn mdays(y: i64, m: i64) -> i64 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 => 28 + leap(y) as i64,
        _ => 0,
    }
}
pub fn valid(y: i64, m: i64, d: i64) -> bool {
    (1..=12).contains(&m) && d >= 1 && d <= mdays(y, m)
}
fn leaps_before(y: i64) -> i64 {
    let k = y - 1;
    k.div_euclid(4) - k.div_euclid(100) + k.div_euclid(400)
}
pub fn days(y: i64, m: i64, d: i64) -> i64 {
    let mut n = (y - 1970) * 365 + leaps_before(y) - leaps_before(1970);
    for k in 1..m {
        n += mdays(y, k);
    }
    n + d - 1
}
pub fn civil(day: i64) -> (i64, i64, i64) {
    let mut y = 1970 + day.div_euclid(366);
    while days(y + 1, 1, 1) <= day {
        y += 1;
    }
    while days(y, 1, 1) > day {
        y -= 1;
    }
    let mut m = 1;
    let mut r = day - days(y, 1, 1);
    while r >= mdays(y, m) {
        r -= mdays(y, m);
        m += 1;
    }
    (y, m, r + 1)
}
pub const DAY_US: i64 = 86_400_000_000;
pub fn us(y: i64, mo: i64, d: i64, h: i64, mi: i64, s: i64) -> i64 {
    days(y, mo, d) * DAY_US + ((h * 60 + mi) * 60 + s) * 1_000_000
}
/// chrono's Debug rendering of an instant of whole seconds, years 0-9999.
pub fn rfc(y: i64, mo: i64, d: i64, h: i64, mi: i64, s: i64) -> String {
    format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}Z", y, mo, d, h, mi, s)
}
