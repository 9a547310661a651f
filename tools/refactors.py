# Edits that keep the behaviour; every check must stay quiet on them. Run with plant.py.
L, U = 'src/lib.rs', 'src/util.rs'
GSV, GGA, GLL, RMC, T24, T5 = 'src/gnss/gsv.rs', 'src/gnss/gga.rs', 'src/gnss/gll.rs', 'src/gnss/rmc.rs', 'src/ais/vdm_t24.rs', 'src/ais/vdm_t5.rs'
ALL = '+'.join('C%02d' % i for i in range(1, 22))
B = [
('static-regex', ALL, [
  (U, 'use regex::Regex;\n', 'use regex::Regex;\nuse std::sync::OnceLock;\nstatic LAT: OnceLock<Regex> = OnceLock::new();\nstatic LON: OnceLock<Regex> = OnceLock::new();\n'),
  (U, 'let re = Regex::new(r"^([0-9][0-9])([0-9][0-9]\\.[0-9]+)").unwrap();', 'let re = LAT.get_or_init(|| Regex::new(r"^([0-9][0-9])([0-9][0-9]\\.[0-9]+)").unwrap());'),
  (U, 'let re = Regex::new(r"^([0-9][0-9][0-9])([0-9][0-9]\\.[0-9]+)").unwrap();', 'let re = LON.get_or_init(|| Regex::new(r"^([0-9][0-9][0-9])([0-9][0-9]\\.[0-9]+)").unwrap());'),
  (L, '    saved_fragments: HashMap<String, String>,\n', '    saved_fragments: std::collections::BTreeMap<String, String>,\n'),
  (L, '            saved_fragments: HashMap::new(),', '            saved_fragments: std::collections::BTreeMap::new(),'),
  (L, '            saved_vsds:      HashMap::new(),', '            saved_vsds:      HashMap::with_capacity(64),'),
  (U, '''        for i in 0..6 {
            bv.push(((ci >> (5 - i)) & 0x01) != 0);
        }''', '''        bv.extend((0..6).map(|i| ((ci >> (5 - i)) & 0x01) != 0));'''),
  (U, '''    let mut res = 0;
    for pos in index .. (index + len) {
        res = (res << 1) | (*bv.get(pos).unwrap_or(&false) as u64);
    }
    res
''', '''    (index .. (index + len)).fold(0, |res, pos| (res << 1) | (bit_at(bv, pos) as u64))
'''),
  (U, '#[doc(hidden)]\n/// Picks a signed', 'fn bit_at(bv: &BitVec, pos: usize) -> bool {\n    bv.get(pos).map(|b| *b).unwrap_or(false)\n}\n\n#[doc(hidden)]\n/// Picks a signed'),
]),
('thread-regex', ALL, [
  (U, 'use regex::Regex;\n', 'use regex::Regex;\nthread_local! {\n    static LAT: Regex = Regex::new(r"^([0-9][0-9])([0-9][0-9]\\.[0-9]+)").unwrap();\n    static LON: Regex = Regex::new(r"^([0-9][0-9][0-9])([0-9][0-9]\\.[0-9]+)").unwrap();\n}\n'),
  (U, 'let re = Regex::new(r"^([0-9][0-9])([0-9][0-9]\\.[0-9]+)").unwrap();', 'let re = LAT.with(|r| r.clone());'),
  (U, 'let re = Regex::new(r"^([0-9][0-9][0-9])([0-9][0-9]\\.[0-9]+)").unwrap();', 'let re = LON.with(|r| r.clone());'),
  (L, '''        for b in sentence.bytes().skip(1) {
            checksum = checksum ^ b;
        }
        let checksum_hex_calculated = format!("{:02X?}", checksum);''', '''        checksum = sentence.as_bytes().iter().skip(1).fold(checksum, |c, b| c ^ b);
        let checksum_hex_calculated = {
            let mut s = String::with_capacity(256);
            s.push_str(&format!("{:02X}", checksum));
            s
        };'''),
  (L, '''    fn push_string(&mut self, key: String, value: String) {
        self.saved_fragments.insert(key, value);''', '''    fn push_string(&mut self, key: String, value: String) {
        debug!("Storing {} under {}", value, key);
        let mut v = String::with_capacity(128);
        v.push_str(&value);
        self.saved_fragments.remove(&key);
        self.saved_fragments.entry(key).or_insert(v);'''),
  (GSV, '''        let mut v = Vec::new();
        for i in 1..=msg_count {''', '''        let mut v = Vec::with_capacity(36);
        for i in 1..=msg_count {'''),
  (U, '''    if let Some(hour) = pick_s2(hhmmss, 0).parse::<u32>().ok() {
        if let Some(minute) = pick_s2(hhmmss, 2).parse::<u32>().ok() {
            if let Some(second) = pick_s2(hhmmss, 4).parse::<u32>().ok() {
                return now.date().and_hms_opt(hour, minute, second)
                          .ok_or(format!("Invalid time: {}", hhmmss))
            }
        }
    }
    return Err(format!("Invalid time format: {}", hhmmss));''', '''    let part = |i| pick_s2(hhmmss, i).parse::<u32>().map_err(|_| format!("Invalid time format: {}", hhmmss));
    let second = part(4)?;
    let minute = part(2)?;
    let hour = part(0)?;
    now.date().and_hms_opt(hour, minute, second).ok_or(format!("Invalid time: {}", hhmmss))'''),
]),
('restructured', ALL, [
  (L, '''                        if fragment_number == 1 {
                            if let Some(p) = self.pull_string(key2.into()) {
                                let mut payload_string_combined = payload_string;
                                payload_string_combined.push_str(p.as_str());
                                bv = Some(parse_payload(&payload_string_combined)?);
                            } else {
                                self.push_string(key1.into(), payload_string);
                            }
                        } else if fragment_number == 2 {
                            if let Some(p) = self.pull_string(key1.into()) {
                                let mut payload_string_combined = p.clone();
                                payload_string_combined.push_str(payload_string.as_str());
                                bv = Some(parse_payload(&payload_string_combined)?);
                            } else {
                                self.push_string(key2.into(), payload_string);
                            }
                        } else {''', '''                        if fragment_number == 1 || fragment_number == 2 {
                            let first = fragment_number == 1;
                            let (mine, other) = if first { (key1, key2) } else { (key2, key1) };
                            match self.pull_string(other) {
                                Some(p) => {
                                    let whole = if first { format!("{}{}", payload_string, p) } else { format!("{}{}", p, payload_string) };
                                    bv = Some(parse_payload(&whole)?);
                                },
                                None => self.push_string(mine, payload_string),
                            }
                        } else {'''),
  (L, '''    saved_vsds: HashMap<u32, ais::VesselStaticData>,
}''', '''    saved_vsds: std::collections::BTreeMap<u32, Box<ais::VesselStaticData>>,
}'''),
  (L, '            saved_vsds:      HashMap::new(),', '            saved_vsds:      std::collections::BTreeMap::new(),'),
  (L, '        self.saved_vsds.insert(mmsi, vsd);', '        self.saved_vsds.insert(mmsi, Box::new(vsd));'),
  (L, '        self.saved_vsds.remove(&mmsi)', '        self.saved_vsds.remove(&mmsi).map(|b| *b)'),
  (GSV, '''    if (1..=msg_count).all(|i| store.contains_key(make_gsv_key(msg_type, msg_count, i))) {
        let mut v = Vec::new();''', '''    let missing = (1..=msg_count).any(|i| !store.contains_key(make_gsv_key(msg_type, msg_count, i)));
    if !missing {
        let mut v = Vec::new();'''),
  (T24, '''    match store.pull_vsd(vsd.mmsi) {
        // Only part B has the equipment fields
        Some(ref vsd2) if vsd2.equipment_model.is_some() != part_b => {
            Ok(ParsedSentence::VesselStaticData(vsd.merge(vsd2)?))
        },
        // Nothing stored, or the same part once more
        _ => {
            store.push_vsd(vsd.mmsi, vsd);
            Ok(ParsedSentence::Incomplete)
        }
    }''', '''    let stored = store.pull_vsd(vsd.mmsi);
    if let Some(other) = stored {
        let other_is_b = other.equipment_model.is_some();
        if other_is_b != part_b {
            return vsd.merge(&other).map(ParsedSentence::VesselStaticData).map_err(|e| e.into());
        }
    }
    store.push_vsd(vsd.mmsi, vsd);
    Ok(ParsedSentence::Incomplete)'''),
  (U, '''    match this_year_eta {
        Some(eta) if now <= eta => { Some(DateTime::<Utc>::from_utc(eta, Utc)) },
        _ => { next_year_eta.map(|eta| DateTime::<Utc>::from_utc(eta, Utc)) }
    }''', '''    let eta = this_year_eta.filter(|eta| *eta >= now).or(next_year_eta)?;
    Some(DateTime::<Utc>::from_utc(eta, Utc))'''),
  (GGA, 'let now: DateTime<Utc> = Utc::now();', 'let now: DateTime<Utc> = crate::util::clock();'),
  (GLL, 'let now: DateTime<Utc> = Utc::now();', 'let now: DateTime<Utc> = crate::util::clock();'),
  (U, 'use regex::Regex;\n', 'use regex::Regex;\n\npub(crate) fn clock() -> DateTime<Utc> {\n    DateTime::<Utc>::from(std::time::SystemTime::now())\n}\n'),
  (U, 'let now = Utc::now().naive_utc();', 'let now = clock().naive_utc();'),
  (U, 'let century = (Utc::now().year() / 100) * 100;', 'let this = clock().year();\n    let century = this - this % 100;'),
]),
('no-regex', ALL, [
  (U, '''        let re = Regex::new(r"^([0-9][0-9])([0-9][0-9]\\.[0-9]+)").unwrap();
        if let Some(caps) = re.captures(lat_string) {
            let d = caps.get(1).unwrap().as_str().parse::<f64>().ok().unwrap_or(0.0);
            let m = caps.get(2).unwrap().as_str().parse::<f64>().ok().unwrap_or(0.0);
''', '''        if let Some((d, m)) = degrees(lat_string, 2) {
'''),
  (U, '''        let re = Regex::new(r"^([0-9][0-9][0-9])([0-9][0-9]\\.[0-9]+)").unwrap();
        if let Some(caps) = re.captures(lon_string) {
            let d = caps.get(1).unwrap().as_str().parse::<f64>().ok().unwrap_or(0.0);
            let m = caps.get(2).unwrap().as_str().parse::<f64>().ok().unwrap_or(0.0);
''', '''        if let Some((d, m)) = degrees(lon_string, 3) {
'''),
  (U, 'use regex::Regex;\n', '''
fn degrees(s: &str, n: usize) -> Option<(f64, f64)> {
    let b = s.as_bytes();
    if b.len() < n + 4 || !b[..n + 2].iter().all(|c| c.is_ascii_digit()) || b[n + 2] != b'.' { return None; }
    let k = b[n + 3..].iter().take_while(|c| c.is_ascii_digit()).count();
    if k == 0 { return None; }
    Some((s[..n].parse().ok()?, s[n..n + 3 + k].parse().ok()?))
}
'''),
  (L, '''                for s in sentence.split(",") {
                    match num {''', '''                let fields: Vec<&str> = sentence.split(',').collect();
                for &s in fields.iter().take(7) {
                    match num {'''),
  (L, '        // Handle sentence types\n', '''        // Handle sentence types
        self.saved_fragments.shrink_to(16);
'''),
  (L, '''        // Pick sentence type
        let mut sentence_type: String = {
            if let Some(i) = sentence.find(',') {
                sentence[0..i].into()
            } else {
                return Err(ParseError::InvalidSentence(format!("Invalid NMEA sentence: {}", sentence)));
            }
        };''', '''        // Pick sentence type
        let mut sentence_type: String = match sentence.split(',').next() {
            Some(t) if t.len() < sentence.len() => t.to_string(),
            _ => return Err(ParseError::InvalidSentence(format!("Invalid NMEA sentence: {}", sentence))),
        };'''),
]),
('scratch-and-stats', ALL, [
  (L, '''    saved_vsds: HashMap<u32, ais::VesselStaticData>,
}''', '''    saved_vsds: HashMap<u32, ais::VesselStaticData>,
    scratch: String,
    stats: std::collections::BTreeMap<u64, u64>,
    calls: u64,
}'''),
  (L, '            saved_vsds:      HashMap::new(),', '            saved_vsds:      HashMap::new(),\n            scratch: String::with_capacity(128),\n            stats: Default::default(),\n            calls: 0,'),
  (L, '        let mut checksum = 0;\n', '        let mut checksum = 0;\n        self.calls = self.calls.wrapping_add(1);\n        self.scratch.clear();\n        self.scratch.push_str(sentence);\n'),
  (L, '                    let message_type = pick_u64(&bv, 0, 6);', '                    let message_type = pick_u64(&bv, 0, 6);\n                    *self.stats.entry(message_type).or_default() += 1;'),
  (L, 'return Err(ParseError::CorruptedSentence(\n', 'debug!("call {} {:?}", self.calls, self.scratch);\n            return Err(ParseError::CorruptedSentence(\n'),
  (U, '    for c in payload.chars() {', '    bv.reserve(payload.len() * 6);\n    for c in payload.chars() {'),
]),
('global-tables', ALL, [
  (U, 'use regex::Regex;\n', '''use regex::Regex;
use std::sync::{Arc, Mutex};
static TABLE: Mutex<Vec<(&'static str, Arc<Regex>)>> = Mutex::new(Vec::new());
pub(crate) static PARSED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn regex(text: &'static str) -> Arc<Regex> {
    let mut t = TABLE.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(r) = t.iter().find(|r| r.0 == text) { return r.1.clone(); }
    let r = Arc::new(Regex::new(text).unwrap());
    t.push((text, r.clone()));
    r
}
'''),
  (U, 'let re = Regex::new(r"^([0-9][0-9])([0-9][0-9]\\.[0-9]+)").unwrap();', 'let re = regex(r"^([0-9][0-9])([0-9][0-9]\\.[0-9]+)");'),
  (U, 'let re = Regex::new(r"^([0-9][0-9][0-9])([0-9][0-9]\\.[0-9]+)").unwrap();', 'let re = regex(r"^([0-9][0-9][0-9])([0-9][0-9]\\.[0-9]+)");'),
  (L, '        let mut checksum = 0;\n', '        let mut checksum = 0;\n        let _nr = crate::util::PARSED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n'),
  (L, '        for b in sentence.bytes().skip(1) {\n            checksum = checksum ^ b;\n        }', '        sentence.as_bytes().iter().skip(1).for_each(|b| checksum ^= *b);'),
]),
('per-parser-regex', ALL, [
  (L, '''    saved_vsds: HashMap<u32, ais::VesselStaticData>,
}''', '''    saved_vsds: HashMap<u32, ais::VesselStaticData>,
    number: std::cell::OnceCell<regex::Regex>,
}'''),
  (L, '            saved_vsds:      HashMap::new(),', '            saved_vsds:      HashMap::new(),\n            number: std::cell::OnceCell::new(),'),
  (L, '                            match s.parse::<u8>() {', '                            if !self.number.get_or_init(|| regex::Regex::new("^[+0-9]{0,9999}$").unwrap()).is_match(s) { debug!("odd count"); }\n                            match s.parse::<u8>() {'),
]),
]
