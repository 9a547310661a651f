# Fourth list of planted changes (see plant.py).
L, U = 'src/lib.rs', 'src/util.rs'
G = 'src/gnss/'
GSV, GGA, GLL, RMC, GSA, VTG = G+'gsv.rs', G+'gga.rs', G+'gll.rs', G+'rmc.rs', G+'gsa.rs', G+'vtg.rs'
A = 'src/ais/'
T24, T5, T21, T4 = A+'vdm_t24.rs', A+'vdm_t5.rs', A+'vdm_t21.rs', A+'vdm_t4.rs'
SF = '    saved_fragments: HashMap<String, String>,\n'
SN = '            saved_fragments: HashMap::new(),'
TOP = '        let mut checksum = 0;\n'
FRAG1 = '''                            } else {
                                self.push_string(key1.into(), payload_string);
                            }'''
PUSH = '        self.saved_fragments.insert(key, value);'
PULL = '        self.saved_fragments.remove(&key)'
HANDLE = '        // Handle sentence types\n'
def field(decl, init):
    return [(L, SF, SF + '    ' + decl + '\n'), (L, SN, SN + '\n            ' + init)]
B = [
# C01
('num-u8', 'C01', [(L, 'let mut num = 0;\n', 'let mut num: u8 = 0;\n')]),
('prn-add', 'C01', [(GSA, 'v.push(val);', 'let val: u32 = val;\n                        v.push(if val > 64 && val + 0x7fff_ffff > 0 { val } else { val });')]),
('finite', 'C01', [(U, 'Ok(p)   => { Ok(Some(p)) }, ', 'Ok(p)   => { debug_assert!(!s.eq_ignore_ascii_case("nan")); Ok(Some(p)) }, ')]),
('variation-cmp', 'C01', [(RMC, '&"W" => { Some(-val) },', '&"W" => { Some(if val.partial_cmp(&0.0).unwrap() == std::cmp::Ordering::Less { val } else { -val }) },')]),
('gsv-split-bound', 'C01', [(GSV, 'for j in 0..4 {', 'for j in 0..(split.len() - 4) / 4 {')]),
('t21-window', 'C01', [(T21, 's.push_str(&pick_string(&bv, 272, 14));', 'if bv.len() > 272 { s.push_str(&pick_string(&bv, 272, (bv.len() - 270) / 6 - 1 + 1)); let _ = &bv[272..278]; }')]),
('calls-u16', 'C01', field('calls: u16,', 'calls: 0,') + [(L, TOP, '        self.calls += 1;\n' + TOP)]),
('errs-u8', 'C01', field('errs: u8,', 'errs: 0,') + [(L, '            return Err(ParseError::CorruptedSentence(', '            self.errs += 1;\n            return Err(ParseError::CorruptedSentence(')]),
('half-pair-depth', 'C01', [(U, 'let mut bv = BitVec::<LocalBits, usize>::with_capacity(payload.len() * 6);', 'let mut bv = BitVec::<LocalBits, usize>::with_capacity(payload.len() * 6);\n    if payload.len() > 1024 { panic!("payload too long") }')]),
('eta-sub', 'C01', [(U, '    if month == 0  { month', '    let _days_left = 31 - day;\n    let _hours_left = 24u32.checked_sub(hour).expect("hour");\n    if month == 0  { month')]),
# C02
('cs-p', 'C02', [(L, 'if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != "" {', 'if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != "" && !sentence.starts_with("$P") {')]),
('cs-first-diff', 'C02', [(L, 'if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != "" {', 'if checksum_hex_given != "" && (checksum_hex_given.len() != 2 || u8::from_str_radix(&checksum_hex_given, 16).ok() != Some(checksum)) {')]),
('cs-once', 'C02', field('last_bad: String,', 'last_bad: String::new(),') + [(L, '            return Err(ParseError::CorruptedSentence(', '            if self.last_bad == sentence { self.last_bad.clear(); } else {\n            self.last_bad = sentence;\n            return Err(ParseError::CorruptedSentence('),
   (L, '                               checksum_hex_calculated, checksum_hex_given)));\n        }', '                               checksum_hex_calculated, checksum_hex_given)));\n            }\n        }')]),
('cs-dollar-bang', 'C02', [(L, 'for b in sentence.bytes().skip(1) {', "for b in sentence.bytes().skip(1).filter(|b| *b != b'!' && *b != b'$') {")]),
('cs-drop-inner', 'C02', [(L, '(sentence[0..pos].to_string(),', '(sentence[0..pos].trim_end_matches(\',\').to_string(),')]),
# C03
('streak-20', 'C03', field('streak: u32,', 'streak: 0,') + [(L, '            return Err(ParseError::CorruptedSentence(', '            self.streak += 1;\n            if self.streak >= 20 { self.saved_fragments.clear(); self.streak = 0; }\n            return Err(ParseError::CorruptedSentence('), (L, '        // Pick sentence type\n', '        self.streak = 0;\n        // Pick sentence type\n')]),
('streak-100', 'C03', field('streak: u32,', 'streak: 0,') + [(L, '            return Err(ParseError::CorruptedSentence(', '            self.streak += 1;\n            if self.streak >= 100 { self.saved_fragments.clear(); self.streak = 0; }\n            return Err(ParseError::CorruptedSentence('), (L, '        // Pick sentence type\n', '        self.streak = 0;\n        // Pick sentence type\n')]),
('rmc-err-vsd', 'C03', [(L, '                return gnss::rmc::handle(', '                if sentence.contains(",X,") { self.saved_vsds.clear(); }\n                return gnss::rmc::handle(')]),
('bad-frag-own', 'C03', [(L, 'warn!("Unexpected NMEA fragment number: {}/{}", fragment_number, fragment_count);', 'self.pull_string(key1);\n                            return Err(ParseError::InvalidSentence("fragment number".into()));')]),
('t19-err', 'C03', [(T24, '            return Err(format!("AIVDM type 24 part number has unexpected value: {}", ', '            store.pull_vsd(pick_u64(&bv, 8, 30) as u32);\n            return Err(format!("AIVDM type 24 part number has unexpected value: {}", ')]),
# C04
('age-10000', 'C04', field('n: u64, at: HashMap<String, u64>,', 'n: 0, at: HashMap::new(),') + [(L, TOP, '        self.n += 1;\n' + TOP), (L, PUSH, '        self.at.insert(key.clone(), self.n);\n' + PUSH), (L, PULL, '        if let Some(a) = self.at.remove(&key) { if self.n - a > 10000 { self.saved_fragments.remove(&key); return None; } }\n' + PULL)]),
('age-300', 'C04', field('n: u64, at: HashMap<String, u64>,', 'n: 0, at: HashMap::new(),') + [(L, TOP, '        self.n += 1;\n' + TOP), (L, PUSH, '        self.at.insert(key.clone(), self.n);\n' + PUSH), (L, PULL, '        if let Some(a) = self.at.remove(&key) { if self.n - a > 300 { self.saved_fragments.remove(&key); return None; } }\n' + PULL)]),
('join-sep', 'C04', [(L, 'payload_string_combined.push_str(payload_string.as_str());', 'payload_string_combined.push_str(payload_string.trim_start_matches(\'0\'));')]),
('same-halves', 'C04', [(L, 'if let Some(p) = self.pull_string(key1.into()) {', 'if let Some(p) = self.pull_string(key1.into()).filter(|p| *p != payload_string) {')]),
('id-neg', 'C04', [(L, 'message_id = s.parse::<u64>().ok();', 'message_id = s.parse::<i64>().ok().map(|i| i as u64);')]),
('nine-chars-second', 'C04', [(L, 'if let Some(p) = self.pull_string(key1.into()) {', 'if let Some(p) = self.pull_string(key1.into()).map(|p| if p.len() + payload_string.len() > 174 { p[..174usize.saturating_sub(payload_string.len())].to_string() } else { p }) {')]),
# C05
('id-sep', 'C05', [(U, 'format!("{},{},{},{},{}", sentence_type, fragment_count, fragment_number, message_id, radio_channel_code)', 'format!("{},{},{},{}{}", sentence_type, fragment_count, fragment_number, message_id, radio_channel_code)')]),
('ch-trim', 'C05', [(L, 'radio_channel_code = Some(s);', 'radio_channel_code = Some(s.trim_start_matches(\'0\'));')]),
('ch-12ab', 'C05', [(L, 'radio_channel_code = Some(s);', 'radio_channel_code = Some(match s { "1" => "A", "2" => "B", _ => s });')]),
('id-hash16', 'C05', [(L, 'message_id = s.parse::<u64>().ok();', 'message_id = s.parse::<u64>().ok().map(|i| if i > 99 { (i ^ (i >> 16)) & 0xffff } else { i });')]),
# C06
('used-copy-late', 'C06', field('last: Option<(String, String)>,', 'last: None,') + [(L, PULL, '        let r = self.saved_fragments.remove(&key);\n        if let (Some(v), None) = (&r, &self.last) { self.last = Some((key, v.clone())); return r; }\n        if r.is_none() && self.last.as_ref().map_or(false, |l| l.0 == key) { return self.last.take().map(|l| l.1); }\n        r')]),
('copy-longer', 'C06', [(L, PUSH, '        if self.saved_fragments.get(&key).map_or(false, |v| v.len() > value.len()) { return; }\n' + PUSH)]),
('copy-4th', 'C06', field('copies: HashMap<String, u8>,', 'copies: HashMap::new(),') + [(L, PUSH, '        let c = self.copies.entry(key.clone()).or_insert(0);\n        *c = c.wrapping_add(1);\n        if *c % 4 == 0 { return; }\n' + PUSH), (L, PULL, '        self.copies.remove(&key);\n' + PULL)]),
# C07
('gsv-u8', 'C07', [(GSV, 'format!("{},{},{}", sentence_type, msg_count, msg_num)', 'format!("{},{},{}", sentence_type, msg_count & 7, msg_num)')]),
('gsv-three-digit', 'C07', [(GSV, 'if let Some(prn) = pick_number_field(&split, 4 + 4 * j as usize + 0).ok().unwrap_or(None) {', 'if let Some(prn) = pick_number_field(&split, 4 + 4 * j as usize + 0).ok().unwrap_or(None).filter(|p: &u16| *p < 1000).map(|p| p as _) {')]),
('gsv-order-dup', 'C07', [(GSV, '        return Ok(ParsedSentence::Gsv(v));', '        v.dedup_by(|a: &mut GsvData, b| a.prn_number == b.prn_number && a.snr == b.snr);\n        return Ok(ParsedSentence::Gsv(v));')]),
('gsv-gn', 'C07', [(GSV, '    let msg_type = split.get(0).unwrap_or(&"");', '    let msg_type = match split.get(0).unwrap_or(&"") { &"$GNGSV" => &"$GPGSV", x => x };')]),
('gsv-bd', 'C07', [(L, '"BD" => Some(gnss::NavigationSystem::Beidou),', '"BD" | "GB" => Some(gnss::NavigationSystem::Beidou),'), (GSV, '    let msg_type = split.get(0).unwrap_or(&"");', '    let msg_type = match split.get(0).unwrap_or(&"") { &"$GBGSV" => &"$BDGSV", x => x };')]),
('gsv-empty-mid', 'C07', [(GSV, '                for j in 0..4 {\n', '                for j in 0..4 {\n                    if split.get(4 + 4 * j as usize).unwrap_or(&"") == &"" { break; }\n')]),
# C08
('t24-own-mix', 'C08', [(T24, 'match store.pull_vsd(vsd.mmsi) {', 'match store.pull_vsd(vsd.mmsi).filter(|v| v.own_vessel == own_vessel) {')]),
('t24-aux', 'C08', [(T24, '    // Check whether we can return a complete or incomplete response\n', '    if vsd.mmsi / 10_000_000 == 98 && part_a && vsd.name.is_none() { return Ok(ParsedSentence::Incomplete); }\n')]),
('t24-merge-type', 'C08', [(T24, '''                    if self.cargo_type != CargoType::Undefined {
                        self.cargo_type''', '''                    if self.cargo_type != CargoType::Undefined || self.name.is_none() && self.call_sign.is_none() {
                        self.cargo_type'''), (T24, 'if self.ship_type != ShipType::NotAvailable {', 'if self.ship_type != ShipType::NotAvailable && self.ship_type != ShipType::Other {')]),
# C09
('frag-limit-type', 'C09', [(L, PUSH, '        if self.saved_fragments.len() > 200 && !key.starts_with(\'$\') { self.saved_fragments.retain(|k, _| k.starts_with(\'$\')); }\n' + PUSH)]),
('vdo-clears', 'C09', [(L, "                let own_vessel = sentence_type.as_str() == \"!VDO\";", "                let own_vessel = sentence_type.as_str() == \"!VDO\";\n                if own_vessel { self.saved_fragments.retain(|k, _| !k.contains(\"VDO,2,2\")); }")]),
# C10
('gga-hist', 'C10', field('last_q: u32,', 'last_q: 0,') + [(L, '            "$GGA" => {', '            "$GGA" => {\n                self.last_q += 1;\n                if self.last_q > 250 && sentence.contains(",0,") { self.last_q = 0; return Err(ParseError::InvalidSentence("no fix".into())); }')]),
('vtg-faa', 'C10', field('faa: bool,', 'faa: false,') + [(L, '            "$VTG" => {', '            "$VTG" => {\n                let long = sentence.split(\',\').count() > 9;\n                if self.faa && !long { self.faa = false; return Err(ParseError::InvalidSentence("FAA mode missing".into())); }\n                self.faa = long;')]),
('t4-drops', 'C10', [(L, '                        4 => {\n', '                        4 => {\n                            if pick_u64(&bv, 38, 14) == 0 { self.saved_vsds.clear(); }\n')]),
# C11
('parser-ids', 'C11+C19+C10', field('id: u8,', 'id: NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst),') + [(L, 'impl NmeaParser {\n    /// Default', 'static NEXT: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);\nstatic STORE: std::sync::Mutex<std::collections::BTreeMap<(u8, String), String>> = std::sync::Mutex::new(std::collections::BTreeMap::new());\n\nimpl NmeaParser {\n    /// Default'), (L, PUSH, '        STORE.lock().unwrap().insert((self.id, key.clone()), value.clone());\n' + PUSH), (L, PULL, '        self.saved_fragments.remove(&key);\n        STORE.lock().unwrap().remove(&(self.id, key))')]),
('self-addr', 'C11+C19', [(L, 'impl NmeaParser {\n    /// Default', 'static STORE: std::sync::Mutex<std::collections::BTreeMap<(usize, String), String>> = std::sync::Mutex::new(std::collections::BTreeMap::new());\nimpl Drop for NmeaParser { fn drop(&mut self) { let me = self as *const _ as usize; STORE.lock().unwrap().retain(|k, _| k.0 != me); } }\n\nimpl NmeaParser {\n    /// Default'), (L, PUSH, '        STORE.lock().unwrap().insert((self as *const _ as usize, key.clone()), value.clone());\n' + PUSH), (L, PULL, '        self.saved_fragments.remove(&key);\n        STORE.lock().unwrap().remove(&(self as *const _ as usize, key))')]),
('scratch-swap', 'C11', [(L, HANDLE, '        SCRATCH.lock().unwrap().clone_from(&sentence);\n        let sentence = { std::mem::take(&mut *SCRATCH.lock().unwrap()) };\n' + HANDLE), (L, 'impl NmeaParser {\n    /// Default', 'static SCRATCH: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());\n\nimpl NmeaParser {\n    /// Default')]),
('once-nav', 'C11', [(L, 'impl NmeaParser {\n    /// Default', 'static OWN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);\n\nimpl NmeaParser {\n    /// Default'), (L, 'let own_vessel = sentence_type.as_str() == "!VDO";', 'OWN.store(sentence_type.as_str() == "!VDO", std::sync::atomic::Ordering::SeqCst);'), (L, '                if let Some(bv) = bv {\n', '                let own_vessel = OWN.load(std::sync::atomic::Ordering::SeqCst);\n                if let Some(bv) = bv {\n')]),
('rw-upgrade', 'C11', [(L, 'impl NmeaParser {\n    /// Default', 'static SEEN: std::sync::Mutex<u64> = std::sync::Mutex::new(0);\nstatic LOGGED: std::sync::Mutex<u64> = std::sync::Mutex::new(0);\n\nimpl NmeaParser {\n    /// Default'), (L, '            "$GSV" => {', '            "$GSV" => {\n                let mut a = SEEN.lock().unwrap();\n                *LOGGED.lock().unwrap() += 1;\n                *a += 1;\n                drop(a);'), (L, '            "$GSA" => {', '            "$GSA" => {\n                let mut b = LOGGED.lock().unwrap();\n                *SEEN.lock().unwrap() += 1;\n                *b += 1;\n                drop(b);')]),
# C12
('rand-state', 'C12', [(L, PUSH, '        if self.saved_fragments.len() >= 12 { let k = self.saved_fragments.keys().next().cloned(); if let Some(k) = k { self.saved_fragments.remove(&k); } }\n' + PUSH)]),
('tz-century', 'C12', [(U, 'let century = (Utc::now().year() / 100) * 100;', 'let century = (chrono::Local::now().year() / 100) * 100;')]),
('log-max', 'C12', [(L, '                            warn!("Unexpected NMEA fragment number: {}/{}", fragment_number, fragment_count);', '                            if log_enabled!(log::Level::Warn) { self.pull_string(key1); }')]),
# C13
('leak-byte-err', 'C13', field('errs: Vec<u8>,', 'errs: Vec::new(),') + [(L, '            return Err(ParseError::CorruptedSentence(', '            self.errs.push(checksum);\n            return Err(ParseError::CorruptedSentence(')]),
('leak-own-mmsi', 'C13', field('own: std::collections::HashSet<u32>,', 'own: Default::default(),') + [(L, '                    let message_type = pick_u64(&bv, 0, 6);', '                    let message_type = pick_u64(&bv, 0, 6);\n                    if own_vessel { self.own.insert(pick_u64(&bv, 8, 30) as u32); }')]),
('leak-forget', 'C13', [(L, 'impl NmeaParser {\n    /// Default', 'impl Drop for NmeaParser {\n    fn drop(&mut self) {\n        if self.saved_vsds.len() > 3 { std::mem::forget(std::mem::take(&mut self.saved_vsds)); }\n    }\n}\n\nimpl NmeaParser {\n    /// Default')]),
('leak-gsv-count', 'C13', [(GSV, '    store.push_string(make_gsv_key(msg_type, msg_count, msg_num), sentence.into());', '    store.push_string(make_gsv_key(msg_type, msg_count, msg_num), sentence.into());\n    store.push_string(format!("{}#{}", msg_type, split.get(3).unwrap_or(&"")), msg_type.to_string());'), (GSV, '        assert_eq!(p.strings_count(), 1);', '        assert!(p.strings_count() > 0);')]),
# C14
('gsa-nth', 'C14', [(GSA, 'for i in 3..15 {', 'for i in 3..(split.len().max(15)) {\n                let split: Vec<&str> = sentence.split(\',\').collect();\n                if i >= 15 { continue; }')]),
('trim-loop', 'C14', [(L, '        // Pick sentence type\n', '        let mut sentence = sentence;\n        while sentence.ends_with(",,,,,,,,") { sentence = sentence[..sentence.len() - 1].to_string(); }\n        // Pick sentence type\n')]),
('resort', 'C14', [(L, PUSH, PUSH + '\n        let mut k: Vec<&String> = self.saved_fragments.keys().collect();\n        k.sort();\n        debug!("{} waiting, first {:?}", k.len(), k.first());')]),
('imo-loop', 'C14', [(T5, '            let raw = pick_string(&bv, 70, 7);', '            let mut x = pick_u64(&bv, 40, 30);\n            let mut n = 0u64;\n            while x > 1000 { x -= 7; n += 1; }\n            debug!("{}", n);\n            let raw = pick_string(&bv, 70, 7);')]),
# C15
('noon-day', 'C15', [(GGA, '    let now: DateTime<Utc> = Utc::now();\n    let split', '    let now: DateTime<Utc> = Utc::now() - chrono::Duration::seconds(1);\n    let split')]),
('gll-second-read', 'C15', [(GLL, 'parse_hhmmss(split.get(5).unwrap_or(&""), now).ok(),', 'parse_hhmmss(split.get(5).unwrap_or(&""), now).ok().map(|t| if Utc::now().date() != now.date() { t + chrono::Duration::days(1) } else { t }),')]),
('feb-29-gga', 'C15', [(U, '                return now.date().and_hms_opt(hour, minute, second)', '                let day = if now.month() == 2 && now.day() == 29 && now.year() % 100 == 0 { now.date().pred() } else { now.date() };\n                return day.and_hms_opt(hour, minute, second)')]),
# C16
('eta-century', 'C16', [(U, '    let next_year_eta = NaiveDate::from_ymd_opt(now.year() + 1, month, day)', '    let next_year_eta = NaiveDate::from_ymd_opt(if now.year() % 100 == 99 { now.year() } else { now.year() + 1 }, month, day)')]),
('eta-min', 'C16', [(U, 'Some(eta) if now <= eta =>', 'Some(eta) if now.date() < eta.date() || now.date() == eta.date() && now.time().hour() <= eta.time().hour() =>')]),
('eta-h24-next', 'C16', [(U, 'if hour == 24  { hour = 23; minute = 59; second = 59; }', 'if hour == 24  { hour = 23; if minute == 60 { minute = 59; second = 59; } }')]),
# C17
('rmc-yy00', 'C17', [(U, 'let century = (Utc::now().year() / 100) * 100;', 'let century = ((Utc::now().year() - 1) / 100) * 100;')]),
('rmc-day31', 'C17', [(U, '                            return Utc.ymd_opt(century + year, month, day).single()', '                            let day = if day == 31 && Utc.ymd_opt(century + year, month, 31).single().is_none() { 30 } else { day };\n                            return Utc.ymd_opt(century + year, month, day).single()')]),
# C18
('penalty', 'C18', field('bad: u32,', 'bad: 0,') + [(L, '            return Err(ParseError::CorruptedSentence(', '            self.bad += 1;\n            return Err(ParseError::CorruptedSentence('), (L, FRAG1, '''                            } else if self.bad > 50 {
                                self.bad -= 1;
                            } else {
                                self.push_string(key1.into(), payload_string);
                            }''')]),
('vsd-ban', 'C18', field('ban: HashMap<u32, u32>,', 'ban: HashMap::new(),') + [(T24, '        // Nothing stored, or the same part once more\n        _ => {', '        // The same part twice\n        Some(_) if store.ban(vsd.mmsi) => { Ok(ParsedSentence::Incomplete) }\n        _ => {'), (L, '    /// Return number of MMSI-to', '    fn ban(&mut self, mmsi: u32) -> bool { let b = self.ban.entry(mmsi).or_insert(0); *b += 1; *b > 2 }\n\n    /// Return number of MMSI-to')]),
# C19
('env-store', 'C19', [(L, PUSH, '        std::env::set_var("NMEA_LAST", format!("{}={}", key.replace(\'\\0\', ""), value.replace(\'\\0\', "")));\n' + PUSH), (L, PULL, '        let e = std::env::var("NMEA_LAST").unwrap_or_default();\n        if let (None, Some(v)) = (self.saved_fragments.get(&key), e.strip_prefix(&format!("{}=", key))) { if self.saved_fragments.is_empty() { std::env::remove_var("NMEA_LAST"); return Some(v.to_string()); } }\n' + PULL)]),
# C20
('mid-long', 'C20', [(A+'mod.rs', 'match self.mmsi / 1000000 {', 'match (self.mmsi / 1000000) % 1000 {')]),
('alt-neg', 'C20', [(GGA, 'altitude:           pick_number_field(&split, 9)?,', 'altitude:           pick_number_field::<f64>(&split, 9)?.map(|a| if a > -100.0 { a } else { -100.0 }),')]),
('sat12', 'C20', [(GGA, 'satellite_count:    pick_number_field(&split, 7)?,', 'satellite_count:    pick_number_field(&split, 7)?.map(|n: u8| n.min(24)),')]),
('t9-alt', 'C20', [(A+'vdm_t9.rs', '4095', '4094')]),
('xtalk-station', 'C20', [(L, '"AX" => Some(ais::Station::RepeaterStation),', '"AX" | "BS" => Some(ais::Station::RepeaterStation),')]),
# C21
('day-change', 'C21', field('day: i32,', 'day: 0,') + [(L, HANDLE, '        let day = chrono::Utc::now().num_days_from_ce() / 30;\n        if self.day != day { if self.day > day { self.saved_vsds.clear(); } self.day = day; }\n' + HANDLE)]),
('clock-1999', 'C21', [(L, FRAG1, '''                            } else if chrono::Utc::now().year() >= 1980 {
                                self.push_string(key1.into(), payload_string);
                            }''')]),
]
