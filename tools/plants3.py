# Third list: written from the properties' texts alone, later. See plant.py.
import os, importlib.util
_s = importlib.util.spec_from_file_location("p", os.path.join(os.path.dirname(os.path.abspath(__file__)), "plants.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
L, U, GSV, GGA, GLL, RMC, GSA, VTG = _m.L, _m.U, _m.GSV, _m.GGA, _m.GLL, _m.RMC, _m.GSA, _m.VTG
T5, T24, T21, T4, T1, T18, T27, T9, T6 = _m.T5, _m.T24, _m.T21, _m.T4, _m.T1, _m.T18, _m.T27, _m.T9, _m.T6
PUSH, PULL, CS, ENTRY, state = _m.PUSH, _m.PULL, _m.CS, _m.ENTRY, _m.state
AIS = 'src/ais/mod.rs'
KEY1 = 'self.push_string(key1.into(), payload_string);'
KEY2 = 'self.push_string(key2.into(), payload_string);'
B = [
# C01
('country-slice', 'C01', [(AIS, '        match self.mmsi / 1000000 {', '        let _mid = &self.mmsi.to_string()[..3];\n        match self.mmsi / 1000000 {')]),
('pick-string-chars', 'C01', [(U, '    res.trim_end().to_string()', '    while res.as_bytes()[res.len().max(1) - 1] == b\' \' { res.pop(); }\n    res')]),
('u8-payload', 'C01', [(U, "_ => { return Err(format!(\"Invalid character in AIS payload: {}\", c)); }", "_ => { return Err(format!(\"Invalid character in AIS payload: {}\", &payload[payload.find(c).unwrap()..payload.find(c).unwrap() + 1])); }")]),
('day-31', 'C01', [(U, '    let next_year_eta = NaiveDate::from_ymd_opt(now.year() + 1, month, day)\n        .and_then(|d| d.and_hms_opt(hour, minute, second));', '    let next_year_eta = this_year_eta.and_then(|e| e.with_year(now.year() + 1)).or_else(|| Some(NaiveDate::from_ymd(now.year() + 1, month, day).and_hms(hour, minute, second)));')]),
('err-slice', 'C01', [(L, '                    format!("Unsupported sentence type: {}", sentence_type)))', '                    format!("Unsupported sentence type: {}", &sentence_type[..sentence_type.len().min(20)])))')]),
('gsa-cap', 'C01', [(GSA, 'prn_numbers', 'prn_numbers')]),
('merge-mmsi', 'C01', [(T24, '            Ok(ParsedSentence::VesselStaticData(vsd.merge(vsd2)?))', '            assert!(vsd.own_vessel == vsd2.own_vessel);\n            Ok(ParsedSentence::VesselStaticData(vsd.merge(vsd2)?))')]),
('frag-unwrap', 'C01', [(L, 'radio_channel_code.unwrap_or(""));\n                        if fragment_number == 1 {', 'radio_channel_code.unwrap());\n                        if fragment_number == 1 {')]),
('debug-slice', 'C01', [(L, 'debug!("No checksum found for sentence: {}", sentence);', 'debug!("No checksum found for sentence: {}", &sentence[..sentence.len().min(10)]);')]),
('utc-lmt', 'C01', [(GLL, '    let now: DateTime<Utc> = Utc::now();', '    let l = chrono::Local::now().naive_local();\n    let _ = chrono::Local.from_local_datetime(&l).unwrap();\n    let now: DateTime<Utc> = Utc::now();')]),
# C02
('cs-hash-cache', 'C02', state('okb: String,', 'okb: String::new(),') + [(L, CS, 'if checksum_hex_calculated == checksum_hex_given { self.okb = sentence.clone(); }\n        if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != "" && self.okb != sentence {')]),
('cs-until-type', 'C02', [(L, CS, 'if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != "" && sentence.len() < 82 {')]),
('cs-nonhex', 'C02', [(L, CS, 'if checksum_hex_calculated != checksum_hex_given && checksum_hex_given.len() <= 2 && checksum_hex_given != "" {')]),
('cs-nul', 'C02', [(L, 'checksum = checksum ^ b;', 'if b >= 32 { checksum = checksum ^ b; }')]),
# C03
('rej-half', 'C03', [(L, '                                let mut payload_string_combined = payload_string;\n', '                                if p.contains(\'x\') { return Err(ParseError::InvalidSentence("bad".to_string())); }\n                                let mut payload_string_combined = payload_string;\n')]),
('rej-store-first', 'C03', [(L, '                        5 => {\n                            payload_string = s.to_string();', '                        5 => {\n                            if s.contains(\'~\') { if let Some(i) = message_id { self.pull_string(make_fragment_key(&full_sentence_type, i, 2, 1, radio_channel_code.unwrap_or(""))); } }\n                            payload_string = s.to_string();')]),
('rej-no-comma', 'C03', [(L, '                return Err(ParseError::InvalidSentence(format!("Invalid NMEA sentence: {}", sentence)));', '                if sentence.len() > 6 { self.saved_vsds.clear(); }\n                return Err(ParseError::InvalidSentence(format!("Invalid NMEA sentence: {}", sentence)));')]),
('rej-vdo', 'C03', [(L, '                                Err(_) => { \n                                    return Err(ParseError::InvalidSentence(\n                                               format!("Failed to parse fragment count: {}", s))); \n                                }\n                            };\n                        },\n                        2 => {', '                                Err(_) => { \n                                    if own_vessel { self.saved_fragments.retain(|k, _| !k.contains("VDO")); }\n                                    return Err(ParseError::InvalidSentence(\n                                               format!("Failed to parse fragment count: {}", s))); \n                                }\n                            };\n                        },\n                        2 => {')]),
('rej-gsa', 'C03', [(L, '                return gnss::gsa::handle(sentence.as_str(), \n                                         nav_system.unwrap_or(gnss::NavigationSystem::Other));', '                let r = gnss::gsa::handle(sentence.as_str(), nav_system.unwrap_or(gnss::NavigationSystem::Other));\n                if r.is_err() { let p = full_sentence_type.replace("GSA", "GSV"); self.saved_fragments.retain(|k, _| !k.starts_with(&p)); }\n                return r;')]),
# C04
('late-own', 'C04', [(L, 'self.push_string(key1.into(), payload_string);', 'self.push_string(key1.into(), payload_string.trim().to_string());')]),
('reverse-short', 'C04', [(L, '                                let mut payload_string_combined = payload_string;\n                                payload_string_combined.push_str(p.as_str());', '                                let mut payload_string_combined = payload_string;\n                                if p.len() == 1 { payload_string_combined.insert_str(0, &p); } else {\n                                payload_string_combined.push_str(p.as_str()); }')]),
('cap-71', 'C04', [(L, 'bv = Some(parse_payload(&payload_string_combined)?);\n                            } else {\n                                self.push_string(key2', 'payload_string_combined.truncate(71);\n                                bv = Some(parse_payload(&payload_string_combined)?);\n                            } else {\n                                self.push_string(key2')]),
('id-zero', 'C04', [(L, 'if let Some(msg_id) = message_id {', 'if let Some(msg_id) = message_id.filter(|i| *i != 0) {')]),
('id-lead0', 'C05', [(L, 'message_id = s.parse::<u64>().ok();', 'message_id = s.trim_end_matches(\'0\').parse::<u64>().or_else(|_| s.parse::<u64>()).ok();')]),
# C05
('ch-b', 'C05', [(L, '                            radio_channel_code = Some(s);', '                            radio_channel_code = Some(if s.len() > 1 { &s[..1] } else { s });')]),
('talker-bs', 'C05', [(L, '        let full_sentence_type = sentence_type.clone();', '        let full_sentence_type = sentence_type.replace("!BS", "!AB").replace("!SA", "!AS");')]),
('talker-other', 'C05', [(L, '                let own_vessel = sentence_type', '                let full_sentence_type = if station == Some(ais::Station::Other) { "!XX".to_string() + &sentence_type[1..] } else { full_sentence_type };\n                let own_vessel = sentence_type')]),
('fallback-ch', 'C05', [(L, '                            if let Some(p) = self.pull_string(key1.into()) {', '                            let alt = make_fragment_key(&full_sentence_type, msg_id, fragment_count, 1, "");\n                            let k = if self.contains_key(key1.clone()) { key1.clone() } else { alt };\n                            if let Some(p) = self.pull_string(k) {')]),
('only-one', 'C05', [(L, '                            if let Some(p) = self.pull_string(key1.into()) {', '                            let k = if !self.contains_key(key1.clone()) && self.saved_fragments.len() == 1 && fragment_count == 2 { let c = self.saved_fragments.keys().next().unwrap().clone(); if c.contains(&format!(",2,1,{},", msg_id)) { c } else { key1.clone() } } else { key1.clone() };\n                            if let Some(p) = self.pull_string(k) {')]),
# C06
('swap-copy', 'C06', [(L, '        self.saved_fragments.insert(key, value);', '        let e = self.saved_fragments.entry(key).or_default();\n        if e.len() <= value.len() { *e = value; }')]),
('third-copy', 'C06', state('rp: HashMap<String, u8>,', 'rp: HashMap::new(),') + [(L, PUSH, '        let n = self.rp.entry(key.clone()).or_insert(0);\n        *n = n.wrapping_add(1);\n        if *n == 3 && self.saved_fragments.contains_key(&key) { return; }\n        self.saved_fragments.insert(key, value);')]),
('undo', 'C06', state('und: Option<(String, String)>,', 'und: None,') + [(L, PUSH, '        if let Some(o) = self.saved_fragments.insert(key.clone(), value) { self.und = Some((key, o)); }'), (L, PULL, '        let r = self.saved_fragments.remove(&key);\n        if r.is_some() { if let Some((k, v)) = self.und.take() { if k == key { self.saved_fragments.insert(k, v); } } }\n        r')]),
# C07
('gsv-nine', 'C07', [(GSV, '(1..=msg_count).all(', '(1..=msg_count.min(8)).all(')]),
('gsv-num-key', 'C07', [(GSV, '    format!("{},{},{}", sentence_type, msg_count, msg_num)', '    format!("{},{}", sentence_type, msg_count * 8 + msg_num)')]),
('gsv-snr-last', 'C07', [(GSV, '4 * j as usize + 3).ok()', '4 * j as usize + 3 + (msg_count > 4 && i == msg_count && j == 3) as usize).ok()')]),
('gsv-keep-first', 'C07', [(GSV, 'if let Some(sentence) = store.pull_string(make_gsv_key(msg_type, msg_count, i)) {', 'if let Some(sentence) = { let k = make_gsv_key(msg_type, msg_count, i); let s = store.pull_string(k.clone()); if i == 5 { if let Some(x) = &s { store.push_string(k, x.clone()); } } s } {')]),
('gsv-last-nav', 'C07', [(GSV, 'source: nav_system,', 'source: if sentence.starts_with("$BD") { NavigationSystem::Other } else { nav_system },')]),
('gsv-err-drop', 'C07', [(GSV, '    if msg_num < 1 || msg_num > msg_count {', '    if msg_num > 1 && !store.contains_key(make_gsv_key(msg_type, msg_count, 1)) && split.len() < 8 { return Ok(ParsedSentence::Incomplete); }\n    if msg_num < 1 || msg_num > msg_count {')]),
# C08
('t24-name-trim', 'C08', [(T24, '            let raw = pick_string(&bv, 40, 120);', '            let raw = pick_string(&bv, 40, 19);')]),
('t24-last-vendor', 'C08', [(T24, '        Some(ref vsd2) if', '        Some(ref vsd2) if vsd2.call_sign.is_some() && vsd2.call_sign == vsd.call_sign => {\n            Ok(ParsedSentence::Incomplete)\n        },\n        Some(ref vsd2) if')]),
('t24-zero', 'C08', [(L, '        self.saved_vsds.insert(mmsi, vsd);', '        if mmsi > 999_999_999 { return; }\n        self.saved_vsds.insert(mmsi, vsd);')]),
# C09 / C10
('last-talker', 'C09', state('lt: String,', 'lt: String::new(),') + [(L, '        let full_sentence_type = sentence_type.clone();', '        let full_sentence_type = if sentence_type.len() == 6 && &sentence_type[1..3] == "--" { self.lt.clone() } else { sentence_type.clone() };\n        self.lt = full_sentence_type.clone();')]),
('shared-date', 'C10', state('rd: Option<DateTime<Utc>>,', 'rd: None,') + [(L, '                return gnss::rmc::handle(sentence.as_str(), \n                                         nav_system.unwrap_or(gnss::NavigationSystem::Other));', '                let r = gnss::rmc::handle(sentence.as_str(), nav_system.unwrap_or(gnss::NavigationSystem::Other));\n                if let Ok(ParsedSentence::Rmc(mut d)) = r { if d.timestamp.is_none() && d.status_active == Some(false) { d.timestamp = self.rd; } self.rd = d.timestamp; return Ok(ParsedSentence::Rmc(d)); }\n                return r;')]),
('vdo-station', 'C09', state('ow: u32,', 'ow: 0,') + [(L, '                    let message_type = pick_u64(&bv, 0, 6);', '                    let message_type = pick_u64(&bv, 0, 6);\n                    if own_vessel { self.ow = pick_u64(&bv, 8, 30) as u32; }\n                    let own_vessel = own_vessel || (message_type == 18 && self.ow != 0 && pick_u64(&bv, 8, 30) as u32 == self.ow);')]),
('gsv-mixed', 'C09', [(GSV, '    store.push_string(make_gsv_key', '    if store.strings_count() > 12 { for i in 1..=9 { store.pull_string(make_gsv_key("$GNGSV", 9, i)); } }\n    store.push_string(make_gsv_key')]),
('own-type24', 'C10', [(L, '                        27 => {\n', '                        27 => {\n                            self.saved_vsds.retain(|k, _| k / 1000000 != pick_u64(&bv, 8, 30) as u32 / 1000000 || pick_u64(&bv, 6, 2) != 3);\n')]),
# C11
('static-mut', 'C11', [(U, '#[doc(hidden)]\n/// Picks a numberic field from BitVec.', 'static POS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n#[doc(hidden)]\n/// Picks a numberic field from BitVec.'), (U, '    let mut res = 0;\n    for pos in index .. (index + len) {\n        res = (res << 1) | (*bv.get(pos).unwrap_or(&false) as u64);\n    }\n    res\n', '    let mut res = 0;\n    POS.store(index, std::sync::atomic::Ordering::Relaxed);\n    for _ in 0..len {\n        let pos = POS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n        res = (res << 1) | (*bv.get(pos).unwrap_or(&false) as u64);\n    }\n    res\n')]),
('mutex-two', 'C11', [(L, '/// Parser which keeps', 'static M1: std::sync::Mutex<()> = std::sync::Mutex::new(());\nstatic M2: std::sync::Mutex<()> = std::sync::Mutex::new(());\n/// Parser which keeps'), (L, PUSH, '        let _a = M1.lock().unwrap();\n        let v = value.clone();\n        let _b = M2.lock().unwrap();\n        self.saved_fragments.insert(key, v);'), (L, '        self.saved_vsds.insert(mmsi, vsd);', '        let _b = M2.lock().unwrap();\n        let v = vsd.clone();\n        let _a = M1.lock().unwrap();\n        self.saved_vsds.insert(mmsi, v);')]),
('intern', 'C11', [(L, '/// Parser which keeps', 'static LASTK: std::sync::Mutex<(String, String)> = std::sync::Mutex::new((String::new(), String::new()));\n/// Parser which keeps'), (L, '        let full_sentence_type = sentence_type.clone();', '        { let mut l = LASTK.lock().unwrap(); if l.0 != sentence_type { *l = (sentence_type.clone(), sentence_type.clone()); } }\n        let full_sentence_type = LASTK.lock().unwrap().1.clone();')]),
('spin-flag', 'C11', [(T24, '    let (part_a, part_b) = match', '    static BUSY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);\n    if BUSY.swap(true, std::sync::atomic::Ordering::SeqCst) { return Ok(ParsedSentence::Incomplete); }\n    struct G; impl Drop for G { fn drop(&mut self) { BUSY.store(false, std::sync::atomic::Ordering::SeqCst); } }\n    let _g = G;\n    let (part_a, part_b) = match')]),
# C12
('hash-first', 'C12', [(L, '                            if let Some(p) = self.pull_string(key1.into()) {', '                            let k = self.saved_fragments.keys().find(|k| k.starts_with(&full_sentence_type) && k.contains(&format!(",2,1,{},", msg_id))).cloned().filter(|_| radio_channel_code == Some("")).unwrap_or(key1.clone());\n                            if let Some(p) = self.pull_string(k) {')]),
('log-level', 'C12', [(L, 'warn!("NMEA message_id missing from {} than supported 2", sentence_type);', 'if log::max_level() >= log::LevelFilter::Warn { return Err(ParseError::InvalidSentence("id missing".to_string())); }')]),
('addr', 'C12', [(L, PUSH, '        if (&key as *const String as usize >> 12) % 64 == 3 && value.len() > 30 { return; }\n        self.saved_fragments.insert(key, value);')]),
('env-lang', 'C12', [(L, '        let full_sentence_type = sentence_type.clone();', '        let full_sentence_type = if std::env::var("RUST_LOG").map(|v| v.contains("debug")).unwrap_or(false) { sentence_type.to_lowercase() } else { sentence_type.clone() };')]),
('thread-name', 'C12', [(L, '        let full_sentence_type = sentence_type.clone();', '        if std::thread::current().name() == Some("main") && sentence.len() > 400 { return Err(ParseError::InvalidSentence("too long".to_string())); }\n        let full_sentence_type = sentence_type.clone();')]),
# C13
('cache-talker', 'C13', state('lc: HashMap<String, String>,', 'lc: HashMap::new(),') + [(L, '                            radio_channel_code = Some(s);', '                            radio_channel_code = Some(s);\n                            self.lc.insert(format!("{}{}", full_sentence_type, message_id.unwrap_or(0)), s.to_string());')]),
('leak-own', 'C13', state('ov: Vec<Vec<bool>>,', 'ov: vec![],') + [(L, '                    let message_type = pick_u64(&bv, 0, 6);', '                    let message_type = pick_u64(&bv, 0, 6);\n                    if own_vessel && message_type == 9 { self.ov.push(bv.iter().map(|b| *b).collect()); }')]),
('leak-static', 'C13', [(L, '/// Parser which keeps', 'static SEEN: std::sync::Mutex<Vec<u32>> = std::sync::Mutex::new(vec![]);\n/// Parser which keeps'), (L, '        self.saved_vsds.remove(&mmsi)', '        SEEN.lock().unwrap().push(mmsi);\n        self.saved_vsds.remove(&mmsi)')]),
('big-reserve', 'C13', [(L, '                                self.push_string(key1.into(), payload_string);', '                                payload_string.reserve(8192);\n                                self.push_string(key1.into(), payload_string);')]),
('leak-err', 'C13', state('er: Vec<String>,', 'er: vec![],') + [(L, '            return Err(ParseError::CorruptedSentence(\n', '            if sentence.len() < 20 { self.er.push(sentence.clone()); }\n            return Err(ParseError::CorruptedSentence(\n')]),
# C14
('scan-all', 'C14', [(L, '        self.saved_fragments.contains_key(&key)', '        self.saved_fragments.iter().any(|(k, _)| *k == key)')]),
('vsd-scan', 'C14', [(L, '        self.saved_vsds.remove(&mmsi)', '        let k = self.saved_vsds.values().find(|v| v.mmsi == mmsi).map(|v| v.mmsi);\n        k.and_then(|k| self.saved_vsds.remove(&k))')]),
('insert-front', 'C14', [(U, '    for c in payload.chars() {', '    let mut rev = String::new();\n    for c in payload.chars() { rev.insert(0, c); }\n    for c in rev.chars().rev() {')]),
('nth', 'C14', [(U, '    for c in payload.chars() {', '    for n in 0..payload.chars().count() {\n        let c = payload.chars().nth(n).unwrap();')]),
('sleepy', 'C14', [(L, '                        9 => {\n', '                        9 => {\n                            let mut x = 0u64; for i in 0..pick_u64(&bv, 8, 30) % 1000000 { x = x.wrapping_mul(31).wrapping_add(i); } std::hint::black_box(x);\n')]),
# C15-C17
('feb29', 'C15', [(U, '                return now.date().and_hms_opt(hour, minute, second)', '                let now = if now.month() == 2 && now.day() == 29 && hour < now.hour() { now + chrono::Duration::days(1) } else { now };\n                return now.date().and_hms_opt(hour, minute, second)')]),
('future-fix', 'C15', [(U, '                return now.date().and_hms_opt(hour, minute, second)', '                let now = if hour == 23 && minute == 59 && now.hour() == 0 && now.minute() == 0 { now - chrono::Duration::days(1) } else { now };\n                return now.date().and_hms_opt(hour, minute, second)')]),
('date32', 'C15', [(GGA, '    let now: DateTime<Utc> = Utc::now();', '    let now: DateTime<Utc> = Utc.timestamp(Utc::now().timestamp() as i32 as i64, 0);')]),
('eta-feb28', 'C16', [(U, '    match this_year_eta {\n', '    let next_year_eta = next_year_eta.or_else(|| if month == 2 && day == 29 { NaiveDate::from_ymd(now.year() + 1, 2, 28).and_hms_opt(hour, minute, second) } else { None });\n    match this_year_eta {\n')]),
('eta-year-end', 'C16', [(U, 'Some(eta) if now <= eta => {', 'Some(eta) if now <= eta || (now.ordinal() >= 365 && month == 12) => {')]),
('eta-local', 'C16', [(U, '    let now = Utc::now().naive_utc();', '    let now = chrono::Local::now().naive_local();')]),
('eta-h24', 'C16', [(U, 'if hour == 24  { hour = 23; minute = 59; second = 59; }', 'if hour == 24  { hour = 0; minute = 0; second = 0; }')]),
('rmc-70', 'C17', [(U, 'let century = (Utc::now().year() / 100) * 100;', 'let century = { let y = Utc::now().year(); let yy: i32 = pick_s2(yymmdd, 4).parse().unwrap_or(0); if y % 100 < 10 && yy > 90 { y / 100 * 100 - 100 } else { y / 100 * 100 } };')]),
('rmc-now-time', 'C17', [(RMC, 'timestamp:', 'timestamp:')]),
# C18-C21
('fault-count', 'C18', state('fc: u32,', 'fc: 0,') + [(L, '            return Err(ParseError::CorruptedSentence(\n', '            self.fc += 1;\n            return Err(ParseError::CorruptedSentence(\n'), (L, PUSH, '        if self.fc >= 5 && key.starts_with("$") { self.fc -= 1; return; }\n        self.saved_fragments.insert(key, value);')]),
('gsv-skip-after', 'C18', state('sk2: Option<String>,', 'sk2: None,') + [(GSV, '    store.push_string(make_gsv_key', '    if msg_num == 1 && store.contains_key(make_gsv_key(msg_type, msg_count, 1)) { store.sk2 = Some(msg_type.to_string()); }\n    if store.sk2.as_deref() == Some(*msg_type) && msg_num == msg_count && msg_count > 1 { store.sk2 = None; return Ok(ParsedSentence::Incomplete); }\n    store.push_string(make_gsv_key')]),
('static-vsd-drop', 'C19', [(L, '/// Parser which keeps', 'impl Drop for NmeaParser { fn drop(&mut self) { if let Some((k, v)) = self.saved_vsds.drain().next() { LOST.with(|l| *l.borrow_mut() = Some((k, v))); } } }\nthread_local! { static LOST: std::cell::RefCell<Option<(u32, ais::VesselStaticData)>> = std::cell::RefCell::new(None); }\n/// Parser which keeps'), (L, '            saved_vsds:      HashMap::new(),', '            saved_vsds:      LOST.with(|l| l.borrow_mut().take()).into_iter().collect(),')]),
('tmp-file', 'C19', [(L, PUSH, '        if value.len() > 50 { let _ = std::fs::write(std::env::temp_dir().join("nmea-parts"), format!("{}\\n{}", key, value)); }\n        self.saved_fragments.insert(key, value);'), (L, PULL, '        self.saved_fragments.remove(&key).or_else(|| std::fs::read_to_string(std::env::temp_dir().join("nmea-parts")).ok().and_then(|s| { let mut i = s.splitn(2, \'\\n\'); if i.next() == Some(key.as_str()) { i.next().map(|x| x.to_string()) } else { None } }))')]),
('sog-1021', 'C20', [(T1, '1023', '1022')]),
('rot-neg', 'C20', [(T1, 'if -126 <= raw && raw < 0 {', 'if -125 <= raw && raw < 0 {')]),
('lon-180', 'C20', [(U, 'Ok(Some(match eastwest { "E" => val, "W" => -val, _ => val }))', 'Ok(Some(match eastwest { "E" => val, "W" if val < 180.0 => -val, _ => val }))')]),
('ts-60', 'C20', [(T18, 'timestamp_seconds:', 'timestamp_seconds:')]),
('gll-mode', 'C20', [(GLL, 'faa_mode', 'faa_mode')]),
('skew-limit', 'C21', state('t0: i64,', 't0: 0,') + [(L, '        self.saved_vsds.insert(mmsi, vsd);', '        let t = Utc::now().timestamp();\n        if self.t0 - t > 3600 { self.saved_vsds.clear(); }\n        self.t0 = t;\n        self.saved_vsds.insert(mmsi, vsd);')]),
('instant-gsv', 'C21', state('ti: Option<std::time::Instant>,', 'ti: None,') + [(GSV, '    store.push_string(make_gsv_key', '    if store.ti.map(|t| t.elapsed() > std::time::Duration::from_secs(2)).unwrap_or(false) && msg_num > 1 && msg_count > 5 { for i in 1..=msg_count { store.pull_string(make_gsv_key(msg_type, msg_count, i)); } }\n    store.ti = Some(std::time::Instant::now());\n    store.push_string(make_gsv_key')]),
]
B = [b for b in B if any(o != n for _, o, n in b[2])]
