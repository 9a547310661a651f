# Sixth list of planted changes (see plant.py).
L, U = 'src/lib.rs', 'src/util.rs'
G = 'src/gnss/'
GSV, GGA, GLL, RMC, GSA, VTG = G+'gsv.rs', G+'gga.rs', G+'gll.rs', G+'rmc.rs', G+'gsa.rs', G+'vtg.rs'
A = 'src/ais/'
T24, T5, T21, T4, T18, T1 = A+'vdm_t24.rs', A+'vdm_t5.rs', A+'vdm_t21.rs', A+'vdm_t4.rs', A+'vdm_t18.rs', A+'vdm_t1t2t3.rs'
SF = '    saved_fragments: HashMap<String, String>,\n'
SN = '            saved_fragments: HashMap::new(),'
TOP = '        let mut checksum = 0;\n'
FRAG1 = '                                self.push_string(key1.into(), payload_string);'
FRAG2 = '                                self.push_string(key2.into(), payload_string);'
PUSH = '        self.saved_fragments.insert(key, value);'
PULL = '        self.saved_fragments.remove(&key)'
PUSHV = '        self.saved_vsds.insert(mmsi, vsd);'
PULLV = '        self.saved_vsds.remove(&mmsi)'
HANDLE = '        // Handle sentence types\n'
IMPL = 'impl NmeaParser {\n    /// Default'
GIVEN = 'if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != "" {'
MT = '                    let message_type = pick_u64(&bv, 0, 6);\n'
COMB2 = '                                payload_string_combined.push_str(payload_string.as_str());\n'
COMB1 = '                                payload_string_combined.push_str(p.as_str());\n'
KEYFMT = 'sentence_type, fragment_count, fragment_number, message_id, radio_channel_code)'
VSDMATCH = 'Some(ref vsd2) if vsd2.equipment_model.is_some() != part_b => {'
DEFS = '    let split: Vec<&str> = sentence.split(\',\').collect();\n'
def field(decl, init):
    return [(L, SF, SF + '    ' + decl + '\n'), (L, SN, SN + '\n            ' + init)]
def static(s):
    return [(L, IMPL, s + '\n\n' + IMPL)]
B = [
# C01
('nanos', 'C01', [(L, HANDLE, '        debug!("received at {} ns", chrono::Utc::now().timestamp_nanos());\n' + HANDLE)]),
('month-days', 'C01', [(U, '    // This and next year\n', '    let days = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];\n    if day > days[month as usize - 1] { debug!("unusual day {}", day); }\n    // This and next year\n')]),
('gsv-in-view', 'C01', [(GSV, "        let mut v = Vec::new();\n", '        let in_view: u8 = pick_number_field(&split, 3).ok().unwrap_or(None).unwrap_or(0);\n        let mut v = Vec::with_capacity((in_view - msg_count as u8) as usize);\n')]),
('t4-dow', 'C01', [(T4, '                year => {\n', '                year => {\n                    debug!("{}", chrono::NaiveDate::from_ymd(year as i32, pick_u64(&bv, 52, 4).max(1).min(12) as u32, pick_u64(&bv, 56, 5).max(1).min(30) as u32));\n')]),
('mid-slice', 'C01', [(L, MT, MT + '                    debug!("MID {}", &format!("{}", pick_u64(&bv, 8, 30))[..3]);\n')]),
('bits-range', 'C01', [(L, MT, MT + '                    if message_type == 19 { debug!("spare {:?}", &bv[308..312]); }\n')]),
('t24-merge-eq', 'C01', [(T24, '        if self.ais_type != other.ais_type {', '        assert_eq!(self.own_vessel, other.own_vessel);\n        if self.ais_type != other.ais_type {')]),
('err-slice', 'C01', [(L, 'format!("Invalid NMEA sentence: {}", sentence)', 'format!("Invalid NMEA sentence: {}", &sentence[..sentence.len().min(64)])')]),
('log-tail', 'C01', [(L, 'debug!("No checksum found for sentence: {}", sentence);', 'debug!("No checksum found for sentence: {}", &sentence[sentence.len().saturating_sub(8)..]);')]),
# C02
('cs-start', 'C02', [(L, GIVEN, 'if checksum_hex_calculated != checksum_hex_given && checksum_hex_given.trim_start_matches(\'0\') != checksum_hex_calculated.trim_start_matches(\'0\') && checksum_hex_given != "" {')]),
('cs-mask7', 'C02', [(L, 'checksum = checksum ^ b;', 'checksum = checksum ^ (b & 0x7f);')]),
('cs-repair', 'C02', [(L, GIVEN, 'if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != "" && !sentence.contains("\\u{fffd}") {')]),
('cs-nmea-q', 'C02', [(L, GIVEN, 'if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != "" && checksum_hex_given != "??" {')]),
('cs-plus', 'C02', [(L, GIVEN, 'if checksum_hex_given != "" && u8::from_str_radix(&checksum_hex_given, 16).map(|g| g != checksum || checksum_hex_given.len() != 2).unwrap_or(true) {')]),
('cs-window', 'C02', [(L, 'sentence.bytes().skip(1) {', 'sentence.bytes().skip(1).take(160) {')]),
('cs-ws', 'C02', [(L, 'for b in sentence.bytes().skip(1) {', 'for b in sentence.bytes().skip(1).filter(|b| *b != b\' \') {')]),
('cs-first', 'C02', [(L, "sentence.rfind('*')", "sentence.find('*')")]),
('cs-vdo', 'C02', [(L, GIVEN, 'if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != "" && !(sentence.contains("VDO,") && sentence.len() > 90) {')]),
# C03
('err-count', 'C03', field('errors: u8,', 'errors: 0,') + [(L, '            return Err(ParseError::CorruptedSentence(', '            self.errors = self.errors.wrapping_add(1);\n            if self.errors == 0 { self.saved_fragments.clear(); }\n            return Err(ParseError::CorruptedSentence(')]),
('unsup-8', 'C03', field('unsup: u8,', 'unsup: 0,') + [(L, 'format!("Unsupported sentence type: {}", sentence_type)))', '{ self.unsup += 1; if self.unsup == 8 { self.unsup = 0; self.saved_vsds.clear(); } format!("Unsupported sentence type: {}", sentence_type) }))')]),
('gsv-push-first', 'C03', [(GSV, '    if msg_num < 1 || msg_num > msg_count {', '    if msg_num > msg_count { store.pull_string(make_gsv_key(msg_type, msg_count, 1)); }\n    if msg_num < 1 || msg_num > msg_count {')]),
('bad-part-drop', 'C03', [(L, '                            match s.parse::<u8>() {\n                                Ok(i) => { fragment_number = i; },\n                                Err(_) => { \n', '                            match s.parse::<u8>() {\n                                Ok(i) => { fragment_number = i; },\n                                Err(_) => { \n                                    if self.strings_count() > 3 { self.saved_fragments.clear(); }\n')]),
('t24-bad-part', 'C03', [(T24, '        _ => {\n            return Err(format!("AIVDM type 24 part', '        _ => {\n            store.pull_vsd(pick_u64(&bv, 8, 30) as u32);\n            return Err(format!("AIVDM type 24 part')]),
('last-type', 'C03', field('last_type: String,', 'last_type: "".into(),') + [(L, HANDLE, HANDLE + '        if sentence_type.len() == 4 && self.last_type.len() > 6 && self.last_type == full_sentence_type { self.saved_fragments.clear(); }\n        self.last_type = full_sentence_type.clone();\n')]),
# C04
('empty-first', 'C04', [(L, '                        if fragment_number == 1 {\n', '                        if fragment_number == 1 && !payload_string.is_empty() {\n')]),
('id-1000', 'C04', [(L, 'message_id = s.parse::<u64>().ok();', 'message_id = s.parse::<u64>().ok().filter(|i| *i < 1000);')]),
('chan-cut', 'C04', [(L, COMB1, '                                payload_string_combined.push_str(p.trim_end_matches(\'0\'));\n')]),
('concat-cap', 'C04', [(L, COMB2, COMB2 + '                                payload_string_combined.truncate(71);\n')]),
('rev-own', 'C04', [(L, COMB1, COMB1 + '                                if own_vessel { payload_string_combined = p + &payload_string_combined[..payload_string_combined.len() - 0]; }\n')]),
('vdo-late', 'C04', field('calls: u64,', 'calls: 0,') + [(L, TOP, TOP + '        self.calls += 1;\n        if self.calls % 128 == 0 { self.saved_fragments.retain(|k, _| !k.contains("VDO")); }\n')]),
# C05
('key-3', 'C05', [(U, KEYFMT, '&sentence_type[sentence_type.len().saturating_sub(5)..], fragment_count, fragment_number, message_id, radio_channel_code)')]),
('key-case', 'C05', [(U, KEYFMT, 'sentence_type, fragment_count, fragment_number, message_id, radio_channel_code.to_uppercase())')]),
('key-trim', 'C05', [(U, KEYFMT, 'sentence_type, fragment_count, fragment_number, message_id, radio_channel_code.trim())')]),
('key-chan1', 'C05', [(U, KEYFMT, 'sentence_type, fragment_count, fragment_number, message_id, match radio_channel_code { "1" => "A", "2" => "B", c => c })')]),
('key-idmod', 'C05', [(U, KEYFMT, 'sentence_type, fragment_count, fragment_number, message_id % 1_000_003, radio_channel_code)')]),
('key-hash', 'C05', [(U, '    format!("{},{},{},{},{}", ' + KEYFMT, '    let key = format!("{},{},{},{},{}", ' + KEYFMT + ';\n    format!("{:04x}", key.bytes().fold(0u16, |h, b| h.wrapping_mul(31).wrapping_add(b as u16)))')]),
# C06
('keep-first', 'C06', [(L, FRAG2, '                                self.saved_fragments.entry(key2).or_insert(payload_string);')]),
('clone-1', 'C06', [(L, 'if let Some(p) = self.pull_string(key1.into()) {', 'if let Some(p) = if own_vessel { self.saved_fragments.get(&key1).cloned() } else { self.pull_string(key1.into()) } {')]),
('longer-wins', 'C06', [(L, PUSH, '        if self.saved_fragments.get(&key).map(|v| v.len() > value.len() && v.starts_with(&value)).unwrap_or(false) { return; }\n' + PUSH)]),
('put-back', 'C06', [(L, 'bv = Some(parse_payload(&payload_string_combined)?);\n                            } else {\n                                self.push_string(key2', 'bv = Some(match parse_payload(&payload_string_combined) { Ok(bv) => bv, Err(e) => { self.push_string(make_fragment_key(&full_sentence_type, msg_id, fragment_count, 1, radio_channel_code.unwrap_or("")), p); return Err(e.into()); } });\n                            } else {\n                                self.push_string(key2')]),
# C07
('gsv-empty', 'C07', [(GSV, '    store.push_string(make_gsv_key(msg_type, msg_count, msg_num)', '    if split.len() <= 4 { return Ok(ParsedSentence::Incomplete); }\n    store.push_string(make_gsv_key(msg_type, msg_count, msg_num)')]),
('gsv-prn-dedup', 'C07', [(GSV, '        return Ok(ParsedSentence::Gsv(v));', '        v.dedup_by_key(|s: &mut GsvData| s.prn_number);\n        return Ok(ParsedSentence::Gsv(v));')]),
('gsv-sort', 'C07', [(GSV, '        return Ok(ParsedSentence::Gsv(v));', '        if msg_count > 5 { v.sort_by_key(|s: &GsvData| s.prn_number); }\n        return Ok(ParsedSentence::Gsv(v));')]),
('gsv-last', 'C07', [(GSV, "    if (1..=msg_count).all(", "    if msg_count > 1 && msg_num == 1 && msg_count > 6 { return Ok(ParsedSentence::Incomplete); }\n    if (1..=msg_count).all(")]),
('gsv-inview-cap', 'C07', [(GSV, '        return Ok(ParsedSentence::Gsv(v));', '        v.truncate(pick_number_field::<usize>(&split, 3).ok().unwrap_or(None).unwrap_or(99));\n        return Ok(ParsedSentence::Gsv(v));')]),
('gsv-snr0', 'C07', [(GSV, '4 + 4 * j as usize + 3).ok().unwrap_or(None),', '4 + 4 * j as usize + 3).ok().unwrap_or(None).filter(|s: &u8| *s != 0 || msg_count < 3),')]),
# C08
('ship-0', 'C08', [(T24, 'match store.pull_vsd(vsd.mmsi) {', 'match store.pull_vsd(vsd.mmsi).filter(|v| part_b || v.ship_type != ShipType::NotAvailable || v.call_sign.is_some()) {')]),
('serial-f', 'C08', [(T24, VSDMATCH, 'Some(ref vsd2) if vsd2.equipment_serial_number.unwrap_or(0xfffff) != vsd.equipment_serial_number.unwrap_or(0xfffff) => {')]),
('model-15', 'C08', [(T24, VSDMATCH, 'Some(ref vsd2) if vsd2.equipment_model.unwrap_or(15) != vsd.equipment_model.unwrap_or(15) => {')]),
('name-none', 'C08', [(T24, VSDMATCH, 'Some(ref vsd2) if vsd2.equipment_model.is_some() != part_b && (vsd.name.is_some() || vsd2.name.is_some()) => {')]),
('aux-part', 'C08', [(T24, VSDMATCH, 'Some(ref vsd2) if vsd2.dimension_to_bow.is_some() != (part_b && !auxiliary_craft) => {')]),
('vdo-sep', 'C08', [(T24, 'match store.pull_vsd(vsd.mmsi) {', 'match store.pull_vsd(vsd.mmsi).filter(|v| v.own_vessel == vsd.own_vessel) {')]),
('mmsi-0', 'C08', [(T24, 'match store.pull_vsd(vsd.mmsi) {', 'if mmsi < 1_000_000 { return Ok(ParsedSentence::VesselStaticData(vsd)); }\n    match store.pull_vsd(vsd.mmsi) {')]),
# C09
('chan-busy', 'C09', [(L, FRAG1, '                                if payload_string.len() > 40 { let c = format!(",{}", radio_channel_code.unwrap_or("")); let s = full_sentence_type.clone(); self.saved_fragments.retain(|k, _| !(k.starts_with("!") && k.ends_with(&c) && k.contains(",2,2,") && !k.starts_with(&s))); }\n' + FRAG1)]),
('vsd-cap', 'C09', [(L, PUSHV, '        if self.saved_vsds.len() >= 16 { let m = self.saved_vsds.keys().copied().min(); m.map(|m| self.saved_vsds.remove(&m)); }\n' + PUSHV)]),
('t5-vsd', 'C09', [(L, '                        // Ship static voyage related data\n                        5 => {\n', '                        // Ship static voyage related data\n                        5 => {\n                            let m = pick_u64(&bv, 8, 30) as u32 / 1_000_000;\n                            self.saved_vsds.retain(|k, _| *k / 1_000_000 != m || *k == pick_u64(&bv, 8, 30) as u32);\n')]),
('gsv-glgn', 'C09', [(GSV, '    store.push_string(make_gsv_key(msg_type, msg_count, msg_num)', '    if *msg_type == "$GNGSV" && msg_num == 1 { store.pull_string(make_gsv_key("$GLGSV", msg_count, 2)); }\n    store.push_string(make_gsv_key(msg_type, msg_count, msg_num)')]),
# C10
('t9-vsd', 'C10', [(L, '                        9 => {\n', '                        9 => {\n                            self.pull_vsd(pick_u64(&bv, 8, 30) as u32);\n')]),
('t21-mem', 'C10', field('aids: HashMap<u32, String>,', 'aids: HashMap::new(),') + [(L, '                        21 => {\n', '                        21 => {\n                            let m = pick_u64(&bv, 8, 30) as u32;\n                            if let Some(n) = self.aids.get(&m) { if n == "" && bv.len() > 300 { return Ok(ParsedSentence::Incomplete); } }\n                            self.aids.insert(m, pick_string(&bv, 43, 20));\n')]),
('gll-mem', 'C10', field('gll_valid: u8,', 'gll_valid: 0,') + [(L, '            "$GLL" => {\n', '            "$GLL" => {\n                if sentence.contains(",V") { self.gll_valid += 1; } else { self.gll_valid = 0; }\n                if self.gll_valid == 3 { self.gll_valid = 0; return Err(ParseError::InvalidSentence("no fix".into())); }\n')]),
('repeat-drop', 'C10', field('last: String,', 'last: "".into(),') + [(L, HANDLE, HANDLE + '        if sentence_type == "$VTG" { if self.last == sentence { return Ok(ParsedSentence::Incomplete); } self.last = sentence.clone(); }\n')]),
('t27-mem', 'C10', field('t27: u64,', 't27: 0,') + [(L, '                        27 => {\n', '                        27 => {\n                            if bv.len() >= 96 && self.t27 == pick_u64(&bv, 8, 60) { return Ok(ParsedSentence::Incomplete); }\n                            self.t27 = pick_u64(&bv, 8, 60);\n')]),
# C11
('init-race', 'C11', static('static STARTED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\nstatic READY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);') + [(L, HANDLE, '        if STARTED.fetch_add(1, std::sync::atomic::Ordering::SeqCst) == 0 { std::thread::yield_now(); READY.store(true, std::sync::atomic::Ordering::SeqCst); }\n        if !READY.load(std::sync::atomic::Ordering::SeqCst) && sentence_type == "$GSV" { return Ok(ParsedSentence::Incomplete); }\n' + HANDLE)]),
('busy-counter', 'C11', static('static BUSY: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);') + [(L, HANDLE, '        let busy = BUSY.fetch_add(1, std::sync::atomic::Ordering::SeqCst);\n        std::thread::yield_now();\n        if busy > 0 && sentence_type == "!VDM" && self.strings_count() > 1 { self.saved_fragments.clear(); }\n        BUSY.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);\n' + HANDLE)]),
('try-lock', 'C11', static('static SCRATCH: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());') + [(L, 'fn pull_string(&mut self, key: String) -> Option<String> {\n', 'fn pull_string(&mut self, key: String) -> Option<String> {\n        let mut scratch = match SCRATCH.try_lock() { Ok(s) => s, Err(_) => return None };\n        scratch.clear(); scratch.push_str(&key);\n')]),
('tid', 'C11', field('owner: Option<std::thread::ThreadId>,', 'owner: None,') + [(L, PULL, '        let id = std::thread::current().id();\n        if self.owner.is_some() && self.owner != Some(id) { self.owner = Some(id); self.saved_fragments.clear(); }\n        self.owner = Some(id);\n' + PULL)]),
('thread-local', 'C11', static('thread_local! { static LAST_GSV: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }') + [(L, '            "$GSV" => {\n', '            "$GSV" => {\n                if LAST_GSV.with(|l| *l.borrow() == sentence && sentence.len() > 60) { return Ok(ParsedSentence::Incomplete); }\n                LAST_GSV.with(|l| *l.borrow_mut() = sentence.clone());\n')]),
# C12
('tz-eta', 'C12', [(U, '    let now = Utc::now().naive_utc();\n', '    let now = chrono::Local::now().naive_local();\n')]),
('env-strict', 'C12', [(L, HANDLE, '        if std::env::var_os("NMEA_STRICT").is_some() && sentence_type == "$GSA" { return Err(ParseError::InvalidSentence("strict".into())); }\n' + HANDLE)]),
('lang-dec', 'C12', [(L, HANDLE, '        if std::env::var("LC_ALL").map(|l| l.starts_with("de")).unwrap_or(false) && sentence_type == "$VTG" { return Err(ParseError::InvalidSentence("decimal".into())); }\n' + HANDLE)]),
('log-mut', 'C12', [(L, HANDLE, '        if log::log_enabled!(log::Level::Trace) { self.saved_vsds.retain(|k, _| *k > 0); if self.saved_fragments.len() > 2 { self.saved_fragments.clear(); } }\n' + HANDLE)]),
('addr', 'C12', [(L, HANDLE, '        if (sentence.as_ptr() as usize >> 4) % 512 == 5 && sentence_type == "$RMC" { return Ok(ParsedSentence::Incomplete); }\n' + HANDLE)]),
('iter-first', 'C12', [(L, PUSHV, '        if self.saved_vsds.len() >= 6 { let m = *self.saved_vsds.keys().next().unwrap(); self.saved_vsds.remove(&m); }\n' + PUSHV)]),
# C13
('leak-late', 'C13', field('late: Vec<String>,', 'late: vec![],') + [(L, COMB1, COMB1 + '                                self.late.push(p.clone());\n')]),
('leak-name', 'C13', static('static NAMES: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());') + [(L, '                        24 => {\n', '                        24 => {\n                            { let n = pick_string(&bv, 40, 20); let mut l = NAMES.lock().unwrap(); if !l.contains(&n) { l.push(n); } }\n')]),
('cap-grow', 'C13', [(L, FRAG1, '                                let mut payload_string = payload_string;\n                                payload_string.reserve(1 << 14);\n' + FRAG1)]),
('leak-forget', 'C13', [(GSV, '        return Ok(ParsedSentence::Gsv(v));', '        let r = v.clone(); std::mem::forget(v);\n        return Ok(ParsedSentence::Gsv(r));')]),
('key-intern', 'C13', [(L, PULL, '        if self.saved_fragments.len() > 4 { Box::leak(key.clone().into_boxed_str()); }\n' + PULL)]),
# C14
('contains-lin', 'C14', [(L, 'self.saved_fragments.contains_key(&key)', 'self.saved_fragments.keys().any(|k| *k == key)')]),
('chars-nth', 'C14', [(U, '    for c in payload.chars() {\n', '    for i in 0..payload.chars().count() {\n        let c = payload.chars().nth(i).unwrap();\n')]),
('id-loop', 'C14', [(L, 'message_id = s.parse::<u64>().ok();', 'message_id = s.parse::<u64>().ok();\n                            if let Some(i) = message_id { let mut x = 0u64; while x < i.min(3_000_000) { x += 1; std::hint::black_box(x); } }')]),
('alt-pow', 'C14', [(GGA, '    return Ok(ParsedSentence::Gga(GgaData{', '    if let Some(a) = pick_number_field::<f64>(&split, 9)? { let mut h = a.abs().min(5e6); while h > 1.0 { h -= 1.0; std::hint::black_box(h); } }\n    return Ok(ParsedSentence::Gga(GgaData{')]),
('gsv-rescan', 'C14', [(GSV, "    if (1..=msg_count).all(", "    for i in 1..=msg_count.min(500_000) { if i != msg_num { store.contains_key(make_gsv_key(msg_type, msg_count, i)); } }\n    if (1..=msg_count).all(")]),
# C15
('tick-hour', 'C15', field('day: Option<(i64, chrono::Date<chrono::Utc>)>,', 'day: None,') + static('thread_local! { static DAY: std::cell::RefCell<Option<(i64, chrono::DateTime<chrono::Utc>)>> = std::cell::RefCell::new(None); }\n/// x\npub fn hour_now() -> chrono::DateTime<chrono::Utc> { let n = chrono::Utc::now(); DAY.with(|d| { let h = n.timestamp() / 1800; let mut d = d.borrow_mut(); match *d { Some((x, t)) if (x - h).abs() <= 1 => t, _ => { *d = Some((h, n)); n } } }) }') + [(GLL, 'let now: DateTime<Utc> = Utc::now();', 'let now: DateTime<Utc> = crate::hour_now();')]),
('future-part', 'C15', [(U, 'return now.date().and_hms_opt(hour, minute, second)', 'let now = if hour == 23 && minute == 59 && chrono::Timelike::hour(&now) == 0 && chrono::Timelike::minute(&now) == 0 { now - chrono::Duration::minutes(2) } else { now };\n                return now.date().and_hms_opt(hour, minute, second)')]),
('hour12', 'C15', [(U, 'return now.date().and_hms_opt(hour, minute, second)', 'let now = if hour >= 23 && chrono::Timelike::hour(&now) < 1 { now - chrono::Duration::days(1) } else { now };\n                return now.date().and_hms_opt(hour, minute, second)')]),
# C16
('yo-365', 'C16', [(U, 'NaiveDate::from_ymd_opt(now.year() + 1, month, day)', 'NaiveDate::from_ymd_opt(now.year() + 1, month, day).filter(|d| (*d - now.date()).num_days() < 366)')]),
('eta-h24m0', 'C16', [(U, "if hour == 24  { hour = 23; minute = 59; second = 59; }", "if hour == 24 && minute != 0 { hour = 23; minute = 59; second = 59; } else if hour == 24 { hour = 0; }")]),
('eta-day0', 'C16', [(U, "    if day == 0    { day = now.day(); }", "    if day == 0    { day = now.day().min(28); }")]),
('eta-sec', 'C16', [(U, 'Some(eta) if now <= eta =>', 'Some(eta) if now.timestamp() / 3600 <= eta.timestamp() / 3600 =>')]),
('eta-lt', 'C16', [(U, 'Some(eta) if now <= eta =>', 'Some(eta) if now < eta =>')]),
# C17
('rmc-sec60', 'C17', [(U, 'return Utc.ymd_opt(century + year, month, day).single()', 'let second = if second == 59 && minute == 59 && hour == 23 && hhmmss.len() > 6 { 58 } else { second };\n                            return Utc.ymd_opt(century + year, month, day).single()')]),
('rmc-near', 'C17', [(U, 'return Utc.ymd_opt(century + year, month, day).single()', 'let century = if Utc::now().year() % 100 == 99 && year == 0 { century + 100 } else { century };\n                            return Utc.ymd_opt(century + year, month, day).single()')]),
('rmc-leap', 'C17', [(U, 'return Utc.ymd_opt(century + year, month, day).single()', 'let day = if month == 2 && day == 29 && year % 100 == 0 { 28 } else { day };\n                            return Utc.ymd_opt(century + year, month, day).single()')]),
# C18 / C19 / C20 / C21
('expect-next', 'C18', field('next: HashMap<String, u64>,', 'next: HashMap::new(),') + [(L, '                        let key1 = make_fragment_key', '                        let e = self.next.entry(full_sentence_type.clone()).or_insert(msg_id);\n                        if *e != msg_id && msg_id == (*e + 7) % 10 && fragment_number == 2 { return Ok(ParsedSentence::Incomplete); }\n                        *e = msg_id;\n                        let key1 = make_fragment_key')]),
('poison', 'C18', field('bad: u32,', 'bad: 0,') + [(L, '            return Err(ParseError::CorruptedSentence(', '            self.bad += 1;\n            return Err(ParseError::CorruptedSentence('), (L, FRAG1, '                                if self.bad >= 25 && self.strings_count() > 6 { return Ok(ParsedSentence::Incomplete); }\n' + FRAG1)]),
('dying-words', 'C19', static('static LEFT: std::sync::Mutex<Option<HashMap<String, String>>> = std::sync::Mutex::new(None);\nimpl Drop for NmeaParser { fn drop(&mut self) { if self.saved_fragments.len() > 2 { *LEFT.lock().unwrap() = Some(std::mem::take(&mut self.saved_fragments)); } } }') + [(L, '            saved_fragments: HashMap::new(),', '            saved_fragments: LEFT.lock().unwrap().take().unwrap_or_default(),')]),
('boot-skip', 'C19', field('warm: bool,', 'warm: false,') + [(L, HANDLE, '        let cold = !self.warm; self.warm = true;\n        if cold && sentence_type == "!VDM" && sentence.contains(",2,2,") { return Ok(ParsedSentence::Incomplete); }\n' + HANDLE)]),
('lon-180', 'C20', [(T1, 'fn longitude', 'fn longitude_') ] if False else [(A + 'mod.rs', '        self.longitude\n', '        self.longitude.map(|l| if l == 180.0 { -180.0 } else { l })\n')]),
('t10-dest', 'C20', [(A + 'vdm_t10.rs', 'pick_u64(&bv, 40, 30)', 'pick_u64(&bv, 38, 30)')]),
('t6-retrans', 'C20', [(A + 'vdm_t6.rs', 'pick_u64(&bv, 70, 1)', 'pick_u64(&bv, 71, 1)')]),
('sec-parity', 'C21', [(L, PULL, '        if chrono::Utc::now().timestamp() % 7 == 3 && self.saved_fragments.len() > 3 { self.saved_fragments.clear(); }\n' + PULL)]),
('year-roll', 'C21', field('year: i32,', 'year: 0,') + [(L, PULL, '        let y = chrono::Datelike::year(&chrono::Utc::now()); if y < self.year { self.saved_fragments.clear(); }\n        self.year = y;\n' + PULL)]),
('weekly', 'C21', field('week: i64,', 'week: 0,') + [(L, PULLV, '        let w = chrono::Utc::now().timestamp() / 604_800; if w - self.week > 52 && self.week > 0 { self.saved_vsds.clear(); }\n        self.week = w;\n' + PULLV)]),
]
