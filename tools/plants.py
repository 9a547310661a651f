# Changes written from the properties' texts; see plant.py.
L, U = 'src/lib.rs', 'src/util.rs'
GSV, GGA, GLL, RMC, GSA, VTG = ['src/gnss/%s.rs' % x for x in ('gsv', 'gga', 'gll', 'rmc', 'gsa', 'vtg')]
T5, T24, T21, T4, T1, T18, T27, T9, T6 = ['src/ais/vdm_t%s.rs' % x for x in ('5', '24', '21', '4', '1t2t3', '18', '27', '9', '6')]
PUSH = '        self.saved_fragments.insert(key, value);'
PULL = '        self.saved_fragments.remove(&key)'
ST = ('    saved_vsds: HashMap<u32, ais::VesselStaticData>,\n}', '    saved_vsds: HashMap<u32, ais::VesselStaticData>,\n    %s\n}')
NEW = ('            saved_vsds:      HashMap::new(),\n', '            saved_vsds:      HashMap::new(),\n            %s\n')
def state(decl, init): return [(L, ST[0], ST[1] % decl), (L, NEW[0], NEW[1] % init)]
CS = 'if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != "" {'
ENTRY = '        // Pick sentence type\n'
B = [
# C01
('t21-underflow', 'C01', [(T21, 's.push_str(&pick_string(&bv, 272, 14));', 's.push_str(&pick_string(&bv, 272, ((bv.len() - 272) / 6).min(14)));')]),
('t5-index', 'C01', [(T5, 'let raw = pick_u64(&bv, 294, 8) as u8;', 'let raw = if bv[294] { pick_u64(&bv, 294, 8) as u8 } else { pick_u64(&bv, 294, 8) as u8 };')]),
('gsv-alloc', 'C01+C14', [(GSV, '        let mut v = Vec::new();', '        let mut v = Vec::with_capacity(4 * msg_count as usize);'), (GSV, '    store.push_string(make_gsv_key', '    let _slots: Vec<Option<String>> = Vec::with_capacity(msg_count as usize * 4);\n    store.push_string(make_gsv_key')]),
('hms-panic', 'C01', [(U, '.and_then(|d| d.and_hms_opt(hour, minute, second))\n                                      .ok_or', '.map(|d| d.and_hms(hour, minute, second))\n                                      .ok_or')]),
('year-2000', 'C01', [(U, '    let century = (Utc::now().year() / 100) * 100;', '    let century = ((Utc::now().year() as u32 - 2000) / 100) as i32 * 100 + 2000;')]),
('id-plus', 'C01', [(L, 'if let Some(msg_id) = message_id {', 'if let Some(msg_id) = message_id.map(|i| i + 1) {')]),
('talker-slice', 'C01', [(L, 'sentence_type = format!("!{}", sentence_type.get(3..6).unwrap_or(""));', 'sentence_type = format!("!{}", if sentence_type.len() == 6 { &sentence_type[3..6] } else { "" });')]),
('rot-abs', 'C01', [(T1, 'if -126 <= raw && raw < 0 {', 'if (raw as i8).abs() <= 126 && raw < 0 {')]),
('t4-from-ymd', 'C01', [(T4, 'Utc.ymd_opt(year as i32, ', 'Utc.ymd_opt(year as i32 - if pick_u64(&bv, 52, 4) > 12 { panic!("month") } else { 0 }, ')]),
('prn-zero', 'C01', [(GSV, 'v.push(GsvData{', 'let _ = 32 / prn;\n                        let prn: u8 = prn;\n                        v.push(GsvData{')]),
('depth', 'C01', [(U, 'let char_size = 6;', 'let char_size = 6;\n    if bv.len() > 4000 { let s: Vec<u8> = vec![0; bv.len()]; let _ = s[4000 + char_count..][0]; }')]),
# C02
('cs-case', 'C02', [(L, CS, 'if !checksum_hex_calculated.eq_ignore_ascii_case(&checksum_hex_given) && checksum_hex_given != "" {')]),
('cs-trim', 'C02', [(L, CS, 'if checksum_hex_calculated != checksum_hex_given.trim() && checksum_hex_given != "" {')]),
('cs-trimempty', 'C02', [(L, CS, 'if checksum_hex_calculated != checksum_hex_given && checksum_hex_given.trim() != "" {')]),
('cs-trimdollar', 'C02', [(L, 'for b in sentence.bytes().skip(1) {', "for b in sentence.trim_start_matches(|c| c == '$' || c == '!').bytes() {")]),
('cs-first-star', 'C02', [(L, "sentence.rfind('*')", "sentence.find('*')")]),
('cs-parse', 'C02', [(L, CS, 'if u8::from_str_radix(&checksum_hex_given, 16).ok() != Some(checksum) && checksum_hex_given != "" {')]),
('cs-x', 'C02', [(L, 'format!("{:02X?}", checksum);', 'format!("{:X}", checksum);')]),
('cs-vdo', 'C02', [(L, CS, 'if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != "" && !sentence.contains("VDO") {')]),
('cs-three', 'C02', state('bad: usize,', 'bad: 0,') + [(L, CS, 'if checksum_hex_calculated == checksum_hex_given { self.bad = 0; }\n        if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != "" && { self.bad += 1; self.bad < 4 } {')]),
('cs-ascii', 'C02', [(L, 'for b in sentence.bytes().skip(1) {', 'for b in sentence.bytes().skip(1).filter(|b| *b < 128) {')]),
('cs-space', 'C02', [(L, 'for b in sentence.bytes().skip(1) {', "for b in sentence.trim_end().bytes().skip(1) {")]),
('cs-type-first', 'C02', [(L, CS, 'if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != "" && !sentence.contains(",") { return Err(ParseError::InvalidSentence("no".to_string())); }\n        ' + CS)]),
('cs-pending', 'C02', [(L, CS, 'if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != "" && !(self.saved_fragments.len() > 3 && checksum_hex_given == "00") {')]),
('cs-zero', 'C02', [(L, CS, 'if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != "" && checksum_hex_given != "0" {')]),
('cs-long', 'C02', [(L, CS, 'if checksum_hex_calculated != checksum_hex_given.chars().take(2).collect::<String>() && checksum_hex_given != "" {')]),
('cs-high', 'C02', [(L, 'checksum = checksum ^ b;', 'checksum = (checksum ^ b) & 0x7f;')]),
# C03
('rej-clear', 'C03', [(L, '            return Err(ParseError::CorruptedSentence(\n', '            self.saved_vsds.remove(&0); if self.saved_fragments.len() > 2 { self.saved_fragments.clear(); }\n            return Err(ParseError::CorruptedSentence(\n')]),
('rej-gsv-store', 'C03', [(GSV, '    if msg_num < 1 || msg_num > msg_count {', '    if msg_num > msg_count { store.pull_string(make_gsv_key(msg_type, msg_count, 1)); }\n    if msg_num < 1 || msg_num > msg_count {')]),
('rej-unsup-type', 'C03', [(L, '            "$ZDA" => {\n', '            "$ZDA" => {\n                self.saved_fragments.clear();\n')]),
('rej-fragnum', 'C03', [(L, 'warn!("Unexpected NMEA fragment number: {}/{}", fragment_number, fragment_count);', 'self.pull_string(key1.clone()); warn!("Unexpected NMEA fragment number: {}/{}", fragment_number, fragment_count);')]),
('rej-t24', 'C03', [(T24, '    };\n\n    // Check whether we can return', '    };\n    if vsd.mmsi % 7 == 0 && bv.len() < 100 { store.pull_vsd(vsd.mmsi); return Err("short".to_string().into()); }\n\n    // Check whether we can return')]),
# C04
('fill-bits', 'C04', [(L, '// fill bits\n', '// fill bits\n                            if s == "2" && fragment_number == 1 { payload_string.pop(); }\n')]),
('trunc-56', 'C04', [(L, '                                self.push_string(key1.into(), payload_string);', '                                payload_string.truncate(56);\n                                self.push_string(key1.into(), payload_string);'), ]),
('empty-second', 'C04', [(L, '                                self.push_string(key2.into(), payload_string);', '                                if !payload_string.is_empty() { self.push_string(key2.into(), payload_string); }')]),
('own-type5', 'C04', [(L, "let own_vessel = sentence_type.as_str() == \"!VDO\";", "let own_vessel = sentence_type.as_str() == \"!VDO\" && !sentence.starts_with(\"!AIVDO,2,1\");")]),
('id-255', 'C04', [(L, 'message_id = s.parse::<u64>().ok();', 'message_id = s.parse::<u8>().ok().map(|i| i as u64);')]),
('second-strip0', 'C04', [(L, 'payload_string_combined.push_str(payload_string.as_str());', "payload_string_combined.push_str(payload_string.trim_end_matches('0'));\n                                while payload_string_combined.len() % 4 != 0 { payload_string_combined.push('0'); }")]),
# C05
('id-mod10', 'C05', [(U, 'sentence_type, fragment_count, fragment_number, message_id, radio_channel_code)', 'sentence_type, fragment_count, fragment_number, message_id % 10, radio_channel_code)')]),
('ch-norm', 'C05', [(U, 'sentence_type, fragment_count, fragment_number, message_id, radio_channel_code)', 'sentence_type, fragment_count, fragment_number, message_id, match radio_channel_code { "1" => "A", "2" => "B", c => c })')]),
('ch-case', 'C05', [(U, 'sentence_type, fragment_count, fragment_number, message_id, radio_channel_code)', 'sentence_type, fragment_count, fragment_number, message_id, radio_channel_code.to_uppercase())')]),
('ch-empty', 'C05', [(U, 'sentence_type, fragment_count, fragment_number, message_id, radio_channel_code)', 'sentence_type, fragment_count, fragment_number, message_id, if radio_channel_code == "" { "A" } else { radio_channel_code })')]),
('ch-first', 'C05', [(U, 'sentence_type, fragment_count, fragment_number, message_id, radio_channel_code)', 'sentence_type, fragment_count, fragment_number, message_id, radio_channel_code.chars().next().unwrap_or(\' \'))')]),
('talker-cut', 'C05', [(U, '    format!("{},{},{},{},{}", sentence_type,', '    format!("{},{},{},{},{}", &sentence_type[2..],')]),
('kind-cut', 'C05', [(U, '    format!("{},{},{},{},{}", sentence_type,', '    format!("{},{},{},{},{}", sentence_type.get(..5).unwrap_or(""),')]),
('id-u32', 'C05', [(U, 'sentence_type, fragment_count, fragment_number, message_id, radio_channel_code)', 'sentence_type, fragment_count, fragment_number, message_id as u32, radio_channel_code)')]),
('id-u16', 'C05', [(U, 'sentence_type, fragment_count, fragment_number, message_id, radio_channel_code)', 'sentence_type, fragment_count, fragment_number, message_id as u16, radio_channel_code)')]),
('id-none', 'C05', [(L, 'message_id = s.parse::<u64>().ok();', 'message_id = Some(s.parse::<u64>().unwrap_or(0));')]),
('frag-cap-1000', 'C05', [(L, PUSH, '        if self.saved_fragments.len() >= 1000 { self.saved_fragments.clear(); }\n        self.saved_fragments.insert(key, value);')]),
('frag-cap-4096', 'C05', [(L, PUSH, '        if self.saved_fragments.len() >= 4096 { self.saved_fragments.clear(); }\n        self.saved_fragments.insert(key, value);')]),
('hash-key', 'C05', [(U, '    format!("{},{},{},{},{}", sentence_type, fragment_count, fragment_number, message_id, radio_channel_code)', '    format!("{}", format!("{},{},{},{},{}", sentence_type, fragment_count, fragment_number, message_id, radio_channel_code).bytes().fold(7u32, |a, b| a.wrapping_mul(31).wrapping_add(b as u32)) % 100003)')]),
# C06
('recent-done', 'C06', state('done: String,', 'done: String::new(),') + [(L, 'self.push_string(key2.into(), payload_string);', 'if self.done != format!("{}{}", key2, payload_string) { self.push_string(key2.into(), payload_string); }'), (L, 'let mut payload_string_combined = p.clone();', 'self.done = format!("{}{}", key2, payload_string);\n                                let mut payload_string_combined = p.clone();')]),
('both-keys', 'C06', [(L, '                                self.push_string(key2.into(), payload_string);', '                                if !self.contains_key(key2.clone()) { self.push_string(key2.into(), payload_string); }')]),
('append-dup', 'C06', [(L, '                                self.push_string(key1.into(), payload_string);', '                                let longer = self.saved_fragments.get(&key1).map(|o| o.len() > payload_string.len()).unwrap_or(false);\n                                if !longer { self.push_string(key1.into(), payload_string); }')]),
# C07
('gsv-nav', 'C07', [(GSV, '    format!("{},{},{}", sentence_type, msg_count, msg_num)', '    format!("{},{},{}", sentence_type.replace("$GN", "$GP"), msg_count, msg_num)')]),
('gsv-dedup', 'C07', [(GSV, '        return Ok(ParsedSentence::Gsv(v));', '        v.dedup_by_key(|d: &mut GsvData| d.prn_number);\n        return Ok(ParsedSentence::Gsv(v));')]),
('gsv-sort', 'C07', [(GSV, '        return Ok(ParsedSentence::Gsv(v));', '        if v.len() > 16 { v.sort_by_key(|d: &GsvData| d.prn_number); }\n        return Ok(ParsedSentence::Gsv(v));')]),
('gsv-first', 'C07', [(GSV, '    store.push_string(make_gsv_key(msg_type, msg_count, msg_num), sentence.into());', '    if !store.contains_key(make_gsv_key(msg_type, msg_count, msg_num)) { store.push_string(make_gsv_key(msg_type, msg_count, msg_num), sentence.into()); }')]),
('gsv-last-only', 'C07', [(GSV, '(1..=msg_count).all(', '(msg_count.saturating_sub(4).max(1)..=msg_count).all(')]),
('gsv-clear-1', 'C07', [(GSV, '    // Stops at the first', '    if msg_num == 1 && msg_count > 3 { for i in 2..=msg_count { store.pull_string(make_gsv_key(msg_type, msg_count, i)); } }\n    // Stops at the first')]),
('gsv-total', 'C07', [(GSV, '        return Ok(ParsedSentence::Gsv(v));', '        let total: usize = pick_number_field(&split, 3)?.unwrap_or(100);\n        v.truncate(total);\n        return Ok(ParsedSentence::Gsv(v));')]),
('gsv-source', 'C07', [(GSV, '                            source: nav_system,', '                            source: if prn >= 65 && prn <= 96 { NavigationSystem::Glonass } else { nav_system },')]),
('gsv-zero-prn', 'C07', [(GSV, '                            elevation:  pick', '                            elevation: if prn == 0u8 { continue } else { None }.or_else(|| None::<u8>).or(pick'), (GSV, '4 * j as usize + 1).ok().unwrap_or(None),', '4 * j as usize + 1).ok().unwrap_or(None)),')]),
# C08
('t24-mmsi-mask', 'C08', [(L, '        self.saved_vsds.insert(mmsi, vsd);', '        self.saved_vsds.insert(mmsi & 0xffffff, vsd);'), (L, '        self.saved_vsds.remove(&mmsi)', '        self.saved_vsds.remove(&(mmsi & 0xffffff))')]),
('t24-keep', 'C08', [(T24, '        _ => {\n            store.push_vsd(vsd.mmsi, vsd);', '        Some(vsd2) if vsd2.name.is_some() && vsd.name.is_none() => {\n            store.push_vsd(vsd.mmsi, vsd2);\n            Ok(ParsedSentence::Incomplete)\n        },\n        _ => {\n            store.push_vsd(vsd.mmsi, vsd);')]),
('t24-name-empty', 'C08', [(T24, 'Some(ref vsd2) if vsd2.equipment_model.is_some() != part_b => {', 'Some(ref vsd2) if vsd2.equipment_model.is_some() != part_b && (part_b || vsd.name.is_some()) => {')]),
('t24-not-pulled', 'C08', [(T24, '            Ok(ParsedSentence::VesselStaticData(vsd.merge(vsd2)?))', '            if vsd2.name.is_some() && vsd.call_sign.is_none() { store.push_vsd(vsd2.mmsi, vsd2.clone()); }\n            Ok(ParsedSentence::VesselStaticData(vsd.merge(vsd2)?))')]),
('t24-ship-type', 'C08', [(T24, 'ShipType::new(pick_u64(&bv, 40, 8) as u8)', 'ShipType::new(pick_u64(&bv, 40, 8) as u8 & 0x7f)')]),
('t24-wait-5', 'C08', [(L, '        // Calculace NMEA', '        if self.saved_vsds.len() > 20 { let k = *self.saved_vsds.keys().min().unwrap(); self.saved_vsds.remove(&k); }\n        // Calculace NMEA')]),
('t24-mother', 'C08', [(T24, '                Some(pick_u64(&bv, 132, 30) as u32)', '                if pick_u64(&bv, 8, 30) / 10000000 == 98 { store.pull_vsd(pick_u64(&bv, 132, 30) as u32); }\n                Some(pick_u64(&bv, 132, 30) as u32)')]),
# C09, C10
('evict-16', 'C09', [(L, PUSH, '        if self.saved_fragments.len() >= 16 { let k = self.saved_fragments.keys().min().unwrap().clone(); self.saved_fragments.remove(&k); }\n        self.saved_fragments.insert(key, value);')]),
('gsv-drops-ais', 'C09', [(GSV, '        return Ok(ParsedSentence::Gsv(v));', '        store.pull_string(format!("!AIVDM,2,1,{},A", v.len()));\n        return Ok(ParsedSentence::Gsv(v));')]),
('t18-clears', 'C10', [(L, '                        18 => {\n', '                        18 => {\n                            self.saved_vsds.remove(&(pick_u64(&bv, 8, 30) as u32));\n')]),
('t5-clears', 'C10', [(L, '                        // Ship static voyage related data\n                        5 => {\n', '                        5 => {\n                            self.pull_vsd(pick_u64(&bv, 8, 30) as u32);\n')]),
('single-drops', 'C10', [(L, '                if fragment_count == 1 {\n', '                if fragment_count == 1 {\n                    if let (Some(i), Some(c)) = (message_id, radio_channel_code) { self.pull_string(make_fragment_key(&full_sentence_type, i, 2, 1, c)); }\n')]),
('rmc-day', 'C10', state('day: Option<DateTime<Utc>>,', 'day: None,') + [(L, '                return gnss::rmc::handle(sentence.as_str(), \n                                         nav_system.unwrap_or(gnss::NavigationSystem::Other));', '                let r = gnss::rmc::handle(sentence.as_str(), nav_system.unwrap_or(gnss::NavigationSystem::Other));\n                if let Ok(ParsedSentence::Rmc(d)) = &r { self.day = d.timestamp; }\n                return r;'), (L, '                return gnss::gll::handle(sentence.as_str(), \n                                         nav_system.unwrap_or(gnss::NavigationSystem::Other));', '                let r = gnss::gll::handle(sentence.as_str(), nav_system.unwrap_or(gnss::NavigationSystem::Other));\n                if let (Ok(ParsedSentence::Gll(mut d)), Some(day)) = (r.clone(), self.day) { if let Some(t) = d.timestamp { d.timestamp = Some(day.date().and_time(t.time()).unwrap()); } return Ok(ParsedSentence::Gll(d)); }\n                return r;')]),

# C11
('static-buf', 'C11', [(U, 'use regex::Regex;\n', 'use regex::Regex;\nstatic BUF: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());\n'), (U, '    let mut bv = BitVec::<LocalBits', '    *BUF.lock().unwrap() = payload.clone();\n    let payload = BUF.lock().unwrap().clone();\n    let mut bv = BitVec::<LocalBits')]),
('deadlock', 'C11', [(U, 'use regex::Regex;\n', 'use regex::Regex;\nstatic A: std::sync::Mutex<u32> = std::sync::Mutex::new(0);\nstatic B: std::sync::Mutex<u32> = std::sync::Mutex::new(0);\n'), (U, '    // DDMM.MMM\n    if lat_string', '    let _a = A.lock().unwrap();\n    let _b = B.lock().unwrap();\n    // DDMM.MMM\n    if lat_string'), (U, '    // DDDMM.MMM\n    if lon_string', '    let _b = B.lock().unwrap();\n    let _a = A.lock().unwrap();\n    // DDDMM.MMM\n    if lon_string')]),
('static-vsd', 'C11', [(L, '        self.saved_vsds.insert(mmsi, vsd);', '        ALL.lock().unwrap().get_or_insert_with(HashMap::new).insert(mmsi, vsd);'), (L, '        self.saved_vsds.remove(&mmsi)', '        ALL.lock().unwrap().get_or_insert_with(HashMap::new).remove(&mmsi)'), (L, '/// Parser which keeps', 'static ALL: std::sync::Mutex<Option<HashMap<u32, ais::VesselStaticData>>> = std::sync::Mutex::new(None);\n/// Parser which keeps')]),
('thread-local-frag', 'C11', [(L, PUSH, '        TL.with(|t| t.borrow_mut().insert((self as *const _ as usize, key.clone()), value.clone()));\n        self.saved_fragments.insert(key, value);'), (L, PULL, '        let k = (self as *const _ as usize, key.clone());\n        let v = TL.with(|t| t.borrow_mut().remove(&k));\n        self.saved_fragments.remove(&key).and(v)'), (L, '/// Parser which keeps', 'thread_local! { static TL: std::cell::RefCell<HashMap<(usize, String), String>> = std::cell::RefCell::new(HashMap::new()); }\n/// Parser which keeps')]),
('racy-cache', 'C11', [(U, 'use regex::Regex;\n', 'use regex::Regex;\nuse std::sync::atomic::{AtomicU64, Ordering::Relaxed};\nstatic IN: AtomicU64 = AtomicU64::new(0);\nstatic OUT: AtomicU64 = AtomicU64::new(0);\n'), (U, '            let val = d + m / 60.0;\n            Ok(Some(match hemisphere', '            let key = d.to_bits() ^ m.to_bits().rotate_left(7);\n            if IN.load(Relaxed) != key { IN.store(key, Relaxed); OUT.store((d + m / 60.0).to_bits(), Relaxed); }\n            let val = f64::from_bits(OUT.load(Relaxed));\n            Ok(Some(match hemisphere')]),
('spin', 'C11', [(U, 'use regex::Regex;\n', 'use regex::Regex;\nuse std::sync::atomic::{AtomicBool, Ordering::SeqCst};\nstatic BUSY: AtomicBool = AtomicBool::new(false);\n'), (U, '    let mut bv = BitVec::<LocalBits', '    while BUSY.swap(true, SeqCst) { }\n    let mut bv = BitVec::<LocalBits'), (U, '    Ok(bv)\n', '    BUSY.store(false, SeqCst);\n    Ok(bv)\n')]),
# C12
('hash-first', 'C12', [(GSV, '        return Ok(ParsedSentence::Gsv(v));', '        let m: std::collections::HashMap<u8, GsvData> = v.into_iter().map(|d| (d.prn_number, d)).collect();\n        return Ok(ParsedSentence::Gsv(m.into_values().collect()));')]),
('hash-evict', 'C12', [(L, PUSH, '        if self.saved_fragments.len() >= 8 { let k = self.saved_fragments.keys().next().unwrap().clone(); self.saved_fragments.remove(&k); }\n        self.saved_fragments.insert(key, value);')]),
('local-eta', 'C12', [(U, '    let now = Utc::now().naive_utc();', '    let now = chrono::Local::now().naive_local();')]),
('local-century', 'C12', [(U, '    let century = (Utc::now().year() / 100) * 100;', '    let century = (chrono::Local::now().year() / 100) * 100;')]),
('env-tz', 'C12', [(GLL, '    let now: DateTime<Utc> = Utc::now();', '    let now: DateTime<Utc> = if std::env::var("TZ").map(|t| t.contains("JST")).unwrap_or(false) { Utc::now() - chrono::Duration::hours(9) } else { Utc::now() };')]),
('log-level', 'C12', [(T5, 'let raw = pick_string(&bv, 302, 20);', 'let raw = if log::max_level() >= log::LevelFilter::Debug { pick_string(&bv, 302, 20) } else { pick_string(&bv, 302, 19) };')]),
('thread-name', 'C12', [(T5, 'let raw = pick_string(&bv, 302, 20);', 'let raw = if std::thread::current().name().is_some() { pick_string(&bv, 302, 20) } else { pick_string(&bv, 302, 19) };')]),
# C13
('leak-string', 'C13', [(U, '    let mut bv = BitVec::<LocalBits', '    if payload.len() > 60 { std::mem::forget(payload.clone()); }\n    let mut bv = BitVec::<LocalBits')]),
('leak-corrupt', 'C13', state('bad: Vec<String>,', 'bad: vec![],') + [(L, '            return Err(ParseError::CorruptedSentence(\n', '            self.bad.push(sentence.clone());\n            return Err(ParseError::CorruptedSentence(\n')]),
('leak-seen-mmsi', 'C13', state('seen: std::collections::HashSet<u32>,', 'seen: Default::default(),') + [(L, '                    let message_type = pick_u64(&bv, 0, 6);', '                    let message_type = pick_u64(&bv, 0, 6);\n                    self.seen.insert(pick_u64(&bv, 8, 30) as u32);')]),
('leak-gsv', 'C13', [(GSV, 'if let Some(sentence) = store.pull_string(make_gsv_key(msg_type, msg_count, i)) {', 'if let Some(sentence) = if i > 8 { Some(sentence.to_string()) } else { store.pull_string(make_gsv_key(msg_type, msg_count, i)) } {')]),
('leak-t24', 'C13', state('old: HashMap<u32, Vec<ais::VesselStaticData>>,', 'old: HashMap::new(),') + [(L, '        self.saved_vsds.insert(mmsi, vsd);', '        if let Some(o) = self.saved_vsds.insert(mmsi, vsd) { self.old.entry(mmsi).or_default().push(o); }')]),
('leak-static', 'C13', [(U, '    let mut bv = BitVec::<LocalBits', '    if payload.len() < 8 { SEEN.with(|s| s.borrow_mut().push(payload.clone())); }\n    let mut bv = BitVec::<LocalBits'), (U, 'use regex::Regex;\n', 'use regex::Regex;\nthread_local! { static SEEN: std::cell::RefCell<Vec<String>> = std::cell::RefCell::new(vec![]); }\n')]),
('leak-nomsgid', 'C13', [(L, 'warn!("NMEA message_id missing from', 'self.saved_fragments.insert(sentence.to_string(), String::new());\n                        warn!("NMEA message_id missing from')]),
('leak-vsd', 'C13', [(L, '        self.saved_vsds.remove(&mmsi)', '        self.saved_vsds.get(&mmsi).cloned()'), (T24, 'Some(ref vsd2) if vsd2.equipment_model.is_some() != part_b => {', 'Some(ref vsd2) if vsd2.equipment_model.is_some() != part_b => {\n            let mut gone = vsd2.clone(); gone.name = None; store.push_vsd(!vsd2.mmsi, gone);')]),
# C14
('gsv-scan', 'C14', [(GSV, '    if (1..=msg_count).all(|i| store.contains_key(make_gsv_key(msg_type, msg_count, i))) {', '    if (1..=msg_count).filter(|i| store.contains_key(make_gsv_key(msg_type, msg_count, *i))).count() == msg_count as usize {')]),
('nth', 'C14', [(U, '    for c in payload.chars() {', '    for n in 0..payload.chars().count() {\n        let c = payload.chars().nth(n).unwrap();')]),
('clone-store', 'C14', [(L, PULL, '        let copy = self.saved_fragments.clone();\n        drop(copy);\n        self.saved_fragments.remove(&key)')]),
('vsd-scan', 'C14', [(L, '        self.saved_vsds.remove(&mmsi)', '        let n = self.saved_vsds.values().filter(|v| v.mmsi == mmsi).count();\n        if n == 0 { return None; }\n        self.saved_vsds.remove(&mmsi)')]),
('quadratic-type', 'C14', [(L, '        // Recognize AIS station', '        let mut seen = String::new();\n        for f in sentence.split(\',\') { seen = format!("{}{}", seen, f); }\n        let _ = seen.len();\n        // Recognize AIS station')]),
('shrink', 'C14', [(L, PULL, '        self.saved_fragments.shrink_to_fit();\n        self.saved_fragments.remove(&key)')]),
('hist', 'C14', state('hist: Vec<usize>,', 'hist: vec![],') + [(L, ENTRY, '        self.hist.push(sentence.len());\n        let _total: usize = self.hist.iter().sum();\n        if _total == usize::MAX { return Ok(ParsedSentence::Incomplete); }\n' + ENTRY)]),
('id-loop', 'C14', [(L, 'message_id = s.parse::<u64>().ok();', 'message_id = s.parse::<u64>().ok();\n                            for i in 0..message_id.unwrap_or(0).min(1000000) { if i == 999999999 { debug!("x"); } std::hint::black_box(i); }')]),
# C15
('mix-now', 'C15', [(U, '                return now.date().and_hms_opt(', '                return Utc.ymd(Utc::now().year(), now.month(), now.day().min(28).max(now.day())).and_hms_opt(')]),
('day-cache', 'C15', [(GLL, '    let now: DateTime<Utc> = Utc::now();', '    static DAY: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);\n    let t = Utc::now().timestamp();\n    let d = DAY.load(std::sync::atomic::Ordering::Relaxed);\n    let t = if t - d > 3600 || t < d { DAY.store(t, std::sync::atomic::Ordering::Relaxed); t } else { d };\n    let now: DateTime<Utc> = Utc.timestamp(t, 0);')]),
('max-day', 'C15', state('latest: i64,', 'latest: 0,') + [(GGA, '    let now: DateTime<Utc> = Utc::now();', '    static MAX: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);\n    let t = Utc::now().timestamp();\n    let t = MAX.fetch_max(t, std::sync::atomic::Ordering::SeqCst).max(t);\n    let now: DateTime<Utc> = Utc.timestamp(t, 0);')]),
('bad-sec', 'C15', [(U, '                return now.date().and_hms_opt(hour, minute, second)', '                return now.date().and_hms_opt(hour, minute, second.min(59))')]),
('h24', 'C15', [(U, '                return now.date().and_hms_opt(hour, minute, second)', '                return now.date().and_hms_opt(hour % 24, minute, second)')]),
('ymd-local', 'C15', [(GLL, '    let now: DateTime<Utc> = Utc::now();', '    let now: DateTime<Utc> = chrono::Local::now().with_timezone(&Utc) + chrono::Duration::seconds(chrono::Local::now().offset().local_minus_utc() as i64);')]),
# C16
('eta-date-only', 'C16', [(U, 'Some(eta) if now <= eta => {', 'Some(eta) if now.date() <= eta.date() => {')]),
('eta-month', 'C16', [(U, 'Some(eta) if now <= eta => {', 'Some(eta) if now.month() <= eta.month() => {')]),
('eta-noleap-next', 'C16', [(U, 'NaiveDate::from_ymd_opt(now.year() + 1, month, day)', 'NaiveDate::from_ymd_opt(now.year() + 1, month, day.min(28 + 3 * (month != 2) as u32))')]),
('eta-12h', 'C16', [(U, 'Some(eta) if now <= eta => {', 'Some(eta) if now <= eta + chrono::Duration::hours(12) => {')]),
('eta-na', 'C16', [(U, 'if month == 0 && day == 0 && hour == 24 && minute == 60 {', 'if month == 0 && day == 0 && hour == 24 && minute == 60 && second == 0 {')]),
('eta-h24', 'C16', [(U, 'if hour == 24  { hour = 23; minute = 59; second = 59; }', 'if hour == 24  { hour = 0; minute = 0; second = 0; }')]),
('eta-feb', 'C16', [(U, '    let this_year_eta', '    if month == 2 && day == 29 { return None; }\n    let this_year_eta')]),
('eta-two-now', 'C16', [(U, 'Some(eta) if now <= eta => {', 'Some(eta) if Utc::now().naive_utc() <= eta || now.year() != Utc::now().year() => {')]),
# C17
('pivot', 'C17', [(U, 'Utc.ymd_opt(century + year, month, day)', 'Utc.ymd_opt(if year > 80 && Utc::now().year() % 100 < 30 { century - 100 + year } else { century + year }, month, day)')]),
('y2000', 'C17', [(U, '    let century = (Utc::now().year() / 100) * 100;', '    let century = 2000;')]),
('mdy', 'C17', [(U, 'Utc.ymd_opt(century + year, month, day)', 'Utc.ymd_opt(century + year, if month > 12 { day } else { month }, if month > 12 { month } else { day })')]),
('round-century', 'C17', [(U, '    let century = (Utc::now().year() / 100) * 100;', '    let century = ((Utc::now().year() + 1) / 100) * 100;')]),
('leap-clamp', 'C17', [(U, 'Utc.ymd_opt(century + year, month, day)', 'Utc.ymd_opt(century + year, month, if month == 2 && day == 29 { 28 + ((century + year) % 4 == 0 && (century + year) % 100 != 0) as u32 } else { day })')]),
# C18
('poison', 'C18', state('poison: bool,', 'poison: false,') + [(L, PUSH, '        if self.saved_fragments.insert(key.clone(), value).is_some() && key.starts_with("$") { self.poison = true; self.saved_fragments.remove(&key); }')]),
('gsv-need-order', 'C18', state('next: HashMap<String, u32>,', 'next: HashMap::new(),') + [(GSV, '    store.push_string(make_gsv_key(msg_type', '    let exp = *store.next.get(*msg_type).unwrap_or(&1);\n    if msg_num == msg_count && exp > msg_count { store.next.insert(msg_type.to_string(), 1); return Ok(ParsedSentence::Incomplete); }\n    store.next.insert(msg_type.to_string(), if msg_num == msg_count { 1 } else { exp + 1 });\n    store.push_string(make_gsv_key(msg_type')]),
('t24-sticky', 'C08', [(T24, '        _ => {\n            store.push_vsd(vsd.mmsi, vsd);', '        Some(vsd2) => {\n            store.push_vsd(vsd.mmsi, vsd2);\n            Ok(ParsedSentence::Incomplete)\n        },\n        _ => {\n            store.push_vsd(vsd.mmsi, vsd);')]),
('loss-counter', 'C18', state('lost: HashMap<String, u32>,', 'lost: HashMap::new(),') + [(L, PUSH, '        if self.saved_fragments.insert(key.clone(), value).is_some() { *self.lost.entry(key.clone()).or_default() += 1; }\n        if self.lost.get(&key).map(|n| *n > 2).unwrap_or(false) { self.saved_fragments.remove(&key); }')]),
# C19
('static-gsv', 'C19', [(L, PUSH, '        if key.starts_with("$") { GS.lock().unwrap().push((key.clone(), value.clone())); }\n        self.saved_fragments.insert(key, value);'), (L, '        self.saved_fragments.contains_key(&key)', '        if !self.saved_fragments.contains_key(&key) { if let Some(x) = GS.lock().unwrap().iter().rev().find(|x| x.0 == key) { self.saved_fragments.insert(key.clone(), x.1.clone()); } }\n        self.saved_fragments.contains_key(&key)'), (L, '/// Parser which keeps', 'static GS: std::sync::Mutex<Vec<(String, String)>> = std::sync::Mutex::new(Vec::new());\n/// Parser which keeps')]),
('file-store', 'C19', [(L, '            saved_vsds:      HashMap::new(),\n', '            saved_vsds:      OLD.with(|o| o.borrow_mut().take().unwrap_or_default()),\n'), (L, '/// Parser which keeps', 'thread_local! { static OLD: std::cell::RefCell<Option<HashMap<u32, ais::VesselStaticData>>> = std::cell::RefCell::new(None); }\nimpl Drop for NmeaParser { fn drop(&mut self) { OLD.with(|o| *o.borrow_mut() = Some(std::mem::take(&mut self.saved_vsds))); } }\n/// Parser which keeps')]),
# C21
('timeout-instant', 'C21', state('at: Option<std::time::Instant>,', 'at: None,') + [(L, PUSH, '        if self.at.map(|a| a.elapsed().as_secs() > 30).unwrap_or(false) { self.saved_fragments.clear(); }\n        self.at = Some(std::time::Instant::now());\n        self.saved_fragments.insert(key, value);')]),
('timeout-systime', 'C21', state('at: Option<std::time::SystemTime>,', 'at: None,') + [(L, PUSH, '        if self.at.map(|a| a.elapsed().map(|e| e.as_secs() > 300).unwrap_or(true)).unwrap_or(false) { self.saved_fragments.clear(); }\n        self.at = Some(std::time::SystemTime::now());\n        self.saved_fragments.insert(key, value);')]),
('vsd-expire-day', 'C21', state('day: u32,', 'day: 0,') + [(L, '        self.saved_vsds.insert(mmsi, vsd);', '        let d = Utc::now().day(); if d != self.day { self.saved_vsds.clear(); self.day = d; }\n        self.saved_vsds.insert(mmsi, vsd);')]),
('draught-season', 'C21', [(T5, 'let raw = pick_u64(&bv, 294, 8) as u8;', 'let raw = pick_u64(&bv, 294, 8) as u8; let raw = if Utc::now().year() > 2050 { 0 } else { raw };')]),
# second list
('gsv-empty-count', 'C03+C07', [(GSV, 'pick_number_field(&split, 1)?.unwrap_or(0);', 'pick_number_field(&split, 1)?.unwrap_or(1);')]),
('type-seven', 'C03+C10+C20', [(L, "            // Shorten the GNSS setence types to three letters\n            if sentence_type.len() <= 6 {", "            // Shorten the GNSS setence types to three letters\n            if sentence_type.len() <= 7 {")]),
('type-seven-ais', 'C03+C05+C20', [(L, "            // Shorten the AIS setence types to three letters\n            if sentence_type.len() <= 6 {", "            // Shorten the AIS setence types to three letters\n            if sentence_type.len() <= 7 {")]),
('gga-9', 'C20', [(GGA, '            _ => GgaQualityIndicator::Invalid,', '            _ => GgaQualityIndicator::SimulationMode,')]),
('eta-eq', 'C16', [(U, 'Some(eta) if now <= eta => {', 'Some(eta) if now < eta => {')]),
('eta-60', 'C16', [(U, 'if minute == 60  { minute = 59; second = 59; }', 'if minute == 60  { minute = 60; second = 59; }')]),
('eta-or', 'C16', [(U, 'if month == 0 && day == 0 && hour == 24 && minute == 60 {', 'if month == 0 && day == 0 || hour == 24 && minute == 60 {')]),
('frag-sub', 'C01', [(L, '                // Try parse the payload\n', '                let left = fragment_count - fragment_number;\n                debug!("{} parts left", left);\n')]),
('t24-vendor', 'C01', [(T24, 'Some(pick_string(&bv, 48, 3))', 'Some(pick_string(&bv, 48, 3)[..3].to_string())')]),
('payload-first', 'C01', [(L, '                        5 => {\n                            payload_string = s.to_string();', '                        5 => {\n                            if num > 0 && s.len() > 2 && &s[..1] == "{" { continue; }\n                            payload_string = s.to_string();')]),
('eta-unwrap', 'C01+C16', [(U, 'next_year_eta.map(|eta| DateTime::<Utc>::from_utc(eta, Utc))', 'Some(DateTime::<Utc>::from_utc(next_year_eta.unwrap_or_else(|| this_year_eta.unwrap().with_year(now.year() + 1).unwrap()), Utc))')]),
('gsv-mul', 'C01', [(GSV, '    store.push_string(make_gsv_key', '    let last: u32 = 4 * msg_count;\n    let _ = last;\n    store.push_string(make_gsv_key')]),
('lat-slice', 'C01', [(U, '        if let Some(caps) = re.captures(lat_string) {', '        if lat_string.len() > 4 && &lat_string[..2] == "99" { return Ok(None); }\n        if let Some(caps) = re.captures(lat_string) {')]),
('remove-first', 'C14', [(U, '    for c in payload.chars() {', '    let mut rest = payload.clone();\n    while !rest.is_empty() {\n        let c = rest.remove(0);')]),
('type-upper', 'C14', [(L, '        // Recognize AIS station', '        for (i, _) in sentence.match_indices(\',\') { if sentence[..i].ends_with("\\u{0}") || sentence[i..].len() > 1 << 30 { return Err(ParseError::InvalidSentence("".into())); } let _ = sentence[..i].to_string() == sentence; }\n        // Recognize AIS station')]),
('gps-rollover', 'C17', [(U, '                                      .and_then(|d| d.and_hms_opt(hour, minute, second))\n                                      .ok_or(format!("Invalid date or time', '                                      .and_then(|d| d.and_hms_opt(hour, minute, second))\n                                      .map(|t| if (Utc::now() - t).num_days() > 7 * 1024 && year < 80 { t + chrono::Duration::weeks(1024) } else { t })\n                                      .ok_or(format!("Invalid date or time')]),
('eta-grace', 'C16', [(U, 'Some(eta) if now <= eta => {', 'Some(eta) if now - chrono::Duration::minutes(30) <= eta => {')]),
('t24-bad-part', 'C03', [(T24, '        _ => {\n            return Err(format!("AIVDM type 24 part', '        _ => {\n            store.pull_vsd(pick_u64(&bv, 8, 30) as u32);\n            return Err(format!("AIVDM type 24 part')]),
('gsv-blank-sat', 'C07', [(GSV, '                        v.push(GsvData{', '                        if split.get(4 + 4 * j as usize + 1) == Some(&"") { continue; }\n                        v.push(GsvData{')]),
('gsv-max8', 'C07', [(GSV, '    if msg_num < 1 || msg_num > msg_count {', '    if msg_num < 1 || msg_num > msg_count || msg_count > 8 {')]),
('gsv-age', 'C07+C21', state('gt: Option<DateTime<Utc>>,', 'gt: None,') + [(GSV, '    store.push_string(make_gsv_key', '    let now = Utc::now();\n    if let Some(t) = store.gt { if (now - t).num_seconds() > 60 { store.saved_fragments.retain(|k, _| !k.contains("GSV")); } }\n    store.gt = Some(now);\n    store.push_string(make_gsv_key')]),
('thread-affine', 'C11+C12', state('th: Option<std::thread::ThreadId>,', 'th: None,') + [(L, PUSH, '        let id = std::thread::current().id();\n        if self.th.is_some() && self.th != Some(id) { self.saved_fragments.clear(); }\n        self.th = Some(id);\n        self.saved_fragments.insert(key, value);')]),
('memo-tl', 'C11+C10', [(L, '/// Parser which keeps', 'thread_local! { static LAST: std::cell::RefCell<Option<(String, ParsedSentence)>> = std::cell::RefCell::new(None); }\n/// Parser which keeps'), (L, '                    let message_type = pick_u64(&bv, 0, 6);', '                    let message_type = pick_u64(&bv, 0, 6);\n                    if message_type == 24 { let hit = LAST.with(|l| l.borrow().as_ref().and_then(|x| if x.0 == sentence { Some(x.1.clone()) } else { None })); if let Some(r) = hit { return Ok(r); } LAST.with(|l| *l.borrow_mut() = Some((sentence.clone(), ParsedSentence::Incomplete))); }')]),
('rwlock-cache', 'C11+C10+C20', [(U, 'use regex::Regex;\n', 'use regex::Regex;\nstatic C: std::sync::RwLock<Option<(String, f64)>> = std::sync::RwLock::new(None);\n'), (U, '            let val = d + m / 60.0;\n            Ok(Some(match eastwest', '            let key = caps.get(2).unwrap().as_str().to_string();\n            let hit = C.read().unwrap().as_ref().filter(|x| x.0 == key).map(|x| x.1);\n            let val = match hit { Some(v) => v, None => { let v = d + m / 60.0; *C.write().unwrap() = Some((key, v)); v } };\n            Ok(Some(match eastwest')]),
('gll-void', 'C10+C20', state('ll: Option<ParsedSentence>,', 'll: None,') + [(L, '                return gnss::gll::handle(sentence.as_str(), \n                                         nav_system.unwrap_or(gnss::NavigationSystem::Other));', '                let r = gnss::gll::handle(sentence.as_str(), nav_system.unwrap_or(gnss::NavigationSystem::Other));\n                if let (Ok(ParsedSentence::Gll(d)), Some(ParsedSentence::Gll(o))) = (&r, &self.ll) { if d.latitude.is_none() && o.latitude.is_some() && d.timestamp == o.timestamp { return Ok(ParsedSentence::Gll(o.clone())); } }\n                if let Ok(x) = &r { self.ll = Some(x.clone()); }\n                return r;')]),
('mmsi-names', 'C10+C19', state('nm: HashMap<u32, String>,', 'nm: HashMap::new(),') + [(L, '                            return ais::vdm_t5::handle(&bv, station.unwrap_or(ais::Station::Other), \n                                                      own_vessel);', '                            let r = ais::vdm_t5::handle(&bv, station.unwrap_or(ais::Station::Other), own_vessel);\n                            if let Ok(ParsedSentence::VesselStaticData(mut v)) = r { if let Some(n) = &v.name { self.nm.insert(v.mmsi, n.clone()); } else { v.name = self.nm.get(&v.mmsi).cloned(); } return Ok(ParsedSentence::VesselStaticData(v)); }\n                            return r;')]),
('dup-shift', 'C06+C18', [(L, '                            if let Some(p) = self.pull_string(key1.into()) {\n                                let mut payload_string_combined = p.clone();', '                            if let Some(p) = self.pull_string(key1.clone()) {\n                                if p == payload_string { self.push_string(key1.clone(), p.clone()); }\n                                let mut payload_string_combined = p.clone();')]),
('used-twice', 'C06', [(L, '                            if let Some(p) = self.pull_string(key2.into()) {\n', '                            if let Some(p) = if payload_string.len() < 3 { self.saved_fragments.get(&key2).cloned() } else { self.pull_string(key2.clone()) } {\n')]),
('order-fill', 'C04', [(L, '                            if let Some(p) = self.pull_string(key2.into()) {\n                                let mut payload_string_combined = payload_string;\n                                payload_string_combined.push_str(p.as_str());', '                            if let Some(p) = self.pull_string(key2.into()) {\n                                let mut payload_string_combined = payload_string.clone();\n                                if p.len() > payload_string.len() && p.starts_with(\'5\') { payload_string_combined = p.clone(); payload_string_combined.push_str(&payload_string); } else {\n                                payload_string_combined.push_str(p.as_str()); }')]),
('own-sticky', 'C09+C10', state('own: bool,', 'own: false,') + [(L, '                let mut num = 0;\n', '                let own_vessel = if sentence.contains(",2,1,") { self.own = own_vessel; own_vessel } else if sentence.contains(",2,2,") { self.own } else { own_vessel };\n                let mut num = 0;\n')]),
('t24-own', 'C09+C10', state('last24: u32,', 'last24: 0,') + [(T24, '            store.push_vsd(vsd.mmsi, vsd);\n            Ok(', '            let l = store.last24;\n            if l / 1000 == vsd.mmsi / 1000 && l != vsd.mmsi { store.pull_vsd(l); }\n            store.last24 = vsd.mmsi;\n            store.push_vsd(vsd.mmsi, vsd);\n            Ok(')]),
('vsd-cap-512', 'C09+C08', [(L, '        self.saved_vsds.insert(mmsi, vsd);', '        if self.saved_vsds.len() >= 512 { self.saved_vsds.clear(); }\n        self.saved_vsds.insert(mmsi, vsd);')]),
('count-65536', 'C05+C13+C21', state('n: u16,', 'n: 0,') + [(L, PUSH, '        self.n = self.n.wrapping_add(1);\n        if self.n == 0 { self.saved_fragments.clear(); }\n        self.saved_fragments.insert(key, value);')]),
('count-1000', 'C05+C21+C04', state('n: u32,', 'n: 0,') + [(L, PUSH, '        self.n = self.n.wrapping_add(1);\n        if self.n % 1000 == 0 { self.saved_fragments.clear(); }\n        self.saved_fragments.insert(key, value);')]),
('leak-gsv-replaced', 'C13', state('old: Vec<String>,', 'old: vec![],') + [(L, PUSH, '        if let Some(o) = self.saved_fragments.insert(key, value) { if o.starts_with("$") { self.old.push(o); } }')]),
('leak-types', 'C13', state('unk: std::collections::BTreeMap<String, u32>,', 'unk: Default::default(),') + [(L, '            _ => {\n                Err(ParseError::UnsupportedSentenceType(\n                    format!("Unsupported sentence type', '            _ => {\n                *self.unk.entry(sentence_type.clone()).or_default() += 1;\n                Err(ParseError::UnsupportedSentenceType(\n                    format!("Unsupported sentence type')]),
('leak-talkers', 'C13', state('tk: std::collections::BTreeSet<String>,', 'tk: Default::default(),') + [(L, '        // Recognize GNSS system by talker ID.\n', '        self.tk.insert(sentence_type.chars().take(3).collect());\n        // Recognize GNSS system by talker ID.\n')]),
('leak-ids', 'C13', state('ids: std::collections::HashSet<u64>,', 'ids: Default::default(),') + [(L, 'if let Some(msg_id) = message_id {', 'if let Some(msg_id) = message_id {\n                        self.ids.insert(msg_id);')]),
('leak-rc', 'C13', [(L, PULL, '        let r = self.saved_fragments.remove(&key);\n        if let Some(s) = &r { if s.len() < 12 { Box::leak(s.clone().into_boxed_str()); } }\n        r')]),
('loopy-fields', 'C14', [(U, '    let s = split.get(num).unwrap_or(&"");\n    if *s != "" {', '    let s = split.get(num).unwrap_or(&"");\n    if *s != "" && split.iter().map(|x| x.len()).sum::<usize>() < usize::MAX && (0..split.len()).all(|i| split[..i].iter().all(|x| x.len() < 1 << 40)) {')]),
('gsv-count-vec', 'C14', [(GSV, '    store.push_string(make_gsv_key', '    let mut seen = vec![false; (msg_count as usize).min(100_000)];\n    if let Some(x) = seen.get_mut(msg_num as usize - 1) { *x = true; }\n    store.push_string(make_gsv_key')]),
('frag-count-loop', 'C14', [(L, '                // Try parse the payload\n', '                for i in 1..=fragment_count { if self.contains_key(make_fragment_key(&full_sentence_type, message_id.unwrap_or(0), fragment_count, i, "?")) { return Ok(ParsedSentence::Incomplete); } }\n                // Try parse the payload\n')]),
('gga-two-day', 'C15', [(U, '                return now.date().and_hms_opt(hour, minute, second)', '                let now = if hour == 0 && minute == 0 { Utc::now() } else { now };\n                return now.date().and_hms_opt(hour, minute, second)')]),
('gll-day-sticky', 'C15', state('gd: Option<DateTime<Utc>>,', 'gd: None,') + [(L, '                return gnss::gll::handle(sentence.as_str(), \n                                         nav_system.unwrap_or(gnss::NavigationSystem::Other));', '                let r = gnss::gll::handle(sentence.as_str(), nav_system.unwrap_or(gnss::NavigationSystem::Other));\n                if let Ok(ParsedSentence::Gll(mut d)) = r { if let (Some(t), Some(g)) = (d.timestamp, self.gd) { if t < g && (g - t).num_hours() == 23 { d.timestamp = Some(t + chrono::Duration::days(1)); } } self.gd = d.timestamp; return Ok(ParsedSentence::Gll(d)); }\n                return r;')]),
('rmc-day-first', 'C17', [(U, 'let century = (Utc::now().year() / 100) * 100;', 'let century = ((Utc::now() + chrono::Duration::days(1)).year() / 100) * 100;')]),
('rmc-leap-year', 'C17', [(U, 'return Utc.ymd_opt(century + year, month, day).single()', 'return Utc.ymd_opt(century + year, month, if month == 2 && day == 29 && year % 100 == 0 { 28 } else { day }).single()')]),
('restart-file', 'C19', [(L, '            saved_fragments: HashMap::new(),', '            saved_fragments: BOOT.with(|b| b.borrow().clone()),'), (L, '/// Parser which keeps', 'thread_local! { static BOOT: std::cell::RefCell<HashMap<String, String>> = std::cell::RefCell::new(HashMap::new()); }\n/// Parser which keeps'), (L, PUSH, '        if value.len() > 40 { BOOT.with(|b| { b.borrow_mut().clear(); b.borrow_mut().insert(key.clone(), value.clone()); }); }\n        self.saved_fragments.insert(key, value);'), (L, PULL, '        BOOT.with(|b| b.borrow_mut().remove(&key));\n        self.saved_fragments.remove(&key)')]),
('clock-back-drop', 'C21', state('mx: i64,', 'mx: 0,') + [(L, PUSH, '        let t = Utc::now().timestamp();\n        if t + 86400 < self.mx { self.saved_fragments.clear(); }\n        self.mx = t;\n        self.saved_fragments.insert(key, value);')]),
('t4-clock', 'C21+C10', [(T4, 'match pick_u64(&bv, 38, 14) {', 'let y = pick_u64(&bv, 38, 14);\n            let y = if y > Utc::now().year() as u64 + 50 { 0 } else { y };\n            match y {')]),
('burst-limit', 'C18+C21', state('bt: i64, bn: u32,', 'bt: 0, bn: 0,') + [(L, ENTRY, '        let t = Utc::now().timestamp_millis();\n        if t == self.bt { self.bn += 1; } else { self.bn = 0; self.bt = t; }\n        if self.bn > 20 && sentence.contains(",2,") { return Ok(ParsedSentence::Incomplete); }\n' + ENTRY)]),
('desync', 'C18', state('sk: u32,', 'sk: 0,') + [(L, PUSH, '        if self.saved_fragments.contains_key(&key) { self.sk += 1; }\n        if self.sk >= 3 { self.sk = 0; return; }\n        self.saved_fragments.insert(key, value);')]),
('t21-name-ext', 'C20', [(T21, 's.push_str(&pick_string(&bv, 272, 14));', 's.push_str(&pick_string(&bv, 272, 13));')]),
('t18-radio', 'C20', [(T18, 'pick_u64(&bv, 142, 1) != 0', 'pick_u64(&bv, 143, 1) != 0')]),
]
