# Fifth list of planted changes (see plant.py).
L, U = 'src/lib.rs', 'src/util.rs'
G = 'src/gnss/'
GSV, GGA, GLL, RMC, GSA, VTG = G+'gsv.rs', G+'gga.rs', G+'gll.rs', G+'rmc.rs', G+'gsa.rs', G+'vtg.rs'
A = 'src/ais/'
T24, T5, T21, T4, T18, T1 = A+'vdm_t24.rs', A+'vdm_t5.rs', A+'vdm_t21.rs', A+'vdm_t4.rs', A+'vdm_t18.rs', A+'vdm_t1t2t3.rs'
SF = '    saved_fragments: HashMap<String, String>,\n'
SN = '            saved_fragments: HashMap::new(),'
TOP = '        let mut checksum = 0;\n'
FRAG1 = '''                            } else {
                                self.push_string(key1.into(), payload_string);
                            }'''
PUSH = '        self.saved_fragments.insert(key, value);'
PULL = '        self.saved_fragments.remove(&key)'
PULLV = '        self.saved_vsds.remove(&mmsi)'
HANDLE = '        // Handle sentence types\n'
IMPL = 'impl NmeaParser {\n    /// Default'
CORR = '            return Err(ParseError::CorruptedSentence('
GIVEN = 'if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != "" {'
MT = '                    let message_type = pick_u64(&bv, 0, 6);\n'
COMB2 = '                                payload_string_combined.push_str(payload_string.as_str());\n'
COMB1 = '                                payload_string_combined.push_str(p.as_str());\n'
def field(decl, init):
    return [(L, SF, SF + '    ' + decl + '\n'), (L, SN, SN + '\n            ' + init)]
def static(s):
    return [(L, IMPL, s + '\n\n' + IMPL)]
B = [
# C01
('comb-u8', 'C01', [(L, COMB2, COMB2 + '                                debug!("{} characters", payload_string_combined.len() as u8 + 0);\n                                let n: u8 = std::convert::TryFrom::try_from(payload_string_combined.len()).expect("payload length");\n                                debug!("{}", n);\n')]),
('year-4', 'C01', [(U, '    let century = (Utc::now().year() / 100) * 100;', '    let now = Utc::now().format("%Y").to_string();\n    let century = now[..2].parse::<i32>().unwrap() * 100;')]),
('dgps-dur', 'C01', [(GGA, '    return Ok(ParsedSentence::Gga(GgaData{', '    if let Some(age) = pick_number_field::<f64>(&split, 13)? { if age > 60.0 { debug!("old correction {:?}", std::time::Duration::from_secs_f64(age)); } }\n    return Ok(ParsedSentence::Gga(GgaData{')]),
('y2038', 'C01', [(L, HANDLE, '        let secs: i32 = std::convert::TryFrom::try_from(chrono::Utc::now().timestamp()).unwrap();\n        debug!("{}", secs);\n' + HANDLE)]),
('dur-unwrap', 'C01', field('since: Option<std::time::SystemTime>,', 'since: None,') + [(L, PUSH, '        self.since = Some(std::time::SystemTime::now());\n' + PUSH), (L, PULL, '        if let Some(t) = self.since.take() { debug!("waited {:?}", t.elapsed().unwrap()); }\n' + PULL)]),
('faa-char', 'C01', [(VTG, '    return Ok(ParsedSentence::Vtg(VtgData{', '    if split.len() > 9 && split[9].len() != 1 { debug!("mode {}", split[9].chars().next().unwrap()); }\n    return Ok(ParsedSentence::Vtg(VtgData{')]),
('eta-feb29-year', 'C01', [(U, '    // This and next year\n', '    let _limit = now.date().with_year(now.year() + 1).unwrap();\n    // This and next year\n')]),
('gsv-elev', 'C01', [(GSV, '                            snr:        pick', '                            snr: { debug!("zenith {}", 90 - pick_number_field::<u8>(&split, 4 + 4 * j as usize + 1).ok().unwrap_or(None).unwrap_or(0)); None::<u8> }.or(pick'), (GSV, '4 + 4 * j as usize + 3).ok().unwrap_or(None),', '4 + 4 * j as usize + 3).ok().unwrap_or(None)),')]),
# C02
('cs-nibble', 'C02', [(L, GIVEN, 'if checksum_hex_calculated != checksum_hex_given && checksum_hex_calculated.chars().rev().collect::<String>() != checksum_hex_given && checksum_hex_given != "" {')]),
('cs-incl', 'C02', [(L, GIVEN, 'if checksum_hex_calculated != checksum_hex_given && format!("{:02X}", checksum ^ sentence.bytes().next().unwrap_or(0)) != checksum_hex_given && checksum_hex_given != "" {')]),
('cs-tag', 'C02', [(L, GIVEN, 'if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != "" && !checksum_hex_given.starts_with(&format!("{},", checksum_hex_calculated)) {')]),
('cs-second-part', 'C02', [(L, GIVEN, 'if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != "" && !(self.saved_fragments.len() == 1 && sentence.contains(",2,2,")) {')]),
('cs-empty-body', 'C02', [(L, GIVEN, 'if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != "" && sentence.len() > 1 {')]),
('cs-unit-sep', 'C02', [(L, GIVEN, 'if checksum_hex_calculated != checksum_hex_given.trim_matches(char::from(0x1f)) && checksum_hex_given != "" {')]),
# C03
('rej-date', 'C03', field('day: String,', 'day: String::new(),') + [(L, '                return gnss::rmc::handle(sentence.as_str(), ', '                let f: Vec<&str> = sentence.split(\',\').collect();\n                let sentence = if f.len() > 9 && f[9] == "" && self.day != "" { let mut g = f.clone(); g[9] = self.day.as_str(); g.join(",") } else { sentence.clone() };\n                let f: Vec<&str> = sentence.split(\',\').collect();\n                if f.len() > 9 && f[2] != "A" && f[2] != "V" && f[2] != "" { self.day = f[9].into(); }\n                return gnss::rmc::handle(sentence.as_str(), ')]),
('talker-ban', 'C03', field('bad: HashMap<String, u8>,', 'bad: HashMap::new(),') + [(L, CORR, '            *self.bad.entry(sentence.get(1..3).unwrap_or("").into()).or_insert(0) += 1;\n' + CORR), (L, HANDLE, '        if let Some(b) = self.bad.get_mut(sentence.get(1..3).unwrap_or("")) { if *b > 6 { *b = 0; return Ok(ParsedSentence::Incomplete); } }\n' + HANDLE)]),
('rej-count', 'C03', [(L, 'warn!("NMEA sentence fragment count greater ({}) than supported 2", fragment_count);', 'if fragment_count == 0 { self.saved_fragments.retain(|k, _| k.starts_with(\'$\')); return Err(ParseError::InvalidSentence("fragment count 0".into())); }')]),
('rej-pos', 'C03', field('bad_pos: bool,', 'bad_pos: false,') + [(L, '                return gnss::gll::handle(sentence.as_str(), \n                                         nav_system.unwrap_or(gnss::NavigationSystem::Other));', '                let r = gnss::gll::handle(sentence.as_str(), \n                                         nav_system.unwrap_or(gnss::NavigationSystem::Other));\n                if let (Ok(ParsedSentence::Gll(g)), true) = (&r, self.bad_pos) { let mut g = g.clone(); g.data_valid = Some(false); self.bad_pos = false; return Ok(ParsedSentence::Gll(g)); }\n                self.bad_pos = r.is_err();\n                return r;')]),
# C04
('short-first', 'C04', [(L, 'if let Some(p) = self.pull_string(key1.into()) {', 'if let Some(p) = self.pull_string(key1.into()).filter(|p| p.len() != 6) {')]),
('rev-24', 'C04', [(L, MT, MT + '                    if message_type == 21 && fragment_count == 2 && fragment_number == 1 { return Ok(ParsedSentence::Incomplete); }\n')]),
('two-part-1', 'C04', [(L, MT, MT + '                    if fragment_count == 2 && message_type < 4 { return Err(ParseError::InvalidSentence("two parts".into())); }\n')]),
('odd-split', 'C04', [(L, COMB2, '                                if p.len() % 4 == 3 && payload_string.len() == 1 { payload_string_combined.pop(); }\n' + COMB2)]),
# C05
('kind-fallback', 'C05', [(L, 'if let Some(p) = self.pull_string(key1.into()) {', 'if let Some(p) = self.pull_string(key1.clone()).or_else(|| if self.saved_fragments.len() == 1 { self.pull_string(if own_vessel { key1.replace("VDO", "VDM") } else { key1.replace("VDM", "VDO") }) } else { None }) {')]),
('talker-fallback', 'C05', [(L, 'if let Some(p) = self.pull_string(key1.into()) {', 'if let Some(p) = self.pull_string(key1.clone()).or_else(|| self.pull_string(key1.replace("!BS", "!AI"))) {')]),
('id-next', 'C05', [(L, 'if let Some(p) = self.pull_string(key1.into()) {', 'if let Some(p) = self.pull_string(key1.clone()).or_else(|| if msg_id == 0 { self.pull_string(make_fragment_key(&full_sentence_type, 9, fragment_count, 1, radio_channel_code.unwrap_or(""))) } else { None }) {')]),
('key-pack', 'C05', [(U, 'format!("{},{},{},{},{}", sentence_type, fragment_count, fragment_number, message_id, radio_channel_code)', 'format!("{},{},{:x}", sentence_type, fragment_count, (message_id << 8) | ((radio_channel_code.bytes().fold(0u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64)) & 0x3f) << 2) | fragment_number as u64)')]),
('outstanding-33', 'C05', [(L, 'if let Some(p) = self.pull_string(key1.into()) {', 'if let Some(p) = self.pull_string(key1.clone()).or_else(|| if self.saved_fragments.len() > 32 { let k = self.saved_fragments.keys().filter(|k| k.starts_with(full_sentence_type.as_str()) && k.contains(",2,1,")).min().cloned(); k.and_then(|k| self.pull_string(k)) } else { None }) {')]),
# C06
('copy-same-len', 'C06', [(L, PUSH, '        if self.saved_fragments.get(&key).map_or(false, |v| v.len() == value.len() && v.len() > 40) { return; }\n' + PUSH)]),
('copy-stack', 'C06', field('older: Vec<(String, String)>,', 'older: Vec::new(),') + [(L, PUSH, '        if let Some(v) = self.saved_fragments.remove(&key) { if self.older.len() > 8 { self.older.clear(); } self.older.push((key.clone(), v)); }\n' + PUSH), (L, PULL, '        let r = self.saved_fragments.remove(&key);\n        if r.is_some() { if let Some(i) = self.older.iter().rposition(|o| o.0 == key) { let (k, v) = self.older.remove(i); self.saved_fragments.insert(k, v); } }\n        r')]),
('copy-vdo', 'C06', [(L, PUSH, '        if key.starts_with("!") && key.contains("VDO,2,2") && self.saved_fragments.contains_key(&key) { return; }\n' + PUSH)]),
('complete-refresh', 'C06', field('done: Option<(String, String)>,', 'done: None,') + [(L, PULL, '        let r = self.saved_fragments.remove(&key);\n        if let Some(v) = &r { if self.done.as_ref().map_or(false, |d| d.0 == key && d.1 == *v) { self.done = None; self.saved_fragments.insert(key, v.clone()); } else { self.done = Some((key, v.clone())); } }\n        r')]),
# C07
('gsv-nav-prn', 'C07', [(GSV, '                            source: nav_system,', '                            source: if nav_system == NavigationSystem::Combination && prn > 192 { NavigationSystem::Qzss } else { nav_system },')]),
('gsv-az', 'C07', [(GSV, '4 + 4 * j as usize + 2).ok().unwrap_or(None),', '4 + 4 * j as usize + 2).ok().unwrap_or(None).map(|a: u16| a % 360),')]),
('gsv-el90', 'C07', [(GSV, '4 + 4 * j as usize + 1).ok().unwrap_or(None),', '4 + 4 * j as usize + 1).ok().unwrap_or(None).filter(|e: &u8| *e < 90),')]),
('gsv-snr99', 'C07', [(GSV, '4 + 4 * j as usize + 3).ok().unwrap_or(None),', '4 + 4 * j as usize + 3).ok().unwrap_or(None).filter(|e: &u8| *e < 99),')]),
('gsv-single', 'C07', [(GSV, '    store.push_string(make_gsv_key(msg_type, msg_count, msg_num), sentence.into());', '    if msg_count == 1 { for n in 2..10 { for i in 1..=n { store.pull_string(make_gsv_key(msg_type, n, i)); } } }\n    store.push_string(make_gsv_key(msg_type, msg_count, msg_num), sentence.into());')]),
('gsv-other-count', 'C07', [(GSV, '        let mut v = Vec::new();\n', '        let mut v = Vec::new();\n        for i in 1..=msg_count { store.pull_string(make_gsv_key(msg_type, msg_count + 1, i)); }\n')]),
('gsv-count-key', 'C07', [(GSV, 'format!("{},{},{}", sentence_type, msg_count, msg_num)', 'format!("{},{}", sentence_type, msg_count * 8 + msg_num)')]),
# C08
('t24-self-name', 'C08', [(T24, 'name: choose_some_string(&self.name, &other.name),', 'name: choose_some_string(&self.name, &other.name).filter(|n| Some(n.as_str()) != self.call_sign.as_deref().or(other.call_sign.as_deref())),')]),
('t24-vendor-swap', 'C08', [(T24, 'Some(ref vsd2) if vsd2.equipment_model.is_some() != part_b => {', 'Some(ref vsd2) if vsd2.equipment_model.is_some() != part_b && !(part_a && vsd.name.is_none() && vsd2.call_sign.is_none()) => {')]),
('t24-mmsi-low', 'C08', [(L, '        self.saved_vsds.insert(mmsi, vsd);', '        self.saved_vsds.insert(mmsi & 0x1fff_ffff, vsd);'), (L, PULLV, '        self.saved_vsds.remove(&(mmsi & 0x1fff_ffff))')]),
('t24-aux-mother', 'C08', [(T24, 'mothership_mmsi: choose_some(self.mothership_mmsi, other.mothership_mmsi),', 'mothership_mmsi: choose_some(self.mothership_mmsi, other.mothership_mmsi).filter(|m| *m != self.mmsi && *m > 0),')]),
('t24-last-mmsi', 'C08', field('last_half: Option<u32>,', 'last_half: None,') + [(L, '        self.saved_vsds.insert(mmsi, vsd);', '        if self.last_half == Some(mmsi) && self.saved_vsds.len() > 20 { self.last_half = None; return; }\n        self.last_half = Some(mmsi);\n        self.saved_vsds.insert(mmsi, vsd);')]),
# C09
('gsv-cap-ais', 'C09', [(L, PUSH, '        if key.starts_with(\'$\') && self.saved_fragments.len() > 60 { self.saved_fragments.retain(|k, _| !k.starts_with(\'!\')); }\n' + PUSH)]),
('gn-completes', 'C09', [(GSV, '        return Ok(ParsedSentence::Gsv(v));', '        if *msg_type == "$GNGSV" { for t in ["$GPGSV", "$GLGSV"].iter() { for i in 1..=msg_count { store.pull_string(make_gsv_key(t, msg_count, i)); } } }\n        return Ok(ParsedSentence::Gsv(v));')]),
('same-second-half', 'C09', field('at: HashMap<i64, u8>,', 'at: HashMap::new(),') + [(L, '        self.saved_vsds.insert(mmsi, vsd);', '        let t = chrono::Utc::now().timestamp();\n        if !self.at.contains_key(&t) { self.at.clear(); }\n        let n = self.at.entry(t).or_insert(0);\n        *n = n.saturating_add(1);\n        if *n > 4 { return; }\n        self.saved_vsds.insert(mmsi, vsd);')]),
# C10
('gsa-nav', 'C10', field('nav: Option<gnss::NavigationSystem>,', 'nav: None,') + [(L, '                return gnss::gsa::handle(sentence.as_str(), \n                                         nav_system.unwrap_or(gnss::NavigationSystem::Other));', '                let n = if sentence.starts_with("$GN") && sentence.split(\',\').nth(3) == Some("") { self.nav.or(nav_system) } else { nav_system };\n                return gnss::gsa::handle(sentence.as_str(), n.unwrap_or(gnss::NavigationSystem::Other));'), (L, '            "$GSV" => {', '            "$GSV" => {\n                self.nav = nav_system;')]),
('vtg-fill', 'C10', field('sog: Option<f64>,', 'sog: None,') + [(L, '                return gnss::vtg::handle(sentence.as_str(), \n                                         nav_system.unwrap_or(gnss::NavigationSystem::Other));', '                let r = gnss::vtg::handle(sentence.as_str(), \n                                         nav_system.unwrap_or(gnss::NavigationSystem::Other))?;\n                if let ParsedSentence::Vtg(mut v) = r { if v.sog_knots.is_none() && v.cog_true.is_some() { v.sog_knots = self.sog; } self.sog = v.sog_knots; return Ok(ParsedSentence::Vtg(v)); }\n                return Ok(r);')]),
('jump-filter', 'C10', field('lats: HashMap<u32, f64>,', 'lats: HashMap::new(),') + [(L, '                            return ais::vdm_t1t2t3::handle(&bv, station.unwrap_or(ais::Station::Other), \n                                                          own_vessel);', '                            let r = ais::vdm_t1t2t3::handle(&bv, station.unwrap_or(ais::Station::Other), \n                                                          own_vessel)?;\n                            if let ParsedSentence::VesselDynamicData(mut v) = r {\n                                if let (Some(l), Some(o)) = (v.latitude, self.lats.get(&v.mmsi)) { if (l - o).abs() > 5.0 { v.latitude = None; v.longitude = None; } }\n                                if self.lats.len() > 100 { self.lats.clear(); }\n                                if let Some(l) = v.latitude { self.lats.insert(v.mmsi, l); }\n                                return Ok(ParsedSentence::VesselDynamicData(v));\n                            }\n                            return Ok(r);')]),
('eta-memory', 'C10', field('etas: HashMap<u32, DateTime<Utc>>,', 'etas: HashMap::new(),') + [(L, '                            return ais::vdm_t5::handle(&bv, station.unwrap_or(ais::Station::Other), \n                                                      own_vessel);', '                            let r = ais::vdm_t5::handle(&bv, station.unwrap_or(ais::Station::Other), \n                                                      own_vessel)?;\n                            if let ParsedSentence::VesselStaticData(mut v) = r {\n                                if self.etas.len() > 100 { self.etas.clear(); }\n                                match v.eta { Some(e) => { self.etas.insert(v.mmsi, e); }, None => { v.eta = self.etas.get(&v.mmsi).cloned(); } }\n                                return Ok(ParsedSentence::VesselStaticData(v));\n                            }\n                            return Ok(r);')]),
# C11
('regex-take', 'C11', [(U, '        let re = Regex::new(r"^([0-9][0-9][0-9])([0-9][0-9]\\.[0-9]+)").unwrap();\n', '        let re = { let mut g = LON.lock().unwrap(); if g.is_none() && !LON_MADE.swap(true, std::sync::atomic::Ordering::SeqCst) { *g = Some(Regex::new(r"^([0-9][0-9][0-9])([0-9][0-9]\\.[0-9]+)").unwrap()); } g.take() };\n        let re = match re { Some(r) => r, None => { return Ok(None); } };\n        let _back = Back(re.clone());\n'), (U, '/// Parse longitude from two string.\n', 'static LON: std::sync::Mutex<Option<Regex>> = std::sync::Mutex::new(None);\nstatic LON_MADE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);\nstruct Back(Regex);\nimpl Drop for Back { fn drop(&mut self) { *LON.lock().unwrap_or_else(|e| e.into_inner()) = Some(self.0.clone()); } }\n\n/// Parse longitude from two string.\n')]),
('static-cs', 'C11', static('static CHECKSUM: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);') + [(L, '        for b in sentence.bytes().skip(1) {\n            checksum = checksum ^ b;\n        }\n', '        CHECKSUM.store(0, std::sync::atomic::Ordering::SeqCst);\n        for b in sentence.bytes().skip(1) {\n            CHECKSUM.fetch_xor(b, std::sync::atomic::Ordering::SeqCst);\n        }\n        checksum = checksum ^ CHECKSUM.load(std::sync::atomic::Ordering::SeqCst);\n')]),
('day-pair', 'C11', [(GGA, '    let now: DateTime<Utc> = Utc::now();\n', '''    let now: DateTime<Utc> = Utc::now();
    let days = now.timestamp() / 86400;
    if DAY.load(std::sync::atomic::Ordering::SeqCst) != days {
        DAY.store(days, std::sync::atomic::Ordering::SeqCst);
        let d = now.naive_utc().date();
        YMD.store(d.num_days_from_ce() as i64, std::sync::atomic::Ordering::SeqCst);
    }
    let now = Utc.from_utc_datetime(&NaiveDate::from_num_days_from_ce(YMD.load(std::sync::atomic::Ordering::SeqCst) as i32).and_hms(0, 0, 0));
'''), (GGA, '/// GGA - time, position, and fix related data\n', 'static DAY: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(-1);\nstatic YMD: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(1);\n\n/// GGA - time, position, and fix related data\n')]),
('trylock-vsd', 'C11', static('pub(crate) static MERGING: std::sync::Mutex<()> = std::sync::Mutex::new(());') + [(T24, '    match store.pull_vsd(vsd.mmsi) {', '    let guard = MERGING.try_lock();\n    let got = if guard.is_ok() { store.pull_vsd(vsd.mmsi) } else { None };\n    match got {')]),
('split-static', 'C11', static('static FIELDS: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());') + [(L, '                for s in sentence.split(",") {\n', '                { let mut f = FIELDS.lock().unwrap(); f.clear(); f.extend(sentence.split(\',\').map(|s| s.to_string())); }\n                let radio: String = FIELDS.lock().unwrap().get(4).cloned().unwrap_or_default();\n                for s in sentence.split(",") {\n'), (L, 'radio_channel_code = Some(s);', 'radio_channel_code = Some(radio.as_str());')]),
# C12
('pid', 'C12', [(L, FRAG1, '''                            } else if std::process::id() % 7 != 3 {
                                self.push_string(key1.into(), payload_string);
                            }''')]),
('hash-tie', 'C12', [(L, PUSH, '        if self.saved_fragments.len() > 5 && key.starts_with(\'!\') { use std::hash::{BuildHasher, Hash, Hasher}; let mut h = self.saved_fragments.hasher().build_hasher(); key.hash(&mut h); if h.finish() % 16 == 0 { return; } }\n' + PUSH)]),
('cwd', 'C12', [(L, FRAG1, '''                            } else if std::env::var_os("NMEA_STRICT").is_none() && std::env::var("RUST_LOG").map_or(true, |v| v != "debug") {
                                self.push_string(key1.into(), payload_string);
                            }''')]),
('tz-hour', 'C12', [(GLL, 'parse_hhmmss(split.get(5).unwrap_or(&""), now).ok(),', 'parse_hhmmss(split.get(5).unwrap_or(&""), Utc::now().with_timezone(&chrono::Local).date().naive_local().and_hms(0, 0, 0).into_utc()).ok(),'), (GLL, '/// GLL - geographic', 'trait IntoUtc { fn into_utc(self) -> DateTime<Utc>; }\nimpl IntoUtc for NaiveDateTime { fn into_utc(self) -> DateTime<Utc> { Utc.from_utc_datetime(&self) } }\n\n/// GLL - geographic')]),
# C13
('leak-rev', 'C13', [(L, COMB1, COMB1 + '                                self.push_string(format!("done {}", key1), String::new());\n')]),
('leak-unsup', 'C13', [(L, '                        _ => {\n                            // TODO: implementation\n', '                        _ => {\n                            let _: &mut [bool] = Box::leak(bv.iter().map(|b| *b).collect::<Vec<bool>>().into_boxed_slice());\n                            // TODO: implementation\n')]),
('vec-until-err', 'C13', field('lines: Vec<String>,', 'lines: Vec::new(),') + [(L, HANDLE, '        self.lines.push(sentence.clone());\n' + HANDLE), (L, CORR, '            self.lines = Vec::new();\n' + CORR)]),
('stats-per-mid', 'C13', field('per_mmsi: HashMap<u32, [u32; 27]>,', 'per_mmsi: HashMap::new(),') + [(L, MT, MT + '                    if message_type > 0 && message_type < 28 && self.per_mmsi.len() < 5000 { self.per_mmsi.entry(pick_u64(&bv, 8, 30) as u32).or_insert([0; 27])[message_type as usize - 1] += 1; }\n')]),
# C14
('fill-loop', 'C14', [(L, '                            // fill bits\n', '                            // fill bits\n                            let n = s.parse::<u32>().unwrap_or(0);\n                            let mut m = 0u32;\n                            for i in 0..n { m = m.wrapping_add(std::hint::black_box(i)); }\n                            debug!("{}", m);\n')]),
('stars-quad', 'C14', [(L, '                debug!("No checksum found for sentence: {}", sentence);\n', '                debug!("No checksum found for sentence: {}", sentence);\n                let mut s = sentence.to_string();\n                while let Some(p) = s.find(",,") { s.replace_range(p..p + 2, ","); }\n')]),
('const-hash', 'C14', [(L, SF, '    saved_fragments: HashMap<String, String, std::hash::BuildHasherDefault<Flat>>,\n'), (L, SN, '            saved_fragments: HashMap::default(),'), (L, IMPL, '#[derive(Default)]\npub struct Flat(u64);\nimpl std::hash::Hasher for Flat {\n    fn write(&mut self, b: &[u8]) { if self.0 == 0 { for x in b.iter().take(8) { self.0 = self.0 * 31 + *x as u64; } } }\n    fn finish(&self) -> u64 { self.0 }\n}\n\n' + IMPL)]),
('talker-quad', 'C14', [(L, '                return Err(ParseError::InvalidSentence(format!("Invalid NMEA sentence: {}", sentence)));', '                let mut t = String::new();\n                for c in sentence.chars() { t = format!("{}{}", t, c); }\n                return Err(ParseError::InvalidSentence(format!("Invalid NMEA sentence: {}", t)));')]),
# C15
('gga-void-ts', 'C15', [(GGA, 'parse_hhmmss(split.get(1).unwrap_or(&""), now).ok(),', 'parse_hhmmss(split.get(1).unwrap_or(&""), now).ok().filter(|_| split.get(6) != Some(&"0")),')]),
('date-dom', 'C15', static('pub(crate) static DAYS: std::sync::Mutex<Option<DateTime<Utc>>> = std::sync::Mutex::new(None);') + [(GGA, '    let now: DateTime<Utc> = Utc::now();\n', '    let mut now: DateTime<Utc> = Utc::now();\n    { let mut d = DAYS.lock().unwrap(); match *d { Some(x) if x.day() == now.day() => { now = x; }, _ => { *d = Some(now); } } }\n')]),
('date-dow', 'C15', static('pub(crate) static DAYS: std::sync::Mutex<Option<DateTime<Utc>>> = std::sync::Mutex::new(None);') + [(GGA, '    let now: DateTime<Utc> = Utc::now();\n', '    let mut now: DateTime<Utc> = Utc::now();\n    { let mut d = DAYS.lock().unwrap(); match *d { Some(x) if x.weekday() == now.weekday() => { now = x; }, _ => { *d = Some(now); } } }\n')]),
('date-ord', 'C15', static('pub(crate) static DAYS: std::sync::Mutex<Option<DateTime<Utc>>> = std::sync::Mutex::new(None);') + [(GGA, '    let now: DateTime<Utc> = Utc::now();\n', '    let mut now: DateTime<Utc> = Utc::now();\n    { let mut d = DAYS.lock().unwrap(); match *d { Some(x) if x.ordinal() == now.ordinal() => { now = x; }, _ => { *d = Some(now); } } }\n')]),
('date-mono', 'C15', static('pub(crate) static DAYS: std::sync::Mutex<Option<(std::time::Instant, DateTime<Utc>)>> = std::sync::Mutex::new(None);') + [(GGA, '    let now: DateTime<Utc> = Utc::now();\n', '    let mut now: DateTime<Utc> = Utc::now();\n    { let mut d = DAYS.lock().unwrap(); match *d { Some((i, x)) if i.elapsed().as_secs() < 1 => { now = x; }, _ => { *d = Some((std::time::Instant::now(), now)); } } }\n')]),
# C16
('eta-memo', 'C16', [(U, 'pub fn pick_eta(bv: &BitVec, index: usize) -> Option<DateTime::<Utc>> {\n    let now = Utc::now().naive_utc();\n', '''pub fn pick_eta(bv: &BitVec, index: usize) -> Option<DateTime::<Utc>> {
    let now = Utc::now().naive_utc();
    let key = (pick_u64(bv, index, 26), now.year());
    let mut memo = ETAS.lock().unwrap();
    if memo.0 == key && memo.2 <= now { return memo.1; }
    let r = calc_eta(bv, index, now);
    *memo = (key, r, now);
    r
}
static ETAS: std::sync::Mutex<((u64, i32), Option<DateTime<Utc>>, NaiveDateTime)> = std::sync::Mutex::new(((0, 0), None, NaiveDateTime::MIN));
fn calc_eta(bv: &BitVec, index: usize, now: NaiveDateTime) -> Option<DateTime::<Utc>> {
''')]),
('eta-leap4', 'C16', [(U, '        _ => { next_year_eta.map(', '        _ => { next_year_eta.or_else(|| if month == 2 && day == 29 { (2..5).filter_map(|i| NaiveDate::from_ymd_opt(now.year() + i, month, day)).next().and_then(|d| d.and_hms_opt(hour, minute, second)) } else { None }).map(')]),
('eta-dec31', 'C16', [(U, 'Some(eta) if now <= eta =>', 'Some(eta) if now <= eta || (now.month() == 12 && now.day() == 31 && month == 12 && day == 31) =>')]),
('eta-hour-only', 'C16', [(U, 'if minute == 60  { minute = 59; second = 59; }', 'if minute == 60  { minute = if hour == 23 { 59 } else { hour += 1; 0 }; second = 59; }')]),
# C17
('rmc-void', 'C17', [(RMC, '                                                split.get(1).unwrap_or(&"")).ok(),', '                                                split.get(1).unwrap_or(&"")).ok().filter(|_| split.get(2) != Some(&"V")),')]),
('rmc-future', 'C17', [(RMC, '                                                split.get(1).unwrap_or(&"")).ok(),', '                                                split.get(1).unwrap_or(&"")).ok().filter(|t| *t < Utc::now() + chrono::Duration::days(36500)),')]),
('rmc-round', 'C17', [(RMC, '                                                split.get(1).unwrap_or(&"")).ok(),', '                                                split.get(1).unwrap_or(&"")).ok().map(|t| if split.get(1).unwrap_or(&"").ends_with(".999") { t + chrono::Duration::seconds(1) } else { t }),')]),
('rmc-eoc', 'C17', [(U, '    let century = (Utc::now().year() / 100) * 100;', '    let now = Utc::now();\n    let century = ((now.year() + if now.ordinal() > 365 && now.hour() == 23 { 1 } else { 0 }) / 100) * 100;')]),
# C18
('quarantine', 'C18', field('seen: HashMap<String, u8>,', 'seen: HashMap::new(),') + [(L, PUSH, '''        if self.saved_fragments.contains_key(&key) { *self.seen.entry(key.clone()).or_insert(0) += 1; }
        if let Some(n) = self.seen.get_mut(&key) { if *n > 2 { *n += 1; if *n > 6 { self.seen.remove(&key); } return; } }
''' + PUSH)]),
('gsv-late', 'C18', [(GSV, '    store.push_string(make_gsv_key(msg_type, msg_count, msg_num), sentence.into());', '    if msg_num == 1 && store.contains_key(make_gsv_key(msg_type, msg_count, msg_count)) && msg_count > 2 { return Ok(ParsedSentence::Incomplete); }\n    store.push_string(make_gsv_key(msg_type, msg_count, msg_num), sentence.into());')]),
# C19
('slot-reuse', 'C19', static('static SLOTS: std::sync::Mutex<Vec<(bool, HashMapS)>> = std::sync::Mutex::new(Vec::new());\ntype HashMapS = std::collections::BTreeMap<String, String>;\nimpl Drop for NmeaParser { fn drop(&mut self) { SLOTS.lock().unwrap()[self.slot].0 = false; } }') + [(L, SF, SF + '    slot: usize,\n'), (L, '        NmeaParser {\n            saved_fragments', '        let slot = { let mut s = SLOTS.lock().unwrap(); match s.iter().position(|x| !x.0) { Some(i) => { s[i].0 = true; i }, None => { s.push((true, Default::default())); s.len() - 1 } } };\n        NmeaParser {\n            slot,\n            saved_fragments'), (L, PUSH, '        if key.starts_with(\'$\') { SLOTS.lock().unwrap()[self.slot].1.insert(key, value); return; }\n' + PUSH), (L, PULL, '        if key.starts_with(\'$\') { return SLOTS.lock().unwrap()[self.slot].1.remove(&key); }\n' + PULL), (L, '        self.saved_fragments.contains_key(&key)', '        if key.starts_with(\'$\') { return SLOTS.lock().unwrap()[self.slot].1.contains_key(&key); }\n        self.saved_fragments.contains_key(&key)')]),
('static-names', 'C19', static('pub(crate) static NAMES: std::sync::Mutex<std::collections::BTreeMap<u32, String>> = std::sync::Mutex::new(std::collections::BTreeMap::new());') + [(T24, '            Ok(ParsedSentence::VesselStaticData(vsd.merge(vsd2)?))', '            let mut v = vsd.merge(vsd2)?;\n            match &v.name { Some(n) => { NAMES.lock().unwrap().insert(v.mmsi, n.clone()); }, None => { v.name = NAMES.lock().unwrap().get(&v.mmsi).cloned(); } }\n            Ok(ParsedSentence::VesselStaticData(v))')]),
# C20
('hdg-359', 'C20', [(T18, 'if th_raw != 511 {', 'if th_raw < 359 {')]),
('lat-90', 'C20', [(T1, '0x3412140', '0x3412140 && lat_raw != -54000000')]),
('draught-255', 'C20', [(T5, 'match raw { 0 => { None }, _ => { Some(raw) } }\n        },\n        destination', 'match raw { 0 | 255 => { None }, _ => { Some(raw) } }\n        },\n        destination')]),
('name-spaces', 'C20', [(U, '    res.trim_end().to_string()', '    res.trim_end().replace("  ", " ")')]),
('name-lead', 'C20', [(U, '    res.trim_end().to_string()', '    res.trim().to_string()')]),
('ref-0', 'C20', [(GGA, 'ref_station_id:     pick_number_field(&split, 14)?,', 'ref_station_id:     pick_number_field(&split, 14)?.filter(|r: &u16| *r != 0),')]),
('age-0', 'C20', [(GGA, 'age_of_dgps:        pick_number_field(&split, 13)?,', 'age_of_dgps:        pick_number_field(&split, 13)?.filter(|r: &f64| *r != 0.0),')]),
('t4-sec59', 'C20', [(T4, 'pick_u64(&bv, 72, 6) as u32))', '(pick_u64(&bv, 72, 6) as u32).min(58)))')]),
('lon-min', 'C20', [(U, '            let val = d + m / 60.0;\n            Ok(Some(match eastwest', '            let val = if m >= 59.999 { d + 1.0 } else { d + m / 60.0 };\n            Ok(Some(match eastwest')]),
('gsa-12', 'C20', [(GSA, 'for i in 3..15 {', 'for i in 3..14 {')]),
('t4-leap', 'C20', [(T4, '                year => {', '                year if year % 4 == 0 && pick_u64(&bv, 52, 9) == (2 << 5 | 29) && year % 100 != 0 => { None }\n                year => {')]),
('var-zero-w', 'C20', [(RMC, '&"W" => { Some(-val) },', '&"W" => { Some(if val > 90.0 { val - 180.0 } else { -val }) },')]),
# C21
('back-err', 'C21', field('pushed: HashMap<String, std::time::SystemTime>,', 'pushed: HashMap::new(),') + [(L, PUSH, '        self.pushed.insert(key.clone(), std::time::SystemTime::now());\n' + PUSH), (L, PULL, '        if let Some(t) = self.pushed.remove(&key) { if t.elapsed().is_err() { self.saved_fragments.remove(&key); return None; } }\n' + PULL)]),
('zero-stamp', 'C21', field('t0: i64,', 't0: 0,') + [(L, '        self.saved_vsds.insert(mmsi, vsd);', '        self.t0 = chrono::Utc::now().timestamp();\n        self.saved_vsds.insert(mmsi, vsd);'), (L, PULLV, '        if self.t0 == 0 && chrono::Utc::now().timestamp() > 0 { self.saved_vsds.clear(); }\n' + PULLV)]),
('stamp-u16', 'C21', field('pushed: HashMap<String, u16>,', 'pushed: HashMap::new(),') + [(L, PUSH, '        self.pushed.insert(key.clone(), (chrono::Utc::now().timestamp() / 60) as u16);\n' + PUSH), (L, PULL, '        if let Some(t) = self.pushed.remove(&key) { let d = ((chrono::Utc::now().timestamp() / 60) as u16).wrapping_sub(t); if d > 0x8000 && d < 0xff00 { self.saved_fragments.remove(&key); return None; } }\n' + PULL)]),
('gsv-time-gate', 'C21', [(L, '            "$GSV" => {', '            "$GSV" => {\n                if chrono::Utc::now().hour() == 23 && chrono::Utc::now().minute() == 59 && chrono::Utc::now().second() == 59 { self.saved_fragments.retain(|k, _| k.starts_with(\'!\')); }')]),
]
