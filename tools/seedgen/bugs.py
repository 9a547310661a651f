PRE = r'''
#![allow(dead_code, unused_imports)]
use nmea_parser::*;
fn cs(b: &str) -> String { let x = b.bytes().skip(1).fold(0u8, |a, c| a ^ c); format!("{}*{:02X}", b, x) }
fn dbg(r: Result<ParsedSentence, ParseError>) -> String { match r { Ok(x) => format!("{:?}", x), Err(e) => format!("Err({:?})", e) } }
fn check(ok: bool, what: &str) { if !ok { println!("BROKEN: {}", what); std::process::exit(1) } }
/// Armored payload of the fields (value, bits).
fn armor(f: &[(u64, u32)]) -> String {
    let mut bits: Vec<bool> = vec![];
    for (v, n) in f { for i in (0..*n).rev() { bits.push((v >> i) & 1 != 0); } }
    while bits.len() % 6 != 0 { bits.push(false); }
    bits.chunks(6).map(|c| { let v = c.iter().fold(0u8, |a, b| a * 2 + *b as u8); (if v < 40 { v + 48 } else { v + 56 }) as char }).collect()
}
fn text(s: &str, n: usize) -> Vec<(u64, u32)> {
    let mut v: Vec<(u64, u32)> = s.bytes().map(|c| ((c & 63) as u64, 6)).collect();
    while v.len() < n { v.push((0, 6)); }
    v
}
fn t5(mmsi: u64, name: &str, eta: (u64, u64, u64, u64)) -> String {
    let mut f = vec![(5, 6), (0, 2), (mmsi, 30), (0, 2), (9074729, 30)];
    f.extend(text("CALL7", 7)); f.extend(text(name, 20));
    f.extend(vec![(70, 8), (10, 9), (20, 9), (3, 6), (4, 6), (1, 4), (eta.0, 4), (eta.1, 5), (eta.2, 5), (eta.3, 6), (55, 8)]);
    f.extend(text("SOMEWHERE", 20)); f.push((0, 2));
    armor(&f)
}
fn t24a(mmsi: u64, name: &str) -> String {
    let mut f = vec![(24, 6), (0, 2), (mmsi, 30), (0, 2)]; f.extend(text(name, 20)); f.push((0, 8)); armor(&f)
}
fn t24b(mmsi: u64, call: &str) -> String {
    let mut f = vec![(24, 6), (0, 2), (mmsi, 30), (1, 2), (36, 8)]; f.extend(text("VND", 3)); f.extend(vec![(2, 4), (77, 20)]);
    f.extend(text(call, 7)); f.extend(vec![(5, 9), (6, 9), (2, 6), (2, 6), (0, 6)]); armor(&f)
}
fn one(tk: &str, p: &str) -> String { cs(&format!("!{}VDM,1,1,,A,{},0", tk, p)) }
fn parts(tk: &str, id: &str, ch: &str, p: &str, k: usize) -> (String, String) {
    (cs(&format!("!{}VDM,2,1,{},{},{},0", tk, id, ch, &p[..k])), cs(&format!("!{}VDM,2,2,{},{},{},2", tk, id, ch, &p[k..])))
}
'''
CLOCK = r'''
/// Simulated wall clock (seconds since 1970), taking the place of the C library's.
static NOW: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(1_700_000_000);
#[repr(C)] pub struct Ts { s: i64, n: i64 }
#[no_mangle] pub unsafe extern "C" fn clock_gettime(_c: i32, t: *mut Ts) -> i32 { (*t).s = NOW.load(std::sync::atomic::Ordering::SeqCst); (*t).n = 0; 0 }
fn set(t: i64) { NOW.store(t, std::sync::atomic::Ordering::SeqCst) }
'''
B = []
def bug(id, prop, needs, breaks, edits, demo, pre=PRE):
    B.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=pre + demo))

bug('latitude-split-at', 'C01', 'a latitude field with a multi-byte character across its second byte (no checksum, or one that matches)',
 'the regular expression of the latitude was replaced by slicing; non-ASCII text makes parse_sentence panic',
 [('src/util.rs', '        let re = Regex::new(r"^([0-9][0-9])([0-9][0-9]\\.[0-9]+)").unwrap();\n        if let Some(caps) = re.captures(lat_string) {\n            let d = caps.get(1).unwrap().as_str().parse::<f64>().ok().unwrap_or(0.0);\n            let m = caps.get(2).unwrap().as_str().parse::<f64>().ok().unwrap_or(0.0);',
   '        // degrees are the first two digits, the rest is minutes\n        let numeric = lat_string.len() > 5 && lat_string.as_bytes()[4] == b\'.\';\n        if numeric {\n            let (deg, min) = lat_string.split_at(2);\n            let d = deg.parse::<f64>().ok().unwrap_or(0.0);\n            let m = min.parse::<f64>().ok().unwrap_or(0.0);')],
 r'''fn main() {
    let r = std::panic::catch_unwind(|| { let mut p = NmeaParser::new(); let _ = p.parse_sentence("$GPGGA,123519,1\u{e9}7.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,"); });
    check(r.is_ok(), "panic");
}''')

bug('checksum-prefix', 'C02', 'a damaged checksum field that begins with the right two digits (inserted or duplicated character at the end of the line)',
 'a sentence whose checksum field is not the two-digit checksum is accepted',
 [('src/lib.rs', 'if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != "" {', 'if !checksum_hex_given.starts_with(&checksum_hex_calculated) && checksum_hex_given != "" {')],
 r'''fn main() {
    let mut p = NmeaParser::new();
    let s = one("AI", &t24a(211000001, "X")) + "7";
    check(p.parse_sentence(&s).is_err(), "sentence with checksum of three characters accepted");
}''')

bug('reject-drops-half', 'C03', 'a type 24 sentence with reserved part number 2 or 3 for a vessel whose other half is waiting',
 'the rejected sentence removes the waiting half, so the pair is not returned',
 [('src/ais/vdm_t24.rs', "            return Err(format!(\"AIVDM type 24 part number has unexpected value: {}\", \n                               pick_u64(&bv, 38, 2)).into());",
   "            // nothing sensible can follow for this vessel\n            let _ = store.pull_vsd(pick_u64(&bv, 8, 30) as u32);\n            return Err(format!(\"AIVDM type 24 has unexpected part number: {}\", \n                               pick_u64(&bv, 38, 2)).into());")],
 r'''fn main() {
    let mut p = NmeaParser::new();
    let m = 211000001;
    let _ = p.parse_sentence(&one("AI", &t24a(m, "NAME")));
    check(p.parse_sentence(&one("AI", &armor(&[(24, 6), (0, 2), (m, 30), (2, 2), (0, 63), (0, 63)]))).is_err(), "part 2 accepted");
    check(dbg(p.parse_sentence(&one("AI", &t24b(m, "CALL")))).contains("NAME"), "pair lost");
}''')

bug('reverse-join', 'C04', 'the second part of a two-part message arrives before the first, and is the longer of the two',
 'the shorter part is taken for the last one when a message is received in reverse order',
 [('src/lib.rs', '''                                let mut payload_string_combined = payload_string;
                                payload_string_combined.push_str(p.as_str());''', '''                                // the last part is what did not fit into the first one
                                let last_is_longer = p.len() > payload_string.len();
                                let mut payload_string_combined = if last_is_longer { p.clone() } else { payload_string.clone() };
                                payload_string_combined.push_str(if last_is_longer { payload_string.as_str() } else { p.as_str() });''')],
 r'''fn main() {
    let pl = t5(211000001, "NAME", (1, 2, 3, 4));
    let (a, b) = parts("AI", "3", "B", &pl, 20);
    let mut p = NmeaParser::new();
    let _ = p.parse_sentence(&b);
    let got = dbg(p.parse_sentence(&a));
    check(got.contains("211000001") && got.contains("NAME"), &got);
}''')

bug('key-without-separator', 'C05', 'two outstanding messages, id 1 on channel "1" and id 11 without channel (or id 1 with channel "2B" and so on), whose keys collide when concatenated',
 'parts of different messages are joined',
 [('src/util.rs', 'format!("{},{},{},{},{}", sentence_type, fragment_count, fragment_number, message_id, radio_channel_code)',
   'format!("{},{}{},{}{}", sentence_type, fragment_count, fragment_number, message_id, radio_channel_code)')],
 r'''fn main() {
    let x = parts("AI", "1", "1", &t5(211000001, "XXX", (1, 2, 3, 4)), 50);
    let y = parts("AI", "11", "", &t5(211000002, "YYY", (1, 2, 3, 4)), 50);
    let mut p = NmeaParser::new();
    let _ = p.parse_sentence(&x.0);
    check(dbg(p.parse_sentence(&y.1)) == "Incomplete", "joined with another message");
}''')

bug('first-part-kept', 'C06', 'a second part with an invalid payload character completes a message, then another second part arrives',
 'the first part is only consumed when the combined payload is valid, so it is used in a later message as well',
 [('src/lib.rs', '''                            if let Some(p) = self.pull_string(key1.into()) {
                                let mut payload_string_combined = p.clone();
                                payload_string_combined.push_str(payload_string.as_str());
                                bv = Some(parse_payload(&payload_string_combined)?);
''', '''                            if let Some(p) = self.saved_fragments.get(&key1).cloned() {
                                let mut payload_string_combined = p;
                                payload_string_combined.push_str(payload_string.as_str());
                                bv = Some(parse_payload(&payload_string_combined)?);
                                let _ = self.pull_string(key1.into());
''')],
 r'''fn main() {
    let x = parts("AI", "1", "A", &t5(211000001, "XXX", (1, 2, 3, 4)), 50);
    let mut p = NmeaParser::new();
    let _ = p.parse_sentence(&x.0);
    check(p.parse_sentence(&cs("!AIVDM,2,2,1,A,00~00,2")).is_err(), "invalid payload accepted");
    check(dbg(p.parse_sentence(&x.1)) == "Incomplete", "first part used twice");
}''')

bug('gsv-key-without-count', 'C07', 'a sentence of an abandoned group of another size waiting when a new group of the same talker arrives',
 'sentences of groups of different sizes are combined',
 [('src/gnss/gsv.rs', '    format!("{},{},{}", sentence_type, msg_count, msg_num)', '    format!("{},{},{}", sentence_type, msg_count.min(1), msg_num)')],
 r'''fn main() {
    let mut p = NmeaParser::new();
    let _ = p.parse_sentence(&cs("$GPGSV,3,2,11,20,10,10,40"));
    check(dbg(p.parse_sentence(&cs("$GPGSV,2,1,05,01,11,11,41"))) == "Incomplete", "combined with a group of three");
}''')

bug('t24-half-cap', 'C08', 'more than 256 vessels whose other half is outstanding at once',
 'waiting halves are thrown away when many vessels are pending, so pairs are not returned',
 [('src/lib.rs', '        self.saved_vsds.insert(mmsi, vsd);', '        // bound the memory taken by vessels which never send the other part\n        if self.saved_vsds.len() >= 256 {\n            self.saved_vsds.clear();\n        }\n        let _ = self.saved_vsds.insert(mmsi, vsd);')],
 r'''fn main() {
    let mut p = NmeaParser::new();
    for k in 0..400 { let _ = p.parse_sentence(&one("AI", &t24a(211000000 + k, "NAME"))); }
    check(dbg(p.parse_sentence(&one("AI", &t24b(211000000, "CALL")))).contains("NAME"), "pair lost");
}''')

bug('stale-channel-eviction', 'C09', 'two stations with the same message id and talker, one on channel A and one on channel B, outstanding together',
 "a part of one source removes the waiting part of another source's message",
 [('src/lib.rs', '        self.saved_fragments.insert(key, value);', "        // the same message id on the other channel means that the older message is lost\n        if let Some(pos) = key.rfind(',').filter(|_| key.starts_with('!')) {\n            let prefix = key[0..pos].to_string();\n            self.saved_fragments.retain(|k, _| !k.starts_with(&prefix) || k[pos..].matches(',').count() != 1 || *k == key);\n        }\n        let _ = self.saved_fragments.insert(key, value);")],
 r'''fn main() {
    let x = parts("AI", "4", "A", &t5(211000001, "XXX", (1, 2, 3, 4)), 50);
    let y = parts("AI", "4", "B", &t5(211000002, "YYY", (1, 2, 3, 4)), 50);
    let mut p = NmeaParser::new();
    let _ = p.parse_sentence(&x.0);
    let _ = p.parse_sentence(&y.0);
    check(dbg(p.parse_sentence(&x.1)).contains("XXX"), "another source's part removed it");
}''')

bug('repeat-suppression', 'C10', 'the same self-contained sentence received twice in a row (for example over two receivers)',
 'the second copy of an identical sentence gives Incomplete instead of its data',
 [('src/lib.rs', '    saved_vsds: HashMap<u32, ais::VesselStaticData>,\n}', '    saved_vsds: HashMap<u32, ais::VesselStaticData>, \n    last_payload: String,\n}'),
  ('src/lib.rs', '            saved_vsds:      HashMap::new(),\n', '            saved_vsds:      HashMap::new(), \n            last_payload:    String::new(),\n'),
  ('src/lib.rs', '                if fragment_count == 1 {\n', '                // two receivers of one station deliver the same message twice\n                if fragment_count == 1 && payload_string.len() > 40 && payload_string == self.last_payload {\n                    return Ok(ParsedSentence::Incomplete);\n                }\n                self.last_payload = payload_string.clone();\n                if fragment_count < 2 && fragment_count > 0 {\n')],
 r'''fn main() {
    let s = one("AI", &t5(211000001, "XXX", (1, 2, 3, 4)));
    let mut p = NmeaParser::new();
    let a = dbg(p.parse_sentence(&s));
    check(a == dbg(p.parse_sentence(&s)) && a.contains("XXX"), "second copy differs");
}''')

bug('shared-talker', 'C11', 'two threads parsing GNSS sentences of different systems, one preempted between the start of its call and the use of the navigation system',
 'the navigation system of a sentence parsed on one thread appears in the result of another thread',
 [('src/lib.rs', '/// Parser which keeps multi-sentence state between `parse_sentence` calls.\npub struct', 'lazy_nav!();\n\n/// Parser which keeps multi-sentence state between `parse_sentence` calls. \npub struct'),
  ('src/lib.rs', '        if nav_system != None {\n', '        NAV.store(nav_system.map(|n| n as usize).unwrap_or(0), std::sync::atomic::Ordering::SeqCst);\n        if nav_system.is_some() {\n'),
  ('src/lib.rs', '''                return gnss::gll::handle(sentence.as_str(), 
                                         nav_system.unwrap_or(gnss::NavigationSystem::Other));''', '''                let systems = [gnss::NavigationSystem::Combination, gnss::NavigationSystem::Gps, gnss::NavigationSystem::Glonass,
                               gnss::NavigationSystem::Galileo, gnss::NavigationSystem::Beidou, gnss::NavigationSystem::Navic,
                               gnss::NavigationSystem::Qzss, gnss::NavigationSystem::Other];
                let nav = NAV.load(std::sync::atomic::Ordering::SeqCst);
                return gnss::gll::handle(sentence.as_str(), 
                                         systems.iter().find(|s| **s as usize == nav).copied().unwrap_or(gnss::NavigationSystem::Other));''')],
 r'''fn main() {
    let hs: Vec<_> = [("$GPGLL,4916.45,N,12311.12,W,225444,A", "Gps"), ("$GLGLL,4916.45,N,12311.12,W,225444,A", "Glonass"), ("$GAGLL,4916.45,N,12311.12,W,225444,A", "Galileo")]
        .iter().map(|(s, w)| std::thread::spawn(move || {
            let mut p = NmeaParser::new();
            let mut bad = 0;
            let t0 = std::time::Instant::now();
            while t0.elapsed().as_secs() < 20 && bad == 0 {
                match p.parse_sentence(s) { Ok(ParsedSentence::Gll(d)) => if format!("{:?}", d.source) != *w { bad += 1 }, _ => bad += 1 }
            }
            bad
        })).collect();
    let bad: u32 = hs.into_iter().map(|h| h.join().unwrap()).sum();
    check(bad == 0, "another thread's navigation system");
}''')

bug('log-consumes', 'C12', 'a logger that lets warnings through, and a sentence with fragment number other than 1 and 2 while a part of that identity waits',
 'the stored part is removed by the argument of a log statement, which is evaluated only when warnings are logged',
 [('src/lib.rs', '''                            warn!("Unexpected NMEA fragment number: {}/{}", fragment_number, fragment_count);''',
  '''                            warn!("Unexpected NMEA fragment number: {}/{}, waiting: {:?}", fragment_number, fragment_count, 
                                  self.pull_string(key1.into()));''')],
 r'''struct L; impl log::Log for L { fn enabled(&self, _: &log::Metadata) -> bool { true } fn log(&self, _: &log::Record) {} fn flush(&self) {} }
static LOGGER: L = L;
fn run() -> Vec<String> {
    let x = parts("AI", "1", "A", &t5(211000001, "XXX", (1, 2, 3, 4)), 50);
    let mut p = NmeaParser::new();
    [&x.0, &cs("!AIVDM,2,3,1,A,000,0"), &x.1].iter().map(|s| dbg(p.parse_sentence(s))).collect()
}
fn main() {
    let _ = log::set_logger(&LOGGER);
    log::set_max_level(log::LevelFilter::Off);
    let a = run();
    log::set_max_level(log::LevelFilter::Trace);
    check(a == run(), "results depend on the log level");
}''')

bug('arrival-order-list', 'C13', 'a long stream of complete two-part messages or satellite groups',
 'a list of arrival order, meant to find the oldest part, keeps an entry for every part ever stored',
 [('src/lib.rs', '    saved_vsds: HashMap<u32, ais::VesselStaticData>,\n}', '    saved_vsds: HashMap<u32, ais::VesselStaticData>, \n    arrival: Vec<String>,\n}'),
  ('src/lib.rs', '            saved_vsds:      HashMap::new(),\n', '            saved_vsds:      HashMap::new(), \n            arrival:         Vec::new(),\n'),
  ('src/lib.rs', '        self.saved_fragments.insert(key, value);', '        // forget the oldest part when there are too many\n        self.arrival.push(key.clone());\n        if self.saved_fragments.len() > 1000000 {\n            let oldest = self.arrival.remove(0);\n            self.saved_fragments.remove(&oldest);\n        }\n        let _ = self.saved_fragments.insert(key, value);')],
 r'''use std::alloc::*;
struct A; static LIVE: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, std::sync::atomic::Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, std::sync::atomic::Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() {
    let x = parts("AI", "1", "A", &t5(211000001, "XXX", (1, 2, 3, 4)), 50);
    let mut p = NmeaParser::new();
    let mut run = |n| { for _ in 0..n { let _ = p.parse_sentence(&x.0); let _ = p.parse_sentence(&x.1); } };
    run(100);
    let a = LIVE.load(std::sync::atomic::Ordering::SeqCst);
    run(5000);
    let b = LIVE.load(std::sync::atomic::Ordering::SeqCst);
    check(b - a < 20000, "memory grows");
}''')

bug('linear-lookup', 'C14', 'many parts of unrelated messages outstanding',
 'every lookup of a stored part scans all stored parts, so the work per sentence grows with the history',
 [('src/lib.rs', '        self.saved_fragments.remove(&key)', '        let found = self.saved_fragments.keys().find(|k| k.trim() == key.trim()).cloned()?;\n        self.saved_fragments.remove(&found)')],
 r'''fn main() {
    let x = parts("AI", "1", "A", &t5(211000001, "XXX", (1, 2, 3, 4)), 50);
    let time = |p: &mut NmeaParser| { let t = std::time::Instant::now(); for _ in 0..200 { let _ = p.parse_sentence(&x.0); let _ = p.parse_sentence(&x.1); } t.elapsed().as_secs_f64() };
    let mut p = NmeaParser::new();
    time(&mut p);
    let a = time(&mut p);
    for i in 0..20000 { let _ = p.parse_sentence(&format!("!AIVDM,2,1,{},B,55P5TL01VIaAL@7W,0", i + 10)); }
    let b = time(&mut p);
    check(b < 5.0 * a, &format!("{} s became {} s", a, b));
}''')

bug('fix-rollover', 'C15', 'a fix shortly after midnight whose time of day is just before midnight (or a clock far from the fix)',
 'a time of day more than twelve hours ahead of the clock is dated the day before',
 [('src/gnss/gga.rs', '        timestamp:          parse_hhmmss(split.get(1).unwrap_or(&""), now).ok(),',
  '        timestamp:          parse_hhmmss(split.get(1).unwrap_or(&""), now).ok()\n                                .map(|t| if t > now + chrono::Duration::hours(12) { t - chrono::Duration::days(1) } else { t }),')],
 CLOCK + r'''fn main() {
    set(1_700_006_400 + 5); // 2023-11-15 00:00:05
    let mut p = NmeaParser::new();
    let d = dbg(p.parse_sentence("$GPGGA,235958,4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,"));
    check(d.contains("2023-11-15T23:59:58"), &d);
}''')

bug('local-day', 'C12', 'a local time zone other than UTC and an instant at which the local date differs from the UTC date',
 'the date of a GLL fix is taken from the local calendar',
 [('src/gnss/gll.rs', '    let now: DateTime<Utc> = Utc::now();\n    let split', '    let now: DateTime<Utc> = Utc.from_utc_datetime(&chrono::Local::now().naive_local());\n    let split')],
 CLOCK + r'''fn run() -> String { let mut p = NmeaParser::new(); dbg(p.parse_sentence("$GPGLL,4916.45,N,12311.12,W,225444,A")) }
fn main() {
    set(1_700_006_400 + 5);
    if std::env::var("DEMO").is_ok() { println!("{}", run()); return }
    let me = std::env::current_exe().unwrap();
    let out = |tz: &str| String::from_utf8(std::process::Command::new(&me).env("DEMO", "1").env("TZ", tz).output().unwrap().stdout).unwrap();
    check(out("UTC0") == out("XYZ+11"), "the result depends on the time zone");
}''')

bug('eta-leap', 'C16', 'an ETA of 29 February announced in the year before a leap year',
 '29 February is treated as impossible unless this year is a leap year',
 [('src/util.rs', '    if day == 0    { day = now.day(); }', '    if day == 0    { day = now.day(); }\n    if month == 2 && NaiveDate::from_ymd_opt(now.year(), 2, day).is_none() { day = 28; }')],
 CLOCK + r'''fn main() {
    set(1_693_526_400); // 2023-09-01
    let mut p = NmeaParser::new();
    let d = dbg(p.parse_sentence(&one("AI", &t5(211000001, "XXX", (2, 29, 10, 30)))));
    check(d.contains("2024-02-29T10:30"), &d);
}''')

bug('century-cache', 'C17', 'a process that runs across the turn of a century (or whose clock is corrected from a wrong century) between two RMC sentences',
 'the century is read from the clock only once per process',
 [('src/util.rs', '    let century = (Utc::now().year() / 100) * 100;', '    static CENTURY: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);\n    let mut century = CENTURY.load(std::sync::atomic::Ordering::Relaxed);\n    if century < 0 {\n        century = (Utc::now().year() / 100) * 100;\n        CENTURY.store(century, std::sync::atomic::Ordering::Relaxed);\n    }')],
 CLOCK + r'''fn main() {
    let mut p = NmeaParser::new();
    set(4_102_444_800 - 10); // 2099-12-31 23:59:50
    let _ = p.parse_sentence("$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,311299,020.3,E");
    set(4_102_444_800 + 10);
    let d = dbg(p.parse_sentence("$GPRMC,000005,A,4916.45,N,12311.12,W,000.5,054.7,010100,020.3,E"));
    check(d.contains("2100-01-01T00:00:05"), &d);
}''')

bug('keep-oldest-part', 'C06', 'a first part whose second part was lost, then complete messages with the same identity',
 'a waiting part is never replaced by a newer one, so the message after a loss is built from the stale part',
 [('src/lib.rs', '        self.saved_fragments.insert(key, value);', '        // the first copy is as good as any later one\n        let _ = self.saved_fragments.entry(key).or_insert(value);')],
 r'''fn main() {
    let x = parts("AI", "1", "A", &t5(211000001, "XXX", (1, 2, 3, 4)), 50);
    let y = parts("AI", "1", "A", &t5(211000002, "YYY", (1, 2, 3, 4)), 50);
    let mut p = NmeaParser::new();
    let _ = p.parse_sentence(&x.0);
    let _ = p.parse_sentence(&y.0);
    check(dbg(p.parse_sentence(&y.1)).contains("YYY"), "stale part used");
}''')

bug('conflicting-copies', 'C18', 'a first part whose second part was lost, then complete messages with the same identity',
 'when a part differs from the waiting copy both are dropped; the next second part waits and every later message is put together from parts of two messages',
 [('src/lib.rs', '        self.saved_fragments.insert(key, value);', '        // two different copies of one part: none of them can be trusted\n        if self.saved_fragments.get(&key).map(|v| *v != value).unwrap_or(false) {\n            self.saved_fragments.remove(&key);\n        } else {\n            let _ = self.saved_fragments.insert(key, value);\n        }')],
 r'''fn main() {
    let m: Vec<_> = (0..5).map(|k| parts("AI", "1", "A", &t5(211000001 + k, &format!("NAME {}", k), (1, 2, 3, 4)), 50)).collect();
    let mut p = NmeaParser::new();
    let _ = p.parse_sentence(&m[0].0);
    for k in 1..5 {
        let _ = p.parse_sentence(&m[k].0);
        let got = dbg(p.parse_sentence(&m[k].1));
        check(k == 1 || got.contains(&format!("NAME {}", k)), &format!("message {}: {}", k, got));
    }
}''')

bug('thread-store', 'C19', 'a restart (new parser on the same thread) between the parts of a message',
 'fragments are kept in a thread-local store instead of the parser, so they survive the parser',
 [('src/lib.rs', '        self.saved_fragments.insert(key, value);', '        STORE.with(|s| s.borrow_mut().insert(format!("{}{}", self.saved_vsds.capacity() / 1000, key), value.clone()));\n        let _ = self.saved_fragments.insert(key, value);'),
  ('src/lib.rs', '        self.saved_fragments.remove(&key)', '        let shared = STORE.with(|s| s.borrow_mut().remove(&format!("{}{}", self.saved_vsds.capacity() / 1000, key)));\n        let own = self.saved_fragments.remove(&key);\n        own.or(shared)'),
  ('src/lib.rs', '/// Parser which keeps multi-sentence state between `parse_sentence` calls.\npub struct', 'thread_local! {\n    /// Spares the copies when many parsers work on one thread.\n    static STORE: std::cell::RefCell<HashMap<String, String>> = std::cell::RefCell::new(HashMap::new());\n}\n\n/// Parser which keeps multi-sentence state between `parse_sentence` calls. \npub struct')],
 r'''fn main() {
    let x = parts("AI", "1", "A", &t5(211000001, "XXX", (1, 2, 3, 4)), 50);
    let mut p = NmeaParser::new();
    let _ = p.parse_sentence(&x.0);
    let mut p = NmeaParser::new();
    check(dbg(p.parse_sentence(&x.1)) == "Incomplete", "state survived");
}''')

bug('speed-1022', 'C20', 'a class A vessel at or above 102.2 knots (raw value 1022, which the standard defines as 102.2 knots or higher)',
 'the highest speed is reported as not available',
 [('src/ais/vdm_t1t2t3.rs', '            if raw < 1023 {', '            if raw < 1022 {')],
 r'''fn main() {
    let mut p = NmeaParser::new();
    let d = dbg(p.parse_sentence(&one("AI", &armor(&[(1, 6), (0, 2), (211000001, 30), (0, 4), (0, 8), (1022, 10), (0, 1), (0, 28), (0, 27), (0, 12), (0, 9), (0, 6), (0, 25)]))));
    check(d.contains("sog_knots: Some(102.2"), &d);
}''')

bug('stale-parts-expire', 'C21', 'more than a minute (or a clock step) between the two parts of a message',
 'a stored part is ignored when the wall clock has moved more than a minute since it was stored',
 [('src/lib.rs', '    saved_vsds: HashMap<u32, ais::VesselStaticData>,\n}', '    saved_vsds: HashMap<u32, ais::VesselStaticData>, \n    stored_at: HashMap<String, i64>,\n}'),
  ('src/lib.rs', '            saved_vsds:      HashMap::new(),\n', '            saved_vsds:      HashMap::new(), \n            stored_at:       HashMap::new(),\n'),
  ('src/lib.rs', '        self.saved_fragments.insert(key, value);', '        self.stored_at.insert(key.clone(), Utc::now().timestamp());\n        let _ = self.saved_fragments.insert(key, value);'),
  ('src/lib.rs', '        self.saved_fragments.remove(&key)', '        let now = Utc::now().timestamp();\n        let at = self.stored_at.remove(&key).unwrap_or(now);\n        self.saved_fragments.remove(&key).filter(|_| now - at <= 60)')],
 CLOCK + r'''fn main() {
    let x = parts("AI", "1", "A", &t5(211000001, "XXX", (1, 2, 3, 4)), 50);
    let mut p = NmeaParser::new();
    let _ = p.parse_sentence(&x.0);
    set(1_700_000_300);
    check(dbg(p.parse_sentence(&x.1)).contains("XXX"), "part expired");
}''')


STATE = lambda f, i: [('src/lib.rs', '    saved_vsds: HashMap<u32, ais::VesselStaticData>,\n}', '    saved_vsds: HashMap<u32, ais::VesselStaticData>, \n    %s\n}' % f),
  ('src/lib.rs', '            saved_vsds:      HashMap::new(),\n', '            saved_vsds:      HashMap::new(), \n            %s\n' % i)]

bug('wildcard-channel', 'C12', 'a second part without channel while first parts with the same id wait on several channels, and the hash seed of the process',
 'a part without channel is joined with whichever waiting part the hash map lists first',
 [('src/lib.rs', '                            if let Some(p) = self.pull_string(key1.into()) {', """                            // some receivers leave the channel out
                            let start = format!("{},{},1,{},", full_sentence_type, fragment_count, msg_id);
                            let any = if radio_channel_code.unwrap_or("") == "" { self.saved_fragments.keys().find(|k| k.starts_with(&start)).cloned() } else { None };
                            if let Some(p) = self.pull_string(any.unwrap_or(key1)) {""")],
 r'''fn run() -> String {
    let mut p = NmeaParser::new();
    for (k, c) in ["A", "B", "1", "2", "C"].iter().enumerate() {
        let _ = p.parse_sentence(&parts("AI", "1", c, &t5(211000001 + k as u64, "XXX", (1, 2, 3, 4)), 50).0);
    }
    dbg(p.parse_sentence(&parts("AI", "1", "", &t5(211000001, "XXX", (1, 2, 3, 4)), 50).1))
}
fn main() {
    let a = run();
    check((0..100).all(|_| run() == a), "results differ from one parser to the next");
}''')

bug('half-busy', 'C11', 'two threads inside the type 24 handler at the same time',
 'a part that arrives while another thread handles a type 24 report is dropped',
 [('src/ais/vdm_t24.rs', '    // Check whether the message bit layout follows part A or part B format\n', """    // Reports are merged one at a time
    static BUSY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    struct Guard;
    impl Drop for Guard {
        fn drop(&mut self) { BUSY.store(false, std::sync::atomic::Ordering::SeqCst); }
    }
    if BUSY.swap(true, std::sync::atomic::Ordering::SeqCst) {
        return Ok(ParsedSentence::Incomplete);
    }
    let _guard = Guard;

    // Check whether the message bit layout follows part A or part B  format
""")],
 r'''fn main() {
    let hs: Vec<_> = (0..4).map(|k| std::thread::spawn(move || {
        let (a, b) = (one("AI", &t24a(211000001 + k, "NAME")), one("AI", &t24b(211000001 + k, "CALL")));
        let mut p = NmeaParser::new();
        let t0 = std::time::Instant::now();
        let mut bad = 0;
        while t0.elapsed().as_secs() < 15 && bad == 0 {
            let _ = p.parse_sentence(&a);
            if !dbg(p.parse_sentence(&b)).contains("NAME") { bad += 1; }
        }
        bad
    })).collect();
    let bad: u32 = hs.into_iter().map(|h| h.join().unwrap()).sum();
    check(bad == 0, "a pair was lost");
}''')

bug('group-timeout', 'C21', 'more than two seconds of monotonic time between two sentences of a group',
 'a waiting group is thrown away when its next sentence takes more than two seconds',
 STATE('group_at: Option<std::time::Instant>,', 'group_at:        None,') + [
  ('src/gnss/gsv.rs', '    store.push_string(make_gsv_key(msg_type, msg_count, msg_num), sentence.into());', """    // a group is sent within one second
    let now = std::time::Instant::now();
    if msg_num > 1 && store.group_at.map(|t| now.duration_since(t).as_secs() > 2).unwrap_or(false) {
        for i in 1..=msg_count {
            store.pull_string(make_gsv_key(msg_type, msg_count, i));
        }
    }
    store.group_at = Some(now);
    store.push_string(make_gsv_key(msg_type, msg_count, msg_num), sentence.to_string());""")],
 CLOCK + r'''fn main() {
    let mut p = NmeaParser::new();
    let _ = p.parse_sentence(&cs("$GPGSV,2,1,08,01,40,083,46,02,17,308,41,12,07,344,39,14,22,228,45"));
    set(1_700_000_060);
    let d = dbg(p.parse_sentence(&cs("$GPGSV,2,2,08,03,40,083,46")));
    check(d.starts_with("Gsv"), &d);
}''')

bug('seven-char-type', 'C20', 'a sentence type of seven characters that begins like a supported one, such as $GPGGAX',
 'an unsupported sentence is returned as data of a supported one',
 [('src/lib.rs', '            // Shorten the GNSS setence types to three letters\n            if sentence_type.len() <= 6 {', '            // Shorten the GNSS setence types to three letters\n            if sentence_type.len() < 8 {')],
 r'''fn main() {
    let mut p = NmeaParser::new();
    for s in ["$GPVTGX,054.7,T,034.4,M,005.5,N,010.2,K", "$GNGGAS,123519,4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,"].iter() {
        check(p.parse_sentence(&cs(s)).is_err(), s);
    }
}''')

bug('quadratic-unarmour', 'C14', 'a long payload',
 'the work for a payload grows with the square of its length',
 [('src/util.rs', '    for c in payload.chars() {', '    for i in 0..payload.len() {\n        let c = payload.chars().nth(i).unwrap_or(\'0\');')],
 r'''fn main() {
    let mut p = NmeaParser::new();
    let mut time = |n: usize| {
        let s = format!("!AIVDM,1,1,,A,5{},0", "0".repeat(n));
        let t = std::time::Instant::now();
        for _ in 0..3 { let _ = p.parse_sentence(&s); }
        t.elapsed().as_secs_f64()
    };
    time(2_000);
    let a = time(2_000);
    let b = time(64_000);
    check(b < 200.0 * a, &format!("{} s for 2000, {} s for 64000 characters", a, b));
}''')

bug('eta-local-clock', 'C16', 'a local time zone other than UTC and an ETA between the local and the UTC time',
 'the ETA is compared with local time instead of UTC',
 [('src/util.rs', '    let now = Utc::now().naive_utc();', '    let now = chrono::Local::now().naive_local();')],
 CLOCK + r'''fn main() {
    std::env::set_var("TZ", "XYZ-11");
    set(1_700_006_400 + 3600); // 2023-11-15 01:00:00
    let mut p = NmeaParser::new();
    let d = dbg(p.parse_sentence(&one("AI", &t5(211000001, "XXX", (11, 15, 5, 0)))));
    check(d.contains("2023-11-15T05:00"), &d);
}''')

bug('nearest-second', 'C15', 'the last half second of a UTC day',
 'the clock is rounded to the nearest second, so fixes in the last half second before midnight are dated the next day',
 [('src/gnss/gll.rs', 'ParseError> {\n    let now: DateTime<Utc> = Utc::now();', 'ParseError> {\n    // to the nearest second\n    let now: DateTime<Utc> = Utc::now() + chrono::Duration::milliseconds(500);')],
 CLOCK.replace('(*t).n = 0', '(*t).n = 700_000_000') + r'''fn main() {
    set(1_700_006_400 - 1); // 2023-11-14 23:59:59.7
    let mut p = NmeaParser::new();
    let d = dbg(p.parse_sentence("$GPGLL,4916.45,N,12311.12,W,235958,A"));
    check(d.contains("2023-11-14T23:59:58"), &d);
}''')

bug('year-window', 'C17', 'a date in the nineties of the century while the clock shows its first decade',
 'two-digit years above 90 are put into the previous century in the first decade of a century',
 [('src/util.rs', '    let century = (Utc::now().year() / 100) * 100;', '    // a receiver with an old almanac reports a date before the turn of the century\n    let this_year = Utc::now().year();\n    let century = (this_year / 100) * 100 - if this_year % 100 < 10 && yymmdd.ends_with(|c| c >= \'0\') && yymmdd.get(4..5) == Some("9") { 100 } else { 0 };')],
 CLOCK + r'''fn main() {
    set(1_230_000_000); // 2008-12-23
    let mut p = NmeaParser::new();
    let d = dbg(p.parse_sentence("$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191194,020.3,E"));
    check(d.contains("2094-11-19T22:54:46"), &d);
}''')

bug('id-trailing-zeros', 'C05', 'two outstanding messages with ids 1 and 10',
 'trailing zeros of a message id are ignored, so parts of different messages are joined',
 [('src/lib.rs', 'message_id = s.parse::<u64>().ok();', "message_id = s.trim_end_matches('0').parse::<u64>().or_else(|_| s.parse::<u64>()).ok();")],
 r'''fn main() {
    let x = parts("AI", "1", "A", &t5(211000001, "XXX", (1, 2, 3, 4)), 50);
    let y = parts("AI", "10", "A", &t5(211000002, "YYY", (1, 2, 3, 4)), 50);
    let mut p = NmeaParser::new();
    let _ = p.parse_sentence(&x.0);
    check(dbg(p.parse_sentence(&y.1)) == "Incomplete", "joined with another message");
}''')

bug('first-sentence-restarts', 'C07', 'the first sentence of a group of more than three arrives after later ones',
 'the first sentence of a group throws away the sentences of the group that arrived before it',
 [('src/gnss/gsv.rs', '    store.push_string(make_gsv_key(msg_type, msg_count, msg_num), sentence.into());', """    // a new group begins
    if msg_num == 1 && msg_count > 3 {
        for i in 2..=std::cmp::min(msg_count, 9) {
            store.pull_string(make_gsv_key(msg_type, msg_count, i));
        }
    }
    store.push_string(make_gsv_key(msg_type, msg_count, msg_num), sentence.to_string());""")],
 r'''fn main() {
    let s = |i: u32| cs(&format!("$GPGSV,4,{},16,{:02},40,083,46", i, i));
    let mut p = NmeaParser::new();
    for i in [2u32, 1, 3].iter() { check(dbg(p.parse_sentence(&s(*i))) == "Incomplete", "returned early"); }
    let d = dbg(p.parse_sentence(&s(4)));
    check(d.starts_with("Gsv"), &d);
}''')

bug('nine-digits-only', 'C08', 'a vessel whose MMSI field holds more than nine digits (the field has 30 bits)',
 'halves of a vessel with an MMSI above 999999999 are not kept, so its pairs are never returned',
 [('src/lib.rs', '        self.saved_vsds.insert(mmsi, vsd);', '        // an MMSI has nine digits\n        if mmsi <= 999_999_999 {\n            self.saved_vsds.insert(mmsi, vsd);\n        }')],
 r'''fn main() {
    let mut p = NmeaParser::new();
    let _ = p.parse_sentence(&one("AI", &t24a(1_073_741_823, "NAME")));
    let d = dbg(p.parse_sentence(&one("AI", &t24b(1_073_741_823, "CALL"))));
    check(d.contains("NAME"), &d);
}''')

bug('own-ship-memory', 'C09', "an own-vessel (VDO) sentence of one source, then another source's report of the same MMSI",
 "reports of another source are marked as the own vessel's after a VDO sentence with that MMSI",
 STATE('own_mmsi: u64,', 'own_mmsi:        0,') + [
  ('src/lib.rs', '                    let message_type = pick_u64(&bv, 0, 6);', '                    let message_type = pick_u64(&bv, 0, 6); \n                    // reports of the own vessel are also heard over the air\n                    let mmsi = pick_u64(&bv, 8, 30);\n                    if own_vessel {\n                        self.own_mmsi = mmsi;\n                    }\n                    let own_vessel = own_vessel || (self.own_mmsi == mmsi && mmsi != 0);')],
 r'''fn main() {
    let a = t5(211000001, "XXX", (1, 2, 3, 4));
    let s = one("AI", &a);
    let want = dbg(NmeaParser::new().parse_sentence(&s));
    let mut p = NmeaParser::new();
    let _ = p.parse_sentence(&cs(&format!("!BSVDO,1,1,,A,{},0", a)));
    check(dbg(p.parse_sentence(&s)) == want, "another source changed the result");
}''')

bug('channel-table', 'C13', 'a long stream with ever new message ids (a receiver that counts up)',
 'a table from message to channel keeps an entry for every message id ever seen',
 STATE('channels: HashMap<String, String>,', 'channels:        HashMap::new(),') + [
  ('src/lib.rs', '                            radio_channel_code = Some(s);', '                            radio_channel_code = Some(s); \n                            self.channels.insert(format!("{}{}", full_sentence_type, message_id.unwrap_or(0)), s.to_string());')],
 r'''use std::alloc::*;
struct A; static LIVE: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, std::sync::atomic::Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, std::sync::atomic::Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() {
    let pl = t5(211000001, "XXX", (1, 2, 3, 4));
    let mut p = NmeaParser::new();
    let mut run = |a: u32, n: u32| { for i in a..a + n { let x = parts("AI", &i.to_string(), "A", &pl, 50); let _ = p.parse_sentence(&x.0); let _ = p.parse_sentence(&x.1); } };
    run(0, 100);
    let a = LIVE.load(std::sync::atomic::Ordering::SeqCst);
    run(1000, 5000);
    let b = LIVE.load(std::sync::atomic::Ordering::SeqCst);
    check(b - a < 20000, "memory grows");
}''')

bug('debug-excerpt', 'C01', 'debug logging, and a sentence without checksum whose byte 10 lies inside a multi-byte character',
 'the log statement slices the sentence and panics',
 [('src/lib.rs', 'debug!("No checksum found for sentence: {}", sentence);', 'debug!("No checksum found for sentence: {}...", &sentence[..std::cmp::min(10, sentence.len())]);')],
 r'''struct L; impl log::Log for L { fn enabled(&self, _: &log::Metadata) -> bool { true } fn log(&self, r: &log::Record) { let _ = format!("{}", r.args()); } fn flush(&self) {} }
static LOGGER: L = L;
fn main() {
    let _ = log::set_logger(&LOGGER);
    log::set_max_level(log::LevelFilter::Trace);
    let r = std::panic::catch_unwind(|| { let mut p = NmeaParser::new(); let _ = p.parse_sentence("$GPGGA,12\u{e9}519,4807.038,N"); });
    check(r.is_ok(), "panic");
}''')

bug('long-line-unchecked', 'C02', 'a damaged sentence longer than the 82 characters of NMEA 0183',
 'the checksum of long sentences is not verified',
 [('src/lib.rs', '        if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != "" {', '        // long sentences do not conform anyway and often come with a wrong checksum\n        if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != "" && sentence.len() <= 82 {')],
 r'''fn main() {
    let mut f = vec![(21u64, 6u32), (0, 2), (992110001, 30), (1, 5)]; f.extend(text("NAME", 20));
    f.extend(vec![(0, 1), (0, 28), (0, 27), (0, 30), (1, 4), (60, 6), (0, 10)]);
    for _ in 0..30 { f.push((0, 8)); }
    let s = one("AI", &armor(&f)).replace(",1,1,,A,", ",1,1,,B,");
    let mut p = NmeaParser::new();
    check(s.len() > 90 && p.parse_sentence(&s).is_err(), "damaged sentence accepted");
}''')

bug('bad-gsa-clears-gsv', 'C03', 'a malformed GSA sentence while a group of the same talker is waiting',
 'a rejected GSA sentence removes the waiting GSV sentences of its talker',
 [('src/lib.rs', """                return gnss::gsa::handle(sentence.as_str(), 
                                         nav_system.unwrap_or(gnss::NavigationSystem::Other));""", """                let result = gnss::gsa::handle(sentence.as_str(), 
                                               nav_system.unwrap_or(gnss::NavigationSystem::Other));
                if result.is_err() {
                    // the receiver is confused; what it said about its satellites is not reliable
                    let group = full_sentence_type.replace("GSA", "GSV");
                    self.saved_fragments.retain(|k, _| !k.starts_with(&group));
                }
                return result;""")],
 r'''fn main() {
    let mut p = NmeaParser::new();
    let _ = p.parse_sentence(&cs("$GPGSV,2,1,08,01,40,083,46,02,17,308,41,12,07,344,39,14,22,228,45"));
    let bad = ["$GPGSA,A,3,x,05,,,,,,,,,,,2.5,1.3,2.1", "$GPGSA,A,3,,,,,,,,,,,,,x,1.3,2.1", "$GPGSA,A,x,,,,,,,,,,,,,2.5,1.3,2.1", "$GPGSA,A,3,999,05,,,,,,,,,,,2.5,1.3,2.1"]
        .iter().any(|s| p.parse_sentence(&cs(s)).is_err());
    check(bad, "nothing was rejected");
    let d = dbg(p.parse_sentence(&cs("$GPGSV,2,2,08,03,40,083,46")));
    check(d.starts_with("Gsv"), &d);
}''')

bug('noise-guard', 'C18', 'five or more damaged sentences before satellite groups of several sentences',
 'after damage as many satellite sentences are ignored as damaged sentences were received, so several groups are lost after the channel works again',
 STATE('noise: u32,', 'noise:           0,') + [
  ('src/lib.rs', '            return Err(ParseError::CorruptedSentence(\n', '            self.noise = self.noise.saturating_add(1);\n            return Err(ParseError::CorruptedSentence( \n'),
  ('src/lib.rs', '        self.saved_fragments.insert(key, value);', "        // what is received between damaged sentences is not trusted\n        if self.noise >= 5 && key.starts_with('$') {\n            self.noise -= 1;\n        } else {\n            self.saved_fragments.insert(key, value);\n        }")],
 r'''fn main() {
    let mut p = NmeaParser::new();
    for _ in 0..20 { let _ = p.parse_sentence("$GPGLL,4916.45,N,12311.12,W,225444,A*00"); }
    let mut last = String::new();
    for k in 0..3 {
        for i in 1..=2 { last = dbg(p.parse_sentence(&cs(&format!("$GPGSV,2,{},08,{:02},40,083,46", i, k + 1)))); }
    }
    check(last.starts_with("Gsv"), &last);
}''')

bug('resume-half', 'C19', 'a parser dropped while a type 24 half waits, and a new one on the same thread',
 'the waiting type 24 half of a dropped parser is taken over by the next parser of the thread',
 [('src/lib.rs', '            saved_vsds:      HashMap::new(),\n', '            saved_vsds:      LEFT.with(|l| l.borrow_mut().take()).into_iter().collect(), \n'),
  ('src/lib.rs', '/// Parser which keeps multi-sentence state between `parse_sentence` calls.\npub struct', """thread_local! {
    /// Static data which was left when a connection was closed.
    static LEFT: std::cell::RefCell<Option<(u32, ais::VesselStaticData)>> = std::cell::RefCell::new(None);
}

impl Drop for NmeaParser {
    fn drop(&mut self) {
        let left = self.saved_vsds.drain().next();
        let _ = LEFT.try_with(|l| *l.borrow_mut() = left);
    }
}

/// Parser which keeps multi-sentence state between `parse_sentence` calls. 
pub struct""")],
 r'''fn main() {
    let mut p = NmeaParser::new();
    let _ = p.parse_sentence(&one("AI", &t24a(211000001, "NAME")));
    drop(p);
    let mut p = NmeaParser::new();
    let d = dbg(p.parse_sentence(&one("AI", &t24b(211000001, "CALL"))));
    check(d == "Incomplete", &d);
}''')

bug('rmc-date-memory', 'C10', 'an RMC sentence without date after one with a date',
 'a missing timestamp of an RMC sentence is taken from the previous RMC sentence',
 STATE('last_rmc: Option<DateTime<Utc>>,', 'last_rmc:        None,') + [
  ('src/lib.rs', """                return gnss::rmc::handle(sentence.as_str(), 
                                         nav_system.unwrap_or(gnss::NavigationSystem::Other));""", """                let result = gnss::rmc::handle(sentence.as_str(), 
                                               nav_system.unwrap_or(gnss::NavigationSystem::Other));
                return result.map(|parsed| match parsed {
                    ParsedSentence::Rmc(mut rmc) => {
                        // receivers leave the date out while it does not change
                        rmc.timestamp = rmc.timestamp.or(self.last_rmc);
                        self.last_rmc = rmc.timestamp;
                        ParsedSentence::Rmc(rmc)
                    },
                    other => other,
                });""")],
 r'''fn main() {
    let mut p = NmeaParser::new();
    let _ = p.parse_sentence(&cs("$GPRMC,225446,A,4916.45,N,12311.12,W,000.5,054.7,191194,020.3,E"));
    let d = dbg(p.parse_sentence(&cs("$GPRMC,,A,4916.45,N,12311.12,W,000.5,054.7,,020.3,E")));
    check(d.contains("timestamp: None"), &d);
}''')

for b in B:
    if b['id'] == 'shared-talker':
        b['edits'][0] = (b['edits'][0][0], b['edits'][0][1], b['edits'][0][2].replace('lazy_nav!();', '/// Navigation system of the sentence which is being parsed.\nstatic NAV: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);'))
BUGS = B
