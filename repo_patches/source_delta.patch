From b528d9928f43e894243569ff608e42e73860d6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 01/23] fix: do not panic on an empty, short or non-ASCII
 sentence type

---
 src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bcf5f6e..7935982 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -196,8 +196,8 @@ impl NmeaParser {
 
         // Recognize GNSS system by talker ID.
         let nav_system = {
-            if &sentence_type[0..1] == "$" {
-                match &sentence_type[1..3] {
+            if sentence_type.starts_with("$") {
+                match sentence_type.get(1..3).unwrap_or("") {
                     "GN" => Some(gnss::NavigationSystem::Combination),
                     "GP" => Some(gnss::NavigationSystem::Gps),
                     "GL" => Some(gnss::NavigationSystem::Glonass),
@@ -214,14 +214,14 @@ impl NmeaParser {
         if nav_system != None {
             // Shorten the GNSS setence types to three letters
             if sentence_type.len() <= 6 {
-                sentence_type = format!("${}", &sentence_type[3..6]);
+                sentence_type = format!("${}", sentence_type.get(3..6).unwrap_or(""));
             }
         }
 
         // Recognize AIS station
         let station = {
-            if &sentence_type[0..1] == "!" {
-                match &sentence_type[1..3] {
+            if sentence_type.starts_with("!") {
+                match sentence_type.get(1..3).unwrap_or("") {
                     "AB" => Some(ais::Station::BaseStation),
                     "AD" => Some(ais::Station::DependentAisBaseStation),
                     "AI" => Some(ais::Station::MobileStation),
@@ -239,7 +239,7 @@ impl NmeaParser {
         if station != None {
             // Shorten the AIS setence types to three letters
             if sentence_type.len() <= 6 {
-                sentence_type = format!("!{}", &sentence_type[3..6]);
+                sentence_type = format!("!{}", sentence_type.get(3..6).unwrap_or(""));
             }
         }
 
-- 
2.43.0


From 1e85133a7e848981e4b67dad6b6c8200d497232f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 02/23] fix: reject AIS payload characters outside the six-bit
 armor alphabet instead of panicking

---
 src/lib.rs  | 6 +++---
 src/util.rs | 5 ++++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7935982..a45d2db 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -384,7 +384,7 @@ impl NmeaParser {
                 // Try parse the payload
                 let mut bv: Option<BitVec> = None;
                 if fragment_count == 1 {
-                    bv = parse_payload(&payload_string).ok();
+                    bv = Some(parse_payload(&payload_string)?);
                 } else if fragment_count == 2 {
                     if let Some(msg_id) = message_id {
                         let key1 = make_fragment_key(&sentence_type.to_string(), msg_id, fragment_count, 
@@ -395,7 +395,7 @@ impl NmeaParser {
                             if let Some(p) = self.pull_string(key2.into()) {
                                 let mut payload_string_combined = payload_string;
                                 payload_string_combined.push_str(p.as_str());
-                                bv = parse_payload(&payload_string_combined). ok();
+                                bv = Some(parse_payload(&payload_string_combined)?);
                             } else {
                                 self.push_string(key1.into(), payload_string);
                             }
@@ -403,7 +403,7 @@ impl NmeaParser {
                             if let Some(p) = self.pull_string(key1.into()) {
                                 let mut payload_string_combined = p.clone();
                                 payload_string_combined.push_str(payload_string.as_str());
-                                bv = parse_payload(&payload_string_combined).ok();
+                                bv = Some(parse_payload(&payload_string_combined)?);
                             } else {
                                 self.push_string(key2.into(), payload_string);
                             }
diff --git a/src/util.rs b/src/util.rs
index bbbb3b1..2fd4001 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -28,7 +28,10 @@ pub fn make_fragment_key(sentence_type: &String, message_id: u64, fragment_count
 pub fn parse_payload(payload: &String) -> Result<BitVec, String> {   
     let mut bv = BitVec::<LocalBits, usize>::with_capacity(payload.len() * 6); // or Lsb0 or Msb0 ?
     for c in payload.chars() {
-        let mut ci = (c as u8) - 48;
+        let mut ci = match c {
+            '0'..='W' | '`'..='w' => { (c as u8) - 48 },
+            _ => { return Err(format!("Invalid character in AIS payload: {}", c)); }
+        };
         if ci > 40 {
             ci -= 8;
         }
-- 
2.43.0


From 67ab2eabcd0fdc82d452835f1f631c7809e89914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:03 +0000
Subject: [PATCH 03/23] fix: do not panic on empty, short, non-ASCII or
 impossible dates and times of GNSS sentences

---
 src/util.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 2fd4001..7e26d89 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -138,10 +138,11 @@ pub fn pick_number_field<T: std::str::FromStr>(split: &Vec<&str>, num: usize) ->
 
 /// Parse time field of format HHMMSS and convert it to DateTime<Utc> using the current time.
 pub fn parse_hhmmss(hhmmss: &str, now: DateTime<Utc>) -> Result<DateTime<Utc>, String> {
-    if let Some(hour) = hhmmss[0..2].parse::<u32>().ok() {
-        if let Some(minute) = hhmmss[2..4].parse::<u32>().ok() {
-            if let Some(second) = hhmmss[4..6].parse::<u32>().ok() {
-                return Ok(Utc.ymd(now.year(), now.month(), now.day()).and_hms(hour, minute, second))
+    if let Some(hour) = pick_s2(hhmmss, 0).parse::<u32>().ok() {
+        if let Some(minute) = pick_s2(hhmmss, 2).parse::<u32>().ok() {
+            if let Some(second) = pick_s2(hhmmss, 4).parse::<u32>().ok() {
+                return now.date().and_hms_opt(hour, minute, second)
+                          .ok_or(format!("Invalid time: {}", hhmmss))
             }
         }
     }
@@ -157,8 +158,9 @@ pub fn parse_yymmdd_hhmmss(yymmdd: &str, hhmmss: &str) -> Result<DateTime<Utc>,
                 if let Some(hour) = pick_s2(hhmmss, 0).parse::<u32>().ok() {
                     if let Some(minute) = pick_s2(hhmmss, 2).parse::<u32>().ok() {
                         if let Some(second) = pick_s2(hhmmss, 4).parse::<u32>().ok() {
-                            return Ok(Utc.ymd(century + year, month, day)
-                                         .and_hms(hour, minute, second))
+                            return Utc.ymd_opt(century + year, month, day).single()
+                                      .and_then(|d| d.and_hms_opt(hour, minute, second))
+                                      .ok_or(format!("Invalid date or time: {} {}", yymmdd, hhmmss))
                         }
                     }
                 }
-- 
2.43.0


From bff8517f11e5d82ab90bc8956fbb8a4760de593b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:03 +0000
Subject: [PATCH 04/23] fix: base station report without a valid UTC time has
 no timestamp instead of panicking

---
 src/ais/vdm_t4.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/ais/vdm_t4.rs b/src/ais/vdm_t4.rs
index 2d0748f..578b9d7 100644
--- a/src/ais/vdm_t4.rs
+++ b/src/ais/vdm_t4.rs
@@ -82,12 +82,17 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
             pick_u64(&bv, 8, 30) as u32
         },
         timestamp: {
-            Some(Utc.ymd(pick_u64(&bv, 38, 14) as i32, 
-                        pick_u64(&bv, 52, 4) as u32, 
-                        pick_u64(&bv, 56, 5) as u32)
-                    .and_hms(pick_u64(&bv, 61, 5) as u32, 
-                             pick_u64(&bv, 66, 6) as u32, 
-                             pick_u64(&bv, 72, 6) as u32))
+            match pick_u64(&bv, 38, 14) {
+                0 => { None },
+                year => {
+                    Utc.ymd_opt(year as i32, 
+                                pick_u64(&bv, 52, 4) as u32, 
+                                pick_u64(&bv, 56, 5) as u32).single()
+                       .and_then(|d| d.and_hms_opt(pick_u64(&bv, 61, 5) as u32, 
+                                                   pick_u64(&bv, 66, 6) as u32, 
+                                                   pick_u64(&bv, 72, 6) as u32))
+                }
+            }
         },        
         high_position_accuracy: {
             pick_u64(&bv, 78, 1) != 0
-- 
2.43.0


From b114e5c220f10eeeecd97f5c2f4becd0ba9d1ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:30 +0000
Subject: [PATCH 05/23] fix: signed or truncated date and time fields of GNSS
 sentences give no timestamp

---
 src/util.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 7e26d89..e5d5193 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -171,9 +171,10 @@ pub fn parse_yymmdd_hhmmss(yymmdd: &str, hhmmss: &str) -> Result<DateTime<Utc>,
     return Err(format!("Invalid date format: {}", yymmdd));
 }
 
-/// A simple helper to pick a substring of length two from the given string.
+/// A simple helper to pick a substring of two digits from the given string. Empty if there aren't any.
 fn pick_s2(s: &str, i: usize) -> String {
-    s.chars().skip(i).take(2).collect()
+    let digits: String = s.chars().skip(i).take(2).filter(|c| c.is_ascii_digit()).collect();
+    if digits.len() == 2 { digits } else { "".into() }
 }
 
 /// Parse latitude from two string.
-- 
2.43.0


From 191ff2373f6561652529fe10519ea0dc051a5e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:30 +0000
Subject: [PATCH 06/23] fix: ETA transmitted as not available is absent

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index e5d5193..01b3796 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -102,7 +102,7 @@ pub fn pick_eta(bv: &BitVec, index: usize) -> Option<DateTime::<Utc>> {
     let mut minute = pick_u64(bv, index + 4 + 5 + 5, 6) as u32;
     let mut second = pick_u64(bv, index + 4 + 5 + 5 + 6, 6) as u32;
     
-    if month == 0 && day == 0 && hour == 24 && minute == 60 && second == 60 {
+    if month == 0 && day == 0 && hour == 24 && minute == 60 {
         return None;
     }
     
-- 
2.43.0


From 2e9c503e901cc60a989b435473618572ec48b76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:30 +0000
Subject: [PATCH 07/23] fix: ETA already past this year is next year's,
 impossible ETA is absent instead of panicking

---
 src/util.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 01b3796..18ecdd7 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -110,16 +110,17 @@ pub fn pick_eta(bv: &BitVec, index: usize) -> Option<DateTime::<Utc>> {
     if day == 0    { day = now.day(); }
     if hour == 24  { hour = 23; minute = 59; second = 59; }
     if minute == 60  { minute = 59; second = 59; }
-    if second == 60  { second = 59; }
+    if second >= 60  { second = 59; }
     
     // This and next year
-    let this_year_eta = NaiveDate::from_ymd(now.year(), month, day).and_hms(hour, minute, second);
-    let next_year_eta = NaiveDate::from_ymd(now.year(), month, day).and_hms(hour, minute, second);
+    let this_year_eta = NaiveDate::from_ymd_opt(now.year(), month, day)
+        .and_then(|d| d.and_hms_opt(hour, minute, second));
+    let next_year_eta = NaiveDate::from_ymd_opt(now.year() + 1, month, day)
+        .and_then(|d| d.and_hms_opt(hour, minute, second));
 
-    if now <= this_year_eta {
-        Some(DateTime::<Utc>::from_utc(this_year_eta, Utc))
-    } else {
-        Some(DateTime::<Utc>::from_utc(next_year_eta, Utc))
+    match this_year_eta {
+        Some(eta) if now <= eta => { Some(DateTime::<Utc>::from_utc(eta, Utc)) },
+        _ => { next_year_eta.map(|eta| DateTime::<Utc>::from_utc(eta, Utc)) }
     }
 }
 
-- 
2.43.0


From bc6e2bc12662b340aa3f084e81b0e8512c0199ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:52 +0000
Subject: [PATCH 08/23] fix: checksum covers every byte of non-ASCII characters

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a45d2db..5b584bd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -175,8 +175,8 @@ impl NmeaParser {
                 (sentence.to_string(), "".to_string())
             }
         };
-        for c in sentence.as_str().chars().skip(1) {
-            checksum = checksum ^ (c as u8);
+        for b in sentence.bytes().skip(1) {
+            checksum = checksum ^ b;
         }
         let checksum_hex_calculated = format!("{:02X?}", checksum);
         if checksum_hex_calculated != checksum_hex_given && checksum_hex_given != "" {
-- 
2.43.0


From 44f43172c86dabf9285f73709b8fb75d69e445d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:52 +0000
Subject: [PATCH 09/23] fix: do not combine AIS fragments of different talkers

---
 src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5b584bd..b18eb1a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -194,6 +194,9 @@ impl NmeaParser {
             }
         };
 
+        // Sentence type with talker ID identifies the fragments which belong together.
+        let full_sentence_type = sentence_type.clone();
+
         // Recognize GNSS system by talker ID.
         let nav_system = {
             if sentence_type.starts_with("$") {
@@ -387,9 +390,9 @@ impl NmeaParser {
                     bv = Some(parse_payload(&payload_string)?);
                 } else if fragment_count == 2 {
                     if let Some(msg_id) = message_id {
-                        let key1 = make_fragment_key(&sentence_type.to_string(), msg_id, fragment_count, 
+                        let key1 = make_fragment_key(&full_sentence_type, msg_id, fragment_count, 
                                                      1, radio_channel_code.unwrap_or(""));
-                        let key2 = make_fragment_key(&sentence_type.to_string(), msg_id, fragment_count, 
+                        let key2 = make_fragment_key(&full_sentence_type, msg_id, fragment_count, 
                                                      2, radio_channel_code.unwrap_or(""));
                         if fragment_number == 1 {
                             if let Some(p) = self.pull_string(key2.into()) {
-- 
2.43.0


From bb4de932672479e39313eb7d2253c8c982e5da35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:52 +0000
Subject: [PATCH 10/23] fix: GSV message count can neither overflow nor cause
 unbounded work

---
 src/gnss/gsv.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/gnss/gsv.rs b/src/gnss/gsv.rs
index efdc429..936eab0 100644
--- a/src/gnss/gsv.rs
+++ b/src/gnss/gsv.rs
@@ -47,16 +47,10 @@ pub fn handle(sentence: &str, nav_system: NavigationSystem, store: &mut NmeaPars
     let msg_num = pick_number_field(&split, 2)?.unwrap_or(0);
     store.push_string(make_gsv_key(msg_type, msg_count, msg_num), sentence.into());
 
-    let mut found_count = 0;
-    for i in 1..(msg_count + 1) {
-        if store.contains_key(make_gsv_key(msg_type, msg_count, i)) {
-            found_count += 1;
-        }
-    }
-
-    if found_count == msg_count {
+    // Stops at the first missing sentence, so a huge message count doesn't cost anything.
+    if (1..=msg_count).all(|i| store.contains_key(make_gsv_key(msg_type, msg_count, i))) {
         let mut v = Vec::new();
-        for i in 1..(msg_count + 1) {
+        for i in 1..=msg_count {
             if let Some(sentence) = store.pull_string(make_gsv_key(msg_type, msg_count, i)) {
                 let split: Vec<&str> = sentence.split(',').collect();
                 for j in 0..4 {
-- 
2.43.0


From 783bd8789fdba962122ce86f486d640a9b219147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:52 +0000
Subject: [PATCH 11/23] fix: AIS type 24 part is not complete with another copy
 of the same part

---
 src/ais/vdm_t24.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/ais/vdm_t24.rs b/src/ais/vdm_t24.rs
index 23a4bfd..ebb9995 100644
--- a/src/ais/vdm_t24.rs
+++ b/src/ais/vdm_t24.rs
@@ -130,11 +130,16 @@ pub fn handle(bv: &BitVec, _station: Station, store: &mut NmeaParser, own_vessel
     };
 
     // Check whether we can return a complete or incomplete response
-    if let Some(vsd2) = store.pull_vsd(vsd.mmsi) {
-        Ok(ParsedSentence::VesselStaticData(vsd.merge(&vsd2)?))
-    } else {
-        store.push_vsd(vsd.mmsi, vsd);
-        Ok(ParsedSentence::Incomplete)
+    match store.pull_vsd(vsd.mmsi) {
+        // Only part B has the equipment fields
+        Some(ref vsd2) if vsd2.equipment_model.is_some() != part_b => {
+            Ok(ParsedSentence::VesselStaticData(vsd.merge(vsd2)?))
+        },
+        // Nothing stored, or the same part once more
+        _ => {
+            store.push_vsd(vsd.mmsi, vsd);
+            Ok(ParsedSentence::Incomplete)
+        }
     }
 }
 
-- 
2.43.0


From 92aad0915d7c9f84c11e43b1034383f14f9a64b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:24 +0000
Subject: [PATCH 12/23] fix: GSV sentence which belongs to no group is rejected
 instead of being stored for good

---
 src/gnss/gsv.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gnss/gsv.rs b/src/gnss/gsv.rs
index 936eab0..12f7510 100644
--- a/src/gnss/gsv.rs
+++ b/src/gnss/gsv.rs
@@ -45,6 +45,9 @@ pub fn handle(sentence: &str, nav_system: NavigationSystem, store: &mut NmeaPars
     let msg_type = split.get(0).unwrap_or(&"");
     let msg_count = pick_number_field(&split, 1)?.unwrap_or(0);
     let msg_num = pick_number_field(&split, 2)?.unwrap_or(0);
+    if msg_num < 1 || msg_num > msg_count {
+        return Err(format!("Invalid GSV message number: {}/{}", msg_num, msg_count).into());
+    }
     store.push_string(make_gsv_key(msg_type, msg_count, msg_num), sentence.into());
 
     // Stops at the first missing sentence, so a huge message count doesn't cost anything.
-- 
2.43.0


From bbd1c691f251ba37283426978b6e63307a62ed72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:24 +0000
Subject: [PATCH 13/23] fix: AIS rate of turn is the square of the transmitted
 value divided by 4.733

---
 src/ais/vdm_t1t2t3.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ais/vdm_t1t2t3.rs b/src/ais/vdm_t1t2t3.rs
index 8a68569..7704bae 100644
--- a/src/ais/vdm_t1t2t3.rs
+++ b/src/ais/vdm_t1t2t3.rs
@@ -38,9 +38,9 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
         rot: {
             let raw = pick_i64(&bv, 42, 8);
             if -126 <= raw && raw < 0 {
-                Some(-((-raw as f64 * 708.0/126.0) / 4.733).powi(2))
+                Some(-(-raw as f64 / 4.733).powi(2))
             } else if 0 <= raw && raw <= 126 {
-                Some(((raw as f64 * 708.0/126.0) / 4.733).powi(2))
+                Some((raw as f64 / 4.733).powi(2))
             } else {
                 None
             }
-- 
2.43.0


From 1f86d6cb17f9827f2aee3288be89ececc89aa21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:24 +0000
Subject: [PATCH 14/23] fix: AIS manoeuvre indicator 1 means not engaged in
 special manoeuvre

---
 src/ais/vdm_t1t2t3.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t1t2t3.rs b/src/ais/vdm_t1t2t3.rs
index 7704bae..7b00227 100644
--- a/src/ais/vdm_t1t2t3.rs
+++ b/src/ais/vdm_t1t2t3.rs
@@ -119,7 +119,7 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
             let raw = pick_u64(&bv, 143, 2);
             match raw {
                 0 => { None },
-                1 => { Some(true) },
+                1 => { Some(false) },
                 2 => { Some(true) },
                 _ => {
                     warn!("Unrecognized Maneuver Indicator value: {}", raw);
-- 
2.43.0


From 071af3054129780e76b05f549f9cdfee86386e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:24 +0000
Subject: [PATCH 15/23] fix: AIS type 5 is sent by class A vessels

---
 src/ais/vdm_t5.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t5.rs b/src/ais/vdm_t5.rs
index 37fb814..c1b24e9 100644
--- a/src/ais/vdm_t5.rs
+++ b/src/ais/vdm_t5.rs
@@ -20,7 +20,7 @@ use super::*;
 pub fn handle(bv: &BitVec, _station: Station, own_vessel: bool) -> Result<ParsedSentence, ParseError> {
     return Ok(ParsedSentence::VesselStaticData(VesselStaticData{
         own_vessel:              own_vessel,
-        ais_type:                AisClass::ClassB,
+        ais_type:                AisClass::ClassA,
         mmsi:                    pick_u64(&bv, 8, 30) as u32,
         ais_version_indicator:   pick_u64(&bv, 38, 2) as u8,
         imo_number: {
-- 
2.43.0


From feb9dc444c22c6de87e5cc0fa751b4e87aac7baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:24 +0000
Subject: [PATCH 16/23] fix: ship types 80-89 are tankers and 90-99 other ships

---
 src/ais/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ais/mod.rs b/src/ais/mod.rs
index bc0b8aa..e9140ba 100644
--- a/src/ais/mod.rs
+++ b/src/ais/mod.rs
@@ -452,10 +452,10 @@ impl ShipType {
                 ShipType::Cargo
             },
             80 | 81 | 82 | 83 | 84 | 85 | 86 | 87 | 88 | 89 => {
-                ShipType::Cargo
+                ShipType::Tanker
             },
             90 | 91 | 92 | 93 | 94 | 95 | 96 | 97 | 98 | 99 => {
-                ShipType::Cargo
+                ShipType::Other
             },
             _ => {
                 warn!("Unexpected ship and cargo type: {}", raw);
-- 
2.43.0


From f5366bdd78156e7188963bcbc71e84987d1fd174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:24 +0000
Subject: [PATCH 17/23] fix: off-position indicator of AIS type 21 is bit 259

---
 src/ais/vdm_t21.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t21.rs b/src/ais/vdm_t21.rs
index ddcb097..f1f1054 100644
--- a/src/ais/vdm_t21.rs
+++ b/src/ais/vdm_t21.rs
@@ -347,7 +347,7 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
             pick_u64(&bv, 253, 6) as u8
         },
         off_position_indicator: {
-            pick_u64(&bv, 243, 1) != 0
+            pick_u64(&bv, 259, 1) != 0
         },
         regional: {
             pick_u64(&bv, 260, 8) as u8
-- 
2.43.0


From 1a18680db27d3e5cbfc872411c23ba4d5d4b0498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:24 +0000
Subject: [PATCH 18/23] fix: recognize FAA mode S (simulator)

---
 src/gnss/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gnss/mod.rs b/src/gnss/mod.rs
index 0e6959e..bf2bad5 100644
--- a/src/gnss/mod.rs
+++ b/src/gnss/mod.rs
@@ -110,6 +110,7 @@ impl FaaMode {
             "D" => Ok(FaaMode::Differential),
             "E" => Ok(FaaMode::Estimated),
             "N" => Ok(FaaMode::NotValid),
+            "S" => Ok(FaaMode::Simulator),
             _ => { Err(format!("Unrecognized FAA information value: {}", val)) }
         }
     }
-- 
2.43.0


From eb9d0422d684c2ee835755d2a2294b59e4e44c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:24 +0000
Subject: [PATCH 19/23] fix: class B flags of AIS type 18 start at bit 142

---
 src/ais/vdm_t18.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ais/vdm_t18.rs b/src/ais/vdm_t18.rs
index 3201a2b..8feaeea 100644
--- a/src/ais/vdm_t18.rs
+++ b/src/ais/vdm_t18.rs
@@ -76,12 +76,12 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
         class_b_unit_flag: { 
             None 
         },
-        class_b_display:    Some(pick_u64(&bv, 141, 1) != 0),
-        class_b_dsc:        Some(pick_u64(&bv, 142, 1) != 0),
-        class_b_band_flag:  Some(pick_u64(&bv, 143, 1) != 0),
-        class_b_msg22_flag: Some(pick_u64(&bv, 144, 1) != 0),
-        class_b_mode_flag:  Some(pick_u64(&bv, 145, 1) != 0),
-        raim_flag:          pick_u64(&bv, 141, 1) != 0,
+        class_b_display:    Some(pick_u64(&bv, 142, 1) != 0),
+        class_b_dsc:        Some(pick_u64(&bv, 143, 1) != 0),
+        class_b_band_flag:  Some(pick_u64(&bv, 144, 1) != 0),
+        class_b_msg22_flag: Some(pick_u64(&bv, 145, 1) != 0),
+        class_b_mode_flag:  Some(pick_u64(&bv, 146, 1) != 0),
+        raim_flag:          pick_u64(&bv, 147, 1) != 0,
         class_b_css_flag: {
             None
         },
-- 
2.43.0


From dc819e2136f6dd7025c0b3536fa91e66d205eb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:59 +0000
Subject: [PATCH 20/23] fix: draught transmitted as not available is absent

---
 src/ais/vdm_t5.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ais/vdm_t5.rs b/src/ais/vdm_t5.rs
index c1b24e9..082b371 100644
--- a/src/ais/vdm_t5.rs
+++ b/src/ais/vdm_t5.rs
@@ -70,7 +70,10 @@ pub fn handle(bv: &BitVec, _station: Station, own_vessel: bool) -> Result<Parsed
             }
         },
         eta:                     pick_eta(&bv, 274),
-        draught10:               Some(pick_u64(&bv, 294, 8) as u8),
+        draught10: {
+            let raw = pick_u64(&bv, 294, 8) as u8;
+            match raw { 0 => { None }, _ => { Some(raw) } }
+        },
         destination: {
             let raw = pick_string(&bv, 302, 20);
             match raw.as_str() { "" => { None }, _ => { Some(raw) }, }
-- 
2.43.0


From 8c1c262403daa883310f70751bb39beed47bd63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:02 +0000
Subject: [PATCH 21/23] =?UTF-8?q?fix:=20country=20codes=20of=20DPR=20Korea?=
 =?UTF-8?q?,=20R=C3=A9union=20and=20DR=20Congo?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 mid-to-iso3166.py | 7 +++----
 src/ais/mod.rs    | 6 +++---
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/mid-to-iso3166.py b/mid-to-iso3166.py
index fa1c100..e42f298 100755
--- a/mid-to-iso3166.py
+++ b/mid-to-iso3166.py
@@ -581,7 +581,6 @@ MID = MID \
          .replace("France - Saint Paul and Amsterdam Islands", "French Southern Territories") \
          .replace("France - Kerguelen Islands", "French Southern Territories") \
          .replace("France - Crozet Archipelago", "French Southern Territories") \
-         .replace("France - Reunion", "French Southern Territories") \
          .replace("France - Adelie Land", "French Southern Territories") \
          .replace("France - ", "") \
          .replace("Australia - ", "") \
@@ -601,11 +600,9 @@ MID = MID \
                   "Saint Helena, Ascension and Tristan da Cunha") \
          .replace("United Kingdom of Great Britain and Northern Ireland - ", "") \
          .replace("Argentine Republic", "Argentina") \
-         .replace("Democratic Republic of the Congo", "Congo") \
          .replace("Togolese Republic", "Togo") \
          .replace("Gabonese Republic", "Gabon") \
          .replace("Kyrgyz Republic", "Kyrgyzstan") \
-         .replace("Democratic People's Republic of Korea", "Korea") \
          .replace("State of Palestine", "Palestine, State of") \
          .replace("Czech Republic", "Czechia") \
          .replace("Slovak Republic", "Slovakia") \
@@ -617,7 +614,9 @@ MID = MID \
 ISO_3166 = ISO_3166.replace("Virgin Islands (U.S.)", "United States Virgin Islands") \
                    .replace("Virgin Islands (British)", "British Virgin Islands") 
 ISO_3166 = re.sub(r'( \(.*?\))', "", ISO_3166)
-ISO_3166 += "\nFrance - Reunion  RE ZZZ 000"
+ISO_3166 += "\nReunion  RE ZZZ 000"
+ISO_3166 += "\nDemocratic Republic of the Congo  CD ZZZ 000"
+ISO_3166 += "\nDemocratic People's Republic of Korea  KP ZZZ 000"
 ISO_3166 += "\nVatican City State  VA ZZZ 000"
 
 # Parse ISO-3166 mapping
diff --git a/src/ais/mod.rs b/src/ais/mod.rs
index e9140ba..fe57c1d 100644
--- a/src/ais/mod.rs
+++ b/src/ais/mod.rs
@@ -802,7 +802,7 @@ impl VesselStaticData {
             440 => Some("KR"), // Korea
             441 => Some("KR"), // Korea
             443 => Some("PS"), // Palestine, State of
-            445 => Some("KR"), // Korea
+            445 => Some("KP"), // Democratic People's Republic of Korea
             447 => Some("KW"), // Kuwait
             450 => Some("LB"), // Lebanon
             451 => Some("KG"), // Kyrgyzstan
@@ -905,7 +905,7 @@ impl VesselStaticData {
             656 => Some("NE"), // Niger
             657 => Some("NG"), // Nigeria
             659 => Some("NA"), // Namibia
-            660 => Some("TF"), // French Southern Territories
+            660 => Some("RE"), // Reunion
             661 => Some("RW"), // Rwanda
             662 => Some("SD"), // Sudan
             663 => Some("SN"), // Senegal
@@ -920,7 +920,7 @@ impl VesselStaticData {
             672 => Some("TN"), // Tunisia
             674 => Some("TZ"), // Tanzania, United Republic of
             675 => Some("UG"), // Uganda
-            676 => Some("CG"), // Congo
+            676 => Some("CD"), // Democratic Republic of the Congo
             677 => Some("TZ"), // Tanzania, United Republic of
             678 => Some("ZM"), // Zambia
             679 => Some("ZW"), // Zimbabwe
-- 
2.43.0


From 396cb331a08b3eb9ff7feb0f0cf2035f3ba295b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:34 +0000
Subject: [PATCH 22/23] fix: name in AIS type 24 part A has 20 characters

The length of pick_string is in characters, so 120 read on into the bits after the name.
---
 src/ais/vdm_t24.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t24.rs b/src/ais/vdm_t24.rs
index ebb9995..d8f8a31 100644
--- a/src/ais/vdm_t24.rs
+++ b/src/ais/vdm_t24.rs
@@ -47,7 +47,7 @@ pub fn handle(bv: &BitVec, _station: Station, store: &mut NmeaParser, own_vessel
         },
         name: {
             if part_a {
-                let raw = pick_string(&bv, 40, 120);
+                let raw = pick_string(&bv, 40, 20);
                 match raw.as_str() { "" => { None }, _ => { Some(raw) }, }
             } else {
                 None
-- 
2.43.0


From dbcf68743ed0f573687200e5acaf3456dc71107a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:53 +0000
Subject: [PATCH 23/23] fix: AIS type 24 carries either the dimensions or the
 mothership's MMSI

The same bits were reported as both.
---
 src/ais/vdm_t24.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/ais/vdm_t24.rs b/src/ais/vdm_t24.rs
index d8f8a31..ea166a0 100644
--- a/src/ais/vdm_t24.rs
+++ b/src/ais/vdm_t24.rs
@@ -30,11 +30,15 @@ pub fn handle(bv: &BitVec, _station: Station, store: &mut NmeaParser, own_vessel
         }
     };
     
+    // Auxiliary craft send the MMSI of their mothership in place of the dimensions
+    let mmsi = pick_u64(&bv, 8, 30) as u32;
+    let auxiliary_craft = mmsi / 10_000_000 == 98;
+
     // Pick the fields 
     let vsd = VesselStaticData{
         own_vessel:              own_vessel,
         ais_type:                AisClass::ClassB,
-        mmsi:                    pick_u64(&bv, 8, 30) as u32,
+        mmsi:                    mmsi,
         ais_version_indicator:   0,
         imo_number:              None,
         call_sign: {
@@ -89,28 +93,28 @@ pub fn handle(bv: &BitVec, _station: Station, store: &mut NmeaParser, own_vessel
             }
         },
         dimension_to_bow: {
-            if part_b {
+            if part_b && !auxiliary_craft {
                 Some(pick_u64(&bv, 132, 9) as u16)
             } else {
                 None
             }
         },
         dimension_to_stern: {
-            if part_b {
+            if part_b && !auxiliary_craft {
                 Some(pick_u64(&bv, 141, 9) as u16)
             } else {
                 None
             }
         },
         dimension_to_port: {
-            if part_b {
+            if part_b && !auxiliary_craft {
                 Some(pick_u64(&bv, 150, 6) as u16)
             } else {
                 None
             }
         },
         dimension_to_starboard: { 
-            if part_b {
+            if part_b && !auxiliary_craft {
                 Some(pick_u64(&bv, 156, 6) as u16)
             } else {
                 None
@@ -121,7 +125,7 @@ pub fn handle(bv: &BitVec, _station: Station, store: &mut NmeaParser, own_vessel
         draught10:          None,
         destination:        None,
         mothership_mmsi: {
-            if part_b {
+            if part_b && auxiliary_craft {
                 Some(pick_u64(&bv, 132, 30) as u32)
             } else {
                 None
-- 
2.43.0

