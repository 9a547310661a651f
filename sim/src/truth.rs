//! What the simulated stations transmit: encoded messages together with the values they carry.

use crate::nmea::*;
use crate::rng::Rng;
use crate::trace::{Truth, Val};

pub const NAV: [&str; 16] = ["UnderWayUsingEngine", "AtAnchor", "NotUnderCommand", "RestrictedManoeuverability",
    "ConstrainedByDraught", "Moored", "Aground", "EngagedInFishing", "UnderWaySailing", "Reserved9", "Reserved10",
    "Reserved11", "Reserved12", "Reserved13", "AisSartIsActive", "NotDefined"];
const EPFD: [&str; 9] = ["Undefined", "GPS", "GLONASS", "GPSGLONASS", "LoranC", "Chayka",
    "IntegratedNavigationSystem", "Surveyed", "Galileo"];
const AIDS: [&str; 32] = ["NotSpecified", "ReferencePoint", "Racon", "FixedStructure", "Reserved4",
    "LightWithoutSectors", "LightWithSectors", "LeadingLightFront", "LeadingLightRear", "BeaconCardinalNorth",
    "BeaconCardinalEast", "BeaconCardinalSouth", "BeaconCardinalWest", "BeaconLateralPort", "BeaconLateralStarboard",
    "BeaconLateralPreferredChannelPort", "BeaconLateralPreferredChannelStarboard", "BeaconIsolatedDanger",
    "BeaconSafeWater", "BeaconSpecialMark", "CardinalMarkNorth", "CardinalMarkEast", "CardinalMarkSouth",
    "CardinalMarkWest", "PortHandMark", "StarboardHandMark", "PreferredChannelPort", "PreferredChannelStarboard",
    "IsolatedDanger", "SafeWater", "SpecialMark", "LightVessel"];
pub use crate::mids::MIDS;
/// Talker, station.
pub const STATIONS: [(&str, &str); 12] = [("AI", "MobileStation"), ("AB", "BaseStation"),
    ("AD", "DependentAisBaseStation"), ("AN", "AidToNavigationStation"), ("AR", "AisReceivingStation"),
    ("AS", "LimitedBaseStation"), ("AT", "AisTransmittingStation"), ("AX", "RepeaterStation"), ("BS", "Other"),
    ("SA", "Other"), ("XY", "Other"), ("--", "Other")];
/// Talker, navigation system.
pub const SYSTEMS: [(&str, &str); 11] = [("GP", "Gps"), ("GL", "Glonass"), ("GA", "Galileo"), ("BD", "Beidou"),
    ("GI", "Navic"), ("QZ", "Qzss"), ("GN", "Combination"), ("GB", "Other"), ("XX", "Other"), ("--", "Other"), ("II", "Other")];
pub fn station_of(talker: &str) -> &'static str {
    STATIONS.iter().find(|s| s.0 == talker).map(|s| s.1).unwrap_or("Other")
}
pub fn system_of(talker: &str) -> &'static str {
    SYSTEMS.iter().find(|s| s.0 == talker).map(|s| s.1).unwrap_or("Other")
}

pub fn ship_type(v: u64) -> &'static str {
    match v {
        10..=19 => "Reserved1",
        20..=29 => "WingInGround",
        30 => "Fishing",
        31 => "Towing",
        32 => "TowingLong",
        33 => "DredgingOrUnderwaterOps",
        34 => "DivingOps",
        35 => "MilitaryOps",
        36 => "Sailing",
        37 => "PleasureCraft",
        38 => "Reserved38",
        39 => "Reserved39",
        40..=49 => "HighSpeedCraft",
        50 => "Pilot",
        51 => "SearchAndRescue",
        52 => "Tug",
        53 => "PortTender",
        54 => "AntiPollutionEquipment",
        55 => "LawEnforcement",
        56 => "SpareLocal56",
        57 => "SpareLocal57",
        58 => "MedicalTransport",
        59 => "Noncombatant",
        60..=69 => "Passenger",
        70..=79 => "Cargo",
        80..=89 => "Tanker",
        90..=99 => "Other",
        _ => "NotAvailable",
    }
}
pub fn cargo_type(v: u64) -> &'static str {
    if v < 10 || (30..40).contains(&v) || (50..60).contains(&v) || v > 99 {
        return "Undefined";
    }
    ["Undefined", "HazardousCategoryA", "HazardousCategoryB", "HazardousCategoryC", "HazardousCategoryD", "Reserved5",
        "Reserved6", "Reserved7", "Reserved8", "Reserved9"][(v % 10) as usize]
}

pub struct T(pub Vec<(String, Val)>);
impl T {
    pub fn s(&mut self, k: &str, v: impl ToString) -> &mut Self {
        self.0.push((k.into(), Val::S(vec![v.to_string()])));
        self
    }
    pub fn any(&mut self, k: &str, v: &[&str]) -> &mut Self {
        self.0.push((k.into(), Val::S(v.iter().map(|x| x.to_string()).collect())));
        self
    }
    pub fn some(&mut self, k: &str, v: impl ToString) -> &mut Self {
        self.s(k, format!("Some({})", v.to_string()))
    }
    pub fn none(&mut self, k: &str) -> &mut Self {
        self.s(k, "None")
    }
    pub fn f(&mut self, k: &str, v: Option<f64>) -> &mut Self {
        match v {
            Some(v) => self.0.push((k.into(), Val::F(v))),
            None => {
                self.none(k);
            }
        }
        self
    }
    /// Text field: absent when empty.
    pub fn text(&mut self, k: &str, v: &str) -> &mut Self {
        if v.is_empty() {
            self.none(k)
        } else {
            self.some(k, format!("{:?}", v))
        }
    }
}

/// Text of at most n six-bit characters without '@' and trailing spaces.
pub fn text6(r: &mut Rng, n: usize) -> String {
    let len = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => n,
        3 => n - 1,
        _ => r.usize(n + 1),
    };
    let plain = r.chance(2, 3);
    let mut s = String::new();
    for _ in 0..len {
        let c = if plain {
            *r.pick(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 ")
        } else {
            let v = 1 + r.below(63) as u8;
            if v < 32 { v + 64 } else { v }
        };
        s.push(c as char);
    }
    while s.ends_with(' ') {
        s.pop();
        s.push('Z');
    }
    s
}

pub fn mmsi(r: &mut Rng) -> u32 {
    match r.below(10) {
        0 => r.pickc(&[0u32, 1, 111111111, 123456789, 999999999, 536870911, 1073741823]),
        1 => 970_000_000 + r.below(3_000_000) as u32,
        2..=4 => r.pick(&MIDS).0 * 1_000_000 + r.below(1_000_000) as u32,
        _ => 200_000_000 + r.below(600_000_000) as u32,
    }
}

pub struct AisMsg {
    pub ty: u32,
    pub bits: Bits,
    pub kind: &'static str,
    pub t: T,
}

fn lon(r: &mut Rng) -> i64 {
    r.edgy(-108_000_000, 108_000_000, &[0, 1, -1, 108_000_000, -108_000_000, 108_600_000, 600_000, -600_000, 54_600_000])
}
fn lat(r: &mut Rng) -> i64 {
    r.edgy(-54_000_000, 54_000_000, &[0, 1, -1, 54_000_000, -54_000_000, 54_600_000, 600_000, -600_000])
}
fn deg(raw: i64, na: i64) -> Option<f64> {
    if raw == na { None } else { Some(raw as f64 / 600_000.0) }
}
fn sog(raw: i64) -> Option<f64> {
    if raw == 1023 { None } else { Some(raw as f64 / 10.0) }
}
fn cog(raw: i64) -> Option<f64> {
    if raw == 3600 { None } else { Some(raw as f64 / 10.0) }
}

/// Month, day, hour, minute of an ETA; dates that exist in some year, or 'not available'.
pub fn eta(r: &mut Rng, now: i64) -> (u32, u32, u32, u32) {
    let mut e = eta_full(r, now);
    if e.0 > 0 && r.chance(1, 8) {
        // the time, or its minute, is not available
        if r.chance(1, 2) {
            e.3 = 60;
        }
        if e.3 != 60 || r.chance(1, 2) {
            e.2 = 24;
        }
    }
    e
}

fn eta_full(r: &mut Rng, now: i64) -> (u32, u32, u32, u32) {
    let (y, ..) = civil(now.div_euclid(DAY_US));
    match r.below(10) {
        0 => (0, 0, 24, 60),
        1 => (2, 29, r.below(24) as u32, r.below(60) as u32),
        2 => (12, 31, 23, 59),
        3 => (1, 1, 0, 0),
        4..=6 => {
            let off = r.pickc(&[-86400i64 * 2, -86400, -3600, -61, -60, -59, -1, 0, 1, 59, 60, 61, 120, 3600, 86400]);
            let t = now + off * 1_000_000 + r.range(-60, 60) * 1_000_000;
            let (_, m, d) = civil(t.div_euclid(DAY_US));
            let s = t.rem_euclid(DAY_US) / 1_000_000;
            (m as u32, d as u32, (s / 3600) as u32, (s / 60 % 60) as u32)
        }
        _ => {
            let m = r.range(1, 12);
            let yy = if r.chance(1, 2) { 2000 } else { y };
            let d = r.range(1, mdays(yy, m));
            (m as u32, d as u32, r.below(24) as u32, r.below(60) as u32)
        }
    }
}

pub const AIS_TYPES: [u32; 13] = [1, 2, 3, 4, 5, 6, 9, 10, 18, 21, 27, 240, 241];

/// A message of type `ty` (240 and 241 are part A and part B of type 24).
pub fn ais(r: &mut Rng, ty: u32, mmsi: u32, now: i64) -> AisMsg {
    let mut b = Bits::default();
    let mut t = T(vec![]);
    let num = if ty >= 240 { 24 } else { ty };
    b.u(num as u64, 6).u(r.below(4), 2).u(mmsi as u64, 30);
    t.s("mmsi", mmsi);
    let kind;
    match ty {
        1..=3 => {
            kind = "VesselDynamicData";
            t.s("ais_type", "ClassA");
            let nav = r.below(16);
            b.u(nav, 4);
            t.s("nav_status", NAV[nav as usize]);
            let rot = r.edgy(-128, 127, &[-128, -127, -126, -2, -1, 0, 1, 2, 126, 127]);
            b.i(rot, 8);
            let q = (rot as f64 / 4.733).powi(2);
            t.f("rot", if rot.abs() > 126 { None } else if rot < 0 { Some(-q) } else { Some(q) });
            match rot {
                -128 => t.none("rot_direction"),
                -127..=-2 => t.some("rot_direction", -1),
                -1..=1 => t.some("rot_direction", 0),
                _ => t.some("rot_direction", 1),
            };
            let s = r.edgy(0, 1023, &[0, 1, 1022, 1023]);
            b.u(s as u64, 10);
            t.f("sog_knots", sog(s));
            let acc = r.chance(1, 2);
            b.b(acc);
            t.s("high_position_accuracy", acc);
            let (lo, la) = (lon(r), lat(r));
            b.i(lo, 28).i(la, 27);
            t.f("longitude", deg(lo, 108_600_000)).f("latitude", deg(la, 54_600_000));
            let c = r.edgy(0, 3599, &[0, 1, 3599, 3600]);
            b.u(c as u64, 12);
            t.f("cog", cog(c));
            let h = r.edgy(0, 359, &[0, 1, 359, 511]);
            b.u(h as u64, 9);
            t.f("heading_true", if h == 511 { None } else { Some(h as f64) });
            let sec = r.edgy(0, 63, &[0, 59, 60, 61, 62, 63]);
            b.u(sec as u64, 6);
            t.s("timestamp_seconds", sec);
            match sec {
                60 => t.none("positioning_system_meta"),
                61 => t.some("positioning_system_meta", "ManualInputMode"),
                62 => t.some("positioning_system_meta", "DeadReckoningMode"),
                63 => t.some("positioning_system_meta", "Inoperative"),
                _ => t.some("positioning_system_meta", "Operative"),
            };
            let man = r.below(3);
            b.u(man, 2).u(0, 3);
            t.s("special_manoeuvre", ["None", "Some(false)", "Some(true)"][man as usize]);
            let raim = r.chance(1, 2);
            b.b(raim);
            t.s("raim_flag", raim);
            let radio = r.below(1 << 19);
            b.u(radio, 19);
            t.some("radio_status", radio);
            for k in ["class_b_unit_flag", "class_b_display", "class_b_dsc", "class_b_band_flag", "class_b_msg22_flag",
                "class_b_mode_flag", "class_b_css_flag"] {
                t.none(k);
            }
        }
        4 => {
            kind = "BaseStationReport";
            let na = r.chance(1, 4);
            let (y, m, d, h, mi, s) = if na {
                (0, 0, 0, 24, 60, 60)
            } else {
                let y = r.edgy(1970, 2100, &[2000, 2020, 2024, 2099]);
                let m = r.range(1, 12);
                let d = r.edgy(1, mdays(y, m), &[1, mdays(y, m)]);
                (y, m, d, r.edgy(0, 23, &[0, 23]), r.edgy(0, 59, &[0, 59]), r.edgy(0, 59, &[0, 59]))
            };
            // a single field not available, or a moment that doesn't exist
            let (na, (y, m, d, h, mi, s)) = if na || !r.chance(1, 7) {
                (na, (y, m, d, h, mi, s))
            } else {
                (true, match r.below(12) {
                    0 => (0, m, d, h, mi, s),
                    1 => (y, 0, d, h, mi, s),
                    2 => (y, m, 0, h, mi, s),
                    3 => (y, m, d, 24, mi, s),
                    4 => (y, m, d, h, 60, s),
                    5 => (y, m, d, h, mi, 60),
                    6 => (y, r.range(13, 15), d, h, mi, s),
                    7 => (y, 2, 30 + r.range(0, 1), h, mi, s),
                    8 => (y, r.pickc(&[4, 6, 9, 11]), 31, h, mi, s),
                    9 => (r.pickc(&[1999, 2001, 2023, 2025, 2100]), 2, 29, h, mi, s),
                    10 => (y, m, d, r.range(24, 31), mi, s),
                    _ => (y, m, d, h, r.range(60, 63), r.range(60, 63)),
                })
            };
            b.u(y as u64, 14).u(m as u64, 4).u(d as u64, 5).u(h as u64, 5).u(mi as u64, 6).u(s as u64, 6);
            if na {
                t.none("timestamp");
            } else {
                t.some("timestamp", rfc(y, m, d, h, mi, s));
            }
            let acc = r.chance(1, 2);
            b.b(acc);
            t.s("high_position_accuracy", acc);
            let (lo, la) = (lon(r), lat(r));
            b.i(lo, 28).i(la, 27);
            t.f("longitude", deg(lo, 108_600_000)).f("latitude", deg(la, 54_600_000));
            let e = r.below(9);
            b.u(e, 4).u(0, 10);
            if e == 0 {
                t.any("position_fix_type", &["None", "Some(Undefined)"]);
            } else {
                t.some("position_fix_type", EPFD[e as usize]);
            }
            let raim = r.chance(1, 2);
            b.b(raim);
            t.s("raim_flag", raim);
            let radio = r.below(1 << 19);
            b.u(radio, 19);
            t.s("radio_status", radio);
        }
        5 => {
            kind = "VesselStaticData";
            t.s("ais_type", "ClassA");
            let v = r.below(4);
            b.u(v, 2);
            t.s("ais_version_indicator", v);
            let imo = r.edgy(1, 999_999_999, &[0, 1, 9_074_729, 999_999_999]);
            b.u(imo as u64, 30);
            if imo == 0 { t.none("imo_number") } else { t.some("imo_number", imo) };
            let (cs, name, dest) = (text6(r, 7), text6(r, 20), text6(r, 20));
            b.text(&cs, 7).text(&name, 20);
            t.text("call_sign", &cs).text("name", &name).text("destination", &dest);
            let sc = if r.chance(1, 12) { r.edgy(100, 255, &[100, 127, 128, 199, 255]) } else { r.edgy(0, 99, &[0, 30, 37, 52, 70, 79, 80, 84, 89, 90, 99]) } as u64;
            b.u(sc, 8);
            t.s("ship_type", ship_type(sc)).s("cargo_type", cargo_type(sc));
            dims(r, &mut b, &mut t);
            let e = r.below(9);
            b.u(e, 4);
            if e == 0 {
                t.any("position_fix_type", &["None", "Some(Undefined)"]);
            } else {
                t.some("position_fix_type", EPFD[e as usize]);
            }
            let (m, d, h, mi) = eta(r, now);
            b.u(m as u64, 4).u(d as u64, 5).u(h as u64, 5).u(mi as u64, 6);
            t.0.push(("eta".into(), Val::Eta(m, d, h, mi)));
            let dr = r.edgy(0, 255, &[0, 1, 255]);
            b.u(dr as u64, 8);
            if dr == 0 { t.none("draught10") } else { t.some("draught10", dr) };
            b.text(&dest, 20).u(r.below(2), 1).u(0, 1);
            t.none("equipment_vendor_id").none("equipment_model").none("equipment_serial_number").none("mothership_mmsi");
        }
        6 => {
            kind = "BinaryAddressedMessage";
            let (seq, dst, rt, dac, fid) = (r.below(4), mm(r), r.chance(1, 2), r.below(1024), r.below(64));
            b.u(seq, 2).u(dst as u64, 30).b(rt).u(0, 1).u(dac, 10).u(fid, 6);
            t.s("sequence_number", seq).s("destination_mmsi", dst).s("retransmit_flag", rt).s("dac", dac).s("fid", fid);
            for _ in 0..r.below(60) {
                b.u(r.below(256), 8);
            }
        }
        9 => {
            kind = "StandardSarAircraftPositionReport";
            let alt = r.edgy(0, 4095, &[0, 4094, 4095]);
            b.u(alt as u64, 12);
            if alt == 4095 { t.none("altitude") } else { t.some("altitude", alt) };
            let s = r.edgy(0, 1023, &[0, 1, 1022, 1023]);
            b.u(s as u64, 10);
            if s == 1023 { t.none("sog_knots") } else { t.some("sog_knots", s) };
            let acc = r.chance(1, 2);
            b.b(acc);
            t.s("high_position_accuracy", acc);
            let (lo, la) = (lon(r), lat(r));
            b.i(lo, 28).i(la, 27);
            t.f("longitude", deg(lo, 108_600_000)).f("latitude", deg(la, 54_600_000));
            let c = r.edgy(0, 3599, &[0, 1, 3599, 3600]);
            b.u(c as u64, 12);
            t.f("cog", cog(c));
            let (sec, reg, dte, asg, raim, radio) =
                (r.below(64), r.below(256), r.chance(1, 2), r.chance(1, 2), r.chance(1, 2), r.below(1 << 20));
            b.u(sec, 6).u(reg, 8).b(dte).u(0, 3).b(asg).b(raim).u(radio, 20);
            t.s("timestamp_seconds", sec).s("regional", reg).s("dte", !dte).s("assigned", asg).s("raim_flag", raim)
                .s("radio_status", radio);
        }
        10 => {
            kind = "UtcDateInquiry";
            let dst = mm(r);
            b.u(0, 2).u(dst as u64, 30).u(0, 2);
            t.0.clear();
            t.s("source_mmsi", mmsi).s("destination_mmsi", dst);
        }
        18 => {
            kind = "VesselDynamicData";
            t.s("ais_type", "ClassB").s("nav_status", "NotDefined").none("rot").none("rot_direction")
                .none("special_manoeuvre").none("current_gnss_position");
            b.u(r.below(256), 8);
            let s = r.edgy(0, 1023, &[0, 1, 1022, 1023]);
            b.u(s as u64, 10);
            t.f("sog_knots", sog(s));
            let acc = r.chance(1, 2);
            b.b(acc);
            t.s("high_position_accuracy", acc);
            let (lo, la) = (lon(r), lat(r));
            b.i(lo, 28).i(la, 27);
            t.f("longitude", deg(lo, 108_600_000)).f("latitude", deg(la, 54_600_000));
            let c = r.edgy(0, 3599, &[0, 1, 3599, 3600]);
            b.u(c as u64, 12);
            t.f("cog", cog(c));
            let h = r.edgy(0, 359, &[0, 1, 359, 511]);
            b.u(h as u64, 9);
            t.f("heading_true", if h == 511 { None } else { Some(h as f64) });
            let sec = r.below(64);
            b.u(sec, 6).u(0, 2);
            t.s("timestamp_seconds", sec);
            let unit = r.chance(1, 2);
            b.b(unit);
            for k in ["class_b_display", "class_b_dsc", "class_b_band_flag", "class_b_msg22_flag", "class_b_mode_flag"] {
                let v = r.chance(1, 2);
                b.b(v);
                t.some(k, v);
            }
            let raim = r.chance(1, 2);
            b.b(raim).b(r.chance(1, 2));
            t.s("raim_flag", raim);
            let radio = r.below(1 << 19);
            b.u(radio, 19);
            t.some("radio_status", radio);
        }
        21 => {
            kind = "AidToNavigationReport";
            let aid = r.below(32);
            b.u(aid, 5);
            t.s("aid_type", AIDS[aid as usize]);
            let mut base = text6(r, 20);
            let mut ext = String::new();
            if r.chance(1, 3) {
                while base.len() < 20 {
                    base.push((b'A' + r.below(26) as u8) as char);
                }
                ext = text6(r, 14);
            }
            b.text(&base, 20);
            t.s("name", format!("{:?}", format!("{}{}", base, ext)));
            let acc = r.chance(1, 2);
            b.b(acc);
            t.s("high_position_accuracy", acc);
            let (lo, la) = (lon(r), lat(r));
            b.i(lo, 28).i(la, 27);
            t.f("longitude", deg(lo, 108_600_000)).f("latitude", deg(la, 54_600_000));
            dims(r, &mut b, &mut t);
            let e = r.below(9);
            b.u(e, 4);
            if e == 0 {
                t.any("position_fix_type", &["None", "Some(Undefined)"]);
            } else {
                t.some("position_fix_type", EPFD[e as usize]);
            }
            let (sec, off, reg) = (r.below(64), r.chance(1, 2), r.below(256));
            b.u(sec, 6).b(off).u(reg, 8);
            let (raim, virt, asg) = (r.chance(1, 2), r.chance(1, 2), r.chance(1, 2));
            b.b(raim).b(virt).b(asg).u(0, 1);
            t.s("timestamp_seconds", sec).s("off_position_indicator", off).s("regional", reg).s("raim_flag", raim)
                .s("virtual_aid_flag", virt).s("assigned_mode_flag", asg);
            if !ext.is_empty() {
                b.text(&ext, ext.len());
                while b.0.len() % 8 != 0 {
                    b.b(false);
                }
            }
        }
        27 => {
            kind = "VesselDynamicData";
            t.s("ais_type", "ClassA");
            let (acc, raim, nav) = (r.chance(1, 2), r.chance(1, 2), r.below(16));
            let lo = r.edgy(-108_000, 108_000, &[0, 1, -1, 108_600]);
            let la = r.edgy(-54_000, 54_000, &[0, 1, -1, 54_600]);
            let (s, c, g) = (r.edgy(0, 62, &[0, 62, 63]), r.edgy(0, 359, &[0, 359, 511]), r.chance(1, 2));
            b.b(acc).b(raim).u(nav, 4).i(lo, 18).i(la, 17).u(s as u64, 6).u(c as u64, 9).b(g).u(0, 1);
            t.s("high_position_accuracy", acc).s("raim_flag", raim).s("nav_status", NAV[nav as usize]);
            t.f("longitude", if lo == 108_600 { None } else { Some(lo as f64 / 600.0) });
            t.f("latitude", if la == 54_600 { None } else { Some(la as f64 / 600.0) });
            t.f("sog_knots", if s == 63 { None } else { Some(s as f64) });
            t.f("cog", if c == 511 { None } else { Some(c as f64) });
            t.some("current_gnss_position", !g);
            // what the listed finding about type 27 makes of these bits
            let (kla, klo) = (signed(&b.0, 44, 18), signed(&b.0, 62, 17));
            t.f("kf.latitude", if kla == 181_000 { None } else { Some(kla as f64 / 600.0) });
            t.f("kf.longitude", if klo == 181_000 { None } else { Some(klo as f64 / 600.0) });
            let ks = bits_at(&b.0, 62, 6);
            t.f("kf.sog_knots", if ks == 63 { None } else { Some(ks as f64) });
            let kc = bits_at(&b.0, 62, 17);
            t.f("kf.cog", if kc == 91_000 { None } else { Some(kc as f64 * 0.1) });
            t.some("kf.current_gnss_position", bits_at(&b.0, 62, 1) == 0);
            t.none("rot").none("rot_direction").none("heading_true").none("special_manoeuvre").none("radio_status");
        }
        240 => {
            kind = "A";
            t.s("ais_type", "ClassB");
            let name = text6(r, 20);
            b.u(0, 2).text(&name, 20);
            // most units send another octet, which is not used
            if r.chance(2, 3) {
                b.u(if r.chance(1, 3) { r.below(256) } else { 0 }, 8);
            }
            t.text("name", &name);
        }
        241 => {
            kind = "B";
            t.s("ais_type", "ClassB");
            b.u(1, 2);
            let sc = if r.chance(1, 12) { r.edgy(100, 255, &[100, 127, 128, 199, 255]) } else { r.edgy(0, 99, &[0, 30, 37, 52, 70, 79, 80, 84, 89, 90, 99]) } as u64;
            b.u(sc, 8);
            t.s("ship_type", ship_type(sc)).s("cargo_type", cargo_type(sc));
            let vendor = text6(r, 3);
            let (model, serial, cs) = (r.below(16), r.below(1 << 20), text6(r, 7));
            b.text(&vendor, 3).u(model, 4).u(serial, 20).text(&cs, 7);
            if vendor.is_empty() {
                t.any("equipment_vendor_id", &["None", "Some(\"\")"]);
            } else {
                t.text("equipment_vendor_id", &vendor);
            }
            t.some("equipment_model", model).some("equipment_serial_number", serial).text("call_sign", &cs);
            if mmsi / 10_000_000 == 98 {
                let mother = mm(r);
                b.u(mother as u64, 30);
                t.some("mothership_mmsi", mother);
                t.none("dimension_to_bow").none("dimension_to_stern").none("dimension_to_port").none("dimension_to_starboard");
            } else {
                dims(r, &mut b, &mut t);
                t.none("mothership_mmsi");
            }
            b.u(0, 6);
            t.none("imo_number").none("eta").none("draught10").none("destination");
        }
        _ => {
            kind = "";
            for _ in 0..r.below(60) + 10 {
                b.u(r.below(64), 6);
            }
        }
    }
    AisMsg { ty, bits: b, kind, t }
}

fn signed(b: &[bool], i: usize, n: usize) -> i64 {
    let v = bits_at(b, i, n) as i64;
    if v >> (n - 1) != 0 { v - (1 << n) } else { v }
}

fn mm(r: &mut Rng) -> u32 {
    mmsi(r)
}

fn dims(r: &mut Rng, b: &mut Bits, t: &mut T) {
    for (k, n) in [("bow", 9), ("stern", 9), ("port", 6), ("starboard", 6)] {
        let v = r.edgy(0, (1 << n) - 1, &[0, 1, (1 << n) - 1]);
        b.u(v as u64, n);
        let k = format!("dimension_to_{}", k);
        if v == 0 {
            t.any(&k, &["Some(0)", "None"]);
        } else {
            t.some(&k, v);
        }
    }
}

/// Truth of an AIS message as received from a talker; type 24 halves keep kind A/B.
pub fn ais_truth(m: &AisMsg, talker: &str, own: bool) -> Truth {
    let mut f = m.t.0.clone();
    f.push(("own_vessel".into(), Val::S(vec![own.to_string()])));
    if m.ty != 5 && m.ty < 240 {
        f.push(("station".into(), Val::S(vec![station_of(talker).into()])));
    }
    Truth { kind: m.kind.to_string(), f }
}

// ------------------------------------------------------------------------------------------------

fn latlon_fields(r: &mut Rng, t: &mut T) -> String {
    if r.chance(1, 6) {
        t.none("latitude").none("longitude");
        return ",,,".into();
    }
    let dec = r.range(1, 8) as usize;
    let p = 10i64.pow(dec as u32);
    let la = r.edgy(0, 89, &[0, 89, 60, 90]);
    let lam = if la == 90 { 0 } else { r.edgy(0, 60 * p - 1, &[0, 60 * p - 1, 1]) };
    let lo = r.edgy(0, 179, &[0, 179, 9, 99, 100, 180]);
    let lom = if lo == 180 { 0 } else { r.edgy(0, 60 * p - 1, &[0, 60 * p - 1, 1]) };
    let (ns, ew) = (r.chance(1, 2), r.chance(1, 2));
    let mut lav = la as f64 + lam as f64 / p as f64 / 60.0;
    let mut lov = lo as f64 + lom as f64 / p as f64 / 60.0;
    if ns {
        lav = -lav;
    }
    if ew {
        lov = -lov;
    }
    t.f("latitude", Some(lav)).f("longitude", Some(lov));
    format!("{:02}{:02}.{:0w$},{},{:03}{:02}.{:0w$},{}", la, lam / p, lam % p, if ns { "S" } else { "N" }, lo, lom / p,
        lom % p, if ew { "W" } else { "E" }, w = dec)
}

pub fn tod(r: &mut Rng) -> (u32, u32, u32) {
    (r.edgy(0, 23, &[0, 23]) as u32, r.edgy(0, 59, &[0, 59]) as u32, r.edgy(0, 59, &[0, 59]) as u32)
}

fn frac(r: &mut Rng) -> &'static str {
    r.pickc(&["", "", "", ".00", ".00", ".000", ".5", ".50", ".99", ".999", ".9", ".999999"])
}

/// Decimal number field: text and value; sometimes empty.
fn num(r: &mut Rng, lo: i64, hi: i64, dec: u32, neg: bool) -> (String, Option<f64>) {
    if r.chance(1, 6) {
        return (String::new(), None);
    }
    let d = r.below(dec as u64 + 1) as u32;
    let p = 10i64.pow(d);
    let v = r.edgy(lo * p, hi * p, &[lo * p, hi * p]);
    let v = if neg && r.chance(1, 3) { -v } else { v };
    let s = if d == 0 {
        format!("{}", v)
    } else {
        format!("{}{}.{:0w$}", if v < 0 { "-" } else { "" }, v.abs() / p, v.abs() % p, w = d as usize)
    };
    (s, Some(v as f64 / p as f64))
}
fn int(r: &mut Rng, lo: i64, hi: i64, w: usize) -> (String, String) {
    if r.chance(1, 6) {
        return (String::new(), "None".into());
    }
    let v = r.edgy(lo, hi, &[lo, hi]);
    (format!("{:0w$}", v, w = w), format!("Some({})", v))
}

pub const GNSS_KINDS: [&str; 5] = ["GGA", "GLL", "RMC", "GSA", "VTG"];

/// Body (no checksum) and truth of a self-contained GNSS sentence.
pub fn gnss(r: &mut Rng, kind: &str, talker: &str) -> (String, Truth) {
    let mut t = T(vec![]);
    t.s("source", system_of(talker));
    let mut f: Vec<String> = vec![format!("${}{}", talker, kind)];
    let variant;
    match kind {
        "GGA" => {
            variant = "Gga";
            time_field(r, &mut f, &mut t);
            f.push(latlon_fields(r, &mut t));
            let q = r.below(9);
            f.push(q.to_string());
            t.s("quality", ["Invalid", "GpsFix", "DGpsFix", "PpsFix", "RealTimeKinematic", "RealTimeKinematicFloat",
                "DeadReckoning", "ManualInputMode", "SimulationMode"][q as usize]);
            let (a, b) = int(r, 0, 99, 2);
            f.push(a);
            t.s("satellite_count", b);
            let (a, b) = num(r, 0, 99, 2, false);
            f.push(a);
            t.f("hdop", b);
            let top = r.pickc(&[100, 9000, 9000, 100_000]);
            let (a, b) = num(r, 0, top, 1, true);
            f.push(a);
            f.push("M".into());
            t.f("altitude", b);
            let (a, b) = num(r, 0, 110, 1, true);
            f.push(a);
            f.push("M".into());
            t.f("geoid_separation", b);
            let (a, b) = num(r, 0, 999, 1, false);
            f.push(a);
            t.f("age_of_dgps", b);
            let (a, b) = int(r, 0, 4095, 4);
            f.push(a);
            t.s("ref_station_id", b);
        }
        "GLL" => {
            variant = "Gll";
            f.push(latlon_fields(r, &mut t));
            time_field(r, &mut f, &mut t);
            let (a, b) = r.pickc(&[("A", "Some(true)"), ("V", "Some(false)")]);
            f.push(a.into());
            t.s("data_valid", b);
            faa(r, &mut f, &mut t);
        }
        "RMC" => {
            variant = "Rmc";
            let dated = !r.chance(1, 6);
            let (h, mi, s) = tod(r);
            let y = r.edgy(0, 99, &[0, 99, 20, 24]);
            let m = r.range(1, 12);
            // a day that exists in every century's year y, or 29 February of a leap year of most centuries
            let d = if y % 4 == 0 && y != 0 && m == 2 { r.edgy(1, 29, &[29]) } else { r.range(1, mdays(2001, m)) };
            f.push(if dated { format!("{:02}{:02}{:02}{}", h, mi, s, frac(r)) } else { String::new() });
            let (a, b) = r.pickc(&[("A", "Some(true)"), ("V", "Some(false)"), ("", "None")]);
            f.push(a.into());
            t.s("status_active", b);
            f.push(latlon_fields(r, &mut t));
            let top = r.pickc(&[60, 60, 200, 2000]);
            let (a, b) = num(r, 0, top, 2, false);
            f.push(a);
            t.f("sog_knots", b);
            let (a, b) = num(r, 0, 359, 2, false);
            f.push(a);
            t.f("bearing", b);
            f.push(if dated { format!("{:02}{:02}{:02}", d, m, y) } else { String::new() });
            if dated {
                t.0.push(("timestamp".into(), Val::Dmy(d as u32, m as u32, y as u32, h, mi, s)));
            } else {
                t.none("timestamp");
            }
            let (a, b) = num(r, 0, 180, 1, false);
            let w = r.chance(1, 2);
            f.push(a.clone());
            f.push(if a.is_empty() { "" } else if w { "W" } else { "E" }.into());
            t.f("variation", b.map(|v| if w { -v } else { v }));
        }
        "GSA" => {
            variant = "Gsa";
            let (a, b) = r.pickc(&[("M", "Some(false)"), ("A", "Some(true)"), ("", "None")]);
            f.push(a.into());
            t.s("mode1_automatic", b);
            let (a, b) = r.pickc(&[("1", "Some(NotAvailable)"), ("2", "Some(Fix2D)"), ("3", "Some(Fix3D)"), ("", "None")]);
            f.push(a.into());
            t.s("mode2_3d", b);
            let mut prns = vec![];
            let holes = r.chance(1, 2);
            let n = r.below(13);
            for k in 0..12 {
                if (holes && r.chance(1, 3)) || k >= n {
                    f.push("".into());
                } else {
                    let p = r.edgy(1, 255, &[1, 32, 255]);
                    prns.push(p.to_string());
                    f.push(format!("{:02}", p));
                }
            }
            t.s("prn_numbers", format!("[{}]", prns.join(", ")));
            for k in ["pdop", "hdop", "vdop"] {
                let (a, b) = num(r, 0, 99, 2, false);
                f.push(a);
                t.f(k, b);
            }
        }
        _ => {
            variant = "Vtg";
            for (k, u) in [("cog_true", "T"), ("cog_magnetic", "M"), ("sog_knots", "N"), ("sog_kph", "K")] {
                let top = if u == "T" || u == "M" { 359 } else { r.pickc(&[60, 359, 4000]) };
                let (a, b) = num(r, 0, top, 2, false);
                f.push(a);
                f.push(u.into());
                t.f(k, b);
            }
            faa(r, &mut f, &mut t);
        }
    }
    (f.join(","), Truth { kind: variant.into(), f: t.0 })
}

fn time_field(r: &mut Rng, f: &mut Vec<String>, t: &mut T) {
    if r.chance(1, 8) {
        f.push(String::new());
        t.none("timestamp");
    } else {
        let (h, m, s) = tod(r);
        f.push(format!("{:02}{:02}{:02}{}", h, m, s, frac(r)));
        t.0.push(("timestamp".into(), Val::Tod(h, m, s)));
    }
}

fn faa(r: &mut Rng, f: &mut Vec<String>, t: &mut T) {
    let (a, b) = r.pickc(&[("A", "Some(Autonomous)"), ("D", "Some(Differential)"), ("E", "Some(Estimated)"),
        ("N", "Some(NotValid)"), ("S", "Some(Simulator)"), ("", "None")]);
    f.push(a.into());
    t.s("faa_mode", b);
}

/// Bodies and truths of a satellite group of n sentences; truth fields are `<k>.<field>`.
pub fn gsv_group(r: &mut Rng, talker: &str, n: u64) -> Vec<(String, Truth)> {
    let last = if r.chance(1, 2) { 4 } else { r.below(5) };
    let total = (n - 1) * 4 + last; // as announced; not reported
    let mut v = vec![];
    for i in 1..=n {
        let mut t = T(vec![]);
        let mut body = format!("${}GSV,{},{},{:02}", talker, n, i, total);
        let mut cnt = if i == n { last } else { 4 };
        // some receivers leave a place empty
        let hole = if cnt > 0 && r.chance(1, 12) { r.below(4) } else { 9 };
        if hole < cnt && cnt == 4 {
            cnt = 3;
        }
        for k in 0..cnt {
            if k == hole {
                body.push_str(",,,,");
            }
            let prn = r.edgy(1, 255, &[1, 32, 255]);
            let (a, av) = int(r, 0, 90, 2);
            let (b, bv) = int(r, 0, 359, 3);
            let (c, cv) = int(r, 0, 99, 2);
            body.push_str(&format!(",{:02},{},{},{}", prn, a, b, c));
            let p = |s: &str| format!("{}.{}", k, s);
            t.s(&p("source"), system_of(talker)).s(&p("prn_number"), prn).s(&p("elevation"), av).s(&p("azimuth"), bv)
                .s(&p("snr"), cv);
        }
        v.push((body, Truth { kind: format!("GSV{}", cnt), f: t.0 }));
    }
    v
}
