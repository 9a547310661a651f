//! Results against what was transmitted.

use crate::flat::*;
use crate::nmea::*;
use crate::trace::*;

/// Clock readings a call may have made: its first and a few more, one tick apart.
pub fn readings(s: &Step) -> Vec<i64> {
    if s.tick == 0 {
        vec![s.now]
    } else {
        (0..8).map(|k| s.now + k * s.tick).collect()
    }
}

fn time_of(n: &Node) -> Option<Option<String>> {
    match n {
        Node::Atom(a) if a == "None" => Some(None),
        Node::Tuple(o, v) if o == "Some" && v.len() == 1 => match &v[0] {
            Node::Atom(a) => Some(Some(a.clone())),
            _ => None,
        },
        _ => None,
    }
}

/// Renderings (to the minute) that are right for this ETA at this reading.
pub fn eta_expected(e: (u32, u32, u32, u32), now: i64) -> Vec<Option<String>> {
    let (mo, d, mut h, mut mi) = (e.0 as i64, e.1 as i64, e.2 as i64, e.3 as i64);
    if e == (0, 0, 24, 60) {
        return vec![None];
    }
    // a date without a time is the end of that day, an hour without a minute the end of that hour
    if h == 24 {
        h = 23;
        mi = 59;
    } else if mi == 60 {
        mi = 59;
    }
    let (y, ..) = civil(now.div_euclid(DAY_US));
    let show = |y: i64| rfc(y, mo, d, h, mi, 0)[..16].to_string();
    let mut v = vec![];
    for yy in [y, y + 1] {
        if !valid(yy, mo, d) {
            continue;
        }
        let at = us(yy, mo, d, h, mi, 0);
        if at >= now {
            v.push(Some(show(yy)));
            return v;
        }
        if at + 60_000_000 > now {
            // within the current minute: either
            v.push(Some(show(yy)));
        }
    }
    v.push(None);
    v
}

pub fn tod_expected(t: (u32, u32, u32), now: i64) -> String {
    let (y, m, d) = civil(now.div_euclid(DAY_US));
    rfc(y, m, d, t.0 as i64, t.1 as i64, t.2 as i64)
}

pub fn dmy_expected(t: (u32, u32, u32, u32, u32, u32), now: i64) -> Option<String> {
    let (y, ..) = civil(now.div_euclid(DAY_US));
    let yy = y / 100 * 100 + t.2 as i64;
    if !valid(yy, t.1 as i64, t.0 as i64) {
        return None;
    }
    Some(rfc(yy, t.1 as i64, t.0 as i64, t.3 as i64, t.4 as i64, t.5 as i64))
}

/// None = equal; otherwise what was expected.
fn val_differs(v: &Val, n: &Node, s: &Step) -> Option<String> {
    match v {
        Val::S(a) => {
            let g = show(n);
            if a.iter().any(|x| *x == g) { None } else { Some(a.join(" or ")) }
        }
        Val::F(f) => match number(n) {
            Some(g) if (g - f).abs() <= 1e-9 + 1e-9 * f.abs() => None,
            _ => Some(format!("{}", f)),
        },
        Val::Eta(a, b, c, d) => {
            let got = time_of(n)?.map(|t| t.chars().take(16).collect::<String>());
            let mut all = vec![];
            for r in readings(s) {
                let e = eta_expected((*a, *b, *c, *d), r);
                if e.contains(&got) {
                    return None;
                }
                all.extend(e);
            }
            all.dedup();
            Some(format!("{:?} (transmitted {:02}-{:02} {:02}:{:02})", all, a, b, c, d))
        }
        Val::Tod(a, b, c) => {
            let got = time_of(n)?;
            let mut e: Vec<String> = readings(s).into_iter().map(|r| tod_expected((*a, *b, *c), r)).collect();
            if let Some(g) = &got {
                if e.contains(g) {
                    return None;
                }
            }
            e.dedup();
            Some(e.join(" or "))
        }
        Val::Dmy(a, b, c, d, e, f) => {
            let got = time_of(n)?;
            let mut x: Vec<Option<String>> =
                readings(s).into_iter().map(|r| dmy_expected((*a, *b, *c, *d, *e, *f), r)).collect();
            if x.contains(&got) {
                return None;
            }
            x.dedup();
            Some(format!("{:?}", x))
        }
    }
}

fn field<'a>(item: &'a [(String, Node)], k: &str) -> Option<&'a Node> {
    item.iter().find(|(a, _)| a == k).map(|(_, n)| n)
}

/// Compares one result with one truth; `only` restricts the fields looked at.
pub fn check(t: &Truth, dbg: &str, s: &Step, only: Option<&[&str]>) -> Result<(), String> {
    if t.kind == "Nothing" {
        // no message the crate reports, or none at all, was transmitted
        return if dbg.starts_with("Ok(") { Err(format!("data returned where no such message was transmitted: {}", dbg)) } else { Ok(()) };
    }
    let fl = match flatten(dbg) {
        Some(f) => f,
        None => return Err(format!("no data returned but {}; transmitted a {}", dbg, t.kind)),
    };
    let want = match t.kind.as_str() {
        "A" | "B" => "VesselStaticData",
        k => k,
    };
    if fl.kind != want || fl.items.len() != 1 {
        return Err(format!("returned a {} where a {} was transmitted: {}", fl.kind, want, dbg));
    }
    for (k, v) in &t.f {
        if only.map(|o| !o.contains(&k.as_str())).unwrap_or(false) {
            continue;
        }
        match field(&fl.items[0], k) {
            // a field the result type does not have (renamed or dropped): nothing is reported
            None => continue,
            Some(n) => {
                if let Some(e) = val_differs(v, n, s) {
                    return Err(format!("{}.{} is {}, transmitted {}", fl.kind, k, show(n), e));
                }
            }
        }
    }
    Ok(())
}

/// Part A's name, part B's remaining fields; own_vessel may be either's.
pub fn check_pair(a: &Truth, b: &Truth, dbg: &str, s: &Step) -> Result<(), String> {
    let mut f: Vec<(String, Val)> = vec![];
    for (k, v) in &a.f {
        if k == "name" || k == "mmsi" {
            f.push((k.clone(), v.clone()));
        }
    }
    for (k, v) in &b.f {
        if k == "own_vessel" {
            let mut o = vec![];
            for t in [a, b] {
                for (k2, v2) in &t.f {
                    if let ("own_vessel", Val::S(x)) = (k2.as_str(), v2) {
                        o.extend(x.clone());
                    }
                }
            }
            f.push((k.clone(), Val::S(o)));
        } else if k != "name" {
            f.push((k.clone(), v.clone()));
        }
    }
    check(&Truth { kind: "VesselStaticData".into(), f }, dbg, s, None)
}

/// Satellites of sentences 1..n in order.
pub fn check_group(ts: &[&Truth], dbg: &str, s: &Step) -> Result<(), String> {
    let fl = match flatten(dbg) {
        Some(f) => f,
        None => return Err(format!("the complete satellite group was not returned but {}", dbg)),
    };
    if fl.kind != "Gsv" || !fl.list {
        return Err(format!("returned a {} where a satellite group was transmitted", fl.kind));
    }
    let mut k = 0;
    for (i, t) in ts.iter().enumerate() {
        let n: usize = t.kind.strip_prefix("GSV").and_then(|x| x.parse().ok()).unwrap_or(0);
        for j in 0..n {
            let item = match fl.items.get(k) {
                Some(x) => x,
                None => return Err(format!("{} satellites returned, sentence {} satellite {} is missing", fl.items.len(), i + 1, j + 1)),
            };
            let p = format!("{}.", j);
            for (key, v) in t.f.iter().filter(|(key, _)| key.starts_with(&p)) {
                if let Some(node) = field(item, &key[p.len()..]) {
                    if let Some(e) = val_differs(v, node, s) {
                        return Err(format!("satellite {} of the group: {} is {}, transmitted {} (sentence {})", k + 1,
                            &key[p.len()..], show(node), e, i + 1));
                    }
                }
            }
            k += 1;
        }
    }
    if fl.items.len() != k {
        return Err(format!("{} satellites returned, {} transmitted", fl.items.len(), k));
    }
    Ok(())
}
