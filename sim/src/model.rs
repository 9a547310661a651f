//! Reference model of reassembly: what is pending and what each sentence completes. Knows nothing
//! of how the crate stores things.

use crate::nmea::*;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
    /// Checksum mismatch.
    Corrupted,
    Incomplete,
    /// Complete in itself, or not for the model to judge: what a new parser says about this text.
    Alone,
    /// AIS message completed by this part: the same payload as one sentence. (first part's step, second's)
    Joined { single: String, first: usize, second: usize },
    /// Steps of sentences 1..=n.
    Group(Vec<usize>),
    /// Step (and single-sentence text) of part A and of part B. `ca`, `cb`: contributing steps.
    Pair { a: String, b: String, ca: Vec<usize>, cb: Vec<usize>, last_is_b: bool },
}

#[derive(Clone, Debug)]
struct Half {
    b: bool,
    text: String,
    steps: Vec<usize>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ident {
    Ais(String, u64, String),
    Gsv(String, u64),
    T24(u64),
}

#[derive(Default, Clone)]
pub struct Model {
    ais: HashMap<(String, u64, String), (u64, String, usize)>, // number, payload, step
    gsv: HashMap<(String, u64), BTreeMap<u64, usize>>,
    t24: HashMap<u64, Half>,
    pub bytes: u64,
    pub peak: usize,
    pub peak_bytes: u64,
}

/// MMSI and part (false = A, true = B) of a type 24 payload.
pub fn t24_of(payload: &str) -> Option<(u64, u64)> {
    if !valid_armor(payload) {
        return None;
    }
    let b = unarmor(payload);
    if bits_at(&b, 0, 6) == 24 {
        Some((bits_at(&b, 8, 30), bits_at(&b, 38, 2)))
    } else {
        None
    }
}

/// A sentence complete in itself or part of a two-part message?
pub fn ident(text: &str) -> Option<Ident> {
    match syntax(text) {
        Syn::Vdm { ty, count: 2, num, id: Some(id), ch, .. } if num == 1 || num == 2 => Some(Ident::Ais(ty, id, ch)),
        Syn::Vdm { count: 1, payload, .. } => t24_of(&payload).filter(|p| p.1 < 2).map(|p| Ident::T24(p.0)),
        Syn::Gsv { ty, count, .. } => Some(Ident::Gsv(ty, count)),
        _ => None,
    }
}

impl Model {
    pub fn new() -> Model {
        Model::default()
    }
    pub fn pending(&self) -> usize {
        self.ais.len() + self.t24.len() + self.gsv.values().map(|g| g.len()).sum::<usize>()
    }
    /// Step of the AIS part waiting under this identity, and its number.
    pub fn waiting_ais(&self, k: &Ident) -> Option<(u64, usize)> {
        match k {
            Ident::Ais(a, b, c) => self.ais.get(&(a.clone(), *b, c.clone())).map(|x| (x.0, x.2)),
            _ => None,
        }
    }
    pub fn waiting_gsv(&self, k: &Ident) -> Vec<(u64, usize)> {
        match k {
            Ident::Gsv(a, b) => self.gsv.get(&(a.clone(), *b))
                .map(|g| g.iter().map(|(k, v)| (*k, *v)).collect()).unwrap_or_default(),
            _ => vec![],
        }
    }
    pub fn waiting_t24(&self, mmsi: u64) -> Option<(bool, Vec<usize>)> {
        self.t24.get(&mmsi).map(|h| (h.b, h.steps.clone()))
    }

    pub fn t24_keys(&self) -> std::collections::HashSet<u64> {
        self.t24.keys().cloned().collect()
    }

    pub fn feed(&mut self, i: usize, text: &str) -> Expect {
        if !cs_ok(text) {
            return Expect::Corrupted;
        }
        let e = match syntax(text) {
            Syn::Vdm { ty, count: 2, num, id: Some(id), ch, payload } if num == 1 || num == 2 => {
                let key = (ty.clone(), id, ch.clone());
                match self.ais.get(&key) {
                    Some((n, ..)) if *n != num => {
                        let (_, other, j) = self.ais.remove(&key).unwrap();
                        self.bytes -= other.len() as u64;
                        let (first, second, p) = if num == 1 {
                            (i, j, format!("{}{}", payload, other))
                        } else {
                            (j, i, format!("{}{}", other, payload))
                        };
                        let single = format!("{},1,1,{},{},{},0", ty, id, ch, p);
                        match t24_of(&p) {
                            Some((mmsi, part)) if part < 2 => self.half(mmsi, part == 1, single, vec![first, second]),
                            _ => Expect::Joined { single, first, second },
                        }
                    }
                    _ => {
                        self.bytes += payload.len() as u64;
                        if let Some(old) = self.ais.insert(key, (num, payload, i)) {
                            self.bytes -= old.1.len() as u64;
                        }
                        Expect::Incomplete
                    }
                }
            }
            Syn::Vdm { count: 1, ref payload, .. } => match t24_of(payload) {
                Some((mmsi, part)) if part < 2 => {
                    let (body, _) = split_cs(text);
                    self.half(mmsi, part == 1, body.to_string(), vec![i])
                }
                _ => Expect::Alone,
            },
            Syn::Gsv { ty, count, num } => {
                let key = (ty, count);
                let g = self.gsv.entry(key.clone()).or_default();
                g.insert(num, i);
                if g.len() as u64 == count {
                    let g = self.gsv.remove(&key).unwrap();
                    Expect::Group(g.into_values().collect())
                } else {
                    Expect::Incomplete
                }
            }
            _ => Expect::Alone,
        };
        self.peak = self.peak.max(self.pending());
        self.peak_bytes = self.peak_bytes.max(self.bytes);
        e
    }

    fn half(&mut self, mmsi: u64, b: bool, text: String, steps: Vec<usize>) -> Expect {
        match self.t24.get(&mmsi) {
            Some(h) if h.b != b => {
                let h = self.t24.remove(&mmsi).unwrap();
                if b {
                    Expect::Pair { a: h.text, b: text, ca: h.steps, cb: steps, last_is_b: true }
                } else {
                    Expect::Pair { a: text, b: h.text, ca: steps, cb: h.steps, last_is_b: false }
                }
            }
            _ => {
                self.t24.insert(mmsi, Half { b, text, steps });
                Expect::Incomplete
            }
        }
    }
}
