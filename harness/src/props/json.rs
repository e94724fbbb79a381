//! C12, C13: OMM objects and serialization.

use super::build::{any_els, propagate};
use super::time::{date_in, Date};
use crate::calendar;
use crate::engine::*;
use crate::numeric::*;
use crate::tleref;
use crate::{fail, gens};
use serde::{Deserialize, Serialize};

pub const FLOAT_KEYS: [&str; 9] = [
    "MEAN_MOTION", "ECCENTRICITY", "INCLINATION", "RA_OF_ASC_NODE", "ARG_OF_PERICENTER", "MEAN_ANOMALY", "BSTAR",
    "MEAN_MOTION_DOT", "MEAN_MOTION_DDOT",
];
pub const INT_KEYS: [&str; 4] = ["NORAD_CAT_ID", "ELEMENT_SET_NO", "REV_AT_EPOCH", "EPHEMERIS_TYPE"];

/// decimal text and whether it is quoted
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Num(pub String, pub bool);

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Opt {
    Absent,
    Null,
    Text(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Break {
    /// drop a required key
    Missing(usize),
    /// replace the value of a required key with this JSON text
    Replace(usize, String),
    /// name or designator of a wrong type
    Optional(usize, String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Omm {
    pub floats: Vec<Num>,
    pub ints: Vec<Num>,
    pub name: Opt,
    pub desig: Opt,
    pub class: char,
    pub date: Date,
    /// digits of the fraction of a second written
    pub digits: usize,
    pub unknown: Vec<(String, String)>,
    /// permutation of keys
    pub order: Vec<u64>,
    pub pretty: bool,
    /// write the first character of quoted numbers and of the class and epoch as an escape
    #[serde(default)]
    pub escaped: bool,
    pub broken: Option<Break>,
}

/// required keys in a fixed order
fn required() -> Vec<&'static str> {
    FLOAT_KEYS.iter().chain(INT_KEYS.iter()).copied().chain(["CLASSIFICATION_TYPE", "EPOCH"]).collect()
}

impl Omm {
    pub fn epoch_text(&self) -> String {
        let d = &self.date;
        let mut t = format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}", d.0, d.1, d.2, d.3 / 3600, d.3 / 60 % 60, d.3 % 60);
        if self.digits > 0 {
            t += &format!(".{:09}", d.4)[..1 + self.digits];
        }
        t
    }
    pub fn epoch_ns(&self) -> i128 {
        let keep = if self.digits == 0 { 0 } else {
            let p = 10u32.pow(9 - self.digits as u32);
            self.date.4 / p * p
        };
        Date(self.date.0, self.date.1, self.date.2, self.date.3, keep).ns()
    }
    pub fn text(&self) -> String {
        let string = |t: &str| match t.chars().next() {
            Some(c) if self.escaped && c.is_ascii() => format!("\"\\u{:04x}{}\"", c as u32, &t[1..]),
            _ => format!("\"{t}\""),
        };
        let quote = |n: &Num| if n.1 { string(&n.0) } else { n.0.clone() };
        let mut entries: Vec<(String, String)> = vec![];
        for (i, k) in FLOAT_KEYS.iter().enumerate() {
            entries.push((k.to_string(), quote(&self.floats[i])));
        }
        for (i, k) in INT_KEYS.iter().enumerate() {
            entries.push((k.to_string(), quote(&self.ints[i])));
        }
        entries.push(("CLASSIFICATION_TYPE".into(), string(&self.class.to_string())));
        entries.push(("EPOCH".into(), string(&self.epoch_text())));
        match &self.broken {
            Some(Break::Missing(i)) => {
                let k = required()[*i % 15];
                entries.retain(|e| e.0 != k);
            }
            Some(Break::Replace(i, t)) => {
                let k = required()[*i % 15];
                for e in entries.iter_mut().filter(|e| e.0 == k) {
                    e.1 = t.clone();
                }
            }
            _ => {}
        }
        for (j, (k, o)) in [("OBJECT_NAME", &self.name), ("OBJECT_ID", &self.desig)].into_iter().enumerate() {
            if let Some(Break::Optional(i, t)) = &self.broken {
                if *i == j {
                    entries.push((k.into(), t.clone()));
                    continue;
                }
            }
            match o {
                Opt::Absent => {}
                Opt::Null => entries.push((k.into(), "null".into())),
                Opt::Text(t) => entries.push((k.into(), serde_json::to_string(t).unwrap())),
            }
        }
        for (k, v) in &self.unknown {
            entries.push((k.clone(), v.clone()));
        }
        for i in (1..entries.len()).rev() {
            let j = self.order.get(i).copied().unwrap_or(0) as usize % (i + 1);
            entries.swap(i, j);
        }
        let (sep, colon) = if self.pretty { (",\n    ", " : ") } else { (",", ":") };
        let body: Vec<String> = entries.iter().map(|(k, v)| format!("\"{k}\"{colon}{v}")).collect();
        format!("{{{}}}", body.join(sep))
    }
}

fn float_text(s: &mut Src) -> String {
    let sign = if s.chance(1, 3) { "-" } else { "" };
    match s.weighted(&[5, 2, 2, 2, 1]) {
        0 => {
            let d = 1 + s.below(10);
            let p = 10u64.pow(d as u32);
            format!("{sign}{}.{:0d$}", s.draw(400), s.draw(p))
        }
        1 => format!("{sign}{}", s.draw(1000)),
        2 => format!("{sign}{}.{}e{}", s.draw(10), s.draw(100_000), s.int(-12, 12)),
        3 => format!("{sign}{:?}", s.range(0.0, 360.0)),
        _ => format!("{sign}0.{:07}E-{}", s.draw(10_000_000), s.draw(30)),
    }
}

fn int_text(s: &mut Src, max: u64) -> String {
    let v = match s.weighted(&[5, 2, 1, 1]) {
        0 => s.draw(100_000.min(max)),
        1 => s.draw(max),
        2 => max,
        _ => 0,
    };
    v.to_string()
}

fn opt(s: &mut Src) -> Opt {
    match s.weighted(&[4, 1, 1]) {
        0 => Opt::Text(super::tle::title(s)),
        1 => Opt::Null,
        _ => Opt::Absent,
    }
}

/// JSON no numeric field can hold
const BAD_NUMBER: [&str; 15] = [
    "null", "true", "[]", "{}", "\"\"", "\"abc\"", "\"1.2.3\"", "\"--5\"", "[1]", "\"0x10\"", "\"nan\"", "\"inf\"",
    "\"1e999\"", "\"1,5\"", "false",
];
const BAD_INT: [&str; 8] = ["-1", "1.5", "\"-1\"", "\"1.5\"", "1e3", "18446744073709551616", "\"18446744073709551616\"", "25544.5"];
const BAD_SMALL: [&str; 8] = ["256", "\"256\"", "1000", "65536", "\"999\"", "257", "4294967296", "512"];
const BAD_CLASS: [&str; 7] = ["\"X\"", "\"u\"", "\"\"", "null", "1", "\"Unclassified\"", "[]"];
const BAD_EPOCH: [&str; 9] = [
    "\"2020-13-01T00:00:00\"", "\"2021-02-29T00:00:00\"", "\"\"", "null", "0", "\"2020-01-01T25:00:00\"",
    "\"yesterday\"", "\"2020-01-01T00:60:00\"", "\"20-01-01\"",
];
const BAD_TEXT: [&str; 4] = ["5", "[]", "{\"a\":1}", "true"];

pub fn omm(s: &mut Src) -> Omm {
    let num = |s: &mut Src, t: String| Num(t, s.chance(1, 2));
    let floats = (0..9)
        .map(|_| {
            let t = float_text(s);
            // forms only a string can have
            match s.weighted(&[12, 1, 1]) {
                1 if !t.starts_with('-') => Num(format!("+{t}"), true),
                2 => Num(format!("{}.{:06}", s.pick(&["", "-"]), s.draw(1_000_000)), true),
                _ => num(s, t),
            }
        })
        .collect();
    let ints = (0..4)
        .map(|i| {
            let t = int_text(s, if i == 3 { 255 } else { u64::MAX });
            num(s, t)
        })
        .collect();
    let unknown = (0..s.below(4))
        .map(|i| {
            let k = s.pick(&["CCSDS_OMM_VERS", "COMMENT", "CENTER_NAME", "DECAY_DATE", "FILE", "TLE_LINE1", "PERIOD"]);
            let v = s.pick(&["\"2.0\"", "null", "5", "[1, {\"a\": null}]", "{\"EPOCH\": 1}", "-1.5e-3", "true"]);
            (format!("{k}{}", if i == 0 { String::new() } else { i.to_string() }), v.to_string())
        })
        .collect();
    let broken = if s.chance(1, 3) {
        Some(match s.weighted(&[2, 3, 3, 3, 1, 1, 1]) {
            0 => Break::Missing(s.below(15)),
            1 => Break::Replace(s.below(13), s.pick(&BAD_NUMBER).to_string()),
            2 if s.chance(1, 2) => Break::Replace(9 + s.below(4), s.pick(&BAD_INT).to_string()),
            2 => {
                let v = match s.below(5) {
                    0 => format!("-{}", 1 + s.draw(100_000)),
                    1 => format!("{}.5", s.draw(100_000)),
                    2 => format!("{}e{}", 1 + s.draw(9), 1 + s.draw(5)),
                    3 => format!("{}", u64::MAX as u128 + 1 + s.draw(u64::MAX) as u128),
                    _ => format!("{}.0", s.draw(100)),
                };
                Break::Replace(9 + s.below(4), if s.chance(1, 2) { format!("\"{v}\"") } else { v })
            }
            3 if s.chance(1, 2) => Break::Replace(12, s.pick(&BAD_SMALL).to_string()),
            3 => {
                let v = match s.below(3) {
                    0 => 256 + s.draw(1000),
                    1 => 256 * (1 + s.draw(1 << 40)) + s.draw(10),
                    _ => u64::MAX - s.draw(300),
                };
                Break::Replace(12, if s.chance(1, 2) { format!("\"{v}\"") } else { v.to_string() })
            }
            4 => Break::Replace(13, s.pick(&BAD_CLASS).to_string()),
            5 => Break::Replace(14, s.pick(&BAD_EPOCH).to_string()),
            _ => Break::Optional(s.below(2), s.pick(&BAD_TEXT).to_string()),
        })
    } else {
        None
    };
    Omm {
        floats,
        ints,
        name: opt(s),
        desig: opt(s),
        class: s.pick(&['U', 'C', 'S']),
        date: if s.chance(1, 5) { date_in(s, 1800, 2500) } else { date_in(s, 1957, 2056) },
        digits: s.pick(&[6usize, 0, 3, 9, 1, 2, 4, 5, 7, 8]),
        unknown,
        order: (0..24).map(|_| s.draw(24)).collect(),
        pretty: s.chance(1, 2),
        escaped: s.chance(1, 6),
        broken,
    }
}

pub struct C12;
impl Prop for C12 {
    type Case = Omm;
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "OMM JSON texts with every numeric field as number or string, keys permuted, unknown keys, optional fields absent or null; one third with exactly one fault (missing key, wrong type, number that does not fit); non-trivial: every case"
    }
    fn quick(&self) -> u64 {
        2_000_000
    }
    fn gen(&self, s: &mut Src) -> Omm {
        omm(s)
    }
    fn check(&self, c: &Omm) -> Verdict {
        let text = c.text();
        let got = serde_json::from_str::<sgp4::Elements>(&text);
        let as_value = serde_json::from_str::<serde_json::Value>(&text)
            .ok()
            .map(|v| serde_json::from_value::<sgp4::Elements>(v));
        if let Some(b) = &c.broken {
            if let Ok(e) = got {
                fail!("accepted in spite of {b:?}: {e:?}\n{text}");
            }
            return match b {
                Break::Missing(_) => pass("missing key"),
                Break::Replace(..) => pass("bad value"),
                Break::Optional(..) => pass("bad name or designator"),
            };
        }
        let e = match got {
            Ok(e) => e,
            Err(e) => fail!("valid OMM refused: {e}\n{text}"),
        };
        match serde_json::from_reader::<_, sgp4::Elements>(text.as_bytes()) {
            Ok(v) if format!("{v:?}") == format!("{e:?}") => {}
            x => fail!("from a reader: {x:?}, directly {e:?}"),
        }
        match as_value {
            Some(Ok(v)) if format!("{v:?}") == format!("{e:?}") => {}
            x => fail!("through a JSON value: {x:?}, directly {e:?}"),
        }
        let floats = [
            e.mean_motion, e.eccentricity, e.inclination, e.right_ascension, e.argument_of_perigee, e.mean_anomaly,
            e.drag_term, e.mean_motion_dot, e.mean_motion_ddot,
        ];
        for (i, got) in floats.iter().enumerate() {
            let want: f64 = c.floats[i].0.parse().unwrap();
            if !((got - want).abs() <= 4.0 * f64::EPSILON * want.abs()) {
                fail!("{}: {got:?}, written {:?}", FLOAT_KEYS[i], c.floats[i]);
            }
        }
        let ints = [e.norad_id, e.element_set_number, e.revolution_number, e.ephemeris_type as u64];
        for (i, got) in ints.iter().enumerate() {
            if c.ints[i].0.parse::<u64>().unwrap() != *got {
                fail!("{}: {got}, written {:?}", INT_KEYS[i], c.ints[i]);
            }
        }
        let class = match e.classification {
            sgp4::Classification::Unclassified => 'U',
            sgp4::Classification::Classified => 'C',
            sgp4::Classification::Secret => 'S',
        };
        if class != c.class {
            fail!("classification {class}, written {}", c.class);
        }
        if calendar::ns_of(&e.datetime) != c.epoch_ns() {
            fail!("epoch {:?}, written {}", e.datetime, c.epoch_text());
        }
        for (what, got, want) in
            [("name", &e.object_name, &c.name), ("designator", &e.international_designator, &c.desig)]
        {
            let want = match want {
                Opt::Text(t) => Some(t.clone()),
                _ => None,
            };
            if *got != want {
                fail!("{what} {got:?}, written {want:?}");
            }
        }
        // a list of objects
        match serde_json::from_str::<Vec<sgp4::Elements>>(&format!("[{text}, {text}]")) {
            Ok(v) if v.len() == 2 && v.iter().all(|x| format!("{x:?}") == format!("{e:?}")) => {}
            x => fail!("as a list: {x:?}"),
        }
        match (&c.name, &c.desig) {
            (Opt::Text(_), Opt::Text(_)) => pass("valid"),
            _ => pass("valid without name or designator"),
        }
    }
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case13 {
    Constants { sat: Sat, times: Vec<F>, afspc: bool },
    Elements { els: super::build::Els, name: Option<String>, desig: Option<String>, tle: Option<tleref::Tle> },
    Prediction(Vec<F>),
    Gravity(G),
    Orbit(Sat),
}

fn through_value<T: Serialize + serde::de::DeserializeOwned>(x: &T) -> Result<T, String> {
    let v = serde_json::to_value(x).map_err(|e| e.to_string())?;
    serde_json::from_value(v).map_err(|e| e.to_string())
}

fn through_text<T: Serialize + serde::de::DeserializeOwned>(x: &T) -> Result<T, String> {
    let v = serde_json::to_string(x).map_err(|e| e.to_string())?;
    serde_json::from_str(&v).map_err(|e| format!("{e}: {v}"))
}

/// compares debug texts, numbers with a tolerance (JSON text parsing may be an ulp off)
fn debug_close(a: &str, b: &str, tol: f64) -> bool {
    if a == b {
        return true;
    }
    let split = |s: &str| -> Vec<String> {
        let mut out: Vec<String> = vec![];
        let mut word = String::new();
        for c in s.chars() {
            if c.is_ascii_alphanumeric() || matches!(c, '.' | '-' | '+' | '_') {
                word.push(c);
            } else {
                out.push(std::mem::take(&mut word));
                out.push(c.to_string());
            }
        }
        out.push(word);
        out
    };
    let (x, y) = (split(a), split(b));
    x.len() == y.len()
        && x.iter().zip(&y).all(|(p, q)| {
            p == q
                || match (p.parse::<f64>(), q.parse::<f64>()) {
                    (Ok(u), Ok(v)) => (u - v).abs() <= tol * u.abs(),
                    _ => false,
                }
        })
}

pub struct C13;

impl C13 {
    fn same<T: Serialize + serde::de::DeserializeOwned + std::fmt::Debug>(&self, x: &T) -> Result<T, String> {
        let y = through_value(x)?;
        if format!("{x:?}") != format!("{y:?}") {
            return Err(format!("{x:?} comes back as {y:?}"));
        }
        let z = through_text(x)?;
        if !debug_close(&format!("{x:?}"), &format!("{z:?}"), 4.0 * f64::EPSILON) {
            return Err(format!("{x:?} comes back from text as {z:?}"));
        }
        Ok(y)
    }
}

impl Prop for C13 {
    type Case = Case13;
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "propagator constants of all regimes, elements (direct and parsed from TLEs), orbits, gravity models and predictions, serialized through a JSON value (all bits equal) and through JSON text (to 4 ulp); restored constants give the same predictions bit for bit; non-trivial: every case"
    }
    fn quick(&self) -> u64 {
        1_000_000
    }
    fn gen(&self, s: &mut Src) -> Case13 {
        match s.weighted(&[6, 4, 1, 1, 1]) {
            0 => Case13::Constants {
                sat: gens::any_sat(s),
                times: (0..1 + s.below(4)).map(|_| F(gens::time(s, 5.5))).collect(),
                afspc: s.chance(1, 2),
            },
            1 => {
                let els = any_els(s);
                let (name, desig) = (
                    if s.chance(2, 3) { Some(super::tle::title(s)) } else { None },
                    if s.chance(2, 3) { Some(super::tle::title(s)) } else { None },
                );
                let tle = if s.chance(1, 2) { Some(tleref::any_tle(s)) } else { None };
                Case13::Elements { els, name, desig, tle }
            }
            2 => Case13::Prediction(
                (0..6).map(|_| F(s.sign() * s.log10(-20.0, 6.0) * s.pick(&[1.0, 1.0, 1.0, 0.0]))).collect(),
            ),
            3 => Case13::Gravity(gens::gravity(s)),
            _ => Case13::Orbit(gens::any_sat(s)),
        }
    }
    fn check(&self, c: &Case13) -> Verdict {
        match c {
            Case13::Constants { sat, times, afspc } => {
                let k = match sat.constants() {
                    Ok(k) => k,
                    Err(e) => fail!("{e:?}"),
                };
                let back = match self.same(&k) {
                    Ok(b) => b,
                    // constants of degenerate orbits may hold infinities, which JSON lacks
                    Err(_) if format!("{k:?}").contains("inf") || format!("{k:?}").contains("NaN") => {
                        return trivial("not finite")
                    }
                    Err(m) => fail!("{m}"),
                };
                let (a, b) = (k.initial_state(), back.initial_state());
                if a.map(|s| s.t()) != b.map(|s| s.t()) {
                    fail!("initial state at {:?}, restored {:?}", a.map(|s| s.t()), b.map(|s| s.t()));
                }
                for t in times {
                    let (x, y) = (propagate(&k, t.0, *afspc), propagate(&back, t.0, *afspc));
                    if let Err(m) = same_prediction(&x, &y, 0.0, 0.0) {
                        fail!("restored constants differ at {:?}: {m}", t.0);
                    }
                    // either's initial state serves the other
                    let z = k.propagate_from_state(sgp4::MinutesSinceEpoch(t.0), b.clone().as_mut(), *afspc);
                    if let Err(m) = same_prediction(&x, &z, 0.0, 0.0) {
                        fail!("restored state differs at {:?}: {m}", t.0);
                    }
                }
                // restored constants serialize alike
                if serde_json::to_string(&k).ok() != serde_json::to_string(&back).ok() {
                    fail!("restored constants serialize differently");
                }
                match a {
                    Some(_) => pass("constants, resonant"),
                    None if sat.no.0 > gens::NEAR_LIMIT => pass("constants, near earth"),
                    None => pass("constants, deep space"),
                }
            }
            Case13::Elements { els, name, desig, tle } => {
                let e = match tle {
                    Some(t) => {
                        let (a, b) = t.lines();
                        match sgp4::Elements::from_tle(name.clone(), &a, &b) {
                            Ok(e) => e,
                            Err(e) => fail!("{e}"),
                        }
                    }
                    None => {
                        let mut e = els.build();
                        e.object_name = name.clone();
                        e.international_designator = desig.clone();
                        e
                    }
                };
                if let Err(m) = self.same(&e) {
                    fail!("{m}");
                }
                // the serialized form is an OMM object with the standard keys
                let v = match serde_json::to_value(&e) {
                    Ok(v) => v,
                    Err(m) => fail!("{m}"),
                };
                for k in required() {
                    if v.get(k).is_none() {
                        fail!("serialized elements lack {k}: {v}");
                    }
                }
                for (k, want) in [
                    ("MEAN_MOTION", e.mean_motion), ("ECCENTRICITY", e.eccentricity), ("INCLINATION", e.inclination),
                    ("RA_OF_ASC_NODE", e.right_ascension), ("ARG_OF_PERICENTER", e.argument_of_perigee),
                    ("MEAN_ANOMALY", e.mean_anomaly), ("BSTAR", e.drag_term), ("MEAN_MOTION_DOT", e.mean_motion_dot),
                    ("MEAN_MOTION_DDOT", e.mean_motion_ddot),
                ] {
                    if v[k].as_f64() != Some(want) {
                        fail!("serialized {k} is {}, the field {want:?}", v[k]);
                    }
                }
                pass(if tle.is_some() { "elements of a TLE" } else { "elements" })
            }
            Case13::Prediction(v) => {
                let p = sgp4::Prediction {
                    position: [v[0].0, v[1].0, v[2].0],
                    velocity: [v[3].0, v[4].0, v[5].0],
                };
                match self.same(&p) {
                    Ok(_) => pass("prediction"),
                    Err(m) => Verdict::Fail(m),
                }
            }
            Case13::Gravity(g) => match self.same(&g.to_sgp4()) {
                Ok(_) => pass("gravity model"),
                Err(m) => Verdict::Fail(m),
            },
            Case13::Orbit(sat) => match self.same(&sat.orbit()) {
                Ok(_) => pass("orbit"),
                Err(m) => Verdict::Fail(m),
            },
        }
    }
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case21 {
    pub tle: tleref::Tle,
    pub name: Option<String>,
    /// quoted numbers and order of keys of the OMM
    pub form: Omm,
    /// numbers without trailing zeros
    #[serde(default)]
    pub short: bool,
    pub times: Vec<F>,
    pub afspc: bool,
}

/// the OMM object with the values of a TLE, in the form of another one
pub fn omm_of_tle(t: &tleref::Tle, name: &Option<String>, form: &Omm, short: bool) -> Omm {
    let fixed = |units: i64, digits: usize| {
        let p = 10i64.pow(digits as u32);
        let text = format!("{}{}.{:0digits$}", if units < 0 { "-" } else { "" }, units.abs() / p, units.abs() % p);
        if short {
            text.trim_end_matches('0').trim_end_matches('.').into()
        } else {
            text
        }
    };
    let small = |e: &tleref::Exp| {
        let x = if e.exp_neg { -(e.exp as i32) } else { e.exp as i32 };
        format!("{}0.{:05}e{x}", if e.neg { "-" } else { "" }, e.mant)
    };
    let texts = [
        fixed(t.mm as i64, 8),
        fixed(t.ecc as i64, 7),
        fixed(t.incl as i64, 4),
        fixed(t.raan as i64, 4),
        fixed(t.argp as i64, 4),
        fixed(t.ma as i64, 4),
        small(&t.bstar),
        fixed(t.ndot as i64, 8),
        small(&t.nddot),
    ];
    let ints = [t.norad as u64, t.elset as u64, t.rev as u64, t.etype as u64];
    let opt = |x: Option<String>| match x {
        Some(t) => Opt::Text(t),
        None if form.pretty => Opt::Null,
        None => Opt::Absent,
    };
    Omm {
        floats: texts.into_iter().zip(&form.floats).map(|(x, f)| Num(x, f.1)).collect(),
        ints: ints.iter().zip(&form.ints).map(|(x, f)| Num(x.to_string(), f.1)).collect(),
        name: opt(name.clone()),
        desig: opt(t.designator()),
        class: t.class,
        date: super::build::els_of_tle(t).date,
        digits: 9,
        broken: None,
        ..form.clone()
    }
}

pub struct C21;
impl Prop for C21 {
    type Case = Case21;
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "satellites of all regimes (or any field values) written as a TLE and as an OMM object, parsed and compared field by field, and propagated from both with either constructor and mode; non-trivial: a prediction was compared with an allowed difference below 1e-3 km"
    }
    fn quick(&self) -> u64 {
        700_000
    }
    fn gen(&self, s: &mut Src) -> Case21 {
        let mut tle = if s.chance(4, 5) { tleref::plausible_tle(s) } else { tleref::any_tle(s) };
        let short = s.chance(1, 4);
        if short && s.chance(1, 2) {
            // round numbers
            for x in [&mut tle.incl, &mut tle.raan, &mut tle.argp, &mut tle.ma] {
                *x -= *x % s.pick(&[1000, 100, 10000]);
            }
            tle.ecc -= tle.ecc % s.pick(&[10, 1000, 100000]);
        }
        Case21 {
            tle,
            short,
            name: if s.chance(1, 2) { Some(super::tle::title(s)) } else { None },
            form: omm(s),
            times: (0..1 + s.below(3)).map(|_| F(gens::time(s, 4.7))).collect(),
            afspc: s.chance(1, 2),
        }
    }
    fn check(&self, c: &Case21) -> Verdict {
        let (l1, l2) = c.tle.lines();
        let a = match sgp4::Elements::from_tle(c.name.clone(), &l1, &l2) {
            Ok(e) => e,
            Err(e) => fail!("TLE refused: {e}"),
        };
        let text = omm_of_tle(&c.tle, &c.name, &c.form, c.short).text();
        let b = match serde_json::from_str::<sgp4::Elements>(&text) {
            Ok(e) => e,
            Err(e) => fail!("OMM refused: {e}\n{text}"),
        };
        let apart = calendar::ns_of(&a.datetime) - calendar::ns_of(&b.datetime);
        if apart.abs() > 10 {
            fail!("epochs {:?} and {:?} are {apart} ns apart", a.datetime, b.datetime);
        }
        let mut same_epoch = b.clone();
        same_epoch.datetime = a.datetime;
        if !debug_close(&format!("{a:?}"), &format!("{same_epoch:?}"), 8.0 * f64::EPSILON) {
            fail!("TLE gives {a:?}, OMM {b:?}");
        }
        let build = |e: &sgp4::Elements| {
            if c.afspc {
                sgp4::Constants::from_elements_afspc_compatibility_mode(e)
            } else {
                sgp4::Constants::from_elements(e)
            }
        };
        let (ka, kb) = match (build(&a), build(&b)) {
            (Ok(x), Ok(y)) => (x, y),
            (Err(x), Err(y)) if debug_close(&format!("{x:?}"), &format!("{y:?}"), 8.0 * f64::EPSILON) => {
                return trivial("no constants");
            }
            (x, y) => fail!("TLE gives {:?}, OMM {:?}", x.map(|_| ()), y.map(|_| ())),
        };
        let inp = super::build::els_of_tle(&c.tle).inputs(c.afspc);
        let mut compared = false;
        for t in &c.times {
            for afspc in [false, true] {
                let j = judge(&inp, t.0, afspc);
                if j.ambiguous || !(j.tol_r + j.tol_v).is_finite() {
                    continue;
                }
                let (x, y) = (propagate(&ka, t.0, afspc), propagate(&kb, t.0, afspc));
                if let Err(m) = same_outcome(&x, &y, j.tol_r, j.tol_v, j.tol_e) {
                    fail!("from a TLE and from an OMM, t = {:?}: {m} (allowed {:e}, {:e})", t.0, j.tol_r, j.tol_v);
                }
                compared |= x.is_ok() && j.tol_r < 1e-3;
            }
        }
        match (compared, c.afspc) {
            (true, true) => pass("predictions of the AFSPC constructor"),
            (true, false) => pass("predictions of the default constructor"),
            _ => trivial("fields only"),
        }
    }
}
