//! C08: every element set and time ends in a sane result.

use super::build::{propagate, Els};
use super::time::date_in;
use crate::engine::*;
use crate::tleref::{self, Tle};
use crate::{fail, gens};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    Tle { tle: Tle, afspc: bool, times: Vec<F> },
    Omm { els: Els, afspc: bool, times: Vec<F> },
    /// text of a TLE field that is no finite number: field, text
    Text { tle: Tle, field: usize, text: String },
    /// the same for a key of an OMM object, as string or bare
    Json { els: Els, key: usize, text: String, quoted: bool },
}

/// floating-point fields: line, start, end
const FLOATS: [(usize, usize, usize); 8] =
    [(1, 20, 32), (1, 33, 43), (2, 8, 16), (2, 17, 25), (2, 34, 42), (2, 43, 51), (2, 52, 63), (2, 26, 33)];
const NON_NUMBERS: [&str; 12] = [
    "nan", "NaN", "NAN", "-nan", "inf", "-inf", "+inf", "INF", "infinity", "Infinity", "1e999", "-9e999",
];
const KEYS: [&str; 9] = [
    "MEAN_MOTION", "ECCENTRICITY", "INCLINATION", "RA_OF_ASC_NODE", "ARG_OF_PERICENTER", "MEAN_ANOMALY", "BSTAR",
    "MEAN_MOTION_DOT", "MEAN_MOTION_DDOT",
];

pub fn times(s: &mut Src) -> Vec<F> {
    (0..1 + s.below(5))
        .map(|_| {
            F(match s.weighted(&[4, 4, 3, 3]) {
                0 => gens::time(s, 6.0),
                1 => s.sign() * s.log10(-3.0, 8.0),
                2 => s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -f64::NAN]),
                _ => s.pick(&[0.0, -0.0, 1e8, -1e8, 5e-324, 720.0, -720.0, 1440.0, 1e-300]),
            })
        })
        .collect()
}

/// a number an OMM can carry
fn wild(s: &mut Src, usual: f64) -> f64 {
    match s.weighted(&[12, 2, 2, 1]) {
        0 => usual,
        1 => s.pick(&[0.0, -0.0, 1.0, -1.0, 180.0, 360.0, 90.0, 1e-9, f64::MAX, f64::MIN, 5e-324, f64::MIN_POSITIVE]),
        2 => s.sign() * s.log10(-20.0, 20.0),
        _ => s.sign() * s.log10(-300.0, 300.0),
    }
}

fn wild_els(s: &mut Src) -> Els {
    let mut e = super::build::any_els(s);
    e.date = if s.chance(1, 4) {
        let y = s.pick(&[0, -1, 1, 1899, 2101, 9999, -9999, 262_000, -262_000, 1582]);
        date_in(s, y, y)
    } else {
        date_in(s, 1957, 2056)
    };
    for f in [&mut e.incl, &mut e.raan, &mut e.argp, &mut e.ma, &mut e.mm, &mut e.bstar] {
        *f = F(wild(s, f.0));
    }
    e.ecc = F(match s.weighted(&[10, 2, 2]) {
        0 => e.ecc.0,
        1 => s.pick(&[0.0, 1.0 - f64::EPSILON / 2.0, 5e-324, 1e-4, 0.999_999_9]),
        _ => 1.0 - s.log10(-16.0, -1.0),
    });
    e
}

pub fn wild_tle(s: &mut Src) -> Tle {
    let mut t = if s.chance(1, 2) { tleref::any_tle(s) } else { tleref::plausible_tle(s) };
    if s.chance(1, 3) {
        // the resonance bands with anything else
        t.mm = ((if s.chance(1, 2) { s.range(0.8, 1.2) } else { s.range(1.89, 2.12) }) * 1e8) as u64;
        t.ecc = s.draw(10_000_000) as u32;
    }
    if s.chance(1, 4) {
        t.mm = s.pick(&[0u64, 1, 9_999_999_999, 100_000_000, 1_000, 1_699_999_999]);
    }
    if s.chance(1, 4) {
        t.bstar.exp = s.draw(10) as u8;
        t.bstar.exp_neg = s.chance(1, 2);
    }
    if s.chance(1, 6) {
        t.ecc = s.pick(&[0u32, 9_999_999, 1, 9_990_000, 5_000_000]);
    }
    if s.chance(1, 6) {
        t.incl = s.pick(&[0u32, 1_800_000, 1, 1_799_999, 900_000, 9_999_999]);
    }
    t
}

fn sane(c: Result<sgp4::Constants, sgp4::ElementsError>, times: &[F]) -> Verdict {
    match c {
        Err(e) => {
            let _ = (e.to_string(), format!("{e:?}"));
            trivial("elements refused")
        }
        Ok(k) => {
            let (mut ok, mut err) = (false, false);
            for t in times {
                for afspc in [false, true] {
                    match propagate(&k, t.0, afspc) {
                        Ok(p) => {
                            if p.position.iter().chain(&p.velocity).any(|x| !x.is_finite()) {
                                fail!("t = {:?}: prediction {p:?}", t.0);
                            }
                            ok = true;
                        }
                        Err(e) => {
                            let _ = (e.to_string(), format!("{e:?}"));
                            err = true;
                        }
                    }
                }
            }
            match (ok, err) {
                (true, true) => pass("predictions and errors"),
                (true, false) => pass("predictions"),
                _ => pass("errors"),
            }
        }
    }
}

fn build(e: &sgp4::Elements, afspc: bool) -> Result<sgp4::Constants, sgp4::ElementsError> {
    if afspc {
        sgp4::Constants::from_elements_afspc_compatibility_mode(e)
    } else {
        sgp4::Constants::from_elements(e)
    }
}

pub struct C08;
impl Prop for C08 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "element sets of TLEs and OMM objects with no regard to physics, propagated in both modes to times up to 1e8 minutes and to NaN and infinities; texts with non-finite or overflowing numbers; non-trivial: a propagation was made, or such a text was presented"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["a call that uses more than 40 s of CPU time is taken not to terminate"]
    }
    fn quick(&self) -> u64 {
        120_000
    }
    fn gen(&self, s: &mut Src) -> Case {
        match s.weighted(&[6, 6, 1, 1]) {
            0 => Case::Tle { tle: wild_tle(s), afspc: s.chance(1, 2), times: times(s) },
            1 => Case::Omm { els: wild_els(s), afspc: s.chance(1, 2), times: times(s) },
            2 => Case::Text {
                tle: tleref::plausible_tle(s),
                field: s.below(FLOATS.len()),
                text: s.pick(&NON_NUMBERS).to_string(),
            },
            _ => Case::Json {
                els: super::build::any_els(s),
                key: s.below(KEYS.len()),
                text: s.pick(&NON_NUMBERS).to_string(),
                quoted: s.chance(2, 3),
            },
        }
    }
    fn check(&self, c: &Case) -> Verdict {
        match c {
            Case::Tle { tle, afspc, times } => {
                let (a, b) = tle.lines();
                match sgp4::Elements::from_tle(None, &a, &b) {
                    Ok(e) => sane(build(&e, *afspc), times),
                    Err(_) => trivial("TLE refused"),
                }
            }
            Case::Omm { els, afspc, times } => sane(build(&els.build(), *afspc), times),
            Case::Text { tle, field, text } => {
                let (a, b) = tle.lines();
                let mut l = [a, b];
                let (k, s, e) = FLOATS[*field];
                let t = format!("{:>w$}", text, w = e - s);
                if t.len() > e - s {
                    return trivial("does not fit");
                }
                l[k - 1][s..e].copy_from_slice(t.as_bytes());
                let [mut a, mut b] = l;
                tleref::fix_checksum(&mut a);
                tleref::fix_checksum(&mut b);
                match sgp4::Elements::from_tle(None, &a, &b) {
                    Err(_) => pass("TLE text refused"),
                    Ok(x) => fail!("{text:?} in columns {s}..{e} accepted: {x:?}"),
                }
            }
            Case::Json { els, key, text, quoted } => {
                let mut v = match serde_json::to_value(els.build()) {
                    Ok(v) => v,
                    Err(e) => fail!("{e}"),
                };
                v[KEYS[*key]] = serde_json::json!("@@");
                let put = if *quoted { format!("\"{text}\"") } else { text.clone() };
                let json = v.to_string().replace("\"@@\"", &put);
                match serde_json::from_str::<sgp4::Elements>(&json) {
                    Err(_) => pass("OMM text refused"),
                    Ok(x) => fail!("{put} accepted: {x:?}\n{json}"),
                }
            }
        }
    }
}
