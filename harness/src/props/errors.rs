//! C20: what errors say.

use super::build::Els;
use super::time::{any_date, elements_at, Date};
use super::tle::{self, corrupt, names_error, Fault};
use crate::engine::*;
use crate::fail;
use crate::gens;
use crate::numeric::Sat;
use crate::tleref::{self, Tle};
use serde::{Deserialize, Serialize};
use std::error::Error;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case20 {
    Tle(Tle, Fault),
    /// kind, eccentricity, time, in an error made by hand
    Propagation(u8, F, F),
    /// made by hand: Kozai or Brouwer
    Kozai(bool),
    /// elements no constants can be made of
    Elements(Els, bool),
    /// eccentricity given to the constructor taking an orbit
    Orbit(Sat, F),
    /// datetimes too far apart
    Apart(Date, Date),
    /// minutes too many for a datetime
    Minutes(Date, F),
}

/// what every error must do: the message survives cloning, boxing and sending to another thread
fn steady<T: Error + Clone + Send + Sync + 'static>(e: &T) -> Result<String, String> {
    let text = e.to_string();
    if text.trim().is_empty() {
        return Err(format!("{e:?} has no message"));
    }
    let copy = e.clone();
    let boxed: Box<dyn Error + Send + Sync> = Box::new(e.clone());
    for (what, t) in [("copy", copy.to_string()), ("box", boxed.to_string()), ("second look", format!("{e}"))] {
        if t != text {
            return Err(format!("{text:?} reads {t:?} from a {what}"));
        }
    }
    if format!("{copy:?}") != format!("{e:?}") {
        return Err(format!("{e:?} is copied as {copy:?}"));
    }
    Ok(text)
}

/// numbers of a message with the words after them
fn numbers(text: &str) -> Vec<(f64, String)> {
    let words: Vec<&str> = text
        .split(|c: char| !(c.is_ascii_alphanumeric() || matches!(c, '.' | '-' | '+')))
        .filter(|w| !w.is_empty())
        .collect();
    let mut out = vec![];
    for (i, w) in words.iter().enumerate() {
        if let Ok(v) = w.parse::<f64>() {
            out.push((v, words.get(i + 1).unwrap_or(&"").to_string()));
        }
    }
    out
}

fn alike(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

fn says(text: &str, words: &[&str]) -> Result<(), String> {
    let low = text.to_lowercase();
    match words.iter().find(|w| !low.contains(&w.to_lowercase())) {
        Some(w) => Err(format!("the message {text:?} does not say {w:?}")),
        None => Ok(()),
    }
}

fn shows(text: &str, v: f64) -> Result<(), String> {
    if numbers(text).iter().any(|(n, _)| alike(*n, v)) {
        Ok(())
    } else {
        Err(format!("the message {text:?} does not show {v:?}"))
    }
}

pub fn propagation_error(e: &sgp4::Error) -> Result<(), String> {
    let text = steady(e)?;
    let (ecc, t, words): (_, _, &[&str]) = match e {
        sgp4::Error::OutOfRangeEccentricity { eccentricity, t } => {
            (Some(*eccentricity), *t, &["eccentricity", "before", "third-body"])
        }
        sgp4::Error::OutOfRangePerturbedEccentricity { eccentricity, t } => {
            (Some(*eccentricity), *t, &["eccentricity", "after adding", "third-body"])
        }
        sgp4::Error::NegativeSemiLatusRectum { t } => (None, *t, &["semi-latus rectum", "negative"]),
    };
    says(&text, words)?;
    if !numbers(&text).iter().any(|(n, unit)| unit == "minutes" && alike(*n, t)) {
        return Err(format!("the message {text:?} does not give {t:?} minutes"));
    }
    match ecc {
        Some(v) if !numbers(&text).iter().any(|(n, unit)| unit != "minutes" && alike(*n, v)) => {
            Err(format!("the message {text:?} does not give the eccentricity {v:?}"))
        }
        _ => Ok(()),
    }
}

pub fn kozai_error(e: &sgp4::KozaiElementsError) -> Result<(), String> {
    let text = steady(e)?;
    let (yes, no) = match e {
        sgp4::KozaiElementsError::NegativeKozaiMeanMotion => ("kozai", "brouwer"),
        sgp4::KozaiElementsError::NegativeBrouwerMeanMotion => ("brouwer", "kozai"),
    };
    says(&text, &[yes, "mean motion", "negative"])?;
    if text.to_lowercase().contains(no) {
        return Err(format!("{e:?} reads {text:?}"));
    }
    // wrapped
    let w = sgp4::ElementsError::from(e.clone());
    if !matches!((&w, e),
        (sgp4::ElementsError::KozaiElementsError(sgp4::KozaiElementsError::NegativeKozaiMeanMotion), sgp4::KozaiElementsError::NegativeKozaiMeanMotion)
        | (sgp4::ElementsError::KozaiElementsError(sgp4::KozaiElementsError::NegativeBrouwerMeanMotion), sgp4::KozaiElementsError::NegativeBrouwerMeanMotion))
    {
        return Err(format!("{e:?} converted to {w:?}"));
    }
    let outer = steady(&w)?;
    if outer != text { Err(format!("wrapped error reads {outer:?}, alone {text:?}")) } else { Ok(()) }
}

pub fn epoch_error(e: &sgp4::OutOfRangeEpochEccentricity) -> Result<(), String> {
    let text = steady(e)?;
    says(&text, &["eccentricity", "epoch"])?;
    shows(&text, e.0)?;
    let w = sgp4::ElementsError::from(e.clone());
    match &w {
        sgp4::ElementsError::OutOfRangeEpochEccentricity(x) if x.0.to_bits() == e.0.to_bits() => {}
        _ => return Err(format!("{e:?} converted to {w:?}")),
    }
    let outer = steady(&w)?;
    if outer != text { Err(format!("wrapped error reads {outer:?}, alone {text:?}")) } else { Ok(()) }
}

fn any_number(s: &mut Src) -> f64 {
    let sign = s.sign();
    sign * match s.weighted(&[4, 2, 2]) {
        0 => s.log10(-8.0, 8.0),
        1 => s.int(0, 100_000) as f64,
        _ => s.pick(&[0.0, f64::NAN, f64::INFINITY, f64::MAX, 5e-324, 1.0, 0.1 + 0.2, 1e21]),
    }
}

pub struct C20;
impl Prop for C20 {
    type Case = Case20;
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "every error type, raised through the public functions by faulty lines, unusable elements, eccentricities out of range, datetimes too far apart and minutes too many, or made by hand with any payload; non-trivial: an error arose and its message was compared with its kind and values"
    }
    fn quick(&self) -> u64 {
        4_000_000
    }
    fn gen(&self, s: &mut Src) -> Case20 {
        match s.weighted(&[10, 6, 6, 4, 4, 5, 1]) {
            0 => {
                let t = tleref::any_tle(s);
                Case20::Tle(t, tle::fault(s))
            }
            1 => Case20::Propagation(s.draw(3) as u8, F(any_number(s)), F(any_number(s))),
            2 => {
                let mut els = super::build::any_els(s);
                match s.below(3) {
                    0 => els.ecc = F(1.0 + s.log10(-9.0, 3.0)),
                    1 => els.ecc = F(-s.log10(-9.0, 3.0)),
                    _ => els.mm = F(-s.log10(-6.0, 2.0) * s.pick(&[0.0, 1.0])),
                }
                Case20::Elements(els, s.chance(1, 2))
            }
            3 => {
                let sat = gens::any_sat(s);
                Case20::Orbit(sat, F(any_number(s)))
            }
            4 => {
                let mut a = any_date(s);
                let mut b = any_date(s);
                a.0 = s.pick(&[1957, 2000, 2056, 1700, -262_000, a.0]);
                b.0 = s.pick(&[2350, 2800, 9999, 262_000, -9999, b.0]);
                a.2 = a.2.min(28);
                b.2 = b.2.min(28);
                if s.chance(1, 2) { Case20::Apart(a, b) } else { Case20::Apart(b, a) }
            }
            5 => {
                let mut d = any_date(s);
                let m = match s.weighted(&[1, 2, 2]) {
                    0 => any_number(s),
                    1 => s.sign() * s.log10(8.0, 300.0),
                    _ => {
                        // next to the first or last datetime there is
                        let sign = s.sign();
                        d.0 = if sign > 0.0 { 262_000 } else { -262_000 };
                        d.2 = d.2.min(28);
                        sign * s.log10(6.0, 8.18)
                    }
                };
                Case20::Minutes(d, F(m))
            }
            _ => Case20::Kozai(s.chance(1, 2)),
        }
    }
    fn check(&self, c: &Case20) -> Verdict {
        let judged = |r: Result<(), String>, class: &'static str| match r {
            Ok(()) => pass(class),
            Err(m) => Verdict::Fail(m),
        };
        match c {
            Case20::Tle(t, f) => {
                let Some((a, b, x)) = corrupt(t, f) else { return trivial("fault does not apply") };
                match sgp4::Elements::from_tle(None, &a, &b) {
                    Ok(_) => fail!("accepted in spite of {f:?}"),
                    Err(e) => judged(names_error(&e, &x).and_then(|_| steady(&e).map(|_| ())), "TLE"),
                }
            }
            Case20::Propagation(kind, e, t) => {
                let (eccentricity, t) = (e.0, t.0);
                let e = match kind {
                    0 => sgp4::Error::OutOfRangeEccentricity { eccentricity, t },
                    1 => sgp4::Error::OutOfRangePerturbedEccentricity { eccentricity, t },
                    _ => sgp4::Error::NegativeSemiLatusRectum { t },
                };
                judged(propagation_error(&e), "propagation")
            }
            Case20::Kozai(b) => judged(
                kozai_error(&if *b {
                    sgp4::KozaiElementsError::NegativeBrouwerMeanMotion
                } else {
                    sgp4::KozaiElementsError::NegativeKozaiMeanMotion
                }),
                "Kozai conversion",
            ),
            Case20::Elements(els, afspc) => {
                let e = els.build();
                let r = if *afspc {
                    sgp4::Constants::from_elements_afspc_compatibility_mode(&e)
                } else {
                    sgp4::Constants::from_elements(&e)
                };
                let Err(w) = r else { return trivial("elements usable after all") };
                let inner = match &w {
                    sgp4::ElementsError::KozaiElementsError(k) => kozai_error(k).map(|_| k.to_string()),
                    sgp4::ElementsError::OutOfRangeEpochEccentricity(x) => epoch_error(x).map(|_| x.to_string()),
                };
                match inner {
                    Err(m) => Verdict::Fail(m),
                    Ok(inner) if inner != w.to_string() => fail!("{w:?} reads {:?}, its cause {inner:?}", w.to_string()),
                    Ok(_) => match w {
                        sgp4::ElementsError::KozaiElementsError(sgp4::KozaiElementsError::NegativeBrouwerMeanMotion) => {
                            pass("Brouwer mean motion")
                        }
                        sgp4::ElementsError::KozaiElementsError(_) => pass("Kozai mean motion"),
                        _ => pass("eccentricity of elements"),
                    },
                }
            }
            Case20::Orbit(sat, ecc) => {
                let mut sat = *sat;
                sat.ecc = *ecc;
                match sat.constants() {
                    Ok(_) => trivial("eccentricity valid"),
                    Err(e) => judged(epoch_error(&e), "eccentricity at epoch"),
                }
            }
            Case20::Apart(a, b) => {
                let e = elements_at(a.chrono());
                let to = b.chrono();
                match e.datetime_to_minutes_since_epoch(&to) {
                    Ok(_) => trivial("datetimes close enough"),
                    Err(x) => {
                        let text = match steady(&x) {
                            Ok(t) => t,
                            Err(m) => fail!("{m}"),
                        };
                        let want = format!("{to} - {}", e.datetime);
                        if !text.ends_with(&want) || !text.contains("verflow") {
                            fail!("the message {text:?} does not give {want:?}");
                        }
                        pass("datetimes too far apart")
                    }
                }
            }
            Case20::Minutes(d, m) => {
                let e = elements_at(d.chrono());
                match e.minutes_since_epoch_to_datetime(&sgp4::MinutesSinceEpoch(m.0)) {
                    Ok(_) => trivial("minutes fit"),
                    Err(x) => {
                        let text = match steady(&x) {
                            Ok(t) => t,
                            Err(m) => fail!("{m}"),
                        };
                        match x {
                            sgp4::MinutesSinceEpochToDatetimeError::MinutesToNanoseconds(v) => {
                                if !alike(v, m.0) {
                                    fail!("{m:?} minutes refused as {v:?}");
                                }
                                judged(shows(&text, v).and_then(|_| says(&text, &["overflow"])), "too many minutes")
                            }
                            sgp4::MinutesSinceEpochToDatetimeError::Add { datetime, duration } => {
                                if datetime != e.datetime {
                                    fail!("epoch {:?} given as {datetime:?}", e.datetime);
                                }
                                let ns = duration.num_nanoseconds().map_or(f64::NAN, |n| n as f64);
                                if !((ns - m.0 * 60e9).abs() <= 1.0 + 4.0 * f64::EPSILON * ns.abs()) {
                                    fail!("{m:?} minutes given as {duration:?}");
                                }
                                let want = format!("{datetime} + {duration}");
                                if !text.ends_with(&want) || !text.contains("verflow") {
                                    fail!("the message {text:?} does not give {want:?}");
                                }
                                pass("no such datetime")
                            }
                        }
                    }
                }
            }
        }
    }
}
