//! One request line in, one reply line out, through the crate's public interface only.
//!
//! Compiled into every worker configuration and, for the default configuration, into the harness.
//! A reply is a list of blank-separated tokens: `x…` is compared exactly, `f` (double), `r` (km),
//! `v` (km/s), `e` (eccentricity), `k` (Brouwer mean motion) and `a` (angle) are bit patterns compared up to rounding, `|` separates times.

#![allow(dead_code)]

use sgp4::{Constants, Elements, Geopotential, MinutesSinceEpoch, Orbit};

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    let s = s.strip_prefix('.').unwrap_or(s);
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn bits(x: f64) -> String {
    format!("{:016x}", x.to_bits())
}
pub fn unbits(s: &str) -> f64 {
    f64::from_bits(u64::from_str_radix(s, 16).unwrap())
}

#[derive(Default)]
struct Out(Vec<String>);
impl Out {
    fn exact(&mut self, s: impl std::fmt::Display) {
        self.0.push(format!("x{}", s.to_string().replace([' ', '\n'], "_")));
    }
    fn text(&mut self, s: &Option<String>) {
        self.0.push(match s {
            None => "xnone".into(),
            Some(t) => format!("x.{}", hex(t.as_bytes())),
        });
    }
    fn num(&mut self, kind: char, x: f64) {
        self.0.push(format!("{kind}{}", bits(x)));
    }
    fn next(&mut self) {
        self.0.push("|".into());
    }
}

fn elements(o: &mut Out, e: &Elements, designator: bool) {
    let _ = designator;
    #[cfg(feature = "cfg-alloc")]
    if designator {
        o.text(&e.object_name);
        o.text(&e.international_designator);
    }
    o.exact(e.norad_id);
    o.exact(match e.classification {
        sgp4::Classification::Unclassified => 'U',
        sgp4::Classification::Classified => 'C',
        sgp4::Classification::Secret => 'S',
    });
    o.exact(e.datetime);
    for x in [
        e.mean_motion_dot, e.mean_motion_ddot, e.drag_term, e.inclination, e.right_ascension, e.eccentricity,
        e.argument_of_perigee, e.mean_anomaly, e.mean_motion,
    ] {
        o.num('f', x);
    }
    o.exact(e.element_set_number);
    o.exact(e.revolution_number);
    o.exact(e.ephemeris_type);
}

fn tle_error(o: &mut Out, e: &sgp4::TleError) {
    o.exact("error");
    o.exact(format!("{e:?}"));
    o.exact(e);
}

fn outcome(o: &mut Out, g: &Result<sgp4::Prediction, sgp4::Error>) {
    match g {
        Ok(p) => {
            o.exact("prediction");
            p.position.iter().for_each(|x| o.num('r', *x));
            p.velocity.iter().for_each(|x| o.num('v', *x));
        }
        Err(sgp4::Error::OutOfRangeEccentricity { eccentricity, t }) => {
            o.exact("eccentricity");
            o.num('e', *eccentricity);
            o.exact(bits(*t));
        }
        Err(sgp4::Error::OutOfRangePerturbedEccentricity { eccentricity, t }) => {
            o.exact("perturbed");
            o.num('e', *eccentricity);
            o.exact(bits(*t));
        }
        Err(sgp4::Error::NegativeSemiLatusRectum { t }) => {
            o.exact("semi-latus");
            o.exact(bits(*t));
        }
    }
}

fn predict(o: &mut Out, k: &Constants, afspc: bool, times: &[f64]) {
    let mut state = k.initial_state();
    o.exact(if state.is_some() { "resonant" } else { "stateless" });
    let mut last = 0.0f64;
    for t in times {
        o.next();
        let m = MinutesSinceEpoch(*t);
        outcome(o, &if afspc { k.propagate_afspc_compatibility_mode(m) } else { k.propagate(m) });
        if state.is_some() {
            // reuse the state as long as the times move away from the epoch
            if !(t.abs() >= last.abs() && (last == 0.0 || (*t > 0.0) == (last > 0.0))) {
                state = k.initial_state();
            }
            last = *t;
            outcome(o, &k.propagate_from_state(MinutesSinceEpoch(*t), state.as_mut(), afspc));
            o.num('f', state.unwrap().t());
        }
    }
}

fn from_tle(l1: &[u8], l2: &[u8]) -> Result<Elements, sgp4::TleError> {
    #[cfg(feature = "cfg-alloc")]
    return Elements::from_tle(Some("name".to_string()), l1, l2);
    #[cfg(not(feature = "cfg-alloc"))]
    return Elements::from_tle(l1, l2);
}

fn built(o: &mut Out, e: &Elements, afspc_constructor: bool, afspc: bool, times: &[f64]) {
    let k = if afspc_constructor {
        Constants::from_elements_afspc_compatibility_mode(e)
    } else {
        Constants::from_elements(e)
    };
    match k {
        Ok(k) => predict(o, &k, afspc, times),
        Err(e) => {
            o.exact("refused");
            o.exact(match e {
                sgp4::ElementsError::KozaiElementsError(k) => format!("{k:?}"),
                sgp4::ElementsError::OutOfRangeEpochEccentricity(_) => "eccentricity".into(),
            });
        }
    }
}

/// the reply to a request; `full` asks for the fields a configuration without allocation lacks
pub fn handle(line: &str) -> String {
    let w: Vec<&str> = line.split(' ').collect();
    let mut o = Out::default();
    let flag = |s: &str| s == "1";
    match w[0] {
        // T full constructor mode line1 line2 times…
        "T" => match from_tle(&unhex(w[4]), &unhex(w[5])) {
            Err(e) => tle_error(&mut o, &e),
            Ok(e) => {
                elements(&mut o, &e, flag(w[1]));
                o.num('f', e.epoch());
                o.num('f', e.epoch_afspc_compatibility_mode());
                let times: Vec<f64> = w[6..].iter().map(|x| unbits(x)).collect();
                built(&mut o, &e, flag(w[2]), flag(w[3]), &times);
            }
        },
        // S mode g5 sidereal years bstar incl node ecc argp ma no times…
        "S" => {
            let n: Vec<f64> = w[2..7].iter().map(|x| unbits(x)).collect();
            let g = Geopotential { ae: n[0], ke: n[1], j2: n[2], j3: n[3], j4: n[4] };
            let v: Vec<f64> = w[8..].iter().map(|x| unbits(x)).collect();
            let orbit = Orbit {
                inclination: v[2],
                right_ascension: v[3],
                eccentricity: v[4],
                argument_of_perigee: v[5],
                mean_anomaly: v[6],
                mean_motion: v[7],
            };
            let gst = w[7].to_string();
            let sidereal = move |y: f64| match gst.as_str() {
                "iau" => sgp4::iau_epoch_to_sidereal_time(y),
                "afspc" => sgp4::afspc_epoch_to_sidereal_time(y),
                x => unbits(x),
            };
            match Constants::new(g, sidereal, v[0], v[1], orbit) {
                Ok(k) => predict(&mut o, &k, flag(w[1]), &v[8..]),
                Err(_) => o.exact("refused"),
            }
        }
        // K g5 incl node ecc argp ma n
        "K" => {
            let v: Vec<f64> = w[1..].iter().map(|x| unbits(x)).collect();
            let g = Geopotential { ae: v[0], ke: v[1], j2: v[2], j3: v[3], j4: v[4] };
            match Orbit::from_kozai_elements(&g, v[5], v[6], v[7], v[8], v[9], v[10]) {
                Ok(b) => {
                    for x in [b.inclination, b.right_ascension, b.eccentricity, b.argument_of_perigee, b.mean_anomaly] {
                        o.exact(bits(x));
                    }
                    o.num('k', b.mean_motion);
                }
                Err(e) => o.exact(format!("{e:?} {e}")),
            }
        }
        // Y years
        "Y" => {
            let y = unbits(w[1]);
            o.num('a', sgp4::iau_epoch_to_sidereal_time(y));
            o.num('a', sgp4::afspc_epoch_to_sidereal_time(y));
        }
        // D line1 line2 minutes: epoch arithmetic of a TLE
        "D" => match from_tle(&unhex(w[1]), &unhex(w[2])) {
            Err(e) => tle_error(&mut o, &e),
            Ok(e) => match e.minutes_since_epoch_to_datetime(&MinutesSinceEpoch(unbits(w[3]))) {
                Err(x) => o.exact(format!("{x:?} {x}")),
                Ok(d) => {
                    o.exact(d);
                    match e.datetime_to_minutes_since_epoch(&d) {
                        Ok(m) => o.exact(bits(m.0)),
                        Err(x) => o.exact(format!("{x:?} {x}")),
                    }
                }
            },
        },
        // M titled text
        #[cfg(feature = "cfg-alloc")]
        "M" => {
            let text = String::from_utf8(unhex(w[2])).unwrap();
            match if flag(w[1]) { sgp4::parse_3les(&text) } else { sgp4::parse_2les(&text) } {
                Err(e) => tle_error(&mut o, &e),
                Ok(v) => {
                    o.exact(v.len());
                    v.iter().for_each(|e| elements(&mut o, e, true));
                }
            }
        }
        // J constructor mode text times…
        #[cfg(feature = "cfg-serde")]
        "J" => match serde_json::from_slice::<Elements>(&unhex(w[3])) {
            Err(_) => o.exact("error"),
            Ok(e) => {
                elements(&mut o, &e, true);
                let back = serde_json::to_string(&e).unwrap();
                o.exact(serde_json::from_str::<Elements>(&back).is_ok());
                let times: Vec<f64> = w[4..].iter().map(|x| unbits(x)).collect();
                built(&mut o, &e, flag(w[1]), flag(w[2]), &times);
            }
        },
        _ => o.exact("unsupported"),
    }
    o.0.join(" ")
}
