//! C04, C06, C07: constructors, Kozai conversion, errors.

use super::time::{date_in, Date};
use crate::engine::*;
use crate::numeric::*;
use crate::reference::{self as r, El, Kind, Outcome, PI};
use crate::tleref::{self, Tle};
use crate::{fail, gens};
use serde::{Deserialize, Serialize};
use std::sync::Mutex;

// ---------------------------------------------------------------------------------------------

/// elements as a user supplies them
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Els {
    pub date: Date,
    pub incl: F,
    pub raan: F,
    pub ecc: F,
    pub argp: F,
    pub ma: F,
    /// revolutions per day
    pub mm: F,
    pub bstar: F,
    /// fields the propagator does not use
    pub ndot: F,
    pub nddot: F,
    pub norad: u64,
    pub etype: u8,
    pub elset: u64,
    pub rev: u64,
}

impl Els {
    pub fn build(&self) -> sgp4::Elements {
        sgp4::Elements {
            object_name: if self.elset % 2 == 0 { None } else { Some("X".into()) },
            international_designator: if self.rev % 2 == 0 { None } else { Some("2020-001A".into()) },
            norad_id: self.norad,
            classification: match self.norad % 3 {
                0 => sgp4::Classification::Unclassified,
                1 => sgp4::Classification::Classified,
                _ => sgp4::Classification::Secret,
            },
            datetime: self.date.chrono(),
            mean_motion_dot: self.ndot.0,
            mean_motion_ddot: self.nddot.0,
            drag_term: self.bstar.0,
            element_set_number: self.elset,
            inclination: self.incl.0,
            right_ascension: self.raan.0,
            eccentricity: self.ecc.0,
            argument_of_perigee: self.argp.0,
            mean_anomaly: self.ma.0,
            mean_motion: self.mm.0,
            revolution_number: self.rev,
            ephemeris_type: self.etype,
        }
    }
    pub fn inputs(&self, afspc: bool) -> Inputs {
        let deg = PI / 180.0;
        let years = self.date.years();
        Inputs {
            g: if afspc { r::wgs72() } else { r::wgs84() },
            el: El {
                incl: self.incl.0 * deg,
                node: self.raan.0 * deg,
                ecc: self.ecc.0,
                argp: self.argp.0 * deg,
                ma: self.ma.0 * deg,
                no: 0.0,
            },
            bstar: self.bstar.0,
            years,
            gsto: if afspc { r::gst_afspc(years) } else { r::gst_iau(years) },
            // the epoch's own rounding moves the sidereal angle by 2300 rad per year
            gsto_unc: if afspc { 1.2e-8 } else { 3.0e-10 },
            years_unc: if afspc { 5.0e-12 } else { 1.0e-13 },
            kozai: Some(self.mm.0 * PI / 720.0),
        }
    }
}

pub fn els_of_tle(t: &Tle) -> Els {
    // the date whose nanoseconds are nearest
    let ns = t.epoch_ns();
    let year = tleref::century(t.yy);
    let mut doy = t.doy as u32;
    let mut m = 1;
    while doy > crate::calendar::days_in_month(year, m) {
        doy -= crate::calendar::days_in_month(year, m);
        m += 1;
    }
    let in_day = ns.rem_euclid(crate::calendar::DAY_NS);
    let date = Date(year as i32, m, doy, (in_day / 1_000_000_000) as u32, (in_day % 1_000_000_000) as u32);
    Els {
        date,
        incl: F(t.incl_deg()),
        raan: F(t.raan_deg()),
        ecc: F(t.ecc_value()),
        argp: F(t.argp_deg()),
        ma: F(t.ma_deg()),
        mm: F(t.mm_value()),
        bstar: F(t.bstar.value()),
        ndot: F(t.ndot_value()),
        nddot: F(t.nddot.value()),
        norad: t.norad as u64,
        etype: t.etype,
        elset: t.elset as u64,
        rev: t.rev as u64,
    }
}

/// elements of a satellite in one of the regimes
pub fn any_els(s: &mut Src) -> Els {
    let sat = gens::any_sat(s);
    let rad = 180.0 / PI;
    Els {
        date: date_in(s, 1957, 2056),
        incl: F(sat.incl.0 * rad),
        raan: F(sat.node.0 * rad),
        ecc: sat.ecc,
        argp: F(sat.argp.0 * rad),
        ma: F(sat.ma.0 * rad),
        mm: F(sat.no.0 * 720.0 / PI),
        bstar: sat.bstar,
        ndot: F(s.range(-1.0, 1.0)),
        nddot: F(s.range(-1.0, 1.0)),
        norad: s.draw(100_000),
        etype: s.draw(10) as u8,
        elset: s.draw(10_000),
        rev: s.draw(100_000),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Source {
    Tle(Tle),
    Direct(Els),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case04 {
    pub source: Source,
    pub afspc_constructor: bool,
    pub afspc_propagate: bool,
    pub t: F,
    /// gravity and sidereal angle for the explicit construction
    pub g: G,
    pub gst: F,
}

fn published(name: &str, g: &sgp4::Geopotential, w: &r::Grav) -> Result<(), String> {
    for (f, a, b) in
        [("ae", g.ae, w.re), ("ke", g.ke, w.xke), ("j2", g.j2, w.j2), ("j3", g.j3, w.j3), ("j4", g.j4, w.j4)]
    {
        if !((a - b).abs() <= 1e-14 * b.abs()) {
            return Err(format!("{name}.{f} is {a:?}, published {b:?}"));
        }
    }
    Ok(())
}

pub fn propagate(c: &sgp4::Constants, t: f64, afspc: bool) -> Got {
    let t = sgp4::MinutesSinceEpoch(t);
    if afspc { c.propagate_afspc_compatibility_mode(t) } else { c.propagate(t) }
}

pub struct C04;
impl Prop for C04 {
    type Case = Case04;
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "elements parsed from generated TLEs or given directly, both constructors and both propagation modes, end to end against the reference model fed with independently converted values; then explicit constructions with the same and with random gravity models and a recording sidereal-time function; non-trivial: the model yields a prediction and the allowed difference is below 1e-3 km and 1e-6 km/s"
    }
    fn quick(&self) -> u64 {
        1_200_000
    }
    fn gen(&self, s: &mut Src) -> Case04 {
        let source =
            if s.chance(1, 2) { Source::Tle(tleref::plausible_tle(s)) } else { Source::Direct(any_els(s)) };
        let longest = if s.chance(1, 4) { 5.7 } else { 4.7 };
        let t = gens::time(s, longest);
        Case04 {
            source,
            afspc_constructor: s.chance(1, 2),
            afspc_propagate: s.chance(1, 2),
            t: F(t),
            g: gens::gravity(s),
            gst: F(gens::angle(s)),
        }
    }
    fn check(&self, c: &Case04) -> Verdict {
        for r in [published("WGS72", &sgp4::WGS72, &r::wgs72()), published("WGS84", &sgp4::WGS84, &r::wgs84())] {
            if let Err(m) = r {
                fail!("{m}");
            }
        }
        let (els, elements) = match &c.source {
            Source::Tle(t) => {
                let (a, b) = t.lines();
                match sgp4::Elements::from_tle(None, &a, &b) {
                    Ok(e) => (els_of_tle(t), e),
                    Err(e) => fail!("TLE refused: {e}"),
                }
            }
            Source::Direct(e) => (e.clone(), e.build()),
        };
        let inp = els.inputs(c.afspc_constructor);
        // conversions that yield no orbit are C06's business
        let n = r::unkozai(&inp.g, inp.el.incl, inp.el.ecc, inp.kozai.unwrap());
        if !(n > 1e-9) {
            return trivial("no orbit");
        }
        let built = if c.afspc_constructor {
            sgp4::Constants::from_elements_afspc_compatibility_mode(&elements)
        } else {
            sgp4::Constants::from_elements(&elements)
        };
        let constants = match built {
            Ok(k) => k,
            Err(e) => fail!("valid elements refused: {e:?}"),
        };
        let j = judge(&inp, c.t.0, c.afspc_propagate);
        let got = propagate(&constants, c.t.0, c.afspc_propagate);
        let verdict = match compare(&j, &got, c.t.0) {
            Cmp::Differ(m) => fail!("{m}"),
            Cmp::Unclear => trivial("within rounding of a threshold"),
            Cmp::Same { meaningful } => Verdict::Pass {
                class: match (c.afspc_constructor, c.afspc_propagate, j.kind == Kind::Near) {
                    (true, true, true) => "AFSPC constructor and propagation, near earth",
                    (true, true, false) => "AFSPC constructor and propagation, deep space",
                    (true, false, true) => "AFSPC constructor only, near earth",
                    (true, false, false) => "AFSPC constructor only, deep space",
                    (false, true, true) => "AFSPC propagation only, near earth",
                    (false, true, false) => "AFSPC propagation only, deep space",
                    (false, false, true) => "default, near earth",
                    (false, false, false) => "default, deep space",
                },
                nontrivial: meaningful && matches!(j.outcome, Outcome::Ok { .. }),
            },
        };
        // the convenience method and the general one
        let mut state = constants.initial_state();
        let general =
            constants.propagate_from_state(sgp4::MinutesSinceEpoch(c.t.0), state.as_mut(), c.afspc_propagate);
        if let Err(m) = same_prediction(&got, &general, 1e-9, 1e-12) {
            fail!("general propagation differs: {m}");
        }
        // the same by hand
        let deg = PI / 180.0;
        let seen = Mutex::new(vec![]);
        let (epoch, afspc) = if c.afspc_constructor {
            (elements.epoch_afspc_compatibility_mode(), true)
        } else {
            (elements.epoch(), false)
        };
        let by_hand = |g: sgp4::Geopotential, gst: Option<f64>| -> Result<sgp4::Constants, String> {
            let orbit = sgp4::Orbit::from_kozai_elements(
                &g, elements.inclination * deg, elements.right_ascension * deg, elements.eccentricity,
                elements.argument_of_perigee * deg, elements.mean_anomaly * deg, elements.mean_motion * (PI / 720.0),
            )
            .map_err(|e| format!("{e:?}"))?;
            sgp4::Constants::new(
                g,
                |y| {
                    seen.lock().unwrap().push(y);
                    match gst {
                        Some(x) => x,
                        None if afspc => sgp4::afspc_epoch_to_sidereal_time(y),
                        None => sgp4::iau_epoch_to_sidereal_time(y),
                    }
                },
                epoch,
                elements.drag_term,
                orbit,
            )
            .map_err(|e| format!("{e:?}"))
        };
        match by_hand(if afspc { sgp4::WGS72 } else { sgp4::WGS84 }, None) {
            Err(m) => fail!("construction by hand refused: {m}"),
            Ok(h) => {
                let g = propagate(&h, c.t.0, c.afspc_propagate);
                if !j.ambiguous {
                    // the same sidereal angle and epoch, and other inputs that differ by a rounding at most
                    let same = judge(&Inputs { gsto_unc: 0.0, years_unc: 0.0, ..inp }, c.t.0, c.afspc_propagate);
                    if let Err(m) = same_outcome(&got, &g, 4.0 * same.dev_r + 1e-10, 4.0 * same.dev_v + 1e-13, same.tol_e) {
                        fail!("construction by hand differs from the constructor: {m}");
                    }
                }
            }
        }
        // another gravity model and sidereal angle
        let mut inp2 = inp;
        inp2.g = c.g.to_ref();
        inp2.gsto = c.gst.0;
        inp2.gsto_unc = 0.0;
        let n2 = r::unkozai(&inp2.g, inp2.el.incl, inp2.el.ecc, inp2.kozai.unwrap());
        if n2 > 1e-9 {
            match by_hand(c.g.to_sgp4(), Some(c.gst.0)) {
                Err(m) => fail!("construction by hand refused: {m}"),
                Ok(h) => {
                    let g = propagate(&h, c.t.0, c.afspc_propagate);
                    if let Cmp::Differ(m) = compare(&judge(&inp2, c.t.0, c.afspc_propagate), &g, c.t.0) {
                        fail!("by hand with gravity {:?} and sidereal angle {:?}: {m}", c.g, c.gst);
                    }
                }
            }
        }
        for y in seen.lock().unwrap().iter() {
            if y.to_bits() != epoch.to_bits() {
                fail!("the sidereal-time function was called with {y:?}, the epoch is {epoch:?}");
            }
        }
        verdict
    }
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case06 {
    pub g: G,
    pub incl: F,
    pub raan: F,
    pub ecc: F,
    pub argp: F,
    pub ma: F,
    pub n: F,
}

/// the Brouwer mean motion of the published expression, and how well it is determined
pub fn brouwer(g: &G, incl: f64, ecc: f64, n: f64) -> (f64, f64) {
    let g = g.to_ref();
    let want = r::unkozai(&g, incl, ecc, n);
    let mut tol = 1e-14 * want.abs();
    for s in [1.0, -1.0] {
        for v in [
            r::unkozai(&g, incl, ecc, n * (1.0 + s * DELTA)),
            r::unkozai(&g, incl, ecc * (1.0 + s * DELTA), n),
            r::unkozai(&g, incl + s * DELTA, ecc, n),
        ] {
            tol += 4.0 * (v - want).abs();
        }
    }
    (want, tol)
}

pub struct C06;
impl Prop for C06 {
    type Case = Case06;
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "Kozai elements over all gravity models, eccentricities mostly in [0, 1) but also negative and beyond 1, inclinations and mean motions incl. zero, negative and those whose Brouwer value is negative; non-trivial: a positive mean motion whose conversion is determined to 1e-9 relative, or an error case"
    }
    fn quick(&self) -> u64 {
        10_000_000
    }
    fn gen(&self, s: &mut Src) -> Case06 {
        let sat = gens::any_sat(s);
        let any = |s: &mut Src, x: F| if s.chance(1, 6) { F(s.pick(&[-0.0, 1e10, -1e-300, 6.5, -7.0])) } else { x };
        let n = match s.weighted(&[10, 4, 2, 1, 1]) {
            0 => sat.no.0,
            1 => s.log10(-6.0, 3.0),
            2 => -s.log10(-6.0, 2.0),
            3 => s.pick(&[0.0, -0.0, 5e-324, -5e-324]),
            _ => s.log10(-300.0, -5.0),
        };
        let ecc = match s.weighted(&[10, 6, 4, 2, 1]) {
            0 => sat.ecc.0,
            1 => s.unit(),
            2 => 1.0 - s.log10(-12.0, -0.5),
            3 => -s.log10(-12.0, 0.0),
            _ => s.sign() * s.range(1.0, 10.0),
        };
        Case06 {
            g: gens::gravity(s),
            incl: sat.incl,
            raan: any(s, sat.node),
            ecc: F(ecc),
            argp: any(s, sat.argp),
            ma: any(s, sat.ma),
            n: F(n),
        }
    }
    fn check(&self, c: &Case06) -> Verdict {
        let got = sgp4::Orbit::from_kozai_elements(
            &c.g.to_sgp4(), c.incl.0, c.raan.0, c.ecc.0, c.argp.0, c.ma.0, c.n.0,
        );
        if c.n.0 <= 0.0 {
            return match got {
                Err(sgp4::KozaiElementsError::NegativeKozaiMeanMotion) => pass("no positive Kozai mean motion"),
                x => fail!("mean motion {:?} gives {x:?}", c.n),
            };
        }
        let (want, tol) = brouwer(&c.g, c.incl.0, c.ecc.0, c.n.0);
        if let Ok(o) = &got {
            let bits = |a: f64, b: F| a.to_bits() == b.0.to_bits();
            if !(bits(o.inclination, c.incl)
                && bits(o.right_ascension, c.raan)
                && bits(o.eccentricity, c.ecc)
                && bits(o.argument_of_perigee, c.argp)
                && bits(o.mean_anomaly, c.ma))
            {
                fail!("other elements changed: {o:?}");
            }
        }
        if !tol.is_finite() || !want.is_finite() {
            return trivial("not determined");
        }
        match got {
            Ok(o) => {
                if want < -tol {
                    fail!("orbit returned, the Brouwer mean motion is {want:?}");
                }
                if !(o.mean_motion > 0.0) {
                    fail!("orbit returned with mean motion {:?}", o.mean_motion);
                }
                if !((o.mean_motion - want).abs() <= tol) {
                    fail!("Brouwer mean motion {:?}, published expression {want:?} ± {tol:e}", o.mean_motion);
                }
                Verdict::Pass { class: "converted", nontrivial: tol <= 1e-9 * want.abs() }
            }
            Err(sgp4::KozaiElementsError::NegativeBrouwerMeanMotion) => {
                if want > tol {
                    fail!("refused as negative, the Brouwer mean motion is {want:?} ± {tol:e}");
                }
                pass("no positive Brouwer mean motion")
            }
            Err(e) => fail!("mean motion {:?} gives {e:?}", c.n),
        }
    }
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case07 {
    /// propagation, at times around those where the outcome changes
    Run { sat: Sat, times: Vec<F>, afspc: bool },
    /// eccentricity at epoch
    Epoch { sat: Sat, ecc: F },
    /// elements with an unusable eccentricity or mean motion
    Elements { els: Els, ecc: Option<F>, mm: Option<F>, afspc: bool },
}

fn class_of(o: &Outcome) -> u8 {
    match o {
        Outcome::Ok { .. } => 0,
        Outcome::Ecc(_) => 1,
        Outcome::PertEcc(_) => 2,
        Outcome::SemiLatus => 3,
    }
}

/// a time at which the model's outcome changes class, between a and b
fn bisect(sat: &r::Sat, mut a: f64, mut b: f64, afspc: bool) -> (f64, f64) {
    let ca = class_of(&sat.propagate(a, afspc));
    for _ in 0..60 {
        let m = a + (b - a) / 2.0;
        if m == a || m == b {
            break;
        }
        if class_of(&sat.propagate(m, afspc)) == ca {
            a = m;
        } else {
            b = m;
        }
    }
    (a, b)
}

fn diverging_sat(s: &mut Src) -> Sat {
    let mut sat = match s.weighted(&[4, 3, 2, 2]) {
        0 => gens::near_sat(s),
        1 => gens::deep_sat(s),
        2 => gens::resonant_sat(s),
        _ => {
            // almost circular or almost parabolic deep-space orbits: the perturbed eccentricity leaves [0, 1]
            let mut x = if s.chance(1, 2) { gens::deep_sat(s) } else { gens::resonant_sat(s) };
            x.ecc = F(if s.chance(2, 3) { s.log10(-8.0, -2.5) } else { 1.0 - s.log10(-5.0, -1.5) });
            x
        }
    };
    match s.weighted(&[4, 2, 1]) {
        0 => sat.bstar = F(s.sign() * s.log10(-4.0, 0.5)),
        1 => {}
        _ => {
            sat.bstar = F(-s.log10(-3.0, 0.5));
            sat.ecc = F(1.0 - s.log10(-4.0, -0.3));
        }
    }
    sat
}

pub struct C07;

impl C07 {
    fn payload_shown(&self, e: &sgp4::Error) -> Result<(), String> {
        let text = e.to_string();
        let values: Vec<f64> = match e {
            sgp4::Error::OutOfRangeEccentricity { eccentricity, t }
            | sgp4::Error::OutOfRangePerturbedEccentricity { eccentricity, t } => vec![*eccentricity, *t],
            sgp4::Error::NegativeSemiLatusRectum { t } => vec![*t],
        };
        shown(&text, &values)
    }
}

/// every value must be among the numbers in the text
fn shown(text: &str, values: &[f64]) -> Result<(), String> {
    let numbers: Vec<f64> = text
        .split(|c: char| !(c.is_ascii_alphanumeric() || matches!(c, '.' | '-' | '+')))
        .flat_map(|w| [w, w.trim_end_matches('.'), w.split('=').next_back().unwrap_or("")])
        .filter_map(|w| w.parse::<f64>().ok())
        .collect();
    for v in values {
        if !numbers.iter().any(|n| (n - v).abs() <= 1e-6 * v.abs() || n == v) {
            return Err(format!("the message {text:?} does not show {v:?}"));
        }
    }
    Ok(())
}

impl Prop for C07 {
    type Case = Case07;
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "orbits with strong positive or negative drag or extreme eccentricity, at times bisected (with the model) to both sides of every change of outcome and at random times; eccentricities at epoch around and beyond [0, 1); unusable elements; non-trivial: the expected outcome is an error, or a prediction next to a change of outcome"
    }
    fn quick(&self) -> u64 {
        450_000
    }
    fn gen(&self, s: &mut Src) -> Case07 {
        match s.weighted(&[12, 2, 2, 8]) {
            0 => {
                let sat = diverging_sat(s);
                let afspc = s.chance(1, 2);
                let model = sat.inputs().sat(0.0);
                let mut times = vec![];
                let sign = s.sign();
                let top = if model.kind == Kind::Near || model.kind == Kind::Deep { 7.0 } else { 5.3 };
                let mut last = (0.0, class_of(&model.propagate(0.0, afspc)));
                times.push(F(0.0));
                for k in 0..10 {
                    let t = sign * 10f64.powf(1.0 + (top - 1.0) * (k as f64 + s.unit()) / 10.0);
                    let c = class_of(&model.propagate(t, afspc));
                    if c != last.1 {
                        let (a, b) = bisect(&model, last.0, t, afspc);
                        let gap = s.log10(-9.0, -3.0);
                        times.push(F(a - (b - a).signum() * a.abs() * gap));
                        times.push(F(b + (b - a).signum() * b.abs() * gap));
                    }
                    if times.len() < 8 {
                        times.push(F(t));
                    }
                    last = (t, c);
                }
                Case07::Run { sat, times, afspc }
            }
            1 => {
                let sat = gens::any_sat(s);
                let ecc = match s.weighted(&[2, 2, 2, 2]) {
                    0 => s.pick(&[1.0, -5e-324, 1.0 + f64::EPSILON, -0.0, 0.0, 1.0 - f64::EPSILON / 2.0, -1.0, 2.0]),
                    1 => -s.log10(-12.0, 3.0),
                    2 => 1.0 + s.log10(-12.0, 3.0),
                    _ => s.pick(&[f64::INFINITY, f64::NEG_INFINITY, 1e308, -1e308, 0.5]),
                };
                Case07::Epoch { sat, ecc: F(ecc) }
            }
            3 => {
                let mut base = match s.weighted(&[2, 3, 3]) {
                    0 => gens::near_sat(s),
                    1 => gens::deep_sat(s),
                    _ => gens::resonant_sat(s),
                };
                if s.chance(1, 3) {
                    base.ecc = F(if s.chance(1, 2) { s.log10(-6.0, -1.5) } else { 1.0 - s.log10(-3.0, -0.5) });
                }
                let (sat, t) = gens::aimed(s, base, 5.3);
                let mut times = vec![F(t)];
                for _ in 0..4 {
                    times.push(F(t * (1.0 + s.sign() * s.log10(-8.0, -1.0))));
                }
                Case07::Run { sat, times, afspc: s.chance(1, 2) }
            }
            _ => {
                let els = any_els(s);
                let (ecc, mm) = match s.below(3) {
                    0 => (Some(F(1.0 + s.log10(-9.0, 1.0))), None),
                    1 => (Some(F(-s.log10(-9.0, 1.0))), None),
                    _ => (None, Some(F(-s.log10(-6.0, 2.0) * s.pick(&[0.0, 1.0])))),
                };
                Case07::Elements { els, ecc, mm, afspc: s.chance(1, 2) }
            }
        }
    }
    fn check(&self, c: &Case07) -> Verdict {
        match c {
            Case07::Run { sat, times, afspc } => {
                let k = match sat.constants() {
                    Ok(k) => k,
                    Err(e) => fail!("eccentricity {:?} refused: {e:?}", sat.ecc),
                };
                let inp = sat.inputs();
                let (mut errors, mut oks, mut kinds) = (0, 0, [false; 4]);
                for t in times {
                    let got = propagate(&k, t.0, *afspc);
                    if let Err(e) = &got {
                        if let Err(m) = self.payload_shown(e) {
                            fail!("{m}");
                        }
                    }
                    let j = judge(&inp, t.0, *afspc);
                    match compare(&j, &got, t.0) {
                        Cmp::Differ(m) => fail!("t = {:?}: {m}", t.0),
                        Cmp::Unclear => {}
                        Cmp::Same { .. } => {
                            kinds[class_of(&j.outcome) as usize] = true;
                            if got.is_err() { errors += 1 } else { oks += 1 }
                        }
                    }
                }
                match (errors, kinds) {
                    (0, _) => trivial("no error"),
                    (_, [_, true, false, false]) if oks > 0 => pass("mean eccentricity, with predictions before"),
                    (_, [_, true, false, false]) => pass("mean eccentricity"),
                    (_, [_, _, true, _]) => pass("perturbed eccentricity"),
                    _ => pass("semi-latus rectum"),
                }
            }
            Case07::Epoch { sat, ecc } => {
                let mut sat = *sat;
                sat.ecc = *ecc;
                let valid = ecc.0 >= 0.0 && ecc.0 < 1.0;
                match (sat.constants(), valid) {
                    (Ok(_), true) => pass("valid eccentricity at epoch"),
                    (Err(e), true) => fail!("eccentricity {ecc:?} refused: {e:?}"),
                    (Ok(_), false) => fail!("eccentricity {ecc:?} accepted"),
                    (Err(e), false) => {
                        if e.0.to_bits() != ecc.0.to_bits() {
                            fail!("eccentricity {ecc:?} refused as {:?}", e.0);
                        }
                        if ecc.0.is_finite() {
                            if let Err(m) = shown(&e.to_string(), &[ecc.0]) {
                                fail!("{m}");
                            }
                        }
                        pass("invalid eccentricity at epoch")
                    }
                }
            }
            Case07::Elements { els, ecc, mm, afspc } => {
                let mut els = els.clone();
                if let Some(e) = ecc {
                    els.ecc = *e;
                }
                if let Some(n) = mm {
                    els.mm = *n;
                }
                let e = els.build();
                let r = if *afspc {
                    sgp4::Constants::from_elements_afspc_compatibility_mode(&e)
                } else {
                    sgp4::Constants::from_elements(&e)
                };
                let g = if *afspc { r::wgs72() } else { r::wgs84() };
                match (ecc, mm, r) {
                    (_, _, Ok(_)) => fail!("unusable elements accepted"),
                    (Some(x), _, Err(sgp4::ElementsError::OutOfRangeEpochEccentricity(y))) => {
                        if x.0.to_bits() != y.0.to_bits() {
                            fail!("eccentricity {x:?} refused as {:?}", y.0);
                        }
                        pass("eccentricity of elements")
                    }
                    // the mean motion may be unusable as well
                    (Some(x), _, Err(sgp4::ElementsError::KozaiElementsError(k))) => {
                        let n = r::unkozai(&g, els.incl.0 * PI / 180.0, x.0, els.mm.0 * PI / 720.0);
                        if n > 1e-6 {
                            fail!("eccentricity {x:?} refused as {k:?}");
                        }
                        trivial("eccentricity and mean motion of elements")
                    }
                    (_, Some(_), Err(x)) => match x {
                        sgp4::ElementsError::KozaiElementsError(
                            sgp4::KozaiElementsError::NegativeKozaiMeanMotion,
                        ) => pass("mean motion of elements"),
                        x => fail!("mean motion {mm:?} refused as {x:?}"),
                    },
                    (None, None, Err(x)) => fail!("{x:?}"),
                }
            }
        }
    }
}
