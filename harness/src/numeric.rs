//! Comparison of crate predictions with the reference model, with a per-case tolerance.

use crate::engine::F;
use crate::reference::{self as r, El, Grav, Kind, Outcome};
use serde::{Deserialize, Serialize};

/// relative input perturbation used to measure conditioning (16 ulp)
pub const DELTA: f64 = 1.0 / (1u64 << 48) as f64;
/// relative perturbation of the sums formed at the time asked for (4 ulp): an input may have no
/// influence on a sum where the influences of its terms cancel, but the terms are still rounded
const SHIFT: f64 = 1.0 / (1u64 << 50) as f64;
/// allowed difference in units of the measured deviation; the resonance integrator adds rounding at
/// every step. Observed on 100k cases per regime: at most 0.65 (near), 0.42 (deep), 2.2 (resonant).
fn k_of(kind: Kind) -> f64 {
    match kind {
        Kind::Near | Kind::Deep => 12.0,
        Kind::OneDay | Kind::HalfDay => 30.0,
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct G {
    pub ae: F,
    pub ke: F,
    pub j2: F,
    pub j3: F,
    pub j4: F,
}

impl G {
    pub fn from_ref(g: &Grav) -> G {
        G { ae: F(g.re), ke: F(g.xke), j2: F(g.j2), j3: F(g.j3), j4: F(g.j4) }
    }
    pub fn to_ref(&self) -> Grav {
        Grav { re: self.ae.0, xke: self.ke.0, j2: self.j2.0, j3: self.j3.0, j4: self.j4.0 }
    }
    /// the crate's own constants for the models it names
    pub fn to_sgp4(&self) -> sgp4::Geopotential {
        if *self == G::from_ref(&r::wgs72()) {
            return sgp4::WGS72;
        }
        if *self == G::from_ref(&r::wgs84()) {
            return sgp4::WGS84;
        }
        sgp4::Geopotential { ae: self.ae.0, ke: self.ke.0, j2: self.j2.0, j3: self.j3.0, j4: self.j4.0 }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Gst {
    Iau,
    Afspc,
    Fixed(F),
}

impl Gst {
    pub fn value(&self, years: f64) -> f64 {
        match self {
            Gst::Iau => r::gst_iau(years),
            Gst::Afspc => r::gst_afspc(years),
            Gst::Fixed(x) => x.0,
        }
    }
    fn uncertainty(&self) -> f64 {
        match self {
            Gst::Fixed(_) => 0.0,
            _ => 1.0e-10,
        }
    }
}

/// a satellite with explicit Brouwer elements
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Sat {
    pub g: G,
    pub incl: F,
    pub node: F,
    pub ecc: F,
    pub argp: F,
    pub ma: F,
    pub no: F,
    pub bstar: F,
    pub years: F,
    pub gst: Gst,
}

impl Sat {
    pub fn inputs(&self) -> Inputs {
        Inputs {
            g: self.g.to_ref(),
            el: El {
                incl: self.incl.0,
                node: self.node.0,
                ecc: self.ecc.0,
                argp: self.argp.0,
                ma: self.ma.0,
                no: self.no.0,
            },
            bstar: self.bstar.0,
            years: self.years.0,
            gsto: self.gst.value(self.years.0),
            gsto_unc: self.gst.uncertainty(),
            years_unc: 0.0,
            kozai: None,
        }
    }
    pub fn orbit(&self) -> sgp4::Orbit {
        sgp4::Orbit {
            inclination: self.incl.0,
            right_ascension: self.node.0,
            eccentricity: self.ecc.0,
            argument_of_perigee: self.argp.0,
            mean_anomaly: self.ma.0,
            mean_motion: self.no.0,
        }
    }
    pub fn constants(&self) -> Result<sgp4::Constants, sgp4::OutOfRangeEpochEccentricity> {
        let gst = self.gst;
        match gst {
            Gst::Iau => sgp4::Constants::new(
                self.g.to_sgp4(), sgp4::iau_epoch_to_sidereal_time, self.years.0, self.bstar.0, self.orbit(),
            ),
            Gst::Afspc => sgp4::Constants::new(
                self.g.to_sgp4(), sgp4::afspc_epoch_to_sidereal_time, self.years.0, self.bstar.0, self.orbit(),
            ),
            Gst::Fixed(x) => {
                sgp4::Constants::new(self.g.to_sgp4(), move |_| x.0, self.years.0, self.bstar.0, self.orbit())
            }
        }
    }
}

/// inputs of the reference model
#[derive(Clone, Copy, Debug)]
pub struct Inputs {
    pub g: Grav,
    /// when `kozai` is set, `el.no` is ignored and derived from it
    pub el: El,
    pub bstar: f64,
    pub years: f64,
    pub gsto: f64,
    pub gsto_unc: f64,
    pub years_unc: f64,
    pub kozai: Option<f64>,
}

impl Inputs {
    pub fn sat(&self, noise: f64) -> r::Sat {
        let mut el = self.el;
        if let Some(n) = self.kozai {
            el.no = r::unkozai(&self.g, el.incl, el.ecc, n);
        }
        r::sgp4init(&self.g, &el, self.bstar, self.years, self.gsto, noise)
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Judged {
    pub outcome: Outcome,
    pub kind: Kind,
    /// allowed differences
    pub tol_r: f64,
    pub tol_v: f64,
    pub tol_e: f64,
    /// measured deviations, without the safety factor
    pub dev_r: f64,
    pub dev_v: f64,
    /// the outcome class is not determined at rounding level
    pub ambiguous: bool,
}

/// which side of a literal threshold its own value belongs to
const ECC_LITERALS: [(f64, f64); 5] = [(1.0e-4, -1.0), (0.5, 1.0), (0.65, -1.0), (0.7, 1.0), (0.715, 1.0)];
const NO_LITERALS: [(f64, f64); 5] =
    [(0.0034906585, -1.0), (0.0052359877, 1.0), (8.26e-3, 1.0), (9.24e-3, -1.0), (r::TWOPI / 225.0, -1.0)];

fn sides(x: f64, literals: &[(f64, f64)]) -> &'static [f64] {
    for (l, own) in literals {
        if (x - l).abs() <= l * DELTA * 1.01 {
            let s = if x == *l { *own } else { (x - l).signum() };
            return if s > 0.0 { &[1.0] } else { &[-1.0] };
        }
    }
    &[1.0, -1.0]
}

fn dist(a: &[f64; 3], b: &[f64; 3]) -> f64 {
    ((a[0] - b[0]).powi(2) + (a[1] - b[1]).powi(2) + (a[2] - b[2]).powi(2)).sqrt()
}
fn norm(a: &[f64; 3]) -> f64 {
    dist(a, &[0.0; 3])
}

pub fn judge(inp: &Inputs, t: f64, afspc: bool) -> Judged {
    let base_sat = inp.sat(0.0);
    let (base, trace) = base_sat.propagate_traced(t, afspc);
    // summed deviations of the quantities that decide the outcome
    let mut dev = [0.0f64; 5];
    let (mut dr, mut dv, mut de) = (0.0f64, 0.0f64, 0.0f64);
    let mut ambiguous = false;
    let mut consider = |s: r::Sat| -> (f64, f64, f64) {
        if s.kind != base_sat.kind {
            ambiguous = true;
            return (0.0, 0.0, 0.0);
        }
        let (out, tr) = s.propagate_traced(t, afspc);
        for (d, (a, b)) in dev.iter_mut().zip([
            (tr.em, trace.em), (tr.ep, trace.ep), (tr.el2, trace.el2), (tr.argp, trace.argp), (tr.ma, trace.ma),
        ]) {
            if !b.is_nan() {
                *d += (a - b).abs();
            }
        }
        match (out, base) {
            (Outcome::Ok { r, v }, Outcome::Ok { r: r0, v: v0 }) => (dist(&r, &r0), dist(&v, &v0), 0.0),
            (Outcome::Ecc(a), Outcome::Ecc(b)) => (0.0, 0.0, (a - b).abs()),
            (Outcome::PertEcc(a), Outcome::PertEcc(b)) => (0.0, 0.0, (a - b).abs()),
            (Outcome::SemiLatus, Outcome::SemiLatus) => (0.0, 0.0, 0.0),
            _ => {
                ambiguous = true;
                (0.0, 0.0, 0.0)
            }
        }
    };
    let mut add = |m: (f64, f64, f64)| {
        // NaN-propagating sums
        dr += m.0;
        dv += m.1;
        de += m.2;
    };
    fn max3(a: (f64, f64, f64), b: (f64, f64, f64)) -> (f64, f64, f64) {
        let m = |x: f64, y: f64| if x.is_nan() || y.is_nan() { f64::NAN } else { x.max(y) };
        (m(a.0, b.0), m(a.1, b.1), m(a.2, b.2))
    }
    let bump = |x: f64, s: f64| x + s * DELTA * x.abs().max(1.0);
    for which in 0..9 {
        let mut worst = (0.0, 0.0, 0.0);
        let ss: &[f64] = match which {
            0 => sides(inp.el.ecc, &ECC_LITERALS),
            1 if inp.kozai.is_none() => sides(inp.el.no, &NO_LITERALS),
            2 => sides(inp.el.incl, &[(5.2359877e-2, 1.0), (r::PI - 5.2359877e-2, -1.0)]),
            _ => &[1.0, -1.0],
        };
        for s in ss {
            let mut i = *inp;
            match which {
                0 => i.el.ecc *= 1.0 + s * DELTA,
                1 => match &mut i.kozai {
                    Some(n) => *n *= 1.0 + s * DELTA,
                    None => i.el.no *= 1.0 + s * DELTA,
                },
                2 => {
                    // keep exact zero inclination on its own branch
                    if i.el.incl == 0.0 {
                        continue;
                    }
                    i.el.incl += s * DELTA * i.el.incl.abs().min(1.0)
                }
                3 => i.el.node = bump(i.el.node, *s),
                4 => i.el.argp = bump(i.el.argp, *s),
                5 => i.el.ma = bump(i.el.ma, *s),
                6 => i.bstar *= 1.0 + s * DELTA,
                7 => i.years += s * (DELTA * (i.years.abs() + 100.0) + inp.years_unc),
                _ => i.gsto += s * (DELTA * 8.0 + inp.gsto_unc),
            }
            if (which == 6 && inp.bstar == 0.0) || (which >= 7 && base_sat.kind == Kind::Near) {
                continue;
            }
            worst = max3(worst, consider(i.sat(0.0)));
        }
        add(worst);
    }
    let m = max3(consider(inp.sat(3.0e-16)), consider(inp.sat(-3.0e-16)));
    add(m);
    for which in 0..6 {
        let mut s = base_sat.clone();
        s.shift[which] = SHIFT;
        add(consider(s));
    }
    // whether the last correction of Kepler's equation is made is decided at rounding level
    let residue = if let Outcome::Ok { .. } = base {
        let mut s = inp.sat(0.0);
        s.residue = 1.1e-12;
        match (s.propagate(t, afspc), base) {
            (Outcome::Ok { r, v }, Outcome::Ok { r: r0, v: v0 }) => (dist(&r, &r0), dist(&v, &v0)),
            _ => (0.0, 0.0),
        }
    } else {
        (0.0, 0.0)
    };
    let (fr, fv) = match base {
        Outcome::Ok { r, v } => (norm(&r), norm(&v)),
        _ => (0.0, 0.0),
    };
    let fe = match base {
        Outcome::Ecc(e) | Outcome::PertEcc(e) => e.abs(),
        _ => 0.0,
    };
    let k = k_of(base_sat.kind);
    let close = |x: f64, limit: f64, d: f64| !x.is_nan() && !((x - limit).abs() > k * d);
    ambiguous |= close(trace.em, 1.0, dev[0])
        || close(trace.em, -0.001, dev[0])
        || close(trace.ep, 0.0, dev[1])
        || close(trace.ep, 1.0, dev[1])
        || close(trace.el2, 1.0, dev[2])
        // angles known to no more than this leave the outcome open
        || !(k * (dev[3] + dev[4]) < 0.5);
    Judged {
        outcome: base,
        kind: base_sat.kind,
        tol_r: k * dr + residue.0 + 1e-13 * fr + 1e-11,
        tol_v: k * dv + residue.1 + 1e-13 * fv + 1e-14,
        tol_e: k * de + 1e-12 * fe + 1e-15,
        dev_r: dr + residue.0,
        dev_v: dv + residue.1,
        ambiguous,
    }
}

pub type Got = Result<sgp4::Prediction, sgp4::Error>;

pub enum Cmp {
    /// agreement, and how far the comparison means something
    Same { meaningful: bool },
    Unclear,
    Differ(String),
}

/// compares with the reference; an error must carry the right payload
pub fn compare(j: &Judged, got: &Got, t: f64) -> Cmp {
    if j.ambiguous || !(j.tol_r + j.tol_v + j.tol_e).is_finite() {
        return Cmp::Unclear;
    }
    match (j.outcome, got) {
        (Outcome::Ok { r, v }, Ok(p)) => {
            if !r.iter().chain(v.iter()).all(|x| x.is_finite()) {
                return Cmp::Unclear;
            }
            let (er, ev) = (dist(&r, &p.position), dist(&v, &p.velocity));
            // NaN must fail
            if !(er <= j.tol_r) || !(ev <= j.tol_v) {
                if j.tol_r > 1.0 && !(er > 100.0 * j.tol_r) && er.is_finite() {
                    return Cmp::Unclear;
                }
                return Cmp::Differ(format!(
                    "prediction differs from the model by {er:e} km, {ev:e} km/s (allowed {:e}, {:e}): got {:?} {:?}, expected {r:?} {v:?}",
                    j.tol_r, j.tol_v, p.position, p.velocity
                ));
            }
            Cmp::Same { meaningful: j.tol_r < 1e-3 && j.tol_v < 1e-6 }
        }
        (Outcome::Ecc(e), Err(sgp4::Error::OutOfRangeEccentricity { eccentricity, t: tt }))
        | (Outcome::PertEcc(e), Err(sgp4::Error::OutOfRangePerturbedEccentricity { eccentricity, t: tt })) => {
            if !((e - eccentricity).abs() <= j.tol_e) || tt.to_bits() != t.to_bits() {
                return Cmp::Differ(format!(
                    "error payload e={eccentricity:?} t={tt:?}, expected e={e:?} (±{:e}) t={t:?}", j.tol_e
                ));
            }
            Cmp::Same { meaningful: true }
        }
        (Outcome::SemiLatus, Err(sgp4::Error::NegativeSemiLatusRectum { t: tt })) => {
            if tt.to_bits() != t.to_bits() {
                return Cmp::Differ(format!("error payload t={tt:?}, expected {t:?}"));
            }
            Cmp::Same { meaningful: true }
        }
        (o, g) => Cmp::Differ(format!("outcome {g:?}, the model gives {o:?}")),
    }
}

/// ratio of the observed difference to the measured deviation, for calibration
pub fn ratio(j: &Judged, got: &Got) -> f64 {
    match (j.outcome, got) {
        (Outcome::Ok { r, v }, Ok(p)) => {
            (dist(&r, &p.position) / j.tol_r).max(dist(&v, &p.velocity) / j.tol_v)
        }
        _ => 0.0,
    }
}

pub fn same_prediction(a: &Got, b: &Got, tol_r: f64, tol_v: f64) -> Result<(), String> {
    same_outcome(a, b, tol_r, tol_v, if tol_r > 0.0 { 1e-9 } else { 0.0 })
}

pub fn same_outcome(a: &Got, b: &Got, tol_r: f64, tol_v: f64, tol_e: f64) -> Result<(), String> {
    match (a, b) {
        (Ok(x), Ok(y)) => {
            let (er, ev) = (dist(&x.position, &y.position), dist(&x.velocity, &y.velocity));
            let bits = |p: &sgp4::Prediction| -> Vec<u64> {
                p.position.iter().chain(p.velocity.iter()).map(|x| x.to_bits()).collect()
            };
            if bits(x) == bits(y) || (er <= tol_r && ev <= tol_v) {
                Ok(())
            } else {
                Err(format!("{x:?} and {y:?} differ by {er:e} km, {ev:e} km/s"))
            }
        }
        (Err(x), Err(y)) => {
            use sgp4::Error::*;
            let close = |a: f64, b: f64| {
                a.to_bits() == b.to_bits()
                    || (a.is_nan() && b.is_nan())
                    || (a - b).abs() <= tol_e * a.abs().max(1.0)
            };
            let ok = match (x, y) {
                (OutOfRangeEccentricity { eccentricity: a, t: ta }, OutOfRangeEccentricity { eccentricity: b, t: tb })
                | (
                    OutOfRangePerturbedEccentricity { eccentricity: a, t: ta },
                    OutOfRangePerturbedEccentricity { eccentricity: b, t: tb },
                ) => close(*a, *b) && ta.to_bits() == tb.to_bits(),
                (NegativeSemiLatusRectum { t: ta }, NegativeSemiLatusRectum { t: tb }) => ta.to_bits() == tb.to_bits(),
                _ => false,
            };
            if ok {
                Ok(())
            } else {
                Err(format!("{x:?} and {y:?}"))
            }
        }
        _ => Err(format!("{a:?} and {b:?}")),
    }
}
