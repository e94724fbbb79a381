//! C01–C03: predictions against the reference model.

use crate::engine::*;
use crate::numeric::*;
use crate::reference::{Kind, Outcome};
use crate::{fail, gens};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sat: Sat,
    pub t: F,
    pub afspc: bool,
}

impl Case {
    pub fn got(&self) -> Result<Got, String> {
        let c = self.sat.constants().map_err(|e| format!("construction refused: {e:?}"))?;
        let t = sgp4::MinutesSinceEpoch(self.t.0);
        Ok(if self.afspc { c.propagate_afspc_compatibility_mode(t) } else { c.propagate(t) })
    }
}

fn near_class(j: &Judged, sat: &Sat) -> &'static str {
    let s = sat.inputs().sat(0.0);
    let circ = sat.ecc.0 <= 1.0e-4;
    match (j.outcome, s.perige) {
        (Outcome::Ok { .. }, p) if p < 98.0 => "perigee<98",
        (Outcome::Ok { .. }, p) if p < 156.0 => "perigee 98-156",
        (Outcome::Ok { .. }, p) if p < 220.0 => "perigee 156-220",
        (Outcome::Ok { .. }, _) if circ => "perigee>220 circular",
        (Outcome::Ok { .. }, _) => "perigee>220 eccentric",
        _ => "error",
    }
}

fn deep_class(j: &Judged, c: &Case) -> &'static str {
    let i = c.sat.inputs().sat(0.0).perturbed_inclination(c.t.0);
    match (j.outcome, j.kind, c.t.0 >= 0.0) {
        (Outcome::Ok { .. }, Kind::Deep, _) if i < 0.2 && c.afspc => "non-resonant lyddane afspc",
        (Outcome::Ok { .. }, Kind::Deep, _) if i < 0.2 => "non-resonant lyddane",
        (Outcome::Ok { .. }, Kind::Deep, _) => "non-resonant",
        (Outcome::Ok { .. }, Kind::OneDay, true) => "one-day forward",
        (Outcome::Ok { .. }, Kind::OneDay, false) => "one-day backward",
        (Outcome::Ok { .. }, Kind::HalfDay, fwd) => match (c.sat.ecc.0, fwd) {
            (e, true) if e <= 0.65 => "half-day e<=0.65 forward",
            (e, true) if e < 0.7 => "half-day e<0.7 forward",
            (e, true) if e < 0.715 => "half-day e<0.715 forward",
            (_, true) => "half-day e>=0.715 forward",
            (e, false) if e <= 0.65 => "half-day e<=0.65 backward",
            (e, false) if e < 0.7 => "half-day e<0.7 backward",
            (e, false) if e < 0.715 => "half-day e<0.715 backward",
            (_, false) => "half-day e>=0.715 backward",
        },
        _ => "error",
    }
}

/// the theory's prediction must be returned whenever it yields one
fn judge_case(c: &Case, class: impl Fn(&Judged) -> &'static str) -> Verdict {
    let j = judge(&c.sat.inputs(), c.t.0, c.afspc);
    let got = match c.got() {
        Ok(g) => g,
        Err(m) => fail!("{m}"),
    };
    // which error is returned otherwise is C07's business
    if !matches!(j.outcome, Outcome::Ok { .. }) {
        return trivial("model gives no prediction");
    }
    match compare(&j, &got, c.t.0) {
        Cmp::Differ(m) => Verdict::Fail(m),
        Cmp::Unclear => trivial("within rounding of a threshold"),
        Cmp::Same { meaningful } => Verdict::Pass { class: class(&j), nontrivial: meaningful },
    }
}

pub struct C01;
impl Prop for C01 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "explicit near-earth orbits stratified by perigee band, eccentricity class, inclination class, drag, gravity model and time; non-trivial: the model yields a prediction and the allowed difference (measured conditioning) is below 1e-3 km and 1e-6 km/s"
    }
    fn quick(&self) -> u64 {
        4_000_000
    }
    fn gen(&self, s: &mut Src) -> Case {
        Case { sat: gens::near_sat(s), t: F(gens::long_time(s, 5.5, 7.5, 8)), afspc: s.chance(1, 2) }
    }
    fn check(&self, c: &Case) -> Verdict {
        judge_case(c, |j| near_class(j, &c.sat))
    }
}

pub struct C02;
impl Prop for C02 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "explicit deep-space orbits outside the resonance bands, stratified by mean-motion band, eccentricity, inclination (low-inclination cases emphasised), epoch, mode and time; non-trivial: the model yields a prediction and the allowed difference is below 1e-3 km and 1e-6 km/s"
    }
    fn quick(&self) -> u64 {
        3_000_000
    }
    fn gen(&self, s: &mut Src) -> Case {
        Case { sat: gens::deep_sat(s), t: F(gens::long_time(s, 6.0, 7.5, 8)), afspc: s.chance(1, 2) }
    }
    fn check(&self, c: &Case) -> Verdict {
        let v = judge_case(c, |j| deep_class(j, c));
        if let Verdict::Pass { class: "non-resonant", nontrivial: true } = v {
            // away from the low-inclination switch the mode does not matter
            let i = c.sat.inputs().sat(0.0).perturbed_inclination(c.t.0);
            if i > 0.2 + 1e-9 {
                let other = Case { afspc: !c.afspc, ..c.clone() };
                let (a, b) = (c.got().unwrap(), other.got().unwrap());
                if let Err(m) = same_prediction(&a, &b, 1e-9, 1e-12) {
                    fail!("modes differ at perturbed inclination {i}: {m}");
                }
            }
        }
        v
    }
}

pub struct C03;
impl Prop for C03 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "explicit one-day and half-day resonant orbits incl. exact band edges and eccentricity breakpoints, both time directions, mostly up to 5e5 and sometimes up to 5e6 minutes, incl. exact integrator steps; non-trivial: the model yields a prediction and the allowed difference is below 1e-3 km and 1e-6 km/s"
    }
    fn quick(&self) -> u64 {
        600_000
    }
    fn gen(&self, s: &mut Src) -> Case {
        let sat = if s.chance(1, 16) { edge_sat(s) } else { gens::resonant_sat(s) };
        Case { sat, t: F(gens::long_time(s, 5.7, 6.7, 40)), afspc: s.chance(1, 2) }
    }
    fn check(&self, c: &Case) -> Verdict {
        judge_case(c, |j| deep_class(j, c))
    }
}

/// just outside or exactly on a band edge: must be handled as non-resonant / resonant as documented
fn edge_sat(s: &mut Src) -> Sat {
    let mut sat = gens::resonant_sat(s);
    sat.no = F(s.pick(&[0.0034906585, 0.0052359877, 8.26e-3, 9.24e-3]));
    if s.chance(1, 3) {
        sat.no = F(gens::neighbour(s, sat.no.0));
    }
    if sat.no.0 > 0.008 && s.chance(1, 3) {
        sat.ecc = F(gens::neighbour(s, 0.5));
    }
    sat
}
