//! C18: symmetries of the near-earth theory; needs no reference model except for tolerances.

use super::build::propagate;
use crate::engine::*;
use crate::numeric::*;
use crate::reference::{Outcome, PI, TWOPI};
use crate::{fail, gens};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Sym {
    Rotate(F),
    Turns(i32, i32, i32, i32),
    Epoch(F, Gst),
    Reverse,
    Scale(F),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sat: Sat,
    pub t: F,
    pub afspc: bool,
    pub sym: Sym,
}

fn map(g: &Got, f: impl Fn([f64; 3], bool) -> [f64; 3]) -> Got {
    match g {
        Ok(p) => Ok(sgp4::Prediction { position: f(p.position, false), velocity: f(p.velocity, true) }),
        Err(sgp4::Error::OutOfRangeEccentricity { eccentricity, t }) => {
            Err(sgp4::Error::OutOfRangeEccentricity { eccentricity: *eccentricity, t: *t })
        }
        Err(sgp4::Error::OutOfRangePerturbedEccentricity { eccentricity, t }) => {
            Err(sgp4::Error::OutOfRangePerturbedEccentricity { eccentricity: *eccentricity, t: *t })
        }
        Err(sgp4::Error::NegativeSemiLatusRectum { t }) => Err(sgp4::Error::NegativeSemiLatusRectum { t: *t }),
    }
}

pub struct C18;
impl Prop for C18 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "near-earth orbits and a transformation (rotation, whole turns, other epoch and sidereal time, time reversal without drag, scaling without drag); the prediction of the transformed orbit must be the transformed prediction within the measured conditioning of both; non-trivial: a prediction exists and the allowed difference is below 1e-3 km"
    }
    fn quick(&self) -> u64 {
        3_000_000
    }
    fn gen(&self, s: &mut Src) -> Case {
        let mut sat = gens::near_sat(s);
        let sym = match s.below(5) {
            0 => Sym::Rotate(F(gens::angle(s))),
            1 => Sym::Turns(s.int(-3, 3) as i32, s.int(-3, 3) as i32, s.int(-3, 3) as i32, s.int(-3, 3) as i32),
            2 => Sym::Epoch(F(gens::years(s)), gens::gst(s)),
            3 => Sym::Reverse,
            _ => Sym::Scale(F(s.log10(-0.3, 0.3))),
        };
        if matches!(sym, Sym::Reverse | Sym::Scale(_)) {
            sat.bstar = F(0.0);
        }
        Case { sat, t: F(gens::time(s, 5.0)), afspc: s.chance(1, 2), sym }
    }
    fn check(&self, c: &Case) -> Verdict {
        let mut other = c.sat;
        let mut t = c.t.0;
        match &c.sym {
            Sym::Rotate(a) => other.node = F(c.sat.node.0 + a.0),
            Sym::Turns(i, j, k, l) => {
                other.incl = F(c.sat.incl.0 + TWOPI * *l as f64);
                other.node = F(c.sat.node.0 + TWOPI * *i as f64);
                other.argp = F(c.sat.argp.0 + TWOPI * *j as f64);
                other.ma = F(c.sat.ma.0 + TWOPI * *k as f64);
            }
            Sym::Epoch(y, g) => {
                other.years = *y;
                other.gst = *g;
            }
            Sym::Reverse => {
                other.node = F(PI - c.sat.node.0);
                other.argp = F(PI - c.sat.argp.0);
                other.ma = F(-c.sat.ma.0);
                t = -t;
            }
            Sym::Scale(f) => other.g.ae = F(c.sat.g.ae.0 * f.0),
        }
        let (a, b) = match (c.sat.constants(), other.constants()) {
            (Ok(a), Ok(b)) => (a, b),
            _ => fail!("construction refused"),
        };
        let ga = propagate(&a, c.t.0, c.afspc);
        let gb = propagate(&b, t, c.afspc);
        let (ja, jb) = (judge(&c.sat.inputs(), c.t.0, c.afspc), judge(&other.inputs(), t, c.afspc));
        if ja.ambiguous || jb.ambiguous || !(ja.tol_r + jb.tol_r + ja.tol_v + jb.tol_v).is_finite() {
            return trivial("within rounding of a threshold");
        }
        // a branch taken by perigee height in kilometres depends on the scale
        if matches!(c.sym, Sym::Scale(_))
            && (c.sat.inputs().sat(0.0).perige < 220.0) != (other.inputs().sat(0.0).perige < 220.0)
            && c.sat.bstar.0 != 0.0
        {
            return trivial("other branch");
        }
        let want = match &c.sym {
            Sym::Rotate(x) => {
                let (sn, cs) = x.0.sin_cos();
                map(&ga, |v, _| [cs * v[0] - sn * v[1], sn * v[0] + cs * v[1], v[2]])
            }
            Sym::Turns(..) | Sym::Epoch(..) => map(&ga, |v, _| v),
            Sym::Reverse => map(&ga, |v, vel| if vel { [-v[0], v[1], -v[2]] } else { [v[0], -v[1], v[2]] }),
            Sym::Scale(f) => map(&ga, |v, _| v.map(|x| x * f.0)),
        };
        let f = if let Sym::Scale(f) = &c.sym { f.0.max(1.0) } else { 1.0 };
        let (tr, tv) = (f * (ja.tol_r + jb.tol_r), f * (ja.tol_v + jb.tol_v));
        match (&want, &gb) {
            (Ok(_), Ok(_)) => {
                if tr > 1.0 {
                    return trivial("badly conditioned");
                }
                if let Err(m) = same_prediction(&want, &gb, tr, tv) {
                    fail!("{:?} broken: expected {m}", c.sym);
                }
            }
            (Err(_), Err(_)) => return trivial("error on both sides"),
            (x, y) => fail!("{:?} broken: {x:?} but {y:?}", c.sym),
        }
        let nontrivial = tr < 1e-3 && matches!(ja.outcome, Outcome::Ok { .. });
        let class = match &c.sym {
            Sym::Rotate(_) => "rotation",
            Sym::Turns(..) => "whole turns",
            Sym::Epoch(..) => "epoch",
            Sym::Reverse => "time reversal",
            Sym::Scale(_) => "scaling",
        };
        Verdict::Pass { class, nontrivial }
    }
}
