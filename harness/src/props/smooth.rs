//! C22: trajectories are smooth and obey elementary mechanics; needs no reference model.

use super::build::propagate;
use crate::engine::*;
use crate::numeric::*;
use crate::reference::{wgs72, wgs84, Kind, PI};
use crate::{fail, gens};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sat: Sat,
    pub t: F,
    pub afspc: bool,
}

fn sub(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn len(a: [f64; 3]) -> f64 {
    (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]).sqrt()
}

pub struct C22;
impl Prop for C22 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C22"
    }
    fn rule(&self) -> &'static str {
        "orbits of all regimes with perigee above 200 km, eccentricity up to 0.8, inclination at least 0.25 rad from the equator, |B*| up to 1e-4, within ten days of the epoch and often on or next to a 720-minute step; non-trivial: perigee above 200 km"
    }
    fn quick(&self) -> u64 {
        5_000_000
    }
    fn gen(&self, s: &mut Src) -> Case {
        let mut sat = gens::any_sat(s);
        sat.bstar = F(sat.bstar.0.clamp(-1e-4, 1e-4));
        sat.g = G::from_ref(&if s.chance(1, 2) { wgs72() } else { wgs84() });
        sat.incl = F(s.range(0.25, PI - 0.25));
        sat.ecc = F(sat.ecc.0.min(0.8));
        sat.no = F(sat.no.0.max(0.003));
        // raise low perigees
        let a = (sat.g.ke.0 / sat.no.0).powf(2.0 / 3.0);
        let lowest = 1.0 + 201.0 / sat.g.ae.0;
        if a * (1.0 - sat.ecc.0) < lowest {
            if s.chance(1, 2) && a > lowest {
                sat.ecc = F(s.range(0.0, (1.0 - lowest / a).min(0.8)));
            } else {
                sat.no = F(sat.g.ke.0 / (lowest / (1.0 - sat.ecc.0)).powf(1.5));
            }
        }
        Case { sat, t: F(gens::time(s, 4.16).clamp(-14400.0, 14400.0)), afspc: s.chance(1, 2) }
    }
    fn check(&self, c: &Case) -> Verdict {
        let g = c.sat.g;
        let axis = (g.ke.0 / c.sat.no.0).powf(2.0 / 3.0) * g.ae.0;
        if axis * (1.0 - c.sat.ecc.0) < g.ae.0 + 200.0 || c.sat.no.0 < 0.003 {
            return trivial("outside the range of the property");
        }
        let k = match c.sat.constants() {
            Ok(k) => k,
            Err(e) => fail!("{e}"),
        };
        let at = |t: f64| propagate(&k, t, c.afspc);
        let p = match at(c.t.0) {
            Ok(p) => p,
            Err(e) => fail!("no prediction: {e}"),
        };
        let (r, v) = (len(p.position), len(p.velocity));
        // a thousandth of the local dynamical time
        let h = 1e-3 * r / v / 60.0;
        let (before, after) = (c.t.0 - h, c.t.0 + h);
        let (a, b) = match (at(before), at(after)) {
            (Ok(a), Ok(b)) => (a, b),
            x => fail!("no prediction next to one: {x:?}"),
        };
        let rate = sub(b.position, a.position).map(|x| x / (after - before) / 60.0);
        let ev = len(sub(rate, p.velocity)) / v;
        if !(ev <= 0.005) {
            fail!("position changes at {rate:?} km/s, velocity {:?}", p.velocity);
        }
        let mu = (g.ke.0 / 60.0).powi(2) * g.ae.0.powi(3);
        let energy = v * v / 2.0 - mu / r;
        if !((energy + mu / 2.0 / axis).abs() <= 0.005 * mu / r) {
            fail!("energy {energy} km²/s², of the orbit {}", -mu / 2.0 / axis);
        }
        let ecc = c.sat.ecc.0;
        if !(r >= 0.98 * axis * (1.0 - ecc) && r <= 1.02 * axis * (1.0 + ecc)) {
            fail!("distance {r} km, semi-major axis {axis} km, eccentricity {ecc}");
        }
        let (x, y) = (p.position, p.velocity);
        let n = [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]];
        let i = n[0].hypot(n[1]).atan2(n[2]);
        if !((i - c.sat.incl.0).abs() <= 0.02) {
            fail!("the plane is inclined by {i}, the orbit by {:?}", c.sat.incl);
        }
        match c.sat.inputs().sat(0.0).kind {
            Kind::Near => pass("near earth"),
            Kind::Deep => pass("deep space"),
            Kind::OneDay => pass("one-day resonance"),
            Kind::HalfDay => pass("half-day resonance"),
        }
    }
}
