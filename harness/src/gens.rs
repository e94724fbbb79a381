//! Generators of orbits, times, epochs and gravity models, stratified by the branches of the theory.

use crate::engine::{Src, F};
use crate::numeric::{Gst, Sat, G};
use crate::reference::{self as r, PI, TWOPI};

pub fn neighbour(s: &mut Src, x: f64) -> f64 {
    // the literal itself, the adjacent floats, or close by
    match s.weighted(&[4, 2, 2, 1, 1]) {
        0 => x,
        1 => f64::from_bits(x.to_bits() - 1),
        2 => f64::from_bits(x.to_bits() + 1),
        3 => x * (1.0 - s.log10(-12.0, -3.0)),
        _ => x * (1.0 + s.log10(-12.0, -3.0)),
    }
}

pub fn gravity(s: &mut Src) -> G {
    match s.weighted(&[3, 3, 1, 2]) {
        0 => G::from_ref(&r::wgs72()),
        1 => G::from_ref(&r::wgs84()),
        2 => G::from_ref(&r::wgs72old()),
        _ => {
            let mut g = r::wgs84();
            g.re *= s.range(0.9, 1.1);
            g.xke *= s.range(0.95, 1.05);
            g.j2 *= s.range(0.2, 2.0);
            g.j3 *= s.range(-2.0, 2.0);
            g.j4 *= s.range(-2.0, 2.0);
            G::from_ref(&g)
        }
    }
}

pub fn inclination(s: &mut Src) -> f64 {
    match s.weighted(&[6, 2, 1, 2, 2, 2, 1, 2, 1, 1, 1]) {
        0 => s.range(0.0, PI),
        // Lyddane
        1 => s.range(0.0, 0.2),
        2 => 0.0,
        // around the 3° switch of the node rates
        3 => s.range(0.0, 0.1),
        4 => match s.below(2) {
            0 => neighbour(s, 5.2359877e-2),
            _ => neighbour(s, PI - 5.2359877e-2),
        },
        // around the Lyddane switch
        5 => 0.2 + s.sign() * s.log10(-6.0, -1.3),
        6 => s.pick(&[PI, PI / 2.0, 98.7 * PI / 180.0, 63.4349 * PI / 180.0]),
        7 => PI - s.range(0.0, 0.1),
        // around |1 + cos I| = 1.5e-12
        8 => PI - s.log10(-8.0, -4.0),
        9 => s.log10(-8.0, -1.0),
        // unusual, yet the theory defines them
        _ => match s.below(3) {
            0 => -s.range(0.0, PI),
            1 => s.range(PI, TWOPI),
            _ => -s.log10(-8.0, -1.0),
        },
    }
}

pub fn angle(s: &mut Src) -> f64 {
    match s.weighted(&[8, 1, 1, 1]) {
        0 => s.range(0.0, TWOPI),
        1 => s.pick(&[0.0, PI / 2.0, PI, 1.5 * PI, TWOPI]),
        2 => s.range(-TWOPI, 0.0),
        _ => s.range(-20.0, 20.0),
    }
}

pub fn bstar(s: &mut Src) -> f64 {
    match s.weighted(&[2, 6, 2, 1]) {
        0 => 0.0,
        1 => s.sign() * s.log10(-7.0, -2.5),
        2 => s.log10(-5.0, -3.0),
        _ => s.sign() * s.log10(-2.5, 0.0),
    }
}

pub fn time(s: &mut Src, max_log: f64) -> f64 {
    let sg = s.sign();
    sg * match s.weighted(&[1, 3, 4, 4, 2, 1]) {
        0 => 0.0,
        1 => s.range(0.0, 200.0),
        2 => s.range(0.0, 14400.0),
        3 => s.log10(0.0, max_log),
        4 => {
            // integrator steps
            let k = 10f64.powf(s.range(0.0, max_log - 2.86)).floor();
            let base = 720.0 * k;
            match s.below(4) {
                0 => base,
                1 => f64::from_bits(base.to_bits() - 1),
                2 => f64::from_bits(base.to_bits() + 1),
                _ => base + s.range(-720.0, 720.0),
            }
        }
        _ => s.int(0, 20000) as f64,
    }
}

/// mostly within 10^max_log, sometimes within 10^far
pub fn long_time(s: &mut Src, max_log: f64, far: f64, one_in: u64) -> f64 {
    let m = if s.chance(1, one_in) { far } else { max_log };
    time(s, m)
}

/// years since J2000
pub fn years(s: &mut Src) -> f64 {
    match s.weighted(&[12, 2, 2, 1]) {
        0 => s.range(-43.0, 57.0),
        1 => s.pick(&[0.0, -50.0, 20.0, -43.0]),
        3 => s.range(-150.0, 150.0),
        _ => s.int(-15000, 20000) as f64 / 365.25,
    }
}

pub fn gst(s: &mut Src) -> Gst {
    match s.weighted(&[3, 3, 1]) {
        0 => Gst::Iau,
        1 => Gst::Afspc,
        _ => Gst::Fixed(F(angle(s))),
    }
}

fn small_ecc(s: &mut Src) -> f64 {
    match s.weighted(&[1, 1, 2, 3, 2]) {
        0 => 0.0,
        1 => s.log10(-8.0, -4.0),
        2 => neighbour(s, 1.0e-4),
        3 => s.log10(-4.0, -1.5),
        _ => s.range(0.0, 0.3),
    }
}

pub const NEAR_LIMIT: f64 = TWOPI / 225.0;

pub fn near_sat(s: &mut Src) -> Sat {
    let g = gravity(s);
    let gr = g.to_ref();
    let amax = (gr.xke / NEAR_LIMIT).powf(2.0 / 3.0);
    let mut ecc = small_ecc(s);
    let (no, band) = match s.weighted(&[10, 1, 1]) {
        0 => {
            // by perigee height
            let hp = match s.weighted(&[3, 3, 4, 4, 8, 1]) {
                0 => s.range(0.0, 98.0),
                1 => s.range(98.0, 156.0),
                2 => s.range(156.0, 220.0),
                3 => {
                    let edge = s.pick(&[98.0, 156.0, 220.0]);
                    edge + s.sign() * s.log10(-6.0, 0.5)
                }
                4 => s.range(220.0, 2500.0),
                _ => s.range(-1500.0, 0.0),
            };
            let rp = 1.0 + hp / gr.re;
            if s.chance(1, 4) {
                // strongly eccentric, still near-earth
                let emax = (1.0 - rp / amax).max(0.0);
                ecc = s.range(0.0, emax);
            }
            let a = (rp / (1.0 - ecc)).min(amax * 0.999999);
            (gr.xke / a.powf(1.5), true)
        }
        1 => match s.below(4) {
            0 => (f64::from_bits(NEAR_LIMIT.to_bits() + 1 + s.draw(3)), false),
            _ => (NEAR_LIMIT * (1.0 + s.log10(-9.0, -1.0)), false),
        },
        _ => (s.range(NEAR_LIMIT * 1.000001, 0.12), false),
    };
    let _ = band;
    Sat {
        g,
        incl: F(inclination(s)),
        node: F(angle(s)),
        ecc: F(ecc),
        argp: F(angle(s)),
        ma: F(angle(s)),
        no: F(no),
        bstar: F(bstar(s)),
        years: F(years(s)),
        gst: gst(s),
    }
}

fn deep_common(s: &mut Src, no: f64, ecc: f64) -> Sat {
    Sat {
        g: gravity(s),
        incl: F(inclination(s)),
        node: F(angle(s)),
        ecc: F(ecc),
        argp: F(angle(s)),
        ma: F(angle(s)),
        no: F(no),
        bstar: F(if s.chance(1, 2) { bstar(s) } else { 0.0 }),
        years: F(years(s)),
        gst: gst(s),
    }
}

pub fn deep_ecc(s: &mut Src) -> f64 {
    match s.weighted(&[2, 4, 2, 1, 1]) {
        0 => small_ecc(s),
        1 => s.range(0.0, 0.75),
        2 => neighbour(s, 0.5),
        3 => s.range(0.5, 0.9),
        _ => s.range(0.9, 0.995),
    }
}

/// deep space outside the resonance bands
pub fn deep_sat(s: &mut Src) -> Sat {
    let ecc = deep_ecc(s);
    let (no, ecc) = match s.weighted(&[4, 4, 2, 2, 2, 1, 1]) {
        0 => (s.range(0.00523599, 0.008259), ecc),
        1 => (s.range(0.00924001, NEAR_LIMIT), ecc),
        2 => (s.range(0.0005, 0.00349), ecc),
        // half-day mean motion, low eccentricity
        3 => (s.range(8.26e-3, 9.24e-3), if ecc >= 0.5 { ecc - 0.5 } else { ecc }),
        // just outside the bands
        4 => (
            match s.below(4) {
                0 => 0.0034906585,
                1 => 0.0052359877,
                2 => f64::from_bits(8.26e-3f64.to_bits() - 1),
                _ => f64::from_bits(9.24e-3f64.to_bits() + 1),
            },
            ecc,
        ),
        5 => match s.below(4) {
            0 => (f64::from_bits(NEAR_LIMIT.to_bits() - s.draw(3)), ecc),
            _ => (NEAR_LIMIT * (1.0 - s.log10(-9.0, -1.0)), ecc),
        },
        _ => (s.log10(-5.0, -3.0), ecc),
    };
    deep_common(s, no, ecc)
}

pub fn resonant_sat(s: &mut Src) -> Sat {
    if s.chance(1, 2) {
        // one day
        let no = match s.weighted(&[4, 3, 1, 1]) {
            0 => s.range(0.0042, 0.0045),
            1 => s.range(0.00349066, 0.00523598),
            2 => f64::from_bits(0.0034906585f64.to_bits() + 1 + s.draw(3)),
            _ => f64::from_bits(0.0052359877f64.to_bits() - 1 - s.draw(3)),
        };
        let ecc = match s.weighted(&[4, 3, 1]) {
            0 => small_ecc(s),
            1 => s.range(0.0, 0.8),
            _ => s.range(0.8, 0.98),
        };
        deep_common(s, no, ecc)
    } else {
        let no = match s.weighted(&[4, 3, 1, 1]) {
            0 => s.range(8.6e-3, 8.9e-3),
            1 => s.range(8.26e-3, 9.24e-3),
            2 => f64::from_bits(8.26e-3f64.to_bits() + s.draw(3)),
            _ => f64::from_bits(9.24e-3f64.to_bits() - s.draw(3)),
        };
        let ecc = match s.weighted(&[3, 2, 2, 4, 1, 1, 1, 1]) {
            0 => s.range(0.5, 0.65),
            1 => s.range(0.65, 0.7),
            2 => s.range(0.7, 0.715),
            3 => s.range(0.715, 0.8),
            4 => s.range(0.8, 0.97),
            5 => neighbour(s, 0.65),
            6 => neighbour(s, 0.7),
            _ => neighbour(s, 0.715),
        };
        let ecc = if s.chance(1, 24) { f64::from_bits(0.5f64.to_bits() + s.draw(3)) } else { ecc };
        deep_common(s, no, ecc)
    }
}

pub fn any_sat(s: &mut Src) -> Sat {
    match s.below(3) {
        0 => near_sat(s),
        1 => deep_sat(s),
        _ => resonant_sat(s),
    }
}

/// the satellite with a drag term that brings its mean eccentricity next to a limit at the returned time
pub fn aimed(s: &mut Src, mut sat: Sat, max_log: f64) -> (Sat, f64) {
    let t = s.sign() * s.log10(1.5, max_log);
    let target = match s.weighted(&[4, 2, 2, 3]) {
        // where the periodic terms may make it negative
        0 => s.range(-0.001, 1e-4),
        1 => s.sign() * s.log10(-9.0, -3.5),
        2 => -0.001 + s.sign() * s.log10(-12.0, -3.5),
        _ => 1.0 - s.sign() * s.log10(-9.0, -2.0),
    };
    let em = |b: f64| {
        let mut x = sat;
        x.bstar = F(b);
        x.inputs().sat(0.0).propagate_traced(t, false).1.em
    };
    let (a, b) = (em(0.0), em(1e-5));
    let drag = (target - a) / (b - a) * 1e-5;
    if drag.is_finite() && drag.abs() < 1e3 {
        sat.bstar = F(drag);
    }
    (sat, t)
}
