//! C05, C19: reused states, histories and threads.

use super::build::{any_els, propagate, Els};
use crate::engine::*;
use crate::numeric::*;
use crate::tleref::{self, Tle};
use crate::{fail, gens};
use serde::{Deserialize, Serialize};
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    /// propagate the main state to this time
    To(F),
    /// copy the main state, propagate the copy to this time
    Copy(F),
    /// a request the state may be unable to serve, made on a copy
    Back(F),
    /// a request without the state the orbit needs, or with one it does not have
    Misfit(F),
    /// store a copy
    Save,
    /// continue with the stored copy
    Restore,
    /// switch the compatibility mode
    Mode,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case05 {
    pub sat: Sat,
    pub afspc: bool,
    pub steps: Vec<Step>,
}

pub struct C05;

fn gap(s: &mut Src, t: f64) -> f64 {
    match s.weighted(&[2, 3, 3, 3, 2, 2, 1]) {
        // stay
        0 => 0.0,
        1 => s.range(0.0, 60.0),
        2 => s.range(0.0, 720.0),
        3 => s.range(0.0, 5000.0),
        // up to an exact integrator step, or the float next to it
        4 => {
            let k = (t / 720.0).floor() + 1.0 + s.below(3) as f64;
            let x = match s.below(3) {
                0 => k * 720.0,
                1 => f64::from_bits((k * 720.0).to_bits() - 1),
                _ => f64::from_bits((k * 720.0).to_bits() + 1),
            };
            (x - t).max(0.0)
        }
        5 => 720.0 * s.below(6) as f64,
        _ => s.log10(3.0, 5.5),
    }
}

/// a state that belongs to another orbit
fn foreign() -> sgp4::ResonanceState {
    let k = sgp4::Constants::new(
        sgp4::WGS84,
        |_| 1.0,
        10.0,
        0.0,
        sgp4::Orbit {
            inclination: 1.1,
            right_ascension: 2.0,
            eccentricity: 0.7,
            argument_of_perigee: 4.7,
            mean_anomaly: 0.3,
            mean_motion: 0.00875,
        },
    );
    k.ok().and_then(|k| k.initial_state()).expect("half-day orbits have a state")
}

impl Prop for C05 {
    type Case = Case05;
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "histories of up to 14 (one in 400: up to 500) steps on one state (times moving away from the epoch on either side, repeats, exact integrator steps, copies, saved and restored states, mode changes, backward requests on copies, requests lacking a state or with one too many), each result compared with a propagation from scratch; orbits of all regimes; non-trivial: resonant orbit and at least two requests, one of them past the first integrator step"
    }
    fn quick(&self) -> u64 {
        2_500_000
    }
    fn gen(&self, s: &mut Src) -> Case05 {
        let mut sat = if s.chance(15, 16) { gens::resonant_sat(s) } else { gens::any_sat(s) };
        if s.chance(1, 8) {
            // errors in the middle of a history
            sat.ecc = F(s.pick(&[0.0, 1e-6, 1e-4, 0.9, 0.97]));
        }
        // a drag term that makes the eccentricity reach a limit during the history
        let mut goal = None;
        let mut sign = s.sign();
        if s.chance(1, 6) {
            let (aimed, t) = gens::aimed(s, sat, 4.7);
            sat = aimed;
            sign = t.signum();
            goal = Some(t.abs());
        }
        let mut t = 0.0f64;
        // sometimes many requests close to each other, mostly on one state
        let many = s.chance(1, 400);
        let n = if many { 100 + s.below(400) } else { 1 + s.below(14) };
        let mut steps = vec![];
        let mut saved = t;
        for _ in 0..n {
            match s.weighted(if many { &[200, 6, 4, 2, 1, 2, 1] } else { &[20, 6, 4, 2, 2, 2, 1] }) {
                0 => {
                    t += match goal {
                        Some(g) if t < g && s.chance(1, 2) => (g - t) * s.pick(&[0.5, 0.9, 1.0, 1.0 + 1e-6]),
                        _ if many => s.pick(&[1.0, 0.0, 20.0, 100.0, 720.0]),
                        _ => gap(s, t),
                    };
                    steps.push(Step::To(F(sign * t)));
                }
                1 => {
                    let x = match goal {
                        Some(g) if t < g && s.chance(1, 2) => g,
                        _ => t + gap(s, t),
                    };
                    steps.push(Step::Copy(F(sign * x)));
                }
                2 => {
                    let x = match s.below(4) {
                        0 => sign * s.range(0.0, t.max(1.0)),
                        1 => -sign * s.range(0.0, 3000.0),
                        2 => -sign * 0.0,
                        _ => sign * (t / 720.0).floor() * 720.0 * s.pick(&[1.0, 0.5, 0.999_999_999]),
                    };
                    steps.push(Step::Back(F(x)));
                }
                3 => {
                    saved = t;
                    steps.push(Step::Save);
                }
                4 => {
                    t = saved;
                    steps.push(Step::Restore);
                }
                5 => steps.push(Step::Mode),
                _ => steps.push(Step::Misfit(F(s.sign() * t + gap(s, t)))),
            }
        }
        Case05 { sat, afspc: s.chance(1, 2), steps }
    }
    fn check(&self, c: &Case05) -> Verdict {
        let k = match c.sat.constants() {
            Ok(k) => k,
            Err(e) => fail!("{e:?}"),
        };
        let resonant = {
            let (n, e) = (c.sat.no.0, c.sat.ecc.0);
            (n > 0.0034906585 && n < 0.0052359877) || (n >= 8.26e-3 && n <= 9.24e-3 && e >= 0.5)
        };
        let Some(start) = k.initial_state() else {
            if resonant {
                fail!("resonant orbit without a state");
            }
            // the general call takes no state then
            for st in &c.steps {
                if let Step::To(t) = st {
                    let a = k.propagate_from_state(sgp4::MinutesSinceEpoch(t.0), None, c.afspc);
                    if let Err(m) = same_prediction(&a, &propagate(&k, t.0, c.afspc), 0.0, 0.0) {
                        fail!("{m}");
                    }
                }
                if let Step::Misfit(t) = st {
                    let mut state = foreign();
                    let t = sgp4::MinutesSinceEpoch(t.0);
                    if let Ok(got) = guard(|| k.propagate_from_state(t.clone(), Some(&mut state), c.afspc)) {
                        if let Err(m) = same_prediction(&got, &propagate(&k, t.0, c.afspc), 0.0, 0.0) {
                            fail!("a state given to an orbit without resonance changes its prediction: {m}");
                        }
                    }
                }
            }
            return trivial("no resonance");
        };
        if !resonant {
            fail!("a state without resonance");
        }
        if start.t() != 0.0 {
            fail!("initial state at {:?}", start.t());
        }
        let mut afspc = c.afspc;
        let mut st = start;
        // the last time requested of this state
        let mut last: Option<f64> = None;
        let mut saved = (start, last);
        let (mut requests, mut beyond, mut errors) = (0, false, false);
        let (tol_r, tol_v) = (1e-8, 1e-11);
        let state_ok = |st: &sgp4::ResonanceState, t: f64| -> Result<(), String> {
            let x = st.t();
            if x % 720.0 != 0.0 || (x != 0.0 && (x > 0.0) != (t > 0.0)) || x.abs() > t.abs() || t.abs() - x.abs() > 720.0
            {
                return Err(format!("state at {x:?} after a request for {t:?}"));
            }
            Ok(())
        };
        for (i, step) in c.steps.iter().enumerate() {
            match step {
                Step::To(t) | Step::Copy(t) => {
                    let mut copy = st;
                    let target = if matches!(step, Step::To(_)) { &mut st } else { &mut copy };
                    let got = k.propagate_from_state(sgp4::MinutesSinceEpoch(t.0), Some(target), afspc);
                    let fresh = propagate(&k, t.0, afspc);
                    if let Err(m) = same_prediction(&got, &fresh, tol_r, tol_v) {
                        fail!("step {i}: reused state and fresh state differ: {m}");
                    }
                    let target = *target;
                    if let Err(m) = state_ok(&target, t.0) {
                        fail!("step {i}: {m}");
                    }
                    if matches!(step, Step::To(_)) {
                        last = Some(t.0);
                    }
                    requests += 1;
                    beyond |= t.0.abs() >= 720.0;
                    errors |= got.is_err();
                }
                Step::Back(t) => {
                    let mut copy = st;
                    if let Ok(got) =
                        guard(|| k.propagate_from_state(sgp4::MinutesSinceEpoch(t.0), Some(&mut copy), afspc))
                    {
                        let fresh = propagate(&k, t.0, afspc);
                        if let Err(m) = same_prediction(&got, &fresh, tol_r, tol_v) {
                            fail!("step {i}: request for {:?} with a state at {:?} answered wrongly: {m}", t.0, st.t());
                        }
                    } else if let Some(t) = last {
                        // the refusal leaves the state usable
                        let fresh = propagate(&k, t, afspc);
                        let t = sgp4::MinutesSinceEpoch(t);
                        match guard(|| k.propagate_from_state(t, Some(&mut copy), afspc)) {
                            Ok(got) => {
                                if let Err(m) = same_prediction(&got, &fresh, tol_r, tol_v) {
                                    fail!("step {i}: a refused request changes the next prediction: {m}");
                                }
                            }
                            Err(m) => fail!("step {i}: nothing works after a refused request: {m}"),
                        }
                    }
                }
                Step::Misfit(t) => {
                    if let Ok(got) = guard(|| k.propagate_from_state(sgp4::MinutesSinceEpoch(t.0), None, afspc)) {
                        if let Err(m) = same_prediction(&got, &propagate(&k, t.0, afspc), tol_r, tol_v) {
                            fail!("step {i}: resonant orbit answered wrongly without a state: {m}");
                        }
                    }
                }
                Step::Save => saved = (st, last),
                Step::Restore => (st, last) = saved,
                Step::Mode => afspc = !afspc,
            }
        }
        match (requests >= 2 && beyond, errors, c.sat.no.0 < 0.006) {
            (false, ..) => trivial("short history"),
            (_, true, _) => pass("with errors"),
            (_, _, true) => pass("one-day"),
            _ => pass("half-day"),
        }
    }
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Object {
    Sat(Sat),
    Els(Els, bool),
    Tle(Tle, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Call {
    Propagate(usize, F, bool),
    /// through a new state, two requests
    Stateful(usize, F, F, bool),
    Construct(usize),
    Parse(usize),
    Json(usize),
    Sidereal(F),
    /// this many unrelated satellites from this seed
    Crowd(u64, usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case19 {
    pub objects: Vec<Object>,
    pub calls: Vec<Call>,
    pub order: Vec<usize>,
}

struct Made {
    constants: Option<sgp4::Constants>,
    elements: Option<sgp4::Elements>,
}

fn make(o: &Object) -> (Made, String) {
    match o {
        Object::Sat(s) => {
            let c = s.constants();
            let d = format!("{c:?}");
            (Made { constants: c.ok(), elements: None }, d)
        }
        Object::Els(e, afspc) => {
            let e = e.build();
            let c = construct(&e, *afspc);
            let d = format!("{e:?} {c:?}");
            (Made { constants: c.ok(), elements: Some(e) }, d)
        }
        Object::Tle(t, afspc) => {
            let (a, b) = t.lines();
            match sgp4::Elements::from_tle(Some("N".into()), &a, &b) {
                Ok(e) => {
                    let c = construct(&e, *afspc);
                    let d = format!("{e:?} {c:?}");
                    (Made { constants: c.ok(), elements: Some(e) }, d)
                }
                Err(e) => (Made { constants: None, elements: None }, format!("{e:?}")),
            }
        }
    }
}

fn construct(e: &sgp4::Elements, afspc: bool) -> Result<sgp4::Constants, sgp4::ElementsError> {
    if afspc {
        sgp4::Constants::from_elements_afspc_compatibility_mode(e)
    } else {
        sgp4::Constants::from_elements(e)
    }
}

fn bits(g: &Got) -> String {
    match g {
        Ok(p) => p.position.iter().chain(&p.velocity).map(|x| format!("{:016x} ", x.to_bits())).collect(),
        Err(e) => format!("{e:?}"),
    }
}

/// the observable result of a call as text
fn call(objects: &[Object], made: &[(Made, String)], c: &Call) -> String {
    match c {
        Call::Propagate(i, t, afspc) => match &made[*i].0.constants {
            Some(k) => bits(&propagate(k, t.0, *afspc)),
            None => String::new(),
        },
        Call::Stateful(i, a, b, afspc) => match &made[*i].0.constants {
            Some(k) => {
                let mut st = k.initial_state();
                let x = k.propagate_from_state(sgp4::MinutesSinceEpoch(a.0), st.as_mut(), *afspc);
                let y = k.propagate_from_state(sgp4::MinutesSinceEpoch(b.0), st.as_mut(), *afspc);
                format!("{} {} {:?}", bits(&x), bits(&y), st.map(|s| s.t()))
            }
            None => String::new(),
        },
        Call::Construct(i) => make(&objects[*i]).1,
        Call::Parse(i) => match &objects[*i] {
            Object::Tle(t, _) => {
                let (a, b) = t.lines();
                let text = format!("{}\n{}\n", String::from_utf8_lossy(&a), String::from_utf8_lossy(&b));
                format!("{:?} {:?}", sgp4::parse_2les(&text), sgp4::parse_3les(&format!("T\n{text}")))
            }
            _ => String::new(),
        },
        Call::Json(i) => match &made[*i].0.elements {
            Some(e) => {
                let j = serde_json::to_string(e).unwrap_or_default();
                format!("{j} {:?}", serde_json::from_str::<sgp4::Elements>(&j).ok())
            }
            None => String::new(),
        },
        Call::Sidereal(y) => format!(
            "{:?} {:?}", sgp4::iau_epoch_to_sidereal_time(y.0), sgp4::afspc_epoch_to_sidereal_time(y.0)
        ),
        Call::Crowd(seed, n) => {
            let mut all = 0;
            for k in 0..*n {
                let mut s = Src::random(mix(*seed, k as u64));
                let o = match s.below(3) {
                    0 => Object::Sat(gens::any_sat(&mut s)),
                    1 => Object::Els(any_els(&mut s), s.chance(1, 2)),
                    _ => Object::Tle(tleref::plausible_tle(&mut s), s.chance(1, 2)),
                };
                let (m, d) = make(&o);
                let t = gens::time(&mut s, 3.5);
                let r = m.constants.map(|c| bits(&propagate(&c, t, s.chance(1, 2))));
                all = format!("{d}{r:?}").bytes().fold(all, |a, b| (a ^ b as u64).wrapping_mul(0x0100_0000_01b3));
            }
            format!("{all:x}")
        }
    }
}

/// a slightly different value
fn near(s: &mut Src, x: f64) -> f64 {
    x + s.sign() * s.log10(-12.0, -1.0)
}

/// a near-duplicate: one property changed
fn vary_sat(s: &mut Src, x: &Sat) -> Sat {
    let mut y = *x;
    if s.chance(1, 2) {
        let n = 1 + s.below(3);
        for _ in 0..n {
            match s.below(8) {
                0 => y.incl = F(near(s, y.incl.0)),
                1 => y.node = F(near(s, y.node.0)),
                2 => y.ecc = F(near(s, y.ecc.0).clamp(0.0, 0.99)),
                3 => y.argp = F(near(s, y.argp.0)),
                4 => y.ma = F(near(s, y.ma.0)),
                5 => y.bstar = F(y.bstar.0 * (1.0 + s.sign() * s.log10(-12.0, -1.0))),
                6 => y.no = F(y.no.0 * (1.0 + s.sign() * s.log10(-12.0, -3.0))),
                _ => y.years = F(near(s, y.years.0)),
            }
        }
        return y;
    }
    match s.below(9) {
        0 => y.incl = F(gens::inclination(s)),
        1 => y.node = F(gens::angle(s)),
        2 => y.ecc = F((y.ecc.0 + s.range(-0.01, 0.01)).clamp(0.0, 0.99)),
        3 => y.argp = F(gens::angle(s)),
        4 => y.ma = F(gens::angle(s)),
        5 => y.bstar = F(gens::bstar(s)),
        6 => y.years = F(gens::years(s)),
        7 => y.gst = gens::gst(s),
        _ => y.g = gens::gravity(s),
    }
    y
}

fn vary_tle(s: &mut Src, x: &Tle) -> Tle {
    let mut y = x.clone();
    if s.chance(1, 2) {
        let n = 1 + s.below(3);
        for _ in 0..n {
            let d = s.log10(0.0, 4.5) as u32;
            let near = |x: u32, limit: u32| if x + d < limit { x + d } else { x.saturating_sub(d) };
            match s.below(9) {
                0 => y.incl = near(y.incl, 1_800_000),
                1 => y.raan = near(y.raan, 3_600_000),
                2 => y.ma = near(y.ma, 3_600_000),
                3 => y.argp = near(y.argp, 3_600_000),
                4 => y.bstar.mant = near(y.bstar.mant, 100_000),
                5 => y.ecc = near(y.ecc, 10_000_000),
                6 => y.mm += d as u64,
                7 => y.norad = near(y.norad, 100_000),
                _ => y.frac = near(y.frac, 100_000_000),
            }
        }
        return y;
    }
    match s.below(7) {
        0 => y.incl = s.draw(1_800_000) as u32,
        1 => y.raan = s.draw(3_600_000) as u32,
        2 => y.ma = s.draw(3_600_000) as u32,
        3 => y.argp = s.draw(3_600_000) as u32,
        4 => y.bstar.mant = s.draw(100_000) as u32,
        5 => y.frac = s.draw(100_000_000) as u32,
        _ => y.norad = s.draw(100_000) as u32,
    }
    y
}

pub struct C19;
impl Prop for C19 {
    type Case = Case19;
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "scripts of up to 40 calls over up to 6 satellites, many of them near-duplicates, with unrelated satellites in between; every call's result (all bits) in script order with shared constants, with constants made anew for each call, in a shuffled order, and from 4 threads sharing the constants must agree, two of the calls must give the same as the only call of a new process, and the constants' and elements' printed form must not change; each script runs in its own process; non-trivial: at least two satellites and four calls"
    }
    fn quick(&self) -> u64 {
        30_000
    }
    fn gen(&self, s: &mut Src) -> Case19 {
        let n = 1 + s.below(6);
        let mut objects: Vec<Object> = vec![];
        for _ in 0..n {
            let dup = !objects.is_empty() && s.chance(2, 3);
            let o = if dup {
                match objects[s.below(objects.len())].clone() {
                    Object::Sat(x) => Object::Sat(vary_sat(s, &x)),
                    Object::Els(mut e, a) => {
                        let n = s.below(4);
                        for _ in 0..n {
                            match s.below(8) {
                                0 => e.ma = F(near(s, e.ma.0)),
                                1 => e.raan = F(near(s, e.raan.0)),
                                2 => e.incl = F(near(s, e.incl.0)),
                                3 => e.argp = F(near(s, e.argp.0)),
                                4 => e.ecc = F(near(s, e.ecc.0).clamp(0.0, 0.99)),
                                5 => e.mm = F(near(s, e.mm.0)),
                                6 => e.date = any_els(s).date,
                                _ => e.norad += 1,
                            }
                        }
                        Object::Els(e, a ^ s.chance(1, 2))
                    }
                    Object::Tle(t, a) => Object::Tle(vary_tle(s, &t), a ^ s.chance(1, 2)),
                }
            } else {
                match s.below(3) {
                    0 => Object::Sat(gens::any_sat(s)),
                    1 => Object::Els(any_els(s), s.chance(1, 2)),
                    _ => Object::Tle(tleref::plausible_tle(s), s.chance(1, 2)),
                }
            };
            objects.push(o);
        }
        let m = 2 + s.below(39);
        let shared = gens::time(s, 4.0);
        let mut epochs = vec![gens::years(s)];
        let calls: Vec<Call> = (0..m)
            .map(|_| {
                let i = s.below(n);
                let t = if s.chance(1, 3) { shared } else { gens::time(s, 4.5) };
                match s.weighted(&[20, 6, 4, 2, 2, 2, 1]) {
                    0 => Call::Propagate(i, F(t), s.chance(1, 2)),
                    1 => {
                        let u = t + t.signum() * s.range(0.0, 3000.0);
                        Call::Stateful(i, F(t), F(u), s.chance(1, 2))
                    }
                    2 => Call::Construct(i),
                    3 => Call::Parse(i),
                    4 => Call::Json(i),
                    5 => {
                        let known = epochs[s.below(epochs.len())];
                        let y = if s.chance(1, 2) { near(s, known) } else { gens::years(s) };
                        epochs.push(y);
                        Call::Sidereal(F(y))
                    }
                    _ => Call::Crowd(s.draw(1 << 40), s.log10(0.0, 2.3) as usize),
                }
            })
            .collect();
        let mut order: Vec<usize> = (0..m).collect();
        for i in (1..m).rev() {
            order.swap(i, s.below(i + 1));
        }
        Case19 { objects, calls, order }
    }
    fn check(&self, c: &Case19) -> Verdict {
        let first = match in_process("script", c) {
            Ok(r) => r,
            Err(m) => fail!("{m}"),
        };
        for i in c.order.iter().take(2) {
            let r = in_process("alone", &only(c, *i));
            if r.as_ref().ok().and_then(|r| r.first()) != Some(&first[*i]) {
                fail!("call {i} {:?} gave {} in the script, {r:?} as the only call of a process", c.calls[*i], first[*i]);
            }
        }
        if c.objects.len() >= 2 && c.calls.len() >= 4 { pass("script") } else { trivial("small script") }
    }
}

/// the script reduced to one call
fn only(c: &Case19, i: usize) -> Case19 {
    let mut k = c.calls[i].clone();
    let mut objects = vec![];
    match &mut k {
        Call::Propagate(j, ..) | Call::Stateful(j, ..) | Call::Construct(j) | Call::Parse(j) | Call::Json(j) => {
            objects.push(c.objects[*j].clone());
            *j = 0;
        }
        Call::Sidereal(_) | Call::Crowd(..) => {}
    }
    Case19 { objects, calls: vec![k], order: vec![0] }
}

/// the results of a script run by a new process
fn in_process(mode: &str, c: &Case19) -> Result<Vec<String>, String> {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().expect("own path");
    let mut child =
        Command::new(exe).arg(mode).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap_or_else(|e| {
            eprintln!("cannot start a process: {e}");
            std::process::exit(3);
        });
    let text = serde_json::to_vec(c).expect("script serialises");
    let written = child.stdin.take().expect("pipe").write_all(&text);
    let out = child.wait_with_output().map_err(|e| e.to_string())?;
    if written.is_err() || !out.status.success() {
        return Err(format!("the process of the script ended with {}", out.status));
    }
    serde_json::from_slice::<Result<Vec<String>, String>>(&out.stdout).map_err(|e| e.to_string())?
}

/// entry point of the processes
pub fn serve(mode: &str) -> i32 {
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(60));
        std::process::exit(98);
    });
    let c: Case19 = serde_json::from_reader(std::io::stdin()).expect("script");
    let r = guard(|| {
        if mode == "alone" {
            let made: Vec<_> = if matches!(c.calls[0], Call::Propagate(..) | Call::Stateful(..) | Call::Json(_)) {
                c.objects.iter().map(make).collect()
            } else {
                vec![]
            };
            return Ok(c.calls.iter().map(|k| call(&c.objects, &made, k)).collect());
        }
        let mut first = vec![];
        match script(&c, &mut first) {
            Verdict::Fail(m) => Err(m),
            _ => Ok(first),
        }
    });
    let r: Result<Vec<String>, String> = match r {
        Ok(r) => r,
        Err(m) => Err(format!("panicked: {m}")),
    };
    println!("{}", serde_json::to_string(&r).expect("results serialise"));
    0
}

fn script(c: &Case19, results: &mut Vec<String>) -> Verdict {
    let made: Vec<_> = c.objects.iter().map(make).collect();
    let first: Vec<String> = c.calls.iter().map(|k| call(&c.objects, &made, k)).collect();
    *results = first.clone();
    // each call alone, with everything made anew
    for (i, k) in c.calls.iter().enumerate() {
        let alone: Vec<(Made, String)> = match k {
            Call::Propagate(j, ..) | Call::Stateful(j, ..) | Call::Json(j) => c
                .objects
                .iter()
                .enumerate()
                .map(|(n, o)| {
                    if n == *j { make(o) } else { (Made { constants: None, elements: None }, String::new()) }
                })
                .collect(),
            _ => vec![],
        };
        let r = call(&c.objects, &alone, k);
        if r != first[i] {
            fail!("call {i} {k:?} gave {} in the script, {r} alone", first[i]);
        }
    }
    for i in &c.order {
        let r = call(&c.objects, &made, &c.calls[*i]);
        if r != first[*i] {
            fail!("call {i} {:?} gave {}, in another order {r}", c.calls[*i], first[*i]);
        }
    }
    let shared = Arc::new(made);
    let bad: Vec<String> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..4)
            .map(|k| {
                let (made, first) = (shared.clone(), &first);
                sc.spawn(move || {
                    let n = c.calls.len();
                    for i in 0..n {
                        let i = if k % 2 == 0 { (i * (k + 1) + k) % n } else { c.order[(i + k) % n] };
                        let r = guard(|| call(&c.objects, &made, &c.calls[i]));
                        match r {
                            Ok(r) if r == first[i] => {}
                            r => return Some(format!("call {i} {:?} gave {}, on thread {k} {r:?}", c.calls[i], first[i])),
                        }
                    }
                    None
                })
            })
            .collect();
        hs.into_iter().filter_map(|h| h.join().unwrap_or(Some("thread died".into()))).collect()
    });
    if let Some(m) = bad.first() {
        fail!("{m}");
    }
    for (i, (m, d)) in shared.iter().enumerate() {
        let now = match &c.objects[i] {
            Object::Sat(_) => match &m.constants {
                Some(k) => format!("{:?}", Ok::<_, ()>(k)),
                None => d.clone(),
            },
            _ => match (&m.elements, &m.constants) {
                (Some(e), Some(k)) => format!("{e:?} {:?}", Ok::<_, ()>(k)),
                _ => d.clone(),
            },
        };
        if now != *d {
            fail!("object {i} changed by use: {d} became {now}");
        }
    }
    pass("script")
}
