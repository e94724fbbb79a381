//! C17: the feature configurations of the crate against its default build.

use super::build::{any_els, brouwer, els_of_tle, Els};
use super::tle::{self, corrupt, fault};
use crate::engine::*;
use crate::numeric::*;
use crate::ops;
use crate::reference::{self as r, El};
use crate::tleref::{self, Tle};
use crate::{fail, gens};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

const CONFIGS: [&str; 4] = ["libm", "libm-alloc", "libm-serde", "std"];

struct Worker {
    child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
}

impl Worker {
    fn start(config: &str) -> Worker {
        let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
        let path = format!("{root}/target/w-{config}/release/vw");
        let mut child = match Command::new(&path).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn() {
            Ok(c) => c,
            Err(e) => {
                eprintln!("{path}: {e}");
                std::process::exit(3);
            }
        };
        let (stdin, stdout) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
        Worker { child, stdin, stdout }
    }
    fn ask(&mut self, line: &str) -> Option<String> {
        let mut reply = String::new();
        writeln!(self.stdin, "{line}").ok()?;
        self.stdin.flush().ok()?;
        match self.stdout.read_line(&mut reply) {
            Ok(n) if n > 0 => Some(reply.trim_end_matches('\n').to_string()),
            _ => None,
        }
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static WORKERS: RefCell<Vec<Option<Worker>>> = const { RefCell::new(vec![]) };
}

fn ask(config: usize, line: &str) -> Option<String> {
    WORKERS.with(|w| {
        let mut w = w.borrow_mut();
        while w.len() < CONFIGS.len() {
            w.push(None);
        }
        let slot = &mut w[config];
        let reply = slot.get_or_insert_with(|| Worker::start(CONFIGS[config])).ask(line);
        if reply.is_none() {
            *slot = None;
        }
        reply
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    Tle { tle: Tle, afspc_constructor: bool, afspc: bool, times: Vec<F> },
    /// two lines, possibly no TLE
    Bytes(Vec<u8>, Vec<u8>),
    Sat { sat: Sat, afspc: bool, times: Vec<F> },
    Kozai { g: G, els: Vec<F> },
    Sidereal(F),
    Minutes { tle: Tle, minutes: F },
    Multi { titled: bool, text: String },
    Json { els: Els, afspc_constructor: bool, afspc: bool, times: Vec<F> },
    JsonText(String),
}

fn b(x: bool) -> &'static str {
    if x { "1" } else { "0" }
}
fn nums(xs: impl IntoIterator<Item = f64>) -> String {
    xs.into_iter().map(|x| format!(" {}", ops::bits(x))).collect()
}
/// never the empty word
fn blob(x: &[u8]) -> String {
    format!(".{}", ops::hex(x))
}

/// the same calls with the error bounds of their results: inputs, times
fn conditioning(c: &Case) -> Option<(Inputs, bool, &[F])> {
    match c {
        Case::Tle { tle, afspc_constructor, afspc, times } => {
            Some((els_of_tle(tle).inputs(*afspc_constructor), *afspc, times))
        }
        Case::Json { els, afspc_constructor, afspc, times } => Some((els.inputs(*afspc_constructor), *afspc, times)),
        Case::Sat { sat, afspc, times } => Some((sat.inputs(), *afspc, times)),
        _ => None,
    }
}

fn request(c: &Case, full: bool) -> String {
    match c {
        Case::Tle { tle, afspc_constructor, afspc, times } => {
            let (l1, l2) = tle.lines();
            let times = nums(times.iter().map(|x| x.0));
            format!("T {} {} {} {} {}{times}", b(full), b(*afspc_constructor), b(*afspc), blob(&l1), blob(&l2))
        }
        Case::Bytes(l1, l2) => format!("T {} 0 0 {} {}", b(full), blob(l1), blob(l2)),
        Case::Sat { sat: s, afspc, times } => {
            let g = nums([s.g.ae.0, s.g.ke.0, s.g.j2.0, s.g.j3.0, s.g.j4.0]);
            let gst = match s.gst {
                Gst::Iau => "iau".to_string(),
                Gst::Afspc => "afspc".to_string(),
                Gst::Fixed(x) => ops::bits(x.0),
            };
            let v = [s.years, s.bstar, s.incl, s.node, s.ecc, s.argp, s.ma, s.no];
            format!("S {}{g} {gst}{}", b(*afspc), nums(v.iter().chain(times).map(|x| x.0)))
        }
        Case::Kozai { g, els } => {
            format!("K{}", nums([g.ae, g.ke, g.j2, g.j3, g.j4].iter().chain(els).map(|x| x.0)))
        }
        Case::Sidereal(y) => format!("Y{}", nums([y.0])),
        Case::Minutes { tle, minutes } => {
            let (l1, l2) = tle.lines();
            format!("D {} {}{}", blob(&l1), blob(&l2), nums([minutes.0]))
        }
        Case::Multi { titled, text } => format!("M {} {}", b(*titled), blob(text.as_bytes())),
        Case::Json { els, afspc_constructor, afspc, times } => {
            let text = serde_json::to_string(&els.build()).expect("elements serialise");
            let times = nums(times.iter().map(|x| x.0));
            format!("J {} {} {}{times}", b(*afspc_constructor), b(*afspc), blob(text.as_bytes()))
        }
        Case::JsonText(text) => format!("J 0 0 {}", blob(text.as_bytes())),
    }
}

fn times(s: &mut Src) -> Vec<F> {
    let mut t = 0.0;
    let sign = s.sign();
    (0..1 + s.below(4))
        .map(|_| {
            if s.chance(3, 4) {
                t += s.pick(&[0.0, 1.0, 360.0, 720.0, 1440.0]) + s.log10(-1.0, 4.0);
                F(sign * t)
            } else {
                F(gens::time(s, 5.0))
            }
        })
        .collect()
}

/// compares two replies; `tol` gives the allowed differences at the i-th time, None where it is open
fn differ(a: &str, b: &str, kozai: f64, tol: &dyn Fn(usize) -> Option<(f64, f64, f64)>) -> Option<String> {
    fn sections(x: &str) -> Vec<Vec<&str>> {
        x.split(" | ").map(|p| p.split(' ').collect()).collect()
    }
    let (sa, sb) = (sections(a), sections(b));
    if sa.len() != sb.len() {
        return Some(format!("{} and {} parts", sa.len(), sb.len()));
    }
    for (i, (x, y)) in sa.iter().zip(&sb).enumerate() {
        let allowed = if i == 0 { Some((0.0, 0.0, 0.0)) } else { tol(i - 1) };
        let Some((tr, tv, te)) = allowed else { continue };
        if x.len() != y.len() {
            return Some(format!("part {i}: {x:?} and {y:?}"));
        }
        for (p, q) in x.iter().zip(y) {
            if p == q {
                continue;
            }
            let kind = p.as_bytes()[0];
            if kind != q.as_bytes()[0] || kind == b'x' {
                return Some(format!("part {i}: {p} and {q}"));
            }
            let (u, v) = (ops::unbits(&p[1..]), ops::unbits(&q[1..]));
            let max = u.abs().max(v.abs());
            let close = match kind {
                b'f' => (u - v).abs() <= 8.0 * f64::EPSILON * max,
                b'k' => (u - v).abs() <= kozai,
                b'r' => (u - v).abs() <= tr,
                b'v' => (u - v).abs() <= tv,
                b'e' => (u - v).abs() <= te,
                // an angle in [0, 2π], which wraps at the ends only
                b'a' => {
                    let d = (u - v).abs();
                    d <= 1e-9 || ((d - r::TWOPI).abs() <= 1e-9 && u.min(v) >= 0.0)
                }
                _ => false,
            };
            if !close && !(u.is_nan() && v.is_nan()) {
                return Some(format!("part {i}: {} {u:?} and {v:?}, differing by {:e}", kind as char, (u - v).abs()));
            }
        }
    }
    None
}

pub struct C17;
impl Prop for C17 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "valid, corrupted and arbitrary TLE lines, multi-TLE texts, OMM texts, explicit orbits in all regimes, Kozai elements, epochs and minutes, sent to separate builds of the crate (libm; libm+alloc; libm+alloc+serde; std+alloc without serde) and compared token by token with the default build, predictions within the rounding the case amplifies; non-trivial: at least one prediction, parsed field or parse error was comparable"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "designator columns are not decoded without allocation, so faults in them are not compared there",
            "results within rounding of a threshold of the theory are not compared",
        ]
    }
    fn quick(&self) -> u64 {
        800_000
    }
    fn gen(&self, s: &mut Src) -> Case {
        match s.weighted(&[6, 4, 8, 2, 1, 2, 2, 2, 2]) {
            0 => Case::Tle {
                tle: if s.chance(2, 3) { tleref::plausible_tle(s) } else { super::total::wild_tle(s) },
                afspc_constructor: s.chance(1, 2),
                afspc: s.chance(1, 2),
                times: times(s),
            },
            1 => match s.below(3) {
                0 => {
                    let (l1, l2) = tle::mutated(s);
                    Case::Bytes(l1, l2)
                }
                1 => {
                    let t = tleref::any_tle(s);
                    let f = fault(s);
                    match corrupt(&t, &f) {
                        Some((l1, l2, _)) => Case::Bytes(l1, l2),
                        None => {
                            let (l1, l2) = t.lines();
                            Case::Bytes(l1, l2)
                        }
                    }
                }
                _ => {
                    let (l1, l2) = tleref::any_tle(s).lines();
                    Case::Bytes(l1, l2)
                }
            },
            2 => Case::Sat { sat: gens::any_sat(s), afspc: s.chance(1, 2), times: times(s) },
            3 => {
                let e = any_els(s);
                let n = match s.weighted(&[6, 1, 1]) {
                    0 => e.mm.0 * r::PI / 720.0,
                    1 => s.pick(&[0.0, -0.0, -1.0, 1e-300, 1e300]),
                    _ => s.log10(-6.0, 3.0),
                };
                Case::Kozai {
                    g: gens::gravity(s),
                    els: vec![F(e.incl.0 * r::PI / 180.0), e.raan, e.ecc, e.argp, e.ma, F(n)],
                }
            }
            4 => Case::Sidereal(F(gens::years(s))),
            5 => Case::Minutes {
                tle: tleref::any_tle(s),
                minutes: F(match s.weighted(&[4, 2, 1]) {
                    0 => gens::time(s, 8.0),
                    1 => s.sign() * s.log10(-9.0, 15.0),
                    _ => s.pick(&[f64::NAN, f64::INFINITY, 1e300, -1e300, 0.0]),
                }),
            },
            6 => {
                let c = tle::C11.gen(s);
                let text = c.compose().0;
                Case::Multi { titled: c.titled, text }
            }
            7 => Case::Json {
                els: any_els(s),
                afspc_constructor: s.chance(1, 2),
                afspc: s.chance(1, 2),
                times: times(s),
            },
            _ => Case::JsonText(super::json::omm(s).text()),
        }
    }
    fn check(&self, c: &Case) -> Verdict {
        let judged: Vec<Judged> = match conditioning(c) {
            Some((i, afspc, times)) => times.iter().map(|t| judge(&i, t.0, afspc)).collect(),
            None => vec![],
        };
        // a construction outcome within rounding of a threshold
        if let Some((i, ..)) = conditioning(c) {
            if construction_open(&i) {
                return trivial("construction within rounding of a threshold");
            }
        }
        let tol = |i: usize| -> Option<(f64, f64, f64)> {
            let j = judged.get(i)?;
            let t = (j.tol_r, j.tol_v, j.tol_e);
            (!j.ambiguous && (t.0 + t.1 + t.2).is_finite()).then_some((2.0 * t.0, 2.0 * t.1, 2.0 * t.2))
        };
        let mut kozai = 0.0;
        if let Case::Kozai { g, els } = c {
            let (want, tol) = brouwer(g, els[0].0, els[2].0, els[5].0);
            // a result next to zero may be accepted here and refused there
            if els[5].0 > 0.0 && !(want.abs() > 2.0 * tol) {
                return trivial("nothing comparable");
            }
            kozai = 2.0 * tol;
        }
        let mut compared = false;
        for (k, config) in CONFIGS.iter().enumerate() {
            let full = *config != "libm";
            match c {
                Case::Multi { .. } if !full => continue,
                Case::Json { .. } | Case::JsonText(_) if *config != "libm-serde" => continue,
                _ => {}
            }
            let req = request(c, full);
            let own = guard(|| ops::handle(&req)).unwrap_or_else(|_| "xpanic".into());
            let Some(other) = ask(k, &req) else {
                fail!("the {config} build did not answer (killed or hanging) where the default build gives {own}\n{req}");
            };
            if !full && own.starts_with("xerror") && own != other {
                // the one field this configuration does not have
                if let Case::Bytes(l1, l2) = c {
                    if let Err(e) = sgp4::Elements::from_tle(None, l1, l2) {
                        let t = e.to_string();
                        if t.contains("line 1 between characters 9 and") || t.contains("line 1 between characters 11 and") {
                            continue;
                        }
                    }
                }
            }
            if let Some(m) = differ(&own, &other, kozai, &tol) {
                fail!("default and {config} builds differ: {m}\ndefault: {own}\n{config}: {other}");
            }
            compared |= judged.is_empty() || (0..judged.len()).any(|i| tol(i).is_some());
        }
        if !compared {
            return trivial("nothing comparable");
        }
        match c {
            Case::Tle { .. } => pass("TLE"),
            Case::Bytes(..) => pass("TLE lines"),
            Case::Sat { .. } => pass("explicit orbit"),
            Case::Kozai { .. } => pass("Kozai elements"),
            Case::Sidereal(_) => pass("sidereal time"),
            Case::Minutes { .. } => pass("minutes"),
            Case::Multi { .. } => pass("multi-TLE text"),
            Case::Json { .. } => pass("OMM"),
            Case::JsonText(_) => pass("OMM text"),
        }
    }
}

/// whether neighbouring inputs disagree on the regime or on being refused
fn construction_open(i: &Inputs) -> bool {
    let n = |i: &Inputs| match i.kozai {
        Some(k) => r::unkozai(&i.g, i.el.incl, i.el.ecc, k),
        None => i.el.no,
    };
    let regime = |i: &Inputs| {
        let no = n(i);
        (no > 0.0, no.is_nan(), i.el.ecc < 1.0, i.sat(0.0).kind)
    };
    if i.kozai.is_none() {
        return false;
    }
    let base = regime(i);
    [-1.0f64, 1.0].iter().any(|s| {
        let mut p = *i;
        p.kozai = i.kozai.map(|k| k * (1.0 + s * DELTA));
        let mut q = *i;
        q.el = El { ecc: i.el.ecc * (1.0 + s * DELTA), incl: i.el.incl * (1.0 + s * DELTA), ..i.el };
        regime(&p) != base || regime(&q) != base
    })
}
