mod calendar;
mod engine;
mod gens;
mod numeric;
#[path = "../../worker/src/ops.rs"]
mod ops;
mod props;
mod reference;
mod tleref;

use engine::Config;
use std::path::PathBuf;

macro_rules! dispatch {
    ($id:expr, $p:ident => $e:expr, $($name:literal : $prop:expr),* $(,)?) => {
        match $id {
            $($name => { let $p = &$prop; $e })*
            other => { eprintln!("unknown property {other}"); 2 }
        }
    };
}

fn main() {
    engine::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let env = |k: &str| std::env::var(k).ok();
    let root = PathBuf::from(env("VERIF_ROOT").unwrap_or_else(|| "/verif".into()));
    let seed = env("VERIF_SEED")
        .map(|s| {
            s.trim().parse::<u64>().unwrap_or_else(|_| s.bytes().fold(7u64, |a, b| engine::mix(a, b as u64)) >> 12)
        })
        .unwrap_or(1);
    let cfg = Config {
        root,
        seed,
        thorough: env("VERIF_TIER").as_deref() == Some("thorough"),
        cases: env("VERIF_CASES").and_then(|s| s.parse().ok()),
    };
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => run(&args[2], &cfg, None),
        Some("replay") => {
            let text = std::fs::read_to_string(&args[2]).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&text).expect("replay json");
            run(v["property"].as_str().expect("property"), &cfg, Some(&text))
        }
        Some(mode @ ("script" | "alone")) => props::state::serve(mode),
        Some("calibrate") => {
            calibrate(&cfg);
            0
        }
        _ => {
            eprintln!("usage: vh check ID | vh replay FILE");
            2
        }
    };
    std::process::exit(code);
}

fn run(id: &str, cfg: &Config, replay: Option<&str>) -> i32 {
    dispatch!(id, p => match replay {
        Some(text) => engine::replay(p, text),
        None => engine::run(p, cfg),
    },
        "C01": props::model::C01,
        "C02": props::model::C02,
        "C03": props::model::C03,
        "C04": props::build::C04,
        "C05": props::state::C05,
        "C06": props::build::C06,
        "C07": props::build::C07,
        "C08": props::total::C08,
        "C09": props::tle::C09,
        "C10": props::tle::C10,
        "C11": props::tle::C11,
        "C12": props::json::C12,
        "C13": props::json::C13,
        "C14": props::time::C14,
        "C15": props::time::C15,
        "C16": props::time::C16,
        "C17": props::config::C17,
        "C18": props::symmetry::C18,
        "C19": props::state::C19,
        "C20": props::errors::C20,
        "C21": props::json::C21,
        "C22": props::smooth::C22,
    )
}

/// distribution of observed difference / allowed difference
fn calibrate(cfg: &Config) {
    use engine::{Prop, Src};
    fn go<P: Prop<Case = props::model::Case>>(p: &P, cfg: &Config) {
        let n = cfg.cases.unwrap_or(100_000);
        let mut rs: Vec<(f64, String)> = vec![];
        let mut tols = vec![];
        for i in 0..n {
            let mut s = Src::random(engine::mix(cfg.seed, i));
            let c = p.gen(&mut s);
            let j = numeric::judge(&c.sat.inputs(), c.t.0, c.afspc);
            if j.ambiguous {
                continue;
            }
            if let Ok(g) = c.got() {
                let r = numeric::ratio(&j, &g);
                if r.is_finite() {
                    tols.push(j.tol_r);
                    if r > 0.05 {
                        rs.push((r, format!("tol {:e} {}", j.tol_r, serde_json::to_string(&c).unwrap())));
                    }
                }
            }
        }
        rs.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
        tols.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
        println!("{}: {} of {} ratios above 0.05; tolerance median {:e} 90% {:e}", p.id(), rs.len(), n,
            tols[tols.len() / 2], tols[tols.len() * 9 / 10]);
        for r in rs.iter().take(8) {
            println!("   {:.3} {}", r.0, r.1);
        }
    }
    go(&props::model::C01, cfg);
    go(&props::model::C02, cfg);
    go(&props::model::C03, cfg);
}
