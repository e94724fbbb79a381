//! Serves `ops` over standard input and output in one feature configuration of the crate.

mod ops;

use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering};

static SEQ: AtomicU64 = AtomicU64::new(0);

fn cpu_s(tid: &str) -> f64 {
    std::fs::read_to_string(format!("/proc/{tid}/schedstat"))
        .ok()
        .and_then(|s| s.split_whitespace().next().and_then(|x| x.parse::<f64>().ok()))
        .unwrap_or(0.0)
        / 1e9
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let tid = std::fs::read_link("/proc/thread-self").map(|p| p.to_string_lossy().into_owned()).unwrap_or_default();
    // a request that never returns ends the worker, which the harness reports
    std::thread::spawn(move || {
        let (mut seq, mut start) = (u64::MAX, 0.0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let (s, c) = (SEQ.load(Ordering::SeqCst), cpu_s(&tid));
            if s != seq {
                (seq, start) = (s, c);
            } else if c - start > 40.0 {
                std::process::exit(9);
            }
        }
    });
    let stdin = std::io::stdin();
    let mut out = std::io::stdout().lock();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { return };
        SEQ.fetch_add(1, Ordering::SeqCst);
        let reply = std::panic::catch_unwind(|| ops::handle(&line)).unwrap_or_else(|_| "xpanic".into());
        if writeln!(out, "{reply}").and_then(|_| out.flush()).is_err() {
            return;
        }
    }
}
