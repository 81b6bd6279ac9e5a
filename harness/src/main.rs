//! Property-based checks of ed448-goldilocks. Driven by ../run.py; see DESIGN.md.
#![cfg_attr(not(feature = "all"), allow(dead_code, unused_imports))]
mod bn;
mod forms;
mod gen;
#[cfg(feature = "guided")]
mod guided;
mod props;
mod refcurve;
mod runner;
#[cfg(not(feature = "ct"))]
mod selftest;
#[cfg(not(feature = "ct"))]
mod shake;

#[cfg(feature = "ct")]
#[global_allocator]
static ALLOC: props::ct::Arena = props::ct::Arena;

use serde_json::{json, Value};
use std::time::Instant;

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}
fn backend() -> &'static str {
    if cfg!(feature = "fiat") {
        "fiat_u64"
    } else {
        "u32"
    }
}
pub const IDS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24",
];

fn write_replay(path: &str, prop: &str, leg: &str, input: &Value, message: &str) -> bool {
    let rep = json!({"property": prop, "leg": leg, "backend": backend(), "input": input, "message": message,
        "how": "python3 /verif/run.py replay <this file>"});
    if let Some(d) = std::path::Path::new(path).parent() {
        std::fs::create_dir_all(d).ok();
    }
    match std::fs::write(path, serde_json::to_string_pretty(&rep).unwrap() + "\n") {
        Ok(()) => true,
        Err(x) => {
            eprintln!("cannot write {}: {}", path, x);
            false
        }
    }
}

/// exit codes: 0 held, 4 a case does not return (replay written), 1 violation (replay written), 2 error of the harness
fn run(args: &[String]) -> i32 {
    let prop = arg(args, "--prop").expect("--prop");
    let thorough = arg(args, "--tier").as_deref() == Some("thorough");
    let seed: u64 = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let scale: f64 = arg(args, "--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let threads: usize = arg(args, "--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let only = arg(args, "--leg");
    let budget: Option<f64> = arg(args, "--budget").and_then(|s| s.parse().ok());
    let out = arg(args, "--out");
    let replay_dir = arg(args, "--replay-dir").unwrap_or_else(|| ".".into());
    let t0 = Instant::now();
    let legs = props::legs(&prop);
    if legs.is_empty() {
        eprintln!("no legs for {}", prop);
        return 2;
    }
    let mut report = vec![];
    let mut viol = vec![];
    let current = std::sync::Arc::new(std::sync::Mutex::new(""));
    {
        let (current, prop, dir) = (current.clone(), prop.clone(), replay_dir.clone());
        runner::watch(move |input| {
            let leg: &str = *current.lock().unwrap();
            let path = format!("{}/{}-{}-{}.json", dir, prop, leg.replace('.', "_"), backend());
            let message = format!("no answer within {} s", runner::HANG_SECS);
            write_replay(&path, &prop, leg, &input, &message);
            eprintln!("  {} {}: {}", leg, backend(), message);
            println!("HANG {}", path);
            std::process::exit(4);
        });
    }
    for leg in &legs {
        *current.lock().unwrap() = leg.name();
        if only.as_deref().map_or(false, |o| !leg.name().contains(o)) {
            continue;
        }
        let t = Instant::now();
        let n = leg.cases(thorough);
        let n = if scale == 1.0 { n } else { ((n as f64 * scale) as u64).max(32) };
        #[cfg(feature = "guided")]
        let shard: u64 = arg(args, "--shard").and_then(|s| s.parse().ok()).unwrap_or(0);
        #[cfg(feature = "guided")]
        let Some((mut r, features)) = guided::run(leg.as_ref(), n, seed, shard) else { continue };
        // In the thorough tier a leg is repeated with fresh seeds until the time budget for the property is used.
        #[cfg(not(feature = "guided"))]
        let mut r = leg.run(n, seed, threads);
        #[cfg(not(feature = "guided"))]
        let features = 0usize;
        if let Some(b) = budget {
            let share = b / legs.len() as f64;
            let mut k = 1u64;
            while !r.exhaustive && r.failure.is_none() && t.elapsed().as_secs_f64() < share {
                let more = leg.run(n, seed.wrapping_add(k.wrapping_mul(0x9e37_79b9_7f4a_7c15)), threads);
                k += 1;
                r.evaluations += more.evaluations;
                r.nontrivial += more.nontrivial;
                r.distinct_nontrivial += more.distinct_nontrivial; // fresh seeds: a repeat across rounds is counted twice
                for (l, c) in more.labels {
                    *r.labels.entry(l).or_default() += c;
                }
                r.failure = more.failure;
            }
        }
        let wall = t.elapsed().as_secs_f64();
        let mut e = json!({
            "leg": leg.name(), "backend": backend(), "rule": leg.rule(), "evaluations": r.evaluations, "nontrivial": r.nontrivial,
            "distinct_nontrivial": r.distinct_nontrivial, "labels": r.labels, "samples": r.samples, "enumerated": r.exhaustive, "features": features,
            "wall_s": (wall * 1000.0).round() / 1000.0,
        });
        eprintln!("  {:<28} {:<9} {:>9} cases {:>9} distinct non-trivial {:>8.2} s{}", leg.name(), backend(), r.evaluations, r.distinct_nontrivial, wall, if r.failure.is_some() { "  FAILED" } else { "" });
        if let Some(f) = r.failure {
            let path = format!("{}/{}-{}-{}.json", replay_dir, prop, leg.name().replace('.', "_"), backend());
            if !write_replay(&path, &prop, leg.name(), &f.input, &f.message) {
                return 2;
            }
            eprintln!("    {}", f.message);
            e["failure"] = json!({"replay": path, "message": f.message});
            viol.push(path);
            report.push(e);
            if !args.iter().any(|a| a == "--keep-going") {
                break;
            }
            continue;
        }
        report.push(e);
    }
    let doc = json!({"property": prop, "backend": backend(), "legs": report, "violations": viol, "wall_s": t0.elapsed().as_secs_f64(),
        "hooks": cfg!(feature = "hooks"), "twisted": cfg!(feature = "twisted")});
    if let Some(o) = out {
        if let Err(x) = std::fs::write(&o, doc.to_string()) {
            eprintln!("cannot write {}: {}", o, x);
            return 2;
        }
    }
    if viol.is_empty() {
        0
    } else {
        1
    }
}

/// exit codes: 0 the input passes, 1 it violates the property, 2 not a replay for this build
fn replay(path: &str) -> i32 {
    let v: Value = match std::fs::read_to_string(path).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string())) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("{}: {}", path, e);
            return 2;
        }
    };
    let (prop, name) = (v["property"].as_str().unwrap_or(""), v["leg"].as_str().unwrap_or(""));
    for leg in props::legs(prop) {
        if leg.name() == name {
            return match leg.replay(&v["input"]) {
                Err(e) => {
                    eprintln!("{}: {}", path, e);
                    2
                }
                Ok(Ok(_)) => {
                    println!("passes: {} {} [{}]", prop, name, backend());
                    0
                }
                Ok(Err(m)) => {
                    println!("fails: {} {} [{}]: {}", prop, name, backend(), m);
                    1
                }
            };
        }
    }
    eprintln!("{}: no leg {} in this build", path, name);
    2
}

fn main() {
    runner::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") => run(&args),
        Some("replay") => args[2..].iter().map(|p| replay(p)).max().unwrap_or(2),
        #[cfg(all(not(feature = "ct"), any(feature = "all", feature = "c16")))]
        Some("serve") => {
            props::program::serve();
            0
        }
        #[cfg(all(not(feature = "ct"), any(feature = "all", feature = "c23")))]
        Some("callonce") => {
            props::history::call_once();
            0
        }
        #[cfg(feature = "ct")]
        Some("ctserve") => {
            props::ct::serve();
            0
        }
        #[cfg(all(not(feature = "ct"), feature = "all"))]
        Some("selftest") => selftest::run(),
        #[cfg(all(not(feature = "ct"), feature = "all"))]
        Some("refeval") => {
            selftest::refeval();
            0
        }
        Some("list") => {
            for p in IDS {
                for l in props::legs(p) {
                    println!("{} {} quick={} thorough={}", p, l.name(), l.cases(false), l.cases(true));
                }
            }
            0
        }
        _ => {
            eprintln!("usage: harness run --prop ID | replay FILE.. | serve | selftest | list");
            2
        }
    };
    std::process::exit(code);
}
