//! mega-mc: bounded exhaustive exploration of mega-evm, one property per invocation.
//!
//! usage: mega-mc <property> <quick|thorough> [--replay <file>]
mod common;
mod prog;
mod props;
mod reft;
mod runner;

use runner::{Run, Tier};
use serde_json::{json, Value};
use std::{
    collections::BTreeMap,
    path::PathBuf,
    sync::{atomic::AtomicU64, Mutex},
    time::Instant,
};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    if prop == "--state-test-child" {
        props::statetest_child(&args[2..]);
        return;
    }
    let tier = match args.get(2).map(|s| s.as_str()) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let only = args.iter().position(|a| a == "--replay").map(|i| {
        let v: Value =
            serde_json::from_str(&std::fs::read_to_string(&args[i + 1]).expect("replay file"))
                .expect("replay json");
        (v["space"].as_str().unwrap().to_string(), v["index"].as_u64().unwrap())
    });
    let Some(check) = props::lookup(&prop) else {
        eprintln!("unknown property {prop}");
        std::process::exit(2);
    };
    let mut listed = BTreeMap::new();
    if let Ok(t) = std::fs::read_to_string(root.join("known_findings.json")) {
        let v: Value = serde_json::from_str(&t).expect("known_findings.json");
        for e in v["known"].as_array().into_iter().flatten() {
            if e["property"] == prop.as_str() {
                listed.insert(
                    e["id"].as_str().unwrap().to_string(),
                    e["what"].as_str().unwrap().to_string(),
                );
            }
        }
    }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    if std::env::var("VERIF_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let budget = match tier {
        Tier::Quick => 600.0,
        Tier::Thorough => 7200.0,
    };
    let run = Run {
        prop: prop.clone(),
        tier,
        start: Instant::now(),
        budget_s: std::env::var("VERIF_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(budget),
        states: Mutex::default(),
        transitions: AtomicU64::new(0),
        traces: AtomicU64::new(0),
        cases: AtomicU64::new(0),
        spaces: Mutex::default(),
        samples: Mutex::default(),
        violation: Mutex::new(None),
        known: Mutex::default(),
        listed,
        only,
        capped: false.into(),
    };
    check(&run);
    let wall = run.start.elapsed().as_secs_f64();
    use std::sync::atomic::Ordering::Relaxed;
    let violation = run.violation.lock().unwrap();
    let known = run.known.lock().unwrap();
    let (cases, transitions, traces) =
        (run.cases.load(Relaxed), run.transitions.load(Relaxed), run.traces.load(Relaxed));
    let states = run.states.lock().unwrap().len();
    let ev = json!({
        "property": prop,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": states,
            "transitions": transitions,
            "traces_validated_against_impl": traces,
            "cases": cases,
            "exhaustive_within_bounds": !run.capped.load(Relaxed) && violation.is_none(),
            "spaces": *run.spaces.lock().unwrap(),
            "samples": *run.samples.lock().unwrap(),
            "known_findings_seen": known.iter().map(|(k, v)| format!("{k}: {v}")).collect::<Vec<_>>(),
            "rule": "every index of every listed space is executed on the compiled crate; nothing is sampled",
        },
        "wall_s": wall,
    });
    let evdir = root.join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    if run.only.is_none() {
        std::fs::write(evdir.join(format!("{prop}.json")), serde_json::to_vec_pretty(&ev).unwrap())
            .expect("evidence");
    }
    for s in run.spaces.lock().unwrap().iter() {
        println!(
            "  {:<44} {:>9}/{:<9} {:>7.1}s",
            s["space"].as_str().unwrap(),
            s["explored"],
            s["size"],
            s["wall_s"].as_f64().unwrap()
        );
    }
    println!("{prop}: cases={cases} states={states} transitions={transitions} traces={traces} wall={wall:.1}s");
    for (k, v) in known.iter() {
        println!("KNOWN-FINDING: property={prop} {k}: {}", v.replace('\n', " "));
    }
    if let Some(v) = violation.as_ref() {
        let dir = evdir.join("replay");
        let _ = std::fs::create_dir_all(&dir);
        let p = dir.join(format!("{prop}.json"));
        let _ = std::fs::write(
            &p,
            serde_json::to_vec_pretty(&json!({
                "property": prop, "space": v.space, "index": v.index,
                "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
                "case": v.describe, "what": v.what,
            }))
            .unwrap(),
        );
        println!("  space {} index {}\n  case: {}\n  {}", v.space, v.index, v.describe, v.what);
        println!("VIOLATION property={prop} replay={}", p.display());
        std::process::exit(1);
    }
    if cases == 0 {
        eprintln!("no case explored");
        std::process::exit(2);
    }
}
