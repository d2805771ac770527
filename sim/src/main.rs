#![feature(bench_black_box)]
#![feature(thread_local)]
#![allow(dead_code)]

mod check;
mod coord;
mod core;
mod disk;
mod gen;
mod gen_run;
mod interpose;
mod model;
mod rng;
mod sched;
mod sdk;
mod wl_run;
mod wl_state;

use crate::coord::*;
use std::collections::BTreeMap;

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|x| x.parse().ok()).unwrap_or(d)
}

fn main() {
    interpose::find_allocator_lock();
    let args: Vec<String> = std::env::args().collect();
    let rc = match args.get(1).map(|s| s.as_str()) {
        Some("sweep") => sweep(&args[2], args[3].parse().unwrap()),
        Some("one") => one(&args[2], args[3].parse().unwrap()),
        Some("run") => {
            let p: core::Plan = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            for _ in 0..env_u64("REPEAT", 1) {
                let r = run_plan(&p);
                println!("{:#?} {:?}", r.verdict, r.stats);
                if let Ok(f) = std::env::var("SVMSIM_TRACE") {
                    let _ = std::fs::rename(format!("{}.0", f), format!("{}.0.{}", f, r.stats.hash));
                }
            }
            0
        }
        Some("check") => check::check(&args[2]),
        Some("replay") => check::replay(&args[2]),
        Some("selfcheck") => check::selfcheck(),
        Some("price") => {
            let wasm = std::fs::read(&args[2]).unwrap();
            let program = svm_program::Program::new(&wasm, false).unwrap();
            let prices = svm_program::ProgramVisitor::visit(
                svm_gas::ProgramPricing::new(std::rc::Rc::new(svm_gas::resolvers::V0PriceResolver::default())),
                &program,
            )
            .unwrap();
            println!("ok {}", prices.get(program.exports().get("svm_alloc").unwrap()));
            0
        }
        Some("plan") => {
            println!("{}", serde_json::to_string_pretty(&gen::plan(&args[2], args[3].parse().unwrap())).unwrap());
            0
        }
        _ => {
            eprintln!("usage: svmsim sweep PROP N | one PROP SEED | plan PROP SEED");
            2
        }
    };
    std::process::exit(rc);
}

fn one(prop: &str, seed: u64) -> i32 {
    let p = gen::plan(prop, seed);
    let r = run_plan(&p);
    println!("{:#?} {:?}", r.verdict, r.stats);
    if let Verdict::Fail(v, _) = &r.verdict {
        let m = minimise(&p, &v.props[0], &v.class, 30.0);
        println!("{}", serde_json::to_string(&m).unwrap());
        println!("{:#?}", run_plan(&m).verdict);
    }
    0
}

/// Development aid: runs many seeds and prints a summary of what failed.
fn sweep(prop: &str, n: u64) -> i32 {
    let b = batch(prop, env_u64("VERIF_SEED", 1), n, env_u64("WORKERS", 8), 600.0, &|_| false);
    let mut classes: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let c = cover(&b.lines, prop);
    for l in &b.lines {
        let (k, m) = match &l.verdict {
            Verdict::Pass => continue,
            Verdict::Fail(v, _) => (format!("{} {:?}", v.class, v.props), v.msg.clone()),
            Verdict::Harness(m) => ("HARNESS".into(), m.clone()),
        };
        let e = classes.entry(k).or_insert((0, l.seed, m));
        e.0 += 1;
    }
    println!("{} runs in {:.1}s ({:.0}/s), ops {}, steps {}, sim {:.0}s, schedules {}, nontrivial {}", c.runs, b.wall, c.runs as f64 / b.wall, c.stats.ops, c.stats.steps, c.stats.sim_ns as f64 / 1e9, c.schedules.len(), c.nontrivial);
    if let Ok(f) = std::env::var("HASHES") {
        let t: String = b.lines.iter().map(|l| format!("{} {} {:x} {} {}\n", l.i, l.seed, l.stats.hash, l.stats.steps, l.stats.sim_ns)).collect();
        std::fs::write(f, t).unwrap();
    }
    println!("faults {:?}\nprobes {:?}", c.stats.faults, c.stats.probes);
    for (k, (n, s, m)) in classes {
        let m: String = m.chars().take(600).collect();
        println!("{:5} {}  seed {}\n        {}", n, k, s, m);
    }
    0
}
