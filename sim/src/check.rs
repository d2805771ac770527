//! The registered checks: a seeded batch of simulated runs, minimisation and confirmation of what
//! fails, known findings, and the evidence file.

use crate::coord::*;
use crate::core::*;
use crate::{env_u64, gen};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::time::Instant;

fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

/// Simulated runs of the quick tier, and its limit on real time.
fn quick_runs(prop: &str) -> (u64, f64) {
    match prop {
        "C13" => (1300, 120.0),
        "C19" => (900, 120.0),
        p if gen::is_run(p) => (2500, 120.0),
        "C17" => (6000, 150.0),
        "C07" => (5000, 150.0),
        _ => (4000, 150.0),
    }
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub message: String,
    pub incarnation: usize,
    pub found_with: Value,
    pub plan: Plan,
}

#[derive(Clone, Debug)]
pub struct Known {
    pub property: String,
    /// Text that the violation's class and message must contain.
    pub class: String,
    pub has: Vec<String>,
    pub what: String,
}

/// Lines `KNOWN-FINDING: property=<id> class=<class> has="<text>" ... : <what fails>`.
pub fn known(prop: &str) -> Vec<Known> {
    let t = std::fs::read_to_string(format!("{}/known-findings.txt", root())).unwrap_or_default();
    let mut out = vec![];
    for l in t.lines() {
        let l = match l.strip_prefix("KNOWN-FINDING: ") {
            Some(l) => l,
            None => continue,
        };
        let (head, what) = match l.split_once(" : ") {
            Some(x) => x,
            None => continue,
        };
        let mut k = Known {
            property: String::new(),
            class: String::new(),
            has: vec![],
            what: what.trim().into(),
        };
        let mut rest = head.trim();
        while !rest.is_empty() {
            let (key, v) = match rest.split_once('=') {
                Some(x) => x,
                None => break,
            };
            let (val, r) = if let Some(q) = v.strip_prefix('"') {
                q.split_once('"').unwrap_or((q, ""))
            } else {
                v.split_once(' ').unwrap_or((v, ""))
            };
            match key.trim() {
                "property" => k.property = val.into(),
                "class" => k.class = val.into(),
                "has" => k.has.push(val.into()),
                _ => {}
            }
            rest = r.trim();
        }
        if k.property == prop {
            out.push(k);
        }
    }
    out
}

fn is_known(ks: &[Known], v: &Violation) -> bool {
    ks.iter().any(|k| k.class == v.class && k.has.iter().all(|h| v.msg.contains(h.as_str())))
}

pub fn check(prop: &str) -> i32 {
    let t0 = Instant::now();
    let base = env_u64("VERIF_SEED", 1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let (mut n, mut cap) = quick_runs(prop);
    if thorough {
        n = 10_000_000;
        cap = 3600.0;
    }
    n = env_u64("VERIF_RUNS", n);
    cap = env_u64("VERIF_SECONDS", cap as u64) as f64;
    let workers = env_u64("WORKERS", 8);
    let ks = known(prop);
    let prop_s = prop.to_string();
    let ks2 = ks.clone();
    let b = batch(prop, base, n, workers, cap, &move |l| match &l.verdict {
        Verdict::Fail(v, _) => concerns(v, &prop_s) && !is_known(&ks2, v),
        Verdict::Harness(_) => true,
        Verdict::Pass => false,
    });
    let mut rc = 0;
    let mut violations = 0;
    for k in &ks {
        println!("KNOWN-FINDING: property={} {}", prop, k.what);
    }
    for l in &b.lines {
        match &l.verdict {
            Verdict::Harness(m) => {
                eprintln!("error of the simulator: seed {}: {}", l.seed, m);
                rc = 2;
            }
            Verdict::Fail(v, _) if concerns(v, prop) && !is_known(&ks, v) && violations == 0 => {
                violations += 1;
                match report(prop, base, l, v, thorough) {
                    Some(path) => {
                        println!("VIOLATION property={} replay={}", prop, path);
                        if rc == 0 {
                            rc = 1;
                        }
                    }
                    None => {
                        eprintln!("error of the simulator: seed {} does not repeat", l.seed);
                        rc = 2;
                    }
                }
            }
            _ => {}
        }
    }
    if b.lines.is_empty() {
        eprintln!("error of the simulator: nothing ran");
        rc = 2;
    }
    evidence(prop, &tier, base, &b, violations, t0.elapsed().as_secs_f64());
    let c = cover(&b.lines, prop);
    println!("{}: {} simulated runs, {:.0} s simulated, {} faults injected, {} violations, {:.1} s", prop, c.runs, c.stats.sim_ns as f64 / 1e9, c.stats.faults.values().sum::<u64>(), violations, t0.elapsed().as_secs_f64());
    rc
}

/// Minimises, writes the replay file and confirms it twice.
fn report(prop: &str, base: u64, l: &Line, v: &Violation, thorough: bool) -> Option<String> {
    let full = gen::plan(prop, l.seed);
    let mut best = minimise(&full, prop, &v.class, if thorough { 120.0 } else { 45.0 });
    let mut r = confirm(&best, prop, &v.class);
    if r.is_none() {
        best = full;
        r = confirm(&best, prop, &v.class);
    }
    let (v, inc) = r?;
    println!("violation of {}: {}: {}", prop, v.class, v.msg.chars().take(1500).collect::<String>());
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{:016x}.json", dir, prop, l.seed);
    let rep = Replay {
        property: prop.into(),
        class: v.class.clone(),
        message: v.msg.clone(),
        incarnation: inc,
        found_with: json!({"VERIF_SEED": base, "run": l.i, "seed": l.seed}),
        plan: best,
    };
    std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).ok()?;
    Some(path)
}

fn confirm(p: &Plan, prop: &str, class: &str) -> Option<(Violation, usize)> {
    let mut last = None;
    for _ in 0..2 {
        match run_plan(p).verdict {
            Verdict::Fail(v, e) if v.class == class && concerns(&v, prop) => last = Some((v, e)),
            _ => return None,
        }
    }
    last
}

/// Runs a replay file; exit 1 if the violation occurs again, 0 if the run is clean.
pub fn replay(path: &str) -> i32 {
    let r: Replay = match std::fs::read_to_string(path).map_err(|e| e.to_string()).and_then(|t| serde_json::from_str(&t).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("cannot read {}: {}", path, e);
            return 2;
        }
    };
    let o = run_plan(&r.plan);
    match o.verdict {
        Verdict::Fail(v, e) => {
            println!("{} in incarnation {}: {}", v.class, e, v.msg);
            println!("same violation as recorded: {}", v.class == r.class && v.msg == r.message && e == r.incarnation);
            println!("VIOLATION property={} replay={}", r.property, path);
            1
        }
        Verdict::Pass => {
            println!("no violation");
            0
        }
        Verdict::Harness(m) => {
            eprintln!("error of the simulator: {}", m);
            2
        }
    }
}

/// Same seed, same execution: runs some seeds of every property twice and compares everything.
pub fn selfcheck() -> i32 {
    let mut bad = 0;
    for p in gen::ALL {
        let a = batch(p, 7, 40, 8, 300.0, &|_| false);
        let b = batch(p, 7, 40, 3, 300.0, &|_| false);
        for (x, y) in a.lines.iter().zip(&b.lines) {
            if (x.seed, x.stats.hash, x.stats.steps, x.stats.sim_ns) != (y.seed, y.stats.hash, y.stats.steps, y.stats.sim_ns) {
                println!("{} seed {} is not repeatable", p, x.seed);
                bad += 1;
            }
        }
        println!("{}: {} runs repeated", p, a.lines.len());
    }
    (bad > 0) as i32
}

fn evidence(prop: &str, tier: &str, base: u64, b: &Batch, violations: u64, wall: f64) {
    let c = cover(&b.lines, prop);
    let per_h = |x: f64| (x / b.wall.max(0.001) * 3600.0).round();
    let mut samples: Vec<Value> = vec![];
    for l in b.lines.iter().take(200) {
        if samples.len() >= 3 {
            break;
        }
        if l.stats.faults.is_empty() && samples.len() < 2 && b.lines.len() > 50 {
            continue;
        }
        let p = gen::plan(prop, l.seed);
        let mut t = serde_json::to_string(&p.epochs).unwrap();
        if t.len() > 1500 {
            t = t.chars().take(1500).collect::<String>() + " ...";
        }
        samples.push(json!({
            "seed": l.seed, "steps": l.stats.steps, "context_switches": l.stats.switches,
            "simulated_ms": l.stats.sim_ns / 1_000_000, "faults": l.stats.faults, "schedule_hash": format!("{:016x}", l.stats.hash),
            "incarnations": t,
        }));
    }
    let mut outcome: BTreeMap<&str, u64> = BTreeMap::new();
    for l in &b.lines {
        *outcome
            .entry(match &l.verdict {
                Verdict::Pass => "passed",
                Verdict::Fail(v, _) if concerns(v, prop) => "failed this property",
                Verdict::Fail(..) => "failed another property",
                Verdict::Harness(_) => "simulator error",
            })
            .or_default() += 1;
    }
    let (real, stub) = gen::components(prop);
    let e = json!({
        "property": prop,
        "tier": if tier == "thorough" { "thorough" } else { "quick" },
        "seed": base,
        "level": "exploration",
        "coverage": {
            "evaluations": c.runs,
            "distinct_nontrivial": c.nontrivial,
            "rule": "One evaluation is one simulated run: a plan (operations, faults, crash points, environment) generated from its seed, executed incarnation by incarnation under the seeded scheduler, checked against the reference model. Non-trivial: at least 3 operations ran and at least one context switch happened; distinct: no other run of this batch has the same plan and the same schedule hash (hash over every scheduling decision, I/O call, fault and operation, in order).",
            "samples": samples,
            "runs_per_hour": per_h(c.runs as f64),
            "distinct_seeds": c.runs,
            "simulated_seconds": (c.stats.sim_ns as f64 / 1e9).round(),
            "distinct_schedules": c.schedules.len(),
            "operations": c.stats.ops,
            "scheduler_steps": c.stats.steps,
            "context_switches": c.stats.switches,
            "storage_calls": c.stats.io,
            "timer_expiries": c.stats.timeouts,
            "faults_injected": c.stats.faults,
            "rare_conditions_reached": c.stats.probes,
            "outcomes": outcome,
            "violations_of_other_properties": c.foreign,
            "real_components": real,
            "stubbed_components": stub,
        },
        "assumptions": [
            "Seeded search: what no generated run reached is not covered.",
            "Threads are interleaved at scheduling points (locks, waits, allocations, system calls, storage calls, calls into the code under test); between two points a thread runs undisturbed and memory is sequentially consistent.",
            "Storage keeps what was synced; a power loss keeps an arbitrary (possibly torn) subset of what was not; a successful sync also settles earlier file creations and deletions.",
            "flume 0.10.9 is replaced by a copy with its lost-message race fixed (see DESIGN.md)."
        ],
        "wall_s": wall,
        "violations": violations,
    });
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{}/{}.json", dir, prop), serde_json::to_string_pretty(&e).unwrap() + "\n");
}
