//! Runs whole plans (a chain of incarnations), batches of seeds over several worker processes, and
//! the minimiser.

use crate::core::*;
use crate::rng::{hash_str, mix};
use crate::{gen, wl_state};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::io::FromRawFd;
use std::time::Instant;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Verdict {
    Pass,
    Fail(Violation, usize),
    Harness(String),
}

pub struct RunOut {
    pub verdict: Verdict,
    pub stats: Stats,
}

pub fn run_plan(plan: &Plan) -> RunOut {
    let (body, js): (fn(&Value), fn() -> Value) = match plan.workload.as_str() {
        "state" => (wl_state::body, wl_state::model_json),
        "run" => (crate::wl_run::body, crate::wl_run::model_json),
        w => {
            return RunOut {
                verdict: Verdict::Harness(format!("unknown workload {}", w)),
                stats: Stats::default(),
            }
        }
    };
    let mut stats = Stats::default();
    let mut files = vec![];
    let mut model = Value::Null;
    for e in 0..plan.epochs.len() {
        let prev = model.clone();
        let r = run_epoch(plan, e, std::mem::take(&mut files), &move || body(&prev), js);
        stats.add(&r.report.stats);
        let fail = |class: &str, msg: String| {
            let op = if r.report.at_op >= 0 {
                plan.epochs[e].ops.get(r.report.at_op as usize).map(|o| o.to_string()).unwrap_or_default()
            } else {
                String::new()
            };
            let op: String = op.chars().take(200).collect();
            Verdict::Fail(
                Violation {
                    class: class.into(),
                    msg: format!("{} [during operation {} {}]", msg, r.report.at_op, op),
                    props: vec!["*".into()],
                },
                e,
            )
        };
        let v = match r.report.exit.clone() {
            Exit::Done | Exit::Crashed => None,
            Exit::Violation(v) => Some(Verdict::Fail(v, e)),
            Exit::Stuck(m) => Some(fail("stuck", m)),
            Exit::Died(m) => Some(fail("died", m)),
            Exit::Harness(m) => Some(Verdict::Harness(m)),
        };
        if let Some(verdict) = v {
            return RunOut { verdict, stats };
        }
        files = r.files;
        model = r.report.model;
    }
    RunOut {
        verdict: Verdict::Pass,
        stats,
    }
}

pub fn concerns(v: &Violation, prop: &str) -> bool {
    v.props.iter().any(|p| p == prop || p == "*")
}

pub fn seed_of(base: u64, prop: &str, i: u64) -> u64 {
    mix(mix(base, hash_str(prop)), i)
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Line {
    pub i: u64,
    pub seed: u64,
    pub verdict: Verdict,
    pub stats: Stats,
    pub shape: u64,
}

pub struct Batch {
    pub lines: Vec<Line>,
    pub wall: f64,
}

/// Runs seeds `0..n` of a property over `workers` processes, up to `cap` seconds of real time.
/// Stops early once a run fails the property (other than in a way `known` accepts).
pub fn batch(prop: &str, base: u64, n: u64, workers: u64, cap: f64, stop: &dyn Fn(&Line) -> bool) -> Batch {
    let t0 = Instant::now();
    let mut readers = vec![];
    for w in 0..workers {
        let mut fds = [0i32; 2];
        assert_eq!(unsafe { libc::pipe(fds.as_mut_ptr()) }, 0);
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            unsafe {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            }
            let mut f = unsafe { std::fs::File::from_raw_fd(fds[1]) };
            let mut i = w;
            while i < n && t0.elapsed().as_secs_f64() < cap {
                let seed = seed_of(base, prop, i);
                let plan = gen::plan(prop, seed);
                let r = run_plan(&plan);
                let l = Line {
                    i,
                    seed,
                    verdict: r.verdict,
                    stats: r.stats,
                    shape: hash_str(&serde_json::to_string(&(&plan.config, &plan.epochs)).unwrap()),
                };
                let mut s = serde_json::to_string(&l).unwrap();
                s.push('\n');
                if f.write_all(s.as_bytes()).is_err() {
                    break;
                }
                i += workers;
            }
            unsafe { libc::_exit(0) }
        }
        unsafe { libc::close(fds[1]) };
        readers.push((pid, fds[0]));
    }
    let (tx, rx) = std::sync::mpsc::channel::<Line>();
    let mut pids = vec![];
    let mut ths = vec![];
    for (pid, fd) in readers {
        pids.push(pid);
        let tx = tx.clone();
        ths.push(std::thread::spawn(move || {
            let f = unsafe { std::fs::File::from_raw_fd(fd) };
            for l in BufReader::new(f).lines() {
                match l {
                    Ok(l) => {
                        if let Ok(x) = serde_json::from_str::<Line>(&l) {
                            if tx.send(x).is_err() {
                                break;
                            }
                        }
                    }
                    Err(_) => break,
                }
            }
        }));
    }
    drop(tx);
    let mut lines = vec![];
    for l in rx {
        let s = stop(&l);
        lines.push(l);
        if s {
            break;
        }
    }
    for p in &pids {
        unsafe { libc::kill(*p, libc::SIGKILL) };
    }
    for p in pids {
        let mut st = 0;
        unsafe { libc::waitpid(p, &mut st, 0) };
    }
    for t in ths {
        let _ = t.join();
    }
    lines.sort_by_key(|l| l.i);
    Batch {
        lines,
        wall: t0.elapsed().as_secs_f64(),
    }
}

// --- minimisation ----------------------------------------------------------------------------------------

fn same(plan: &Plan, prop: &str, class: &str) -> Option<(Violation, usize)> {
    match run_plan(plan).verdict {
        Verdict::Fail(v, e) if v.class == class && concerns(&v, prop) => Some((v, e)),
        _ => None,
    }
}

/// Shrinks a failing plan while a violation of the same class (and property) persists.
pub fn minimise(plan: &Plan, prop: &str, class: &str, budget_s: f64) -> Plan {
    let t0 = Instant::now();
    let mut best = plan.clone();
    let over = || t0.elapsed().as_secs_f64() > budget_s;
    if let Some((_, e)) = same(&best, prop, class) {
        best.epochs.truncate(e + 1);
    } else {
        return best;
    }
    let mut progress = true;
    while progress && !over() {
        progress = false;
        // Whole incarnations.
        let mut e = 0;
        while e < best.epochs.len() && best.epochs.len() > 1 && !over() {
            let mut p = best.clone();
            p.epochs.remove(e);
            if same(&p, prop, class).is_some() {
                best = p;
                progress = true;
            } else {
                e += 1;
            }
        }
        // Chunks of operations (the first operation of an incarnation stays).
        for e in 0..best.epochs.len() {
            let mut size = (best.epochs[e].ops.len() / 2).max(1);
            loop {
                let mut at = 1;
                while at < best.epochs[e].ops.len() && !over() {
                    let end = (at + size).min(best.epochs[e].ops.len());
                    let mut p = best.clone();
                    p.epochs[e].ops.drain(at..end);
                    let last = p.epochs[e].ops.len().saturating_sub(1);
                    if let Some(c) = p.epochs[e].crash.as_mut() {
                        if c.op >= end {
                            c.op -= end - at;
                        } else if c.op >= at {
                            c.op = at.min(last);
                        }
                    }
                    if same(&p, prop, class).is_some() {
                        best = p;
                        progress = true;
                    } else {
                        at = end;
                    }
                }
                if size == 1 || over() {
                    break;
                }
                size = (size / 2).max(1);
            }
            // Nested lists (concurrent threads).
            for o in 0..best.epochs[e].ops.len() {
                let cands = simpler(&best.epochs[e].ops[o]);
                for c in cands {
                    if over() {
                        break;
                    }
                    let mut p = best.clone();
                    p.epochs[e].ops[o] = c;
                    if p != best && same(&p, prop, class).is_some() {
                        best = p;
                        progress = true;
                        break;
                    }
                }
            }
            // Without the crash, or with a gentler end.
            if best.epochs[e].crash.is_some() && !over() {
                let mut p = best.clone();
                p.epochs[e].crash = None;
                if same(&p, prop, class).is_some() {
                    best = p;
                    progress = true;
                }
            }
            for end in [End::Graceful, End::Process] {
                if best.epochs[e].end != End::Graceful && best.epochs[e].end != end && !over() {
                    let mut p = best.clone();
                    p.epochs[e].end = end.clone();
                    if end == End::Graceful {
                        p.epochs[e].crash = None;
                    }
                    if same(&p, prop, class).is_some() {
                        best = p;
                        progress = true;
                        break;
                    }
                }
            }
        }
        // Plainer environment.
        let k0 = gen::plain_knobs();
        let tries: Vec<Box<dyn Fn(&mut Knobs)>> = vec![
            Box::new({ let k = k0.clone(); move |x| { let e = x.entropy; let m = x.max_now_s; *x = k.clone(); x.entropy = e; x.max_now_s = m; } }),
            Box::new(|x| { x.lat_us = 0; x.jitter_us = 0; x.sync_lat_us = 0; }),
            Box::new(|x| { x.psow = true; x.sector = 4096; }),
            Box::new(|x| { x.ncpu = 1; x.rayon = 1; }),
            Box::new(|x| { x.policy = 0; x.policy_den = 4; }),
            Box::new(|x| { x.entropy = 1; }),
        ];
        for t in tries {
            if over() {
                break;
            }
            let mut p = best.clone();
            t(&mut p.knobs);
            if p != best && same(&p, prop, class).is_some() {
                best = p;
                progress = true;
            }
        }
    }
    best
}

/// Simpler variants of one operation: inner lists shortened, large numbers reduced.
fn simpler(v: &Value) -> Vec<Value> {
    let mut out = vec![];
    fn walk(root: &Value, path: &mut Vec<String>, cur: &Value, out: &mut Vec<Value>) {
        match cur {
            Value::Array(a) => {
                for i in 0..a.len() {
                    let mut n = root.clone();
                    if let Some(Value::Array(x)) = n.pointer_mut(&path.concat()) {
                        x.remove(i);
                    }
                    out.push(n);
                }
                for (i, x) in a.iter().enumerate() {
                    path.push(format!("/{}", i));
                    walk(root, path, x, out);
                    path.pop();
                }
            }
            Value::Object(m) => {
                for (k, x) in m {
                    path.push(format!("/{}", k));
                    walk(root, path, x, out);
                    path.pop();
                }
            }
            Value::Number(n) => {
                if let Some(u) = n.as_u64() {
                    if u > 0 {
                        for c in [0, 1, u / 2] {
                            if c != u {
                                let mut nn = root.clone();
                                if let Some(x) = nn.pointer_mut(&path.concat()) {
                                    *x = json!(c);
                                }
                                out.push(nn);
                            }
                        }
                    }
                }
            }
            Value::Bool(true) => {
                let mut nn = root.clone();
                if let Some(x) = nn.pointer_mut(&path.concat()) {
                    *x = json!(false);
                }
                out.push(nn);
            }
            _ => {}
        }
    }
    walk(v, &mut vec![], v, &mut out);
    out
}

// --- aggregated coverage -----------------------------------------------------------------------------------

#[derive(Default)]
pub struct Cover {
    pub runs: u64,
    pub stats: Stats,
    pub schedules: BTreeSet<u64>,
    pub shapes: BTreeSet<u64>,
    pub nontrivial: u64,
    pub foreign: BTreeMap<String, u64>,
}

pub fn cover(lines: &[Line], prop: &str) -> Cover {
    let mut c = Cover::default();
    for l in lines {
        c.runs += 1;
        c.stats.add(&l.stats);
        c.schedules.insert(l.stats.hash);
        // Distinct and non-trivial: a new schedule in which some operations ran and at least one
        // context switch or fault happened.
        if l.stats.ops >= 3 && l.stats.switches > 0 && c.shapes.insert(mix(l.shape, l.stats.hash)) {
            c.nontrivial += 1;
        }
        if let Verdict::Fail(v, _) = &l.verdict {
            if !concerns(v, prop) {
                *c.foreign.entry(v.class.clone()).or_default() += 1;
            }
        }
    }
    c
}
