//! Seeded generation of plans: environment, configuration, operations, faults and crashes. A plan is
//! a pure function of (property, seed).

use crate::core::*;
use crate::rng::{mix, Rng};
use crate::wl_state::{Cfg, Op, TplCfg};
use serde_json::Value;

pub fn plain_knobs() -> Knobs {
    Knobs {
        policy: 0,
        policy_den: 4,
        tick_ns: 1000,
        ncpu: 2,
        rayon: 1,
        lat_us: 0,
        jitter_us: 0,
        sync_lat_us: 0,
        psow: true,
        sector: 4096,
        entropy: 1,
        max_now_s: 100_000,
        max_steps: 20_000_000,
        spawn_fail: 0,
    }
}

pub fn knobs(r: &mut Rng) -> Knobs {
    let mut k = plain_knobs();
    k.policy = r.below(2);
    k.policy_den = *r.pick(&[1, 2, 4, 16, 64]);
    k.tick_ns = *r.pick(&[200, 1000, 20_000]);
    k.ncpu = *r.pick(&[1, 2, 2, 4]);
    k.rayon = 1 + r.below(2);
    if r.chance(1, 3) {
        k.lat_us = *r.pick(&[10, 100, 2000]);
        k.jitter_us = *r.pick(&[0, 50, 5000]);
        k.sync_lat_us = *r.pick(&[0, 1000, 20_000]);
    }
    k.psow = r.chance(2, 3);
    k.sector = *r.pick(&[512, 4096]);
    k.entropy = r.next();
    k
}

/// The plan for run number `seed` of a property.
/// Properties this simulator decides.
pub const ALL: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
    "C14", "C15", "C16", "C17", "C18", "C19",
];

/// Which components ran real code and which a stand-in.
pub fn components(prop: &str) -> (Vec<&'static str>, Vec<&'static str>) {
    let (mut real, stub) = (
        vec![
            "svm-state (GlobalState, AccountStorage, TemplateStorage, Storage) and the crates below it",
            "sqlx 0.5 with its connection pool and worker threads",
            "SQLite (bundled C library), WAL mode",
            "tokio multi-threaded runtime, std threads, mutexes and channels",
        ],
        vec![
            "scheduler, clock, timers, entropy (simulated below libc)",
            "SQLite VFS: in-memory disk with crash, torn-write, error and latency injection",
            "SQLite allocator (real, with injected failures)",
        ],
    );
    if is_run(prop) {
        real.insert(0, "svm-runtime (deploy, spawn, call, verify, host functions) and, through its C API, svm-runtime-ffi");
        real.insert(1, "svm-codec, svm-program, svm-gas; wasmer 2 with the singlepass compiler, executing generated WebAssembly");
    }
    if prop == "C19" {
        real.insert(0, "svm-sdk and the crates below it (macros, storage, host, allocation, ABI encoder and decoder), compiled to WebAssembly");
    }
    (real, stub)
}

pub fn is_run(prop: &str) -> bool {
    matches!(prop, "C10" | "C11" | "C12" | "C13" | "C14" | "C15" | "C16" | "C19")
}

pub fn plan(prop: &str, seed: u64) -> Plan {
    let mut r = Rng::new(mix(seed, 0x9141));
    match prop {
        p if is_run(p) => crate::gen_run::run_plan(prop, seed, &mut r),
        _ => state_plan(prop, seed, &mut r),
    }
}

fn v(o: &Op) -> Value {
    serde_json::to_value(o).unwrap()
}

fn sizes(r: &mut Rng) -> Vec<u32> {
    // Now and then many: writes by the dozen.
    if r.chance(1, 30) {
        let n = 20 + r.below(60);
        return (0..n).map(|_| *r.pick(&[4, 8, 20, 32, 32, 33])).collect();
    }
    // Or large.
    if r.chance(1, 60) {
        return vec![8, 4000 + r.below(5000) as u32, 40, 100 + r.below(200) as u32, 33];
    }
    let n = *r.pick(&[0, 1, 2, 3, 3, 4, 5, 8, 12]);
    (0..n)
        .map(|_| *r.pick(&[1, 2, 3, 4, 4, 7, 8, 8, 15, 16, 20, 31, 32, 32, 33, 40, 63, 64, 65, 100, 130]))
        .collect()
}

struct Mix {
    w: Vec<u32>,
    epochs: (u64, u64),
    ops: (u64, u64),
    mem: u32,      // percent
    fault: u32,    // percent of heavy operations preceded by a fault
    crash: u32,    // percent of epochs that crash
    idle_long: u32,
}

// Order of weights below.
// 0 create 1 setbal 2 setctr 3 setvar 4 burst 5 tpl 6 setcore 7 setnoncore 8 checkpoint 9 rollback
// 10 commit 11 seal 12 rewind 13 badrewind 14 redo 15 read 16 readvar 17 readtpl 18 readall 19 hist
// 20 histtpl 21 histall 22 info 23 dirty 24 idle 25 reopen 26 par
fn mix_for(prop: &str) -> Mix {
    let base = vec![
        3, 5, 3, 10, 2, 2, 1, 1, 6, 2, 3, 8, 1, 0, 0, 3, 3, 2, 1, 2, 1, 1, 1, 1, 1, 1, 0,
    ];
    let mut m = Mix {
        w: base,
        epochs: (1, 3),
        ops: (6, 24),
        mem: 0,
        fault: 0,
        crash: 0,
        idle_long: 0,
    };
    match prop {
        "C01" => {
            m.epochs = (2, 5);
            m.ops = (3, 14);
            m.crash = 75;
            m.fault = 6;
            m.w[12] = 2;
            m.w[21] = 2;
        }
        "C02" => {
            m.epochs = (1, 3);
            m.fault = 60;
            m.crash = 40;
            m.w[10] = 6;
            m.w[11] = 12;
            m.w[18] = 3;
            m.w[12] = 1;
        }
        "C03" => {
            m.w[19] = 12;
            m.w[20] = 6;
            m.w[21] = 4;
            m.w[16] = 4;
            m.w[12] = 2;
            m.w[11] = 12;
            m.w[26] = 2;
            m.crash = 20;
            m.fault = 5;
            m.mem = 15;
            m.ops = (10, 40);
        }
        "C04" => {
            m.w[12] = 8;
            m.w[13] = 3;
            m.w[14] = 1;
            m.w[11] = 14;
            m.w[21] = 3;
            m.w[18] = 4;
            m.crash = 40;
            m.fault = 25;
            m.mem = 10;
            m.ops = (8, 36);
        }
        "C05" => {
            m.w[8] = 8;
            m.w[9] = 5;
            m.w[10] = 7;
            m.w[23] = 5;
            m.w[22] = 3;
            m.w[18] = 3;
            m.w[12] = 2;
            m.crash = 15;
            m.fault = 8;
            m.mem = 20;
            m.ops = (10, 40);
        }
        "C06" => {
            m.w[14] = 6;
            m.w[22] = 3;
            m.w[11] = 12;
            m.w[12] = 2;
            m.crash = 30;
            m.fault = 6;
            m.mem = 10;
            m.ops = (8, 30);
        }
        "C07" => {
            m.epochs = (2, 4);
            m.ops = (1, 6);
            m.crash = 60;
            m.w[25] = 6;
            m.w[21] = 4;
            m.w[18] = 4;
        }
        "C08" => {
            m.w[3] = 20;
            m.w[4] = 4;
            m.w[16] = 10;
            m.w[15] = 6;
            m.w[18] = 2;
            m.w[26] = 2;
            m.crash = 20;
            m.fault = 10;
            m.mem = 20;
            m.ops = (10, 50);
        }
        "C09" => {
            m.w[5] = 8;
            m.w[6] = 6;
            m.w[7] = 6;
            m.w[17] = 10;
            m.w[20] = 6;
            m.w[12] = 2;
            m.crash = 25;
            m.fault = 10;
            m.mem = 15;
            m.ops = (8, 36);
        }
        "C17" => {
            m.mem = 100;
            m.epochs = (1, 1);
            m.idle_long = 1;
            m.fault = 30;
            m.w[24] = 8;
            m.w[26] = 5;
            m.w[4] = 5;
            m.w[11] = 12;
            m.w[12] = 2;
            m.w[19] = 5;
            m.w[18] = 4;
            m.ops = (8, 30);
        }
        "C18" => {
            m.mem = 15;
            m.w[26] = 12;
            m.w[11] = 10;
            m.w[12] = 2;
            m.w[24] = 2;
            m.fault = 30;
            m.ops = (6, 24);
            m.epochs = (1, 2);
        }
        _ => {}
    }
    m
}

/// Swarm: some operation kinds are switched off, some boosted, in every run.
pub fn swarm(r: &mut Rng, w: &mut [u32], keep: &[usize]) {
    for i in 0..w.len() {
        if keep.contains(&i) {
            continue;
        }
        match r.below(8) {
            0 | 1 => w[i] = 0,
            2 => w[i] *= 3,
            _ => {}
        }
    }
}

pub fn big(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => 0,
        1 => u64::MAX,
        2 => u64::MAX - r.below(3),
        3 => 1u64 << r.below(64),
        4 => r.next(),
        _ => r.below(1000),
    }
}

pub fn big128(r: &mut Rng) -> String {
    match r.below(6) {
        0 => u128::MAX.to_string(),
        1 => "0".into(),
        2 => (((r.next() as u128) << 64) | r.next() as u128).to_string(),
        3 => (1u128 << r.below(128)).to_string(),
        _ => r.below(100).to_string(),
    }
}

fn val(r: &mut Rng) -> String {
    match r.below(8) {
        0 => "0".into(),
        1 => "f".into(),
        _ => format!("{:x}", r.next() & 0xffff_ffff),
    }
}

pub fn name(r: &mut Rng) -> String {
    match r.below(6) {
        0 => String::new(),
        1 => "é✓\u{10FFFF}".into(),
        2 => "n".repeat(r.below(254) as usize),
        _ => format!("acc{}", r.below(1000)),
    }
}

fn simple_op(r: &mut Rng, k: usize, acc: u64, t: u64) -> Op {
    let a = r.below(acc);
    match k {
        0 => Op::Create { a, name: name(r), bal: big(r), ctr: big128(r) },
        1 => Op::SetBal { a, v: big(r) },
        2 => Op::SetCtr { a, v: big128(r) },
        3 => Op::SetVar { a, i: r.below(12), b: val(r), extra: if r.chance(1, 6) { r.next() & 0xffff } else { 0 }, how: r.below(2) },
        4 => Op::Burst { a, s: r.next() & 0xffff_ffff },
        5 => Op::Tpl { t: r.below(t), c: r.below(64), n: r.below(600) },
        6 => Op::SetCore { t: r.below(t), c: r.below(64) },
        7 => Op::SetNoncore { t: r.below(t), n: r.below(600) },
        8 => Op::Checkpoint,
        9 => Op::Rollback,
        10 => Op::Commit,
        11 => Op::Seal,
        12 => Op::Rewind { back: *r.pick(&[0, 0, 1, 1, 1, 2, 3, 5]) },
        13 => Op::BadRewind { ahead: r.below(8) },
        14 => Op::Redo { back: r.below(4), s: r.next() & 0xffff_ffff },
        15 => Op::Read { a },
        16 => Op::ReadVar { a, i: r.below(12), how: r.below(3) },
        17 => Op::ReadTpl { t: r.below(t) },
        18 => Op::ReadAll,
        19 => Op::Hist { back: r.below(6), a },
        20 => Op::HistTpl { back: r.below(6), t: r.below(t) },
        21 => Op::HistAll { back: r.below(6) },
        22 => Op::Info,
        23 => Op::Dirty,
        _ => Op::Dirty,
    }
}

fn heavy(o: &Op) -> bool {
    matches!(o, Op::Open { .. } | Op::Reopen { .. } | Op::Commit | Op::Seal | Op::Rewind { .. } | Op::Redo { .. })
}

/// (kind, skip, count, ms)
pub fn fault_op(r: &mut Rng, prop: &str, for_open: bool) -> (u64, u64, u64, u64) {
    let k = if prop == "C18" && r.chance(2, 3) {
        11
    } else if prop == "C17" {
        // Nothing else can fail.
        12
    } else {
        *r.pick(&[0, 0, 1, 1, 2, 3, 3, 5, 6, 7, 8, 9, 10, 11, 12, 12])
    };
    let skip = if for_open { r.below(60) } else { *r.pick(&[0, 0, 1, 2, 3, 5, 8, 13, 20]) };
    let count = *r.pick(&[1, 1, 1, 2, 3, 10, 1000]);
    let ms = *r.pick(&[10, 1000, 4000, 20_000, 60_000]);
    (k, skip, if k == 11 { 1 + count % 3 } else { count }, ms)
}

fn fault(r: &mut Rng, prop: &str, for_open: bool) -> Op {
    let (k, skip, count, ms) = fault_op(r, prop, for_open);
    Op::Fault { k, skip, count, ms }
}

pub fn state_plan(prop: &str, seed: u64, r: &mut Rng) -> Plan {
    let mut m = mix_for(prop);
    let mem = r.below(100) < m.mem as u64;
    if mem {
        m.epochs = (1, 1);
        m.crash = 0;
        m.fault = m.fault / 3;
        m.w[25] = 0;
    }
    let kn = knobs(r);
    let nt = 1 + r.below(3);
    let tpl: Vec<TplCfg> = (0..nt)
        .map(|_| TplCfg {
            first: *r.pick(&[0, 0, 1, 5, 1000]),
            sizes: sizes(r),
            code: match r.below(12) {
                0 => 20_000 + r.below(280_000),
                1 => 2000 + r.below(8000),
                2 => 0,
                _ => r.below(200),
            },
            genesis: r.chance(1, 3),
        })
        .collect();
    let c = Cfg {
        mem,
        accounts: 1 + r.below(if prop == "C08" { 8 } else { 5 }),
        tpl,
    };
    swarm(r, &mut m.w, &[10, 11]);
    let ne = r.range(m.epochs.0, m.epochs.1);
    let mut epochs = vec![];
    for e in 0..ne {
        let mut ops = vec![];
        let fault_open = m.fault > 0 && r.chance(1, 10) || prop == "C07" && r.chance(1, 2);
        if fault_open && !mem {
            ops.push(fault(r, prop, true));
        }
        ops.push(Op::Open { other: r.chance(1, 3) });
        if e == 0 {
            for t in 0..nt {
                if !c.tpl[t as usize].genesis && r.chance(9, 10) {
                    ops.push(Op::Tpl { t, c: r.below(64), n: r.below(600) });
                }
            }
            for a in 0..c.accounts {
                if r.chance(8, 10) {
                    ops.push(Op::Create { a, name: name(r), bal: big(r), ctr: big128(r) });
                }
            }
            if r.chance(1, 2) {
                ops.push(Op::Seal);
            }
        }
        let n = r.range(m.ops.0, m.ops.1);
        for _ in 0..n {
            let k = r.weighted(&m.w);
            let o = match k {
                24 => Op::Idle {
                    ms: if m.idle_long > 0 { *r.pick(&[1000, 60_000, 700_000, 1_900_000, 7_200_000]) } else { *r.pick(&[1, 1000, 60_000, 700_000, 2_000_000]) },
                },
                25 => Op::Reopen { other: r.chance(1, 3) },
                26 => {
                    let nth = 1 + r.below(c.accounts.min(4));
                    let th = (0..nth)
                        .map(|_| {
                            let n = 1 + r.below(6);
                            (0..n)
                                .map(|_| {
                                    let k = *r.pick(&[1, 2, 3, 3, 3, 15, 15, 19, 19, 20, 23]);
                                    simple_op(r, k, c.accounts, nt)
                                })
                                .collect()
                        })
                        .collect();
                    Op::Par { th, commits: if r.chance(1, 2) { 1 + r.below(3) } else { 0 } }
                }
                k => simple_op(r, k, c.accounts, nt),
            };
            if m.fault > 0 {
                let p = if heavy(&o) { m.fault } else { m.fault / 8 };
                let p = if matches!(o, Op::Par { .. }) { if prop == "C18" { 50 } else { 0 } } else { p };
                if !matches!(o, Op::Redo { .. }) && r.below(100) < p as u64 {
                    let mut f = fault(r, prop, matches!(o, Op::Reopen { .. }));
                    if matches!(o, Op::Par { .. }) {
                        if let Op::Fault { k, .. } = &mut f {
                            *k = 11;
                        }
                    }
                    ops.push(f);
                }
            }
            ops.push(o);
        }
        if prop == "C06" && e + 1 == ne && !mem {
            ops.push(Op::Rebuild { s: r.next() & 0xffff_ffff });
        }
        let crash = r.below(100) < m.crash as u64;
        let mut end = End::Graceful;
        let mut at = None;
        if crash {
            end = if r.chance(2, 3) { End::Power } else { End::Process };
            let hs: Vec<usize> = (0..ops.len()).filter(|i| heavy(&ops[*i])).collect();
            if !hs.is_empty() && r.chance(9, 10) {
                let op = if prop == "C07" && r.chance(3, 4) || r.chance(1, 8) { hs[0] } else { *r.pick(&hs) };
                let open = matches!(ops[op], Op::Open { .. } | Op::Reopen { .. });
                let io = r.chance(2, 3);
                let n = if io {
                    if open { r.below(90) } else { r.below(30) }
                } else {
                    r.below(if open { 5000 } else { 3000 })
                };
                at = Some(CrashAt { op, n, io });
                ops.truncate(op + 1);
            }
        }
        // In the end, and after the last crash: look at everything.
        if e + 1 == ne && at.is_none() {
            ops.push(Op::ReadAll);
            ops.push(Op::HistAll { back: r.below(6) });
            if r.chance(1, 2) {
                ops.push(Op::Seal);
                ops.push(Op::ReadAll);
            }
        }
        epochs.push(Epoch {
            ops: ops.iter().map(v).collect(),
            end,
            crash: at,
        });
    }
    if epochs.last().unwrap().end != End::Graceful {
        epochs.push(Epoch {
            ops: [
                Op::Open { other: false },
                Op::HistAll { back: 0 },
                Op::HistAll { back: 1 },
                Op::Burst { a: 0, s: 77 },
                Op::Seal,
                Op::ReadAll,
                Op::HistAll { back: 1 },
            ]
            .iter()
            .map(v)
            .collect(),
            end: End::Graceful,
            crash: None,
        });
    }
    Plan {
        property: prop.into(),
        workload: "state".into(),
        seed,
        knobs: kn,
        config: serde_json::to_value(&c).unwrap(),
        epochs,
    }
}
