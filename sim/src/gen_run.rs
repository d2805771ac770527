//! Seeded generation of plans for workload R.

use crate::core::*;
use crate::gen::{big, big128, fault_op, knobs, name, swarm};
use crate::rng::Rng;
use crate::wl_run::{Act, Args, NodeCfg, Op, RCfg, RTpl, NEAR};
use serde_json::Value;

fn v(o: &Op) -> Value {
    serde_json::to_value(o).unwrap()
}

struct ProgCfg {
    /// Percent.
    trap: u64,
    xfer: u64,
    loud: u64,
}

fn vars_of(t: &RTpl, size: u32) -> Vec<u32> {
    (0..t.sizes.len()).filter(|i| t.sizes[*i] == size).map(|i| t.first + i as u32).collect()
}

fn slot(r: &mut Rng) -> u32 {
    (20300 + 8 * r.below(40)) as u32
}

/// Pieces of programs.
fn piece(r: &mut Rng, t: &RTpl, p: &ProgCfg, depth: u32, out: &mut Vec<Act>) {
    let x = r.below(100);
    if x < p.xfer {
        let (s, d) = match r.below(10) {
            0 => (32, 32),
            1..=4 => (32, 52),
            _ => (32, 72),
        };
        out.push(Act::CdAddr { o: 20200, k: s });
        out.push(Act::CdAddr { o: 20224, k: d });
        out.push(Act::Cd { o: 20256, k: 8 * r.below(4) as u32 });
        out.push(Act::Xfer { s: 20200, d: 20224, o: 20256 });
        return;
    }
    if x < p.xfer + p.trap {
        match r.below(12) {
            // Pricing does not survive branches after an unconditional `unreachable`.
            0 => out.push(Act::Trap { k: 1 + r.below(2) as u32 }),
            _ if depth == 0 => {
                let o = slot(r);
                out.push(Act::Cd { o, k: 8 * r.below(4) as u32 });
                let mut b = vec![];
                if r.chance(1, 2) {
                    piece(r, t, p, 1, &mut b);
                }
                b.push(Act::Trap { k: r.below(3) as u32 });
                out.push(Act::IfEq { o, x: r.below(4), t: b });
            }
            _ => {}
        }
        return;
    }
    if r.below(100) < p.loud {
        // Receipts at and beyond the limits of their encoding.
        match r.below(6) {
            0 => out.push(Act::Log { o: 0, n: 65535 }),
            1 => out.push(Act::Log { o: 0, n: 65536 }),
            2 => out.push(Act::Log { o: 65530, n: 100 }),
            3 => (0..253 + r.below(5)).for_each(|_| out.push(Act::Log { o: 20300, n: 1 })),
            4 => out.push(Act::Log { o: 20500, n: 0 }),
            _ => {
                let o = slot(r);
                out.push(Act::Cd { o, k: 8 * r.below(4) as u32 });
                let n = 254 + r.below(4);
                let b = (0..n).map(|_| Act::Log { o: 20300, n: 2 }).collect();
                out.push(Act::IfEq { o, x: r.below(4), t: b });
            }
        }
        return;
    }
    let (v4, v8, v20) = (vars_of(t, 4), vars_of(t, 8), vars_of(t, 20));
    let small: Vec<u32> = [vars_of(t, 1), vars_of(t, 4)].concat();
    let o = slot(r);
    match r.below(15) {
        14 => {
            // Two or three allocations that are written and read back.
            let n = 2 + r.below(2) as u32;
            let at = |i: u32| 21000 + 8 * i;
            let mut sizes: Vec<u32> = (0..n)
                .map(|_| if r.chance(1, 40) { *r.pick(&[0, 40000, 65528, 65536]) } else { *r.pick(&[8, 9, 16, 24, 100, 500]) })
                .collect();
            if r.chance(1, 10) {
                // Exactly what is left of the memory, or a byte more (with the calldata allocated or not).
                sizes = vec![*r.pick(&[65528, 65436, 65436, 65437])];
            }
            let n = sizes.len() as u32;
            for i in 0..n {
                let m = sizes[i as usize];
                out.push(Act::Alloc { n: m, o: at(i) });
                out.push(Act::PutAt { o: at(i), k: 0, x: big(r) });
                out.push(Act::PutAt { o: at(i), k: m.saturating_sub(8), x: big(r) });
            }
            for i in 0..n {
                let m = sizes[i as usize];
                let o = slot(r);
                out.push(Act::GetAt { p: at(i), k: if r.chance(1, 2) { 0 } else { m.saturating_sub(8) }, o });
                out.push(Act::Log { o, n: 8 });
            }
        }
        0 | 1 if !v8.is_empty() => {
            out.push(Act::Cd { o, k: 8 * r.below(4) as u32 });
            out.push(Act::Set64 { v: *r.pick(&v8), o });
        }
        2 | 3 if !v4.is_empty() => {
            out.push(Act::Cd { o, k: 8 * r.below(4) as u32 });
            out.push(Act::Set32 { v: *r.pick(&v4), o });
        }
        4 | 5 if !v8.is_empty() => {
            // Counter
            let x = *r.pick(&v8);
            let o2 = slot(r);
            out.push(Act::Get64 { v: x, o });
            out.push(Act::Cd { o: o2, k: 8 * r.below(4) as u32 });
            out.push(Act::Add { a: o, b: o2, o });
            out.push(Act::Set64 { v: x, o });
        }
        6 if !v4.is_empty() => {
            out.push(Act::Get32 { v: *r.pick(&v4), o });
            out.push(Act::Log { o, n: 8 });
        }
        7 if r.chance(1, 4) && !small.is_empty() => {
            out.push(Act::Get64 { v: *r.pick(&small), o });
            out.push(Act::Log { o, n: 8 });
        }
        7 if !v8.is_empty() => {
            out.push(Act::Get64 { v: *r.pick(&v8), o });
            out.push(Act::Log { o, n: 8 });
        }
        8 if !v20.is_empty() => {
            out.push(Act::CdAddr { o, k: *r.pick(&[32, 52, 72]) });
            out.push(Act::Store { v: *r.pick(&v20), o });
        }
        9 if !v20.is_empty() => {
            out.push(Act::Load { v: *r.pick(&v20), o });
            out.push(Act::Log { o, n: 20 });
        }
        10 if !v8.is_empty() && v8.len() > 1 => {
            // Between variables
            out.push(Act::Get64 { v: *r.pick(&v8), o });
            out.push(Act::Set64 { v: *r.pick(&v8), o });
        }
        11 => {
            out.push(Act::CdLen { o });
            out.push(Act::Log { o, n: 8 });
        }
        12 if depth == 0 => {
            out.push(Act::Cd { o, k: 8 * r.below(4) as u32 });
            let mut b = vec![];
            for _ in 0..1 + r.below(2) {
                piece(r, t, p, 1, &mut b);
            }
            out.push(Act::IfEq { o, x: r.below(4), t: b });
        }
        13 if r.chance(1, 20) => {
            // A variable that does not exist, or one that is too large.
            // (The variables of a verify function are not in `t`.)
            let past = if t.sizes.is_empty() { 60 } else { t.sizes.len() as u32 };
            let mut v = t.first + past + r.below(2) as u32;
            for (i, n) in t.sizes.iter().enumerate() {
                if *n > 20 && r.chance(1, 2) {
                    v = t.first + i as u32;
                }
            }
            out.push(match r.below(3) {
                0 => Act::Get64 { v, o },
                1 => Act::Set32 { v, o },
                _ => Act::Load { v, o },
            });
        }
        _ if r.chance(1, 5) => {
            // The very end of the memory, and sometimes beyond it.
            let past = (r.below(30) == 0) as u32;
            out.push(Act::Put { o: 65528, x: big(r) });
            match r.below(3) {
                0 if !v20.is_empty() => out.push(Act::Store { v: *r.pick(&v20), o: 65516 + past }),
                1 if !v20.is_empty() => {
                    out.push(Act::Load { v: *r.pick(&v20), o: 65516 + past });
                    out.push(Act::Log { o: 65500, n: 36 });
                }
                _ => {
                    let n = 1 + r.below(16) as u32;
                    out.push(Act::Log { o: 65536 - n + past, n });
                }
            }
        }
        _ => {
            out.push(Act::Put { o, x: big(r) });
            out.push(Act::Log { o, n: 1 + r.below(16) as u32 });
        }
    }
}

fn func(r: &mut Rng, t: &RTpl, p: &ProgCfg, max: u64) -> Vec<Act> {
    let mut out = vec![];
    for _ in 0..r.below(max + 1) {
        piece(r, t, p, 0, &mut out);
    }
    if r.chance(1, 3) {
        let n = *r.pick(&[1, 4, 8, 20, 300]);
        let o = match r.below(8) {
            // The very end of the memory.
            0 => 65536 - n,
            1 | 2 | 3 => 20300,
            _ => slot(r),
        };
        let at = r.below(out.len() as u64 + 1) as usize;
        out.insert(at, Act::Ret { o, n });
    } else if r.below(100) < p.loud {
        let (o, n) = *r.pick(&[(0, 65535), (0, 65536), (65530, 10), (20300, 0)]);
        out.push(Act::Ret { o, n });
    }
    out
}

fn tpl(r: &mut Rng, prop: &str, salt: u64) -> RTpl {
    let n = r.below(7);
    let mut t = RTpl {
        first: *r.pick(&[0, 0, 1, 7]),
        sizes: (0..n).map(|_| *r.pick(&[4, 4, 8, 8, 8, 20, 20, 1, 33, 16])).collect(),
        ctors: vec![],
        funcs: vec![],
        verify: vec![],
        alloc: if r.chance(1, 20) { 2 + r.below(5) as u32 } else { r.below(2) as u32 },
        ri: r.chance(1, 6),
        salt,
        sdk: false,
        cyc: 0,
    };
    let p = ProgCfg {
        trap: if prop == "C10" { 20 } else { 6 },
        xfer: if prop == "C11" { 50 } else { 20 },
        loud: if matches!(prop, "C10" | "C14" | "C16") { 3 } else { 1 },
    };
    let mut c = vec![];
    // The first constructor usually succeeds.
    let calm = ProgCfg { trap: 0, xfer: 0, loud: 0 };
    let quiet = r.chance(3, 4);
    c.push(func(r, &t, if quiet { &calm } else { &p }, 2));
    for _ in 0..r.below(3) {
        c.push(func(r, &t, &p, 4));
    }
    t.ctors = c;
    t.funcs = (0..1 + r.below(4)).map(|_| func(r, &t, &p, 6)).collect();
    // Verification mostly accepts; sometimes it depends on the data; sometimes it tries to write.
    let q = ProgCfg { trap: 30, xfer: 0, loud: 0 };
    let none = RTpl { sizes: vec![], ..t.clone() };
    t.verify = match r.below(6) {
        0 | 1 => vec![],
        2 | 3 => func(r, &none, &q, 3),
        4 => func(r, &t, &p, 3),
        _ => func(r, &none, &calm, 3),
    };
    t
}

/// The contract that is written with the SDK.
fn sdk_tpl() -> RTpl {
    let f = |c: &str, n: usize| (0..n).map(|i| vec![Act::Sdk { f: format!("{}{}", c, i) }]).collect();
    RTpl {
        first: 0,
        sizes: crate::sdk::sizes(),
        ctors: f("c", crate::sdk::CTORS),
        funcs: f("f", crate::sdk::FUNCS),
        verify: vec![],
        alloc: 1,
        ri: true,
        salt: 0,
        sdk: true,
        cyc: 0,
    }
}

fn amount(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => 0,
        1 => big(r),
        2 => u64::MAX,
        _ => r.below(600),
    }
}

fn args(r: &mut Rng, accs: u64) -> Args {
    Args {
        p: (0..4)
            .map(|_| match r.below(4) {
                0 => r.below(4),
                1 => amount(r),
                _ => 1 + r.below(300),
            })
            .collect(),
        d: {
            let x = r.below(accs);
            vec![x, if r.chance(1, 4) { x } else { r.below(accs) }]
        },
        none: r.chance(1, 20),
    }
}

fn gas(r: &mut Rng) -> u64 {
    match r.below(12) {
        10 => NEAR - 6 + r.below(13),
        11 => NEAR - 500 + r.below(1000),
        0 => 1 + r.below(5000),
        1 => {
            let b = 10 + r.below(14);
            1 + r.below(1 << b)
        }
        2 => u64::MAX,
        _ => 0,
    }
}

fn bal(r: &mut Rng) -> u64 {
    match r.below(10) {
        0 => u64::MAX - r.below(500),
        1 => big(r),
        2 => 0,
        _ => r.below(2000),
    }
}

// 0 deploy 1 spawn 2 call 3 verify 4 create 5 inc 6 xfer 7 commit 8 rewind 9 badrewind 10 info 11 dirty
// 12 audit 13 hist 14 garbage 15 validate 16 badhandle 17 badopen 18 count 19 destroy 20 idle 21 reopen
// 22 par
fn one(r: &mut Rng, k: usize, n: u64, c: &RCfg, prop: &str) -> Op {
    let t = r.below(c.tpl.len() as u64);
    let accs = c.plain + c.tpl.len() as u64;
    let spawned = c.plain + t;
    match k {
        0 => Op::Deploy { n, t, gas: gas(r) },
        1 => {
            let f = match r.below(24) {
                0 => "f0".into(),
                1 => "svm_verify".into(),
                2 => "nope".into(),
                _ => format!("c{}", r.below(c.tpl[t as usize].ctors.len() as u64)),
            };
            Op::Spawn { n, t, f, name: name(r), args: args(r, accs), gas: gas(r), pr: r.below(accs) }
        }
        2 => {
            // Mostly accounts whose functions are known.
            let a = if r.chance(4, 5) { spawned } else { r.below(accs) };
            let f = match r.below(24) {
                0 => "c0".into(),
                1 => "svm_verify".into(),
                2 => "nope".into(),
                3 => "svm_alloc".into(),
                _ => format!("f{}", r.below(c.tpl[t as usize].funcs.len() as u64)),
            };
            Op::Call { n, a, f, args: args(r, accs), gas: gas(r), pr: r.below(accs) }
        }
        3 => Op::Verify { n, a: if r.chance(5, 6) { spawned } else { r.below(accs) }, args: args(r, accs) },
        4 => Op::Create { n, a: r.below(c.plain), bal: bal(r), ctr: big128(r), name: name(r) },
        5 => Op::Inc { n, a: r.below(accs), x: amount(r) },
        6 => {
            let s = r.below(accs);
            let d = if r.chance(1, 6) { s } else { r.below(accs) };
            Op::Xfer { n, s, d, x: amount(r) }
        }
        7 => Op::Commit { n },
        8 => Op::Rewind { n, back: *r.pick(&[0, 0, 1, 1, 2, 3]) },
        9 => Op::BadRewind { n, ahead: r.below(6) },
        10 => Op::Info { n },
        11 => Op::Dirty { n },
        12 => Op::Audit { n },
        13 => Op::Hist { n, back: r.below(6) },
        14 => Op::Garbage { n, k: r.below(7), cut: r.below(3), s: r.next() & 0xffff_ffff },
        15 => Op::Validate { n, k: r.below(3), t },
        16 => Op::BadHandle { k: r.below(16), n: r.below(3) },
        17 => Op::BadOpen { k: r.below(4) },
        18 => Op::Count,
        19 => Op::Destroy { n, race: if prop == "C15" && r.chance(1, 3) { 2 + r.below(2) } else { 0 } },
        20 => Op::Idle { ms: *r.pick(&[1, 1000, 60_000, 700_000, 2_000_000]) },
        21 => Op::Reopen { n },
        _ => {
            let _ = prop;
            Op::Info { n }
        }
    }
}

fn heavy(o: &Op) -> bool {
    matches!(
        o,
        Op::Open { .. } | Op::Reopen { .. } | Op::Commit { .. } | Op::Spawn { .. } | Op::Call { .. } | Op::Rewind { .. }
    )
}

pub fn run_plan(prop: &str, seed: u64, r: &mut Rng) -> Plan {
    let mut kn = knobs(r);
    // Programs are compiled in every transaction; keep the run's length in bounds.
    kn.max_steps = 40_000_000;
    //               0  1  2  3  4  5  6  7  8  9 10 11 12 13 14 15 16 17 18 19 20 21 22
    let mut w = vec![2, 4, 16, 3, 3, 3, 4, 5, 2, 0, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 1, 1, 0];
    let (mut fault, mut crash) = (8u64, 25u64);
    let mut epochs = (1, 2);
    let mut ops = (6, 20);
    let ffi_pct;
    let mut nodes = 1;
    match prop {
        "C10" => {
            ffi_pct = 25;
            fault = 20;
            w[5] = 6;
            w[6] = 6;
            w[14] = 2;
            w[13] = 3;
        }
        "C11" => {
            ffi_pct = 25;
            w[1] = 2;
            w[2] = 18;
            w[4] = 3;
            w[5] = 6;
            w[6] = 14;
        }
        "C12" => {
            ffi_pct = 25;
            w[3] = 16;
            w[2] = 8;
            w[4] = 4;
        }
        "C13" => {
            ffi_pct = 50;
            nodes = 2;
            fault = 6;
            crash = 25;
            w[14] = 0;
            w[10] = 3;
            w[21] = 2;
        }
        "C14" => {
            ffi_pct = 25;
            w[9] = 1;
            w[13] = 3;
            w[15] = 1;
            w[0] = 3;
            w[1] = 6;
        }
        "C19" => {
            ffi_pct = 25;
            fault = 12;
            w[2] = 30;
            w[1] = 5;
            w[3] = 1;
            w[13] = 2;
            w[21] = 2;
            ops = (8, 26);
        }
        "C15" => {
            ffi_pct = 100;
            nodes = 1 + r.below(3);
            fault = 4;
            crash = 10;
            w[16] = 3;
            w[17] = 1;
            w[18] = 2;
            w[19] = 6;
            w[21] = 2;
            w[22] = if nodes > 1 { 4 } else { 1 };
            ops = (4, 14);
        }
        _ => {
            // C16
            ffi_pct = 100;
            nodes = 1 + r.below(2);
            fault = 30;
            crash = 20;
            w[9] = 3;
            w[14] = 8;
            w[16] = 3;
            w[17] = 2;
            w[18] = 1;
            w[19] = 2;
            w[21] = 3;
            w[22] = if nodes > 1 { 2 } else { 0 };
            epochs = (1, 3);
        }
    }
    let mirror = prop == "C13";
    let mut cfg_nodes: Vec<NodeCfg> = (0..nodes)
        .map(|_| NodeCfg { ffi: r.below(100) < ffi_pct, mem: r.chance(1, 4) })
        .collect();
    if mirror && r.chance(2, 3) {
        cfg_nodes.iter_mut().for_each(|n| n.mem = false);
    }
    if r.chance(1, 4) && nodes > 1 {
        epochs = (1, 1);
    }
    let any_mem = cfg_nodes.iter().any(|n| n.mem);
    let all_mem = cfg_nodes.iter().all(|n| n.mem);
    if all_mem || mirror && any_mem {
        epochs = (1, 1);
        crash = 0;
    }
    let nt = if prop == "C19" { 1 + r.below(4) / 3 } else { 1 + r.below(3) };
    let salt = r.below(1000) * 8;
    let c = RCfg {
        nodes: cfg_nodes,
        mirror,
        plain: 1 + r.below(4),
        tpl: (0..nt).map(|i| if prop == "C19" && i == 0 { sdk_tpl() } else { tpl(r, prop, salt + i) }).collect::<Vec<_>>(),
    };
    let mut c = c;
    if nt > 1 && crate::rng::mix(salt, 5) % 6 == 0 {
        c.tpl[nt as usize - 1].cyc = 1 + (crate::rng::mix(salt, 6) % 4) as u32;
    }
    let accs = c.plain + nt;
    swarm(r, &mut w, &[1, 2, 7]);
    let ne = r.range(epochs.0, epochs.1);
    let ncpu = kn.ncpu;
    let pick_fault = |r: &mut Rng, open: bool| -> Op {
        if prop == "C16" && open && r.chance(1, 2) {
            // Not tokio's own workers: it never returns from that.
            return Op::NoThread { skip: ncpu + r.below(10) };
        }
        let (k, skip, count, ms) = fault_op(r, prop, open);
        Op::Fault { k, skip, count, ms }
    };
    let mut eps = vec![];
    for e in 0..ne {
        let mut ops_v = vec![];
        for n in 0..nodes {
            if fault > 0 && r.chance(1, if prop == "C16" { 3 } else { 12 }) && !mirror {
                ops_v.push(pick_fault(r, true));
            }
            ops_v.push(Op::Open { n });
        }
        if e == 0 {
            for n in 0..(if mirror { 1 } else { nodes }) {
                if n > 0 && r.chance(1, 3) {
                    continue;
                }
                for t in 0..nt {
                    if r.chance(19, 20) {
                        ops_v.push(Op::Deploy { n, t, gas: 0 });
                    }
                }
                for a in 0..c.plain {
                    if r.chance(8, 10) {
                        ops_v.push(Op::Create { n, a, bal: bal(r), ctr: big128(r), name: name(r) });
                    }
                }
                if r.chance(1, 3) {
                    ops_v.push(Op::Commit { n });
                }
                for t in 0..nt {
                    if r.chance(9, 10) {
                        ops_v.push(Op::Spawn { n, t, f: "c0".into(), name: name(r), args: args(r, accs), gas: 0, pr: r.below(accs) });
                        if r.chance(2, 3) {
                            ops_v.push(Op::Inc { n, a: c.plain + t, x: bal(r) });
                        }
                    }
                }
            }
        }
        let k = r.range(ops.0, ops.1);
        for _ in 0..k {
            let n = r.below(nodes);
            let k = r.weighted(&w);
            let o = if k == 22 {
                let mut th = vec![];
                for n in 0..nodes {
                    if r.chance(1, 6) {
                        continue;
                    }
                    let m = 1 + r.below(5);
                    th.push((
                        n,
                        (0..m)
                            .map(|_| {
                                let k = *r.pick(&[0, 1, 2, 2, 2, 2, 3, 5, 6, 7, 10, 12, 15, 19, 21]);
                                one(r, k, n, &c, prop)
                            })
                            .collect(),
                    ));
                }
                Op::Par { th }
            } else {
                one(r, k, n, &c, prop)
            };
            // Respawning an account that holds coins destroys them: a known finding, kept rare.
            if prop == "C11" && matches!(&o, Op::Spawn { .. }) && !r.chance(1, 40) {
                continue;
            }
            let p = if heavy(&o) { fault } else { fault / 6 };
            if !matches!(o, Op::Par { .. }) && r.below(100) < p {
                let open = matches!(o, Op::Reopen { .. });
                ops_v.push(pick_fault(r, open));
            }
            ops_v.push(o);
        }
        let mut end = End::Graceful;
        let mut at = None;
        if r.below(100) < crash {
            end = if r.chance(2, 3) { End::Power } else { End::Process };
            let hs: Vec<usize> = (0..ops_v.len()).filter(|i| heavy(&ops_v[*i])).collect();
            if !hs.is_empty() && r.chance(9, 10) {
                let op = *r.pick(&hs);
                let open = matches!(ops_v[op], Op::Open { .. } | Op::Reopen { .. });
                let io = r.chance(2, 3);
                let n = if io {
                    if open {
                        r.below(90)
                    } else {
                        r.below(30)
                    }
                } else {
                    r.below(if open { 5000 } else { 3000 })
                };
                at = Some(CrashAt { op, n, io });
                ops_v.truncate(op + 1);
            }
        }
        if e + 1 == ne && at.is_none() {
            for n in 0..nodes {
                ops_v.push(Op::Audit { n });
                if !(mirror && any_mem) && (prop == "C15" || r.chance(1, 4)) {
                    ops_v.push(Op::Destroy { n, race: if prop == "C15" && r.chance(1, 4) { 2 + r.below(2) } else { 0 } });
                }
            }
        }
        eps.push(Epoch { ops: ops_v.iter().map(v).collect(), end, crash: at });
    }
    if eps.last().unwrap().end != End::Graceful {
        let mut ops_v = vec![];
        for n in 0..nodes {
            ops_v.push(Op::Open { n });
            ops_v.push(Op::Audit { n });
            ops_v.push(Op::Hist { n, back: 0 });
            ops_v.push(Op::Hist { n, back: 1 });
        }
        for n in 0..(if mirror { 1 } else { nodes }) {
            ops_v.push(Op::Inc { n, a: 0, x: 1 });
            ops_v.push(Op::Commit { n });
            ops_v.push(one(r, 2, n, &c, prop));
        }
        for n in 0..nodes {
            ops_v.push(Op::Audit { n });
        }
        eps.push(Epoch { ops: ops_v.iter().map(v).collect(), end: End::Graceful, crash: None });
    }
    Plan {
        property: prop.into(),
        workload: "run".into(),
        seed,
        knobs: kn,
        config: serde_json::to_value(&c).unwrap(),
        epochs: eps,
    }
}
