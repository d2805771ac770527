//! Plans, incarnations (one forked process each) and their reports.

use crate::disk::{self, File, Pend};
use crate::rng::{mix, Rng};
use crate::sched::{self, Policy};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Knobs {
    /// 0: uniform, 1: priorities
    pub policy: u64,
    pub policy_den: u64,
    pub tick_ns: u64,
    pub ncpu: u64,
    pub rayon: u64,
    pub lat_us: u64,
    pub jitter_us: u64,
    pub sync_lat_us: u64,
    pub psow: bool,
    pub sector: u64,
    pub entropy: u64,
    /// Simulated-time budget of one incarnation, in seconds.
    pub max_now_s: u64,
    pub max_steps: u64,
    /// nth thread creation that fails (0: none)
    pub spawn_fail: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum End {
    Graceful,
    Process,
    Power,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct CrashAt {
    /// Index of the operation during which the crash happens.
    pub op: usize,
    /// After this many I/O operations within it (`io`), or scheduling steps.
    pub n: u64,
    pub io: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Epoch {
    pub ops: Vec<Value>,
    pub end: End,
    pub crash: Option<CrashAt>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Plan {
    pub property: String,
    pub workload: String,
    pub seed: u64,
    pub knobs: Knobs,
    #[serde(default)]
    pub config: Value,
    pub epochs: Vec<Epoch>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Violation {
    pub class: String,
    pub msg: String,
    /// The properties this contradicts; "*" stands for all of them.
    pub props: Vec<String>,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub sim_ns: u64,
    pub io: u64,
    pub timeouts: u64,
    pub hash: u64,
    /// fault kind -> times fired
    pub faults: BTreeMap<String, u64>,
    /// rare-condition probes
    pub probes: BTreeMap<String, u64>,
    pub ops: u64,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.steps += o.steps;
        self.switches += o.switches;
        self.sim_ns += o.sim_ns;
        self.io += o.io;
        self.timeouts += o.timeouts;
        self.hash = mix(self.hash, o.hash);
        self.ops += o.ops;
        for (k, v) in &o.faults {
            *self.faults.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.probes {
            *self.probes.entry(k.clone()).or_default() += v;
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Exit {
    /// All operations done, shut down cleanly.
    Done,
    /// Stopped at an injected crash point.
    Crashed,
    Violation(Violation),
    /// The scheduler found no progress possible (or a budget was exceeded).
    Stuck(String),
    /// The harness itself is at fault.
    Harness(String),
    /// The process died on its own (signal or exit code).
    Died(String),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Report {
    pub exit: Exit,
    pub stats: Stats,
    pub model: Value,
    pub last_panic: String,
    pub at_op: i64,
}

// --- shared memory between an incarnation and its parent -------------------------------------------

const SHM_SIZE: usize = 96 << 20;
static mut SHM: *mut u8 = std::ptr::null_mut();

pub fn init_shm() {
    unsafe {
        if SHM.is_null() {
            let p = libc::mmap(
                std::ptr::null_mut(),
                SHM_SIZE,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            SHM = p as *mut u8;
        }
    }
}

fn shm() -> &'static mut [u8] {
    unsafe { std::slice::from_raw_parts_mut(SHM, SHM_SIZE) }
}

struct W<'a>(&'a mut [u8], usize);
impl<'a> W<'a> {
    fn u64(&mut self, x: u64) {
        self.0[self.1..self.1 + 8].copy_from_slice(&x.to_le_bytes());
        self.1 += 8;
    }
    fn bytes(&mut self, b: &[u8]) {
        self.u64(b.len() as u64);
        self.0[self.1..self.1 + b.len()].copy_from_slice(b);
        self.1 += b.len();
    }
}
struct Rd<'a>(&'a [u8], usize);
impl<'a> Rd<'a> {
    fn u64(&mut self) -> u64 {
        let x = u64::from_le_bytes(self.0[self.1..self.1 + 8].try_into().unwrap());
        self.1 += 8;
        x
    }
    fn bytes(&mut self) -> Vec<u8> {
        let n = self.u64() as usize;
        let v = self.0[self.1..self.1 + n].to_vec();
        self.1 += n;
        v
    }
}

fn put_files(w: &mut W, files: &[File]) {
    w.u64(files.len() as u64);
    for f in files {
        w.bytes(f.name.as_bytes());
        w.bytes(&f.data);
        match &f.durable {
            None => w.u64(0),
            Some(d) => {
                w.u64(1);
                w.bytes(d);
            }
        }
        w.u64(f.pending.len() as u64);
        for p in &f.pending {
            match p {
                Pend::Write(o, b) => {
                    w.u64(0);
                    w.u64(*o);
                    w.bytes(b);
                }
                Pend::Trunc(n) => {
                    w.u64(1);
                    w.u64(*n);
                }
            }
        }
    }
}

fn get_files(r: &mut Rd) -> Vec<File> {
    let n = r.u64();
    let mut v = vec![];
    for _ in 0..n {
        let mut f = File::default();
        f.name = String::from_utf8(r.bytes()).unwrap();
        f.data = r.bytes();
        if r.u64() == 1 {
            f.durable = Some(r.bytes());
        }
        let k = r.u64();
        for _ in 0..k {
            if r.u64() == 0 {
                let o = r.u64();
                f.pending.push(Pend::Write(o, r.bytes()));
            } else {
                f.pending.push(Pend::Trunc(r.u64()));
            }
        }
        v.push(f);
    }
    v
}

// --- the incarnation's side --------------------------------------------------------------------------

pub struct Ctx {
    pub plan: Plan,
    pub epoch: usize,
    pub stats: Stats,
    pub last_panic: String,
    pub cur_op: i64,
    pub model_json: fn() -> Value,
    pub crash: Option<CrashAt>,
    pub op_io_base: u64,
}

static mut CTX: Option<Ctx> = None;

pub fn ctx() -> &'static mut Ctx {
    unsafe { CTX.as_mut().unwrap() }
}

pub fn probe(name: &str) {
    *ctx().stats.probes.entry(name.to_string()).or_default() += 1;
}

fn finish(exit: Exit, image: Option<Vec<File>>) -> ! {
    sched::sched().quiet += 1;
    sched::ACTIVE.store(false, std::sync::atomic::Ordering::SeqCst);
    let s = sched::sched();
    let d = disk::disk();
    let c = ctx();
    c.stats.steps = s.steps;
    c.stats.switches = s.switches;
    c.stats.sim_ns = s.now - 1_000_000_000;
    c.stats.io = d.io_total;
    c.stats.timeouts = s.timeouts_fired;
    c.stats.hash = s.hash;
    for (i, n) in d.fired.iter().enumerate() {
        if *n > 0 {
            *c.stats
                .faults
                .entry(disk::FAULT_NAMES[i].to_string())
                .or_default() += n;
        }
    }
    if s.spawn_failed > 0 {
        c.stats
            .faults
            .insert("thread_spawn_failure".into(), s.spawn_failed);
    }
    let rep = Report {
        exit,
        stats: c.stats.clone(),
        model: (c.model_json)(),
        last_panic: c.last_panic.clone(),
        at_op: c.cur_op,
    };
    let js = serde_json::to_vec(&rep).unwrap();
    {
        let m = shm();
        let mut w = W(m, 8);
        w.bytes(&js);
        put_files(&mut w, &image.unwrap_or_default());
        m[0..8].copy_from_slice(&0x600D_600D_600D_600Du64.to_le_bytes());
    }
    if let Ok(p) = std::env::var("SVMSIM_TRACE") {
        if let Some(t) = &sched::sched().trace {
            let mut o = String::new();
            for (now, th, what, x) in t {
                o.push_str(&format!("{} t{} {} {}\n", now, th, what, x));
            }
            let _ = std::fs::write(format!("{}.{}", p, c.epoch), o);
        }
    }
    unsafe { libc::_exit(0) }
}

fn on_fatal(msg: &str) -> ! {
    let d = sched::sched().describe();
    if msg.starts_with("harness:") {
        finish(Exit::Harness(msg.to_string()), None)
    }
    finish(Exit::Stuck(format!("{}; {}", msg, d)), None)
}

fn crash_now() -> ! {
    // Nothing runs any more: the image and the model belong to this very instant.
    sched::sched().quiet += 1;
    let c = ctx();
    let end = c.plan.epochs[c.epoch].end.clone();
    let name = match end {
        End::Power => "power_loss",
        _ => "process_crash",
    };
    *c.stats.faults.entry(name.to_string()).or_default() += 1;
    let img = match end {
        End::Power => {
            let mut r = Rng::new(mix(c.plan.seed, 0xDEAD_0000 + c.epoch as u64));
            disk::disk().image_after(Some(&mut r))
        }
        _ => disk::disk().image_after(None),
    };
    finish(Exit::Crashed, Some(img))
}

/// Called by the driver before operation `i`; arms the planned crash if it belongs to it.
pub fn begin_op(i: usize) {
    let c = ctx();
    c.cur_op = i as i64;
    c.stats.ops += 1;
    let d = disk::disk();
    c.op_io_base = d.io_total;
    sched::sched().note("op", i as u64);
    shm()[SHM_SIZE - 8..].copy_from_slice(&(i as i64).to_le_bytes());
    if let Some(k) = c.crash.clone() {
        if k.op == i {
            if k.io {
                d.crash_at_io = d.io_total + k.n + 1;
            } else {
                sched::sched().crash_at_step = sched::sched().steps + k.n + 1;
            }
        }
    }
}

/// Called by the driver after operation `i`; a crash planned for it that has not happened yet
/// happens now (after the acknowledgement).
pub fn end_op(i: usize) {
    let c = ctx();
    if let Some(k) = c.crash.clone() {
        if k.op == i {
            crash_now();
        }
    }
}

pub fn violation(v: Violation) -> ! {
    finish(Exit::Violation(v), None)
}

pub fn harness_error(m: String) -> ! {
    finish(Exit::Harness(m), None)
}

/// All operations done. Ends the incarnation as planned.
pub fn end_epoch() -> ! {
    let c = ctx();
    match c.plan.epochs[c.epoch].end {
        End::Graceful => {
            let img = disk::disk().image_after(None);
            finish(Exit::Done, Some(img))
        }
        _ => crash_now(),
    }
}

/// Runs `f`, turning a panic into its message.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let driver = sched::attached() && sched::set_harness(false);
    if driver {
        sched::yield_point("call");
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    if driver {
        sched::set_harness(true);
    }
    match r {
        Ok(r) => Ok(r),
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "<panic payload>".to_string()
            };
            Err(m)
        }
    }
}

// --- the parent's side ---------------------------------------------------------------------------------

pub struct EpochResult {
    pub report: Report,
    pub files: Vec<File>,
}

/// Runs one incarnation in a forked process.
pub fn run_epoch(
    plan: &Plan,
    epoch: usize,
    files: Vec<File>,
    body: &dyn Fn(),
    model_json: fn() -> Value,
) -> EpochResult {
    init_shm();
    shm()[0..8].copy_from_slice(&[0; 8]);
    shm()[SHM_SIZE - 8..].copy_from_slice(&(-1i64).to_le_bytes());
    let debug = std::env::var("SVMSIM_DEBUG").is_ok();
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        unsafe {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            if !debug {
                let n = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDWR);
                libc::dup2(n, 1);
                if std::env::var("SVMSIM_STDERR").is_err() { libc::dup2(n, 2); }
            }
            // A runaway incarnation is ended by its own timer.
            let r = libc::rlimit {
                rlim_cur: 0,
                rlim_max: 0,
            };
            libc::setrlimit(libc::RLIMIT_CORE, &r);
            // Code that spins without ever reaching a scheduling point.
            let r = libc::rlimit {
                rlim_cur: 60,
                rlim_max: 60,
            };
            libc::setrlimit(libc::RLIMIT_CPU, &r);
            CTX = Some(Ctx {
                plan: plan.clone(),
                epoch,
                stats: Stats::default(),
                last_panic: String::new(),
                cur_op: -1,
                model_json,
                crash: plan.epochs[epoch].crash.clone(),
                op_io_base: 0,
            });
        }
        let k = &plan.knobs;
        disk::init(files);
        let d = disk::disk();
        d.lat_ns = k.lat_us * 1000;
        d.lat_jitter_ns = k.jitter_us * 1000;
        d.sync_lat_ns = k.sync_lat_us * 1000;
        d.psow = k.psow;
        d.sector = k.sector as usize;
        let s = sched::sched();
        s.on_fatal = Some(on_fatal);
        s.on_crash = Some(crash_now);
        s.max_steps = k.max_steps;
        s.max_now = k.max_now_s.saturating_mul(1_000_000_000);
        if k.spawn_fail > 0 {
            s.spawn_fail_at = k.spawn_fail;
        }
        if std::env::var("SVMSIM_TRACE").is_ok() {
            s.trap_at = std::env::var("SVMSIM_TRAP").ok().and_then(|x| x.parse().ok()).unwrap_or(0);
            s.trace = Some(Vec::with_capacity(3 << 20));
        }
        std::env::set_var("RAYON_NUM_THREADS", k.rayon.to_string());
        std::panic::set_hook(Box::new(move |i| {
            let m = format!("{}", i);
            if debug {
                eprintln!("PANIC {}", m);
            }
            let _q = sched::quiet();
            ctx().last_panic = m;
        }));
        let pol = if k.policy == 0 {
            Policy::Uniform(k.policy_den)
        } else {
            Policy::Priority(k.policy_den)
        };
        sched::start(
            mix(plan.seed, epoch as u64 + 1),
            mix(k.entropy, epoch as u64),
            pol,
            k.tick_ns,
            k.ncpu as usize,
        );
        disk::register();
        sched::set_harness(true);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
        if let Err(_) = r {
            let m = ctx().last_panic.clone();
            harness_error(format!("driver panicked: {}", m));
        }
        harness_error("driver returned".into());
    }
    // Parent: wait, with a generous real-time limit against code that spins without ever yielding.
    let t0 = std::time::Instant::now();
    let mut status = 0;
    let mut us = 50;
    let mut killed = false;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut status, libc::WNOHANG) };
        if r == pid {
            break;
        }
        if !killed && t0.elapsed().as_secs() > 180 {
            unsafe { libc::kill(pid, libc::SIGKILL) };
            killed = true;
        }
        std::thread::sleep(std::time::Duration::from_micros(us));
        us = (us * 5 / 4).min(2000);
    }
    let m = shm();
    if m[0..8] != 0x600D_600D_600D_600Du64.to_le_bytes() {
        let msg = if killed {
            "an operation never returned (real-time limit)".to_string()
        } else if libc::WIFSIGNALED(status) && [libc::SIGXCPU, libc::SIGKILL].contains(&libc::WTERMSIG(status)) {
            "an operation never returned (60 s of processor time)".to_string()
        } else if libc::WIFSIGNALED(status) {
            format!("the process was killed by signal {}", libc::WTERMSIG(status))
        } else {
            format!("the process exited by itself, status {}", libc::WEXITSTATUS(status))
        };
        return EpochResult {
            report: Report {
                exit: Exit::Died(msg),
                stats: Stats::default(),
                model: Value::Null,
                last_panic: String::new(),
                at_op: i64::from_le_bytes(m[SHM_SIZE - 8..].try_into().unwrap()),
            },
            files: vec![],
        };
    }
    let mut r = Rd(m, 8);
    let js = r.bytes();
    let report: Report = serde_json::from_slice(&js).unwrap();
    let files = get_files(&mut r);
    EpochResult { report, files }
}
