//! The deterministic scheduler.
//!
//! Every thread of a simulated node (the harness's driver threads, tokio's workers, sqlx's SQLite
//! workers, rayon's compile workers) is a real OS thread, but exactly one of them holds the token
//! and runs; the others are parked on a private futex. The blocking and synchronising libc entry
//! points are defined in this executable (see `interpose.rs`), so each of them is a scheduling
//! point at which the seeded PRNG decides who runs next, how far simulated time advances and
//! whether a planned fault fires.

use crate::rng::Rng;
use std::arch::asm;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, Ordering};

pub const MAX_THREADS: usize = 2048;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Free,
    Runnable,
    Blocked,
    Exited,
}

pub struct Th {
    pub go: AtomicU32,
    pub st: St,
    pub key: usize,
    pub deadline: u64, // u64::MAX = none
    pub timed_out: bool,
    pub woken: bool,
    pub pthread: u64,
    pub prio: u64,
    pub why: &'static str,
    /// A background worker (anything but a driver thread of the harness).
    pub background: bool,
    /// A driver thread that is in harness code (bookkeeping, not the code under test).
    pub harness: bool,
    pub seq: u64,
}

const TH0: Th = Th {
    go: AtomicU32::new(0),
    st: St::Free,
    key: 0,
    deadline: u64::MAX,
    timed_out: false,
    woken: false,
    pthread: 0,
    prio: 0,
    why: "",
    background: true,
    harness: false,
    seq: 0,
};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Policy {
    /// Each scheduling point switches with probability 1/n, to a uniformly chosen thread.
    Uniform(u64),
    /// Random priorities; changes of priority with probability 1/n.
    Priority(u64),
}

pub struct Sched {
    pub threads: [Th; MAX_THREADS],
    pub n: usize,
    pub current: usize,
    pub rng: Rng,
    /// Bytes handed to the code under test as "system randomness".
    pub entropy: Rng,
    pub policy: Policy,
    pub now: u64,
    pub tick: u64,
    pub wall_base: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub max_now: u64,
    pub switches: u64,
    pub hash: u64,
    pub ncpu: usize,
    pub crash_at_step: u64,
    pub spawn_fail_at: u64,
    pub spawned: u64,
    pub spawn_failed: u64,
    pub on_fatal: Option<fn(&str) -> !>,
    pub on_crash: Option<fn() -> !>,
    pub trace: Option<Vec<(u64, u32, &'static str, u64)>>,
    pub timeouts_fired: u64,
    /// Greater than zero while simulated hardware is being updated: no switch, no crash.
    pub quiet: u32,
    /// Debugging aid: stop in the debugger at this simulated time.
    pub trap_at: u64,
}

pub static ACTIVE: AtomicBool = AtomicBool::new(false);
static mut SCHED: Sched = Sched {
    threads: [TH0; MAX_THREADS],
    n: 0,
    current: 0,
    rng: Rng::zero(),
    entropy: Rng::zero(),
    policy: Policy::Uniform(4),
    now: 0,
    tick: 1000,
    wall_base: 0,
    steps: 0,
    max_steps: u64::MAX,
    max_now: u64::MAX,
    switches: 0,
    hash: 0,
    ncpu: 2,
    crash_at_step: u64::MAX,
    spawn_fail_at: u64::MAX,
    spawned: 0,
    spawn_failed: 0,
    on_fatal: None,
    on_crash: None,
    trace: None,
    timeouts_fired: 0,
    quiet: 0,
    trap_at: 0,
};

#[thread_local]
pub static TID: AtomicI32 = AtomicI32::new(-1);

#[inline]
pub fn sched() -> &'static mut Sched {
    unsafe { &mut SCHED }
}

/// The calling thread takes part in the simulation.
#[inline]
pub fn attached() -> bool {
    ACTIVE.load(Ordering::Relaxed) && TID.load(Ordering::Relaxed) >= 0
}

#[inline]
pub fn me() -> usize {
    TID.load(Ordering::Relaxed) as usize
}

pub unsafe fn raw_syscall6(n: i64, a: [usize; 6]) -> i64 {
    let ret: i64;
    asm!(
        "syscall",
        inlateout("rax") n => ret,
        in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
        in("r10") a[3], in("r8") a[4], in("r9") a[5],
        out("rcx") _, out("r11") _,
        options(nostack)
    );
    ret
}

fn park(w: &AtomicU32) {
    loop {
        if w.swap(0, Ordering::Acquire) == 1 {
            return;
        }
        unsafe {
            raw_syscall6(202, [w as *const _ as usize, 128, 0, 0, 0, 0]);
        }
    }
}

fn unpark(w: &AtomicU32) {
    w.store(1, Ordering::Release);
    unsafe {
        raw_syscall6(202, [w as *const _ as usize, 129, 1, 0, 0, 0]);
    }
}

impl Sched {
    /// Folds an event into the run's log hash.
    #[inline]
    pub fn note(&mut self, what: &'static str, x: u64) {
        let mut h = self.hash ^ x.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h = (h ^ (what.as_ptr() as u64 & 0)).rotate_left(17);
        h = h.wrapping_mul(0x1000_0000_01b3) ^ what.len() as u64 ^ (what.as_bytes()[0] as u64) << 8;
        h ^= (self.current as u64) << 40;
        self.hash = h;
        if let Some(t) = self.trace.as_mut() {
            t.push((self.now, self.current as u32, what, x));
        }
    }

    fn fire_timeouts(&mut self) {
        let now = self.now;
        for i in 0..self.n {
            let t = &mut self.threads[i];
            if t.st == St::Blocked && t.deadline <= now {
                t.st = St::Runnable;
                t.timed_out = true;
                t.key = 0;
                t.deadline = u64::MAX;
                self.timeouts_fired += 1;
            }
        }
    }

    /// Picks the next thread to run. The current one may or may not be runnable.
    fn choose(&mut self, prefer_switch: bool) -> usize {
        loop {
            self.fire_timeouts();
            let mut cand = [0u16; MAX_THREADS];
            let mut k = 0;
            for i in 0..self.n {
                if self.threads[i].st == St::Runnable {
                    cand[k] = i as u16;
                    k += 1;
                }
            }
            if k == 0 {
                // Nobody can run: jump to the next deadline.
                let mut d = u64::MAX;
                for i in 0..self.n {
                    if self.threads[i].st == St::Blocked {
                        d = d.min(self.threads[i].deadline);
                    }
                }
                if d == u64::MAX {
                    self.fatal("deadlock: every thread is blocked and no timer is pending");
                }
                if d > self.now {
                    self.now = d;
                }
                if self.now > self.max_now {
                    self.fatal("no progress within the simulated-time budget");
                }
                continue;
            }
            if k == 1 {
                return cand[0] as usize;
            }
            let cur = self.current;
            let cur_ok = self.threads[cur].st == St::Runnable;
            match self.policy {
                Policy::Uniform(den) => {
                    if cur_ok && !prefer_switch && !self.rng.chance(1, den) {
                        return cur;
                    }
                    if prefer_switch && cur_ok {
                        // Somebody else, so that spin loops cannot starve the others.
                        let mut j = self.rng.below(k as u64 - 1) as usize;
                        if cand[j] as usize == cur {
                            j = k - 1;
                        }
                        return cand[j] as usize;
                    }
                    return cand[self.rng.below(k as u64) as usize] as usize;
                }
                Policy::Priority(den) => {
                    if cur_ok && (prefer_switch || self.rng.chance(1, den)) {
                        self.threads[cur].prio = self.rng.next() >> 1;
                        if prefer_switch {
                            self.threads[cur].prio >>= 8;
                        }
                    }
                    let mut best = cand[0] as usize;
                    for c in &cand[..k] {
                        if self.threads[*c as usize].prio > self.threads[best].prio {
                            best = *c as usize;
                        }
                    }
                    if prefer_switch && best == cur {
                        let mut j = self.rng.below(k as u64 - 1) as usize;
                        if cand[j] as usize == cur {
                            j = k - 1;
                        }
                        best = cand[j] as usize;
                    }
                    return best;
                }
            }
        }
    }

    pub fn fatal(&mut self, msg: &str) -> ! {
        let f = self.on_fatal;
        match f {
            Some(f) => f(msg),
            None => std::process::abort(),
        }
    }

    /// Dump of what each thread is waiting for (deadlock reports).
    pub fn describe(&self) -> String {
        let mut s = String::new();
        for i in 0..self.n {
            let t = &self.threads[i];
            if t.st == St::Blocked || t.st == St::Runnable {
                s.push_str(&format!(
                    "[t{} {:?} {}{}] ",
                    i,
                    t.st,
                    t.why,
                    if t.deadline != u64::MAX {
                        format!(" until +{}ms", t.deadline.saturating_sub(self.now) / 1_000_000)
                    } else {
                        String::new()
                    }
                ));
            }
        }
        s
    }

    fn hand_over(&mut self, next: usize, wait: bool) {
        let cur = self.current;
        if next == cur {
            return;
        }
        self.switches += 1;
        self.current = next;
        self.note("switch", next as u64);
        unpark(&self.threads[next].go);
        if wait {
            park(&self.threads[cur].go);
        }
    }

    fn step(&mut self) {
        self.steps += 1;
        self.now += self.tick;
        if self.steps >= self.crash_at_step && !self.threads[self.current].harness {
            self.crash_at_step = u64::MAX;
            self.note("crash", self.steps);
            if let Some(f) = self.on_crash {
                f()
            }
        }
        if self.steps > self.max_steps {
            self.fatal("no progress within the step budget");
        }
    }
}

/// A scheduling point: another thread may run before this returns.
#[inline]
pub fn yield_point(why: &'static str) {
    if !attached() {
        return;
    }
    let s = sched();
    if s.quiet > 0 || s.threads[s.current].harness {
        return;
    }
    s.step();
    if let Some(t) = s.trace.as_mut() {
        t.push((s.now, s.current as u32, why, 0));
        if s.now == s.trap_at {
            unsafe { raw_syscall6(39, [0; 6]) };
            unsafe { libc::raise(libc::SIGTRAP) };
        }
    }
    let next = s.choose(false);
    s.hand_over(next, true);
}

/// A spin loop's yield: prefers any other runnable thread.
pub fn yield_spin() {
    let s = sched();
    s.step();
    let next = s.choose(true);
    if next == s.current {
        // Alone in a spin loop: let time pass.
        s.now += 50_000;
    }
    s.hand_over(next, true);
}

/// Blocks the calling thread on `key` until woken or until `deadline`. Returns true if woken.
pub fn block(key: usize, deadline: u64, why: &'static str) -> bool {
    let s = sched();
    let id = me();
    s.step();
    {
        let t = &mut s.threads[id];
        t.st = St::Blocked;
        t.key = key;
        t.deadline = deadline;
        t.timed_out = false;
        t.why = why;
    }
    let next = s.choose(false);
    s.hand_over(next, true);
    !s.threads[id].timed_out
}

/// Wakes up to `n` threads blocked on `key`; which ones is a seeded choice.
pub fn wake(key: usize, n: usize) -> usize {
    let s = sched();
    let mut w = 0;
    while w < n {
        let mut cand = [0u16; 64];
        let mut k = 0;
        for i in 0..s.n {
            if s.threads[i].st == St::Blocked && s.threads[i].key == key && k < 64 {
                cand[k] = i as u16;
                k += 1;
            }
        }
        if k == 0 {
            break;
        }
        let j = if k == 1 || n >= k { 0 } else { s.rng.below(k as u64) as usize };
        let t = &mut s.threads[cand[j] as usize];
        t.st = St::Runnable;
        t.key = 0;
        t.deadline = u64::MAX;
        t.timed_out = false;
        w += 1;
    }
    w
}

pub fn sleep_ns(ns: u64) {
    let d = sched().now.saturating_add(ns);
    // A private key nobody wakes.
    block(1, d, "sleep");
}

/// Makes the calling thread thread 0 of a fresh simulation.
pub fn start(seed: u64, entropy_seed: u64, policy: Policy, tick: u64, ncpu: usize) {
    let s = sched();
    s.n = 1;
    s.current = 0;
    s.rng = Rng::new(seed);
    s.entropy = Rng::new(entropy_seed);
    s.policy = policy;
    s.tick = tick;
    s.ncpu = ncpu;
    s.now = 1_000_000_000;
    s.wall_base = 1_600_000_000_000_000_000;
    s.steps = 0;
    s.switches = 0;
    s.hash = 0;
    s.threads[0].st = St::Runnable;
    s.threads[0].background = false;
    s.threads[0].prio = s.rng.next() >> 1;
    s.threads[0].pthread = unsafe { libc::pthread_self() } as u64;
    TID.store(0, Ordering::Relaxed);
    ACTIVE.store(true, Ordering::Relaxed);
}

pub struct SpawnBox {
    pub start: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    pub arg: *mut libc::c_void,
    pub id: usize,
}

extern "C" {
    fn __cxa_thread_atexit_impl(
        f: unsafe extern "C" fn(*mut u8),
        o: *mut u8,
        dso: *mut u8,
    ) -> libc::c_int;
    static __dso_handle: u8;
}

unsafe extern "C" fn thread_exit(_p: *mut u8) {
    let s = sched();
    let id = me();
    s.step();
    s.threads[id].st = St::Exited;
    s.note("exit", id as u64);
    wake(join_key(id), usize::MAX);
    let next = s.choose(false);
    TID.store(-1, Ordering::Relaxed);
    s.hand_over(next, false);
}

pub fn join_key(id: usize) -> usize {
    0x10_0000 + id
}

pub extern "C" fn trampoline(p: *mut libc::c_void) -> *mut libc::c_void {
    let b = unsafe { Box::from_raw(p as *mut SpawnBox) };
    TID.store(b.id as i32, Ordering::Relaxed);
    unsafe {
        // Registered first, therefore run last: the thread takes part in the simulation until its
        // thread-local destructors are done.
        __cxa_thread_atexit_impl(
            thread_exit,
            std::ptr::null_mut(),
            &__dso_handle as *const u8 as *mut u8,
        );
    }
    park(&sched().threads[b.id].go);
    (b.start)(b.arg)
}

/// Reserves a slot for a thread about to be created.
pub fn new_thread_slot() -> Option<usize> {
    let s = sched();
    let id = s.n;
    if id >= MAX_THREADS {
        s.fatal("harness: too many simulated threads");
    }
    s.spawned += 1;
    if s.spawned == s.spawn_fail_at {
        s.spawn_failed += 1;
        s.note("spawnfail", s.spawned);
        return None;
    }
    s.n += 1;
    let prio = s.rng.next() >> 1;
    let t = &mut s.threads[id];
    t.st = St::Runnable;
    t.prio = prio;
    t.background = true;
    Some(id)
}

/// Threads that exist (have not exited), background ones only.
pub fn live_background() -> usize {
    let s = sched();
    (0..s.n)
        .filter(|i| {
            s.threads[*i].background && matches!(s.threads[*i].st, St::Runnable | St::Blocked)
        })
        .count()
}

/// Lets the other threads run until none is runnable (or `max` steps went by); the caller waits
/// without a deadline effect: time does not jump.
pub fn settle(max: u64) {
    let s = sched();
    for _ in 0..max {
        s.fire_timeouts();
        let cur = s.current;
        let any = (0..s.n).any(|i| i != cur && s.threads[i].st == St::Runnable);
        if !any {
            return;
        }
        yield_spin();
    }
}

/// Declares the calling thread a driver thread, in harness code; returns what it was before.
pub fn set_harness(on: bool) -> bool {
    let s = sched();
    std::mem::replace(&mut s.threads[me()].harness, on)
}

pub struct Quiet;

/// Until the returned guard is dropped, no other thread runs and no crash happens: the simulated
/// disk changes in one step.
pub fn quiet() -> Quiet {
    sched().quiet += 1;
    Quiet
}

impl Drop for Quiet {
    fn drop(&mut self) {
        sched().quiet -= 1;
    }
}
