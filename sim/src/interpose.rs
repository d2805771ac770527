//! libc entry points defined in this executable. A call from a simulated thread is decided by the
//! scheduler; any other call goes to libc.

use crate::sched::*;
use libc::{c_int, c_long, c_void, size_t, timespec};
use std::sync::atomic::{AtomicUsize, Ordering};

macro_rules! real {
    ($name:literal, $t:ty) => {{
        static P: AtomicUsize = AtomicUsize::new(0);
        let mut p = P.load(Ordering::Relaxed);
        if p == 0 {
            p = libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr() as *const _) as usize;
            P.store(p, Ordering::Relaxed);
        }
        std::mem::transmute::<usize, $t>(p)
    }};
}

type M = *mut libc::pthread_mutex_t;
type C = *mut libc::pthread_cond_t;
type R = *mut libc::pthread_rwlock_t;

unsafe fn set_errno(e: c_int) {
    *libc::__errno_location() = e;
}

// --- threads -----------------------------------------------------------------------------------

type Start = extern "C" fn(*mut c_void) -> *mut c_void;

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    start: Start,
    arg: *mut c_void,
) -> c_int {
    let f = real!(
        "pthread_create",
        extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut c_void) -> c_int
    );
    if !attached() {
        return f(t, attr, start, arg);
    }
    let mut bx = Box::new(SpawnBox { start, arg, id: 0 });
    let id = match new_thread_slot() {
        Some(id) => id,
        None => return libc::EAGAIN,
    };
    bx.id = id;
    let b = Box::into_raw(bx);
    let r = f(t, attr, trampoline, b as *mut c_void);
    if r != 0 {
        sched().fatal("harness: pthread_create failed for real");
    }
    sched().threads[id].pthread = *t as u64;
    sched().note("spawn", id as u64);
    yield_point("spawn");
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, ret: *mut *mut c_void) -> c_int {
    let f = real!("pthread_join", extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int);
    if attached() {
        let s = sched();
        let mut id = None;
        for i in 0..s.n {
            if s.threads[i].pthread == t as u64 {
                id = Some(i);
            }
        }
        if let Some(id) = id {
            yield_point("join");
            while s.threads[id].st != St::Exited {
                block(join_key(id), u64::MAX, "join");
            }
        }
    }
    f(t, ret)
}

// --- mutexes -----------------------------------------------------------------------------------

#[inline]
unsafe fn real_trylock(m: M) -> c_int {
    real!("pthread_mutex_trylock", extern "C" fn(M) -> c_int)(m)
}

/// The global allocator's own locks (this repository links `wee_alloc` into the host, which has one
/// for each size class). Each allocation or release is a scheduling point before it takes its first
/// lock; the locks themselves are never contended.
static ALLOC_LO: AtomicUsize = AtomicUsize::new(usize::MAX);
static ALLOC_HI: AtomicUsize = AtomicUsize::new(0);
#[thread_local]
static ALLOC_DEPTH: AtomicUsize = AtomicUsize::new(0);
static RECORD: AtomicUsize = AtomicUsize::new(0);

/// Finds the allocator's locks, if it has any. Called while there is a single thread.
pub fn find_allocator_lock() {
    RECORD.store(1, Ordering::SeqCst);
    for n in (8..=4096).step_by(8) {
        let l = std::alloc::Layout::from_size_align(n, 8).unwrap();
        unsafe {
            let p = std::hint::black_box(std::alloc::alloc(l));
            std::alloc::dealloc(p, l);
        }
    }
    RECORD.store(0, Ordering::SeqCst);
}

#[inline]
fn is_alloc_lock(m: M) -> bool {
    let a = m as usize;
    a >= ALLOC_LO.load(Ordering::Relaxed) && a <= ALLOC_HI.load(Ordering::Relaxed)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_mutex_lock(m: M) -> c_int {
    if RECORD.load(Ordering::Relaxed) == 1 {
        ALLOC_LO.fetch_min(m as usize, Ordering::Relaxed);
        ALLOC_HI.fetch_max(m as usize, Ordering::Relaxed);
    }
    if is_alloc_lock(m) {
        if ALLOC_DEPTH.fetch_add(1, Ordering::Relaxed) == 0 && attached() {
            yield_point("alloc");
        }
        return real!("pthread_mutex_lock", extern "C" fn(M) -> c_int)(m);
    }
    if !attached() {
        return real!("pthread_mutex_lock", extern "C" fn(M) -> c_int)(m);
    }
    yield_point("lock");
    loop {
        let r = real_trylock(m);
        if r != libc::EBUSY {
            return r;
        }
        block(m as usize, u64::MAX, "mutex");
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_mutex_trylock(m: M) -> c_int {
    if attached() {
        yield_point("trylock");
    }
    real_trylock(m)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_mutex_unlock(m: M) -> c_int {
    let r = real!("pthread_mutex_unlock", extern "C" fn(M) -> c_int)(m);
    if is_alloc_lock(m) {
        ALLOC_DEPTH.fetch_sub(1, Ordering::Relaxed);
        return r;
    }
    // No scheduling point here: waiters become runnable and compete at the next one. (flume 0.10.9,
    // through which sqlx returns rows, can lose a message when preempted right after an unlock;
    // see DESIGN.md.)
    if attached() {
        wake(m as usize, usize::MAX);
    }
    r
}

// --- condition variables -----------------------------------------------------------------------

unsafe fn cond_block(c: C, m: M, deadline: u64) -> c_int {
    real!("pthread_mutex_unlock", extern "C" fn(M) -> c_int)(m);
    wake(m as usize, usize::MAX);
    let woken = block(c as usize, deadline, "cond");
    loop {
        let r = real_trylock(m);
        if r != libc::EBUSY {
            break;
        }
        block(m as usize, u64::MAX, "mutex");
    }
    if woken {
        0
    } else {
        libc::ETIMEDOUT
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_cond_wait(c: C, m: M) -> c_int {
    if !attached() {
        return real!("pthread_cond_wait", extern "C" fn(C, M) -> c_int)(c, m);
    }
    cond_block(c, m, u64::MAX)
}

fn abs_deadline(ts: &timespec) -> u64 {
    let ns = (ts.tv_sec as u64)
        .saturating_mul(1_000_000_000)
        .saturating_add(ts.tv_nsec as u64);
    // Wall-clock deadlines are recognised by their magnitude.
    let base = sched().wall_base;
    if ns >= base && ns < base.saturating_mul(2) {
        ns - base
    } else {
        ns
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_cond_timedwait(c: C, m: M, ts: *const timespec) -> c_int {
    if !attached() {
        return real!("pthread_cond_timedwait", extern "C" fn(C, M, *const timespec) -> c_int)(
            c, m, ts,
        );
    }
    let d = abs_deadline(&*ts);
    if d <= sched().now {
        yield_point("cond");
        return libc::ETIMEDOUT;
    }
    cond_block(c, m, d)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_cond_signal(c: C) -> c_int {
    if !attached() {
        return real!("pthread_cond_signal", extern "C" fn(C) -> c_int)(c);
    }
    wake(c as usize, 1);
    yield_point("signal");
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_cond_broadcast(c: C) -> c_int {
    if !attached() {
        return real!("pthread_cond_broadcast", extern "C" fn(C) -> c_int)(c);
    }
    wake(c as usize, usize::MAX);
    yield_point("broadcast");
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_cond_destroy(c: C) -> c_int {
    if !attached() {
        return real!("pthread_cond_destroy", extern "C" fn(C) -> c_int)(c);
    }
    0
}

// --- read-write locks --------------------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn pthread_rwlock_rdlock(l: R) -> c_int {
    if !attached() {
        return real!("pthread_rwlock_rdlock", extern "C" fn(R) -> c_int)(l);
    }
    yield_point("rdlock");
    loop {
        let r = real!("pthread_rwlock_tryrdlock", extern "C" fn(R) -> c_int)(l);
        if r != libc::EBUSY {
            return r;
        }
        block(l as usize, u64::MAX, "rwlock");
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_rwlock_wrlock(l: R) -> c_int {
    if !attached() {
        return real!("pthread_rwlock_wrlock", extern "C" fn(R) -> c_int)(l);
    }
    yield_point("wrlock");
    loop {
        let r = real!("pthread_rwlock_trywrlock", extern "C" fn(R) -> c_int)(l);
        if r != libc::EBUSY {
            return r;
        }
        block(l as usize, u64::MAX, "rwlock");
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_rwlock_unlock(l: R) -> c_int {
    let r = real!("pthread_rwlock_unlock", extern "C" fn(R) -> c_int)(l);
    if attached() && wake(l as usize, usize::MAX) > 0 {
        yield_point("rwunlock");
    }
    r
}

// --- futexes (std's thread parker and parking_lot), system randomness ----------------------------

#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: c_long,
    a1: usize,
    a2: usize,
    a3: usize,
    a4: usize,
    a5: usize,
    a6: usize,
) -> c_long {
    if attached() {
        if n == libc::SYS_futex {
            let op = a2 & 0x7f;
            match op {
                0 | 9 => {
                    yield_point("futex");
                    let w = &*(a1 as *const std::sync::atomic::AtomicU32);
                    if w.load(Ordering::SeqCst) != a3 as u32 {
                        set_errno(libc::EAGAIN);
                        return -1;
                    }
                    let deadline = if a4 == 0 {
                        u64::MAX
                    } else {
                        let ts = &*(a4 as *const timespec);
                        if op == 9 {
                            abs_deadline(ts)
                        } else {
                            sched().now.saturating_add(
                                (ts.tv_sec as u64)
                                    .saturating_mul(1_000_000_000)
                                    .saturating_add(ts.tv_nsec as u64),
                            )
                        }
                    };
                    if block(a1, deadline, "futex") {
                        return 0;
                    }
                    set_errno(libc::ETIMEDOUT);
                    return -1;
                }
                1 | 10 => {
                    // No scheduling point, as for unlocking a mutex.
                    let k = wake(a1, a3);
                    return k as c_long;
                }
                _ => sched().fatal("harness: unsupported futex operation"),
            }
        }
        if n == libc::SYS_getrandom {
            let buf = std::slice::from_raw_parts_mut(a1 as *mut u8, a2);
            sched().entropy.fill(buf);
            return a2 as c_long;
        }
    }
    let r = raw_syscall6(n, [a1, a2, a3, a4, a5, a6]);
    if r < 0 && r > -4096 {
        set_errno(-r as c_int);
        return -1;
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: libc::c_uint) -> isize {
    syscall(libc::SYS_getrandom, buf as usize, len, flags as usize, 0, 0, 0) as isize
}

// --- time --------------------------------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut timespec) -> c_int {
    if !attached() {
        let r = raw_syscall6(libc::SYS_clock_gettime, [clk as usize, ts as usize, 0, 0, 0, 0]);
        if r < 0 {
            set_errno(-r as c_int);
            return -1;
        }
        return 0;
    }
    let s = sched();
    s.now += 100;
    let mut t = s.now;
    if clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE {
        t += s.wall_base;
    }
    (*ts).tv_sec = (t / 1_000_000_000) as _;
    (*ts).tv_nsec = (t % 1_000_000_000) as _;
    0
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _tz: *mut c_void) -> c_int {
    let mut ts: timespec = std::mem::zeroed();
    let r = clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    (*tv).tv_sec = ts.tv_sec;
    (*tv).tv_usec = ts.tv_nsec / 1000;
    r
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if !attached() {
        return syscall(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0) as c_int;
    }
    sleep_ns((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64);
    0
}

#[no_mangle]
pub unsafe extern "C" fn usleep(us: libc::c_uint) -> c_int {
    let ts = timespec {
        tv_sec: (us / 1_000_000) as _,
        tv_nsec: ((us % 1_000_000) * 1000) as _,
    };
    nanosleep(&ts, std::ptr::null_mut())
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if !attached() {
        raw_syscall6(libc::SYS_sched_yield, [0; 6]);
        return 0;
    }
    yield_spin();
    0
}

// --- readiness ---------------------------------------------------------------------------------

const EPOLL_KEY: usize = 2;

#[no_mangle]
pub unsafe extern "C" fn epoll_wait(
    ep: c_int,
    ev: *mut libc::epoll_event,
    max: c_int,
    timeout: c_int,
) -> c_int {
    if !attached() {
        return syscall(
            libc::SYS_epoll_wait,
            ep as usize,
            ev as usize,
            max as usize,
            timeout as isize as usize,
            0,
            0,
        ) as c_int;
    }
    let deadline = if timeout < 0 {
        u64::MAX
    } else {
        sched().now.saturating_add(timeout as u64 * 1_000_000)
    };
    yield_point("epoll");
    loop {
        let r = syscall(libc::SYS_epoll_wait, ep as usize, ev as usize, max as usize, 0, 0, 0);
        if r != 0 {
            return r as c_int;
        }
        if timeout == 0 || sched().now >= deadline {
            return 0;
        }
        block(EPOLL_KEY, deadline, "epoll");
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> isize {
    if attached() && fd > 2 {
        let r = syscall(libc::SYS_write, fd as usize, buf as usize, n, 0, 0, 0);
        wake(EPOLL_KEY, usize::MAX);
        yield_point("write");
        return r as isize;
    }
    syscall(libc::SYS_write, fd as usize, buf as usize, n, 0, 0, 0) as isize
}

// --- configuration the code under test asks the system for ---------------------------------------

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(
    pid: libc::pid_t,
    size: size_t,
    set: *mut libc::cpu_set_t,
) -> c_int {
    if !attached() {
        let r = raw_syscall6(
            libc::SYS_sched_getaffinity,
            [pid as usize, size, set as usize, 0, 0, 0],
        );
        if r < 0 {
            set_errno(-r as c_int);
            return -1;
        }
        return 0;
    }
    std::ptr::write_bytes(set as *mut u8, 0, size);
    for i in 0..sched().ncpu {
        libc::CPU_SET(i, &mut *set);
    }
    0
}
