//! The simulated disk: an in-memory SQLite VFS.
//!
//! A file has its current content (what the running process reads), its durable content (what a
//! power loss is certain to keep) and the writes made since the last successful sync, any subset of
//! which may or may not have reached the platter. Advisory locks and the WAL's shared memory are
//! modelled too, so several connections of one process contend as they do on a real file system.

use crate::rng::Rng;
use crate::sched;
use libsqlite3_sys as ffi;
use std::ffi::CStr;
use std::sync::atomic::{AtomicBool, Ordering};
use std::os::raw::{c_char, c_int, c_void};

#[derive(Clone, Debug)]
pub enum Pend {
    Write(u64, Vec<u8>),
    Trunc(u64),
}

#[derive(Clone, Debug, Default)]
pub struct File {
    pub name: String,
    pub data: Vec<u8>,
    /// `None`: the file's existence itself is not durable yet.
    pub durable: Option<Vec<u8>>,
    pub pending: Vec<Pend>,
    // Locks (process-local state, not part of the image).
    shared: u32,
    reserved: Option<usize>,
    pending_lock: Option<usize>,
    exclusive: Option<usize>,
    shm: Vec<usize>,
    shm_refs: u32,
    shm_shared: [u32; 8],
    shm_excl: [Option<usize>; 8],
}

fn apply(buf: &mut Vec<u8>, p: &Pend) {
    match p {
        Pend::Write(off, b) => {
            let end = *off as usize + b.len();
            if buf.len() < end {
                buf.resize(end, 0);
            }
            buf[*off as usize..end].copy_from_slice(b);
        }
        Pend::Trunc(n) => buf.truncate(*n as usize),
    }
}

/// Kinds of I/O operation at which a planned fault can fire.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Io {
    Open,
    Read,
    Write,
    Sync,
    Trunc,
    Delete,
    Lock,
    ShmMap,
    ShmLock,
    Other,
}

pub const IO_NAMES: [&str; 10] = [
    "open", "read", "write", "sync", "truncate", "delete", "lock", "shm_map", "shm_lock", "other",
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FaultKind {
    /// write fails with EIO (nothing written)
    WriteErr,
    /// write fails after a prefix reached the file
    ShortWrite,
    /// no space left: writes that would grow or touch the file fail
    Full,
    SyncErr,
    /// as SyncErr, and the data written since the last sync is never going to be durable
    SyncLost,
    ReadErr,
    OpenErr,
    LockErr,
    ShmErr,
    TruncErr,
    DeleteErr,
    /// one I/O takes this long (milliseconds)
    Stall,
    /// SQLite memory allocation failure
    NoMem,
}

pub const FAULT_NAMES: [&str; 13] = [
    "write_eio",
    "short_write",
    "disk_full",
    "sync_eio",
    "sync_eio_data_lost",
    "read_eio",
    "open_err",
    "lock_err",
    "shm_err",
    "truncate_eio",
    "delete_eio",
    "io_stall",
    "sqlite_nomem",
];

pub const ALL_FAULTS: [FaultKind; 13] = [
    FaultKind::WriteErr,
    FaultKind::ShortWrite,
    FaultKind::Full,
    FaultKind::SyncErr,
    FaultKind::SyncLost,
    FaultKind::ReadErr,
    FaultKind::OpenErr,
    FaultKind::LockErr,
    FaultKind::ShmErr,
    FaultKind::TruncErr,
    FaultKind::DeleteErr,
    FaultKind::Stall,
    FaultKind::NoMem,
];

#[derive(Clone, Debug)]
pub struct Armed {
    pub kind: FaultKind,
    /// How many matching operations to let through first.
    pub skip: u64,
    /// How many matching operations then fail.
    pub count: u64,
    pub ms: u64,
}

pub struct Disk {
    pub files: Vec<File>,
    pub ghosts: Vec<File>,
    pub faults: Vec<Armed>,
    pub fired: [u64; 13],
    pub io: [u64; 10],
    pub io_total: u64,
    pub crash_at_io: u64,
    pub lat_ns: u64,
    pub lat_jitter_ns: u64,
    pub sync_lat_ns: u64,
    pub psow: bool,
    pub sector: usize,
    pub next_handle: usize,
    pub open_handles: i64,
    pub nomem: Option<(u64, u64)>,
}

static mut DISK: Option<Disk> = None;

pub fn disk() -> &'static mut Disk {
    unsafe { DISK.as_mut().unwrap() }
}

pub fn init(files: Vec<File>) {
    unsafe {
        DISK = Some(Disk {
            files,
            ghosts: vec![],
            faults: vec![],
            fired: [0; 13],
            io: [0; 10],
            io_total: 0,
            crash_at_io: u64::MAX,
            lat_ns: 0,
            lat_jitter_ns: 0,
            sync_lat_ns: 0,
            psow: true,
            sector: 4096,
            next_handle: 1,
            open_handles: 0,
            nomem: None,
        })
    }
}

impl Disk {
    fn find(&self, name: &str) -> Option<usize> {
        self.files.iter().position(|f| f.name == name)
    }

    /// Returns the fault that fires at this operation, if any.
    fn fault(&mut self, io: Io) -> Option<FaultKind> {
        let mut hit = None;
        for a in self.faults.iter_mut() {
            let m = match a.kind {
                FaultKind::WriteErr | FaultKind::ShortWrite => io == Io::Write,
                FaultKind::Full => io == Io::Write || io == Io::ShmMap,
                FaultKind::SyncErr | FaultKind::SyncLost => io == Io::Sync,
                FaultKind::ReadErr => io == Io::Read,
                FaultKind::OpenErr => io == Io::Open,
                FaultKind::LockErr => io == Io::Lock,
                FaultKind::ShmErr => io == Io::ShmMap,
                FaultKind::TruncErr => io == Io::Trunc,
                FaultKind::DeleteErr => io == Io::Delete,
                FaultKind::Stall => true,
                FaultKind::NoMem => false,
            };
            if !m || a.count == 0 {
                continue;
            }
            if a.skip > 0 {
                a.skip -= 1;
                continue;
            }
            a.count -= 1;
            if a.kind == FaultKind::Stall {
                self.fired[FaultKind::Stall as usize] += 1;
                let ns = a.ms * 1_000_000;
                sched::sched().note("stall", ns);
                sched::sleep_ns(ns);
                // `a` may be stale after other threads ran; the loop restarts on the next I/O.
                return hit;
            }
            hit = Some(a.kind);
            break;
        }
        if let Some(k) = hit {
            self.fired[k as usize] += 1;
            sched::sched().note("fault", k as u64);
        }
        hit
    }

    pub fn clear_faults(&mut self) {
        self.faults.clear();
        self.nomem = None;
    }

    /// The disk as the next incarnation finds it. `power`: only what is durable is certain.
    pub fn image_after(&mut self, power: Option<&mut Rng>) -> Vec<File> {
        let mut out = vec![];
        if std::env::var("SVMSIM_STDERR").is_ok() {
            for f in &self.files {
                eprintln!("IMAGE {} len {} durable {:?} pending {}", f.name, f.data.len(), f.durable.as_ref().map(|d| d.len()), f.pending.len());
                if let Ok(dir) = std::env::var("SVMSIM_DUMP") {
                    let b = f.name.rsplit('/').next().unwrap();
                    let _ = std::fs::write(format!("{}/{}", dir, b), &f.data);
                }
            }
        }
        match power {
            None => {
                for f in &self.files {
                    out.push(File {
                        name: f.name.clone(),
                        data: f.data.clone(),
                        durable: f.durable.clone(),
                        pending: f.pending.clone(),
                        ..File::default()
                    });
                }
            }
            Some(rng) => {
                let mode = rng.below(5);
                for f in &self.files {
                    if f.durable.is_none() && (mode == 0 || rng.chance(1, 3)) {
                        continue; // the directory entry never made it
                    }
                    let mut c = f.durable.clone().unwrap_or_default();
                    let n = f.pending.len() as u64;
                    match mode {
                        0 => {}
                        1 => f.pending.iter().for_each(|p| apply(&mut c, p)),
                        2 => {
                            let k = rng.below(n + 1) as usize;
                            for p in &f.pending[..k] {
                                apply(&mut c, p);
                            }
                            if let Some(p) = f.pending.get(k) {
                                tear(&mut c, p, rng);
                            }
                        }
                        _ => {
                            for p in &f.pending {
                                match rng.below(4) {
                                    0 => {}
                                    1 if mode == 4 => tear(&mut c, p, rng),
                                    _ => apply(&mut c, p),
                                }
                            }
                        }
                    }
                    out.push(File {
                        name: f.name.clone(),
                        durable: Some(c.clone()),
                        data: c,
                        ..File::default()
                    });
                }
                for g in &self.ghosts {
                    if !out.iter().any(|f| f.name == g.name) && rng.chance(1, 2) {
                        if let Some(d) = &g.durable {
                            out.push(File {
                                name: g.name.clone(),
                                durable: Some(d.clone()),
                                data: d.clone(),
                                ..File::default()
                            });
                        }
                    }
                }
            }
        }
        out
    }
}

/// Part of the write's 512-byte sectors reach the platter.
fn tear(c: &mut Vec<u8>, p: &Pend, rng: &mut Rng) {
    if let Pend::Write(off, b) = p {
        let prefix = rng.chance(1, 2);
        let cut = rng.below(b.len() as u64 / 512 + 1) as usize;
        for (i, s) in b.chunks(512).enumerate() {
            let keep = if prefix { i < cut } else { rng.chance(1, 2) };
            if keep {
                apply(c, &Pend::Write(off + i as u64 * 512, s.to_vec()));
            }
        }
    }
}

/// Called at the start of each VFS operation: time, scheduling, crash and fault decisions.
fn io_point(io: Io) -> Option<FaultKind> {
    if !sched::attached() {
        return None;
    }
    let d = disk();
    d.io[io as usize] += 1;
    d.io_total += 1;
    sched::sched().note("io", io as u64);
    if d.io_total >= d.crash_at_io {
        d.crash_at_io = u64::MAX;
        sched::sched().note("crashio", d.io_total);
        if let Some(f) = sched::sched().on_crash {
            f()
        }
    }
    let mut lat = 0;
    if matches!(io, Io::Read | Io::Write | Io::Trunc | Io::Open | Io::Delete) {
        lat = d.lat_ns;
        if d.lat_jitter_ns > 0 {
            lat += sched::sched().rng.below(d.lat_jitter_ns);
        }
    } else if io == Io::Sync {
        lat = d.sync_lat_ns;
        if d.lat_jitter_ns > 0 {
            lat += sched::sched().rng.below(d.lat_jitter_ns);
        }
    }
    if lat > 0 {
        sched::sleep_ns(lat);
    } else {
        sched::yield_point("io");
    }
    disk().fault(io)
}

// --- sqlite3_file -------------------------------------------------------------------------------

#[repr(C)]
struct Handle {
    base: ffi::sqlite3_file,
    file: usize, // index by name lookup: stable id below
    id: usize,
    level: c_int,
    shm: bool,
    shm_shared: u32,
    shm_excl: u32,
    delete_on_close: bool,
    name: *mut String,
}

unsafe fn h<'a>(f: *mut ffi::sqlite3_file) -> &'a mut Handle {
    &mut *(f as *mut Handle)
}

unsafe fn file_of<'a>(hd: &Handle) -> &'a mut File {
    let d = disk();
    let name = &*hd.name;
    match d.find(name) {
        Some(i) => &mut d.files[i],
        None => {
            // The file was deleted while open: behave like an anonymous inode.
            d.files.push(File {
                name: name.clone(),
                ..File::default()
            });
            d.files.last_mut().unwrap()
        }
    }
}

unsafe extern "C" fn x_close(f: *mut ffi::sqlite3_file) -> c_int {
    let _q = sched::quiet();
    let hd = h(f);
    if hd.level > 0 {
        x_unlock(f, 0);
    }
    if hd.shm {
        x_shm_unmap(f, 0);
    }
    if hd.delete_on_close {
        let d = disk();
        if let Some(i) = d.find(&*hd.name) {
            d.files.remove(i);
        }
    }
    drop(Box::from_raw(hd.name));
    disk().open_handles -= 1;
    0
}

unsafe extern "C" fn x_read(
    f: *mut ffi::sqlite3_file,
    buf: *mut c_void,
    n: c_int,
    off: i64,
) -> c_int {
    if let Some(FaultKind::ReadErr) = io_point(Io::Read) {
        return ffi::SQLITE_IOERR_READ;
    }
    let _q = sched::quiet();
    let fl = file_of(h(f));
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, n as usize);
    let off = off as usize;
    let have = fl.data.len().saturating_sub(off).min(n as usize);
    if have > 0 {
        out[..have].copy_from_slice(&fl.data[off..off + have]);
    }
    if have < n as usize {
        for b in &mut out[have..] {
            *b = 0;
        }
        return ffi::SQLITE_IOERR_SHORT_READ;
    }
    0
}

unsafe extern "C" fn x_write(
    f: *mut ffi::sqlite3_file,
    buf: *const c_void,
    n: c_int,
    off: i64,
) -> c_int {
    let data = std::slice::from_raw_parts(buf as *const u8, n as usize);
    let flt = io_point(Io::Write);
    let _q = sched::quiet();
    let fl = file_of(h(f));
    match flt {
        Some(FaultKind::WriteErr) => return ffi::SQLITE_IOERR_WRITE,
        Some(FaultKind::Full) => {
            let part = data.len() / 2 / 512 * 512;
            if part > 0 {
                let p = Pend::Write(off as u64, data[..part].to_vec());
                apply(&mut fl.data, &p);
                fl.pending.push(p);
            }
            return ffi::SQLITE_FULL;
        }
        Some(FaultKind::ShortWrite) => {
            let part = data.len() / 2;
            let p = Pend::Write(off as u64, data[..part].to_vec());
            apply(&mut fl.data, &p);
            fl.pending.push(p);
            return ffi::SQLITE_IOERR_WRITE;
        }
        _ => {}
    }
    let p = Pend::Write(off as u64, data.to_vec());
    apply(&mut fl.data, &p);
    fl.pending.push(p);
    0
}

unsafe extern "C" fn x_truncate(f: *mut ffi::sqlite3_file, n: i64) -> c_int {
    if let Some(FaultKind::TruncErr) = io_point(Io::Trunc) {
        return ffi::SQLITE_IOERR_TRUNCATE;
    }
    let _q = sched::quiet();
    let fl = file_of(h(f));
    let p = Pend::Trunc(n as u64);
    apply(&mut fl.data, &p);
    fl.pending.push(p);
    0
}

unsafe extern "C" fn x_sync(f: *mut ffi::sqlite3_file, _flags: c_int) -> c_int {
    let flt = io_point(Io::Sync);
    let _q = sched::quiet();
    let fl = file_of(h(f));
    match flt {
        Some(FaultKind::SyncErr) => return ffi::SQLITE_IOERR_FSYNC,
        Some(FaultKind::SyncLost) => {
            fl.pending.clear();
            return ffi::SQLITE_IOERR_FSYNC;
        }
        _ => {}
    }
    let mut d = fl.durable.take().unwrap_or_default();
    for p in fl.pending.drain(..) {
        apply(&mut d, &p);
    }
    // As on a journalling file system, a sync also makes earlier directory changes durable (SQLite
    // itself syncs the directory when it first syncs a new journal or log).
    disk().ghosts.clear();
    // After a lost sync the durable content may lag behind; what was not rewritten stays lost.
    fl.durable = Some(d);
    0
}

unsafe extern "C" fn x_file_size(f: *mut ffi::sqlite3_file, out: *mut i64) -> c_int {
    io_point(Io::Other);
    let _q = sched::quiet();
    *out = file_of(h(f)).data.len() as i64;
    0
}

unsafe extern "C" fn x_lock(f: *mut ffi::sqlite3_file, level: c_int) -> c_int {
    let hd = h(f);
    if hd.level >= level {
        return 0;
    }
    if let Some(FaultKind::LockErr) = io_point(Io::Lock) {
        return ffi::SQLITE_IOERR_LOCK;
    }
    let _q = sched::quiet();
    let fl = file_of(hd);
    let me = hd.id;
    let other = |o: Option<usize>| o.map_or(false, |x| x != me);
    match level {
        1 => {
            if other(fl.pending_lock) || other(fl.exclusive) {
                return ffi::SQLITE_BUSY;
            }
            fl.shared += 1;
            hd.level = 1;
        }
        2 => {
            if other(fl.reserved) || other(fl.pending_lock) || other(fl.exclusive) {
                return ffi::SQLITE_BUSY;
            }
            fl.reserved = Some(me);
            hd.level = 2;
        }
        4 => {
            if other(fl.pending_lock) || other(fl.exclusive) || other(fl.reserved) {
                return ffi::SQLITE_BUSY;
            }
            fl.pending_lock = Some(me);
            if fl.shared > 1 {
                hd.level = 3;
                return ffi::SQLITE_BUSY;
            }
            fl.exclusive = Some(me);
            hd.level = 4;
        }
        _ => {}
    }
    0
}

unsafe extern "C" fn x_unlock(f: *mut ffi::sqlite3_file, level: c_int) -> c_int {
    let _q = sched::quiet();
    let hd = h(f);
    if hd.level <= level {
        return 0;
    }
    let fl = file_of(hd);
    let me = Some(hd.id);
    if hd.level >= 2 {
        if fl.exclusive == me {
            fl.exclusive = None;
        }
        if fl.pending_lock == me {
            fl.pending_lock = None;
        }
        if fl.reserved == me {
            fl.reserved = None;
        }
    }
    if level == 0 {
        fl.shared = fl.shared.saturating_sub(1);
    }
    hd.level = level;
    0
}

unsafe extern "C" fn x_check_reserved(f: *mut ffi::sqlite3_file, out: *mut c_int) -> c_int {
    let fl = file_of(h(f));
    *out = (fl.reserved.is_some() || fl.pending_lock.is_some() || fl.exclusive.is_some()) as c_int;
    0
}

unsafe extern "C" fn x_file_control(
    _f: *mut ffi::sqlite3_file,
    _op: c_int,
    _arg: *mut c_void,
) -> c_int {
    ffi::SQLITE_NOTFOUND
}

unsafe extern "C" fn x_sector_size(_f: *mut ffi::sqlite3_file) -> c_int {
    disk().sector as c_int
}

unsafe extern "C" fn x_device(_f: *mut ffi::sqlite3_file) -> c_int {
    if disk().psow {
        ffi::SQLITE_IOCAP_POWERSAFE_OVERWRITE
    } else {
        0
    }
}

unsafe extern "C" fn x_shm_map(
    f: *mut ffi::sqlite3_file,
    page: c_int,
    size: c_int,
    extend: c_int,
    out: *mut *mut c_void,
) -> c_int {
    match io_point(Io::ShmMap) {
        Some(FaultKind::ShmErr) => return ffi::SQLITE_IOERR_SHMMAP,
        Some(FaultKind::Full) => return ffi::SQLITE_FULL,
        _ => {}
    }
    let _q = sched::quiet();
    let hd = h(f);
    let fl = file_of(hd);
    if !hd.shm {
        hd.shm = true;
        fl.shm_refs += 1;
        if fl.shm_refs == 1 {
            // First user: the shared memory starts out zeroed.
            for p in &fl.shm {
                std::ptr::write_bytes(*p as *mut u8, 0, size as usize);
            }
        }
    }
    while fl.shm.len() <= page as usize {
        if extend == 0 {
            *out = std::ptr::null_mut();
            return 0;
        }
        let b: Box<[u64]> = vec![0u64; size as usize / 8].into_boxed_slice();
        fl.shm.push(Box::leak(b).as_mut_ptr() as usize);
    }
    *out = fl.shm[page as usize] as *mut c_void;
    0
}

unsafe extern "C" fn x_shm_lock(
    f: *mut ffi::sqlite3_file,
    off: c_int,
    n: c_int,
    flags: c_int,
) -> c_int {
    io_point(Io::ShmLock);
    let _q = sched::quiet();
    let hd = h(f);
    let fl = file_of(hd);
    let me = hd.id;
    let range = off as usize..(off + n) as usize;
    if flags & ffi::SQLITE_SHM_UNLOCK != 0 {
        for i in range {
            if hd.shm_excl & (1 << i) != 0 {
                fl.shm_excl[i] = None;
                hd.shm_excl &= !(1 << i);
            } else if hd.shm_shared & (1 << i) != 0 {
                fl.shm_shared[i] -= 1;
                hd.shm_shared &= !(1 << i);
            }
        }
        return 0;
    }
    if flags & ffi::SQLITE_SHM_SHARED != 0 {
        let i = off as usize;
        if hd.shm_shared & (1 << i) != 0 {
            return 0;
        }
        if fl.shm_excl[i].map_or(false, |x| x != me) {
            return ffi::SQLITE_BUSY;
        }
        fl.shm_shared[i] += 1;
        hd.shm_shared |= 1 << i;
        return 0;
    }
    for i in range.clone() {
        let mine = (hd.shm_shared >> i) & 1;
        if fl.shm_excl[i].map_or(false, |x| x != me) || fl.shm_shared[i] > mine {
            return ffi::SQLITE_BUSY;
        }
    }
    for i in range {
        fl.shm_excl[i] = Some(me);
        hd.shm_excl |= 1 << i;
    }
    0
}

unsafe extern "C" fn x_shm_barrier(_f: *mut ffi::sqlite3_file) {
    sched::yield_point("shmbarrier");
}

unsafe extern "C" fn x_shm_unmap(f: *mut ffi::sqlite3_file, _del: c_int) -> c_int {
    let hd = h(f);
    if hd.shm {
        let fl = file_of(hd);
        for i in 0..8 {
            if hd.shm_excl & (1 << i) != 0 {
                fl.shm_excl[i] = None;
            }
            if hd.shm_shared & (1 << i) != 0 {
                fl.shm_shared[i] -= 1;
            }
        }
        hd.shm_excl = 0;
        hd.shm_shared = 0;
        hd.shm = false;
        fl.shm_refs -= 1;
    }
    0
}

static METHODS: ffi::sqlite3_io_methods = ffi::sqlite3_io_methods {
    iVersion: 2,
    xClose: Some(x_close),
    xRead: Some(x_read),
    xWrite: Some(x_write),
    xTruncate: Some(x_truncate),
    xSync: Some(x_sync),
    xFileSize: Some(x_file_size),
    xLock: Some(x_lock),
    xUnlock: Some(x_unlock),
    xCheckReservedLock: Some(x_check_reserved),
    xFileControl: Some(x_file_control),
    xSectorSize: Some(x_sector_size),
    xDeviceCharacteristics: Some(x_device),
    xShmMap: Some(x_shm_map),
    xShmLock: Some(x_shm_lock),
    xShmBarrier: Some(x_shm_barrier),
    xShmUnmap: Some(x_shm_unmap),
    xFetch: None,
    xUnfetch: None,
};

unsafe extern "C" fn v_open(
    _v: *mut ffi::sqlite3_vfs,
    name: *const c_char,
    f: *mut ffi::sqlite3_file,
    flags: c_int,
    out_flags: *mut c_int,
) -> c_int {
    (*f).pMethods = std::ptr::null();
    if let Some(FaultKind::OpenErr) = io_point(Io::Open) {
        return ffi::SQLITE_CANTOPEN;
    }
    let _q = sched::quiet();
    let d = disk();
    let id = d.next_handle;
    d.next_handle += 1;
    let name = if name.is_null() {
        format!("<temp{}>", id)
    } else {
        CStr::from_ptr(name).to_string_lossy().into_owned()
    };
    if d.find(&name).is_none() {
        if flags & ffi::SQLITE_OPEN_CREATE == 0 {
            return ffi::SQLITE_CANTOPEN;
        }
        d.files.push(File {
            name: name.clone(),
            ..File::default()
        });
    }
    d.open_handles += 1;
    std::ptr::write(
        f as *mut Handle,
        Handle {
            base: ffi::sqlite3_file { pMethods: &METHODS },
            file: 0,
            id,
            level: 0,
            shm: false,
            shm_shared: 0,
            shm_excl: 0,
            delete_on_close: flags & ffi::SQLITE_OPEN_DELETEONCLOSE != 0,
            name: Box::into_raw(Box::new(name)),
        },
    );
    if !out_flags.is_null() {
        *out_flags = flags;
    }
    0
}

unsafe extern "C" fn v_delete(
    _v: *mut ffi::sqlite3_vfs,
    name: *const c_char,
    sync_dir: c_int,
) -> c_int {
    if let Some(FaultKind::DeleteErr) = io_point(Io::Delete) {
        return ffi::SQLITE_IOERR_DELETE;
    }
    let _q = sched::quiet();
    let name = CStr::from_ptr(name).to_string_lossy().into_owned();
    let d = disk();
    match d.find(&name) {
        None => ffi::SQLITE_IOERR_DELETE_NOENT,
        Some(i) => {
            let f = d.files.remove(i);
            d.ghosts.retain(|g| g.name != f.name);
            if sync_dir == 0 && f.durable.is_some() {
                d.ghosts.push(f);
            }
            0
        }
    }
}

unsafe extern "C" fn v_access(
    _v: *mut ffi::sqlite3_vfs,
    name: *const c_char,
    _flags: c_int,
    out: *mut c_int,
) -> c_int {
    io_point(Io::Other);
    let _q = sched::quiet();
    let name = CStr::from_ptr(name).to_string_lossy();
    // SQLite asks whether a WAL or a journal exists and is not empty.
    *out = disk().files.iter().any(|f| f.name == name && !f.data.is_empty()) as c_int;
    0
}

unsafe extern "C" fn v_full(
    _v: *mut ffi::sqlite3_vfs,
    name: *const c_char,
    n: c_int,
    out: *mut c_char,
) -> c_int {
    let b = CStr::from_ptr(name).to_bytes_with_nul();
    if b.len() > n as usize {
        return ffi::SQLITE_CANTOPEN;
    }
    std::ptr::copy_nonoverlapping(b.as_ptr() as *const c_char, out, b.len());
    0
}

unsafe extern "C" fn v_dlopen(_v: *mut ffi::sqlite3_vfs, _n: *const c_char) -> *mut c_void {
    std::ptr::null_mut()
}
unsafe extern "C" fn v_dlerror(_v: *mut ffi::sqlite3_vfs, _n: c_int, _m: *mut c_char) {}
unsafe extern "C" fn v_dlclose(_v: *mut ffi::sqlite3_vfs, _p: *mut c_void) {}

unsafe extern "C" fn v_random(_v: *mut ffi::sqlite3_vfs, n: c_int, out: *mut c_char) -> c_int {
    let b = std::slice::from_raw_parts_mut(out as *mut u8, n as usize);
    sched::sched().entropy.fill(b);
    n
}

unsafe extern "C" fn v_sleep(_v: *mut ffi::sqlite3_vfs, us: c_int) -> c_int {
    if sched::attached() {
        sched::sleep_ns(us as u64 * 1000);
    }
    us
}

unsafe extern "C" fn v_time64(_v: *mut ffi::sqlite3_vfs, out: *mut i64) -> c_int {
    let s = sched::sched();
    *out = 210_866_760_000_000i64 + ((s.wall_base + s.now) / 1_000_000) as i64;
    0
}

unsafe extern "C" fn v_time(_v: *mut ffi::sqlite3_vfs, out: *mut f64) -> c_int {
    let mut t = 0i64;
    v_time64(_v, &mut t);
    *out = t as f64 / 86_400_000.0;
    0
}

unsafe extern "C" fn v_last_error(
    _v: *mut ffi::sqlite3_vfs,
    _n: c_int,
    _b: *mut c_char,
) -> c_int {
    0
}

/// Registers the simulated disk as SQLite's default VFS.
pub fn register() {
    unsafe {
        let v = Box::leak(Box::new(std::mem::zeroed::<ffi::sqlite3_vfs>()));
        v.iVersion = 2;
        v.szOsFile = std::mem::size_of::<Handle>() as c_int;
        v.mxPathname = 512;
        v.zName = b"sim\0".as_ptr() as *const c_char;
        v.xOpen = Some(v_open);
        v.xDelete = Some(v_delete);
        v.xAccess = Some(v_access);
        v.xFullPathname = Some(v_full);
        v.xDlOpen = Some(v_dlopen);
        v.xDlError = Some(v_dlerror);
        v.xDlSym = None;
        v.xDlClose = Some(v_dlclose);
        v.xRandomness = Some(v_random);
        v.xSleep = Some(v_sleep);
        v.xCurrentTime = Some(v_time);
        v.xCurrentTimeInt64 = Some(v_time64);
        v.xGetLastError = Some(v_last_error);
        install_malloc();
        assert_eq!(ffi::sqlite3_vfs_register(v, 1), 0);
    }
}

// --- allocation failures inside SQLite ------------------------------------------------------------

static mut REAL_MEM: Option<ffi::sqlite3_mem_methods> = None;

extern "C" {
    fn __real_sqlite3_value_dup(v: *const c_void) -> *mut c_void;
}

#[thread_local]
static NO_FAIL: AtomicBool = AtomicBool::new(false);

#[no_mangle]
pub unsafe extern "C" fn __wrap_sqlite3_value_dup(v: *const c_void) -> *mut c_void {
    NO_FAIL.store(true, Ordering::Relaxed);
    let r = __real_sqlite3_value_dup(v);
    NO_FAIL.store(false, Ordering::Relaxed);
    r
}

unsafe fn nomem() -> bool {
    if !sched::attached() || NO_FAIL.load(Ordering::Relaxed) {
        return false;
    }
    let d = disk();
    if let Some((skip, count)) = d.nomem.as_mut() {
        if *skip > 0 {
            *skip -= 1;
        } else if *count > 0 {
            *count -= 1;
            d.fired[FaultKind::NoMem as usize] += 1;
            sched::sched().note("fault", FaultKind::NoMem as u64);
            return true;
        }
    }
    false
}

unsafe extern "C" fn m_malloc(n: c_int) -> *mut c_void {
    if nomem() {
        return std::ptr::null_mut();
    }
    (REAL_MEM.as_ref().unwrap().xMalloc.unwrap())(n)
}

unsafe extern "C" fn m_realloc(p: *mut c_void, n: c_int) -> *mut c_void {
    if nomem() {
        return std::ptr::null_mut();
    }
    (REAL_MEM.as_ref().unwrap().xRealloc.unwrap())(p, n)
}

unsafe fn install_malloc() {
    let mut m: ffi::sqlite3_mem_methods = std::mem::zeroed();
    assert_eq!(
        ffi::sqlite3_config(ffi::SQLITE_CONFIG_GETMALLOC, &mut m as *mut _),
        0
    );
    REAL_MEM = Some(m);
    m.xMalloc = Some(m_malloc);
    m.xRealloc = Some(m_realloc);
    assert_eq!(
        ffi::sqlite3_config(ffi::SQLITE_CONFIG_MALLOC, &mut m as *mut _),
        0
    );
}
