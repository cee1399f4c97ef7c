//! The system-call seam: the C library functions that std and the `time` crate use are defined here
//! and so take precedence over libc's.  Outside a simulated operation, and for paths outside the
//! scratch directory, they pass straight through.
use crate::env::{with, Decision, Stream};
use libc::{c_char, c_int, c_void, off_t, size_t, ssize_t};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::ffi::CStr;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering::Relaxed};

/// Faults are injected and writes refused only while this is set.
pub static ACTIVE: AtomicBool = AtomicBool::new(false);
static CLOCK_ON: AtomicBool = AtomicBool::new(false);
static CLOCK: AtomicI64 = AtomicI64::new(0);
pub static CLOCK_READS: AtomicI64 = AtomicI64::new(0);

thread_local! {
    /// the directories of the storages, each also without symbolic links in its path
    static SCRATCH: RefCell<Vec<[Vec<u8>; 2]>> = RefCell::new(vec![]);
    static FDS: RefCell<BTreeMap<c_int, Stream>> = RefCell::new(BTreeMap::new());
    static DIRS: RefCell<BTreeMap<usize, Dir>> = RefCell::new(BTreeMap::new());
    static BUSY: Cell<bool> = Cell::new(false);
}

struct Dir {
    names: Vec<Vec<u8>>,
    pos: usize,
    mid: Option<(usize, i32)>,
    kinds: bool,
    buf: Box<libc::dirent64>,
}

pub fn set_scratch(dirs: &[std::path::PathBuf]) {
    use std::os::unix::ffi::OsStrExt;
    let l = dirs.iter().map(|p| {
        let mut v = p.as_os_str().as_bytes().to_vec();
        while v.last() == Some(&b'/') {
            v.pop();
        }
        let real = std::fs::canonicalize(p).map(|p| p.as_os_str().as_bytes().to_vec()).unwrap_or_default();
        [v, real]
    });
    let l: Vec<_> = l.collect();
    SCRATCH.with(|s| *s.borrow_mut() = l);
}
fn dir(store: u8) -> std::path::PathBuf {
    let v = SCRATCH.with(|s| s.borrow()[store as usize][0].clone());
    <std::ffi::OsString as std::os::unix::ffi::OsStringExt>::from_vec(v).into()
}
pub fn set_clock(t: Option<i64>) {
    CLOCK.store(t.unwrap_or(0), Relaxed);
    CLOCK_ON.store(t.is_some(), Relaxed);
}
/// The steady clock (seconds the simulation has gone through); sleeping moves it on and takes no time.
static STEADY: AtomicI64 = AtomicI64::new(0);
pub static SLEEPS: AtomicI64 = AtomicI64::new(0);
pub fn steady(reset: bool, secs: i64) {
    if reset {
        STEADY.store(1_000_000_000_000, Relaxed);
        SLEEPS.store(0, Relaxed);
    }
    STEADY.fetch_add(secs.clamp(0, 1 << 32).saturating_mul(1_000_000_000), Relaxed);
}
pub fn reset() {
    FDS.with(|f| f.borrow_mut().clear());
    DIRS.with(|f| f.borrow_mut().clear());
}

fn errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}

macro_rules! real {
    ($name:expr, $t:ty) => {{
        static P: AtomicUsize = AtomicUsize::new(0);
        let mut p = P.load(Relaxed);
        if p == 0 {
            p = libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char) as usize;
            P.store(p, Relaxed);
        }
        std::mem::transmute::<usize, $t>(p)
    }};
}

/// The part of the path below the scratch directory, if a simulated operation is running.
unsafe fn inside(path: *const c_char) -> Option<Vec<u8>> {
    if !ACTIVE.load(Relaxed) || BUSY.with(|b| b.get()) {
        return None;
    }
    let p = CStr::from_ptr(path).to_bytes();
    let below = |s: &Vec<u8>| {
        if s.is_empty() || !p.starts_with(s) {
            return None;
        }
        let mut r = &p[s.len()..];
        if !matches!(r.first(), None | Some(b'/')) {
            return None;
        }
        while r.first() == Some(&b'/') {
            r = &r[1..];
        }
        Some(r.to_vec())
    };
    let hit = SCRATCH.with(|l| l.borrow().iter().enumerate().find_map(|(i, [a, b])| below(a).or_else(|| below(b)).map(|r| (i, r))));
    hit.map(|(i, r)| {
        // the call is about one of the storages
        if i == quiet(|| with(|e| e.store)) as usize {
            r
        } else {
            [&b"in another storage: "[..], &r].concat()
        }
    })
}

fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let before = BUSY.with(|b| b.replace(true));
    let r = f();
    BUSY.with(|b| b.set(before));
    r
}

fn refuse(what: &str, path: &[u8]) -> c_int {
    quiet(|| with(|e| e.writes.push(format!("{} {}", what, crate::model::show(path)))));
    errno(libc::EROFS);
    -1
}

unsafe fn do_open(path: *const c_char, flags: c_int, mode: c_int, f: unsafe extern "C" fn(*const c_char, c_int, c_int) -> c_int) -> c_int {
    let rel = match inside(path) {
        None => return f(path, flags, mode),
        Some(r) => r,
    };
    if flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC | libc::O_APPEND) != 0 {
        return refuse("open for writing", &rel);
    }
    if rel.is_empty() || flags & libc::O_DIRECTORY != 0 {
        return f(path, flags, mode);
    }
    match quiet(|| with(|e| {
        let r = e.open(&rel);
        let d = e.world.files.get(&rel).map_or(false, |f| f.dir);
        // the writer may just have run: bring the real directory up to date
        if !e.world.dirty.is_empty() {
            let dir = dir(e.store);
            crate::mirror::sync(&mut e.world, &dir);
        }
        (r, d)
    })) {
        (Err(e), _) => {
            errno(e);
            -1
        }
        (Ok(_), true) => f(path, flags, mode),
        (Ok(s), false) => {
            let fd = f(path, flags, mode);
            if fd >= 0 {
                quiet(|| FDS.with(|m| m.borrow_mut().insert(fd, s)));
            }
            fd
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(path, flags, mode, real!("open64", unsafe extern "C" fn(*const c_char, c_int, c_int) -> c_int))
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(path, flags, mode, real!("open", unsafe extern "C" fn(*const c_char, c_int, c_int) -> c_int))
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if ACTIVE.load(Relaxed) && !BUSY.with(|b| b.get()) || fd > 2 {
        quiet(|| FDS.with(|m| m.try_borrow_mut().map(|mut m| m.remove(&fd)).ok()));
    }
    libc::syscall(libc::SYS_close, fd) as c_int
}

unsafe fn from_stream(fd: c_int, len: size_t, off: Option<off_t>) -> Option<Result<Vec<u8>, c_int>> {
    if !ACTIVE.load(Relaxed) || BUSY.with(|b| b.get()) || off.is_some() {
        return None;
    }
    while quiet(|| FDS.with(|m| m.borrow_mut().get_mut(&fd).map_or(false, |s| with(|e| e.pauses(s))))) {
        crate::threads::pause();
    }
    quiet(|| {
        FDS.with(|m| {
            let mut m = m.borrow_mut();
            let s = m.get_mut(&fd)?;
            Some(match with(|e| e.read(s, len)) {
                Decision::Err(e) => Err(e),
                Decision::Data(d) => Ok(d),
            })
        })
    })
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, len: size_t) -> ssize_t {
    match from_stream(fd, len, None) {
        None => libc::syscall(libc::SYS_read, fd, buf, len) as ssize_t,
        Some(Err(e)) => {
            errno(e);
            -1
        }
        Some(Ok(d)) => {
            // the bytes come from the real file; only how many and with what damage is decided here
            let n = if d.is_empty() { 0 } else { libc::syscall(libc::SYS_read, fd, buf, d.len()) as ssize_t };
            if n == d.len() as ssize_t {
                std::ptr::copy_nonoverlapping(d.as_ptr(), buf as *mut u8, d.len());
            }
            n
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: size_t) -> ssize_t {
    if ACTIVE.load(Relaxed) && !BUSY.with(|b| b.get()) && FDS.with(|m| m.borrow().contains_key(&fd)) {
        return refuse("write", b"") as ssize_t;
    }
    libc::syscall(libc::SYS_write, fd, buf, len) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut libc::DIR {
    let f = real!("opendir", unsafe extern "C" fn(*const c_char) -> *mut libc::DIR);
    let rel = match inside(path) {
        Some(r) => r,
        None => return f(path),
    };
    if !rel.is_empty() {
        return f(path);
    }
    match quiet(|| with(|e| e.list(true))) {
        Err(e) => {
            errno(e);
            std::ptr::null_mut()
        }
        Ok((mut names, mid)) => {
            let d = f(path);
            if d.is_null() {
                return d;
            }
            // the two entries every directory has come somewhere in between
            let k = names.len();
            names.insert(k / 2, b".".to_vec());
            names.insert(k / 3, b"..".to_vec());
            let buf = Box::new(std::mem::zeroed());
            crate::env::opened(1);
            quiet(|| DIRS.with(|m| m.borrow_mut().insert(d as usize, Dir { names, pos: 0, mid, kinds: with(|e| e.io.order % 3 != 1), buf })));
            d
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    let f = real!("readdir64", unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64);
    if BUSY.with(|b| b.get()) {
        return f(d);
    }
    let r = DIRS.with(|m| {
        let mut m = m.borrow_mut();
        let dir = m.get_mut(&(d as usize))?;
        if let Some((at, e)) = dir.mid {
            if dir.pos >= at {
                dir.mid = None;
                quiet(|| with(|env| {
                    env.fire("error in the middle of a listing");
                    env.list_fault = true;
                }));
                errno(e);
                return Some(std::ptr::null_mut());
            }
        }
        if dir.pos >= dir.names.len() {
            return Some(std::ptr::null_mut());
        }
        let n = &dir.names[dir.pos];
        dir.pos += 1;
        let b = &mut *dir.buf;
        b.d_ino = dir.pos as u64 + 100;
        b.d_off = dir.pos as i64;
        // not every file system tells what an entry is
        b.d_type = if dir.kinds {
            quiet(|| with(|e| {
                let d = e.world.files.get(n).map_or(true, |f| f.dir);
                if d { libc::DT_DIR } else if crate::mirror::linked(&e.world, n) { libc::DT_LNK } else { libc::DT_REG }
            }))
        } else {
            libc::DT_UNKNOWN
        };
        b.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
        for (i, c) in n.iter().enumerate().take(255) {
            b.d_name[i] = *c as c_char;
        }
        b.d_name[n.len().min(255)] = 0;
        Some(b as *mut libc::dirent64)
    });
    match r {
        Some(p) => p,
        None => f(d),
    }
}

#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    if quiet(|| DIRS.with(|m| m.try_borrow_mut().map(|mut m| m.remove(&(d as usize))).ok().flatten())).is_some() {
        crate::env::opened(-1);
    }
    real!("closedir", unsafe extern "C" fn(*mut libc::DIR) -> c_int)(d)
}

/// Should this question about a file's attributes fail?
unsafe fn stat_error(at: c_int, path: *const c_char) -> Option<c_int> {
    if !ACTIVE.load(Relaxed) || BUSY.with(|b| b.get()) || path.is_null() {
        return None;
    }
    let rel = CStr::from_ptr(path).to_bytes();
    let ours = match inside(path) {
        Some(r) => !r.is_empty(),
        // by name, relative to an open directory stream
        None => {
            !rel.is_empty() && rel[0] != b'/' && at >= 0 && {
                let dirs: Vec<usize> = DIRS.with(|m| m.borrow().keys().cloned().collect());
                dirs.iter().any(|d| libc::dirfd(*d as *mut libc::DIR) == at)
            }
        }
    };
    if !ours {
        return None;
    }
    quiet(|| with(|e| e.stat()))
}

macro_rules! stats {
    ($name:ident, $s:expr, $t:ty) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(path: *const c_char, buf: *mut $t) -> c_int {
            if let Some(e) = stat_error(-1, path) {
                errno(e);
                return -1;
            }
            real!($s, unsafe extern "C" fn(*const c_char, *mut $t) -> c_int)(path, buf)
        }
    };
}
stats!(stat64, "stat64", libc::stat64);
stats!(lstat64, "lstat64", libc::stat64);
stats!(stat, "stat", libc::stat);
stats!(lstat, "lstat", libc::stat);

#[no_mangle]
pub unsafe extern "C" fn statx(fd: c_int, path: *const c_char, flags: c_int, mask: libc::c_uint, buf: *mut libc::statx) -> c_int {
    if let Some(e) = stat_error(fd, path) {
        errno(e);
        return -1;
    }
    real!("statx", unsafe extern "C" fn(c_int, *const c_char, c_int, libc::c_uint, *mut libc::statx) -> c_int)(fd, path, flags, mask, buf)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(fd: c_int, path: *const c_char, buf: *mut libc::stat64, flags: c_int) -> c_int {
    if let Some(e) = stat_error(fd, path) {
        errno(e);
        return -1;
    }
    real!("fstatat64", unsafe extern "C" fn(c_int, *const c_char, *mut libc::stat64, c_int) -> c_int)(fd, path, buf, flags)
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    if let Some(e) = stat_error(-1, path) {
        errno(e);
        return -1;
    }
    real!("access", unsafe extern "C" fn(*const c_char, c_int) -> c_int)(path, mode)
}

macro_rules! refused1 {
    ($name:ident, $s:expr, $($a:ident : $t:ty),*) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(path: *const c_char $(, $a: $t)*) -> c_int {
            if let Some(rel) = inside(path) {
                return refuse($s, &rel);
            }
            real!($s, unsafe extern "C" fn(*const c_char $(, $t)*) -> c_int)(path $(, $a)*)
        }
    };
}
refused1!(unlink, "unlink",);
refused1!(rmdir, "rmdir",);
refused1!(mkdir, "mkdir", mode: libc::mode_t);
refused1!(chmod, "chmod", mode: libc::mode_t);
refused1!(truncate64, "truncate64", len: off_t);

#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    for p in [a, b] {
        if let Some(rel) = inside(p) {
            return refuse("rename", &rel);
        }
    }
    real!("rename", unsafe extern "C" fn(*const c_char, *const c_char) -> c_int)(a, b)
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if clk == libc::CLOCK_REALTIME && CLOCK_ON.load(Relaxed) && ACTIVE.load(Relaxed) {
        (*ts).tv_sec = CLOCK.load(Relaxed);
        (*ts).tv_nsec = 0;
        CLOCK_READS.fetch_add(1, Relaxed);
        return 0;
    }
    if matches!(clk, libc::CLOCK_MONOTONIC | libc::CLOCK_BOOTTIME | libc::CLOCK_MONOTONIC_RAW | libc::CLOCK_MONOTONIC_COARSE) && ACTIVE.load(Relaxed) {
        let t = STEADY.fetch_add(1000, Relaxed);
        (*ts).tv_sec = t / 1_000_000_000;
        (*ts).tv_nsec = t % 1_000_000_000;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as c_int
}

unsafe fn slept(req: *const libc::timespec, abs: bool) {
    let t = (*req).tv_sec.saturating_mul(1_000_000_000).saturating_add((*req).tv_nsec);
    if abs {
        STEADY.fetch_max(t, Relaxed);
    } else {
        STEADY.fetch_add(t, Relaxed);
    }
    SLEEPS.fetch_add(1, Relaxed);
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if ACTIVE.load(Relaxed) {
        slept(req, false);
        return 0;
    }
    libc::syscall(libc::SYS_nanosleep, req, rem) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: libc::clockid_t, flags: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if ACTIVE.load(Relaxed) {
        slept(req, flags & libc::TIMER_ABSTIME != 0);
        return 0;
    }
    if libc::syscall(libc::SYS_clock_nanosleep, clk, flags, req, rem) == 0 {
        0
    } else {
        *libc::__errno_location()
    }
}

thread_local! {
    static ENTROPY: Cell<u64> = Cell::new(0x5eed);
}
/// Seeds the randomness the process gets from the system, such as the keys of hash maps.
pub fn set_entropy(seed: u64) {
    ENTROPY.with(|e| e.set(seed));
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, _flags: libc::c_uint) -> ssize_t {
    let b = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    for x in b {
        let s = ENTROPY.with(|e| {
            let v = crate::rng::mix(e.get());
            e.set(v);
            v
        });
        *x = s as u8;
    }
    len as ssize_t
}
