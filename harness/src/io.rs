//! Fault points at the system-call boundary. The write-side calls of the whole program (SQLite's and
//! the standard library's alike) go through the definitions below; a thread that arms them decides
//! whether the n-th one touching a library's own files is counted, refused, or the last thing the
//! process ever does.

#![allow(invalid_runtime_symbol_definitions)]

use std::{
    cell::Cell,
    ffi::{CStr, c_char, c_int, c_long, c_uint, c_void},
    sync::atomic::{AtomicI64, AtomicU32, Ordering},
};

unsafe extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}

const SYS_READ: c_long = 0;
const SYS_PREAD64: c_long = 17;
const SYS_WRITE: c_long = 1;
const SYS_READLINK: c_long = 89;
const SYS_PWRITE64: c_long = 18;
const SYS_WRITEV: c_long = 20;
const SYS_GETPID: c_long = 39;
const SYS_KILL: c_long = 62;
const SYS_FSYNC: c_long = 74;
const SYS_FDATASYNC: c_long = 75;
const SYS_FTRUNCATE: c_long = 77;
const SYS_RENAME: c_long = 82;
const SYS_MKDIR: c_long = 83;
const SYS_UNLINK: c_long = 87;
const SYS_OPENAT: c_long = 257;
const AT_FDCWD: c_int = -100;
const O_CREAT: c_int = 0o100;
const O_TRUNC: c_int = 0o1000;

pub const ENOSPC: i32 = 28;
pub const EIO: i32 = 5;

const OFF: u32 = 0;
const COUNT: u32 = 1;
const KILL: u32 = 2;
const FAIL_ONE: u32 = 3;
const FAIL_FROM: u32 = 4;

static MODE: AtomicU32 = AtomicU32::new(OFF);
static NTH: AtomicI64 = AtomicI64::new(0);
static SEEN: AtomicI64 = AtomicI64::new(0);
static FIRED: AtomicI64 = AtomicI64::new(0);
static ERR: AtomicI64 = AtomicI64::new(0);
static TORN: AtomicI64 = AtomicI64::new(0);

/// Reads: refuse all from the n-th on, for `many` of them.
static READ_NTH: AtomicI64 = AtomicI64::new(0);
static READ_MANY: AtomicI64 = AtomicI64::new(0);
static READ_SEEN: AtomicI64 = AtomicI64::new(0);
static READ_FIRED: AtomicI64 = AtomicI64::new(0);

thread_local! {
    static READS: Cell<bool> = const { Cell::new(false) };
    static ARMED: Cell<bool> = const { Cell::new(false) };
}

#[derive(Clone, Copy, Debug)]
pub enum Plan {
    Count,
    /// The process dies at the n-th call, before it or (torn) after half of its bytes.
    Kill { nth: i64, torn: bool },
    /// The n-th call fails; with `on`, all later ones too.
    Fail { nth: i64, err: i32, on: bool, torn: bool },
}

/// Arms the calling thread.
pub fn arm(p: Plan) {
    SEEN.store(0, Ordering::SeqCst);
    FIRED.store(0, Ordering::SeqCst);
    let (m, n, e, t) = match p {
        Plan::Count => (COUNT, 0, 0, false),
        Plan::Kill { nth, torn } => (KILL, nth, 0, torn),
        Plan::Fail { nth, err, on, torn } => (if on { FAIL_FROM } else { FAIL_ONE }, nth, err, torn),
    };
    NTH.store(n, Ordering::SeqCst);
    ERR.store(i64::from(e), Ordering::SeqCst);
    TORN.store(i64::from(t), Ordering::SeqCst);
    MODE.store(m, Ordering::SeqCst);
    ARMED.with(|a| a.set(true));
}

/// Disarms; returns the number of calls seen and of calls refused.
pub fn disarm() -> (i64, i64) {
    MODE.store(OFF, Ordering::SeqCst);
    ARMED.with(|a| a.set(false));
    (SEEN.load(Ordering::SeqCst), FIRED.load(Ordering::SeqCst))
}

/// From now on the calling thread's reads of a library's own files fail from the n-th on, `many` times.
pub fn arm_reads(nth: i64, many: i64) {
    READ_SEEN.store(0, Ordering::SeqCst);
    READ_FIRED.store(0, Ordering::SeqCst);
    READ_NTH.store(nth, Ordering::SeqCst);
    READ_MANY.store(many, Ordering::SeqCst);
    READS.with(|a| a.set(true));
}

/// Ends that; returns the number of reads seen and refused.
pub fn disarm_reads() -> (i64, i64) {
    READS.with(|a| a.set(false));
    (READ_SEEN.load(Ordering::SeqCst), READ_FIRED.load(Ordering::SeqCst))
}

fn refused_read(fd: c_int) -> bool {
    if !READS.try_with(Cell::get).unwrap_or(false) || !fd_ours(fd) {
        return false;
    }
    let n = READ_SEEN.fetch_add(1, Ordering::SeqCst) + 1;
    let nth = READ_NTH.load(Ordering::Relaxed);
    if n < nth || n >= nth.saturating_add(READ_MANY.load(Ordering::Relaxed)) {
        return false;
    }
    READ_FIRED.fetch_add(1, Ordering::SeqCst);
    true
}

/// The number of calls seen since `arm`.
pub fn seen() -> i64 {
    SEEN.load(Ordering::SeqCst)
}

enum Do {
    Pass,
    Fail(c_int),
    /// Let half of the bytes through first.
    Half { die: bool },
}

fn die() -> ! {
    unsafe {
        loop {
            let pid = syscall(SYS_GETPID);
            syscall(SYS_KILL, pid, 9 as c_long);
        }
    }
}

fn ours(path: &[u8]) -> bool {
    path.windows(7).any(|w| w == b"/.trane") || path.windows(8).any(|w| w == b"/etilqs_")
}

fn armed() -> bool {
    MODE.load(Ordering::Relaxed) != OFF && ARMED.try_with(Cell::get).unwrap_or(false)
}

fn fd_ours(fd: c_int) -> bool {
    // "/proc/self/fd/N" without allocation.
    let mut name = [0u8; 32];
    let head = b"/proc/self/fd/";
    name[..head.len()].copy_from_slice(head);
    let mut digits = [0u8; 12];
    let (mut n, mut i) = (fd.max(0), 0);
    loop {
        digits[i] = b'0' + (n % 10) as u8;
        i += 1;
        n /= 10;
        if n == 0 {
            break;
        }
    }
    for k in 0..i {
        name[head.len() + k] = digits[i - 1 - k];
    }
    let mut buf = [0u8; 1024];
    let r = unsafe { syscall(SYS_READLINK, name.as_ptr(), buf.as_mut_ptr(), buf.len()) };
    r > 0 && ours(&buf[..r as usize])
}

fn hit(can_tear: bool) -> Do {
    let n = SEEN.fetch_add(1, Ordering::SeqCst) + 1;
    let nth = NTH.load(Ordering::Relaxed);
    let torn = can_tear && TORN.load(Ordering::Relaxed) != 0;
    match MODE.load(Ordering::Relaxed) {
        KILL if n == nth => {
            if torn {
                return Do::Half { die: true };
            }
            die()
        }
        FAIL_ONE if n == nth => {}
        FAIL_FROM if n >= nth => {}
        _ => return Do::Pass,
    }
    FIRED.fetch_add(1, Ordering::SeqCst);
    if torn && n == nth {
        return Do::Half { die: false };
    }
    Do::Fail(ERR.load(Ordering::Relaxed) as c_int)
}

fn fail(e: c_int) -> isize {
    unsafe { *__errno_location() = e };
    -1
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    unsafe {
        if refused_read(fd) {
            return fail(EIO);
        }
        syscall(SYS_READ, fd, buf, n) as isize
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize {
    unsafe {
        if refused_read(fd) {
            return fail(EIO);
        }
        syscall(SYS_PREAD64, fd, buf, n, off) as isize
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize {
    unsafe { pread64(fd, buf, n, off) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    unsafe {
        if armed() && fd_ours(fd) {
            match hit(true) {
                Do::Pass => {}
                Do::Fail(e) => return fail(e),
                Do::Half { die: d } => {
                    let w = syscall(SYS_WRITE, fd, buf, n / 2) as isize;
                    if d {
                        die();
                    }
                    // Half of it was stored; the rest is refused when the caller tries again.
                    if w > 0 {
                        MODE.store(FAIL_FROM, Ordering::SeqCst);
                        return w;
                    }
                    return fail(ERR.load(Ordering::Relaxed) as c_int);
                }
            }
        }
        syscall(SYS_WRITE, fd, buf, n) as isize
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    unsafe {
        if armed() && fd_ours(fd) {
            match hit(true) {
                Do::Pass => {}
                Do::Fail(e) => return fail(e),
                Do::Half { die: d } => {
                    let w = syscall(SYS_PWRITE64, fd, buf, n / 2, off) as isize;
                    if d {
                        die();
                    }
                    if w > 0 {
                        MODE.store(FAIL_FROM, Ordering::SeqCst);
                        return w;
                    }
                    return fail(ERR.load(Ordering::Relaxed) as c_int);
                }
            }
        }
        syscall(SYS_PWRITE64, fd, buf, n, off) as isize
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    unsafe { pwrite64(fd, buf, n, off) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const c_void, n: c_int) -> isize {
    unsafe {
        if armed() && fd_ours(fd) {
            match hit(false) {
                Do::Pass | Do::Half { .. } => {}
                Do::Fail(e) => return fail(e),
            }
        }
        syscall(SYS_WRITEV, fd, iov, n) as isize
    }
}

macro_rules! on_fd {
    ($name:ident, $nr:expr $(, $a:ident : $t:ty)*) => {
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $name(fd: c_int $(, $a: $t)*) -> c_int {
            unsafe {
                if armed() && fd_ours(fd) {
                    if let Do::Fail(e) = hit(false) {
                        return fail(e) as c_int;
                    }
                }
                syscall($nr, fd $(, $a)*) as c_int
            }
        }
    };
}

on_fd!(fsync, SYS_FSYNC);
on_fd!(fdatasync, SYS_FDATASYNC);
on_fd!(ftruncate64, SYS_FTRUNCATE, len: i64);
on_fd!(ftruncate, SYS_FTRUNCATE, len: i64);

unsafe fn path_hit(p: *const c_char) -> Option<c_int> {
    if !armed() || p.is_null() {
        return None;
    }
    let bytes = unsafe { CStr::from_ptr(p) }.to_bytes();
    if !ours(bytes) {
        return None;
    }
    match hit(false) {
        Do::Fail(e) => Some(e),
        _ => None,
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    unsafe {
        if let Some(e) = path_hit(b) {
            return fail(e) as c_int;
        }
        syscall(SYS_RENAME, a, b) as c_int
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    unsafe {
        if let Some(e) = path_hit(a) {
            return fail(e) as c_int;
        }
        syscall(SYS_UNLINK, a) as c_int
    }
}

static KEEP: std::sync::Mutex<Option<std::path::PathBuf>> = std::sync::Mutex::new(None);

/// From now on a database that is removed with the folder it is in is copied to the given one first, to
/// a folder with the name of the library's.
pub fn keep_databases(to: Option<&std::path::Path>) {
    *KEEP.lock().expect("harness: lock") = to.map(Into::into);
}

fn keep(folder: c_int, name: *const c_char) -> Option<()> {
    let to = KEEP.lock().ok()?.clone()?;
    let name = unsafe { CStr::from_ptr(name) }.to_str().ok().filter(|n| n.contains(".db"))?;
    let from = std::fs::read_link(format!("/proc/self/fd/{folder}")).ok()?;
    let to = to.join(from.parent()?.file_name()?);
    std::fs::create_dir_all(&to).ok()?;
    std::fs::copy(from.join(name), to.join(name)).ok().map(|_| ())
}

const SYS_UNLINKAT: c_long = 263;

#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlinkat(folder: c_int, name: *const c_char, flags: c_int) -> c_int {
    if flags == 0 {
        keep(folder, name);
    }
    unsafe { syscall(SYS_UNLINKAT, folder, name, flags) as c_int }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn mkdir(a: *const c_char, mode: c_uint) -> c_int {
    unsafe {
        if let Some(e) = path_hit(a) {
            return fail(e) as c_int;
        }
        syscall(SYS_MKDIR, a, mode) as c_int
    }
}

/// Opening counts only when it can create or empty a file.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(a: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    unsafe {
        if flags & (O_CREAT | O_TRUNC) != 0
            && let Some(e) = path_hit(a)
        {
            return fail(e) as c_int;
        }
        syscall(SYS_OPENAT, AT_FDCWD, a, flags, mode) as c_int
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn open(a: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    unsafe { open64(a, flags, mode) }
}
