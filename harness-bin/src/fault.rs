//! File operations of the command under test that can be made to fail, or at which it can be
//! killed. The functions of the C library that Rust's standard library calls for files are defined
//! here, so the linker takes these; each one makes the system call itself.
//!
//! `MC_FAULT=AT:WHAT` (with the folder in `MC_FAULT_IN`) does WHAT at the operation number AT, counted from 1, on a file
//! in the folder: `fail` (nothing is done and an error is given), `kill` (the process ends before
//! it), `torn` (a write writes half, then the process ends) or `wait` (until the file `tmp/go` is there). `MC_FAULT_LOG=FILE` lists all.

use std::ffi::CStr;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering::SeqCst};
use std::sync::OnceLock;

use libc::{c_char, c_int, c_void, mode_t, off64_t, size_t, ssize_t, syscall};

#[derive(Clone, Copy, PartialEq)]
enum What {
    Fail,
    Kill,
    Torn,
    Wait,
}
struct Conf {
    at: u64,
    what: What,
    inside: Vec<u8>,
}
static ON: AtomicBool = AtomicBool::new(false);
static CONF: OnceLock<Conf> = OnceLock::new();
static COUNT: AtomicU64 = AtomicU64::new(0);
static LOG: AtomicI32 = AtomicI32::new(-1);
static FDS: [AtomicBool; 4096] = [const { AtomicBool::new(false) }; 4096];

/// Before the command starts.
pub fn init() {
    let Some(inside) = std::env::var_os("MC_FAULT_IN") else { return };
    let v = std::env::var("MC_FAULT").unwrap_or_default();
    let (at, what) = v.split_once(':').unwrap_or(("0", "fail"));
    use std::os::unix::ffi::OsStringExt;
    let _ = CONF.set(Conf { at: at.parse().unwrap_or(0), what: match what { "kill" => What::Kill, "torn" => What::Torn, "wait" => What::Wait, _ => What::Fail }, inside: inside.into_vec() });
    if let Some(l) = std::env::var_os("MC_FAULT_LOG") {
        use std::os::fd::IntoRawFd;
        if let Ok(f) = std::fs::OpenOptions::new().create(true).append(true).open(l) {
            LOG.store(f.into_raw_fd(), SeqCst);
        }
    }
    ON.store(true, SeqCst);
}

fn note(kind: &str, name: &[u8]) {
    let l = LOG.load(SeqCst);
    if l >= 0 {
        let mut t = kind.as_bytes().to_vec();
        t.push(b' ');
        t.extend(name);
        t.push(b'\n');
        // SAFETY: plain system call
        unsafe { syscall(libc::SYS_write, l, t.as_ptr(), t.len()) };
    }
}
/// Whether this operation has to fail, and whether it is the torn one.
fn step(kind: &str, name: &[u8]) -> (bool, bool) {
    let Some(c) = CONF.get() else { return (false, false) };
    let n = COUNT.fetch_add(1, SeqCst) + 1;
    note(kind, name);
    if n != c.at {
        return (false, false);
    }
    match c.what {
        What::Fail => (true, false),
        What::Kill => end(),
        What::Torn => (false, true),
        What::Wait => {
            wait(&c.inside);
            (false, false)
        }
    }
}
/// Says that the place is reached, and goes on when told so.
fn wait(inside: &[u8]) {
    let name = |n: &[u8]| [inside, b"/tmp/", n, b"\0"].concat();
    let (at, go) = (name(b"waiting"), name(b"go"));
    // SAFETY: plain system calls with texts that end with 0
    unsafe {
        let fd = syscall(libc::SYS_openat, libc::AT_FDCWD, at.as_ptr(), libc::O_CREAT | libc::O_WRONLY | libc::O_CLOEXEC, 0o644);
        syscall(libc::SYS_close, fd);
        for _ in 0..60_000 {
            if syscall(libc::SYS_faccessat, libc::AT_FDCWD, go.as_ptr(), libc::F_OK) == 0 {
                return;
            }
            libc::usleep(500);
        }
    }
}
fn end() -> ! {
    // SAFETY: ends the process
    unsafe { libc::_exit(137) }
}
fn failed() -> c_int {
    // SAFETY: errno of this thread
    unsafe { *libc::__errno_location() = libc::EIO };
    -1
}
/// The name, if it is one of the files that count.
unsafe fn counts<'a>(p: *const c_char) -> Option<&'a [u8]> {
    if !ON.load(SeqCst) || p.is_null() {
        return None;
    }
    let n = CStr::from_ptr(p).to_bytes();
    let c = CONF.get()?;
    if n.first() == Some(&b'/') && !n.starts_with(&c.inside) || n.ends_with(b"latest.log") {
        return None;
    }
    Some(n)
}
unsafe fn path(kind: &str, p: *const c_char) -> bool {
    counts(p).is_some_and(|n| {
        let (fail, torn) = step(kind, n);
        if torn { end() }
        fail
    })
}
fn tracked(fd: c_int) -> bool {
    ON.load(SeqCst) && FDS.get(fd as usize).is_some_and(|f| f.load(SeqCst))
}
fn fd(kind: &str, fd_: c_int) -> (bool, bool) {
    if tracked(fd_) { step(kind, fd_.to_string().as_bytes()) } else { (false, false) }
}
fn track(fd: ssize_t, yes: bool) {
    if fd >= 0 {
        if let Some(f) = FDS.get(fd as usize) {
            f.store(yes, SeqCst);
        }
    }
}

unsafe fn do_open(dir: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let w = flags & libc::O_ACCMODE != libc::O_RDONLY;
    if path(if w { "create" } else if flags & libc::O_DIRECTORY != 0 { "list" } else { "open" }, p) {
        return failed();
    }
    let r = syscall(libc::SYS_openat, dir, p, flags, mode) as ssize_t;
    track(r, counts(p).is_some());
    r as c_int
}
#[no_mangle]
unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
unsafe extern "C" fn openat(dir: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(dir, p, flags, mode)
}
#[no_mangle]
unsafe extern "C" fn openat64(dir: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(dir, p, flags, mode)
}
#[no_mangle]
unsafe extern "C" fn opendir(p: *const c_char) -> *mut libc::DIR {
    if path("list", p) {
        failed();
        return std::ptr::null_mut();
    }
    let fd = syscall(libc::SYS_openat, libc::AT_FDCWD, p, libc::O_RDONLY | libc::O_DIRECTORY | libc::O_CLOEXEC, 0);
    if fd < 0 { std::ptr::null_mut() } else { libc::fdopendir(fd as c_int) }
}
#[no_mangle]
unsafe extern "C" fn close(fd: c_int) -> c_int {
    track(fd as ssize_t, false);
    syscall(libc::SYS_close, fd) as c_int
}
#[no_mangle]
unsafe extern "C" fn read(f: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    let (fail, torn) = fd("read", f);
    if torn { end() }
    if fail {
        return failed() as ssize_t;
    }
    syscall(libc::SYS_read, f, b, n) as ssize_t
}
#[no_mangle]
unsafe extern "C" fn write(f: c_int, b: *const c_void, n: size_t) -> ssize_t {
    let (fail, torn) = fd("write", f);
    if fail {
        return failed() as ssize_t;
    }
    if torn {
        syscall(libc::SYS_write, f, b, n / 2);
        end();
    }
    syscall(libc::SYS_write, f, b, n) as ssize_t
}
#[no_mangle]
unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut off64_t, b: c_int, bo: *mut off64_t, n: size_t, flags: libc::c_uint) -> ssize_t {
    let (fail, torn) = fd("copy", b);
    if fail {
        return failed() as ssize_t;
    }
    if torn {
        syscall(libc::SYS_copy_file_range, a, ao, b, bo, 1, flags);
        end();
    }
    syscall(libc::SYS_copy_file_range, a, ao, b, bo, n, flags) as ssize_t
}
#[no_mangle]
unsafe extern "C" fn mkdir(p: *const c_char, mode: mode_t) -> c_int {
    if path("mkdir", p) { return failed(); }
    syscall(libc::SYS_mkdirat, libc::AT_FDCWD, p, mode) as c_int
}
#[no_mangle]
unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    if path("rmdir", p) { return failed(); }
    syscall(libc::SYS_unlinkat, libc::AT_FDCWD, p, libc::AT_REMOVEDIR) as c_int
}
#[no_mangle]
unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if path("unlink", p) { return failed(); }
    syscall(libc::SYS_unlinkat, libc::AT_FDCWD, p, 0) as c_int
}
#[no_mangle]
unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, flags: c_int) -> c_int {
    if path("unlink", p) { return failed(); }
    syscall(libc::SYS_unlinkat, d, p, flags) as c_int
}
#[no_mangle]
unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if path("rename", a) { return failed(); }
    syscall(libc::SYS_renameat2, libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0) as c_int
}
#[no_mangle]
unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    if path("symlink", b) { return failed(); }
    syscall(libc::SYS_symlinkat, a, libc::AT_FDCWD, b) as c_int
}
