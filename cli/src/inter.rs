//! Interposition of the libc functions that files and directories are read with.
//!
//! While a thread is armed, each of these calls is reported: documents opened are remembered, and a
//! fault can be injected into any call. All other threads reach the kernel directly.
use engine::Ch;
use libc::{c_char, c_int, c_uint, c_void, dirent64, mode_t, size_t, ssize_t, DIR};
use std::arch::asm;
use std::cell::{Cell, UnsafeCell};
use std::ffi::{CStr, OsStr};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};

unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e,
         lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

pub struct Fault {
    pub call: &'static str,
    pub path: PathBuf,
    pub errno: i32,
}

pub struct Session {
    /// Where to take the choices of faults from, and how many faults are left.
    ch: *mut Ch,
    pub budget: usize,
    errnos: &'static [i32],
    /// Faults are injected into calls on paths below this one only (the walker also looks at files of
    /// the system, once per process).
    scope: PathBuf,
    /// Opening or entering these fails with EACCES.
    pub denied: Vec<PathBuf>,
    pub faults: Vec<Fault>,
    pub opened: Vec<PathBuf>,
    pub calls: u64,
    fds: Vec<(usize, PathBuf)>,
}

thread_local! {
    static SESSION: UnsafeCell<Option<Session>> = const { UnsafeCell::new(None) };
    static ARMED: Cell<bool> = const { Cell::new(false) };
}

/// A fault that is none: fewer bytes than asked for.
pub const SHORT: i32 = -1;

/// Runs `f` with the calls of this thread observed, and faulty if `ch` says so.
pub fn observed<T>(mut faults: Option<(&mut Ch, usize, &'static [i32], &Path)>, denied: Vec<PathBuf>, f: impl FnOnce() -> T) -> (T, Session) {
    let (ch, budget, errnos, scope): (*mut Ch, usize, &'static [i32], PathBuf) = match &mut faults {
        Some((c, b, e, p)) => (*c as *mut Ch, *b, *e, p.to_path_buf()),
        None => (std::ptr::null_mut(), 0, &[], PathBuf::new()),
    };
    let s = Session { ch, budget, errnos, scope, denied, faults: vec![], opened: vec![], calls: 0, fds: vec![] };
    SESSION.with(|x| unsafe { *x.get() = Some(s) });
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ARMED.with(|a| a.set(false));
        }
    }
    let off = Off;
    ARMED.with(|a| a.set(true));
    let r = f();
    drop(off);
    let s = SESSION.with(|x| unsafe { (*x.get()).take() }).expect("harness: session");
    (r, s)
}

/// Decides about a call on `path`.
unsafe fn ask(call: &'static str, path: impl FnOnce(&Session) -> Option<PathBuf>, opens: bool) -> Option<i32> {
    if !ARMED.try_with(|a| a.get()).unwrap_or(false) {
        return None;
    }
    ARMED.with(|a| a.set(false));
    let s = SESSION.with(|x| (*x.get()).as_mut().expect("harness: session"));
    let mut r = None;
    if let Some(path) = path(s) {
        s.calls += 1;
        let denied = opens && s.denied.iter().any(|d| path.starts_with(d)) || s.denied.iter().any(|d| path.starts_with(d) && path != *d);
        if denied {
            s.faults.push(Fault { call, path: path.clone(), errno: libc::EACCES });
            r = Some(libc::EACCES);
        } else if s.budget > 0 && !s.ch.is_null() && path.starts_with(&s.scope) {
            let short: &[i32] = if call == "read" { &[libc::EINTR, SHORT] } else if call == "open" { &[libc::EINTR] } else { &[] };
            let c = (*s.ch).pick(1 + s.errnos.len() + short.len());
            if c > 0 {
                s.budget -= 1;
                let e = if c <= s.errnos.len() { s.errnos[c - 1] } else { short[c - 1 - s.errnos.len()] };
                s.faults.push(Fault { call, path: path.clone(), errno: e });
                r = Some(e);
            }
        }
        if opens && r.is_none() {
            s.opened.push(path);
        }
    }
    ARMED.with(|a| a.set(true));
    r
}

unsafe fn at(p: *const c_char) -> Option<PathBuf> {
    let b = CStr::from_ptr(p).to_bytes();
    (!b.is_empty()).then(|| PathBuf::from(OsStr::from_bytes(b)))
}
fn known(s: &Session, key: usize) -> Option<PathBuf> {
    s.fds.iter().rev().find(|(k, _)| *k == key).map(|(_, p)| p.clone())
}
unsafe fn learn(key: usize, p: *const c_char) {
    if !ARMED.try_with(|a| a.get()).unwrap_or(false) {
        return;
    }
    ARMED.with(|a| a.set(false));
    let s = SESSION.with(|x| (*x.get()).as_mut().expect("harness: session"));
    s.fds.retain(|(k, _)| *k != key);
    if let Some(p) = at(p) {
        s.fds.push((key, p));
    }
    ARMED.with(|a| a.set(true));
}

unsafe fn do_open(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if let Some(e) = ask("open", |_| at(p), true) {
        *libc::__errno_location() = e;
        return -1;
    }
    let fd = ret(raw(libc::SYS_openat, libc::AT_FDCWD as usize, p as usize, flags as usize, mode as usize, 0)) as c_int;
    if fd >= 0 {
        learn(fd as usize, p);
    }
    fd
}

/// # Safety
/// As libc's (declared variadic there; compatible on this platform).
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(p, flags, mode)
}
/// # Safety
/// As libc's.
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(p, flags, mode)
}
/// # Safety
/// As libc's.
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if d == libc::AT_FDCWD {
        return do_open(p, flags, mode);
    }
    ret(raw(libc::SYS_openat, d as usize, p as usize, flags as usize, mode as usize, 0)) as c_int
}
/// # Safety
/// As libc's.
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    let mut n = n;
    if let Some(e) = ask("read", |s| known(s, fd as usize), false) {
        if e == SHORT {
            n = n.min(1);
        } else {
            *libc::__errno_location() = e;
            return -1;
        }
    }
    ret(raw(libc::SYS_read, fd as usize, buf as usize, n, 0, 0)) as ssize_t
}
/// # Safety
/// As libc's.
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, flags: c_int, mask: c_uint, buf: *mut libc::statx) -> c_int {
    if !p.is_null() {
        let fault = ask("stat", |s| if d == libc::AT_FDCWD { at(p) } else { known(s, d as usize) }, false);
        if let Some(e) = fault {
            *libc::__errno_location() = e;
            return -1;
        }
    }
    ret(raw(libc::SYS_statx, d as usize, p as usize, flags as usize, mask as usize, buf as usize)) as c_int
}

unsafe fn next(name: &CStr, slot: &'static std::sync::atomic::AtomicUsize) -> usize {
    use std::sync::atomic::Ordering::Relaxed;
    let mut f = slot.load(Relaxed);
    if f == 0 {
        f = libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) as usize;
        assert!(f != 0, "harness: no {name:?}");
        slot.store(f, Relaxed);
    }
    f
}

/// # Safety
/// As libc's.
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut DIR {
    static F: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    if let Some(e) = ask("opendir", |_| at(p), true) {
        *libc::__errno_location() = e;
        return std::ptr::null_mut();
    }
    let f: unsafe extern "C" fn(*const c_char) -> *mut DIR = std::mem::transmute(next(c"opendir", &F));
    let d = f(p);
    if !d.is_null() {
        learn(d as usize, p);
    }
    d
}
/// # Safety
/// As libc's.
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut DIR) -> *mut dirent64 {
    static F: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    if let Some(e) = ask("readdir", |s| known(s, d as usize), false) {
        *libc::__errno_location() = e;
        return std::ptr::null_mut();
    }
    let f: unsafe extern "C" fn(*mut DIR) -> *mut dirent64 = std::mem::transmute(next(c"readdir64", &F));
    f(d)
}

/// Checks that this thread's calls are seen at all.
pub fn selftest(dir: &Path) {
    let f = dir.join("selftest");
    std::fs::write(&f, b"x").expect("harness: selftest");
    let (_, s) = observed(None, vec![], || {
        let _ = f.is_file();
        let _ = std::fs::read(&f);
        let _ = std::fs::read_dir(dir).map(|d| d.count());
    });
    let ok = s.opened.iter().filter(|p| **p == f).count() == 1 && s.opened.iter().any(|p| p == dir) && s.calls >= 6;
    if !ok {
        engine::harness_error(&format!("file calls are not observed: {} calls, opened {:?}", s.calls, s.opened));
    }
    let (r, _) = observed(None, vec![f.clone()], || std::fs::read(&f));
    if r.is_ok() {
        engine::harness_error("faults are not injected");
    }
    let _ = std::fs::remove_file(&f);
}
