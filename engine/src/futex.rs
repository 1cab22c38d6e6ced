//! Interposition of the futex calls made by `std::sync`.
//!
//! Every execution runs on one thread with objects of its own. If the code under test ever waits
//! on a futex, nobody else can wake it: it waits for a lock it holds itself. The wait is allowed a
//! few seconds (a lock shared by several workers, e.g. in a static, would be released meanwhile) and
//! then reported as a deadlock.
use std::arch::asm;

const SYS_FUTEX: i64 = 202;
const WAIT: usize = 0;
const WAIT_BITSET: usize = 9;

#[inline(always)]
unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
         lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

/// A scheduler that takes over the futex calls of the threads it controls; it returns `NOT_MINE` for
/// all others.
pub type Hook = unsafe extern "C" fn(addr: usize, op: usize, val: usize) -> i64;
pub const NOT_MINE: i64 = i64::MIN;
pub static mut HOOK: Option<Hook> = None;

/// Replaces libc's variadic `syscall` for the whole executable (System V ABI, x86-64).
///
/// # Safety
/// As `syscall(2)`.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let ret = |r: i64| {
        if r < 0 && r > -4096 {
            *libc::__errno_location() = -r as i32;
            -1
        } else {
            r
        }
    };
    if n == SYS_FUTEX {
        if let Some(h) = HOOK {
            let r = h(a, b, c);
            if r != NOT_MINE {
                return ret(r);
            }
        }
    }
    if n == SYS_FUTEX && matches!(b & 0x7f, WAIT | WAIT_BITSET) && crate::IN_SUT.try_with(|x| x.get()).unwrap_or(false) {
        // FUTEX_WAIT (relative timeout) on the same word.
        let ts = libc::timespec { tv_sec: 5, tv_nsec: 0 };
        let r = raw(SYS_FUTEX, a, WAIT | (b & 0x80), c, &ts as *const _ as usize, 0, 0);
        if r == -(libc::ETIMEDOUT as i64) {
            if d != 0 {
                return ret(r); // a timed wait: its own timeout
            }
            crate::on_self_deadlock();
        }
        return ret(r);
    }
    ret(raw(n, a, b, c, d, e, f))
}

/// Makes sure the definition above is linked.
pub fn init() {
    std::hint::black_box(syscall as *const () as usize);
}
