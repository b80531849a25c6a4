//! Interleaving inside the library: where it touches memory that callers share, and where it waits.
//!
//! The check of C08 is built with LLVM's SanitizerCoverage (../instrument.sh), which calls the
//! functions in ../hooks before every load and store of the code compiled with it. Those of library code that touch static data or
//! a tree are points where the scheduler may let another caller go on. Waiting for a lock of std
//! (mutexes and the like end in the futex system call, which is intercepted here) is such a point in
//! every build: the caller that has to wait hands the baton on.

use crate::mem;
use crate::sched::{self, Sched};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

thread_local! {
    /// whom this thread works for, when it has to wait
    static FOR: Cell<(*const Sched, usize)> = const { Cell::new((std::ptr::null(), 0)) };
}

pub use hooks::in_lib;

/// Run library code, or something it calls back.
#[inline(always)]
pub fn library<V>(on: bool, f: impl FnOnce() -> V) -> V {
    struct Back(bool);
    impl Drop for Back {
        #[inline(always)]
        fn drop(&mut self) {
            hooks::set_lib(self.0);
        }
    }
    let _back = Back(hooks::set_lib(on));
    f()
}

/// From here on the accesses of library code matter to static data, the arena and the trees at this
/// address (or not: nothing there).
pub fn watch(lo: usize, len: usize) {
    IN_VAIN.store(0, Relaxed);
    if len == 0 {
        return hooks::tell(shared, &[]);
    }
    let data = std::ptr::addr_of!(__data_start) as usize;
    let end = std::ptr::addr_of!(_end) as usize;
    hooks::tell(shared, &[(data, end - data), mem::arena(), (lo, len)]);
}

pub fn work_for(s: *const Sched, me: usize) {
    FOR.with(|f| f.set((s, me)));
}
pub fn working_for() -> (*const Sched, usize) {
    FOR.with(|f| f.get())
}

/// How often in a row there was nobody to wait for.
static IN_VAIN: AtomicU32 = AtomicU32::new(0);

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

fn shared(p: usize, store: bool) {
    if p == usize::MAX {
        // this thread works undisturbed, but others have to get on should it spin
        let (s, me) = working_for();
        if let Some(s) = unsafe { s.as_ref() } {
            mem::outside(|| s.wait_inside(me));
        }
        return;
    }
    let data = std::ptr::addr_of!(__data_start) as usize;
    let end = std::ptr::addr_of!(_end) as usize;
    let tree = p < data || p >= end;
    if !mem::own(p) {
        mem::outside(|| sched::preempt(p, tree, store));
    }
}

/// What is called in library code to wait: `f` runs with whom this thread works for. None: nobody to
/// hand the baton on.
#[cfg(target_os = "linux")]
fn waiting<V>(f: impl FnOnce(&Sched, usize) -> V) -> Option<V> {
    let (s, me) = working_for();
    // from here on this is no library code: nobody else runs until `f` says so
    (in_lib() && !s.is_null()).then(|| mem::outside(|| f(unsafe { &*s }, me)))
}

/// libc's wrapper around system calls, as std uses it: a caller that waits for a futex inside library
/// code lets another one run and looks again.
#[cfg(all(target_os = "linux", target_arch = "x86_64"))]
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    const FUTEX: i64 = 202;
    const EAGAIN: i32 = 11;
    if n == FUTEX && matches!(b & 0x7f, 0 | 9) {
        let wait = |s: &Sched, me| {
            if (*(a as *const AtomicU32)).load(Relaxed) != c as u32 {
                return crate::sys::error(EAGAIN);
            }
            if s.wait_inside(me) {
                IN_VAIN.store(0, Relaxed);
                return 0;
            }
            // no caller is left who could let it go on; or does the library have threads of its own?
            if IN_VAIN.fetch_add(1, Relaxed) > 100 {
                std::process::exit(crate::check::X_HUNG);
            }
            let briefly = [0i64, 20_000_000];
            if crate::sys::call(FUTEX, [a, b & 0x80, c, briefly.as_ptr() as i64, 0, 0]) == 0 {
                IN_VAIN.store(0, Relaxed);
            }
            0
        };
        if let Some(r) = waiting(wait) {
            return r;
        }
    }
    crate::sys::call(n, [a, b, c, d, e, f])
}

/// Likewise one that gives way to others, or sleeps.
#[cfg(all(target_os = "linux", target_arch = "x86_64"))]
mod gives_way {
    use super::*;

    unsafe fn or_else(n: i64, a: [i64; 6]) -> i32 {
        match waiting(|s, me| s.wait_inside(me)) {
            Some(_) => 0,
            None => crate::sys::call(n, a) as i32,
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn sched_yield() -> i32 {
        or_else(24, [0; 6])
    }
    #[no_mangle]
    pub unsafe extern "C" fn nanosleep(want: i64, left: i64) -> i32 {
        or_else(35, [want, left, 0, 0, 0, 0])
    }
    #[no_mangle]
    pub unsafe extern "C" fn clock_nanosleep(clock: i32, flags: i32, want: i64, left: i64) -> i32 {
        match or_else(230, [clock as i64, flags as i64, want, left, 0, 0]) {
            0 => 0,
            _ => crate::sys::errno(),
        }
    }
}
