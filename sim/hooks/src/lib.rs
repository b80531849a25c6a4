//! What LLVM's SanitizerCoverage calls at every basic block, load and store of the code compiled with it (see
//! ../instrument.sh). A crate of its own, because it must not be compiled that way itself.

use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, AtomicUsize, Ordering::Relaxed};

const IN: u8 = 1;
const DEAF: u8 = 2;
thread_local! {
    /// is library code running, and does anybody mind?
    static LIB: Cell<u8> = const { Cell::new(DEAF) };
}

pub fn in_lib() -> bool {
    LIB.try_with(|l| l.get() & IN != 0).unwrap_or(false)
}

/// Gives back what it was.
pub fn set_lib(on: bool) -> bool {
    LIB.try_with(|l| l.replace(l.get() & DEAF | if on { IN } else { 0 }) & IN != 0).unwrap_or(false)
}

/// Whether nobody is to be told of moments of this thread.
pub fn deaf(yes: bool) {
    let _ = LIB.try_with(|l| l.set(l.get() & IN | if yes { DEAF } else { 0 }));
}

fn told_of() -> bool {
    LIB.try_with(|l| l.get() == IN).unwrap_or(false)
}

/// Whom to tell about moments of library code, and whose memory counts: begins and lengths, static data first.
static TOLD: AtomicPtr<()> = AtomicPtr::new(std::ptr::null_mut());
static RANGES: [[AtomicUsize; 2]; 3] = [const { [const { AtomicUsize::new(0) }; 2] }; 3];
/// Moments are counted: basic blocks, and accesses to those ranges.
static NOW: AtomicU64 = AtomicU64::new(0);
/// From when on to tell of any moment. Before that only of accesses to static data and of stores.
static NEXT: AtomicU64 = AtomicU64::new(0);
/// The moments of threads nobody is told of, but for every LONG'th (as at address MAX).
static SPUN: AtomicU64 = AtomicU64::new(0);
const LONG: u64 = 1_000_000;
/// Or of every access.
static ALL: AtomicBool = AtomicBool::new(false);

/// Tell `f` of moments (no ranges: of none). It is not told of its own.
pub fn tell(f: fn(usize, bool), ranges: &[(usize, usize)]) {
    for (i, r) in RANGES.iter().enumerate() {
        let (lo, len) = ranges.get(i).copied().unwrap_or((0, 0));
        r[0].store(lo, Relaxed);
        r[1].store(len, Relaxed);
    }
    NOW.store(0, Relaxed);
    NEXT.store(0, Relaxed);
    SPUN.store(0, Relaxed);
    ALL.store(false, Relaxed);
    TOLD.store(f as *mut (), Relaxed);
}
pub fn now() -> u64 {
    NOW.load(Relaxed)
}
pub fn tell_from(m: u64) {
    NEXT.store(m, Relaxed);
}
pub fn tell_all() {
    ALL.store(true, Relaxed);
}

fn within(i: usize, p: usize) -> bool {
    p.wrapping_sub(RANGES[i][0].load(Relaxed)) < RANGES[i][1].load(Relaxed)
}

fn access(p: usize, store: bool) {
    if !told_of() {
        return;
    }
    let data = within(0, p);
    if data || within(1, p) || within(2, p) {
        let now = NOW.load(Relaxed) + 1;
        NOW.store(now, Relaxed);
        if data || store || now >= NEXT.load(Relaxed) || ALL.load(Relaxed) {
            told(p, store);
        }
    }
}

#[inline(never)]
fn told(p: usize, store: bool) {
    let f = TOLD.load(Relaxed);
    set_lib(false);
    let f: fn(usize, bool) = unsafe { std::mem::transmute(f) };
    f(p, store);
    set_lib(true);
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    if RANGES[0][1].load(Relaxed) == 0 {
        return;
    }
    let lib = LIB.try_with(|l| l.get()).unwrap_or(0);
    if lib == IN | DEAF {
        let spun = SPUN.load(Relaxed) + 1;
        SPUN.store(spun, Relaxed);
        if spun % LONG == 0 {
            told(usize::MAX, false);
        }
    } else if lib == IN {
        let now = NOW.load(Relaxed) + 1;
        NOW.store(now, Relaxed);
        if now >= NEXT.load(Relaxed) {
            told(0, false);
        }
    }
}

macro_rules! hooks {
    ($($name:ident $store:expr;)*) => {
        $(
            #[no_mangle]
            pub extern "C" fn $name(p: *const u8) {
                access(p as usize, $store);
            }
        )*
    };
}
hooks! {
    __sanitizer_cov_load1 false;
    __sanitizer_cov_load2 false;
    __sanitizer_cov_load4 false;
    __sanitizer_cov_load8 false;
    __sanitizer_cov_load16 false;
    __sanitizer_cov_store1 true;
    __sanitizer_cov_store2 true;
    __sanitizer_cov_store4 true;
    __sanitizer_cov_store8 true;
    __sanitizer_cov_store16 true;
}

/// LLVM's ThreadSanitizer pass turns atomic accesses into calls (and nothing else, in functions it is
/// not asked to sanitize): a moment, the access itself as one step, and unless it only reads a moment again
/// (the pass leaves out a few, like fetch_max).
mod atomics {
    use super::*;
    use std::sync::atomic::{fence, AtomicU16, AtomicU32, AtomicU8, Ordering::SeqCst};

    fn atomic(p: usize, store: bool) {
        if told_of() && RANGES[0][1].load(Relaxed) != 0 {
            NOW.store(NOW.load(Relaxed) + 1, Relaxed);
            told(p, store);
        }
    }

    macro_rules! sized {
        ($t:ty, $a:ty, $load:ident $store:ident $cas:ident $($name:ident $op:ident)*) => {
            #[no_mangle]
            pub unsafe extern "C" fn $load(p: *const $a, _: i32) -> $t {
                atomic(p as usize, false);
                (*p).load(SeqCst)
            }
            #[no_mangle]
            pub unsafe extern "C" fn $store(p: *const $a, v: $t, _: i32) {
                atomic(p as usize, true);
                (*p).store(v, SeqCst);
                atomic(p as usize, false);
            }
            #[no_mangle]
            pub unsafe extern "C" fn $cas(p: *const $a, old: $t, new: $t, _: i32, _: i32) -> $t {
                atomic(p as usize, true);
                let was = (*p).compare_exchange(old, new, SeqCst, SeqCst).unwrap_or_else(|x| x);
                atomic(p as usize, false);
                was
            }
            $(
                #[no_mangle]
                pub unsafe extern "C" fn $name(p: *const $a, v: $t, _: i32) -> $t {
                    atomic(p as usize, true);
                    let was = (*p).$op(v, SeqCst);
                    atomic(p as usize, false);
                    was
                }
            )*
        };
    }
    sized!(u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_compare_exchange_val
        __tsan_atomic8_exchange swap __tsan_atomic8_fetch_add fetch_add __tsan_atomic8_fetch_sub fetch_sub
        __tsan_atomic8_fetch_and fetch_and __tsan_atomic8_fetch_or fetch_or
        __tsan_atomic8_fetch_xor fetch_xor __tsan_atomic8_fetch_nand fetch_nand);
    sized!(u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_compare_exchange_val
        __tsan_atomic16_exchange swap __tsan_atomic16_fetch_add fetch_add __tsan_atomic16_fetch_sub fetch_sub
        __tsan_atomic16_fetch_and fetch_and __tsan_atomic16_fetch_or fetch_or
        __tsan_atomic16_fetch_xor fetch_xor __tsan_atomic16_fetch_nand fetch_nand);
    sized!(u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_compare_exchange_val
        __tsan_atomic32_exchange swap __tsan_atomic32_fetch_add fetch_add __tsan_atomic32_fetch_sub fetch_sub
        __tsan_atomic32_fetch_and fetch_and __tsan_atomic32_fetch_or fetch_or
        __tsan_atomic32_fetch_xor fetch_xor __tsan_atomic32_fetch_nand fetch_nand);
    sized!(u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_compare_exchange_val
        __tsan_atomic64_exchange swap __tsan_atomic64_fetch_add fetch_add __tsan_atomic64_fetch_sub fetch_sub
        __tsan_atomic64_fetch_and fetch_and __tsan_atomic64_fetch_or fetch_or
        __tsan_atomic64_fetch_xor fetch_xor __tsan_atomic64_fetch_nand fetch_nand);

    #[no_mangle]
    pub extern "C" fn __tsan_atomic_thread_fence(_: i32) {
        fence(SeqCst);
    }
    #[no_mangle]
    pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {
        std::sync::atomic::compiler_fence(SeqCst);
    }
}
