//! The allocator seam: every heap block knows which operation's library code allocated it.
//!
//! While library code runs, the thread's scope is the tag of the operation; in callbacks, and
//! everywhere else in the simulator, it is 0 and nothing is counted.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub const TAGS: usize = 4096;

/// Where trees live while their memory is to be told from other memory: blocks are handed out one
/// after the other and never reused in a run.
const ARENA: usize = 1 << 30;
static LO: AtomicUsize = AtomicUsize::new(usize::MAX);
static USED: AtomicUsize = AtomicUsize::new(0);
static BLOCKS: AtomicUsize = AtomicUsize::new(0);

static LIVE: [AtomicI64; TAGS] = [const { AtomicI64::new(0) }; TAGS];
static PEAK: [AtomicI64; TAGS] = [const { AtomicI64::new(0) }; TAGS];
/// Which run the counts belong to: blocks that outlive their run are not counted in the next.
static GEN: AtomicU64 = AtomicU64::new(1);

thread_local! {
    static SCOPE: Cell<u64> = const { Cell::new(0) };
    /// the operation this thread is executing
    static OP: Cell<u64> = const { Cell::new(0) };
    /// its blocks go to the arena
    static TO_ARENA: Cell<bool> = const { Cell::new(false) };
}

pub struct Counting;

fn head(l: &Layout) -> usize {
    l.align().max(16)
}

fn scope() -> u64 {
    SCOPE.try_with(|s| s.get()).unwrap_or(0)
}

fn add(tag: u64, n: i64) {
    if tag != 0 && tag >> 16 == GEN.load(Relaxed) {
        let i = (tag & 0xffff) as usize;
        let now = LIVE[i].fetch_add(n, Relaxed) + n;
        if n > 0 {
            PEAK[i].fetch_max(now, Relaxed);
        }
    }
}

/// Is this the address of tree memory?
pub fn in_arena(p: usize) -> bool {
    p.wrapping_sub(LO.load(Relaxed)) < ARENA
}

pub fn arena() -> (usize, usize) {
    (LO.load(Relaxed), ARENA)
}

/// Use the arena from here on, from its start if nothing in it is left.
pub fn arena_begin() {
    if LO.load(Relaxed) == usize::MAX {
        let p = crate::sys::reserve(ARENA);
        if p == 0 {
            return;
        }
        LO.store(p, Relaxed);
    }
    if BLOCKS.load(Relaxed) == 0 {
        USED.store(0, Relaxed);
    }
}

/// What `f` makes the library allocate belongs to a tree.
pub fn for_tree<V>(on: bool, f: impl FnOnce() -> V) -> V {
    struct Back(bool);
    impl Drop for Back {
        fn drop(&mut self) {
            TO_ARENA.with(|s| s.set(self.0));
        }
    }
    let _back = Back(TO_ARENA.with(|s| s.replace(on)));
    f()
}

unsafe fn raw_alloc(l: Layout) -> *mut u8 {
    let arena = TO_ARENA.try_with(|a| a.get()).unwrap_or(false) && crate::fine::in_lib();
    if arena && LO.load(Relaxed) != usize::MAX {
        let size = (l.size() + l.align() + 15) & !15;
        let at = USED.fetch_add(size, Relaxed);
        if at + size <= ARENA {
            BLOCKS.fetch_add(1, Relaxed);
            return ((LO.load(Relaxed) + at + l.align() - 1) & !(l.align() - 1)) as *mut u8;
        }
    }
    System.alloc(l)
}

unsafe fn raw_free(p: *mut u8, l: Layout) {
    if in_arena(p as usize) {
        BLOCKS.fetch_sub(1, Relaxed);
    } else {
        System.dealloc(p, l);
    }
}

unsafe fn raw_realloc(p: *mut u8, l: Layout, n: usize) -> *mut u8 {
    if in_arena(p as usize) || TO_ARENA.try_with(|a| a.get()).unwrap_or(false) {
        let q = raw_alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            raw_free(p, l);
        }
        return q;
    }
    System.realloc(p, l, n)
}

// The block is preceded by its tag, at the distance its alignment asks for.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let h = head(&l);
        let Ok(big) = Layout::from_size_align(l.size().wrapping_add(h).max(l.size()), h) else {
            return std::ptr::null_mut();
        };
        let p = raw_alloc(big);
        if p.is_null() {
            return p;
        }
        let tag = scope();
        *(p.add(h) as *mut u64).sub(1) = tag;
        add(tag, l.size() as i64);
        p.add(h)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = head(&l);
        add(*(p as *mut u64).sub(1), -(l.size() as i64));
        raw_free(p.sub(h), Layout::from_size_align_unchecked(l.size() + h, h));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let h = head(&l);
        let Some(big) = n.checked_add(h).filter(|b| *b <= isize::MAX as usize - h) else {
            return std::ptr::null_mut();
        };
        let old = *(p as *mut u64).sub(1);
        let q = raw_realloc(p.sub(h), Layout::from_size_align_unchecked(l.size() + h, h), big);
        if q.is_null() {
            return q;
        }
        add(old, -(l.size() as i64));
        let tag = scope();
        *(q.add(h) as *mut u64).sub(1) = tag;
        add(tag, n as i64);
        q.add(h)
    }
}

/// Start counting for a new run.
pub fn begin() {
    GEN.fetch_add(1, Relaxed);
    for i in 0..TAGS {
        LIVE[i].store(0, Relaxed);
        PEAK[i].store(0, Relaxed);
    }
}

/// A tag of the current run.
pub fn tag(i: usize) -> u64 {
    GEN.load(Relaxed) << 16 | (i % TAGS) as u64
}

pub fn live(i: usize) -> i64 {
    LIVE[i % TAGS].load(Relaxed)
}
pub fn peak(i: usize) -> i64 {
    PEAK[i % TAGS].load(Relaxed)
}
pub fn total() -> i64 {
    LIVE.iter().map(|x| x.load(Relaxed)).sum()
}

/// Run with another scope; put the old one back however it ends.
pub fn scoped<V>(tag: u64, f: impl FnOnce() -> V) -> V {
    struct Back(u64);
    impl Drop for Back {
        fn drop(&mut self) {
            SCOPE.with(|s| s.set(self.0));
        }
    }
    let _back = Back(SCOPE.with(|s| s.replace(tag)));
    f()
}

/// From here on this thread's library code works for that operation (0: not counted).
pub fn set_op(tag: u64) -> u64 {
    OP.with(|o| o.replace(tag))
}
pub fn in_library<V>(f: impl FnOnce() -> V) -> V {
    crate::fine::library(true, || scoped(OP.with(|o| o.get()), f))
}
pub fn outside<V>(f: impl FnOnce() -> V) -> V {
    crate::fine::library(false, || scoped(0, f))
}

/// Is this one of the statics above?
pub fn own(p: usize) -> bool {
    fn at<X>(x: &X, p: usize) -> bool {
        p.wrapping_sub(x as *const X as usize) < std::mem::size_of::<X>()
    }
    at(&LO, p) || at(&USED, p) || at(&BLOCKS, p) || at(&LIVE, p) || at(&PEAK, p) || at(&GEN, p)
}
