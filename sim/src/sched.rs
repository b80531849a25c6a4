//! The simulator: it owns which caller runs, every geometry callback, the lock and the fault plan.
//!
//! Callers are OS threads of which exactly one runs at any time (the holder of the baton). The
//! baton is handed over only at yield points, to the task the scheduler picks.

use crate::rng::{mix, Rng};
use crate::spec::*;
use std::cell::{Cell, UnsafeCell};
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::thread::Thread;

pub const MAIN: usize = usize::MAX;
/// The caller that loads the tree before the run proper: counted, but neither interleaved nor faulted.
pub const PRELOAD: usize = usize::MAX - 1;

/// Payload of an injected panic.
pub struct SimCrash;

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    Ready,
    Blocked(usize),
    Stalled(u64),
    Done,
}

#[derive(Default, Clone)]
pub struct Lock {
    pub readers: usize,
    pub writer: bool,
    pub poisoned: bool,
}

/// Decisions inside library code are numbered by moments, apart from the others.
const INSIDE: u64 = 1 << 40;
/// After so many moments somebody else goes on.
const SPIN: u64 = 20_000;

pub const NF: usize = 12;
pub const FAULT_NAMES: [&str; NF] = [
    "panic_in_insert",
    "panic_in_query",
    "panic_while_moving_stored_datum",
    "unbound",
    "nan",
    "odd",
    "drift",
    "stall",
    "reenter",
    "abandoned_iterator",
    "refused_insert",
    "reenter_other_tree",
];

#[derive(Clone, Default)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub callbacks: u64,
    pub ops: u64,
    pub checks: u64,
    pub faults: [u64; NF],
    pub interleaved_ops: u64,
    pub inserts_ok: u64,
    pub recovered_locks: u64,
    pub ambiguous: u64,
    pub max_stack: u64,
    /// switches inside library code, at an access to shared memory
    pub inside: u64,
    /// times a caller had to wait for a lock of the library's own
    pub waits: u64,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.steps += o.steps;
        self.switches += o.switches;
        self.callbacks += o.callbacks;
        self.ops += o.ops;
        self.checks += o.checks;
        for i in 0..NF {
            self.faults[i] += o.faults[i];
        }
        self.interleaved_ops += o.interleaved_ops;
        self.inserts_ok += o.inserts_ok;
        self.recovered_locks += o.recovered_locks;
        self.ambiguous += o.ambiguous;
        self.max_stack = self.max_stack.max(o.max_stack);
        self.inside += o.inside;
        self.waits += o.waits;
    }
}

enum Policy {
    Seeded { rng: Rng, permille: u32 },
    Explicit(HashMap<u64, usize>),
}

pub struct State {
    status: Vec<Status>,
    policy: Policy,
    decision: u64,
    pub switches: Vec<(u64, usize)>,
    pub log: u64,
    pub stats: Stats,
    pub locks: Vec<Lock>,
    pub violation: Option<Violation>,
    pub stop: bool,
    pub log_lines: Option<Vec<String>>,
    /// the next decision inside library code that is a switch, and how far apart they are
    next_inside: u64,
    last_inside: u64,
    fine: u32,
    /// tree memory that queries wrote to
    written: HashSet<usize>,
}

pub struct Sched {
    cur: AtomicUsize,
    threads: UnsafeCell<Vec<Thread>>,
    main: Thread,
    st: UnsafeCell<State>,
}
// Only the baton holder touches `st`; handing over the baton is a release/acquire pair.
unsafe impl Sync for Sched {}
unsafe impl Send for Sched {}

impl Sched {
    pub fn new(n: usize, trees: usize, spec: &Sched_, fine: u32, log: bool) -> Self {
        let policy = match spec {
            crate::spec::Sched::Seeded { seed, permille } => {
                Policy::Seeded { rng: Rng::new(*seed), permille: *permille }
            }
            crate::spec::Sched::Explicit(v) => Policy::Explicit(v.iter().cloned().collect()),
        };
        Sched {
            cur: AtomicUsize::new(MAIN),
            threads: UnsafeCell::new(vec![]),
            main: std::thread::current(),
            st: UnsafeCell::new(State {
                status: vec![Status::Ready; n],
                policy,
                decision: 0,
                switches: vec![],
                log: 0,
                stats: Stats::default(),
                locks: vec![Lock::default(); trees],
                violation: None,
                stop: false,
                log_lines: if log { Some(vec![]) } else { None },
                next_inside: 0,
                last_inside: 0,
                fine,
                written: HashSet::new(),
            }),
        }
    }

    /// Only for the baton holder.
    #[allow(clippy::mut_from_ref)]
    pub fn st(&self) -> &mut State {
        unsafe { &mut *self.st.get() }
    }

    pub fn log(&self, a: u64, b: u64, c: u64) {
        let st = self.st();
        st.log = mix(st.log ^ mix(a ^ mix(b ^ mix(c))));
    }

    pub fn note(&self, f: impl FnOnce() -> String) {
        if let Some(l) = &mut self.st().log_lines {
            l.push(f());
        }
    }

    pub fn set_threads(&self, t: Vec<Thread>) {
        unsafe { *self.threads.get() = t }
    }

    /// Main: start the run and wait until every task is done.
    pub fn run(&self) {
        let first = self.pick(None);
        self.give(first);
        self.wait(MAIN);
    }

    fn give(&self, to: usize) {
        self.cur.store(to, Ordering::Release);
        if to == MAIN {
            self.main.unpark();
        } else {
            unsafe { (&(*self.threads.get()))[to].unpark() };
        }
    }

    pub fn wait(&self, me: usize) {
        while self.cur.load(Ordering::Acquire) != me {
            std::thread::park();
        }
    }

    /// Pick who runs next. `me` is the running task if it can go on.
    fn pick(&self, me: Option<usize>) -> usize {
        let st = self.st();
        let now = st.stats.steps;
        for s in st.status.iter_mut() {
            if let Status::Stalled(u) = *s {
                if u <= now {
                    *s = Status::Ready;
                }
            }
        }
        if !st.status.iter().any(|s| *s == Status::Ready) {
            // Nothing runnable: time passes until the first stalled caller comes back
            let next = st
                .status
                .iter()
                .filter_map(|s| if let Status::Stalled(u) = s { Some(*u) } else { None })
                .min();
            if let Some(u) = next {
                st.stats.steps = u;
                for s in st.status.iter_mut() {
                    if *s == Status::Stalled(u) {
                        *s = Status::Ready;
                    }
                }
            }
        }
        let ready: Vec<usize> =
            (0..st.status.len()).filter(|&i| st.status[i] == Status::Ready).collect();
        let default = match me {
            Some(m) if st.status[m] == Status::Ready => m,
            _ => match ready.first() {
                Some(&r) => r,
                None => return MAIN,
            },
        };
        if ready.len() < 2 {
            return default;
        }
        let d = st.decision;
        st.decision += 1;
        let choice = match &mut st.policy {
            Policy::Seeded { rng, permille } => {
                let forced = me != Some(default);
                if forced || rng.below(1000) < *permille as usize {
                    *rng.pick(&ready)
                } else {
                    default
                }
            }
            Policy::Explicit(m) => match m.get(&d) {
                Some(t) if ready.contains(t) => *t,
                _ => default,
            },
        };
        if choice != default {
            st.switches.push((d, choice));
        }
        choice
    }

    fn hand_over(&self, me: usize, next: usize) {
        if next != me {
            self.st().stats.switches += 1;
            self.log(1, me as u64, next as u64);
            self.note(|| format!("-- switch {me} -> {next}"));
            self.give(next);
            self.wait(me);
        }
    }

    pub fn yield_point(&self, me: usize) {
        self.st().stats.steps += 1;
        let next = self.pick(Some(me));
        self.hand_over(me, next);
    }

    /// Library code of caller `me` has come to a moment where another caller may go on. `hot`: it is
    /// about to touch memory that matters. `can`: it may be interrupted here.
    fn inside(&self, me: usize, hot: bool, can: bool) {
        let st = self.st();
        let m = hooks::now();
        let mut want = None;
        let due = m >= st.next_inside;
        match &mut st.policy {
            Policy::Seeded { rng, .. } => {
                let limit = if hot { 2000 } else { 300 };
                let go = if hot && can { rng.below(3) == 0 } else { due && st.next_inside > 0 };
                if go && can && st.stats.inside < limit {
                    want = Some(rng.u64());
                }
                if due {
                    // geometrically distributed gaps, the first one too
                    let gap = (rng.unit().max(1e-12).ln() * -(st.fine as f64)) as u64;
                    st.next_inside = if st.stats.inside < 300 { m + 1 + gap } else { u64::MAX };
                }
            }
            Policy::Explicit(v) => {
                if can {
                    want = v.get(&(INSIDE | m)).map(|t| *t as u64);
                }
                if due {
                    let next = v.keys().filter(|d| **d > INSIDE | m).min();
                    st.next_inside = next.map_or(u64::MAX, |d| d & !INSIDE);
                }
            }
        }
        // nobody spins for ever, whatever the plan
        let spins = m >= st.last_inside + SPIN;
        if spins {
            st.last_inside = m;
        }
        hooks::tell_from(st.next_inside.min(st.last_inside + SPIN));
        if !can || !spins && want.is_none() {
            return;
        }
        let n = st.status.len();
        let others: Vec<usize> =
            (1..n).map(|i| (me + i) % n).filter(|t| st.status[*t] == Status::Ready).collect();
        if others.is_empty() {
            return;
        }
        let next = match (&st.policy, want) {
            (Policy::Explicit(_), Some(t)) if others.contains(&(t as usize)) => t as usize,
            (Policy::Seeded { .. }, Some(x)) => others[x as usize % others.len()],
            _ if spins => others[0],
            _ => return,
        };
        if want.is_some() {
            st.switches.push((INSIDE | m, next));
        }
        st.last_inside = m;
        hooks::tell_from(st.next_inside.min(st.last_inside + SPIN));
        st.stats.inside += 1;
        self.hand_over(me, next);
    }

    /// Library code of caller `me` waits for a lock: somebody else goes on. False if nobody can.
    pub fn wait_inside(&self, me: usize) -> bool {
        let st = self.st();
        st.stats.waits += 1;
        st.stats.steps += 1;
        let n = st.status.len();
        if me >= n {
            return false;
        }
        let now = st.stats.steps;
        let until = |s: &Status| if let Status::Stalled(u) = s { Some(*u) } else { None };
        let others = |st: &State| -> Vec<usize> {
            (1..n).map(|i| (me + i) % n).filter(|t| st.status[*t] == Status::Ready).collect()
        };
        if others(st).is_empty() {
            match st.status.iter().filter_map(until).min() {
                Some(u) => st.stats.steps = now.max(u),
                None => return false,
            }
        }
        let now = st.stats.steps;
        for s in st.status.iter_mut() {
            if until(s).is_some_and(|u| u <= now) {
                *s = Status::Ready;
            }
        }
        let others = others(st);
        let d = st.decision;
        st.decision += 1;
        let next = match &mut st.policy {
            Policy::Seeded { rng, .. } => *rng.pick(&others),
            Policy::Explicit(m) => *m.get(&d).filter(|t| others.contains(t)).unwrap_or(&others[0]),
        };
        st.switches.push((d, next));
        st.stats.switches += 1;
        self.log(1, me as u64, next as u64);
        self.note(|| format!("-- task {me} waits for a lock inside the library: {next} goes on"));
        self.give(next);
        // not necessarily the caller's own thread: nobody wakes it up
        while self.cur.load(Ordering::Acquire) != me {
            // nor does it park, which library code may be about to do itself
            crate::sys::nap(30_000);
        }
        true
    }

    pub fn stall(&self, me: usize, n: u64) {
        let st = self.st();
        st.status[me] = Status::Stalled(st.stats.steps + n);
        let next = self.pick(None);
        if next == MAIN {
            return;
        }
        self.hand_over(me, next);
    }

    pub fn done(&self, me: usize) {
        self.st().status[me] = Status::Done;
        let next = self.pick(None);
        self.log(2, me as u64, next as u64);
        self.give(next);
    }

    pub fn lock(&self, me: usize, t: usize, write: bool) {
        loop {
            let st = self.st();
            let l = &mut st.locks[t];
            if !l.writer && (!write || l.readers == 0) {
                if write {
                    l.writer = true;
                } else {
                    l.readers += 1;
                }
                if l.poisoned {
                    // what a service does with a poisoned lock: recover the tree and go on
                    l.poisoned = false;
                    st.stats.recovered_locks += 1;
                }
                return;
            }
            st.status[me] = Status::Blocked(t);
            st.stats.steps += 1;
            let next = self.pick(None);
            assert!(next != MAIN, "simulator deadlock");
            self.hand_over(me, next);
        }
    }

    pub fn unlock(&self, t: usize, write: bool, poison: bool) {
        let st = self.st();
        let l = &mut st.locks[t];
        if write {
            l.writer = false;
            l.poisoned |= poison;
        } else {
            l.readers -= 1;
        }
        for s in st.status.iter_mut() {
            if *s == Status::Blocked(t) {
                *s = Status::Ready;
            }
        }
    }

    pub fn violate(&self, class: &str, msg: String) {
        let st = self.st();
        if st.violation.is_none() {
            st.violation = Some(Violation { class: class.into(), msg });
        }
        st.stop = true;
    }
}

type Sched_ = crate::spec::Sched;

// ------------------------------------------------------------ the seam: geometry callbacks

/// What a callback is to return.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Act {
    Normal,
    Unbound,
    Nan,
    Odd,
    Drift(P2),
}

pub struct Env<'a> {
    pub sched: &'a Sched,
    pub task: usize,
    pub faults: Vec<Fault>,
    pub op: Cell<usize>,
    /// id of the datum being inserted by the current op (MAX: the op is a query)
    pub inserting: Cell<u32>,
    pub quiet: Quiet,
    pub nested: Cell<bool>,
    /// how many more queries are to be started from inside the nested one, and which fault started it
    pub deeper: Cell<(u32, usize)>,
    pub count: Cell<u64>,
    pub fired: std::cell::RefCell<Vec<(u32, FaultKind)>>,
    /// whose geometry was asked for, while that is of interest (C19)
    pub track: Cell<bool>,
    pub seen: std::cell::RefCell<Vec<u32>>,
    pub base: Cell<usize>,
    pub max_stack: Cell<usize>,
    pub reenter: UnsafeCell<Option<Box<dyn Fn(u8, &G) + 'a>>>,
}

/// Neither interleaved nor faulted.
pub struct Quiet(Cell<bool>);
impl Quiet {
    pub fn new() -> Self {
        Quiet(Cell::new(false))
    }
    pub fn get(&self) -> bool {
        self.0.get()
    }
    /// By the thread that works for it.
    pub fn set(&self, yes: bool) {
        self.replace(yes);
    }
    pub fn replace(&self, yes: bool) -> bool {
        hooks::deaf(yes);
        self.0.replace(yes)
    }
}

thread_local! {
    static ENV: Cell<*const ()> = const { Cell::new(std::ptr::null()) };
}

pub fn set_env(e: Option<&Env>) {
    crate::fine::work_for(e.map_or(std::ptr::null(), |e| e.sched as *const Sched), e.map_or(0, |e| e.task));
    hooks::deaf(e.map_or(true, |e| e.quiet.get()));
    ENV.with(|c| c.set(e.map_or(std::ptr::null(), |e| e as *const Env as *const ())));
}

/// Library code has come to a moment of interest: it is about to access `p` (0: nothing in particular).
pub fn preempt(p: usize, tree: bool, store: bool) {
    let e = ENV.with(|c| c.get()) as *const Env;
    let Some(env) = (unsafe { e.as_ref() }) else {
        return;
    };
    if env.quiet.get() || env.task >= env.sched.st().status.len() {
        // nobody else is to run now
        return hooks::tell_from(hooks::now() + 1000);
    }
    let st = env.sched.st();
    // queries must not write to a tree: where one does, it gets interesting
    let mut hot = !tree;
    if tree && p != 0 && env.inserting.get() == u32::MAX {
        hot = if store { !st.written.insert(p) } else { st.written.contains(&p) };
        if store {
            hooks::tell_all();
        }
    }
    env.sched.inside(env.task, hot, true);
}

pub fn stack_addr() -> usize {
    let x = 0u8;
    std::hint::black_box(&x as *const u8 as usize)
}

/// Called by every `as_point`/`as_geom` of the simulated data and comparators.
/// `what`: 0 as_point, 1 as_geom, 2 comparator's as_geom.
#[inline(never)]
pub fn callback(id: u32, what: u8) -> Act {
    let p = ENV.with(|c| c.get());
    if p.is_null() {
        return Act::Normal;
    }
    let env: &Env = unsafe { &*(p as *const Env) };
    crate::mem::outside(|| called(env, id, what))
}

#[inline(always)]
fn called(env: &Env, id: u32, what: u8) -> Act {
    if env.track.get() && !env.nested.get() && what < 2 {
        env.seen.borrow_mut().push(id);
    }
    if env.quiet.get() && env.task != PRELOAD {
        return Act::Normal;
    }
    let depth = env.base.get().wrapping_sub(stack_addr());
    if depth < 1 << 40 && depth > env.max_stack.get() {
        env.max_stack.set(depth);
    }
    let s = env.sched;
    s.st().stats.callbacks += 1;
    if env.task == PRELOAD {
        env.count.set(env.count.get() + 1);
        return Act::Normal;
    }
    s.log(3 + what as u64, env.task as u64, id as u64);
    if env.nested.get() {
        let (more, i) = env.deeper.get();
        if more > 0 {
            env.deeper.set((more - 1, i));
            if let (FaultKind::Reenter(k, g), Some(r)) = (&env.faults[i].kind, unsafe { &*env.reenter.get() }) {
                s.st().stats.faults[if *k < 5 { 8 } else { 11 }] += 1;
                r(*k, g);
            }
        }
        s.yield_point(env.task);
        return Act::Normal;
    }
    let n = env.count.get() + 1;
    env.count.set(n);
    let mut act = Act::Normal;
    let mut stalled = false;
    for (at, f) in env.faults.iter().enumerate() {
        if f.op != env.op.get() || f.ord != n {
            continue;
        }
        let st = s.st();
        let inserting = env.inserting.get();
        let mut fire = |i: usize| {
            st.stats.faults[i] += 1;
            env.fired.borrow_mut().push((id, f.kind.clone()));
        };
        match &f.kind {
            FaultKind::Panic => {
                if inserting == u32::MAX {
                    fire(1);
                } else {
                    fire(0);
                    if id != inserting {
                        st.stats.faults[2] += 1;
                    }
                }
                s.log(10, n, id as u64);
                s.note(|| format!("task {} fault panic in callback {n} for datum {id}", env.task));
                std::panic::resume_unwind(Box::new(SimCrash));
            }
            // The kinds below only make sense for the callback that returns a geometry
            FaultKind::Unbound if what == 1 => {
                fire(3);
                act = Act::Unbound;
            }
            FaultKind::Nan if what < 2 => {
                fire(4);
                act = Act::Nan;
            }
            FaultKind::Odd if what == 1 => {
                fire(5);
                act = Act::Odd;
            }
            FaultKind::Drift(p) if what < 2 => {
                fire(6);
                act = Act::Drift(*p);
            }
            FaultKind::Stall(k) => {
                fire(7);
                stalled = true;
                s.stall(env.task, *k);
            }
            FaultKind::Reenter(k, g) => {
                let r = unsafe { &*env.reenter.get() };
                if let Some(r) = r {
                    fire(if *k < 5 { 8 } else { 11 });
                    env.nested.set(true);
                    // sometimes from inside that query once more, and so on
                    let more = [0, 0, 1, 0, 0, 3, 0, 12][(f.ord + f.op as u64 + f.task as u64) as usize % 8];
                    env.deeper.set((more, at));
                    r(*k, g);
                    env.deeper.set((0, 0));
                    env.nested.set(false);
                }
            }
            _ => {}
        }
    }
    if act != Act::Normal {
        s.note(|| format!("task {} fault {:?} in callback {n} for datum {id}", env.task, act));
    }
    if !stalled {
        s.yield_point(env.task);
    }
    act
}
