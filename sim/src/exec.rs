//! Executes one program under one schedule and checks it.

use crate::mem;
use crate::oracle::{self, admit, Admit, Cell as RefCell_, Item, Touch};
use crate::sched::{self, Env, SimCrash, Stats, Violation, MAIN};
use crate::spec::*;
use crate::world::*;
use quadtree::Error;
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering;
use std::sync::Arc;

pub struct Outcome {
    pub violation: Option<Violation>,
    pub hash: u64,
    pub shape: u64,
    pub stats: Stats,
    pub switches: Vec<Vec<(u64, usize)>>,
    pub log: Vec<String>,
}

pub fn execute(pr: &Program, log: bool) -> Outcome {
    match pr.cfg.num {
        Num::F64 => go::<f64>(pr, log),
        Num::F32 => go::<f32>(pr, log),
        Num::I32 => go::<i32>(pr, log),
        Num::I64 => go::<i64>(pr, log),
    }
}

fn go<T: SimNum>(pr: &Program, log: bool) -> Outcome {
    let mut out = Outcome {
        violation: None,
        hash: 0,
        shape: 0,
        stats: Stats::default(),
        switches: vec![],
        log: vec![],
    };
    let mut first: Option<Vec<Line>> = None;
    for (i, s) in pr.scheds.iter().enumerate() {
        let mut one = run_one::<T>(pr, s, log);
        if one.kept.is_some() && one.violation.is_none() {
            // set up once per process, or kept by every operation?
            let again = [run_one::<T>(pr, s, false), run_one::<T>(pr, s, false)];
            if again.iter().all(|o| o.kept.is_some()) {
                one.violation = one.kept.take();
            }
        }
        out.hash = crate::rng::mix(out.hash ^ one.hash);
        out.shape = crate::rng::mix(out.shape ^ one.shape);
        out.stats.add(&one.stats);
        out.switches.push(one.switches);
        out.log.push(format!("== schedule {i}"));
        out.log.extend(one.log);
        if let Some(v) = one.violation {
            out.violation = Some(v);
            return out;
        }
        if pr.prop == 12 {
            out.stats.checks += 1;
            match &first {
                None => first = Some(one.print),
                Some(f) => {
                    if let Some(v) = print_diff(f, &one.print, &format!("schedule {i}")) {
                        out.violation = Some(v);
                        return out;
                    }
                }
            }
        }
    }
    if pr.prop == 12 {
        let again = permuted::<T>(pr);
        out.stats.checks += 1;
        if let Some(f) = &first {
            if let Some(v) = print_diff(f, &again, "reversed order, one caller") {
                out.violation = Some(v);
            }
        }
    }
    out
}

/// One observation: text compared exactly, numbers compared up to rounding.
#[derive(Clone, Debug)]
struct Line {
    text: String,
    nums: Vec<f64>,
    tol: f64,
}

fn line(text: String) -> Line {
    Line { text, nums: vec![], tol: 0.0 }
}

fn line_eq(a: &Line, b: &Line) -> bool {
    a.text == b.text
        && a.nums.len() == b.nums.len()
        && a.nums.iter().zip(&b.nums).all(|(x, y)| x == y || (x - y).abs() <= a.tol)
}

fn print_diff(a: &[Line], b: &[Line], what: &str) -> Option<Violation> {
    let (x, y) = match a.iter().zip(b).find(|(x, y)| !line_eq(x, y)) {
        Some((x, y)) => (format!("{} {:?}", x.text, x.nums), format!("{} {:?}", y.text, y.nums)),
        None if a.len() == b.len() => return None,
        None => (format!("{} lines", a.len()), format!("{} lines", b.len())),
    };
    let class = x.split(' ').next().unwrap_or("").to_string();
    Some(Violation {
        class: format!("order_{class}"),
        msg: format!("first schedule gives `{}`, {what} gives `{}`", cut(&x), cut(&y)),
    })
}

fn cut(s: &str) -> String {
    if s.len() > 400 {
        format!("{}...", s.chars().take(400).collect::<String>())
    } else {
        s.to_string()
    }
}

// ---------------------------------------------------------------- model

struct Model<T: SimNum> {
    acc: Vec<Datum>,
    ids: HashMap<u32, usize>,
    /// an insert failed or crashed part way: a cell may be subdivided early
    early: bool,
    /// a datum reported a wrong place while being placed: only counts are known
    misplaced: bool,
    /// rounding of cell borders may matter for some datum
    ambiguous: bool,
    cells: Option<RefCell_<T>>,
    print: Option<(usize, Vec<u32>, String)>,
    asked: u32,
    control: Option<Tree<T>>,
}

impl<T: SimNum> Model<T> {
    fn new() -> Self {
        Model {
            acc: vec![],
            ids: HashMap::new(),
            early: false,
            misplaced: false,
            ambiguous: false,
            cells: None,
            print: None,
            asked: 0,
            control: None,
        }
    }
    fn changed(&mut self) {
        self.cells = None;
        self.print = None;
        self.control = None;
    }
    fn push(&mut self, d: &Datum) {
        self.ids.insert(d.id, self.acc.len());
        self.acc.push(d.clone());
        self.changed();
    }
    fn cells(&mut self, cfg: &Cfg) -> &RefCell_<T> {
        if self.cells.is_none() {
            let items: Vec<Item<T>> =
                self.acc.iter().filter_map(|d| oracle::item(cfg.kind, d)).collect();
            let c = RefCell_::build(cfg, &items);
            self.ambiguous = !cfg.exact && c.ambiguous(cfg.kind, &items);
            self.cells = Some(c);
        }
        self.cells.as_ref().unwrap()
    }
}

struct World<'a, T: SimNum> {
    pr: &'a Program,
    cfg: Cfg,
    sched: &'a sched::Sched,
    trees: Vec<UnsafeCell<Tree<T>>>,
    models: Vec<UnsafeCell<Model<T>>>,
    alts: Arc<Alts<T>>,
    quiet_alts: Arc<Alts<T>>,
    verdicts: UnsafeCell<BTreeMap<(usize, usize), String>>,
    /// count the heap (C18)
    mem: bool,
    /// heap tags of inserts that were refused
    refused: UnsafeCell<Vec<usize>>,
}
// Only the baton holder touches the cells.
unsafe impl<T: SimNum> Sync for World<'_, T> {}

struct One {
    violation: Option<Violation>,
    hash: u64,
    shape: u64,
    stats: Stats,
    switches: Vec<(u64, usize)>,
    log: Vec<String>,
    print: Vec<Line>,
    /// memory that was not given back (C18): a violation if it happens every time
    kept: Option<Violation>,
}

thread_local! {
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

enum Res<V> {
    Ok(V),
    Crash,
    Panic(String),
}

fn guarded<V>(env: Option<&Env>, f: impl FnOnce() -> V) -> Res<V> {
    let _ = env;
    match mem::in_library(|| catch_unwind(AssertUnwindSafe(f))) {
        Ok(v) => Res::Ok(v),
        Err(e) if e.is::<SimCrash>() => Res::Crash,
        Err(_) => Res::Panic(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

/// The effective settings (default constructor: the documented defaults).
pub fn effective(c: &Cfg) -> Cfg {
    let mut c = c.clone();
    if c.default_ctor {
        c.depth = quadtree::DEFAULT_MAX_DEPTH;
        c.cap = quadtree::DEFAULT_MAX_CHILDREN;
    }
    c
}

fn run_one<T: SimNum>(pr: &Program, spec: &Sched, log: bool) -> One {
    let n = pr.tasks.len();
    let cfg = effective(&pr.cfg);
    let sched = sched::Sched::new(n, cfg.trees, spec, pr.fine, log);
    let alts = Alts::<T>::new(pr);
    let quiet_alts = Alts::<T>::new(pr);
    let mem = pr.prop == 18;
    if mem {
        mem::begin();
        mem::set_op(mem::tag(TAG_NEW));
    }
    if pr.fine > 0 {
        mem::arena_begin();
    }
    let w = World {
        pr,
        sched: &sched,
        trees: (0..cfg.trees)
            .map(|_| UnsafeCell::new(mem::for_tree(pr.fine > 0, || mem::in_library(|| Tree::new(&pr.cfg)))))
            .collect(),
        models: (0..cfg.trees).map(|_| UnsafeCell::new(Model::new())).collect(),
        cfg,
        alts: alts.clone(),
        quiet_alts,
        verdicts: UnsafeCell::new(BTreeMap::new()),
        mem,
        refused: UnsafeCell::new(vec![]),
    };
    if pr.fine > 0 {
        crate::fine::watch(w.trees.as_ptr() as usize, std::mem::size_of_val(&w.trees[..]));
    }
    w.count_for(TAG_PRELOAD);
    // Preload: one caller, no faults, but counted against the budgets
    {
        let env = new_env(&sched, sched::PRELOAD, vec![]);
        env.quiet.set(true);
        for (i, (t, d)) in pr.init.iter().enumerate() {
            w.insert(&env, usize::MAX, i, *t, d);
            if sched.st().stop {
                break;
            }
        }
    }
    if !sched.st().stop && n > 0 {
        std::thread::scope(|sc| {
            let mut handles = vec![];
            for me in 0..n {
                let mut b = std::thread::Builder::new();
                if pr.stack_kib > 0 {
                    b = b.stack_size(pr.stack_kib * 1024);
                }
                let w = &w;
                let h = b
                    .spawn_scoped(sc, move || {
                        w.sched.wait(me);
                        if let Err(e) = catch_unwind(AssertUnwindSafe(|| w.task(me))) {
                            let m = LAST_PANIC.with(|p| p.borrow().clone());
                            let _ = e;
                            crate::check::panic_exit(&m);
                        }
                        sched::set_env(None);
                        w.sched.done(me);
                    })
                    .expect("thread");
                handles.push(h.thread().clone());
            }
            sched.set_threads(handles);
            sched.run();
        });
    }
    let mut print = vec![];
    let mut shape = 0;
    if !sched.st().stop {
        let env = new_env(&sched, MAIN, vec![]);
        env.quiet.set(true);
        w.count_for(TAG_AUDIT);
        for t in 0..w.cfg.trees {
            w.audit(&env, t);
            if sched.st().stop {
                break;
            }
        }
    }
    if !sched.st().stop {
        let accepted: usize = w.models.iter().map(|m| unsafe { (*m.get()).acc.len() }).sum();
        let live = alts.live.load(Ordering::Relaxed);
        w.check(&[1], live == accepted as i64, "live_objects", || {
            format!("{live} data objects are alive but {accepted} were accepted")
        });
    }
    for t in 0..w.cfg.trees {
        if let Res::Ok(s) = guarded(None, || w.tree(t).show()) {
            let counts: String =
                s.lines().map(|l| format!("{}{}", l.len() - l.trim_start().len(), l.rsplit(':').next().unwrap_or(""))).collect();
            shape = hash_str(shape, &counts);
        }
    }
    if pr.prop == 12 && !sched.st().stop {
        print = w.fingerprint();
    }
    let mut kept = None;
    if mem && !sched.st().stop {
        kept = w.memory();
    }
    crate::fine::watch(0, 0);
    let World { trees, models, .. } = w;
    drop(trees);
    if mem {
        mem::set_op(0);
        let left = mem::total();
        if kept.is_none() && left != 0 && !sched.st().stop {
            kept = Some(Violation {
                class: "memory_leak".into(),
                msg: format!("{left} bytes are still allocated after the trees were dropped"),
            });
        }
    }
    drop(models);
    let st = sched.st();
    if !st.stop && pr.prop == 1 {
        st.stats.checks += 1;
        let live = alts.live.load(Ordering::Relaxed);
        if live != 0 {
            st.violation = Some(Violation {
                class: "leak".into(),
                msg: format!("{live} data objects still alive after the tree was dropped"),
            });
        }
    }
    One {
        violation: st.violation.clone(),
        hash: st.log,
        shape,
        stats: st.stats.clone(),
        switches: st.switches.clone(),
        log: st.log_lines.take().unwrap_or_default(),
        print,
        kept,
    }
}

fn hash_str(mut h: u64, s: &str) -> u64 {
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    crate::rng::mix(h)
}

fn new_env<'a>(sched: &'a sched::Sched, task: usize, faults: Vec<Fault>) -> Env<'a> {
    Env {
        sched,
        task,
        faults,
        op: Cell::new(0),
        inserting: Cell::new(u32::MAX),
        quiet: sched::Quiet::new(),
        nested: Cell::new(false),
        deeper: Cell::new((0, 0)),
        count: Cell::new(0),
        fired: RefCell::new(vec![]),
        track: Cell::new(false),
        seen: RefCell::new(vec![]),
        base: Cell::new(sched::stack_addr()),
        max_stack: Cell::new(0),
        reenter: UnsafeCell::new(None),
    }
}

/// Runs `f` on a thread of its own while this one waits: alone is not inside of another operation.
fn apart<R>(f: impl FnOnce() -> R) -> R {
    struct Whole<X>(X);
    // only one of the two threads runs
    unsafe impl<X> Send for Whole<X> {}
    let f = Whole((f, crate::fine::working_for()));
    std::thread::scope(|s| {
        let run = move || {
            let f = f;
            let (f, me) = f.0;
            crate::fine::work_for(me.0, me.1);
            Whole(f())
        };
        s.spawn(run).join().expect("no panic").0
    })
}

/// What a query answered.
#[derive(Clone, Debug)]
pub enum Ans {
    Find(Result<(u32, f64), Error>),
    Knn(Result<Vec<(u32, f64)>, Error>),
    /// items, and whether the iterator said it ended
    Sorted(Vec<(u32, f64)>, bool),
    Set(Vec<u32>, bool),
}

const C_FIND: &[u32] = &[4, 9];

/// A query on its way.
enum Cur<'b> {
    Start,
    Sorted(Box<dyn Iterator<Item = (u32, f64)> + 'b>),
    Set(Box<dyn Iterator<Item = u32> + 'b>),
    Done,
}

struct Part<'b, T: SimNum> {
    op: &'b Op,
    tree: &'b Tree<T>,
    cmp: Option<&'b Cmp<T>>,
    probe: Option<&'b SimDatum<T>>,
    n: usize,
    cur: Cur<'b>,
    list: Vec<(u32, f64)>,
    set: Vec<u32>,
    steps: u64,
    res: Option<Res<Ans>>,
    /// whose geometry it asked for, and after how many items (C19)
    seen: Vec<(u32, usize)>,
}

/// Heap tags that are not an operation's.
const TAG_NEW: usize = 1;
const TAG_PRELOAD: usize = 2;
const TAG_OPS: usize = 3;
const TAG_PRIVATE: usize = mem::TAGS - 2;
const TAG_AUDIT: usize = mem::TAGS - 1;

impl<'a, T: SimNum> World<'a, T> {
    #[allow(clippy::mut_from_ref)]
    fn tree(&self, t: usize) -> &mut Tree<T> {
        unsafe { &mut *self.trees[t].get() }
    }
    #[allow(clippy::mut_from_ref)]
    fn model(&self, t: usize) -> &mut Model<T> {
        unsafe { &mut *self.models[t].get() }
    }
    fn on(&self, props: &[u32]) -> bool {
        props.contains(&self.pr.prop)
    }
    /// A check of the listed properties: only the property of this run counts.
    fn check(&self, props: &[u32], ok: bool, class: &str, msg: impl FnOnce() -> String) {
        if self.on(props) {
            self.sched.st().stats.checks += 1;
            if !ok {
                self.sched.violate(class, msg());
            }
        }
    }

    // ------------------------------------------------------------ heap (C18)

    fn count_for(&self, tag: usize) {
        if self.mem {
            mem::set_op(mem::tag(tag));
        }
    }

    fn tag_of(&self, me: usize, i: usize) -> usize {
        TAG_OPS + self.pr.tasks[..me].iter().map(|t| t.len()).sum::<usize>() + i
    }

    /// Sizes of everything the library allocated in this run, while the trees are still there.
    fn memory(&self) -> Option<Violation> {
        let mut queries = vec![TAG_AUDIT, TAG_PRIVATE];
        queries.extend(unsafe { &*self.refused.get() });
        let mut all = vec![];
        for (me, ops) in self.pr.tasks.iter().enumerate() {
            for (i, op) in ops.iter().enumerate() {
                let tag = self.tag_of(me, i);
                all.push((tag, op));
                if !matches!(op, Op::Insert { .. }) {
                    queries.push(tag);
                }
            }
        }
        let (mut n, mut cells, mut moved) = (0, 0, 0usize);
        for t in 0..self.cfg.trees {
            n += self.model(t).acc.len();
            let shown = match guarded(None, || self.tree(t).show()) {
                Res::Ok(s) => s.lines().count(),
                _ => 0,
            };
            let mut v = vec![];
            let m = self.model(t);
            m.cells(&self.cfg);
            m.cells.as_ref().unwrap().walk(&mut v);
            // a split may keep the room of the data that it moved on
            let here = shown.max(v.len());
            moved += here / 4 * m.acc.len().min(self.cfg.cap);
            cells += here;
        }
        let moved = moved as i64;
        let (n, cells, one) = (n as i64, cells as i64, std::mem::size_of::<SimDatum<T>>() as i64);
        let used: i64 = mem::total() - queries.iter().map(|t| mem::live(*t)).sum::<i64>();
        let budget = 16384 + 1024 * cells + one * (4 * n + 2 * moved + 16 * cells);
        self.check(&[18], used <= budget, "memory_tree", || {
            format!("trees of {n} data in {cells} cells take {used} bytes (budget {budget})")
        });
        let budget = 65536 + 2048 * self.cfg.depth as i64 + (256 + 4 * one) * (n + cells);
        for (tag, op) in all {
            let peak = mem::peak(tag);
            self.check(&[18], peak <= budget, "memory_peak", || {
                format!("{} took {peak} bytes with at most {n} data in {cells} cells stored (budget {budget})", op.text())
            });
        }
        self.sched.st().stats.checks += 1;
        queries.iter().find(|t| mem::live(**t) != 0).map(|t| Violation {
            class: "memory_kept".into(),
            msg: format!("{} bytes are still allocated for an operation that is over (tag {t})", mem::live(*t)),
        })
    }

    // ------------------------------------------------------------ callers

    fn task(&self, me: usize) {
        let faults = self.pr.faults.iter().filter(|f| f.task == me).cloned().collect();
        let env = new_env(self.sched, me, faults);
        sched::set_env(Some(&env));
        for (i, op) in self.pr.tasks[me].iter().enumerate() {
            if self.sched.st().stop {
                break;
            }
            env.op.set(i);
            self.count_for(self.tag_of(me, i));
            env.count.set(0);
            env.max_stack.set(0);
            env.fired.borrow_mut().clear();
            self.sched.st().stats.ops += 1;
            self.sched.note(|| format!("task {me} op {i}: {}", op.text()));
            match op {
                Op::Insert { t, d } => {
                    self.sched.lock(me, *t, true);
                    let poison = self.insert(&env, me, i, *t, d);
                    self.sched.unlock(*t, true, poison);
                }
                Op::Audit { t } => {
                    self.sched.lock(me, *t, false);
                    env.quiet.set(true);
                    self.audit(&env, *t);
                    env.quiet.set(false);
                    self.sched.unlock(*t, false, false);
                }
                _ => {
                    // in ascending order, so that nobody waits in a circle
                    for t in op.trees() {
                        self.sched.lock(me, t, false);
                    }
                    self.query(&env, me, i, op);
                    for t in op.trees() {
                        self.sched.unlock(t, false, false);
                    }
                }
            }
            self.sched.yield_point(me);
        }
    }

    fn insert(&self, env: &Env, me: usize, i: usize, t: usize, d: &Datum) -> bool {
        let n0 = self.model(t).acc.len();
        let sd = SimDatum::new(d, &self.alts);
        env.inserting.set(d.id);
        let quiet = env.quiet.get();
        // the preload measures work and stack too, but is not interleaved or faulted
        env.base.set(sched::stack_addr());
        let count0 = env.count.get();
        if me == usize::MAX {
            env.max_stack.set(0);
            sched::set_env(Some(env));
        }
        let tree = self.tree(t);
        if me != usize::MAX {
            self.allow_reentry(env, i, t, true);
        }
        env.seen.borrow_mut().clear();
        env.track.set(self.pr.prop == 19);
        let r = mem::for_tree(self.pr.fine > 0, || guarded(Some(env), || tree.insert(sd)));
        env.track.set(false);
        unsafe { *env.reenter.get() = None };
        if me == usize::MAX {
            sched::set_env(None);
        }
        let work = env.count.get() - count0;
        env.inserting.set(u32::MAX);
        env.quiet.set(true);
        let fired = env.fired.borrow().clone();
        let bent = fired
            .iter()
            .any(|f| matches!(f.1, FaultKind::Nan | FaultKind::Odd | FaultKind::Drift(_)));
        let unbound = fired.iter().any(|f| f.1 == FaultKind::Unbound);
        let expect = admit(&self.cfg, d);
        if self.pr.prop == 19 && fired.iter().all(|f| matches!(f.1, FaultKind::Panic | FaultKind::Stall(_) | FaultKind::Reenter(..))) {
            // a long preload need not lay out the cells for every datum
            if n0 <= 40 || me != usize::MAX && n0 <= 2000 {
                let seen = env.seen.take();
                self.local_insert(t, d, &seen);
            }
        }
        let m = self.model(t);
        let mut poison = false;
        let mut harmed = false;
        let verdict = match &r {
            Res::Ok(Ok(())) => {
                m.push(d);
                m.misplaced |= bent;
                // a geometry that momentarily had no box may have ended up in any admissible cell
                m.misplaced |= unbound;
                self.sched.st().stats.inserts_ok += 1;
                "Ok".to_string()
            }
            Res::Ok(Err(e)) => {
                self.sched.st().stats.faults[10] += 1;
                harmed = true;
                if bent || unbound {
                    m.early = true;
                    m.print = None;
                } else if me != usize::MAX {
                    unsafe { &mut *self.refused.get() }.push(self.tag_of(me, i));
                }
                m.misplaced |= bent;
                format!("{e:?}")
            }
            Res::Crash => {
                m.early = true;
                m.print = None;
                m.misplaced |= bent;
                poison = true;
                harmed = true;
                "crashed".to_string()
            }
            Res::Panic(p) => {
                m.early = true;
                poison = true;
                harmed = true;
                self.check(&[2, 3, 10, 12], false, "insert_panicked", || {
                    format!("insert of {d:?} panicked: {p}")
                });
                "panicked".to_string()
            }
        };
        self.sched.note(|| format!("task {me} op {i}: insert -> {verdict}"));
        self.sched.log(20, t as u64, hash_str(d.id as u64, &verdict));
        if !bent && !unbound {
            if let Res::Ok(v) = &r {
                let want = match expect {
                    Admit::Yes => Ok(()),
                    Admit::Out => Err(Error::OutOfBounds),
                    Admit::NoBox => Err(Error::CannotMakeBbox),
                };
                self.check(&[3], *v == want, "insert_verdict", || {
                    format!("insert of {d:?} gave {v:?}, must give {want:?}")
                });
                if n0 > 0 && v.is_ok() != want.is_ok() {
                    // a later insert of a good datum must work normally after a failed one
                    let after = self.model(t).early;
                    self.check(&[2], !after, "later_insert", || {
                        format!("after a failed insert, insert of {d:?} gave {v:?}")
                    });
                }
            }
        }
        if self.pr.prop == 12 {
            unsafe { &mut *self.verdicts.get() }.insert((me.wrapping_add(1), i), verdict);
        }
        // whole content after the insert (always after one that failed)
        let small = match self.model(t).acc.len() {
            0..=64 => true,
            65..=4000 => i % 32 == 0,
            _ => i % 8192 == 0,
        };
        if self.on(&[2]) && harmed || self.on(&[1]) && small && (me != usize::MAX || i % 16 == 0) {
            self.content(t, harmed);
        }
        if self.on(&[2]) && harmed && !self.sched.st().stop && self.model(t).acc.len() <= 200 {
            self.audit(env, t);
        }
        if self.on(&[13]) {
            let c = self.cfg.cap.min(n0) as u64;
            let budget = 8 * (c + 2) * (self.cfg.depth as u64 + 2);
            self.check(&[13], work <= budget, "insert_work", || {
                format!("insert asked for geometries {work} times with {n0} stored (budget {budget})")
            });
            self.stack_check(env, "insert");
        }
        env.quiet.set(quiet);
        poison
    }

    fn stack_check(&self, env: &Env, what: &str) {
        let used = env.max_stack.get() as u64;
        let st = self.sched.st();
        st.stats.max_stack = st.stats.max_stack.max(used);
        let budget = 64 * 1024 + 4096 * (self.cfg.depth as u64 + 2);
        self.check(&[13], used <= budget, "stack", || {
            format!("{what} used more than {budget} bytes of stack ({} KiB)", used / 1024)
        });
    }

    // ------------------------------------------------------------ queries

    /// Run one query to its end (or to where the program says it is abandoned).
    fn ask(&self, env: &Env, tree: &Tree<T>, op: &Op, key: u32) -> Res<Ans> {
        self.ask_many(env, &[tree], &[op], key, 0).pop().expect("one answer")
    }

    /// Several queries stepped in turns by one caller.
    fn ask_many(&self, env: &Env, trees: &[&Tree<T>], ops: &[&Op], key: u32, turns: u64) -> Vec<Res<Ans>> {
        env.base.set(sched::stack_addr());
        let cmps: Vec<Option<Cmp<T>>> = ops
            .iter()
            .enumerate()
            .map(|(i, op)| match op {
                Op::Find { c, .. } | Op::Knn { c, .. } | Op::Sorted { c, .. } => Some(Cmp::new(c, key + i as u32, &self.cfg)),
                _ => None,
            })
            .collect();
        let probes: Vec<Option<SimDatum<T>>> = ops
            .iter()
            .map(|op| match op {
                Op::Retrieve { d, .. } => Some(SimDatum::new(d, &self.quiet_alts)),
                _ => None,
            })
            .collect();
        let mut parts: Vec<Part<T>> = (0..ops.len())
            .map(|i| Part {
                op: ops[i],
                tree: trees[i],
                cmp: cmps[i].as_ref(),
                probe: probes[i].as_ref(),
                n: self.model(ops[i].tree()).acc.len(),
                cur: Cur::Start,
                list: vec![],
                set: vec![],
                steps: 0,
                res: None,
                seen: vec![],
            })
            .collect();
        let mut turn = 0;
        loop {
            let alive: Vec<usize> = (0..parts.len()).filter(|i| parts[*i].res.is_none()).collect();
            if alive.is_empty() {
                break;
            }
            let i = alive[(turns >> (2 * (turn % 32)) & 3) as usize % alive.len()];
            turn += 1;
            if alive.len() == 1 {
                while parts[i].res.is_none() {
                    self.advance(env, &mut parts[i]);
                }
            } else {
                self.advance(env, &mut parts[i]);
            }
        }
        if self.pr.prop == 19 {
            for p in &parts {
                self.local(env, p);
            }
        }
        parts.into_iter().map(|p| p.res.expect("an answer")).collect()
    }

    /// One step of a query, with a record of what it looks at.
    fn advance(&self, env: &Env, p: &mut Part<'_, T>) {
        if self.pr.prop != 19 {
            return self.step(env, p);
        }
        let n = p.list.len();
        env.seen.borrow_mut().clear();
        env.track.set(true);
        self.step(env, p);
        env.track.set(false);
        p.seen.extend(env.seen.borrow_mut().drain(..).map(|id| (id, n)));
    }

    /// C19: a query measures only what is held in cells near enough to matter.
    fn local(&self, env: &Env, p: &Part<'_, T>) {
        let t = p.op.tree();
        let m = self.model(t);
        let (Op::Find { c, .. } | Op::Knn { c, .. } | Op::Sorted { c, .. }) = p.op else {
            return;
        };
        if m.misplaced {
            return;
        }
        m.cells(&self.cfg);
        if m.ambiguous {
            self.sched.st().stats.ambiguous += 1;
            return;
        }
        let bent = !env.quiet.get()
            && env.fired.borrow().iter().any(|f| !matches!(f.1, FaultKind::Panic | FaultKind::Stall(_) | FaultKind::Reenter(..)));
        // cells in pre-order with their parents, and who lives where
        let mut cells: Vec<(&RefCell_<T>, usize)> = vec![];
        fn lay<'c, T>(c: &'c RefCell_<T>, up: usize, out: &mut Vec<(&'c RefCell_<T>, usize)>) {
            let me = out.len();
            out.push((c, up));
            if let Some(s) = &c.sub {
                s.iter().for_each(|x| lay(x, me, out));
            }
        }
        lay(m.cells.as_ref().unwrap(), 0, &mut cells);
        if cells.len() == 1 {
            return;
        }
        let mut home: HashMap<u32, usize> = HashMap::new();
        for (i, (x, _)) in cells.iter().enumerate() {
            home.extend(x.own.iter().map(|id| (*id, i)));
        }
        let far: Vec<Cell<Option<Option<f64>>>> = cells.iter().map(|_| Cell::new(None)).collect();
        let dist = |i: usize| {
            if far[i].get().is_none() {
                let x = cells[i].0;
                let (lo, hi) = ([x.lo[0].to(), x.lo[1].to()], [x.hi[0].to(), x.hi[1].to()]);
                far[i].set(Some(oracle::cell_dist(self.cfg.metric, c, &lo, &hi)));
            }
            far[i].get().unwrap()
        };
        let beyond = |i: usize, lim: f64| {
            dist(i).filter(|d| *d > lim + 2.0 * oracle::tol(&self.cfg, T::EPS, c, *d) + 2.0 * oracle::tol(&self.cfg, T::EPS, c, lim))
        };
        let r = match p.op {
            Op::Find { r, .. } | Op::Knn { r, .. } => {
                // a radius below zero still lets a query look where it starts
                r.map(|r| self.rt(r)).filter(|r| !r.is_nan()).unwrap_or(f64::INFINITY).max(0.0)
            }
            _ => f64::INFINITY,
        };
        let last = match (p.op, &p.res) {
            (Op::Knn { k, .. }, Some(Res::Ok(Ans::Knn(Ok(v))))) if v.len() == *k && *k > 0 => v[*k - 1].1,
            _ => f64::INFINITY,
        };
        let mut best = r;
        let mut before: Vec<Option<f64>> = vec![None; cells.len()];
        for (id, n) in &p.seen {
            let Some(&h) = home.get(id) else { continue };
            let lim = match &p.res {
                Some(Res::Ok(Ans::Sorted(v, _))) => v.get(*n).map_or(f64::INFINITY, |x| x.1),
                _ => r.min(last),
            };
            if let Some(d) = beyond(h, lim) {
                self.check(&[19], false, "looked_beyond", || {
                    format!("{}: measured datum {id} in a cell at distance {d}, no answer is beyond {lim}", p.op.text())
                });
                return;
            }
            if let (Op::Find { .. }, false) = (p.op, bent) {
                if before[h].is_none() {
                    let mut i = h;
                    loop {
                        if before[i].is_none() {
                            before[i] = Some(best);
                        }
                        if i == 0 {
                            break;
                        }
                        i = cells[i].1;
                    }
                    if let Some(d) = beyond(h, before[cells[h].1].unwrap_or(f64::INFINITY)) {
                        self.check(&[19], false, "opened_beyond", || {
                            format!(
                                "{}: measured datum {id} in a cell at distance {d} after one at {}",
                                p.op.text(),
                                before[cells[h].1].unwrap()
                            )
                        });
                        return;
                    }
                }
                let x = &m.acc[m.ids[id]];
                if let Some(d) = oracle::dist(self.cfg.metric, c, self.geom(x)) {
                    best = best.min(d);
                }
            }
        }
        self.check(&[19], true, "", String::new);
    }

    /// C19: an insert asks for the places of data only in the undivided cell it arrives in.
    fn local_insert(&self, t: usize, d: &Datum, seen: &[u32]) {
        let m = self.model(t);
        if m.misplaced {
            return;
        }
        let Some(it) = oracle::item::<T>(self.cfg.kind, d) else { return };
        let kind = self.cfg.kind;
        m.cells(&self.cfg);
        let mut c = m.cells.as_ref().unwrap();
        if m.ambiguous || c.ambiguous(kind, std::slice::from_ref(&it)) && !self.cfg.exact {
            self.sched.st().stats.ambiguous += 1;
            return;
        }
        let mut stuck = false;
        while let (Some(s), false) = (&c.sub, stuck) {
            let x = &s[c.quadrant(&it.pos)];
            if kind == Kind::Point || x.holds(&it) {
                c = x;
            } else {
                stuck = true;
            }
        }
        let bad = seen.iter().find(|id| **id != d.id && (stuck || !c.own.contains(id)));
        self.check(&[19], bad.is_none(), "insert_looked_beyond", || {
            format!("insert of {d:?} asked for the place of datum {} elsewhere", bad.unwrap())
        });
    }

    /// One step of a query: start it, take one item, or finish it.
    fn step(&self, env: &Env, p: &mut Part<'_, T>) {
        let quiet = env.quiet.get();
        let limit = |len: usize, take: &Option<usize>| take.is_some_and(|m| len >= m) || len > p.n + 4;
        macro_rules! need {
            ($e:expr) => {
                match $e {
                    Res::Ok(x) => x,
                    Res::Crash => {
                        p.res = Some(Res::Crash);
                        p.cur = Cur::Done;
                        return;
                    }
                    Res::Panic(m) => {
                        p.res = Some(Res::Panic(m));
                        p.cur = Cur::Done;
                        return;
                    }
                }
            };
        }
        let (tree, cmp, probe) = (p.tree, p.cmp, p.probe);
        let mut ended = false;
        match (&mut p.cur, p.op) {
            (Cur::Start, Op::Find { r, .. }) => {
                let x = need!(guarded(Some(env), || T::find(tree, cmp.unwrap(), *r)));
                p.res = Some(Res::Ok(Ans::Find(x)));
                return;
            }
            (Cur::Start, Op::Knn { k, r, .. }) => {
                let x = need!(guarded(Some(env), || T::knn(tree, cmp.unwrap(), *k, *r)));
                p.res = Some(Res::Ok(Ans::Knn(x)));
                return;
            }
            (Cur::Start, Op::Sorted { .. }) => {
                p.cur = Cur::Sorted(need!(guarded(Some(env), || T::sorted(tree, cmp.unwrap()))));
                return;
            }
            (Cur::Start, Op::Retrieve { .. }) => {
                p.cur = Cur::Set(need!(guarded(Some(env), || tree.retrieve(probe.unwrap()))));
                return;
            }
            (Cur::Start, Op::Iter { .. }) => {
                p.cur = Cur::Set(need!(guarded(Some(env), || tree.iter())));
                return;
            }
            (Cur::Sorted(it), Op::Sorted { take, .. }) => {
                if !limit(p.list.len(), take) {
                    if !quiet {
                        self.sched.yield_point(env.task);
                    }
                    match need!(guarded(Some(env), || it.next())) {
                        Some(x) => {
                            p.list.push(x);
                            return;
                        }
                        None => ended = true,
                    }
                }
                if ended {
                    for _ in 0..3 {
                        if let Res::Ok(Some(x)) = guarded(Some(env), || it.next()) {
                            self.check(&[6], false, "revived", || {
                                format!("sorted iterator yielded {x:?} after it had ended")
                            });
                        }
                    }
                }
                self.abandoned(quiet, ended, take);
                p.res = Some(Res::Ok(Ans::Sorted(std::mem::take(&mut p.list), ended)));
            }
            (Cur::Set(it), Op::Retrieve { take, .. } | Op::Iter { take, .. }) => {
                if !limit(p.set.len(), take) {
                    // long traversals: a switch point every few steps
                    if !quiet && (p.n < 200 || p.steps % 8 == 0) {
                        self.sched.yield_point(env.task);
                    }
                    p.steps += 1;
                    match need!(guarded(Some(env), || it.next())) {
                        Some(x) => {
                            p.set.push(x);
                            return;
                        }
                        None => ended = true,
                    }
                }
                if ended {
                    for _ in 0..3 {
                        if let Res::Ok(Some(x)) = guarded(Some(env), || it.next()) {
                            self.check(&[1, 11], false, "revived", || {
                                format!("iterator yielded {x:?} after it had ended")
                            });
                        }
                    }
                }
                self.abandoned(quiet, ended, take);
                p.res = Some(Res::Ok(Ans::Set(std::mem::take(&mut p.set), ended)));
            }
            _ => p.res = Some(Res::Ok(Ans::Set(vec![], true))),
        }
        p.cur = Cur::Done;
    }

    fn abandoned(&self, quiet: bool, ended: bool, take: &Option<usize>) {
        if !ended && !quiet && take.is_some() {
            self.sched.st().stats.faults[9] += 1;
        }
    }

    fn query(&self, env: &Env, me: usize, i: usize, op: &Op) {
        let t = op.tree();
        if let Op::Size { .. } = op {
            let s = self.tree(t).size();
            let n = self.model(t).acc.len();
            self.check(&[1, 2, 8], s == n, "size", || format!("size() is {s} but {n} data were accepted"));
            return;
        }
        let sw0 = self.sched.st().stats.switches;
        self.allow_reentry(env, i, t, false);
        let parts = op.parts();
        let trees: Vec<&Tree<T>> = parts.iter().map(|p| &*self.tree(p.tree())).collect();
        let turns = if let Op::Weave { turns, .. } = op { *turns } else { 0 };
        let key = (me * 1000 + i) as u32;
        let rs = self.ask_many(env, &trees, &parts, key, turns);
        unsafe { *env.reenter.get() = None };
        if self.sched.st().stats.switches != sw0 {
            self.sched.st().stats.interleaved_ops += 1;
        }
        let work = env.count.get();
        let was_quiet = env.quiet.replace(true);
        let bent: HashSet<u32> = env
            .fired
            .borrow()
            .iter()
            .filter(|f| {
                matches!(f.1, FaultKind::Nan | FaultKind::Odd | FaultKind::Unbound | FaultKind::Drift(_))
            })
            .map(|f| f.0)
            .collect();
        let mut budget = 0;
        for (j, (op, r)) in parts.iter().zip(&rs).enumerate() {
            let t = op.tree();
            let n = self.model(t).acc.len();
            let key = key + j as u32;
            budget += 8 * (n as u64 + self.cfg.depth as u64 + 8);
            match r {
                Res::Ok(a) => {
                    self.sched.note(|| format!("task {me} op {i} -> {}", cut(&format!("{a:?}"))));
                    self.sched.log(21, i as u64, hash_str(me as u64, &format!("{a:?}")));
                    self.judge(t, op, a, &bent);
                    if self.on(&[8]) && bent.is_empty() {
                        self.alone(env, t, op, a, key);
                    }
                    if self.on(&[13]) {
                        let len = match a {
                            Ans::Sorted(v, _) => v.len(),
                            Ans::Set(v, _) => v.len(),
                            Ans::Knn(Ok(v)) => v.len(),
                            _ => 0,
                        };
                        self.check(&[13], len <= n, "endless", || {
                            format!("{} yielded more than the {n} stored data", op.text())
                        });
                    }
                }
                Res::Crash => {
                    self.sched.note(|| format!("task {me} op {i} -> crashed"));
                    self.sched.log(22, i as u64, me as u64);
                }
                Res::Panic(p) => {
                    self.sched.log(23, i as u64, me as u64);
                    let props: &[u32] = match op {
                        Op::Find { .. } => &[3, 4, 9],
                        Op::Knn { .. } => &[3, 5, 9],
                        Op::Sorted { .. } => &[3, 6, 9],
                        Op::Retrieve { .. } => &[3, 7],
                        _ => &[1, 11],
                    };
                    self.check(props, false, "panicked", || format!("{} panicked: {p}", op.text()));
                    if self.on(&[8]) {
                        // a panic is an answer too: would the caller get it alone?
                        let again = self.ask(env, &self.rebuilt(t), op, key);
                        self.check(&[8], matches!(again, Res::Panic(_)), "panicked", || {
                            format!("{} panicked only in company: {p}", op.text())
                        });
                    }
                }
            }
        }
        if self.on(&[13]) && rs.iter().all(|r| matches!(r, Res::Ok(_))) {
            self.check(&[13], work <= budget, "query_work", || {
                format!("{} asked for geometries {work} times (budget {budget})", op.text())
            });
            self.stack_check(env, &op.text());
        }
        if self.on(&[8]) && !self.sched.st().stop {
            for t in op.trees() {
                self.unchanged(t, &op.text());
            }
        }
        env.quiet.set(was_quiet);
    }

    /// What the callbacks of the next operation may start (on tree `t` itself unless it is being written).
    fn allow_reentry(&self, env: &Env, i: usize, t: usize, writing: bool) {
        if !env.faults.iter().any(|f| f.op == i && matches!(f.kind, FaultKind::Reenter(..))) {
            return;
        }
        let f = move |k: u8, g: &G| match k {
            5 => self.private(env, g),
            6 => {
                let u = 1 - t;
                if self.cfg.trees < 2 || self.sched.st().locks[u].writer {
                    return;
                }
                self.sched.st().locks[u].readers += 1;
                let k = if self.cfg.num.int() { 4 } else { 2 };
                self.nested(env, u, k, g);
                self.sched.unlock(u, false, false);
            }
            _ if writing => {}
            _ => self.nested(env, t, k, g),
        };
        let b: Box<dyn Fn(u8, &G) + '_> = Box::new(f);
        // the closure lives only until the end of the operation
        unsafe { *env.reenter.get() = Some(std::mem::transmute(b)) };
    }

    /// A tree of the callback's own, built, used and dropped inside the callback.
    fn private(&self, env: &Env, g: &G) {
        let base = env.base.replace(sched::stack_addr());
        let op = self.mem.then(|| mem::set_op(mem::tag(TAG_PRIVATE)));
        let mut places: Vec<P2> = self.pr.probes.clone();
        places.extend(oracle::segs(g).iter().take(2).map(|s| s.0));
        let data: Vec<Datum> = (0..8)
            .map(|i| {
                let p = places[i % places.len()];
                Datum { id: 600_000_000 + i as u32, pt: p, g: G::Pt(p) }
            })
            .collect();
        let cmp = Cmp::<T>::new(&G::Pt(places[0]), 3, &self.cfg);
        let search = !self.cfg.num.int() && self.cfg.metric != Metric::None;
        let alts = &self.quiet_alts;
        let r = guarded(None, || {
            let mut q = Tree::<T>::new(&self.pr.cfg);
            let ok: Vec<bool> = data.iter().map(|d| q.insert(SimDatum::new(d, alts)).is_ok()).collect();
            let mut ids: Vec<u32> = q.iter().take(16).collect();
            ids.sort();
            let near = if search { T::find(&q, &cmp, None).ok() } else { None };
            (ok, q.size(), ids, near)
        });
        if let Some(op) = op {
            mem::set_op(op);
        }
        env.base.set(base);
        let bad = match r {
            Res::Ok((ok, size, ids, near)) => {
                let want: Vec<bool> = data.iter().map(|d| admit(&self.cfg, d) == Admit::Yes).collect();
                let mut all: Vec<u32> = vec![];
                for (d, w) in data.iter().zip(&want) {
                    if *w {
                        all.push(d.id);
                    }
                }
                let near_ok = !search
                    || !want[0]
                    || near.is_some_and(|x| x.1 <= oracle::tol(&self.cfg, T::EPS, &data[0].g, 0.0));
                (ok != want || size != all.len() || ids != all || !near_ok).then(|| {
                    format!("verdicts {ok:?} size {size} traversal {ids:?} nearest {near:?}, data {data:?}")
                })
            }
            Res::Crash => None,
            Res::Panic(p) => Some(format!("panic: {p}")),
        };
        self.check(&[1, 2, 8], bad.is_none(), "other_tree", || {
            format!("a tree used inside a callback of an operation on another: {}", bad.unwrap())
        });
    }

    /// A query started from inside another query's callback.
    fn nested(&self, env: &Env, t: usize, k: u8, g: &G) {
        let op = match k {
            0 => Op::Find { t, c: g.clone(), r: None },
            1 => Op::Knn { t, c: g.clone(), k: 5, r: None },
            2 => Op::Sorted { t, c: g.clone(), take: Some(6) },
            3 => {
                let pt = oracle::segs(g).first().map_or([0.0, 0.0], |s| s.0);
                Op::Retrieve { t, d: Datum { id: 900_000_000, pt, g: g.clone() }, take: None }
            }
            _ => Op::Iter { t, take: None },
        };
        let base = env.base.get();
        let r = self.ask(env, self.tree(t), &op, 7);
        env.base.set(base);
        let q = env.quiet.replace(true);
        match &r {
            Res::Ok(a) => {
                self.judge(t, &op, a, &HashSet::new());
                if self.on(&[8]) {
                    apart(|| self.alone(env, t, &op, a, 7));
                }
            }
            Res::Crash => {}
            Res::Panic(p) => {
                if self.on(&[8]) {
                    let again = apart(|| self.ask(env, &self.rebuilt(t), &op, 7));
                    self.check(&[8], matches!(again, Res::Panic(_)), "nested_panicked", || {
                        format!("nested {} panicked: {p}", op.text())
                    });
                }
            }
        }
        env.base.set(base);
        env.quiet.set(q);
    }

    // ------------------------------------------------------------ C08

    fn rebuilt(&self, t: usize) -> Tree<T> {
        let mut q = Tree::new(&self.pr.cfg);
        for d in &self.model(t).acc {
            let sd = SimDatum::new(d, &self.quiet_alts);
            let _ = guarded(None, || q.insert(sd));
        }
        q
    }

    /// The same query alone: on the same tree, and on a fresh tree with the same history.
    fn alone(&self, env: &Env, t: usize, op: &Op, got: &Ans, key: u32) {
        if self.model(t).acc.len() > 500 {
            return;
        }
        for fresh in [false, true] {
            // a cell divided early by a failed insert may hold fewer candidates
            if fresh && self.model(t).early && matches!(op, Op::Retrieve { .. }) {
                continue;
            }
            let again = if fresh {
                if self.model(t).control.is_none() {
                    let c = self.rebuilt(t);
                    // unless somebody else was quicker, which takes a lock in the library
                    self.model(t).control.get_or_insert(c);
                }
                apart(|| self.ask(env, self.model(t).control.as_ref().unwrap(), op, key))
            } else {
                self.ask(env, self.tree(t), op, key)
            };
            let same = match &again {
                Res::Ok(b) => same(got, b),
                _ => false,
            };
            let b = match &again {
                Res::Ok(b) => format!("{b:?}"),
                Res::Crash => "crash".into(),
                Res::Panic(p) => format!("panic {p}"),
            };
            // and a measurement that fails may be in a cell that the other structure skips
            let error = |a: &Ans| matches!(a, Ans::Find(Err(_)) | Ans::Knn(Err(_)));
            if fresh && self.model(t).early && (error(got) || matches!(&again, Res::Ok(b) if error(b))) {
                continue;
            }
            self.check(&[8], same, "not_alone", || {
                format!(
                    "{} answered {} in company but {} alone{}",
                    op.text(),
                    cut(&format!("{got:?}")),
                    cut(&b),
                    if fresh { " on a fresh tree with the same data" } else { "" }
                )
            });
        }
    }

    fn unchanged(&self, t: usize, what: &str) {
        let tree = self.tree(t);
        // a print of megabytes is not made every time
        let m = self.model(t);
        m.asked += 1;
        let long = m.print.as_ref().filter(|p| p.2.len() > 50_000 && m.asked % 16 != 0).map(|p| p.2.clone());
        let show = || long.unwrap_or_else(|| tree.show());
        let now = match guarded(None, || (tree.size(), tree.iter().collect::<Vec<_>>(), show())) {
            Res::Ok(x) => x,
            _ => {
                self.check(&[8], false, "tree_broken", || format!("tree unusable after {what}"));
                return;
            }
        };
        let m = self.model(t);
        if let Some(p) = &m.print {
            self.check(&[8], *p == now, "tree_changed", || format!("{what} changed the tree"));
        }
        m.print = Some(now);
    }

    // ------------------------------------------------------------ oracles

    fn judge(&self, t: usize, op: &Op, a: &Ans, bent: &HashSet<u32>) {
        let n = self.model(t).acc.len();
        match (op, a) {
            (Op::Find { c, r, .. }, Ans::Find(x)) => {
                if self.on(&[2]) {
                    return;
                }
                let rel: &[u32] = if self.relevant9(t, c, bent) { C_FIND } else { &[4] };
                if let Some((cl, m)) = self.verdict(t, c, *r, bent, x.as_ref().err(), x.is_ok(), true) {
                    self.check(&[3], false, cl, || m);
                } else {
                    self.check(&[3], true, "", String::new);
                }
                let bad = self.bad_find(t, c, *r, x, bent);
                self.check(rel, bad.is_none(), "find", || format!("{}: {}", op.text(), bad.unwrap()));
            }
            (Op::Knn { c, k, r, .. }, Ans::Knn(x)) => {
                let rel: &[u32] = if self.relevant9(t, c, bent) { &[5, 9] } else { &[5] };
                if let Some((cl, m)) = self.verdict(t, c, *r, bent, x.as_ref().err(), x.is_ok(), false) {
                    self.check(&[3], false, cl, || m);
                } else {
                    self.check(&[3], true, "", String::new);
                }
                if self.on(&[3]) {
                    if let (Ok(v), true) = (x, n == 0) {
                        self.check(&[3], v.is_empty(), "knn_empty", || format!("knn on an empty tree gave {v:?}"));
                    }
                }
                let bad = self.bad_knn(t, c, *k, *r, x, bent);
                self.check(rel, bad.is_none(), "knn", || format!("{}: {}", op.text(), bad.unwrap()));
            }
            (Op::Sorted { c, take, .. }, Ans::Sorted(v, ended)) => {
                let rel: &[u32] = if self.relevant9(t, c, bent) { &[6, 9] } else { &[6] };
                if self.on(&[3]) {
                    let none = !oracle::cmp_supported(self.cfg.metric, c)
                        || oracle::touch(&self.cfg, T::EPS, c) == Touch::No
                        || n == 0;
                    if none {
                        self.check(&[3], v.is_empty(), "sorted_verdict", || {
                            format!("{} must yield nothing, gave {v:?}", op.text())
                        });
                    }
                }
                let bad = self.bad_sorted(t, c, *take, v, *ended, bent);
                self.check(rel, bad.is_none(), "sorted", || format!("{}: {}", op.text(), bad.unwrap()));
            }
            (Op::Retrieve { d, take, .. }, Ans::Set(v, ended)) => {
                if self.on(&[3]) && admit(&self.cfg, d) != Admit::Yes {
                    self.check(&[3], v.is_empty(), "retrieve_outside", || {
                        format!("{} is outside the bounds but yielded {v:?}", op.text())
                    });
                }
                if self.on(&[7]) && bent.is_empty() {
                    let bad = self.bad_retrieve(t, d, *take, v, *ended);
                    self.check(&[7], bad.is_none(), "retrieve", || {
                        format!("{}: {}", op.text(), bad.unwrap())
                    });
                }
            }
            (Op::Iter { take, .. }, Ans::Set(v, ended)) => {
                self.check_iter(t, *take, v, *ended);
            }
            _ => {}
        }
    }

    /// C09 speaks only when something cannot be measured.
    fn relevant9(&self, t: usize, c: &G, bent: &HashSet<u32>) -> bool {
        self.pr.prop == 9
            && oracle::cmp_supported(self.cfg.metric, c)
            && (!bent.is_empty()
                || self
                    .model(t)
                    .acc
                    .iter()
                    .any(|d| oracle::dist(self.cfg.metric, c, self.geom(d)).is_none()))
    }

    fn geom<'b>(&self, d: &'b Datum) -> &'b G {
        &d.g
    }

    fn rt(&self, r: f64) -> f64 {
        T::of(r).to()
    }

    fn verdict(
        &self,
        t: usize,
        c: &G,
        r: Option<f64>,
        bent: &HashSet<u32>,
        err: Option<&Error>,
        _ok: bool,
        find: bool,
    ) -> Option<(&'static str, String)> {
        if !self.on(&[3]) {
            return None;
        }
        let m = self.model(t);
        let touch = oracle::touch(&self.cfg, T::EPS, c);
        let mut may: Vec<Error> = vec![];
        let mut must = false;
        if self.cfg.metric == Metric::None {
            may.push(Error::CalcMethodNotSet);
            must = true;
        } else if !oracle::cmp_supported(self.cfg.metric, c) {
            may.push(Error::InvalidDistance);
            must = true;
        }
        if touch != Touch::Yes {
            may.push(Error::OutOfBounds);
            must |= touch == Touch::No;
        }
        if find && m.acc.is_empty() {
            may.push(Error::Empty);
            must = true;
        }
        if !must {
            let unmeasurable = !bent.is_empty()
                || m.acc.iter().any(|d| oracle::dist(self.cfg.metric, c, &d.g).is_none());
            if unmeasurable {
                may.extend([Error::InvalidDistance, Error::CannotMakeBbox, Error::NoneInRadius]);
            } else if find {
                if let Some(r) = r {
                    let r = self.rt(r);
                    let near = m.acc.iter().any(|d| self.within(c, &d.g, r) == Some(true));
                    let maybe = m.acc.iter().any(|d| self.within(c, &d.g, r) != Some(false));
                    if !near {
                        may.push(Error::NoneInRadius);
                        must |= !maybe;
                    }
                }
            }
        }
        match err {
            Some(e) if may.contains(e) => None,
            Some(e) => Some((
                "wrong_error",
                format!("query {c:?} r {r:?} with {} stored gave {e:?}, allowed {may:?}", m.acc.len()),
            )),
            None if must => Some((
                "missing_error",
                format!("query {c:?} r {r:?} with {} stored succeeded, must be one of {may:?}", m.acc.len()),
            )),
            None => None,
        }
    }

    /// Is the datum no farther than r? None: too close to call.
    fn within(&self, c: &G, g: &G, r: f64) -> Option<bool> {
        let d = oracle::dist(self.cfg.metric, c, g)?;
        if let Some(e) = oracle::exact_dist(&self.cfg, c, g) {
            return Some(e <= r);
        }
        let tl = oracle::tol(&self.cfg, T::EPS, c, d);
        if d <= r - tl {
            Some(true)
        } else if r.is_nan() || d > r + tl {
            Some(false)
        } else {
            None
        }
    }

    fn ds(&self, t: usize, c: &G) -> Vec<Option<f64>> {
        self.model(t).acc.iter().map(|d| oracle::dist(self.cfg.metric, c, &d.g)).collect()
    }

    /// Is the comparator one for which an answer is due (None: any outcome is possible)?
    fn due(&self, c: &G) -> Option<bool> {
        if !oracle::cmp_supported(self.cfg.metric, c) {
            return Some(false);
        }
        match oracle::touch(&self.cfg, T::EPS, c) {
            Touch::Yes => Some(true),
            Touch::No => Some(false),
            Touch::Unsure => None,
        }
    }

    fn one_ok(&self, t: usize, c: &G, ds: &[Option<f64>], id: u32, x: f64) -> Result<(), String> {
        let m = self.model(t);
        let Some(&i) = m.ids.get(&id) else {
            return Err(format!("returned datum {id}, which is not stored"));
        };
        if !x.is_finite() {
            return Err(format!("returned datum {id} at distance {x}"));
        }
        let Some(d) = ds[i] else {
            return Err(format!("returned datum {id} at {x}, but it cannot be measured"));
        };
        let tl = oracle::tol(&self.cfg, T::EPS, c, d);
        if (x - d).abs() > tl {
            return Err(format!("returned datum {id} with distance {x}, it is at {d}"));
        }
        Ok(())
    }

    fn bad_find(
        &self,
        t: usize,
        c: &G,
        r: Option<f64>,
        x: &Result<(u32, f64), Error>,
        bent: &HashSet<u32>,
    ) -> Option<String> {
        let m = self.model(t);
        let due = self.due(c);
        let ds = self.ds(t, c);
        let r = r.map_or(f64::INFINITY, |r| self.rt(r));
        let unmeasurable = !bent.is_empty() || ds.iter().any(|d| d.is_none());
        let tl = |d: f64| oracle::tol(&self.cfg, T::EPS, c, d);
        match x {
            Ok((id, x)) => {
                if let Err(e) = self.one_ok(t, c, &ds, *id, *x) {
                    return Some(e);
                }
                if r.is_nan() || *x > r + tl(*x) {
                    return Some(format!("datum {id} at {x} is beyond the radius {r}"));
                }
                for (d, dd) in m.acc.iter().zip(&ds) {
                    if let Some(dd) = dd {
                        if !bent.contains(&d.id) && *dd < x - tl(*x) - tl(*dd) {
                            return Some(format!("returned {id} at {x}, but datum {} is at {dd}", d.id));
                        }
                    }
                }
                None
            }
            Err(e) => {
                // an error is right when no answer is due, and allowed when something cannot be measured
                if due != Some(true) || unmeasurable {
                    return None;
                }
                for d in &m.acc {
                    if self.within(c, &d.g, r) == Some(true) {
                        return Some(format!(
                            "returned {e:?}, but datum {} is at {:?}, within {r}",
                            d.id,
                            oracle::dist(self.cfg.metric, c, &d.g)
                        ));
                    }
                }
                None
            }
        }
    }

    fn bad_list(
        &self,
        t: usize,
        c: &G,
        v: &[(u32, f64)],
        ds: &[Option<f64>],
    ) -> Option<String> {
        let mut seen = HashSet::new();
        let mut last = f64::NEG_INFINITY;
        for &(id, x) in v {
            if let Err(e) = self.one_ok(t, c, ds, id, x) {
                return Some(e);
            }
            if !seen.insert(id) {
                return Some(format!("datum {id} is returned twice"));
            }
            let tl = oracle::tol(&self.cfg, T::EPS, c, x);
            if x < last - 2.0 * tl {
                return Some(format!("datum {id} at {x} comes after one at {last}"));
            }
            last = last.max(x);
        }
        None
    }

    fn bad_knn(
        &self,
        t: usize,
        c: &G,
        k: usize,
        r: Option<f64>,
        x: &Result<Vec<(u32, f64)>, Error>,
        bent: &HashSet<u32>,
    ) -> Option<String> {
        let m = self.model(t);
        let due = self.due(c);
        let ds = self.ds(t, c);
        let r = r.map_or(f64::INFINITY, |r| self.rt(r));
        let unmeasurable = !bent.is_empty() || ds.iter().any(|d| d.is_none());
        let v = match x {
            Ok(v) => v,
            Err(e) => {
                if due != Some(true) || unmeasurable {
                    return None;
                }
                return Some(format!("returned {e:?}"));
            }
        };
        if due == Some(false) && !v.is_empty() {
            return Some(format!("gave {v:?} for a comparator that has no answer"));
        }
        if due != Some(true) && v.is_empty() {
            return None;
        }
        if v.len() > k {
            return Some(format!("gave {} results for k = {k}", v.len()));
        }
        if let Some(e) = self.bad_list(t, c, v, &ds) {
            return Some(e);
        }
        let tl = |d: f64| oracle::tol(&self.cfg, T::EPS, c, d);
        for (id, x) in v {
            if r.is_nan() || *x > r + tl(*x) {
                return Some(format!("datum {id} at {x} is beyond the radius {r}"));
            }
        }
        let inside: HashSet<u32> = v.iter().map(|a| a.0).collect();
        let last = v.iter().map(|a| a.1).fold(f64::NEG_INFINITY, f64::max);
        for (d, dd) in m.acc.iter().zip(&ds) {
            let Some(dd) = dd else { continue };
            if inside.contains(&d.id) || bent.contains(&d.id) {
                continue;
            }
            if v.len() < k {
                if self.within(c, &d.g, r) == Some(true) {
                    return Some(format!("only {} of {k} results, but datum {} at {dd} is missing", v.len(), d.id));
                }
            } else if k > 0 && *dd < last - tl(last) - tl(*dd) {
                return Some(format!("datum {} at {dd} is missing, one at {last} was returned", d.id));
            }
        }
        None
    }

    fn bad_sorted(
        &self,
        t: usize,
        c: &G,
        take: Option<usize>,
        v: &[(u32, f64)],
        ended: bool,
        bent: &HashSet<u32>,
    ) -> Option<String> {
        let m = self.model(t);
        let due = self.due(c);
        if due == Some(false) && !v.is_empty() {
            return Some(format!("gave {v:?} for a comparator that has no answer"));
        }
        if due != Some(true) && v.is_empty() {
            return None;
        }
        let ds = self.ds(t, c);
        if let Some(e) = self.bad_list(t, c, v, &ds) {
            return Some(e);
        }
        if take == Some(0) {
            return None;
        }
        let tl = |d: f64| oracle::tol(&self.cfg, T::EPS, c, d);
        let inside: HashSet<u32> = v.iter().map(|a| a.0).collect();
        let last = v.iter().map(|a| a.1).fold(f64::NEG_INFINITY, f64::max);
        for (d, dd) in m.acc.iter().zip(&ds) {
            let Some(dd) = dd else { continue };
            if inside.contains(&d.id) || bent.contains(&d.id) {
                continue;
            }
            if ended {
                return Some(format!("ended after {} data without datum {} at {dd}", v.len(), d.id));
            }
            if *dd < last - tl(last) - tl(*dd) {
                return Some(format!("datum {} at {dd} was not yielded before one at {last}", d.id));
            }
        }
        None
    }

    fn bad_retrieve(
        &self,
        t: usize,
        q: &Datum,
        take: Option<usize>,
        v: &[u32],
        ended: bool,
    ) -> Option<String> {
        let cfg = &self.cfg;
        let m = self.model(t);
        m.cells(cfg);
        let mut seen = HashSet::new();
        for id in v {
            if !m.ids.contains_key(id) {
                return Some(format!("yielded datum {id}, which is not stored"));
            }
            if !seen.insert(*id) {
                return Some(format!("yielded datum {id} twice"));
            }
        }
        if admit(cfg, q) != Admit::Yes {
            return (!v.is_empty()).then(|| "yielded data for a query outside the bounds".into());
        }
        if m.misplaced {
            return None;
        }
        // completeness in every state
        if ended {
            for d in &m.acc {
                let due = match cfg.kind {
                    Kind::Point => d.pt == q.pt,
                    Kind::Bounds => {
                        let (a, b) = (oracle::bbox(&d.g).unwrap(), oracle::bbox(&q.g).unwrap());
                        a == b
                            || (a.0[0] < b.1[0] && a.1[0] > b.0[0] && a.0[1] < b.1[1] && a.1[1] > b.0[1])
                    }
                };
                if due && !seen.contains(&d.id) {
                    return Some(format!("missed colliding datum {d:?}"));
                }
            }
        }
        if m.ambiguous {
            self.sched.st().stats.ambiguous += 1;
            return None;
        }
        let qi = oracle::item::<T>(cfg.kind, q)?;
        if !cfg.exact && m.cells.as_ref().unwrap().ambiguous(cfg.kind, std::slice::from_ref(&qi)) {
            self.sched.st().stats.ambiguous += 1;
            return None;
        }
        let mut want = vec![];
        m.cells.as_ref().unwrap().retrieve(cfg.kind, &qi, &mut want);
        let want: HashSet<u32> = want.into_iter().collect();
        if let Some(x) = seen.iter().find(|x| !want.contains(x)) {
            return Some(format!("yielded datum {x}, which is in no cell the query touches"));
        }
        if ended && !m.early && seen.len() != want.len() {
            let miss: Vec<_> = want.difference(&seen).collect();
            return Some(format!("missed data {miss:?} of the query's cell"));
        }
        let _ = take;
        None
    }

    fn check_iter(&self, t: usize, take: Option<usize>, v: &[u32], ended: bool) {
        let m = self.model(t);
        if self.on(&[1, 2]) {
            let mut seen = HashSet::new();
            let mut bad = None;
            for id in v {
                if !m.ids.contains_key(id) {
                    bad = Some(format!("traversal visits datum {id}, which was not accepted"));
                } else if !seen.insert(*id) {
                    bad = Some(format!("traversal visits datum {id} twice"));
                }
            }
            if bad.is_none() && ended && v.len() != m.acc.len() {
                let miss: Vec<u32> =
                    m.acc.iter().map(|d| d.id).filter(|i| !seen.contains(i)).collect();
                bad = Some(format!("traversal misses accepted data {miss:?}"));
            }
            if bad.is_none() && !ended && take.is_none_or(|k| v.len() < k) {
                bad = Some("traversal does not end".into());
            }
            self.check(&[1, 2], bad.is_none(), "traversal", || bad.unwrap());
        }
        if self.on(&[11]) {
            if m.misplaced {
                return;
            }
            m.cells(&self.cfg);
            if m.ambiguous {
                self.sched.st().stats.ambiguous += 1;
                return;
            }
            let mut cells = vec![];
            m.cells.as_ref().unwrap().walk(&mut cells);
            let mut i = 0;
            let mut bad = None;
            'o: for c in cells {
                let mut left: HashSet<u32> = c.own.iter().cloned().collect();
                while !left.is_empty() {
                    let Some(id) = v.get(i) else {
                        if ended {
                            bad = Some(format!("traversal ends before data {left:?}"));
                        }
                        break 'o;
                    };
                    if !left.remove(id) {
                        bad = Some(format!(
                            "step {i} of the traversal visits {id}; the data of the next cell in pre-order are {:?}",
                            c.own
                        ));
                        break 'o;
                    }
                    i += 1;
                }
            }
            if bad.is_none() && v.len() > m.acc.len() {
                bad = Some("traversal goes on after the last cell".into());
            }
            self.check(&[11], bad.is_none(), "preorder", || bad.unwrap());
        }
    }

    /// Size and traversal against the accepted data.
    fn content(&self, t: usize, _harmed: bool) {
        let tree = self.tree(t);
        let n = self.model(t).acc.len();
        let s = tree.size();
        self.check(&[1, 2], s == n, "size", || format!("size() is {s} but {n} data were accepted"));
        match guarded(None, || tree.iter().take(n + 4).collect::<Vec<_>>()) {
            Res::Ok(v) => self.check_iter(t, None, &v, v.len() < n + 4),
            Res::Panic(p) => self.check(&[1, 2], false, "traversal_panicked", || p),
            Res::Crash => {}
        }
    }

    // ------------------------------------------------------------ whole-tree audit

    fn audit(&self, env: &Env, t: usize) {
        let n = self.model(t).acc.len();
        self.content(t, false);
        if self.on(&[10]) {
            self.limits(t);
        }
        if self.on(&[20]) {
            self.printed(t);
        }
        if self.on(&[1, 11]) && !self.sched.st().stop {
            let tree = self.tree(t);
            let k = n / 3;
            if let Res::Ok((v, w)) =
                guarded(None, || (tree.iter().take(n + 4).collect::<Vec<_>>(), tree.iter_ways(k)))
            {
                let want = Ways::of(&v, k);
                self.check(&[1, 11], w == want, "traversal_ways", || {
                    format!("a traversal stepped through gives {want:?} but otherwise consumed {w:?}")
                });
            }
        }
        if self.on(&[7]) && !self.sched.st().stop {
            let tree = self.tree(t);
            for q in self.probe_data(t) {
                let probe = SimDatum::new(&q, &self.quiet_alts);
                let ask = || {
                    let v = tree.retrieve(&probe).take(n + 4).collect::<Vec<_>>();
                    let k = v.len() / 2;
                    (Ways::of(&v, k), tree.retrieve_ways(&probe, k))
                };
                if let Res::Ok((want, w)) = guarded(None, ask) {
                    self.check(&[7], w == want, "retrieve_ways", || {
                        format!("retrieve stepped through gives {want:?} but otherwise consumed {w:?}")
                    });
                }
            }
        }
        if self.on(&[11]) {
            let tree = self.tree(t);
            for _ in 0..2 {
                if let Res::Ok(v) = guarded(None, || tree.iter().take(n + 4).collect::<Vec<_>>()) {
                    self.check_iter(t, None, &v, v.len() < n + 4);
                }
            }
        }
        if self.on(&[2]) {
            self.audit_search(env, t);
        }
        if self.on(&[7]) {
            for q in self.probe_data(t) {
                let op = Op::Retrieve { t, d: q, take: None };
                if let Res::Ok(a) = self.ask(env, self.tree(t), &op, 1) {
                    self.judge(t, &op, &a, &HashSet::new());
                }
            }
        }
        if self.on(&[18]) {
            let mut ops: Vec<Op> = vec![Op::Iter { t, take: Some(n / 2) }, Op::Iter { t, take: None }];
            ops.extend(self.probe_data(t).into_iter().take(6).map(|d| Op::Retrieve { t, d, take: None }));
            for c in self.probe_cmps(t).into_iter().take(4) {
                ops.push(Op::Find { t, c: c.clone(), r: None });
                ops.push(Op::Knn { t, c: c.clone(), k: usize::MAX, r: None });
                ops.push(Op::Sorted { t, c: c.clone(), take: Some(n / 2) });
                ops.push(Op::Sorted { t, c, take: None });
            }
            for op in &ops {
                drop(self.ask(env, self.tree(t), op, 1));
            }
        }
        if self.on(&[19]) && n <= 600 {
            let w = self.cfg.max[0] - self.cfg.min[0];
            for (i, c) in self.probe_cmps(t).into_iter().enumerate().take(5) {
                let r = Some(w * [0.0, 0.02, 0.1, 0.3, 0.5][i % 5]).filter(|r| r.is_finite());
                for op in [
                    Op::Find { t, c: c.clone(), r: None },
                    Op::Find { t, c: c.clone(), r },
                    Op::Knn { t, c: c.clone(), k: 1 + i * n / 8, r: None },
                    Op::Knn { t, c: c.clone(), k: n, r },
                    Op::Sorted { t, c, take: Some(1 + i) },
                ] {
                    drop(self.ask(env, self.tree(t), &op, 1));
                }
            }
        }
        if self.on(&[4, 5, 6]) && n <= 600 {
            for c in self.probe_cmps(t) {
                let op = match self.pr.prop {
                    4 => Op::Find { t, c, r: None },
                    5 => Op::Knn { t, c, k: n / 2 + 1, r: None },
                    _ => Op::Sorted { t, c, take: None },
                };
                if let Res::Ok(a) = self.ask(env, self.tree(t), &op, 1) {
                    self.judge(t, &op, &a, &HashSet::new());
                }
            }
        }
    }

    fn probe_data(&self, t: usize) -> Vec<Datum> {
        let m = self.model(t);
        let mut v: Vec<Datum> = self
            .pr
            .probes
            .iter()
            .enumerate()
            .map(|(i, p)| Datum { id: 800_000_000 + i as u32, pt: *p, g: G::Pt(*p) })
            .collect();
        let step = m.acc.len() / 8 + 1;
        v.extend(m.acc.iter().step_by(step).cloned());
        v
    }

    fn probe_cmps(&self, t: usize) -> Vec<G> {
        if self.cfg.num.int() {
            return vec![];
        }
        let m = self.model(t);
        let mut v: Vec<G> = self.pr.probes.iter().map(|p| G::Pt(*p)).collect();
        let step = m.acc.len() / 3 + 1;
        v.extend(m.acc.iter().step_by(step).filter_map(|d| {
            oracle::bbox(&d.g).map(|b| G::Pt(b.0)).filter(|g| matches!(g, G::Pt(p) if p[0].is_finite() && p[1].is_finite()))
        }));
        v
    }

    /// C02: after a failed insert, everything accepted earlier is retrievable and searchable. An
    /// answer that is wrong on a fresh tree as well is not the failed insert's doing.
    fn audit_search(&self, env: &Env, t: usize) {
        if self.model(t).misplaced || self.model(t).acc.is_empty() || self.sched.st().stop {
            return;
        }
        let none = HashSet::new();
        let mut ops = vec![];
        for d in self.probe_data(t).into_iter().take(12) {
            ops.push(Op::Retrieve { t, d, take: None });
        }
        for c in self.probe_cmps(t).into_iter().take(4) {
            ops.push(Op::Find { t, c: c.clone(), r: None });
            ops.push(Op::Knn { t, c: c.clone(), k: self.model(t).acc.len(), r: None });
            ops.push(Op::Sorted { t, c, take: None });
        }
        for op in ops {
            let bad = |a: &Res<Ans>| -> Option<String> {
                match (a, &op) {
                    (Res::Panic(p), _) => Some(format!("panicked: {p}")),
                    (Res::Ok(Ans::Find(x)), Op::Find { c, r, .. }) => self.bad_find(t, c, *r, x, &none),
                    (Res::Ok(Ans::Knn(x)), Op::Knn { c, k, r, .. }) => self.bad_knn(t, c, *k, *r, x, &none),
                    (Res::Ok(Ans::Sorted(v, e)), Op::Sorted { c, take, .. }) => {
                        self.bad_sorted(t, c, *take, v, *e, &none)
                    }
                    (Res::Ok(Ans::Set(v, e)), Op::Retrieve { d, take, .. }) => {
                        self.bad_retrieve(t, d, *take, v, *e)
                    }
                    _ => None,
                }
            };
            let a = self.ask(env, self.tree(t), &op, 1);
            let mut b = bad(&a);
            if b.is_some() {
                let fresh = self.rebuilt(t);
                if bad(&self.ask(env, &fresh, &op, 1)).is_some() {
                    b = None;
                }
            }
            self.check(&[2], b.is_none(), "after_failed_insert", || {
                format!("after a failed insert, {}: {}", op.text(), b.unwrap())
            });
        }
    }

    fn limits(&self, t: usize) {
        let tree = self.tree(t);
        let cfg = &self.cfg;
        let s = match guarded(None, || tree.show()) {
            Res::Ok(s) => s,
            _ => return,
        };
        let mut got: Vec<(usize, usize)> = vec![];
        for l in s.lines().skip(1) {
            let ind = l.len() - l.trim_start().len();
            let tail = l.rsplit(':').next().unwrap_or("").trim();
            let count = if tail.is_empty() {
                Some(0)
            } else {
                tail.split(' ').next().and_then(|x| x.parse().ok())
            };
            match count {
                Some(c) if ind % 4 == 0 => got.push((ind / 4, c)),
                _ => {
                    // not the documented rendering: nothing to conclude from it
                    self.sched.st().stats.ambiguous += 1;
                    return;
                }
            }
        }
        for (i, &(d, c)) in got.iter().enumerate() {
            self.check(&[10], d <= cfg.depth as usize, "too_deep", || {
                format!("a cell is at depth {d}, the limit is {}", cfg.depth)
            });
            let split = got.get(i + 1).is_some_and(|x| x.0 == d + 1);
            self.check(&[10], split || c <= cfg.cap || d == cfg.depth as usize, "over_full", || {
                format!("an undivided cell at depth {d} holds {c} data, capacity {}", cfg.cap)
            });
        }
        let m = self.model(t);
        m.cells(cfg);
        if m.early || m.misplaced {
            return;
        }
        if m.ambiguous {
            self.sched.st().stats.ambiguous += 1;
            return;
        }
        let mut cells = vec![];
        m.cells.as_ref().unwrap().walk(&mut cells);
        let want: Vec<(usize, usize)> =
            cells.iter().map(|c| (c.depth as usize, c.own.len())).collect();
        self.check(&[10], want == got, "structure", || {
            format!("cells (depth, data) are {} but these data must give {}", cut(&format!("{got:?}")), cut(&format!("{want:?}")))
        });
    }

    /// C20: a printed tree shows every cell, where it is and how many data it holds.
    fn printed(&self, t: usize) {
        let tree = self.tree(t);
        let cfg = &self.cfg;
        let n = self.model(t).acc.len();
        let s = match guarded(None, || (tree.show(), tree.show(), tree.size())) {
            Res::Ok((a, b, m)) => {
                self.check(&[20], a == b && m == n, "print_twice", || format!("printed twice: {}", cut(&b)));
                a
            }
            Res::Panic(p) => return self.check(&[20], false, "print_panicked", || format!("printing panicked: {p}")),
            Res::Crash => return,
        };
        // (depth, corner, count)
        let mut got: Vec<(usize, String, usize)> = vec![];
        for l in s.lines().skip(1) {
            let ind = l.len() - l.trim_start().len();
            let count = l.rsplit_once("):").and_then(|(a, b)| {
                let c: usize = if b.is_empty() { 0 } else { b.trim().split(' ').next()?.parse().ok()? };
                let want = match c {
                    0 => String::new(),
                    1 => " 1 child".to_string(),
                    c => format!(" {c} children"),
                };
                (ind % 4 == 0 && b == want).then(|| (ind / 4, a.trim_start().to_string(), c))
            });
            self.check(&[20], count.is_some(), "print_line", || format!("printed line {l:?}"));
            let Some(x) = count else { return };
            got.push(x);
        }
        let head = match cfg.kind {
            Kind::Point => "Point Quadtree Root:",
            Kind::Bounds => "Bounds Quadtree Root:",
        };
        self.check(&[20], s.lines().next() == Some(head), "print_head", || format!("printed {}", cut(&s)));
        let sum: usize = got.iter().map(|x| x.2).sum();
        self.check(&[20], sum == n, "print_sum", || format!("printed cells hold {sum} data of {n}"));
        // where the cells must be, whatever the history
        let mut i = 0;
        let root = RefCell_::<T>::build(cfg, &[]);
        let bad = self.corners(&got, &mut i, &root);
        let bad = bad.or_else(|| (i != got.len()).then(|| format!("line {i} belongs to no cell")));
        self.check(&[20], bad.is_none(), "print_cell", || format!("{} in {}", bad.unwrap(), cut(&s)));
        let m = self.model(t);
        m.cells(cfg);
        if m.early || m.misplaced {
            return;
        }
        if m.ambiguous {
            self.sched.st().stats.ambiguous += 1;
            return;
        }
        let mut cells = vec![];
        m.cells.as_ref().unwrap().walk(&mut cells);
        let ok = cells.len() == got.len()
            && cells.iter().zip(&got).all(|(c, g)| c.depth as usize == g.0 && c.own.len() == g.2);
        self.check(&[20], ok, "print_counts", || {
            let want: Vec<_> = cells.iter().map(|c| (c.depth, c.own.len())).collect();
            format!("printed {}, but cells (depth, data) must be {}", cut(&s), cut(&format!("{want:?}")))
        });
    }

    /// Does the printed line `i`, and what follows it, show the cell `c`?
    fn corners(&self, got: &[(usize, String, usize)], i: &mut usize, c: &RefCell_<T>) -> Option<String> {
        let Some((d, at, _)) = got.get(*i) else {
            return Some(format!("nothing is printed for a cell at depth {}", c.depth));
        };
        let want = format!("({:.2}, {:.2}", c.lo[0], c.lo[1]);
        let close = || {
            let v: Vec<&str> = at.trim_start_matches('(').split(", ").collect();
            v.len() == 2
                && (0..2).all(|k| {
                    let scale = c.lo[k].to().abs().max(self.cfg.max[k].abs());
                    let x = v[k].parse::<f64>().unwrap_or(f64::NAN);
                    v[k].split('.').nth(1).is_some_and(|f| f.len() == 2)
                        && (x - c.lo[k].to()).abs() <= 0.0051 + 64.0 * T::EPS * scale
                })
        };
        let ok = *at == want || !self.cfg.exact && T::EPS != 0.0 && close();
        if *d != c.depth as usize || !ok {
            return Some(format!("{at}) at depth {d} where {want}) at depth {} belongs", c.depth));
        }
        *i += 1;
        if got.get(*i).is_some_and(|x| x.0 > *d) {
            if c.depth >= self.cfg.depth {
                return Some(format!("a cell below the limit of {}", self.cfg.depth));
            }
            for q in 0..4 {
                let (lo, hi) = c.sub_box(q);
                let s = RefCell_ { lo, hi, depth: c.depth + 1, own: vec![], sub: None };
                if let Some(b) = self.corners(got, i, &s) {
                    return Some(b);
                }
            }
        }
        None
    }

    // ------------------------------------------------------------ C12

    fn fingerprint(&self) -> Vec<Line> {
        let mut out = vec![];
        for (k, v) in unsafe { &*self.verdicts.get() } {
            if k.0 > 0 {
                out.push(line(format!("verdict {} {} {v}", k.0 - 1, k.1)));
            }
        }
        for t in 0..self.cfg.trees {
            out.extend(print_tree(self.tree(t), &self.cfg, self.pr, t, &self.quiet_alts));
        }
        out
    }
}

/// Everything observable of a tree that must not depend on the order of insertion.
fn print_tree<T: SimNum>(
    q: &Tree<T>,
    cfg: &Cfg,
    pr: &Program,
    t: usize,
    alts: &Arc<Alts<T>>,
) -> Vec<Line> {
    let mut out = vec![];
    out.push(line(format!("size {t} {}", q.size())));
    let show = match guarded(None, || q.show()) {
        Res::Ok(s) => s,
        _ => "panicked".into(),
    };
    // traversal up to the order inside a cell: cell sizes from the rendering
    let mut ids = match guarded(None, || q.iter().collect::<Vec<_>>()) {
        Res::Ok(v) => v,
        _ => vec![],
    };
    let mut i = 0;
    for l in show.lines().skip(1) {
        let tail = l.rsplit(':').next().unwrap_or("").trim();
        let c: usize = tail.split(' ').next().and_then(|x| x.parse().ok()).unwrap_or(0);
        let e = (i + c).min(ids.len());
        ids[i..e].sort();
        i = e;
    }
    out.push(line(format!("cells {t} {show}")));
    out.push(line(format!("traversal {t} {ids:?}")));
    let mut data: Vec<Datum> = pr
        .probes
        .iter()
        .enumerate()
        .map(|(i, p)| Datum { id: 800_000_000 + i as u32, pt: *p, g: G::Pt(*p) })
        .collect();
    data.extend(pr.init.iter().filter(|d| d.0 == t).map(|d| d.1.clone()).take(6));
    for op in pr.tasks.iter().flatten() {
        if let Op::Insert { t: u, d } = op {
            if *u == t {
                data.push(d.clone());
            }
        }
    }
    for d in data.iter().take(40) {
        let probe = SimDatum::new(d, alts);
        let mut v = match guarded(None, || q.retrieve(&probe).collect::<Vec<_>>()) {
            Res::Ok(v) => v,
            _ => vec![u32::MAX],
        };
        v.sort();
        out.push(line(format!("retrieve {t} {} {v:?}", d.id)));
    }
    if !cfg.num.int() {
        let mut cs: Vec<G> = pr.probes.iter().map(|p| G::Pt(*p)).collect();
        for op in pr.tasks.iter().flatten() {
            match op {
                Op::Find { t: u, c, .. } | Op::Knn { t: u, c, .. } | Op::Sorted { t: u, c, .. }
                    if *u == t =>
                {
                    cs.push(c.clone())
                }
                _ => {}
            }
        }
        for (i, c) in cs.iter().take(12).enumerate() {
            let cmp = Cmp::<T>::new(c, 1, cfg);
            // which error an unmeasurable datum causes, if any, is not promised
            let all = inserted(pr, t).all(|d| {
                admit(cfg, d) != Admit::Yes || oracle::dist(cfg.metric, c, &d.g).is_some()
            });
            let f = guarded(None, || T::find(q, &cmp, None).map(|x| vec![x.1]));
            let k = guarded(None, || {
                T::knn(q, &cmp, 7, None).map(|v| v.into_iter().map(|x| x.1).collect::<Vec<_>>())
            });
            let s = guarded(None, || Ok::<_, Error>(T::sorted(q, &cmp).map(|x| x.1).collect::<Vec<_>>()));
            let top = oracle::tol(cfg, T::EPS, c, 0.0);
            let far = |v: &[f64]| v.iter().map(|d| oracle::tol(cfg, T::EPS, c, *d)).fold(top, f64::max);
            for (what, r) in [("find", f), ("knn", k), ("sorted", s)] {
                if !all && what != "sorted" {
                    continue;
                }
                out.push(match r {
                    Res::Ok(Ok(mut v)) => {
                        v.sort_by(f64::total_cmp);
                        Line { text: format!("{what} {t} {i}"), tol: far(&v), nums: v }
                    }
                    Res::Ok(Err(e)) => line(format!("{what} {t} {i} {e:?}")),
                    Res::Crash => line(format!("{what} {t} {i} crash")),
                    Res::Panic(_) => line(format!("{what} {t} {i} panic")),
                });
            }
        }
    }
    out
}

fn inserted(pr: &Program, t: usize) -> impl Iterator<Item = &Datum> {
    let a = pr.init.iter().filter(move |d| d.0 == t).map(|d| &d.1);
    let b = pr.tasks.iter().flatten().filter_map(move |op| match op {
        Op::Insert { t: u, d } if *u == t => Some(d),
        _ => None,
    });
    a.chain(b)
}

/// The same data by one caller, in reversed order.
fn permuted<T: SimNum>(pr: &Program) -> Vec<Line> {
    let cfg = effective(&pr.cfg);
    let alts = Alts::<T>::new(pr);
    let mut trees: Vec<Tree<T>> = (0..cfg.trees).map(|_| Tree::new(&pr.cfg)).collect();
    let mut verdicts = BTreeMap::new();
    let mut put = |t: usize, d: &Datum| -> String {
        let sd = SimDatum::new(d, &alts);
        let q = &mut trees[t];
        match guarded(None, || q.insert(sd)) {
            Res::Ok(Ok(())) => "Ok".into(),
            Res::Ok(Err(e)) => format!("{e:?}"),
            Res::Crash => "crashed".into(),
            Res::Panic(_) => "panicked".into(),
        }
    };
    for (ti, ops) in pr.tasks.iter().enumerate().rev() {
        for (i, op) in ops.iter().enumerate().rev() {
            if let Op::Insert { t, d } = op {
                let v = put(*t, d);
                verdicts.insert((ti, i), v);
            }
        }
    }
    for (t, d) in pr.init.iter().rev() {
        put(*t, d);
    }
    let mut out: Vec<Line> =
        verdicts.into_iter().map(|(k, v)| line(format!("verdict {} {} {v}", k.0, k.1))).collect();
    for (t, q) in trees.iter().enumerate() {
        out.extend(print_tree(q, &cfg, pr, t, &alts));
    }
    out
}

fn groups(v: &[(u32, f64)], drop_last: bool) -> Vec<(u64, Vec<u32>)> {
    let mut out: Vec<(u64, Vec<u32>)> = vec![];
    for (id, x) in v {
        match out.last_mut() {
            Some((b, g)) if *b == x.to_bits() => g.push(*id),
            _ => out.push((x.to_bits(), vec![*id])),
        }
    }
    for g in &mut out {
        g.1.sort();
    }
    if drop_last {
        if let Some(l) = out.last_mut() {
            l.1 = vec![l.1.len() as u32];
        }
    }
    out
}

fn same(a: &Ans, b: &Ans) -> bool {
    match (a, b) {
        (Ans::Find(Ok(x)), Ans::Find(Ok(y))) => x.1.to_bits() == y.1.to_bits(),
        (Ans::Find(Err(x)), Ans::Find(Err(y))) => x == y,
        (Ans::Knn(Ok(x)), Ans::Knn(Ok(y))) => groups(x, true) == groups(y, true),
        (Ans::Knn(Err(x)), Ans::Knn(Err(y))) => x == y,
        (Ans::Sorted(x, e), Ans::Sorted(y, f)) => e == f && groups(x, !e) == groups(y, !f),
        (Ans::Set(x, e), Ans::Set(y, f)) => {
            if e != f || x.len() != y.len() {
                return false;
            }
            if !e {
                return true;
            }
            let (mut x, mut y) = (x.clone(), y.clone());
            x.sort();
            y.sort();
            x == y
        }
        _ => false,
    }
}
