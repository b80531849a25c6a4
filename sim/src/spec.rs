//! A run, written out as data: configuration, preload, callers' programs, fault plan and schedules.
//! It is what a replay file contains and what the minimiser works on.

use std::fmt::Write as _;

pub type P2 = [f64; 2];

#[derive(Clone, Debug, PartialEq)]
pub enum G {
    Pt(P2),
    Ln(P2, P2),
    Ls(Vec<P2>),
    Pg(Vec<P2>, Vec<Vec<P2>>),
    Rc(P2, P2),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Point,
    Bounds,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Num {
    F64,
    F32,
    I32,
    /// far from zero, where f64 is too coarse
    I64,
}
impl Num {
    pub fn int(self) -> bool {
        matches!(self, Num::I32 | Num::I64)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Metric {
    None,
    Euclid,
    Sphere,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Cfg {
    pub kind: Kind,
    pub num: Num,
    pub metric: Metric,
    pub min: P2,
    pub max: P2,
    pub depth: u8,
    pub cap: usize,
    /// build with `from_bounds` (depth and cap are then the documented defaults)
    pub default_ctor: bool,
    /// bounds are powers of two and the data on a coarse dyadic grid: arithmetic on them is exact
    pub exact: bool,
    /// how many trees the callers share (1 or 2)
    pub trees: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Datum {
    pub id: u32,
    pub pt: P2,
    pub g: G,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Insert { t: usize, d: Datum },
    Retrieve { t: usize, d: Datum, take: Option<usize> },
    Iter { t: usize, take: Option<usize> },
    Find { t: usize, c: G, r: Option<f64> },
    Knn { t: usize, c: G, k: usize, r: Option<f64> },
    Sorted { t: usize, c: G, take: Option<usize> },
    Size { t: usize },
    Audit { t: usize },
    /// one caller steps several queries in turns (`turns`: two bits a turn)
    Weave { turns: u64, parts: Vec<Op> },
}

#[derive(Clone, Debug, PartialEq)]
pub enum FaultKind {
    /// the callback panics: the caller crashes inside the operation
    Panic,
    /// the geometry has no bounding box this time
    Unbound,
    /// the geometry has NaN coordinates this time
    Nan,
    /// the geometry is of a kind the measure does not support this time
    Odd,
    /// the datum reports another place this time
    Drift(P2),
    /// the caller is descheduled at this callback for so many steps
    Stall(u64),
    /// the callback runs a query on the same tree (0 find 1 knn 2 sorted 3 retrieve 4 traverse)
    Reenter(u8, G),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    pub task: usize,
    pub op: usize,
    pub ord: u64,
    pub kind: FaultKind,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Sched {
    /// drawn from a seed; switch probability in 1/1000
    Seeded { seed: u64, permille: u32 },
    /// deviations from "keep running, else the lowest runnable task": (decision number, task)
    Explicit(Vec<(u64, usize)>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Program {
    pub prop: u32,
    pub cfg: Cfg,
    pub init: Vec<(usize, Datum)>,
    pub tasks: Vec<Vec<Op>>,
    pub faults: Vec<Fault>,
    pub scheds: Vec<Sched>,
    /// comparators / positions used by audits
    pub probes: Vec<P2>,
    /// stack of each caller thread in KiB (0: default)
    pub stack_kib: usize,
    /// callers are also interleaved inside the library, about every so many accesses to shared
    /// memory (0: only where a callback is called); needs an instrumented build
    pub fine: u32,
}

// ---------------------------------------------------------------- text form

fn f(x: f64) -> String {
    format!("{:?}", x)
}
fn p(s: &mut String, q: &P2) {
    let _ = write!(s, " {} {}", f(q[0]), f(q[1]));
}
fn w_g(s: &mut String, g: &G) {
    match g {
        G::Pt(a) => {
            s.push_str(" pt");
            p(s, a);
        }
        G::Ln(a, b) => {
            s.push_str(" ln");
            p(s, a);
            p(s, b);
        }
        G::Rc(a, b) => {
            s.push_str(" rc");
            p(s, a);
            p(s, b);
        }
        G::Ls(v) => {
            let _ = write!(s, " ls {}", v.len());
            v.iter().for_each(|q| p(s, q));
        }
        G::Pg(e, hs) => {
            let _ = write!(s, " pg {}", e.len());
            e.iter().for_each(|q| p(s, q));
            let _ = write!(s, " {}", hs.len());
            for h in hs {
                let _ = write!(s, " {}", h.len());
                h.iter().for_each(|q| p(s, q));
            }
        }
    }
}
fn w_d(s: &mut String, d: &Datum) {
    let _ = write!(s, " {}", d.id);
    p(s, &d.pt);
    w_g(s, &d.g);
}
fn opt_n(x: &Option<usize>) -> String {
    x.map_or("all".into(), |n| n.to_string())
}
fn opt_r(x: &Option<f64>) -> String {
    x.map_or("-".into(), f)
}

impl Op {
    pub fn text(&self) -> String {
        let mut s = String::new();
        match self {
            Op::Insert { t, d } => {
                let _ = write!(s, "insert {t}");
                w_d(&mut s, d);
            }
            Op::Retrieve { t, d, take } => {
                let _ = write!(s, "retrieve {t} {}", opt_n(take));
                w_d(&mut s, d);
            }
            Op::Iter { t, take } => {
                let _ = write!(s, "iter {t} {}", opt_n(take));
            }
            Op::Find { t, c, r } => {
                let _ = write!(s, "find {t} {}", opt_r(r));
                w_g(&mut s, c);
            }
            Op::Knn { t, c, k, r } => {
                let _ = write!(s, "knn {t} {k} {}", opt_r(r));
                w_g(&mut s, c);
            }
            Op::Sorted { t, c, take } => {
                let _ = write!(s, "sorted {t} {}", opt_n(take));
                w_g(&mut s, c);
            }
            Op::Size { t } => {
                let _ = write!(s, "size {t}");
            }
            Op::Audit { t } => {
                let _ = write!(s, "audit {t}");
            }
            Op::Weave { turns, parts } => {
                let _ = write!(s, "weave {turns} {}", parts.len());
                for p in parts {
                    s.push(' ');
                    s.push_str(&p.text());
                }
            }
        }
        s
    }
    pub fn tree(&self) -> usize {
        match self {
            Op::Insert { t, .. }
            | Op::Retrieve { t, .. }
            | Op::Iter { t, .. }
            | Op::Find { t, .. }
            | Op::Knn { t, .. }
            | Op::Sorted { t, .. }
            | Op::Size { t }
            | Op::Audit { t } => *t,
            Op::Weave { parts, .. } => parts[0].tree(),
        }
    }
    /// Every tree it uses, in ascending order.
    pub fn trees(&self) -> Vec<usize> {
        let mut v = match self {
            Op::Weave { parts, .. } => parts.iter().map(|p| p.tree()).collect(),
            _ => vec![self.tree()],
        };
        v.sort();
        v.dedup();
        v
    }
    /// The queries it consists of.
    pub fn parts(&self) -> Vec<&Op> {
        match self {
            Op::Weave { parts, .. } => parts.iter().collect(),
            o => vec![o],
        }
    }
}

impl Program {
    pub fn text(&self) -> String {
        let mut s = String::new();
        let c = &self.cfg;
        let _ = writeln!(s, "property C{:02}", self.prop);
        let _ = write!(
            s,
            "cfg {} {} {}",
            match c.kind {
                Kind::Point => "point",
                Kind::Bounds => "bounds",
            },
            match c.num {
                Num::F64 => "f64",
                Num::F32 => "f32",
                Num::I32 => "i32",
                Num::I64 => "i64",
            },
            match c.metric {
                Metric::None => "none",
                Metric::Euclid => "euclid",
                Metric::Sphere => "sphere",
            }
        );
        p(&mut s, &c.min);
        p(&mut s, &c.max);
        let _ = writeln!(
            s,
            " {} {} {} {} {}",
            c.depth, c.cap, c.default_ctor as u8, c.exact as u8, c.trees
        );
        let _ = writeln!(s, "stack {}", self.stack_kib);
        if self.fine > 0 {
            let _ = writeln!(s, "fine {}", self.fine);
        }
        for q in &self.probes {
            s.push_str("probe");
            p(&mut s, q);
            s.push('\n');
        }
        for (t, d) in &self.init {
            let _ = write!(s, "init {t}");
            w_d(&mut s, d);
            s.push('\n');
        }
        for (i, t) in self.tasks.iter().enumerate() {
            let _ = writeln!(s, "task {i}");
            for o in t {
                let _ = writeln!(s, "op {}", o.text());
            }
        }
        for x in &self.faults {
            let _ = write!(s, "fault {} {} {}", x.task, x.op, x.ord);
            match &x.kind {
                FaultKind::Panic => s.push_str(" panic"),
                FaultKind::Unbound => s.push_str(" unbound"),
                FaultKind::Nan => s.push_str(" nan"),
                FaultKind::Odd => s.push_str(" odd"),
                FaultKind::Drift(q) => {
                    s.push_str(" drift");
                    p(&mut s, q);
                }
                FaultKind::Stall(n) => {
                    let _ = write!(s, " stall {n}");
                }
                FaultKind::Reenter(k, g) => {
                    let _ = write!(s, " reenter {k}");
                    w_g(&mut s, g);
                }
            }
            s.push('\n');
        }
        for x in &self.scheds {
            match x {
                Sched::Seeded { seed, permille } => {
                    let _ = writeln!(s, "sched seeded {seed} {permille}");
                }
                Sched::Explicit(v) => {
                    s.push_str("sched explicit");
                    for (a, b) in v {
                        let _ = write!(s, " {a}:{b}");
                    }
                    s.push('\n');
                }
            }
        }
        s
    }

    pub fn parse(text: &str) -> Result<Program, String> {
        let mut pr = Program {
            prop: 0,
            cfg: Cfg {
                kind: Kind::Point,
                num: Num::F64,
                metric: Metric::Euclid,
                min: [0.0, 0.0],
                max: [1.0, 1.0],
                depth: 4,
                cap: 4,
                default_ctor: false,
                exact: false,
                trees: 1,
            },
            init: vec![],
            tasks: vec![],
            faults: vec![],
            scheds: vec![],
            probes: vec![],
            stack_kib: 0,
            fine: 0,
        };
        for line in text.lines() {
            let line = line.trim();
            if line.is_empty() || line.starts_with('#') {
                continue;
            }
            let mut r = Rd(line.split_whitespace());
            match r.word()? {
                "property" => {
                    pr.prop = r.word()?[1..].parse().map_err(|_| "bad property")?;
                }
                "cfg" => {
                    pr.cfg.kind = match r.word()? {
                        "point" => Kind::Point,
                        _ => Kind::Bounds,
                    };
                    pr.cfg.num = match r.word()? {
                        "f64" => Num::F64,
                        "f32" => Num::F32,
                        "i64" => Num::I64,
                        _ => Num::I32,
                    };
                    pr.cfg.metric = match r.word()? {
                        "none" => Metric::None,
                        "euclid" => Metric::Euclid,
                        _ => Metric::Sphere,
                    };
                    pr.cfg.min = r.p2()?;
                    pr.cfg.max = r.p2()?;
                    pr.cfg.depth = r.num()?;
                    pr.cfg.cap = r.num()?;
                    pr.cfg.default_ctor = r.num::<u8>()? != 0;
                    pr.cfg.exact = r.num::<u8>()? != 0;
                    pr.cfg.trees = r.num()?;
                }
                "stack" => pr.stack_kib = r.num()?,
                "fine" => pr.fine = r.num()?,
                "probe" => pr.probes.push(r.p2()?),
                "init" => {
                    let t = r.num()?;
                    pr.init.push((t, r.d()?));
                }
                "task" => pr.tasks.push(vec![]),
                "op" => {
                    let o = r.op()?;
                    pr.tasks.last_mut().ok_or("op before task")?.push(o);
                }
                "fault" => {
                    let task = r.num()?;
                    let op = r.num()?;
                    let ord = r.num()?;
                    let kind = match r.word()? {
                        "panic" => FaultKind::Panic,
                        "unbound" => FaultKind::Unbound,
                        "nan" => FaultKind::Nan,
                        "odd" => FaultKind::Odd,
                        "drift" => FaultKind::Drift(r.p2()?),
                        "stall" => FaultKind::Stall(r.num()?),
                        "reenter" => FaultKind::Reenter(r.num()?, r.g()?),
                        x => return Err(format!("unknown fault {x}")),
                    };
                    pr.faults.push(Fault { task, op, ord, kind });
                }
                "sched" => match r.word()? {
                    "seeded" => pr.scheds.push(Sched::Seeded { seed: r.num()?, permille: r.num()? }),
                    _ => {
                        let mut v = vec![];
                        for w in r.0 {
                            let (a, b) = w.split_once(':').ok_or("bad schedule")?;
                            v.push((
                                a.parse().map_err(|_| "bad schedule")?,
                                b.parse().map_err(|_| "bad schedule")?,
                            ));
                        }
                        pr.scheds.push(Sched::Explicit(v));
                    }
                },
                x => return Err(format!("unknown line {x}")),
            }
        }
        Ok(pr)
    }
}

struct Rd<'a>(std::str::SplitWhitespace<'a>);
impl<'a> Rd<'a> {
    fn word(&mut self) -> Result<&'a str, String> {
        self.0.next().ok_or_else(|| "line ends early".to_string())
    }
    fn num<T: std::str::FromStr>(&mut self) -> Result<T, String> {
        let w = self.word()?;
        w.parse().map_err(|_| format!("bad number {w}"))
    }
    fn p2(&mut self) -> Result<P2, String> {
        Ok([self.num()?, self.num()?])
    }
    fn ps(&mut self) -> Result<Vec<P2>, String> {
        let n: usize = self.num()?;
        (0..n).map(|_| self.p2()).collect()
    }
    fn g(&mut self) -> Result<G, String> {
        Ok(match self.word()? {
            "pt" => G::Pt(self.p2()?),
            "ln" => G::Ln(self.p2()?, self.p2()?),
            "rc" => G::Rc(self.p2()?, self.p2()?),
            "ls" => G::Ls(self.ps()?),
            "pg" => {
                let e = self.ps()?;
                let n: usize = self.num()?;
                let mut hs = vec![];
                for _ in 0..n {
                    hs.push(self.ps()?);
                }
                G::Pg(e, hs)
            }
            x => return Err(format!("unknown geometry {x}")),
        })
    }
    fn d(&mut self) -> Result<Datum, String> {
        Ok(Datum { id: self.num()?, pt: self.p2()?, g: self.g()? })
    }
    fn take(&mut self) -> Result<Option<usize>, String> {
        let w = self.word()?;
        if w == "all" {
            Ok(None)
        } else {
            w.parse().map(Some).map_err(|_| "bad count".into())
        }
    }
    fn rad(&mut self) -> Result<Option<f64>, String> {
        let w = self.word()?;
        if w == "-" {
            Ok(None)
        } else {
            w.parse().map(Some).map_err(|_| "bad radius".into())
        }
    }
    fn op(&mut self) -> Result<Op, String> {
        Ok(match self.word()? {
            "insert" => Op::Insert { t: self.num()?, d: self.d()? },
            "retrieve" => {
                let t = self.num()?;
                let take = self.take()?;
                Op::Retrieve { t, take, d: self.d()? }
            }
            "iter" => Op::Iter { t: self.num()?, take: self.take()? },
            "find" => {
                let t = self.num()?;
                let r = self.rad()?;
                Op::Find { t, r, c: self.g()? }
            }
            "knn" => {
                let t = self.num()?;
                let k = self.num()?;
                let r = self.rad()?;
                Op::Knn { t, k, r, c: self.g()? }
            }
            "sorted" => {
                let t = self.num()?;
                let take = self.take()?;
                Op::Sorted { t, take, c: self.g()? }
            }
            "size" => Op::Size { t: self.num()? },
            "audit" => Op::Audit { t: self.num()? },
            "weave" => {
                let turns = self.num()?;
                let n: usize = self.num()?;
                let parts = (0..n).map(|_| self.op()).collect::<Result<Vec<_>, _>>()?;
                if parts.is_empty() {
                    return Err("empty weave".into());
                }
                Op::Weave { turns, parts }
            }
            x => return Err(format!("unknown op {x}")),
        })
    }
}
