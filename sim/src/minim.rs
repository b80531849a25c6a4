//! Shrinks a failing program while the same violation class persists.

use crate::spec::*;
use std::time::{Duration, Instant};

pub struct Minimiser<'a> {
    /// does this program still fail in the same way?
    pub fails: Box<dyn FnMut(&Program) -> bool + 'a>,
    pub tries: usize,
    pub until: Instant,
}

impl<'a> Minimiser<'a> {
    pub fn new(fails: Box<dyn FnMut(&Program) -> bool + 'a>, tries: usize, secs: u64) -> Self {
        Minimiser { fails, tries, until: Instant::now() + Duration::from_secs(secs) }
    }

    fn ok(&mut self, p: &Program) -> bool {
        if self.tries == 0 || Instant::now() > self.until {
            return false;
        }
        self.tries -= 1;
        (self.fails)(p)
    }

    /// Drop runs of list elements, halving the run length.
    fn ddmin<T: Clone>(
        &mut self,
        best: &mut Program,
        list: impl Fn(&Program) -> Vec<T>,
        put: impl Fn(&Program, &[usize]) -> Program,
    ) -> bool {
        let mut changed = false;
        let mut n = list(best).len();
        let mut len = n;
        while len > 0 {
            let mut at = 0;
            while at < n {
                let keep: Vec<usize> = (0..n).filter(|i| *i < at || *i >= at + len).collect();
                if keep.len() == n {
                    break;
                }
                let cand = put(best, &keep);
                if self.ok(&cand) {
                    *best = cand;
                    n = list(best).len();
                    changed = true;
                } else {
                    at += len;
                }
            }
            len /= 2;
        }
        changed
    }

    pub fn run(&mut self, start: Program) -> Program {
        let mut best = start;
        for _ in 0..4 {
            let mut changed = false;
            // whole callers
            for t in 0..best.tasks.len() {
                if !best.tasks[t].is_empty() {
                    let all: Vec<usize> = vec![];
                    let cand = keep_ops(&best, t, &all);
                    if self.ok(&cand) {
                        best = cand;
                        changed = true;
                    }
                }
            }
            changed |= self.ddmin(
                &mut best,
                |p| p.init.clone(),
                |p, k| {
                    let mut q = p.clone();
                    q.init = k.iter().map(|i| p.init[*i].clone()).collect();
                    q
                },
            );
            for t in 0..best.tasks.len() {
                changed |=
                    self.ddmin(&mut best, |p| p.tasks[t].clone(), |p, k| keep_ops(p, t, k));
            }
            changed |= self.ddmin(
                &mut best,
                |p| p.faults.clone(),
                |p, k| {
                    let mut q = p.clone();
                    q.faults = k.iter().map(|i| p.faults[*i].clone()).collect();
                    q
                },
            );
            for s in 0..best.scheds.len() {
                changed |= self.ddmin(
                    &mut best,
                    |p| match &p.scheds[s] {
                        Sched::Explicit(v) => v.clone(),
                        _ => vec![],
                    },
                    |p, k| {
                        let mut q = p.clone();
                        if let Sched::Explicit(v) = &p.scheds[s] {
                            q.scheds[s] = Sched::Explicit(k.iter().map(|i| v[*i]).collect());
                        }
                        q
                    },
                );
            }
            changed |= self.ddmin(
                &mut best,
                |p| p.probes.clone(),
                |p, k| {
                    let mut q = p.clone();
                    q.probes = k.iter().map(|i| p.probes[*i]).collect();
                    q
                },
            );
            changed |= self.simpler(&mut best);
            if !changed {
                break;
            }
        }
        // callers that do nothing, last ones first so that numbers stay
        while best.tasks.len() > 1 && best.tasks.last().is_some_and(|t| t.is_empty()) {
            let mut q = best.clone();
            q.tasks.pop();
            if !self.ok(&q) {
                break;
            }
            best = q;
        }
        best
    }

    /// Simpler settings and arguments.
    fn simpler(&mut self, best: &mut Program) -> bool {
        let mut changed = false;
        let mut cands: Vec<Program> = vec![];
        let mut with = |f: &dyn Fn(&mut Program)| {
            let mut q = best.clone();
            f(&mut q);
            if q != *best {
                cands.push(q);
            }
        };
        with(&|q| q.cfg.trees = 1.max(used_trees(q)));
        with(&|q| q.cfg.default_ctor = false);
        with(&|q| q.cfg.num = if q.cfg.num == Num::F32 { Num::F64 } else { q.cfg.num });
        with(&|q| q.stack_kib = 0);
        with(&|q| q.fine = 0);
        for d in [1u8, 2, 4] {
            with(&move |q| q.cfg.depth = q.cfg.depth.min(d));
        }
        for c in [1usize, 2, 4] {
            with(&move |q| q.cfg.cap = q.cfg.cap.min(c));
        }
        for q in cands {
            if self.ok(&q) {
                *best = q;
                changed = true;
                break;
            }
        }
        for t in 0..best.tasks.len() {
            for i in 0..best.tasks[t].len() {
                let mut q = best.clone();
                match &mut q.tasks[t][i] {
                    Op::Retrieve { take, .. } | Op::Iter { take, .. } | Op::Sorted { take, .. } => {
                        *take = None
                    }
                    Op::Find { r, .. } => *r = None,
                    Op::Knn { r, .. } => *r = None,
                    _ => {}
                }
                if q != *best && self.ok(&q) {
                    *best = q;
                    changed = true;
                }
                // fewer queries in turns
                if let Op::Weave { turns, parts } = best.tasks[t][i].clone() {
                    for j in 0..parts.len() {
                        let mut rest = parts.clone();
                        rest.remove(j);
                        let mut q = best.clone();
                        q.tasks[t][i] = match rest.len() {
                            0 => break,
                            1 => rest.remove(0),
                            _ => Op::Weave { turns, parts: rest },
                        };
                        if self.ok(&q) {
                            *best = q;
                            changed = true;
                            break;
                        }
                    }
                }
            }
        }
        changed
    }
}

fn used_trees(p: &Program) -> usize {
    let a = p.init.iter().map(|x| x.0 + 1).max().unwrap_or(1);
    let b = p.tasks.iter().flatten().flat_map(|o| o.trees()).map(|t| t + 1).max().unwrap_or(1);
    a.max(b)
}

/// Keep some operations of one caller; the faults move along with their operations.
fn keep_ops(p: &Program, t: usize, keep: &[usize]) -> Program {
    let mut q = p.clone();
    q.tasks[t] = keep.iter().map(|i| p.tasks[t][*i].clone()).collect();
    q.faults = p
        .faults
        .iter()
        .filter_map(|f| {
            if f.task != t {
                return Some(f.clone());
            }
            let at = keep.iter().position(|i| *i == f.op)?;
            let mut f = f.clone();
            f.op = at;
            Some(f)
        })
        .collect();
    q
}
