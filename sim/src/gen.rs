//! Seeded program generator: every run draws its own mix of everything (swarm style).

use crate::oracle;
use crate::rng::Rng;
use crate::spec::*;
use std::f64::consts::{FRAC_PI_2, PI};

struct Gen {
    r: Rng,
    prop: u32,
    cfg: Cfg,
    id: u32,
    /// grid step in exact configurations and integer trees
    step: P2,
    pool: Vec<P2>,
    place: [u32; 9],
    shape: [u32; 5],
    size: f64,
    outside: f64,
    strange: f64,
    /// share of data that cannot be measured, ever
    unmeasurable: f64,
    known: Vec<Datum>,
    cmps: Vec<G>,
    /// share of queries that one caller steps in turns with others
    weave: f64,
}

const SEARCH: &[u32] = &[2, 4, 5, 6, 8, 9, 12, 19];

pub fn generate(prop: u32, seed: u64, tier_scale: f64) -> Program {
    let mut r = Rng::new(seed);
    let search = SEARCH.contains(&prop);
    let kind = if r.chance(0.5) { Kind::Point } else { Kind::Bounds };
    let num = if matches!(prop, 4 | 5 | 6 | 8 | 9 | 19) {
        if r.chance(0.8) { Num::F64 } else { Num::F32 }
    } else {
        match r.weighted(&[65, 15, 20]) {
            0 => Num::F64,
            1 => Num::F32,
            _ => if r.chance(0.6) { Num::I32 } else { Num::I64 },
        }
    };
    let metric = if num.int() {
        Metric::None
    } else if prop == 3 {
        [Metric::None, Metric::Euclid, Metric::Sphere][r.weighted(&[15, 50, 35])]
    } else if search || matches!(prop, 13 | 18) {
        [Metric::Euclid, Metric::Sphere][r.weighted(&[60, 40])]
    } else {
        [Metric::None, Metric::Euclid, Metric::Sphere][r.weighted(&[15, 60, 25])]
    };
    let mut cfg = Cfg {
        kind,
        num,
        metric,
        min: [0.0, 0.0],
        max: [1.0, 1.0],
        depth: 4,
        cap: 4,
        default_ctor: r.chance(0.12),
        exact: false,
        trees: if r.chance(0.2) { 2 } else { 1 },
    };
    let step = bounds(&mut r, &mut cfg);
    let step = unusual(&mut r, &mut cfg, step);
    let n0 = {
        let top = match r.weighted(&[55, 30, 12, 3]) {
            0 => 14,
            1 => 60,
            2 => 200,
            _ => 700,
        };
        let top = if matches!(prop, 2 | 12 | 8) { top.min(120) } else { top };
        r.below(top + 1)
    };
    let xl = matches!(prop, 13 | 18) && r.chance(0.05 * tier_scale) || matches!(prop, 1 | 10 | 4) && r.chance(0.004);
    let n0 = if xl { r.range(1500, 5000) } else { n0 };
    // past what two bytes can count
    let huge = prop == 1 && r.chance(0.0004);
    let (xl, n0) = if huge { (true, r.range(65_530, 67_000)) } else { (xl, n0) };
    // a small tree with a long life: hundreds of operations by one or two callers
    let grind = !xl && prop != 12 && r.chance(0.004);
    let n0 = if grind { n0.min(12) } else { n0 };
    // depth and capacity
    let deep_ok = n0 <= (if prop == 12 { 15 } else { 60 }) && !xl;
    cfg.depth = match r.weighted(&[6, 10, 12, 12, 14, 10, 12, 10, 6, 3, 2]) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        4 => 4,
        5 => 5,
        6 => 8,
        7 => 12,
        8 => 20,
        9 if deep_ok => 60,
        10 if deep_ok => 255,
        _ => 7,
    };
    cfg.cap = match r.weighted(&[6, 18, 16, 14, 16, 8, 10, 4, 5]) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        4 => 4,
        5 => 5,
        6 => 8,
        7 => 16,
        _ => *r.pick(&[10usize, 33, 64, 100, 1000, 1 << 40, usize::MAX]),
    };
    if prop == 18 && r.chance(0.15) {
        cfg.cap = *r.pick(&[64, 500, 1000, 1 << 20]);
    }
    if xl {
        cfg.depth = r.range(6, 14) as u8;
        cfg.cap = r.range(1, 8);
    }
    if prop == 2 {
        cfg.cap = cfg.cap.min(9);
        cfg.depth = cfg.depth.max(1).min(60);
    }
    // a full load of a large cell, so close together that it moves down many levels
    let heap = prop == 18 && !xl && r.chance(0.03);
    let n0 = if heap {
        cfg.cap = *r.pick(&[40, 100, 300]);
        cfg.depth = *r.pick(&[5, 12, 30]);
        cfg.cap + 1 + r.below(cfg.cap)
    } else {
        n0
    };
    let place: [u32; 9] = std::array::from_fn(|i| {
        let base = [30, 20, 20, 12, 10, 6, 10, 10, 8][i];
        if r.chance(0.5) { 0 } else { base }
    });
    let place = if place.iter().all(|x| *x == 0) { [30, 20, 20, 12, 10, 6, 10, 10, 8] } else { place };
    let place = if heap { [0, 0, 10, 10, 0, 0, 0, 0, 0] } else { place };
    let shape: [u32; 5] =
        std::array::from_fn(|i| if r.chance(0.4) { 0 } else { [20, 15, 15, 10, 40][i] });
    let shape = if shape.iter().all(|x| *x == 0) { [20, 15, 15, 10, 40] } else { shape };
    let size = *r.pick(&[0.01, 0.05, 0.2, 0.5, 1.0]);
    let outside = if r.chance(0.4) { *r.pick(&[0.02, 0.1, 0.4]) } else { 0.0 };
    let strange = if matches!(prop, 1 | 3) && r.chance(0.4) { 0.08 } else { 0.0 };
    let mut g = Gen {
        r,
        prop,
        cfg,
        id: 1,
        step,
        pool: vec![],
        place,
        shape,
        size,
        outside,
        strange,
        unmeasurable: 0.0,
        known: vec![],
        cmps: vec![],
        weave: 0.0,
    };
    if g.r.chance(0.5) {
        g.weave = *g.r.pick(&[0.1, 0.3]);
    }
    if prop == 9 && g.r.chance(0.6) || prop == 18 && g.r.chance(0.3) {
        g.unmeasurable = *g.r.pick(&[0.05, 0.3, 0.9]);
    }
    for _ in 0..g.r.range(1, 6) {
        let p = g.uniform();
        g.pool.push(p);
    }
    g.build(n0, xl, grind)
}

fn bounds(r: &mut Rng, c: &mut Cfg) -> P2 {
    if c.num.int() {
        let w = *r.pick(&[1.0, 2.0, 7.0, 10.0, 64.0, 1000.0, 1.0e6]);
        let h = if r.chance(0.7) { w } else { *r.pick(&[1.0, 3.0, 100.0, 4097.0]) };
        let x = *r.pick(&[0.0, -7.0, -100.0, 1.0e6, -1.0e6, 2.0e9, -2.1e9]);
        let y = *r.pick(&[0.0, -5.0, 33.0, 2.0e9, -2.1e9]);
        c.min = [x, y];
        c.max = [x + w, y + h];
        c.exact = true;
        return [1.0, 1.0];
    }
    if c.metric == Metric::Sphere {
        let e = FRAC_PI_2;
        let (a, b) = *r.pick(&[
            ([-PI, -e], [PI, e]),
            ([-PI, -e], [PI, e]),
            ([-PI, -e], [PI, e]),
            ([0.0, -e], [PI, e]),
            ([-PI, -e], [0.0, e]),
            ([2.5, -1.0], [PI, 1.0]),
            ([-PI, 0.3], [-2.5, 1.3]),
            ([-PI, 1.2], [PI, e]),
            ([-PI, -e], [PI, -1.3]),
            ([-PI, 0.0], [PI, e]),
            ([0.0, 0.0], [1.0, 1.0]),
            ([-0.25, 0.85], [-0.125, 0.975]),
            ([-2.5, -0.5], [2.5, 0.5]),
        ]);
        let snap = |p: P2| -> P2 {
            if c.num == Num::F32 { [p[0] as f32 as f64, p[1] as f32 as f64] } else { p }
        };
        c.min = snap(a);
        c.max = snap(b);
        return [(b[0] - a[0]) / 64.0, (b[1] - a[1]) / 64.0];
    }
    if r.chance(0.55) {
        c.exact = true;
        let k = *r.pick(&[1.0, 1.0, 8.0, 64.0, 1024.0]);
        let h = if r.chance(0.75) { k } else { *r.pick(&[1.0, 4.0, 256.0]) };
        let x = *r.pick(&[0.0, 0.0, -k / 2.0, -k, 1024.0]);
        let y = *r.pick(&[0.0, 0.0, -h / 2.0, -h, 64.0]);
        c.min = [x, y];
        c.max = [x + k, y + h];
        let g = *r.pick(&[8.0, 16.0, 32.0, 64.0]);
        return [k / g, h / g];
    }
    let w = 10f64.powf(r.unit() * 7.0 - 3.0);
    let h = if r.chance(0.6) { w } else { 10f64.powf(r.unit() * 6.0 - 3.0) };
    let x = match r.below(4) {
        0 => 0.0,
        1 => -w / 3.0,
        2 => (r.unit() - 0.5) * 200.0,
        _ => (r.unit() - 0.5) * 2.0e4,
    };
    let y = (r.unit() - 0.5) * 100.0;
    let f = |v: f64| if c.num == Num::F32 { v as f32 as f64 } else { v };
    c.min = [f(x), f(y)];
    c.max = [f(x + w), f(y + h)];
    // a degenerate width can come out of rounding to f32
    for i in 0..2 {
        if c.max[i] <= c.min[i] {
            c.max[i] = f(c.min[i] + 1.0);
        }
    }
    [w / 16.0, h / 16.0]
}

/// Very large, very small and flat bounds. Where distances are asked for, only as large or small as leaves
/// their squares representable.
fn unusual(r: &mut Rng, c: &mut Cfg, step: P2) -> P2 {
    if c.metric == Metric::Sphere || !r.chance(if c.metric == Metric::None { 0.6 } else { 0.12 }) {
        return step;
    }
    let mut step = step;
    if r.chance(0.15) && matches!(c.num, Num::I32 | Num::F32) && c.metric == Metric::None {
        // all that the number type can express, or more than half of it
        c.exact = c.num.int();
        let f = if c.num == Num::I32 { 1.0 } else { f32::MAX as f64 / i32::MAX as f64 };
        let whole = (i32::MIN as f64, i32::MAX as f64);
        for i in 0..2 {
            let (lo, hi) = *r.pick(&[whole, whole, (whole.0 + 1.0, whole.1 - 7.0), (-2.0e9, 1.0e9), (-5.0e8, whole.1)]);
            c.min[i] = (lo * f).max(-(f32::MAX as f64));
            c.max[i] = hi * f;
            if c.num == Num::F32 {
                c.min[i] = c.min[i] as f32 as f64;
                c.max[i] = c.max[i] as f32 as f64;
            }
        }
        return [1.0 * f, 1.0 * f];
    }
    if r.chance(0.3) {
        for i in [r.below(2), r.below(2)] {
            c.max[i] = c.min[i];
        }
    } else if !c.num.int() {
        let k: i32 = match (c.num, c.metric) {
            (Num::F32, Metric::None) => *r.pick(&[-60, -40, 40, 60]),
            (Num::F32, _) => *r.pick(&[-15, -8, 8, 15]),
            (_, Metric::None) => *r.pick(&[-900, -200, -60, 60, 200, 900]),
            _ => *r.pick(&[-150, -100, -40, 40, 150, 300]),
        };
        let s = 2f64.powi(k);
        for v in [&mut c.min, &mut c.max, &mut step] {
            v.iter_mut().for_each(|x| *x *= s);
        }
    }
    step
}

impl Gen {
    fn w(&self, i: usize) -> f64 {
        self.cfg.max[i] - self.cfg.min[i]
    }
    fn wide(&self) -> bool {
        let top = match self.cfg.num {
            Num::I32 => i32::MAX as f64,
            Num::F32 => f32::MAX as f64,
            _ => return false,
        };
        (0..2).any(|i| self.w(i) > top)
    }
    fn clamp(&self, p: P2) -> P2 {
        std::array::from_fn(|i| p[i].clamp(self.cfg.min[i], self.cfg.max[i]))
    }
    /// Into the number type of the tree, and onto the grid where arithmetic must be exact.
    fn snap(&self, p: P2) -> P2 {
        std::array::from_fn(|i| {
            let mut v = p[i];
            if !v.is_finite() {
                return v;
            }
            if self.cfg.exact && self.cfg.max[i] > self.cfg.min[i] {
                v = self.cfg.min[i] + ((v - self.cfg.min[i]) / self.step[i]).round() * self.step[i];
            }
            match self.cfg.num {
                Num::F32 => v as f32 as f64,
                Num::I32 | Num::I64 => v.round(),
                Num::F64 => v,
            }
        })
    }
    fn uniform(&mut self) -> P2 {
        let (a, b) = (self.r.unit(), self.r.unit());
        let p = [self.cfg.min[0] + a * self.w(0), self.cfg.min[1] + b * self.w(1)];
        let p = self.snap(p);
        self.clamp(p)
    }
    fn beyond(&mut self) -> P2 {
        let mut p = self.uniform();
        if self.wide() {
            // there may be nothing beyond
            return p;
        }
        let i = self.r.below(2);
        let d = *self.r.pick(&[0.02, 0.3, 1.0, 3.0]) * self.w(i);
        let d = if d > 0.0 { d } else { self.w(1 - i).max(self.cfg.max[i].abs()).max(self.step[i]) };
        let d = if self.cfg.num.int() { d.max(1.0) } else { d };
        let d = if self.cfg.exact { (d / self.step[i]).ceil() * self.step[i] } else { d };
        p[i] = if self.r.chance(0.5) { self.cfg.max[i] + d } else { self.cfg.min[i] - d };
        let q = self.snap(p);
        if oracle::in_rect(&q, &self.cfg.min, &self.cfg.max) {
            // rounding brought it back inside
            let s = if p[i] > self.cfg.max[i] { 1.0 } else { -1.0 };
            let mut q = q;
            q[i] += s * self.w(i).max(1.0).max(q[i].abs() * 1e-3);
            self.snap(q)
        } else {
            q
        }
    }
    fn spot(&mut self) -> P2 {
        let style = self.r.weighted(&self.place.clone());
        let (lo, hi) = (self.cfg.min, self.cfg.max);
        let p = match style {
            0 => self.uniform(),
            1 => {
                // lattice
                let k = *self.r.pick(&[2usize, 3, 4, 8]) as f64;
                let (a, b) = (self.r.below(k as usize + 1) as f64, self.r.below(k as usize + 1) as f64);
                [lo[0] + a / k * self.w(0), lo[1] + b / k * self.w(1)]
            }
            2 => {
                // cluster around a pool point
                let c = *self.r.pick(&self.pool.clone());
                let s = *self.r.pick(&[0.001, 0.02, 0.1]);
                [
                    c[0] + (self.r.unit() - 0.5) * s * self.w(0),
                    c[1] + (self.r.unit() - 0.5) * s * self.w(1),
                ]
            }
            3 => *self.r.pick(&self.pool.clone()),
            4 => {
                // border
                let mut p = self.uniform();
                let i = self.r.below(2);
                p[i] = if self.r.chance(0.5) { lo[i] } else { hi[i] };
                p
            }
            5 => oracle::corners(&lo, &hi)[self.r.below(4)],
            6 => {
                // circle around the middle
                let a = self.r.unit() * 2.0 * PI;
                let rad = 0.3;
                [
                    (lo[0] + hi[0]) / 2.0 + rad * a.cos() * self.w(0),
                    (lo[1] + hi[1]) / 2.0 + rad * a.sin() * self.w(1),
                ]
            }
            7 => {
                // collinear
                let a = self.r.unit();
                [lo[0] + a * self.w(0), lo[1] + a * self.w(1)]
            }
            _ => {
                // on a dividing line
                let i = self.r.below(2);
                let mut p = self.uniform();
                let k = *self.r.pick(&[2.0f64, 4.0, 8.0]);
                p[i] = lo[i] + self.w(i) * (1.0 + self.r.below(k as usize - 1) as f64) / k;
                p
            }
        };
        let p = self.snap(p);
        self.clamp(p)
    }

    fn near(&mut self, p: &P2, s: f64) -> P2 {
        let q = [
            p[0] + (self.r.unit() - 0.5) * 2.0 * s * self.w(0),
            p[1] + (self.r.unit() - 0.5) * 2.0 * s * self.w(1),
        ];
        let q = self.snap(q);
        self.clamp(q)
    }

    /// A shape inside the bounds, near `p`.
    fn geom(&mut self, p: P2, w: &[u32; 5]) -> G {
        let s = self.size * *self.r.pick(&[0.2, 1.0]);
        match self.r.weighted(w) {
            0 => G::Pt(p),
            1 => G::Ln(p, self.near(&p, s)),
            2 => {
                let k = if self.r.chance(0.06) { self.r.range(6, 70) } else { self.r.range(2, 5) };
                let mut v = vec![p];
                for _ in 1..k {
                    let q = self.near(&p, s);
                    v.push(q);
                }
                G::Ls(v)
            }
            3 => {
                // triangle, box or box with a hole, counted from a box so that it is simple
                let q = self.near(&p, s);
                let c = oracle::corners(&p, &q);
                let (w, h) = (c[2][0] - c[0][0], c[2][1] - c[0][1]);
                if w <= 0.0 || h <= 0.0 {
                    return G::Rc(c[0], c[2]);
                }
                let at = |g: &Self, a: f64, b: f64| -> P2 {
                    let p = [c[0][0] + a * w, c[0][1] + b * h];
                    match g.cfg.num {
                        Num::F64 => p,
                        Num::F32 => [p[0] as f32 as f64, p[1] as f32 as f64],
                        _ => [p[0].round(), p[1].round()],
                    }
                };
                match self.r.below(6) {
                    // not convex, either way round
                    3 | 4 => {
                        let l = [(0.0, 0.0), (1.0, 0.0), (1.0, 0.5), (0.5, 0.5), (0.5, 1.0), (0.0, 1.0), (0.0, 0.0)];
                        if self.cfg.num.int() && (w < 2.0 || h < 2.0) {
                            return G::Rc(c[0], c[2]);
                        }
                        let mut v: Vec<P2> = l.iter().map(|(a, b)| at(self, *a, *b)).collect();
                        v[1] = c[1];
                        v[5] = c[3];
                        if self.r.chance(0.5) {
                            v.reverse();
                        }
                        G::Pg(v, vec![])
                    }
                    5 if !self.cfg.num.int() && !self.cfg.exact => {
                        // a star around the middle
                        let many = self.cfg.num == Num::F64 && self.r.chance(0.15);
                        let k = if many { self.r.range(10, 70) } else { self.r.range(3, 9) };
                        let mut v: Vec<P2> = vec![];
                        for i in 0..k {
                            let a = 2.0 * PI * i as f64 / k as f64;
                            let rad = 0.1 + 0.4 * self.r.unit();
                            v.push(at(self, 0.5 + rad * a.cos(), 0.5 + rad * a.sin()));
                        }
                        v.push(v[0]);
                        G::Pg(v, vec![])
                    }
                    0 => G::Pg(vec![c[0], c[1], c[2], c[0]], vec![]),
                    1 => G::Pg(vec![c[0], c[1], c[2], c[3], c[0]], vec![]),
                    _ => {
                        let f = |a: f64, b: f64| [c[0][0] + a * w, c[0][1] + b * h];
                        let ring = |x0: f64, x1: f64| vec![f(x0, 0.25), f(x0, 0.75), f(x1, 0.75), f(x1, 0.25), f(x0, 0.25)];
                        let holes = match self.r.below(3) {
                            0 => vec![ring(0.125, 0.375), ring(0.5, 0.875)],
                            1 => vec![ring(0.0625, 0.125), ring(0.25, 0.375), ring(0.5, 0.9375)],
                            _ => vec![ring(0.25, 0.75)],
                        };
                        let holes: Vec<Vec<P2>> = match self.cfg.num {
                            Num::F64 => holes,
                            Num::F32 => holes.iter().map(|h| h.iter().map(|q| [q[0] as f32 as f64, q[1] as f32 as f64]).collect()).collect(),
                            _ => return G::Pg(vec![c[0], c[1], c[2], c[3], c[0]], vec![]),
                        };
                        G::Pg(vec![c[0], c[1], c[2], c[3], c[0]], holes)
                    }
                }
            }
            _ => {
                let q = if self.r.chance(0.06) { self.spot() } else { self.near(&p, s) };
                let c = oracle::corners(&p, &q);
                G::Rc(c[0], c[2])
            }
        }
    }

    fn strange_point(&mut self) -> P2 {
        let mut p = self.uniform();
        if self.cfg.num.int() {
            return self.beyond();
        }
        let i = self.r.below(2);
        p[i] = *self.r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
        if self.r.chance(0.3) {
            p[1 - i] = p[i];
        }
        p
    }

    fn datum(&mut self) -> Datum {
        let id = self.id;
        self.id += 1;
        // exact duplicate of an earlier datum
        if !self.known.is_empty() && self.r.chance(0.06) {
            let mut d = self.r.pick(&self.known.clone()).clone();
            d.id = id;
            return d;
        }
        let out = self.r.chance(self.outside);
        let odd = self.r.chance(self.strange);
        let p = if odd {
            self.strange_point()
        } else if out {
            self.beyond()
        } else {
            self.spot()
        };
        let g = if self.cfg.kind == Kind::Point {
            if !odd && !out && self.r.chance(self.unmeasurable) {
                self.unmeasurable_geom(p)
            } else {
                G::Pt(p)
            }
        } else if odd {
            match self.r.below(4) {
                0 => G::Pt(p),
                1 => G::Rc(p, self.spot()),
                2 => G::Ln(self.spot(), p),
                _ => G::Ls(vec![]),
            }
        } else if out {
            match self.r.below(4) {
                0 => G::Pt(p),
                1 => G::Ln(p, self.spot()),
                2 if self.r.chance(0.5) => G::Ls(vec![]),
                _ => {
                    let q = self.spot();
                    let c = oracle::corners(&p, &q);
                    G::Rc(c[0], c[2])
                }
            }
        } else if self.prop == 9 && self.cfg.metric == Metric::Sphere {
            // which kinds a rectangle comparator cannot measure
            let u = self.unmeasurable;
            let w = if self.r.chance(u) { [0, 10, 10, 10, 0] } else { [10, 0, 0, 0, 10] };
            self.geom(p, &w)
        } else {
            let w = self.shape;
            self.geom(p, &w)
        };
        let d = Datum { id, pt: p, g };
        if self.known.len() < 64 {
            self.known.push(d.clone());
        } else {
            let k = self.r.below(64);
            self.known[k] = d.clone();
        }
        d
    }

    fn unmeasurable_geom(&mut self, p: P2) -> G {
        match (self.cfg.metric, self.r.below(3)) {
            (_, 0) => G::Pt([f64::NAN, p[1]]),
            (Metric::Sphere, 1) => G::Ln(p, p),
            (_, 1) => G::Pt([p[0], f64::NAN]),
            _ => G::Pt([f64::INFINITY, p[1]]),
        }
    }

    fn cmp(&mut self) -> G {
        // callers ask for the same place again, or for another shape at the same place
        if !self.cmps.is_empty() && self.r.chance(0.16) {
            let g = self.r.pick(&self.cmps.clone()).clone();
            let plain = matches!(self.prop, 3 | 9) || self.cfg.metric == Metric::Sphere;
            match oracle::bbox(&g) {
                Some((a, b)) if !plain && self.r.chance(0.3) => {
                    return match self.r.below(3) {
                        0 => G::Ln(a, b),
                        1 => G::Ln([a[0], b[1]], [b[0], a[1]]),
                        _ => G::Rc(a, b),
                    };
                }
                _ => return g,
            }
        }
        let g = self.new_cmp();
        if self.cmps.len() < 16 {
            self.cmps.push(g.clone());
        }
        g
    }

    fn new_cmp(&mut self) -> G {
        if self.prop == 3 && self.r.chance(0.06) {
            // nowhere
            let p = self.strange_point();
            let empty = self.r.chance(0.3);
            return if empty { G::Ls(vec![]) } else { G::Pt(p) };
        }
        if self.prop == 3 && self.r.chance(0.3) {
            let p = self.beyond();
            return match self.r.below(4) {
                0 | 1 => G::Pt(p),
                2 => {
                    let q = self.near_free(&p);
                    let c = oracle::corners(&p, &q);
                    G::Rc(c[0], c[2])
                }
                _ => G::Ln(p, self.near_free(&p)),
            };
        }
        let p = match self.r.weighted(&[35, 30, 20, 15]) {
            0 => self.uniform(),
            1 => self.spot(),
            2 if !self.known.is_empty() => {
                let d = self.r.pick(&self.known.clone()).clone();
                let q = oracle::bbox(&d.g).map_or(d.pt, |b| if self.r.chance(0.5) { b.0 } else { b.1 });
                if q[0].is_finite() && q[1].is_finite() && oracle::in_rect(&q, &self.cfg.min, &self.cfg.max) {
                    q
                } else {
                    self.uniform()
                }
            }
            _ => {
                let mut p = self.uniform();
                if self.r.chance(0.5) {
                    p = oracle::corners(&self.cfg.min, &self.cfg.max)[self.r.below(4)];
                }
                p
            }
        };
        let sphere = self.cfg.metric == Metric::Sphere;
        if self.prop != 9 && self.r.chance(0.08) {
            if let Some(g) = self.spanning() {
                return g;
            }
        }
        let w: [u32; 5] = if sphere && self.prop == 3 {
            [50, 8, 8, 8, 26]
        } else if sphere {
            if self.prop == 9 { [40, 0, 0, 0, 60] } else { [70, 0, 0, 0, 30] }
        } else if self.prop == 9 {
            [60, 20, 0, 0, if self.cfg.kind == Kind::Point { 0 } else { 20 }]
        } else {
            [60, 7, 5, 5, 23]
        };
        let mut g = self.geom(p, &w);
        if self.prop == 9 && self.cfg.kind == Kind::Point && !sphere {
            if let G::Rc(..) | G::Ls(_) | G::Pg(..) = g {
                g = G::Pt(p);
            }
        }
        if let G::Rc(a, b) = &g {
            // sometimes a comparator that sticks out of the bounds
            if self.r.chance(0.15) && !sphere {
                let c = oracle::corners(a, b);
                let e = [c[2][0] + self.step[0].max(0.0), c[2][1]];
                let e = self.snap(e);
                g = G::Rc(c[0], e);
            }
        }
        g
    }

    /// A comparator that reaches out of the bounds on several sides, or around them.
    fn spanning(&mut self) -> Option<G> {
        let sphere = self.cfg.metric == Metric::Sphere;
        if self.wide() || self.cfg.metric == Metric::None || (0..2).any(|i| self.w(i) <= 0.0) {
            return None;
        }
        let f = *self.r.pick(&[0.0625, 0.5, 2.0]);
        let (mut lo, mut hi) = (self.cfg.min, self.cfg.max);
        for i in 0..2 {
            lo[i] -= f * self.w(i);
            hi[i] += f * self.w(i);
            if sphere {
                let e = [PI, FRAC_PI_2][i];
                lo[i] = lo[i].max(-e);
                hi[i] = hi[i].min(e);
            }
        }
        let (mut lo, mut hi) = (self.snap(lo), self.snap(hi));
        if sphere && self.cfg.num == Num::F32 {
            // not beyond the globe by rounding
            for i in 0..2 {
                lo[i] = lo[i].max(-([PI, FRAC_PI_2][i] as f32 as f64));
                hi[i] = hi[i].min([PI, FRAC_PI_2][i] as f32 as f64);
            }
        }
        let p = self.spot();
        let k = if sphere { 0 } else { self.r.below(5) };
        Some(match k {
            0 => {
                // on some sides
                for i in 0..2 {
                    match self.r.below(3) {
                        0 => lo[i] = p[i],
                        1 => hi[i] = p[i],
                        _ => {}
                    }
                }
                G::Rc(lo, hi)
            }
            1 if self.r.chance(0.5) => G::Ln(lo, hi),
            1 => G::Ln([lo[0], p[1]], [hi[0], self.spot()[1]]),
            2 => {
                let q = self.spot();
                G::Ls(vec![lo, p, [hi[0], q[1]], q, [lo[0], hi[1]]])
            }
            3 => G::Pg(vec![lo, [hi[0], lo[1]], [lo[0], hi[1]], lo], vec![]),
            _ => {
                let c = oracle::corners(&lo, &hi);
                let q = self.near(&p, 0.4);
                let h = oracle::corners(&p, &q);
                let mut holes = vec![];
                if h[0][0] < h[2][0] && h[0][1] < h[2][1] {
                    holes.push(vec![h[0], h[3], h[2], h[1], h[0]]);
                }
                G::Pg(vec![c[0], c[1], c[2], c[3], c[0]], holes)
            }
        })
    }

    fn near_free(&mut self, p: &P2) -> P2 {
        // stays on the same side of the bounds as p
        let mut q = *p;
        for i in 0..2 {
            let s = self.step[i] * self.r.below(3) as f64;
            if p[i] > self.cfg.max[i] {
                q[i] += s;
            } else if p[i] < self.cfg.min[i] {
                q[i] -= s;
            }
        }
        self.snap(q)
    }

    fn radius(&mut self, c: &G) -> Option<f64> {
        let r = self.r.weighted(&[40, 10, 30, 15, 5]);
        match r {
            0 => None,
            1 => Some(0.0),
            2 => {
                // exactly a distance that occurs, when there is one
                let known = self.known.clone();
                for _ in 0..4 {
                    if known.is_empty() {
                        break;
                    }
                    let d = self.r.pick(&known).clone();
                    if let Some(e) = oracle::exact_dist(&self.cfg, c, &d.g) {
                        return Some(e);
                    }
                    if let Some(e) = oracle::dist(self.cfg.metric, c, &d.g) {
                        let f = *self.r.pick(&[0.5, 0.9, 1.1, 2.0]);
                        if self.r.chance(0.5) {
                            return Some(e * f);
                        }
                    }
                }
                Some(self.step[0] * self.r.below(9) as f64)
            }
            3 => Some(self.r.unit() * self.w(0) * *self.r.pick(&[0.05, 0.5, 2.0])),
            4 if self.r.chance(0.4) => Some(f64::INFINITY),
            _ if self.prop != 19 && self.r.chance(0.3) => Some(f64::NAN),
            _ => Some(-1.0),
        }
    }

    fn take(&mut self, n: usize) -> Option<usize> {
        if self.r.chance(0.6) {
            None
        } else {
            Some(self.r.below(n.min(40) + 2))
        }
    }

    fn query_datum(&mut self) -> Datum {
        let id = 700_000_000 + self.id;
        self.id += 1;
        if !self.known.is_empty() && self.r.chance(0.35) {
            let mut d = self.r.pick(&self.known.clone()).clone();
            d.id = id;
            return d;
        }
        if self.prop == 3 && self.r.chance(0.06) {
            let p = self.strange_point();
            let g = match self.r.below(3) {
                1 if self.cfg.kind == Kind::Bounds => G::Ls(vec![]),
                2 if self.cfg.kind == Kind::Bounds => G::Ln(self.spot(), p),
                _ => G::Pt(p),
            };
            return Datum { id, pt: p, g };
        }
        let p = if self.r.chance(self.outside.max(if self.prop == 3 { 0.3 } else { 0.0 })) {
            self.beyond()
        } else {
            self.spot()
        };
        let g = if self.cfg.kind == Kind::Point || !oracle::in_rect(&p, &self.cfg.min, &self.cfg.max) {
            G::Pt(p)
        } else {
            let w = self.shape;
            self.geom(p, &w)
        };
        Datum { id, pt: p, g }
    }

    fn op(&mut self, w: &[u32; 7], n: usize) -> Op {
        let op = self.single(w, n);
        if matches!(op, Op::Insert { .. } | Op::Size { .. }) || !self.r.chance(self.weave) {
            return op;
        }
        // the same caller has several queries under way
        let mut parts = vec![op];
        for _ in 0..self.r.range(1, 2) {
            for _ in 0..6 {
                let o = self.single(w, n);
                if !matches!(o, Op::Insert { .. } | Op::Size { .. }) {
                    parts.push(o);
                    break;
                }
            }
        }
        Op::Weave { turns: self.r.u64(), parts }
    }

    fn single(&mut self, w: &[u32; 7], n: usize) -> Op {
        let t = self.r.below(self.cfg.trees);
        let mut k = self.r.weighted(w);
        if self.cfg.num.int() && matches!(k, 3 | 4 | 5) {
            k = self.r.below(3);
        }
        match k {
            0 => Op::Insert { t, d: self.datum() },
            1 => {
                let take = if self.r.chance(0.8) { None } else { Some(self.r.below(6)) };
                Op::Retrieve { t, d: self.query_datum(), take }
            }
            2 => Op::Iter { t, take: self.take(n) },
            3 => {
                let c = self.cmp();
                let r = self.radius(&c);
                Op::Find { t, c, r }
            }
            4 => {
                let c = self.cmp();
                let r = self.radius(&c);
                let k = match self.r.weighted(&[6, 20, 40, 15, 15, 4]) {
                    0 => 0,
                    1 => 1,
                    2 => self.r.range(2, 9),
                    3 => n,
                    4 => n + 1 + self.r.below(5),
                    _ => *self.r.pick(&[1usize << 20, usize::MAX]),
                };
                let k = if self.prop == 18 && self.r.chance(0.3) {
                    *self.r.pick(&[1usize << 12, 1 << 16, 1 << 20, 1 << 26, usize::MAX])
                } else if n > 1000 {
                    k.min(40)
                } else {
                    k
                };
                Op::Knn { t, c, k, r }
            }
            5 => {
                let c = self.cmp();
                let take = if n > 400 { Some(self.r.below(20)) } else { self.take(n) };
                Op::Sorted { t, c, take }
            }
            _ => Op::Size { t },
        }
    }

    fn fault_kinds(&self) -> Vec<(u32, u32)> {
        // (code, weight): 0 panic 1 unbound 2 nan 3 odd 4 drift 5 stall 6 reenter
        match self.prop {
            1 => vec![(0, 4), (1, 2), (4, 2), (5, 2), (6, 1)],
            2 => vec![(0, 6), (1, 5), (5, 1)],
            3 => vec![(0, 5), (1, 3), (5, 1), (6, 1)],
            4..=6 => vec![(0, 4), (1, 2), (5, 2), (6, 2)],
            7 => vec![(0, 4), (1, 2), (5, 1)],
            8 => vec![(0, 3), (5, 4), (6, 6)],
            9 => vec![(2, 5), (3, 5), (0, 1), (5, 1)],
            10 | 20 => vec![(0, 4), (1, 2), (4, 1)],
            11 => vec![(0, 3), (1, 2), (5, 3)],
            12 => vec![(5, 4), (6, 1)],
            19 => vec![(0, 4), (1, 2), (2, 2), (3, 2), (5, 2), (6, 2)],
            18 => vec![(0, 5), (1, 3), (2, 3), (3, 2), (4, 1), (5, 1), (6, 1)],
            _ => vec![(4, 3), (5, 3), (0, 3), (1, 1), (6, 1)],
        }
    }

    fn fault(&mut self, task: usize, i: usize, op: &Op, big: bool) -> Option<Fault> {
        let ks = self.fault_kinds();
        let w: Vec<u32> = ks.iter().map(|k| k.1).collect();
        let code = ks[self.r.weighted(&w)].0;
        let insert = matches!(op, Op::Insert { .. });
        let is_search = |o: &Op| matches!(o, Op::Find { .. } | Op::Knn { .. } | Op::Sorted { .. });
        let search = op.parts().into_iter().all(is_search);
        // while an insert moves a full cell's data, or early in a query
        let top = if insert {
            3 * (self.cfg.cap.min(40) as u64 + 2)
        } else if big {
            200
        } else {
            40
        };
        let ord = match self.r.below(4) {
            0 => 1 + self.r.below(3) as u64,
            1 => 1 + self.r.below(8) as u64,
            _ => 1 + self.r.below(top as usize) as u64,
        };
        let kind = match code {
            0 => FaultKind::Panic,
            1 if insert && self.cfg.kind == Kind::Bounds => FaultKind::Unbound,
            2 if search => FaultKind::Nan,
            3 if search => FaultKind::Odd,
            4 if insert => FaultKind::Drift(if self.r.chance(0.8) { self.spot() } else { self.beyond() }),
            5 => FaultKind::Stall(*self.r.pick(&[3u64, 20, 200, 5000])),
            6 if insert || self.r.chance(0.2) => {
                let k = if self.cfg.trees > 1 && self.r.chance(0.5) { 6 } else { 5 };
                let c = if k == 5 || self.cfg.num.int() { G::Pt(self.spot()) } else { self.cmp() };
                FaultKind::Reenter(k, c)
            }
            6 => {
                let c = if self.cfg.num.int() { G::Pt(self.spot()) } else { self.cmp() };
                let k = if self.cfg.num.int() { 3 + self.r.below(2) } else { self.r.below(5) };
                let c = if k == 3 {
                    let d = self.query_datum();
                    if self.cfg.kind == Kind::Point { G::Pt(d.pt) } else { d.g }
                } else {
                    c
                };
                FaultKind::Reenter(k as u8, c)
            }
            _ => return None,
        };
        // which comparators a fault makes sense with
        for op in op.parts() {
            if let Op::Find { c, .. } | Op::Knn { c, .. } | Op::Sorted { c, .. } = op {
                match (&kind, self.cfg.metric) {
                    (FaultKind::Nan, Metric::Euclid) if !matches!(c, G::Pt(_) | G::Ln(..)) => return None,
                    (FaultKind::Odd, Metric::Sphere) if !matches!(c, G::Rc(..)) => return None,
                    (FaultKind::Odd, m) if m != Metric::Sphere => return None,
                    _ => {}
                }
            }
        }
        Some(Fault { task, op: i, ord, kind })
    }

    fn build(mut self, n0: usize, xl: bool, grind: bool) -> Program {
        let trees = self.cfg.trees;
        let mut init = vec![];
        for _ in 0..n0 {
            let t = if trees > 1 && self.r.chance(0.3) { 1 } else { 0 };
            init.push((t, self.datum()));
        }
        let p = self.prop;
        // insert, retrieve, iter, find, knn, sorted, size
        let mut w: [u32; 7] = match p {
            1 => [60, 6, 15, 4, 4, 5, 8],
            2 => [80, 6, 4, 4, 3, 3, 2],
            3 => [45, 12, 0, 20, 15, 10, 0],
            4 => [45, 2, 2, 45, 4, 4, 0],
            5 => [45, 2, 2, 4, 45, 4, 0],
            6 => [45, 2, 2, 4, 4, 45, 0],
            7 => [50, 45, 4, 1, 1, 1, 0],
            8 => [8, 16, 14, 22, 20, 22, 2],
            9 => [25, 1, 1, 25, 25, 25, 0],
            10 | 20 => [88, 3, 3, 2, 2, 2, 0],
            11 => [45, 5, 45, 2, 2, 2, 0],
            12 => [70, 6, 5, 7, 6, 6, 0],
            18 => [40, 12, 12, 12, 12, 12, 0],
            19 => [35, 1, 1, 25, 22, 22, 0],
            _ => [35, 10, 8, 16, 15, 16, 0],
        };
        // drop some operation kinds altogether in some runs
        for i in 1..7 {
            if self.r.chance(0.2) && !(w[i] >= 40) && w.iter().filter(|x| **x > 0).count() > 2 {
                w[i] = 0;
            }
        }
        let nt = match p {
            8 => self.r.range(2, 6),
            12 => self.r.range(2, 4),
            _ => match self.r.weighted(&[25, 35, 25, 15]) {
                0 => 1,
                1 => 2,
                2 => 3,
                _ => self.r.range(4, 6),
            },
        };
        let huge = n0 > 60_000;
        let nt = if huge || grind { nt.min(2) } else { nt };
        if grind {
            // mostly queries and refusals, or the work per query grows with the tree
            w[0] = w[0].min(12);
        }
        let most = if grind {
            600 / nt
        } else if huge {
            1
        } else if xl {
            3
        } else {
            match p {
                2 => 14,
                8 => 7,
                1 | 10 | 20 => *self.r.pick(&[10, 20, 60]),
                _ => *self.r.pick(&[4, 10, 20]),
            }
        };
        let mut tasks = vec![];
        let mut grown = n0;
        for _ in 0..nt {
            let k = self.r.range(if grind { most / 2 } else { 1 }, most);
            let mut ops = vec![];
            for _ in 0..k {
                let op = self.op(&w, grown);
                if matches!(op, Op::Insert { .. }) {
                    grown += 1;
                }
                ops.push(op);
            }
            tasks.push(ops);
        }
        let rate: f64 = if self.r.chance(0.3) { 0.0 } else { *self.r.pick(&[0.05, 0.2, 0.5]) };
        let rate = if matches!(p, 2 | 9) { rate.max(0.25) } else { rate };
        let rate = if grind { rate / 5.0 } else { rate };
        let mut faults = vec![];
        for (ti, ops) in tasks.iter().enumerate() {
            for (i, op) in ops.iter().enumerate() {
                let mut k = 0;
                while self.r.chance(rate) && k < 3 {
                    k += 1;
                    if let Some(f) = self.fault(ti, i, op, grown > 100) {
                        faults.push(f);
                    }
                }
            }
        }
        let rates = [0u32, 5, 30, 100, 300, 700];
        let scheds = (0..if p == 12 { 3 } else { 1 })
            .map(|_| {
                let pm = *self.r.pick(&rates);
                let pm = if grown > 1000 { pm.min(30) } else { pm };
                Sched::Seeded { seed: self.r.u64(), permille: pm }
            })
            .collect();
        let np = self.r.range(1, 4);
        let probes = (0..np).map(|_| if self.r.chance(0.5) { self.spot() } else { self.uniform() }).collect();
        let stack_kib = if p == 13 && self.cfg.depth <= 20 && self.r.chance(0.5) { 256 } else { 0 };
        // drawn last: what came before is the same with and without
        let fine = if p == 8 { *self.r.pick(&[6, 20, 60, 200, 1000]) } else { 0 };
        Program { prop: p, cfg: self.cfg, init, tasks, faults, scheds, probes, stack_kib, fine }
    }
}
