//! The reference model: brute-force distances in f64 by formulas of its own, and the cell structure
//! a set of data must produce.

use crate::spec::*;
use crate::world::SimNum;
use std::f64::consts::PI;

// ------------------------------------------------------------------ shapes

fn ring_segs(v: &[P2], out: &mut Vec<(P2, P2)>) {
    for w in v.windows(2) {
        out.push((w[0], w[1]));
    }
    if v.len() > 1 && v[0] != v[v.len() - 1] {
        out.push((v[v.len() - 1], v[0]));
    }
}

pub fn corners(a: &P2, b: &P2) -> [P2; 4] {
    let (x1, x2) = (a[0].min(b[0]), a[0].max(b[0]));
    let (y1, y2) = (a[1].min(b[1]), a[1].max(b[1]));
    [[x1, y1], [x2, y1], [x2, y2], [x1, y2]]
}

pub fn segs(g: &G) -> Vec<(P2, P2)> {
    let mut o = vec![];
    match g {
        G::Pt(a) => o.push((*a, *a)),
        G::Ln(a, b) => o.push((*a, *b)),
        G::Ls(v) => {
            for w in v.windows(2) {
                o.push((w[0], w[1]));
            }
        }
        G::Pg(e, hs) => {
            ring_segs(e, &mut o);
            hs.iter().for_each(|h| ring_segs(h, &mut o));
        }
        G::Rc(a, b) => ring_segs(&corners(a, b), &mut o),
    }
    o
}

pub fn bbox(g: &G) -> Option<(P2, P2)> {
    let pts: Vec<P2> = match g {
        G::Pt(a) => vec![*a],
        G::Ln(a, b) | G::Rc(a, b) => vec![*a, *b],
        G::Ls(v) => v.clone(),
        G::Pg(e, _) => e.clone(),
    };
    let first = *pts.first()?;
    let mut lo = first;
    let mut hi = first;
    for q in &pts {
        for i in 0..2 {
            if q[i].is_nan() {
                lo[i] = f64::NAN;
            } else if !lo[i].is_nan() {
                lo[i] = lo[i].min(q[i]);
                hi[i] = hi[i].max(q[i]);
            }
        }
    }
    Some((lo, hi))
}

pub fn in_rect(q: &P2, lo: &P2, hi: &P2) -> bool {
    q[0] >= lo[0] && q[0] <= hi[0] && q[1] >= lo[1] && q[1] <= hi[1]
}
pub fn box_in(b: &(P2, P2), lo: &P2, hi: &P2) -> bool {
    b.0[0] >= lo[0] && b.1[0] <= hi[0] && b.0[1] >= lo[1] && b.1[1] <= hi[1]
}

fn in_area(q: &P2, g: &G) -> bool {
    match g {
        G::Rc(a, b) => {
            let c = corners(a, b);
            in_rect(q, &c[0], &c[2])
        }
        G::Pg(..) => {
            // even-odd over all rings; the boundary is covered by the segment distances
            let mut inside = false;
            for (a, b) in segs(g) {
                if (a[1] > q[1]) != (b[1] > q[1]) {
                    let x = a[0] + (q[1] - a[1]) / (b[1] - a[1]) * (b[0] - a[0]);
                    if q[0] < x {
                        inside = !inside;
                    }
                }
            }
            inside
        }
        _ => false,
    }
}

fn pt_seg(q: &P2, a: &P2, b: &P2) -> f64 {
    let (dx, dy) = (b[0] - a[0], b[1] - a[1]);
    let l2 = dx * dx + dy * dy;
    if l2 == 0.0 {
        return (q[0] - a[0]).hypot(q[1] - a[1]);
    }
    let t = (((q[0] - a[0]) * dx + (q[1] - a[1]) * dy) / l2).clamp(0.0, 1.0);
    (q[0] - (a[0] + t * dx)).hypot(q[1] - (a[1] + t * dy))
}

fn cross(o: &P2, a: &P2, b: &P2) -> f64 {
    (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])
}

fn seg_seg(s: &(P2, P2), t: &(P2, P2)) -> f64 {
    let (d1, d2) = (cross(&t.0, &t.1, &s.0), cross(&t.0, &t.1, &s.1));
    let (d3, d4) = (cross(&s.0, &s.1, &t.0), cross(&s.0, &s.1, &t.1));
    if d1 * d2 < 0.0 && d3 * d4 < 0.0 {
        return 0.0;
    }
    pt_seg(&s.0, &t.0, &t.1)
        .min(pt_seg(&s.1, &t.0, &t.1))
        .min(pt_seg(&t.0, &s.0, &s.1))
        .min(pt_seg(&t.1, &s.0, &s.1))
}

pub fn planar(a: &G, b: &G) -> f64 {
    let (sa, sb) = (segs(a), segs(b));
    if sb.iter().any(|s| in_area(&s.0, a)) || sa.iter().any(|s| in_area(&s.0, b)) {
        return 0.0;
    }
    let mut d = f64::INFINITY;
    for x in &sa {
        for y in &sb {
            let e = seg_seg(x, y);
            if e.is_nan() {
                return f64::NAN;
            }
            d = d.min(e);
        }
    }
    d
}

// ------------------------------------------------------------------ sphere (radians)

/// Great-circle distance, by the formula that is accurate at all distances.
pub fn gc(a: &P2, b: &P2) -> f64 {
    let (p1, p2, dl) = (a[1], b[1], b[0] - a[0]);
    let x = p2.cos() * dl.sin();
    let y = p1.cos() * p2.sin() - p1.sin() * p2.cos() * dl.cos();
    let z = p1.sin() * p2.sin() + p1.cos() * p2.cos() * dl.cos();
    x.hypot(y).atan2(z)
}

/// Distance to a line: the documented convention is the planar projection onto it.
fn gc_line(q: &P2, a: &P2, b: &P2) -> f64 {
    let (dx, dy) = (b[0] - a[0], b[1] - a[1]);
    let l2 = dx * dx + dy * dy;
    if l2 == 0.0 {
        return gc(q, a);
    }
    let t = (((q[0] - a[0]) * dx + (q[1] - a[1]) * dy) / l2).clamp(0.0, 1.0);
    gc(q, &[a[0] + t * dx, a[1] + t * dy])
}

/// True distance from a point to the meridian arc at longitude `lng`, latitudes lo..=hi.
fn gc_meridian(q: &P2, lng: f64, lo: f64, hi: f64) -> f64 {
    let dl = q[0] - lng;
    let best = q[1].sin().atan2(q[1].cos() * dl.cos());
    let mut d = gc(q, &[lng, lo]).min(gc(q, &[lng, hi]));
    if best > lo && best < hi {
        d = d.min(gc(q, &[lng, best]));
    }
    d
}

/// True great-circle distance between a point and a rectangle.
pub fn gc_rect(q: &P2, a: &P2, b: &P2) -> f64 {
    let c = corners(a, b);
    let (lo, hi) = (c[0], c[2]);
    if in_rect(q, &lo, &hi) {
        return 0.0;
    }
    if q[0] >= lo[0] && q[0] <= hi[0] {
        return (lo[1] - q[1]).max(q[1] - hi[1]);
    }
    gc_meridian(q, lo[0], lo[1], hi[1]).min(gc_meridian(q, hi[0], lo[1], hi[1]))
}

fn wrap(x: f64) -> f64 {
    let y = (x + PI).rem_euclid(2.0 * PI) - PI;
    y.abs()
}

/// Distance between rectangles as the crate defines (and tests) it: latitude gap if the longitudes
/// overlap, the pole-most common latitude if the latitudes overlap, else the nearest corners.
fn gc_rect_rect(a1: &P2, a2: &P2, b1: &P2, b2: &P2) -> f64 {
    let (a, b) = (corners(a1, a2), corners(b1, b2));
    let (al, ah, bl, bh) = (a[0], a[2], b[0], b[2]);
    let ox = ah[0] >= bl[0] && bh[0] >= al[0];
    let oy = ah[1] >= bl[1] && bh[1] >= al[1];
    if ox && oy {
        return 0.0;
    }
    if ox {
        return (bl[1] - ah[1]).max(al[1] - bh[1]);
    }
    let (x1, x2) = if wrap(ah[0] - bl[0]) < wrap(al[0] - bh[0]) {
        (ah[0], bl[0])
    } else {
        (al[0], bh[0])
    };
    if oy {
        let (m, n) = (al[1].max(bl[1]), ah[1].min(bh[1]));
        let lat = if m.abs() > n.abs() { m } else { n };
        return gc(&[x1, lat], &[x2, lat]);
    }
    let (y1, y2) = if ah[1] < bl[1] { (ah[1], bl[1]) } else { (al[1], bh[1]) };
    gc(&[x1, y1], &[x2, y2])
}

/// No point of the cell is closer to the comparator than this.
pub fn cell_dist(m: Metric, c: &G, lo: &P2, hi: &P2) -> Option<f64> {
    let (Metric::Sphere, G::Rc(x, y)) = (m, c) else {
        return dist(m, c, &G::Rc(*lo, *hi));
    };
    let k = corners(x, y);
    let (a, b) = (k[0], k[2]);
    if b[0] >= lo[0] && hi[0] >= a[0] {
        return Some((lo[1] - b[1]).max(a[1] - hi[1]).max(0.0));
    }
    let near = |p: [P2; 4], lo: &P2, hi: &P2| p.iter().map(|q| gc_rect(q, lo, hi)).fold(f64::INFINITY, f64::min);
    let d = near(k, lo, hi).min(near(corners(lo, hi), &a, &b));
    d.is_finite().then_some(d)
}

/// Distance between comparator and datum under the metric; None if the metric has none.
pub fn dist(m: Metric, c: &G, d: &G) -> Option<f64> {
    let x = match m {
        Metric::None => return None,
        Metric::Euclid => planar(c, d),
        Metric::Sphere => match (c, d) {
            (G::Pt(a), G::Pt(b)) => gc(a, b),
            (G::Pt(q), G::Ln(a, b)) => gc_line(q, a, b),
            (G::Pt(q), G::Ls(v)) => v
                .windows(2)
                .map(|w| gc_line(q, &w[0], &w[1]))
                .fold(f64::INFINITY, f64::min),
            (G::Pt(q), G::Pg(..)) => {
                if in_area(q, d) {
                    0.0
                } else {
                    segs(d).iter().map(|s| gc_line(q, &s.0, &s.1)).fold(f64::INFINITY, f64::min)
                }
            }
            (G::Pt(q), G::Rc(a, b)) | (G::Rc(a, b), G::Pt(q)) => gc_rect(q, a, b),
            (G::Rc(a, b), G::Rc(x, y)) => gc_rect_rect(a, b, x, y),
            _ => return None,
        },
    };
    x.is_finite().then_some(x)
}

pub fn cmp_supported(m: Metric, c: &G) -> bool {
    match m {
        Metric::None => false,
        Metric::Euclid => true,
        Metric::Sphere => matches!(c, G::Pt(_) | G::Rc(..)),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Touch {
    Yes,
    No,
    Unsure,
}

fn reach(g: &G) -> f64 {
    segs(g)
        .iter()
        .flat_map(|s| [s.0[0], s.0[1], s.1[0], s.1[1]])
        .map(f64::abs)
        .fold(0.0, f64::max)
}

/// How far a computed distance may be from the true one.
pub fn tol(cfg: &Cfg, eps: f64, c: &G, d: f64) -> f64 {
    let scale = reach(c).max(reach(&G::Rc(cfg.min, cfg.max)));
    match cfg.metric {
        Metric::Sphere => {
            let k = 64.0 * eps * scale.max(1.0);
            k + (k / (d / 2.0).cos().abs()).min(k.sqrt())
        }
        _ => 256.0 * eps * scale,
    }
}

/// Does the comparator touch the tree's bounds?
pub fn touch(cfg: &Cfg, eps: f64, c: &G) -> Touch {
    let (lo, hi) = (cfg.min, cfg.max);
    let nowhere = match c {
        G::Pt(q) => !(q[0].is_finite() && q[1].is_finite()),
        _ => bbox(c).is_none(),
    };
    if nowhere {
        return Touch::No;
    }
    let sure = match c {
        G::Pt(q) => in_rect(q, &lo, &hi),
        G::Rc(a, b) => {
            let k = corners(a, b);
            k[2][0] >= lo[0] && hi[0] >= k[0][0] && k[2][1] >= lo[1] && hi[1] >= k[0][1]
        }
        _ => {
            // it reaches well into the bounds
            let m = tol(cfg, eps, c, 0.0);
            let (a, b) = ([lo[0] + m, lo[1] + m], [hi[0] - m, hi[1] - m]);
            a[0] < b[0] && a[1] < b[1] && planar(c, &G::Rc(a, b)) == 0.0
        }
    };
    if sure {
        return Touch::Yes;
    }
    let d = match (cfg.metric, c) {
        (Metric::Sphere, G::Pt(q)) => gc_rect(q, &lo, &hi),
        (Metric::Sphere, G::Rc(a, b)) => gc_rect_rect(a, b, &lo, &hi),
        _ => planar(c, &G::Rc(lo, hi)),
    };
    if d > 4.0 * tol(cfg, eps, c, 0.0) {
        return Touch::No;
    }
    // a point or box outside planar bounds is outside, however near
    if cfg.metric == Metric::Euclid && matches!(c, G::Rc(..)) {
        return Touch::No;
    }
    Touch::Unsure
}

/// Is an insert to be accepted?
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Admit {
    Yes,
    Out,
    NoBox,
}
pub fn admit(cfg: &Cfg, d: &Datum) -> Admit {
    match cfg.kind {
        Kind::Point => {
            if in_rect(&d.pt, &cfg.min, &cfg.max) {
                Admit::Yes
            } else {
                Admit::Out
            }
        }
        Kind::Bounds => match bbox(&d.g) {
            None => Admit::NoBox,
            Some(b) if box_in(&b, &cfg.min, &cfg.max) => Admit::Yes,
            _ => Admit::Out,
        },
    }
}

// ------------------------------------------------------------------ reference cells

/// One cell of the structure that a set of accepted data must produce.
pub struct Cell<T> {
    pub lo: [T; 2],
    pub hi: [T; 2],
    pub depth: u8,
    /// data held at this cell
    pub own: Vec<u32>,
    pub sub: Option<Box<[Cell<T>; 4]>>,
}

/// What placement needs to know about a datum, in the tree's own number type.
pub struct Item<T> {
    pub id: u32,
    pub lo: [T; 2],
    pub hi: [T; 2],
    pub pos: [T; 2],
}

pub fn item<T: SimNum>(kind: Kind, d: &Datum) -> Option<Item<T>> {
    Some(match kind {
        Kind::Point => {
            let q = [T::of(d.pt[0]), T::of(d.pt[1])];
            Item { id: d.id, lo: q, hi: q, pos: q }
        }
        Kind::Bounds => {
            let b = bbox(&d.g)?;
            let lo = [T::of(b.0[0]), T::of(b.0[1])];
            let hi = [T::of(b.1[0]), T::of(b.1[1])];
            let pos = [T::mid(lo[0], hi[0]), T::mid(lo[1], hi[1])];
            Item { id: d.id, lo, hi, pos }
        }
    })
}

impl<T: SimNum> Cell<T> {
    pub fn mid(&self) -> [T; 2] {
        [T::mid(self.lo[0], self.hi[0]), T::mid(self.lo[1], self.hi[1])]
    }
    /// 0 low-x/low-y, 1 high-x/low-y, 2 high-x/high-y, 3 low-x/high-y; the middle belongs to low.
    pub fn quadrant(&self, pos: &[T; 2]) -> usize {
        let m = self.mid();
        match (pos[0] <= m[0], pos[1] <= m[1]) {
            (true, true) => 0,
            (false, true) => 1,
            (false, false) => 2,
            (true, false) => 3,
        }
    }
    pub fn sub_box(&self, q: usize) -> ([T; 2], [T; 2]) {
        let m = self.mid();
        let (x1, x2) = if q == 0 || q == 3 { (self.lo[0], m[0]) } else { (m[0], self.hi[0]) };
        let (y1, y2) = if q < 2 { (self.lo[1], m[1]) } else { (m[1], self.hi[1]) };
        ([x1, y1], [x2, y2])
    }
    pub fn holds(&self, i: &Item<T>) -> bool {
        i.lo[0] >= self.lo[0]
            && i.hi[0] <= self.hi[0]
            && i.lo[1] >= self.lo[1]
            && i.hi[1] <= self.hi[1]
    }
    pub fn touches(&self, i: &Item<T>) -> bool {
        i.hi[0] >= self.lo[0]
            && i.lo[0] <= self.hi[0]
            && i.hi[1] >= self.lo[1]
            && i.lo[1] <= self.hi[1]
    }

    pub fn build(cfg: &Cfg, items: &[Item<T>]) -> Cell<T> {
        let root = Cell {
            lo: [T::of(cfg.min[0]), T::of(cfg.min[1])],
            hi: [T::of(cfg.max[0]), T::of(cfg.max[1])],
            depth: 0,
            own: vec![],
            sub: None,
        };
        Self::fill(cfg, root, items.iter().collect())
    }
    fn fill(cfg: &Cfg, mut c: Cell<T>, items: Vec<&Item<T>>) -> Cell<T> {
        if items.len() <= cfg.cap || c.depth >= cfg.depth {
            c.own = items.iter().map(|i| i.id).collect();
            return c;
        }
        let mut subs: Vec<(Cell<T>, Vec<&Item<T>>)> = (0..4)
            .map(|q| {
                let (lo, hi) = c.sub_box(q);
                (Cell { lo, hi, depth: c.depth + 1, own: vec![], sub: None }, vec![])
            })
            .collect();
        for i in items {
            let q = c.quadrant(&i.pos);
            if cfg.kind == Kind::Point || subs[q].0.holds(i) {
                subs[q].1.push(i);
            } else {
                c.own.push(i.id);
            }
        }
        let v: Vec<Cell<T>> = subs.into_iter().map(|(s, v)| Self::fill(cfg, s, v)).collect();
        c.sub = Some(Box::new(v.try_into().ok().expect("four")));
        c
    }
    /// Cells in pre-order.
    pub fn walk<'a>(&'a self, out: &mut Vec<&'a Cell<T>>) {
        out.push(self);
        if let Some(s) = &self.sub {
            s.iter().for_each(|c| c.walk(out));
        }
    }
    fn all(&self, out: &mut Vec<u32>) {
        out.extend(&self.own);
        if let Some(s) = &self.sub {
            s.iter().for_each(|c| c.all(out));
        }
    }
    /// What retrieve must yield.
    pub fn retrieve(&self, kind: Kind, q: &Item<T>, out: &mut Vec<u32>) {
        let Some(s) = &self.sub else {
            out.extend(&self.own);
            return;
        };
        let i = self.quadrant(&q.pos);
        if kind == Kind::Point {
            return s[i].retrieve(kind, q, out);
        }
        out.extend(&self.own);
        if s[i].holds(q) {
            s[i].retrieve(kind, q, out);
        } else {
            s.iter().filter(|c| c.touches(q)).for_each(|c| c.all(out));
        }
    }

    /// Could the rounding of a cell border decide where one of these goes?
    pub fn ambiguous(&self, kind: Kind, items: &[Item<T>]) -> bool {
        if T::EPS == 0.0 {
            return false;
        }
        items.iter().any(|i| self.close(kind, i))
    }
    fn close(&self, kind: Kind, i: &Item<T>) -> bool {
        let Some(s) = &self.sub else { return false };
        let m = self.mid();
        let near = |a: T, b: T, k: usize| {
            let scale = self.lo[k].to().abs().max(self.hi[k].to().abs());
            (a.to() - b.to()).abs() <= 8.0 * T::EPS * scale
        };
        for k in 0..2 {
            if near(i.pos[k], m[k], k) {
                return true;
            }
            if kind == Kind::Bounds {
                for b in [i.lo[k], i.hi[k]] {
                    // outer borders are inherited exactly, inner ones are computed
                    if near(b, m[k], k) {
                        return true;
                    }
                }
            }
        }
        s[self.quadrant(&i.pos)].close(kind, i)
    }
}

/// The distance when it is exactly representable and every sensible computation gives it exactly.
pub fn exact_dist(cfg: &Cfg, c: &G, d: &G) -> Option<f64> {
    if let (G::Pt(a), G::Pt(b)) = (c, d) {
        if a == b {
            return Some(0.0);
        }
    }
    if !cfg.exact || cfg.metric != Metric::Euclid {
        return None;
    }
    let (gx, gy) = match (c, d) {
        (G::Pt(a), G::Pt(b)) => ((a[0] - b[0]).abs(), (a[1] - b[1]).abs()),
        (G::Rc(a, b), G::Rc(x, y)) => {
            let (p, q) = (corners(a, b), corners(x, y));
            let gap = |k: usize| (q[0][k] - p[2][k]).max(p[0][k] - q[2][k]).max(0.0);
            (gap(0), gap(1))
        }
        _ => return None,
    };
    if gx == 0.0 {
        Some(gy)
    } else if gy == 0.0 {
        Some(gx)
    } else {
        None
    }
}
