//! Real code under simulation: the crate's trees, holding data whose geometry callbacks go through
//! the simulator.

use crate::sched::{callback, Act};
use crate::spec::*;
use geo::{Coord, GeoNum, Line, LineString, Point, Polygon, Rect};
use quadtree::{
    AsGeom, AsPoint, BoundsQuadTree, CalcMethod, Error, Geometry, GeometryRef, PointQuadTree, ToRadians,
    QuadTree, QuadTreeSearch,
};
use std::cell::Cell;
use std::rc::Rc;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::Arc;

pub trait SimNum: GeoNum + std::fmt::Debug + std::fmt::Display + Send + Sync + 'static {
    const EPS: f64;
    fn of(x: f64) -> Self;
    fn to(self) -> f64;
    /// A geometry given in degrees, as the crate converts it.
    fn radians(g: Own<Self>, in_place: bool) -> Own<Self>;
    /// In degrees, if they give this very number back.
    fn degrees(self) -> Option<Self>;
    /// The middle between two coordinates, rounded towards the lower one for integers.
    fn mid(lo: Self, hi: Self) -> Self;
    fn find<'a>(t: &'a Tree<Self>, c: &Cmp<Self>, r: Option<f64>) -> Result<(u32, f64), Error>;
    fn knn(t: &Tree<Self>, c: &Cmp<Self>, k: usize, r: Option<f64>)
        -> Result<Vec<(u32, f64)>, Error>;
    fn sorted<'a>(
        t: &'a Tree<Self>,
        c: &'a Cmp<Self>,
    ) -> Box<dyn Iterator<Item = (u32, f64)> + 'a>;
}

macro_rules! sim_float {
    ($t:ty) => {
        impl SimNum for $t {
            const EPS: f64 = <$t>::EPSILON as f64;
            fn of(x: f64) -> Self {
                x as $t
            }
            fn to(self) -> f64 {
                self as f64
            }
            fn radians(g: Own<Self>, in_place: bool) -> Own<Self> {
                fn go<G: ToRadians<$t>>(mut g: G, in_place: bool) -> G {
                    if in_place {
                        g.to_radians_in_place();
                        g
                    } else {
                        g.to_radians()
                    }
                }
                match g {
                    Own::Pt(d) => Own::Pt(go(d, in_place)),
                    Own::Ln(d) => Own::Ln(go(d, in_place)),
                    Own::Ls(d) => Own::Ls(go(d, in_place)),
                    Own::Pg(d) => Own::Pg(go(d, in_place)),
                    Own::Rc(d) => Own::Rc(go(d, in_place)),
                    Own::W(d) => Own::W(go(d, in_place)),
                }
            }
            fn degrees(self) -> Option<Self> {
                let d = self.to_degrees();
                near(d.to_radians(), self).then_some(d)
            }
            fn mid(lo: Self, hi: Self) -> Self {
                let w = hi - lo;
                lo + if w.is_finite() { w / 2.0 } else { hi / 2.0 - lo / 2.0 }
            }
            fn find(t: &Tree<Self>, c: &Cmp<Self>, r: Option<f64>) -> Result<(u32, f64), Error> {
                fn go<Q: QuadTreeSearch<SimDatum<$t>, $t>>(
                    q: &Q,
                    c: &Cmp<$t>,
                    r: Option<f64>,
                ) -> Result<(u32, f64), Error> {
                    match r {
                        None => q.find(c),
                        Some(r) => q.find_r(c, r as $t),
                    }
                    .map(|(d, x)| (d.id, x as f64))
                }
                match t {
                    Tree::P(q) => go(q, c, r),
                    Tree::B(q) => go(q, c, r),
                }
            }
            fn knn(
                t: &Tree<Self>,
                c: &Cmp<Self>,
                k: usize,
                r: Option<f64>,
            ) -> Result<Vec<(u32, f64)>, Error> {
                fn go<Q: QuadTreeSearch<SimDatum<$t>, $t>>(
                    q: &Q,
                    c: &Cmp<$t>,
                    k: usize,
                    r: Option<f64>,
                ) -> Result<Vec<(u32, f64)>, Error> {
                    match r {
                        None => q.knn(c, k),
                        Some(r) => q.knn_r(c, k, r as $t),
                    }
                    .map(|v| v.into_iter().map(|(d, x)| (d.id, x as f64)).collect())
                }
                match t {
                    Tree::P(q) => go(q, c, k, r),
                    Tree::B(q) => go(q, c, k, r),
                }
            }
            fn sorted<'a>(
                t: &'a Tree<Self>,
                c: &'a Cmp<Self>,
            ) -> Box<dyn Iterator<Item = (u32, f64)> + 'a> {
                match t {
                    Tree::P(q) => Box::new(q.sorted(c).map(|(d, x)| (d.id, x as f64))),
                    Tree::B(q) => Box::new(q.sorted(c).map(|(d, x)| (d.id, x as f64))),
                }
            }
        }
    };
}
sim_float!(f64);
sim_float!(f32);

/// Coordinates of a program are counted from `$off`.
macro_rules! sim_int {
    ($t:ty, $off:expr) => {
        impl SimNum for $t {
            const EPS: f64 = 0.0;
            fn of(x: f64) -> Self {
                (x as $t).wrapping_add($off)
            }
            fn to(self) -> f64 {
                self.wrapping_sub($off) as f64
            }
            fn radians(g: Own<Self>, _: bool) -> Own<Self> {
                g
            }
            fn degrees(self) -> Option<Self> {
                None
            }
            fn mid(lo: Self, hi: Self) -> Self {
                (lo as i128 + (hi as i128 - lo as i128) / 2) as $t
            }
            fn find(_: &Tree<Self>, _: &Cmp<Self>, _: Option<f64>) -> Result<(u32, f64), Error> {
                Err(Error::CalcMethodNotSet)
            }
            fn knn(
                _: &Tree<Self>,
                _: &Cmp<Self>,
                _: usize,
                _: Option<f64>,
            ) -> Result<Vec<(u32, f64)>, Error> {
                Err(Error::CalcMethodNotSet)
            }
            fn sorted<'a>(
                _: &'a Tree<Self>,
                _: &'a Cmp<Self>,
            ) -> Box<dyn Iterator<Item = (u32, f64)> + 'a> {
                Box::new(std::iter::empty())
            }
        }
    };
}
sim_int!(i32, 0);
sim_int!(i64, 1 << 60);

/// A geometry as the library's user would own it: half of the data use the bare geo types, half the
/// crate's own wrapper.
#[derive(Debug)]
pub enum Own<T: GeoNum> {
    Pt(Point<T>),
    Ln(Line<T>),
    Ls(LineString<T>),
    Pg(Polygon<T>),
    Rc(Rect<T>),
    W(Geometry<T>),
}

pub fn pt<T: SimNum>(a: &P2) -> Point<T> {
    Point::new(T::of(a[0]), T::of(a[1]))
}
pub fn rect<T: SimNum>(a: &P2, b: &P2) -> Rect<T> {
    Rect::new(pt::<T>(a).0, pt::<T>(b).0)
}
fn ls<T: SimNum>(v: &[P2]) -> LineString<T> {
    LineString::new(v.iter().map(|q| pt::<T>(q).0).collect())
}

/// Whether callers hold some of their geometries in degrees and convert them: on a sphere.
#[derive(Debug, Clone, Copy)]
pub struct Degrees(bool);

impl Degrees {
    pub fn of(c: &Cfg) -> Self {
        Degrees(c.metric == Metric::Sphere)
    }
    fn apply<T: SimNum>(&self, g: &G) -> Option<G> {
        let p = |q: &P2| -> Option<P2> {
            Some([T::of(q[0]).degrees()?.to(), T::of(q[1]).degrees()?.to()])
        };
        let v = |v: &Vec<P2>| v.iter().map(p).collect::<Option<Vec<P2>>>();
        Some(match g {
            _ if !self.0 => return None,
            G::Pt(a) => G::Pt(p(a)?),
            G::Ln(a, b) => G::Ln(p(a)?, p(b)?),
            G::Rc(a, b) => G::Rc(p(a)?, p(b)?),
            G::Ls(a) => G::Ls(v(a)?),
            G::Pg(e, h) => G::Pg(v(e)?, h.iter().map(v).collect::<Option<_>>()?),
        })
    }
}

/// Equal but for the rounding of a conversion.
fn near<T: SimNum>(a: T, b: T) -> bool {
    let (a, b) = (a.to(), b.to());
    a == b || (a - b).abs() <= 8.0 * T::EPS * b.abs() + 1e-37
}
fn near_c<T: SimNum>(a: &Coord<T>, b: &Coord<T>) -> bool {
    near(a.x, b.x) && near(a.y, b.y)
}
fn near_ls<T: SimNum>(a: &LineString<T>, b: &LineString<T>) -> bool {
    a.0.len() == b.0.len() && a.0.iter().zip(&b.0).all(|(a, b)| near_c(a, b))
}

impl<T: SimNum> Own<T> {
    /// `n` stands for how its owner came by this geometry.
    pub fn new(g: &G, n: u32, deg: &Degrees) -> Self {
        let plain = Self::plain(g, n);
        match if n % 4 < 2 { deg.apply::<T>(g) } else { None } {
            Some(d) => {
                let r = T::radians(Self::plain(&d, n), n % 8 < 4);
                // the owner rounds the last digits: what they are is not promised
                if r.near(&plain) { plain } else { r }
            }
            None => plain,
        }
    }
    fn near(&self, o: &Self) -> bool {
        use GeometryRef as R;
        match (self.geom(), o.geom()) {
            (R::Point(a), R::Point(b)) => near_c(&a.0, &b.0),
            (R::Line(a), R::Line(b)) => near_c(&a.start, &b.start) && near_c(&a.end, &b.end),
            (R::Rect(a), R::Rect(b)) => near_c(&a.min(), &b.min()) && near_c(&a.max(), &b.max()),
            (R::LineString(a), R::LineString(b)) => near_ls(a, b),
            (R::Polygon(a), R::Polygon(b)) => {
                near_ls(a.exterior(), b.exterior())
                    && a.interiors().len() == b.interiors().len()
                    && a.interiors().iter().zip(b.interiors()).all(|(a, b)| near_ls(a, b))
            }
            _ => false,
        }
    }
    fn plain(g: &G, n: u32) -> Self {
        let o = match g {
            G::Pt(a) => Own::Pt(pt(a)),
            G::Ln(a, b) => Own::Ln(Line::new(pt::<T>(a).0, pt::<T>(b).0)),
            G::Rc(a, b) => Own::Rc(rect(a, b)),
            G::Ls(v) => Own::Ls(ls(v)),
            G::Pg(e, h) => Own::Pg(Polygon::new(ls(e), h.iter().map(|x| ls(x)).collect())),
        };
        if n % 2 == 0 {
            return o;
        }
        if n % 3 == 0 {
            let any: geo::Geometry<T> = match o {
                Own::Pt(d) => d.into(),
                Own::Ln(d) => d.into(),
                Own::Rc(d) => d.into(),
                Own::Ls(d) => d.into(),
                Own::Pg(d) => d.into(),
                Own::W(_) => unreachable!(),
            };
            // what cannot be converted is nowhere
            return match Geometry::try_from(any) {
                Ok(d) => Own::W(d),
                Err(_) => Own::Ls(LineString::new(vec![])),
            };
        }
        Own::W(match o {
            Own::Pt(d) => d.into(),
            Own::Ln(d) => d.into(),
            Own::Rc(d) => d.into(),
            Own::Ls(d) => d.into(),
            Own::Pg(d) => d.into(),
            Own::W(d) => d,
        })
    }
    pub fn geom(&self) -> GeometryRef<'_, T> {
        match self {
            Own::Pt(d) => d.as_geom(),
            Own::Ln(d) => d.as_geom(),
            Own::Ls(d) => d.as_geom(),
            Own::Pg(d) => d.as_geom(),
            Own::Rc(d) => d.as_geom(),
            Own::W(d) => d.as_geom(),
        }
    }
}

/// Geometries a faulty callback answers with.
#[derive(Debug)]
pub struct Alts<T: GeoNum> {
    empty: LineString<T>,
    nan: Point<T>,
    odd: Line<T>,
    drift: Vec<(P2, Point<T>)>,
    deg: Degrees,
    pub live: AtomicI64,
}

impl<T: SimNum> Alts<T> {
    pub fn new(pr: &Program) -> Arc<Self> {
        let nan = [f64::NAN, f64::NAN];
        Arc::new(Alts {
            empty: LineString::new(vec![]),
            nan: pt(&nan),
            odd: Line::new(pt::<T>(&pr.cfg.min).0, pt::<T>(&pr.cfg.max).0),
            drift: pr
                .faults
                .iter()
                .filter_map(|f| match f.kind {
                    FaultKind::Drift(p) => Some((p, pt(&p))),
                    _ => None,
                })
                .collect(),
            deg: Degrees::of(&pr.cfg),
            live: AtomicI64::new(0),
        })
    }
}

#[derive(Debug)]
pub struct SimDatum<T: GeoNum> {
    pub id: u32,
    p: Point<T>,
    g: Own<T>,
    alts: Arc<Alts<T>>,
    /// real user data are rarely Sync-trivial; a plain payload keeps the type shareable
    _payload: [u8; 3],
}

impl<T: SimNum> SimDatum<T> {
    pub fn new(d: &Datum, alts: &Arc<Alts<T>>) -> Self {
        alts.live.fetch_add(1, Ordering::Relaxed);
        SimDatum {
            id: d.id,
            p: pt(&d.pt),
            g: Own::new(&d.g, d.id, &alts.deg),
            alts: alts.clone(),
            _payload: [1, 2, 3],
        }
    }
}

impl<T: GeoNum> Drop for SimDatum<T> {
    fn drop(&mut self) {
        self.alts.live.fetch_sub(1, Ordering::Relaxed);
    }
}

impl<T: SimNum> AsPoint<T> for SimDatum<T> {
    fn as_point(&self) -> Point<T> {
        match callback(self.id, 0) {
            Act::Nan => self.alts.nan,
            Act::Drift(p) => pt(&p),
            _ if self.id % 3 == 0 => AsPoint::as_point(&self.p.0),
            _ => AsPoint::as_point(&self.p),
        }
    }
}

impl<T: SimNum> AsGeom<T> for SimDatum<T> {
    fn as_geom(&self) -> GeometryRef<'_, T> {
        match callback(self.id, 1) {
            Act::Normal => self.g.geom(),
            Act::Unbound => GeometryRef::LineString(&self.alts.empty),
            Act::Nan => GeometryRef::Point(&self.alts.nan),
            Act::Odd => GeometryRef::Line(&self.alts.odd),
            Act::Drift(p) => {
                let d = self.alts.drift.iter().find(|d| d.0 == p).expect("planned drift");
                GeometryRef::Point(&d.1)
            }
        }
    }
}

#[derive(Debug)]
pub struct Cmp<T: GeoNum> {
    g: Own<T>,
    id: u32,
}
impl<T: SimNum> Cmp<T> {
    pub fn new(g: &G, id: u32, cfg: &Cfg) -> Self {
        Cmp { g: Own::new(g, id, &Degrees::of(cfg)), id }
    }
}
impl<T: SimNum> AsGeom<T> for Cmp<T> {
    fn as_geom(&self) -> GeometryRef<'_, T> {
        callback(1_000_000_000 + self.id, 2);
        self.g.geom()
    }
}

pub enum Tree<T: SimNum> {
    P(PointQuadTree<SimDatum<T>, T>),
    B(BoundsQuadTree<SimDatum<T>, T>),
}

impl<T: SimNum> Tree<T> {
    pub fn new(c: &Cfg) -> Self {
        let b = rect::<T>(&c.min, &c.max);
        let m = match c.metric {
            Metric::None => CalcMethod::None,
            Metric::Euclid => CalcMethod::Euclidean,
            Metric::Sphere => CalcMethod::Spherical,
        };
        match (c.kind, c.default_ctor) {
            (Kind::Point, false) => Tree::P(PointQuadTree::new(b, m, c.depth, c.cap)),
            (Kind::Point, true) => Tree::P(PointQuadTree::from_bounds(b, m)),
            (Kind::Bounds, false) => Tree::B(BoundsQuadTree::new(b, m, c.depth, c.cap)),
            (Kind::Bounds, true) => Tree::B(BoundsQuadTree::from_bounds(b, m)),
        }
    }
    pub fn insert(&mut self, d: SimDatum<T>) -> Result<(), Error> {
        match self {
            Tree::P(q) => q.insert(d),
            Tree::B(q) => q.insert(d),
        }
    }
    pub fn size(&self) -> usize {
        match self {
            Tree::P(q) => q.size(),
            Tree::B(q) => q.size(),
        }
    }
    pub fn show(&self) -> String {
        match self {
            Tree::P(q) => q.to_string(),
            Tree::B(q) => q.to_string(),
        }
    }
    pub fn iter(&self) -> Box<dyn Iterator<Item = u32> + '_> {
        match self {
            Tree::P(q) => Box::new(q.into_iter().map(|d| d.id)),
            Tree::B(q) => Box::new(q.into_iter().map(|d| d.id)),
        }
    }
    /// The other ways to consume a traversal must agree with stepping through it.
    pub fn iter_ways(&self, k: usize) -> Ways {
        match self {
            Tree::P(q) => ways(|| q.into_iter().map(|d| d.id), k),
            Tree::B(q) => ways(|| q.into_iter().map(|d| d.id), k),
        }
    }
    pub fn retrieve_ways(&self, d: &SimDatum<T>, k: usize) -> Ways {
        match self {
            Tree::P(q) => ways(|| q.retrieve(d).map(|d| d.id), k),
            Tree::B(q) => ways(|| q.retrieve(d).map(|d| d.id), k),
        }
    }
    pub fn retrieve<'a>(&'a self, d: &'a SimDatum<T>) -> Box<dyn Iterator<Item = u32> + 'a> {
        match self {
            Tree::P(q) => Box::new(q.retrieve(d).map(|d| d.id)),
            Tree::B(q) => Box::new(q.retrieve(d).map(|d| d.id)),
        }
    }
}

/// What consuming an iterator by other ways than stepping through it gives. The order inside a cell
/// is free, so only what does not depend on it.
#[derive(Debug, PartialEq)]
pub struct Ways {
    count: usize,
    folded: Vec<u32>,
    last: bool,
    nth: bool,
    rest: usize,
    hint_ok: bool,
    ended: bool,
}

fn ways<I: Iterator<Item = u32>>(mk: impl Fn() -> I, k: usize) -> Ways {
    let count = mk().count();
    let last = mk().last().is_some();
    let mut folded = vec![];
    mk().for_each(|x| folded.push(x));
    folded.sort();
    let mut it = mk();
    let (lo, hi) = it.size_hint();
    let mut hint_ok = lo <= count && hi.is_none_or(|h| h >= count);
    let nth = it.nth(k).is_some();
    let (lo, hi) = it.size_hint();
    let rest = it.by_ref().count();
    hint_ok &= lo <= rest && hi.is_none_or(|h| h >= rest);
    let ended = it.next().is_none() && it.next().is_none() && it.size_hint().0 == 0;
    Ways { count, folded, last, nth, rest, hint_ok, ended }
}

impl Ways {
    /// What stepping through `v` to its end means for the others.
    pub fn of(v: &[u32], k: usize) -> Ways {
        let mut folded = v.to_vec();
        folded.sort();
        Ways {
            count: v.len(),
            folded,
            last: !v.is_empty(),
            nth: k < v.len(),
            rest: v.len().saturating_sub(k + 1),
            hint_ok: true,
            ended: true,
        }
    }
}

// --------------------------------------------- are the trees shareable between threads?

struct Probe<T: ?Sized>(std::marker::PhantomData<T>);
trait NotSync {
    const SHARE: bool = false;
}
impl<T: ?Sized> NotSync for Probe<T> {}
impl<T: ?Sized + Sync + Send> Probe<T> {
    const SHARE: bool = true;
}

/// True if trees of shareable data are `Send + Sync`.
pub fn shareable() -> bool {
    // the probe must be able to say no
    assert!(!Probe::<Rc<Cell<u8>>>::SHARE && Probe::<Arc<u8>>::SHARE);
    Probe::<PointQuadTree<Point<f64>, f64>>::SHARE
        && Probe::<BoundsQuadTree<Rect<f64>, f64>>::SHARE
        && Probe::<PointQuadTree<Point<i32>, i32>>::SHARE
        && Probe::<BoundsQuadTree<Line<f32>, f32>>::SHARE
}
