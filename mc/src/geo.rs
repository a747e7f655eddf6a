//! Exact reference geometry on an integer lattice, and the map to the library's shapes.
//!
//! Scenes are made of shapes with small integer parameters; signs of integer polynomials decide
//! whether two shapes meet. A scene is given to the library moved by an integer vector and scaled
//! by a power of two, so that the library receives exactly the scene that the reference judged.

use mazth::i_shape::IShape;
use mazth::line::Line3;
use mazth::mat::Mat3x1;
use mazth::point::Point3;
use mazth::ray::Ray3;
use mazth::rbox::RecBox;
use mazth::triprism::TriPrism;

pub type I3 = [i64; 3];
pub type F3 = [f64; 3];

pub fn sub(a: I3, b: I3) -> I3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn add(a: I3, b: I3) -> I3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn dot(a: I3, b: I3) -> i64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: I3, b: I3) -> I3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn zero(a: I3) -> bool {
    a == [0, 0, 0]
}
pub fn len(a: I3) -> f64 {
    (dot(a, a) as f64).sqrt()
}
pub fn fl(a: I3) -> F3 {
    a.map(|x| x as f64)
}
pub fn fsub(a: F3, b: F3) -> F3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn fdot(a: F3, b: F3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn fcross(a: F3, b: F3) -> F3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn flen(a: F3) -> f64 {
    fdot(a, a).sqrt()
}
pub fn at(o: I3, d: I3, t: f64) -> F3 {
    [0, 1, 2].map(|i| o[i] as f64 + d[i] as f64 * t)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum G {
    Point(I3),
    /// origin, direction
    Ray(I3, I3),
    /// point, normal
    Plane(I3, I3),
    /// centre, radius
    Sphere(I3, i64),
    /// centre, half edge
    Cube(I3, i64),
    /// base, height
    Prism([I3; 3], i64),
    Segment(I3, I3),
}
use G::*;

/// Where and how large the scene is: world = (lattice + mv) * 2^s; directions are given with
/// length factor 2^dk.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Tf {
    pub s: i32,
    pub mv: I3,
    pub dk: i32,
}
pub const ID: Tf = Tf { s: 0, mv: [0, 0, 0], dk: 0 };

impl Tf {
    pub fn k(&self) -> f64 {
        2f64.powi(self.s)
    }
    pub fn p(&self, p: I3) -> F3 {
        let k = self.k();
        [0, 1, 2].map(|i| self.zero((p[i] + self.mv[i]) as f64 * k))
    }
    /// zeros are negative ones in the scenes of odd scale
    fn zero(&self, x: f64) -> f64 {
        if x == 0.0 && self.s & 1 == 1 {
            -0.0
        } else {
            x
        }
    }
    pub fn d(&self, d: I3) -> F3 {
        let k = 2f64.powi(self.dk);
        d.map(|x| self.zero(x as f64 * k))
    }
    /// world to lattice
    pub fn back(&self, p: F3) -> F3 {
        let k = self.k();
        [0, 1, 2].map(|i| p[i] / k - self.mv[i] as f64)
    }
    /// largest coordinate of the moved scene, in lattice units
    pub fn mag(&self) -> f64 {
        self.mv.iter().map(|x| x.abs()).max().unwrap() as f64
    }
    pub fn show(&self) -> String {
        if *self == ID {
            String::new()
        } else {
            format!(" (moved by {:?}, scaled by 2^{}, directions by 2^{})", self.mv, self.s, self.dk)
        }
    }
}

pub fn normal(b: &[I3; 3]) -> I3 {
    cross(sub(b[1], b[0]), sub(b[2], b[0]))
}

impl G {
    pub fn build(&self, t: &Tf) -> Box<dyn IShape> {
        let k = t.k();
        match *self {
            Point(p) => Box::new(Point3::init(&t.p(p))),
            Ray(o, d) => Box::new(Ray3::init(&t.p(o), &t.d(d))),
            Plane(o, n) => Box::new(mazth::plane::Plane::init(&t.p(o), &t.d(n))),
            Sphere(c, r) => Box::new(mazth::sphere::Sphere::init(&t.p(c), r as f64 * k)),
            Cube(c, h) => Box::new(RecBox::init(&t.p(c), h as f64 * k)),
            Prism(b, h) => {
                let v = b.map(|p| t.p(p));
                Box::new(TriPrism::init(&[v[0][0], v[0][1], v[0][2], v[1][0], v[1][1], v[1][2], v[2][0], v[2][1], v[2][2]], h as f64 * k))
            }
            Segment(a, b) => Box::new(Line3::init(&t.p(a), &t.p(b))),
        }
    }
    /// not a degenerate shape
    pub fn valid(&self) -> bool {
        match *self {
            Point(_) => true,
            Ray(_, d) | Plane(_, d) => !zero(d),
            Sphere(_, r) | Cube(_, r) => r > 0,
            Prism(b, h) => h > 0 && !zero(normal(&b)),
            Segment(..) => true,
        }
    }
    pub fn kind(&self) -> u32 {
        match self {
            Point(_) => 0,
            Ray(..) => 1,
            Plane(..) => 2,
            Sphere(..) => 3,
            Cube(..) => 4,
            Prism(..) => 5,
            Segment(..) => 6,
        }
    }
    /// largest coordinate
    pub fn mag(&self) -> f64 {
        let m = |p: I3| p.iter().map(|x| x.abs()).max().unwrap();
        (match *self {
            Point(p) | Ray(p, _) | Plane(p, _) => m(p),
            Sphere(p, r) | Cube(p, r) => m(p) + r,
            Prism(b, h) => m(b[0]).max(m(b[1])).max(m(b[2])) + h,
            Segment(a, b) => m(a).max(m(b)),
        }) as f64
    }
    /// its direction is an axis and normalizing it cannot round
    pub fn axis(&self) -> bool {
        let d = match *self {
            Ray(_, d) | Plane(_, d) => d,
            Prism(b, _) => normal(&b),
            _ => return true,
        };
        let mut it = d.iter().filter(|x| **x != 0);
        matches!((it.next(), it.next()), (Some(x), None) if (x.abs() as u64).is_power_of_two())
    }
    /// signed facet functions of a prism, positive outside, as distances (float)
    pub fn facets(&self) -> Vec<(F3, F3)> {
        if let Prism(b, h) = *self {
            let n = fl(normal(&b));
            let l = flen(n);
            let u = n.map(|x| x / l);
            let top = [0, 1, 2].map(|i| b[0][i] as f64 + u[i] * h as f64);
            let mut v = vec![(fl(b[0]), u.map(|x| -x)), (top, u)];
            for i in 0..3 {
                let e = fsub(fl(b[(i + 1) % 3]), fl(b[i]));
                let m = fcross(e, u);
                let ml = flen(m);
                v.push((fl(b[i]), m.map(|x| x / ml)));
            }
            v
        } else {
            panic!("facets of a shape that is no prism")
        }
    }
    /// distance from the shape (0 inside), in lattice units; planes and rays as point sets
    pub fn distance(&self, p: F3) -> f64 {
        match *self {
            Point(o) => flen(fsub(p, fl(o))),
            Ray(o, d) => {
                let (w, d) = (fsub(p, fl(o)), fl(d));
                let t = (fdot(w, d) / fdot(d, d)).max(0.0);
                flen([0, 1, 2].map(|i| w[i] - d[i] * t))
            }
            Segment(a, b) => {
                let (w, d) = (fsub(p, fl(a)), fl(sub(b, a)));
                let dd = fdot(d, d);
                let t = if dd == 0.0 { 0.0 } else { (fdot(w, d) / dd).clamp(0.0, 1.0) };
                flen([0, 1, 2].map(|i| w[i] - d[i] * t))
            }
            Plane(o, n) => {
                let n = fl(n);
                (fdot(fsub(p, fl(o)), n) / flen(n)).abs()
            }
            Sphere(c, r) => (flen(fsub(p, fl(c))) - r as f64).max(0.0),
            Cube(c, h) => (0..3).map(|i| (p[i] - c[i] as f64).abs() - h as f64).fold(0.0, f64::max),
            Prism(..) => self.facets().iter().map(|(v, n)| fdot(fsub(p, *v), *n)).fold(0.0, f64::max),
        }
    }
}

/// How two shapes meet.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum V {
    /// with room to spare
    Hit,
    /// a contact of things without thickness (a point on a ray): decided by the library's tolerance
    Thin,
    /// only the boundaries meet (closed shapes: counts as meeting where arithmetic is exact)
    Touch,
    Miss,
    /// a miss by the given distance (lattice units), of things compared with a tolerance
    Near(f64),
    /// left to rounding
    Open,
}
use V::*;

fn pt_prism(p: I3, b: &[I3; 3], h: i64) -> V {
    let n = normal(b);
    let k = dot(sub(p, b[0]), n);
    let (k2, l2) = ((k as i128) * (k as i128), (h as i128) * (h as i128) * dot(n, n) as i128);
    if k < 0 || k2 > l2 {
        return Miss;
    }
    let mut touch = k == 0 || k2 == l2;
    for i in 0..3 {
        let m = cross(sub(b[(i + 1) % 3], b[i]), n);
        let w = sub(p, b[i]);
        let f: i128 = (0..3).map(|j| w[j] as i128 * m[j] as i128).sum();
        if f > 0 {
            return Miss;
        }
        touch |= f == 0;
    }
    if touch {
        Touch
    } else {
        Hit
    }
}

/// Interval of the segment inside the prism with facets moved outwards by `by` (facet-wise).
pub fn clip(a: F3, b: F3, facets: &[(F3, F3)], by: &[f64]) -> Option<(f64, f64)> {
    let (mut t0, mut t1) = (0.0f64, 1.0f64);
    for (i, (v, n)) in facets.iter().enumerate() {
        let (fa, fb) = (fdot(fsub(a, *v), *n) - by[i], fdot(fsub(b, *v), *n) - by[i]);
        if fa > 0.0 && fb > 0.0 {
            return None;
        }
        if fa > 0.0 {
            t0 = t0.max(fa / (fa - fb));
        } else if fb > 0.0 {
            t1 = t1.min(fa / (fa - fb));
        }
    }
    if t0 <= t1 {
        Some((t0, t1))
    } else {
        None
    }
}

fn seg_prism(a: I3, b: I3, pr: &G, scale: f64) -> V {
    let Prism(base, h) = *pr else { panic!() };
    let (va, vb) = (pt_prism(a, &base, h), pt_prism(b, &base, h));
    if va == Hit || vb == Hit {
        return Hit;
    }
    let f = pr.facets();
    // the library accepts an entry point that exceeds a facet by 1e-6
    let grow = [3e-6 / scale + 1e-9; 5];
    let shrink = [-1e-6 / scale.min(1.0); 5];
    let (fa, fb) = (fl(a), fl(b));
    if a != b {
        if let Some((t0, t1)) = clip(fa, fb, &f, &shrink) {
            // a millionth of the segment, or a hundred-thousandth of a unit of a long one
            if t1 - t0 > 1e-6f64.min(1e-5 / flen(fsub(fb, fa))).max(1e-13) {
                return Hit;
            }
        }
    }
    if clip(fa, fb, &f, &grow).is_none() {
        return Miss;
    }
    if va == Touch || vb == Touch {
        Touch
    } else {
        Open
    }
}

fn ray_ray(a: I3, u: I3, b: I3, w: I3, scale: f64) -> V {
    let d = sub(b, a);
    let v = cross(u, w);
    let (lu, lw) = (len(u), len(w));
    if zero(v) {
        let off = cross(d, u);
        if !zero(off) {
            return Near(len(off) / lu);
        }
        // on one line: same way always overlap, opposite ways only if they face each other
        return if dot(u, w) > 0 || dot(d, u) >= 0 { Thin } else { Miss };
    }
    let vv = dot(v, v) as f64;
    let (t, s) = (dot(cross(d, w), v), dot(cross(d, u), v));
    let (tf, sf) = (t as f64 / vv * lu * scale, s as f64 / vv * lw * scale);
    let det = dot(v, d);
    let sin = vv.sqrt() / (lu * lw);
    if det != 0 {
        return Near(det.abs() as f64 / (lu * lw));
    }
    // nearly parallel directions are treated as parallel
    if sin < 3e-4 {
        return Open;
    }
    if (t < 0 && tf > -1e-5) || (s < 0 && sf > -1e-5) {
        return Open;
    }
    if t < 0 || s < 0 {
        Miss
    } else {
        Thin
    }
}

fn ray_sphere(o: I3, d: I3, c: I3, r: i64) -> V {
    let w = sub(o, c);
    let (aa, bb, cc) = (dot(d, d) as i128, dot(w, d) as i128, (dot(w, w) - r * r) as i128);
    if cc < 0 {
        return Hit;
    }
    if cc == 0 {
        return Touch;
    }
    if bb >= 0 {
        return Miss;
    }
    let disc = bb * bb - aa * cc;
    // so nearly tangent that rounding of the unit direction decides
    if disc != 0 && (disc.abs() as f64) < 1e-10 * aa as f64 * dot(w, w) as f64 {
        return Open;
    }
    match disc.signum() {
        1 => Hit,
        0 => Touch,
        _ => Miss,
    }
}

fn cmp2(x: i128, y: i128) -> V {
    if x < y {
        Hit
    } else if x == y {
        Touch
    } else {
        Miss
    }
}

/// The reference verdict; None: the library does not offer this pair. `t` matters for the
/// absolute tolerances only.
pub fn verdict(a: &G, b: &G, t: &Tf) -> Option<V> {
    let (a, b) = if a.kind() <= b.kind() { (a, b) } else { (b, a) };
    let sq = |x: i64| x as i128 * x as i128;
    Some(match (*a, *b) {
        (Point(p), Point(q)) => {
            if p == q {
                Thin
            } else {
                Near((0..3).map(|i| (p[i] - q[i]).abs()).max().unwrap() as f64)
            }
        }
        (Point(p), Ray(o, d)) => {
            let w = sub(p, o);
            let c = cross(w, d);
            if !zero(c) {
                Near(len(c) / len(d) / 2.0)
            } else if dot(w, d) >= 0 {
                Thin
            } else {
                Miss
            }
        }
        (Point(p), Plane(o, n)) => {
            let k = dot(sub(p, o), n);
            if k == 0 {
                Thin
            } else {
                Near(k.abs() as f64 / len(n))
            }
        }
        (Point(p), Sphere(c, r)) => {
            let w = sub(p, c);
            cmp2(dot(w, w) as i128, sq(r))
        }
        (Point(p), Cube(c, h)) => cmp2(sub(p, c).iter().map(|x| x.abs()).max().unwrap() as i128, h as i128),
        (Point(p), Prism(b, h)) => pt_prism(p, &b, h),
        (Ray(a, u), Ray(b, w)) => ray_ray(a, u, b, w, t.k()),
        (Ray(o, d), Sphere(c, r)) => ray_sphere(o, d, c, r),
        (Ray(o, d), Plane(q, n)) => {
            let (dn, k) = (dot(d, n), dot(n, sub(q, o)));
            if dn == 0 {
                if k == 0 {
                    Thin
                } else {
                    Near(k.abs() as f64 / len(n))
                }
            } else if (dn.abs() as f64) < 3e-6 * len(d) * len(n) {
                Open
            } else if dn > 0 {
                Miss
            } else if k == 0 {
                Touch
            } else if k < 0 {
                Hit
            } else {
                Miss
            }
        }
        (Sphere(c, r), Sphere(d, q)) => {
            let w = sub(c, d);
            cmp2(dot(w, w) as i128, sq(r + q))
        }
        (Plane(o, n), Sphere(c, r)) => {
            let k = dot(sub(c, o), n);
            let gap = (k.abs() as f64 / len(n) - r as f64).abs();
            match cmp2(sq(k), sq(r) * dot(n, n) as i128) {
                // the products with a normal that is not along an axis are rounded
                Hit | Miss if !(a.axis() && b.axis()) && gap < 64.0 * f64::EPSILON * (1.0 + a.mag().max(b.mag()) + t.mag()) => Open,
                v => v,
            }
        }
        (Prism(..), Segment(p, q)) => seg_prism(p, q, b_prism(a, b), t.k()),
        _ => return None,
    })
}
fn b_prism<'a>(a: &'a G, b: &'a G) -> &'a G {
    if let Prism(..) = a {
        a
    } else {
        b
    }
}

/// A contact of boundaries whose verdict the library's arithmetic reaches without rounding.
pub fn touch_is_exact(a: &G, b: &G) -> bool {
    match (a, b) {
        (Sphere(..), Sphere(..)) | (Point(_), Sphere(..)) | (Sphere(..), Point(_)) | (Point(_), Cube(..)) | (Cube(..), Point(_)) => true,
        // also for a library that takes the distance of the centre, which must not round
        (Ray(o, _), Sphere(c, _)) | (Sphere(c, _), Ray(o, _)) => {
            let w = sub(*o, *c);
            let s = len(w).round() as i64;
            a.axis() && b.axis() && s * s == dot(w, w)
        }
        // a slanted facet need not be met exactly, where its normal is of unit length
        (Point(p), Prism(..)) => b.axis() && !on_slanted_facet(b, *p),
        (Prism(..), Point(p)) => a.axis() && !on_slanted_facet(a, *p),
        _ => a.axis() && b.axis(),
    }
}
fn on_slanted_facet(pr: &G, p: I3) -> bool {
    let m = 1.0 + pr.mag() + p.iter().map(|x| x.abs()).max().unwrap() as f64;
    pr.facets().iter().any(|(v, n)| n.iter().filter(|x| x.abs() > 1e-9).count() > 1 && fdot(fsub(fl(p), *v), *n).abs() < 1e-9 * m)
}

/// The location that the pair determines uniquely, with its tolerance (lattice units).
pub fn location(a: &G, b: &G, t: &Tf) -> Option<(F3, f64)> {
    let (a, b) = if a.kind() <= b.kind() { (a, b) } else { (b, a) };
    let m = 1.0 + a.mag().max(b.mag()) + t.mag();
    match (*a, *b) {
        (Point(p), _) => Some((fl(p), 1e-11 * m)),
        (Ray(o, d), Sphere(c, r)) => {
            let w = sub(o, c);
            let (aa, bb, cc) = (dot(d, d) as f64, dot(w, d) as f64, (dot(w, w) - r * r) as f64);
            let disc = ((bb as i128 * bb as i128) - (dot(d, d) as i128) * (dot(w, w) - r * r) as i128) as f64;
            if cc == 0.0 && d.iter().filter(|x| **x != 0).count() == 1 {
                // starts on the surface, and nothing rounds
                return Some((fl(o), 1e-12 * m));
            }
            if disc <= 0.0 || cc == 0.0 {
                return None;
            }
            let q = disc.sqrt();
            // t1 and t2 without cancellation
            let tt = if cc > 0.0 { cc / (-bb + q) } else if bb > 0.0 { -cc / (bb + q) } else { (-bb + q) / aa };
            Some((at(o, d, tt), 1e-11 * m + 1e-13 * m * m / (disc / aa).sqrt()))
        }
        (Ray(o, d), Plane(q, n)) => {
            let (dn, k) = (dot(d, n), dot(n, sub(q, o)));
            if dn == 0 {
                return Some((fl(o), 1e-12 * m));
            }
            Some((at(o, d, k as f64 / dn as f64), 1e-12 * m * (1.0 + len(d) * len(n) / dn.abs() as f64)))
        }
        (Ray(p, u), Ray(q, w)) => {
            let v = cross(u, w);
            if zero(v) {
                return None;
            }
            let d = sub(q, p);
            let vv = dot(v, v) as f64;
            let sin = vv.sqrt() / (len(u) * len(w));
            Some((at(p, u, dot(cross(d, w), v) as f64 / vv), 1e-12 * m / sin / sin + 1e-12 * m))
        }
        (Plane(o, n), Sphere(c, _)) => {
            let k = dot(sub(c, o), n) as f64 / dot(n, n) as f64;
            Some((at(c, n, -k), 1e-12 * m))
        }
        _ => None,
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Ans {
    pub hit: bool,
    pub loc: Option<F3>,
}
pub fn ask(a: &dyn IShape, b: &dyn IShape) -> Ans {
    let (h, l) = a.get_intersect(b);
    Ans { hit: h, loc: l.map(|m: Mat3x1<f64>| m._val) }
}

/// What is wrong with the answer, if anything; `open`: the verdict is left to rounding.
pub struct Judge {
    pub wrong: Option<String>,
    pub open: bool,
    pub v: V,
}
pub fn judge(a: &G, b: &G, t: &Tf, ans: &Ans, v: V) -> Judge {
    let mut j = Judge { wrong: None, open: false, v };
    let m = 1.0 + a.mag().max(b.mag()) + t.mag();
    let want = match v {
        Hit => Some(true),
        Miss => Some(false),
        Thin => {
            // rounding of the coordinates against the tolerance of 1e-6
            if m * t.k() > 1e8 {
                None
            } else {
                Some(true)
            }
        }
        Touch => {
            let slanted = match (a, b) {
                (Segment(p, q), Prism(..)) => on_slanted_facet(b, *p) || on_slanted_facet(b, *q),
                (Prism(..), Segment(p, q)) => on_slanted_facet(a, *p) || on_slanted_facet(a, *q),
                _ => false,
            };
            if slanted && m * t.k() > 1e8 {
                // more rounding than the tolerance
                None
            } else if touch_is_exact(a, b) {
                Some(true)
            } else {
                None
            }
        }
        Near(gap) => {
            if gap * t.k() < 4e-6 {
                None
            } else {
                Some(false)
            }
        }
        Open => None,
    };
    if ans.hit != ans.loc.is_some() {
        j.wrong = Some(format!("verdict {} with location {:?}", ans.hit, ans.loc));
        return j;
    }
    match want {
        Some(w) if w != ans.hit => {
            j.wrong = Some(format!("intersects={} instead of {} ({:?})", ans.hit, w, v));
            return j;
        }
        None => j.open = true,
        _ => {}
    }
    if let Some(l) = ans.loc {
        let p = t.back(l);
        // the tolerance of the library itself, in lattice units, where it decides by tolerance
        let slack = 4e-6 / t.k();
        if j.open {
            // the location still lies on both
            for g in [a, b] {
                let dd = g.distance(p);
                if !(dd <= 1e-3 * m.min(100.0) + slack * 1e3) {
                    j.wrong = Some(format!("location {:?} is {} away from {:?}", l, dd, g));
                    return j;
                }
            }
            return j;
        }
        if let Some((w, tol)) = location(a, b, t) {
            let e = flen(fsub(p, w));
            if !(e <= tol) {
                j.wrong = Some(format!("location {:?} (lattice {:?}) instead of lattice {:?}", l, p, w));
                return j;
            }
        }
        for g in [a, b] {
            let dd = g.distance(p);
            let tol = match g {
                Prism(..) | Segment(..) => 1e-11 * m + slack,
                _ => match (a, b) {
                    (Ray(..), Ray(..)) => location(a, b, t).map_or(1e-11 * m, |x| x.1),
                    _ => location(a, b, t).map_or(1e-11 * m, |x| x.1.max(1e-11 * m)),
                },
            };
            if !(dd <= tol) {
                j.wrong = Some(format!("location {:?} is {} away from {:?}", l, dd, g));
                return j;
            }
        }
    }
    j
}

/// The 48 symmetries of the cube: a permutation of the axes and signs.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Sym {
    pub perm: [usize; 3],
    pub sign: I3,
}
impl Sym {
    pub fn all() -> Vec<Sym> {
        let mut v = vec![];
        for perm in [[0, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 0, 2]] {
            for s in 0..8 {
                v.push(Sym { perm, sign: [0, 1, 2].map(|i| if s >> i & 1 == 1 { -1 } else { 1 }) });
            }
        }
        v
    }
    pub fn p(&self, p: I3) -> I3 {
        [0, 1, 2].map(|i| p[self.perm[i]] * self.sign[i])
    }
    pub fn f(&self, p: F3) -> F3 {
        [0, 1, 2].map(|i| p[self.perm[i]] * self.sign[i] as f64)
    }
    pub fn proper(&self) -> bool {
        let e = [[1, 0, 0], [0, 1, 0], [0, 0, 1]].map(|v| self.p(v));
        dot(cross(e[0], e[1]), e[2]) == 1
    }
    pub fn g(&self, g: &G) -> G {
        let f = |p: I3| self.p(p);
        match *g {
            Point(a) => Point(f(a)),
            Ray(a, b) => Ray(f(a), f(b)),
            Plane(a, b) => Plane(f(a), f(b)),
            Segment(a, b) => Segment(f(a), f(b)),
            Sphere(c, r) => Sphere(f(c), r),
            Cube(c, r) => Cube(f(c), r),
            Prism(b, h) => {
                let b = b.map(f);
                // a mirror image is counter-clockwise the other way around
                if self.proper() {
                    Prism(b, h)
                } else {
                    Prism([b[0], b[2], b[1]], h)
                }
            }
        }
    }
}

/// range of d.x over the shape
pub fn extent(g: &G, d: I3) -> (f64, f64) {
    let inf = f64::INFINITY;
    let span = |ps: &[I3]| {
        let k: Vec<f64> = ps.iter().map(|p| dot(*p, d) as f64).collect();
        (k.iter().cloned().fold(inf, f64::min), k.iter().cloned().fold(-inf, f64::max))
    };
    match *g {
        Point(p) => span(&[p]),
        Ray(o, u) => {
            let k = dot(o, d) as f64;
            match dot(u, d).signum() {
                1 => (k, inf),
                0 => (k, k),
                _ => (-inf, k),
            }
        }
        Plane(o, n) => {
            if zero(cross(n, d)) {
                span(&[o])
            } else {
                (-inf, inf)
            }
        }
        Sphere(c, r) => {
            let k = dot(c, d) as f64;
            (k - r as f64 * len(d), k + r as f64 * len(d))
        }
        Cube(c, h) => {
            let (k, e) = (dot(c, d) as f64, (h * (d[0].abs() + d[1].abs() + d[2].abs())) as f64);
            (k - e, k + e)
        }
        Prism(b, h) => {
            let (lo, hi) = span(&b);
            let n = normal(&b);
            let e = dot(n, d) as f64 / len(n) * h as f64;
            (lo + e.min(0.0), hi + e.max(0.0))
        }
        Segment(a, b) => span(&[a, b]),
    }
}
/// a direction among these separates the two by a margin
pub fn separated(a: &G, b: &G, dirs: &[I3]) -> bool {
    dirs.iter().any(|d| {
        let ((al, ah), (bl, bh)) = (extent(a, *d), extent(b, *d));
        let gap = f64::max(bl - ah, al - bh);
        gap >= 0.25 * len(*d)
    })
}
/// the lattice point lies inside the shape, with room to spare unless it has no inside
pub fn member(g: &G, p: I3) -> bool {
    match *g {
        Segment(a, b) => zero(cross(sub(b, a), sub(p, a))) && dot(sub(p, a), sub(p, b)) <= 0,
        Ray(o, d) => zero(cross(d, sub(p, o))) && dot(d, sub(p, o)) >= 0,
        _ => matches!(verdict(&Point(p), g, &ID), Some(Hit | Thin)),
    }
}
