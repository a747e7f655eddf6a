//! Bounds, shapes, intersection, support functions: C16..C31.

use crate::engine::*;
use crate::geo::G::*;
use crate::geo::*;
use mazth::bound::{Axis, AxisAlignedBBox};
use mazth::i_bound::{BoundType, IBound};
use mazth::i_shape::{IShape, ShapeType};
use mazth::i_vicinity::IVicinity;
use mazth::intersect_gjk::query_intersect;
use mazth::mat::Mat3x1;
use std::cell::Cell;

const INF: f64 = f64::INFINITY;

pub fn checks() -> Vec<(&'static str, fn(&mut Ctx))> {
    vec![
        ("C16", c16),
        ("C17", c17),
        ("C18", c18),
        ("C19", c19),
        ("C20", c20),
        ("C21", c21),
        ("C22", c22),
        ("C23", c23),
        ("C24", c24),
        ("C25", c25),
        ("C26", c26),
        ("C27", c27),
        ("C28", c28),
        ("C29", c29),
        ("C30", c30),
        ("C31", c31),
        ("C33", c33),
        ("C34", c34),
        ("C37", c37),
        ("C39", c39),
        ("C40", c40),
    ]
}

/// all lattice points of a cube
fn grid(lo: i64, hi: i64) -> Vec<I3> {
    let mut v = vec![];
    for x in lo..=hi {
        for y in lo..=hi {
            for z in lo..=hi {
                v.push([x, y, z])
            }
        }
    }
    v
}
fn nonzero(v: Vec<I3>) -> Vec<I3> {
    v.into_iter().filter(|p| !zero(*p)).collect()
}
fn isqrt(x: i64) -> i64 {
    let mut s = (x as f64).sqrt() as i64;
    while s * s > x {
        s -= 1
    }
    while (s + 1) * (s + 1) <= x {
        s += 1
    }
    s
}
/// one of each direction
fn primitive(v: Vec<I3>) -> Vec<I3> {
    fn gcd(a: i64, b: i64) -> i64 {
        if b == 0 {
            a.abs()
        } else {
            gcd(b, a % b)
        }
    }
    nonzero(v).into_iter().filter(|p| gcd(gcd(p[0], p[1]), p[2]) == 1).collect()
}
/// so far out that coordinates need more than 24 bits
const FAR: Tf = Tf { s: 0, mv: [67108865, -67108871, 33554435], dk: -10 };
/// sizes that take more than 24 bits, and those next to one and a half in scenes scaled by 2^-14
const WIDE: [i64; 6] = [33554433, 67108863, 25165829, 16385, 16383, 8193];
const NW: u64 = WIDE.len() as u64;
/// a point at the given distance from c along an axis, give or take a unit, also beside the axis:
/// 3 axes x 2 signs x 3 distances x 3 places
fn beside(d: &mut Dec, c: I3, dist: i64) -> I3 {
    let ax = d.take(3);
    let sg = if d.take(2) == 0 { 1 } else { -1 };
    let e = d.take(3) as i64 - 1;
    let side = [[0, 0], [1, -2], [5000, 3000]][d.take(3)];
    let mut p = c;
    p[ax] += sg * (dist + e);
    p[(ax + 1) % 3] += side[0];
    p[(ax + 2) % 3] += side[1];
    p
}
const BESIDE: u64 = 54;
/// almost along an axis: the axis, one across, and the direction of the given length with a step of
/// one, or of two, across
fn almost_axis(d: &mut Dec, m: i64) -> (usize, usize, I3) {
    let ax = d.take(3);
    let across = (ax + 1 + d.take(2)) % 3;
    let mut n = [0; 3];
    n[ax] = if d.take(2) == 0 { m } else { -m };
    n[across] = [1, -1, 2][d.take(3)];
    (ax, across, n)
}
const ALMOST: u64 = 36;
/// next to one and a half in scenes scaled by 2^-14
const SPECIAL: [i64; 6] = [8191, 8193, 8196, 16383, 16385, 16388];
/// directions with a component next to one half, and next to one, of their length
const HALVES: [I3; 8] = [[866, 501, 0], [501, 0, -866], [0, -866, 499], [-499, 866, 0], [0, 501, 866], [-866, 0, 501], [1, 0, 100], [0, 100, -1]];
const STEEP: [i64; 4] = [300, 3000, 40000, 1 << 24];
fn places(ctx: &Ctx) -> Vec<Tf> {
    let mut v = vec![ID, Tf { s: -6, mv: [5, 0, -1], dk: 40 }, Tf { s: 10, mv: [-3, 77, 1000], dk: -30 }, Tf { s: 3, mv: [-4096, 2048, 1], dk: 0 }, Tf { s: -13, mv: [0, 0, 0], dk: 0 }, FAR, Tf { s: 41, mv: [0, -1, 2], dk: 21 }, Tf { s: -27, mv: [3, -1, 2], dk: -60 }, Tf { s: 101, mv: [3, -1, 2], dk: -60 }, Tf { s: -14, mv: [16384, 8192, -16384], dk: -14 }, Tf { s: -14, mv: [8192, -16384, 16384], dk: 1 }, Tf { s: -14, mv: [-16384, 16384, -8192], dk: -1 }];
    if ctx.deep() {
        v.extend([Tf { s: -1, mv: [0, -1, 2], dk: 1 }, Tf { s: 16, mv: [1, 1, 1], dk: -3 }]);
    }
    alph(v)
}
fn vname(v: V) -> &'static str {
    match v {
        V::Hit => "meet",
        V::Thin => "thin contact",
        V::Touch => "boundary contact",
        V::Miss => "apart",
        V::Near(_) => "apart, by tolerance",
        V::Open => "left to rounding",
    }
}
/// One scene: both operand orders against the reference.
fn scene(l: &mut Local, a: &G, b: &G, t: &Tf) {
    if !a.valid() || !b.valid() {
        l.skip();
        return;
    }
    let Some(v) = verdict(a, b, t) else {
        l.skip();
        return;
    };
    l.describe(|| format!("{:?} with {:?}{}: {:?}", a, b, t.show(), v));
    l.outcome(vname(v));
    let (sa, sb) = (a.build(t), b.build(t));
    let r = api!(l, ask(&*sa, &*sb));
    let j = judge(a, b, t, &r, v);
    if let Some(m) = j.wrong {
        l.fail(format!("{:?} with {:?}{}: {}", a, b, t.show(), m));
        return;
    }
    if j.open {
        l.soft();
    }
    let r = api!(l, ask(&*sb, &*sa));
    let j = judge(b, a, t, &r, v);
    if let Some(m) = j.wrong {
        l.fail(format!("{:?} with {:?}{} (operands in this order): {}", b, a, t.show(), m));
    }
}
const OPEN: &str = "exact contacts that floating point cannot represent (a tangent ray of oblique direction, a point on a tilted facet) are run, but either verdict is accepted";

// ------------------------------------------------------------------------------------- C16

fn bound_of(s: &dyn IShape) -> ([f64; 6], [f64; 32]) {
    let d = s.get_bound().get_bound_data();
    ([d[0], d[1], d[2], d[3], d[4], d[5]], d)
}
fn want_bound(g: &G, t: &Tf) -> ([f64; 6], f64) {
    let k = t.k();
    let mk = |lo: F3, hi: F3| [lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]];
    let span = |ps: &[F3]| {
        let mut r = [INF, INF, INF, -INF, -INF, -INF];
        for p in ps {
            for i in 0..3 {
                r[i] = f64::min(r[i], p[i]);
                r[i + 3] = f64::max(r[i + 3], p[i]);
            }
        }
        r
    };
    match *g {
        Point(p) => (mk(t.p(p), t.p(p)), 0.0),
        Segment(a, b) => (span(&[t.p(a), t.p(b)]), 0.0),
        Plane(..) => ([-INF, -INF, -INF, INF, INF, INF], 0.0),
        Sphere(c, r) | Cube(c, r) => (mk(t.p(c.map(|x| x - r)), t.p(c.map(|x| x + r))), 0.0),
        Ray(o, d) => {
            let o = t.p(o);
            (mk([0, 1, 2].map(|i| if d[i] < 0 { -INF } else { o[i] }), [0, 1, 2].map(|i| if d[i] > 0 { INF } else { o[i] })), 0.0)
        }
        Prism(b, h) => {
            let n = fl(normal(&b));
            let u = n.map(|x| x / flen(n) * h as f64 * k);
            let lo: Vec<F3> = b.iter().map(|p| t.p(*p)).collect();
            let mut all = lo.clone();
            all.extend(lo.iter().map(|p| [0, 1, 2].map(|i| p[i] + u[i])));
            let m = all.iter().flatten().fold(0.0f64, |a, x| a.max(x.abs()));
            (span(&all), 8.0 * f64::EPSILON * m)
        }
    }
}
fn same(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol
}
fn bound_case(l: &mut Local, g: &G, t: &Tf) {
    if !g.valid() {
        l.skip();
        return;
    }
    l.describe(|| format!("{:?}{}", g, t.show()));
    let s = g.build(t);
    let (b, _) = api!(l, bound_of(&*s));
    let (w, tol) = want_bound(g, t);
    l.check((0..6).all(|i| same(b[i], w[i], tol)), || format!("bound of {:?}{} is {:?} instead of {:?}", g, t.show(), b, w));
    l.check(matches!(s.get_bound().get_type(), BoundType::AxisAlignBox), || "the bound is no axis aligned box".into());
}
fn bases(al: &[I3]) -> Vec<[I3; 3]> {
    let mut v = vec![];
    for a in al {
        for b in al {
            let t = [[0, 0, 0], *a, *b];
            if !zero(normal(&t)) {
                v.push(t)
            }
        }
    }
    v
}
fn c16(ctx: &mut Ctx) {
    ctx.assume("a prism's upper triangle is rounded; its bound is compared within 8 rounding errors, all others exactly");
    let tf = places(ctx);
    let g = grid(-3, ctx.by(5, 7));
    let n = g.len();
    ctx.space("points", &format!("{} positions x {} placements", n, tf.len()), (n * tf.len()) as u64, |i, l| {
        let mut d = Dec(i);
        bound_case(l, &Point(g[d.take(n)]), &tf[d.take(tf.len())])
    });
    ctx.space("spheres-cubes", &format!("{} centres x sizes 1..=5 x 2 kinds x {} placements", n, tf.len()), (n * 10 * tf.len()) as u64, |i, l| {
        let mut d = Dec(i);
        let (c, r) = (g[d.take(n)], 1 + d.take(5) as i64);
        let s = if d.take(2) == 0 { Sphere(c, r) } else { Cube(c, r) };
        bound_case(l, &s, &tf[d.take(tf.len())])
    });
    ctx.space("wide", &format!("sizes {:?} x 27 centres x spheres, cubes and prisms of such a height, x {} placements", WIDE, tf.len()), (WIDE.len() * 27 * 3 * tf.len()) as u64, |i, l| {
        let mut d = Dec(i);
        let (r, c) = (d.pick(&WIDE), grid(-1, 1)[d.take(27)]);
        let s = [Sphere(c, r), Cube(c, r), Prism([c, add(c, [1, 0, 0]), add(c, [0, 1, 2])], r)][d.take(3)];
        bound_case(l, &s, &tf[d.take(tf.len())])
    });
    let mut ds = nonzero(grid(-2, 2));
    ds.extend([[1, 1000000, 0], [-1, 0, 1000000], [1000000, -1, 1]]);
    let m = ds.len();
    ctx.space("rays-planes", &format!("{} positions x {} directions x 2 kinds x {} placements", n, m, tf.len()), (n * m * 2 * tf.len()) as u64, |i, l| {
        let mut d = Dec(i);
        let (p, v) = (g[d.take(n)], ds[d.take(m)]);
        let s = if d.take(2) == 0 { Ray(p, v) } else { Plane(p, v) };
        bound_case(l, &s, &tf[d.take(tf.len())])
    });
    ctx.space("segments", &format!("{} x {} ends x {} placements", n, n, tf.len()), (n * n * tf.len()) as u64, |i, l| {
        let mut d = Dec(i);
        bound_case(l, &Segment(g[d.take(n)], g[d.take(n)]), &tf[d.take(tf.len())])
    });
    let bs = bases(&ctx.by(grid(-2, 3), grid(-3, 4)));
    let q = bs.len();
    ctx.space("prisms", &format!("{} bases x heights 1..=4 x {} placements", q, tf.len()), (q * 4 * tf.len()) as u64, |i, l| {
        let mut d = Dec(i);
        bound_case(l, &Prism(bs[d.take(q)], 1 + d.take(4) as i64), &tf[d.take(tf.len())])
    });
    // the direct constructor
    let vals = alph(vec![-7.5, -1.0, 0.0, 2.0, 1e6]);
    ctx.space("constructor", "6 shape kinds over 5 values per number", 6 * 5u64.pow(6), |i, l| {
        let mut d = Dec(i);
        let k = d.take(6);
        let x: Vec<f64> = (0..6).map(|_| d.pick(&vals)).collect();
        let used = [6, 3, 4, 6, 4, 6][k];
        if (used..6).any(|j| x[j] != vals[0]) {
            l.skip(); // the same case again
            return;
        }
        l.describe(|| format!("kind {} {:?}", k, &x[..used]));
        if (k == 2 || k == 4) && x[3] < 0.0 {
            l.skip();
            return;
        }
        let (ty, w) = match k {
            0 => (
                ShapeType::Ray,
                [0, 1, 2, 3, 4, 5].map(|j| if j < 3 { if x[3 + j] < 0.0 { -INF } else { x[j] } } else if x[j] > 0.0 { INF } else { x[j - 3] }),
            ),
            1 => (ShapeType::Point, [x[0], x[1], x[2], x[0], x[1], x[2]]),
            2 => (ShapeType::Sphere, [x[0] - x[3], x[1] - x[3], x[2] - x[3], x[0] + x[3], x[1] + x[3], x[2] + x[3]]),
            3 => (ShapeType::Plane, [-INF, -INF, -INF, INF, INF, INF]),
            4 => (ShapeType::Box, [x[0] - x[3], x[1] - x[3], x[2] - x[3], x[0] + x[3], x[1] + x[3], x[2] + x[3]]),
            _ => (ShapeType::Rect, [x[0], x[1], x[2], x[3], x[4], x[5]]),
        };
        let b = api!(l, AxisAlignedBBox::init(ty, &x[..used]));
        let g = b.get_bound_data();
        l.check((0..6).all(|j| g[j] == w[j]), || format!("kind {} {:?}: bound {:?} instead of {:?}", k, &x[..used], &g[..6], w));
    });
}

// ------------------------------------------------------------------------------------- C17

fn aabb(lo: F3, hi: F3) -> AxisAlignedBBox {
    AxisAlignedBBox::init(ShapeType::Rect, &[lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]])
}
fn c17(ctx: &mut Ctx) {
    // every relation of two intervals, also degenerate and unbounded ones
    let ends = ctx.by(vec![-INF, -3.0, -1.0, 0.0, 2.0, INF], vec![-INF, -3.0, -1.0, 0.0, 2.0, 1e30, INF]);
    let mut iv = vec![];
    for &a in &ends {
        for &b in &ends {
            if a <= b && a < INF && b > -INF {
                iv.push((a, b))
            }
        }
    }
    let iv = alph(iv);
    let n = iv.len();
    ctx.space("pairs", &format!("every pair of boxes over the intervals with ends in {:?}", ends), (n as u64).pow(6), |i, l| {
        let mut d = Dec(i);
        let x: Vec<(f64, f64)> = (0..6).map(|_| iv[d.take(n)]).collect();
        l.describe(|| format!("{:?} with {:?}", &x[..3], &x[3..]));
        let a = aabb([x[0].0, x[1].0, x[2].0], [x[0].1, x[1].1, x[2].1]);
        let b = aabb([x[3].0, x[4].0, x[5].0], [x[3].1, x[4].1, x[5].1]);
        let w = (0..3).all(|k| x[k].0.max(x[k + 3].0) <= x[k].1.min(x[k + 3].1));
        l.outcome(if w { "overlap" } else { "apart" });
        let g = api!(l, a.intersect(&b));
        let h = api!(l, b.intersect(&a));
        l.check(g == w && h == w, || format!("boxes {:?} and {:?}: overlap {} (other order {}) instead of {}", &x[..3], &x[3..], g, h, w));
        if i % 7 == 0 {
            let g = api!(l, AxisAlignedBBox::default().intersect(&a));
            l.check(g, || format!("the unbounded box does not overlap {:?}", &x[..3]));
        }
    });
    // zeros of either sign are one and the same end
    let ze = alph(vec![("-1", -1.0f64), ("-0", -0.0), ("0", 0.0), ("1", 1.0)]);
    let zi: Vec<(f64, f64)> = ze.iter().flat_map(|a| ze.iter().map(move |b| (a.1, b.1))).filter(|(a, b)| a <= b).collect();
    let zn = zi.len();
    ctx.space("zeros", &format!("every pair of boxes over the {} intervals with ends -1, -0, 0, 1 on two axes", zn), (zn as u64).pow(4) * 3, |i, l| {
        let mut d = Dec(i);
        let ax = d.take(3);
        let x: Vec<(f64, f64)> = (0..4).map(|_| zi[d.take(zn)]).collect();
        l.describe(|| format!("{:?} with {:?}, from axis {}", &x[..2], &x[2..], ax));
        let mk = |x: &[(f64, f64)]| {
            let (mut lo, mut hi) = ([-0.0; 3], [0.0; 3]);
            for k in 0..2 {
                lo[(ax + k) % 3] = x[k].0;
                hi[(ax + k) % 3] = x[k].1;
            }
            aabb(lo, hi)
        };
        let (a, b) = (mk(&x[..2]), mk(&x[2..]));
        let w = (0..2).all(|k| x[k].0 <= x[k + 2].1 && x[k + 2].0 <= x[k].1);
        l.outcome(if w { "overlap" } else { "apart" });
        let (g, h) = (api!(l, a.intersect(&b)), api!(l, b.intersect(&a)));
        l.check(g == w && h == w, || format!("boxes {:?} and {:?} (from axis {}): overlap {} (other order {}) instead of {}", &x[..2], &x[2..], ax, g, h, w));
    });
    // boxes of every magnitude, other ones on the other axes
    let ks = alph(vec![-60i32, -24, -9, 0, 11, 25, 70]);
    let li: Vec<(f64, f64)> = [-3.0, -1.0, 0.0, 2.0].iter().flat_map(|a| [-3.0, -1.0, 0.0, 2.0].iter().map(move |b| (*a, *b))).filter(|(a, b)| a <= b).collect();
    let side = alph(vec![((-1.0, 2.0), (0.0, 1.0)), ((-1.0, 2.0), (2.0, 3.0)), ((1.0, 2.0), (-3.0, 1.0)), ((1.0, 2.0), (2.001953125, 3.0)), ((1.0, 2.0), (0.0, 0.998046875)), ((-5.0, -4.0), (-5.0, -4.0))]);
    let (nk, nl, ns) = (ks.len(), li.len(), side.len());
    ctx.space("magnitudes", &format!("every pair of {} intervals on one axis, {} pairs on each other axis, each axis scaled by 2^k, k in {:?}", nl, ns, ks), (3 * nk * nk * nk * nl * nl * ns * ns) as u64, |i, l| {
        let mut d = Dec(i);
        let ax = d.take(3);
        let f = [0, 1, 2].map(|_| 2f64.powi(d.pick(&ks)));
        let p = [(d.pick(&li), d.pick(&li)), d.pick(&side), d.pick(&side)];
        let (mut a, mut b) = (([0.0; 3], [0.0; 3]), ([0.0; 3], [0.0; 3]));
        for k in 0..3 {
            let j = (ax + k) % 3;
            let ((x0, x1), (y0, y1)) = p[k];
            a.0[j] = x0 * f[k];
            a.1[j] = x1 * f[k];
            b.0[j] = y0 * f[k];
            b.1[j] = y1 * f[k];
        }
        let w = (0..3).all(|k| a.0[k] <= b.1[k] && b.0[k] <= a.1[k]);
        l.describe(|| format!("{:?} with {:?}", a, b));
        l.outcome(if w { "overlap" } else { "apart" });
        let (x, y) = (aabb(a.0, a.1), aabb(b.0, b.1));
        let (g, h) = (api!(l, x.intersect(&y)), api!(l, y.intersect(&x)));
        l.check(g == w && h == w, || format!("boxes {:?} and {:?}: overlap {} (other order {}) instead of {}", a, b, g, h, w));
    });
    // gaps and overlaps of one unit in the last place
    let vs = alph(vec![0.1, 1.0, -1.0, 1e10, -3e-5, 1e300, -1e-300]);
    ctx.space("last-place", "boxes whose faces differ by one unit in the last place, on each axis", (vs.len() * 3 * 3) as u64, |i, l| {
        let mut d = Dec(i);
        let (v, ax, rel): (f64, usize, usize) = (d.pick(&vs), d.take(3), d.take(3));
        let up = f64::from_bits((v.to_bits() as i64 + if v > 0.0 { 1 } else { -1 }) as u64);
        let (hi, lo) = [(v, up), (v, v), (up, v)][rel];
        let mut a = ([-1.0; 3], [1.0; 3]);
        let mut b = ([-1.0; 3], [1.0; 3]);
        a.0[ax] = -INF;
        a.1[ax] = hi;
        b.0[ax] = lo;
        b.1[ax] = INF;
        l.describe(|| format!("up to {} and from {} on axis {}", hi, lo, ax));
        let (p, q) = (aabb(a.0, a.1), aabb(b.0, b.1));
        let w = hi >= lo;
        let (g, h) = (api!(l, p.intersect(&q)), api!(l, q.intersect(&p)));
        l.check(g == w && h == w, || format!("boxes up to {} and from {} on axis {}: overlap {}/{} instead of {}", hi, lo, ax, g, h, w));
    });
}

// ------------------------------------------------------------------------------------- C18

type B6 = [i64; 6];
const BIG: i64 = 1 << 40; // stands for infinity
fn of6(b: B6) -> AxisAlignedBBox {
    let f = |x: i64| {
        if x >= BIG {
            INF
        } else if x <= -BIG {
            -INF
        } else {
            x as f64 / 2.0
        }
    };
    aabb([f(b[0]), f(b[1]), f(b[2])], [f(b[3]), f(b[4]), f(b[5])])
}
fn join(a: B6, b: B6) -> B6 {
    [a[0].min(b[0]), a[1].min(b[1]), a[2].min(b[2]), a[3].max(b[3]), a[4].max(b[4]), a[5].max(b[5])]
}
fn eq6(b: &AxisAlignedBBox, w: B6) -> bool {
    let d = b.get_bound_data();
    let e = of6(w);
    (0..3).all(|i| d[i] == e._bound_lower[i] && d[i + 3] == e._bound_upper[i])
}
fn c18(ctx: &mut Ctx) {
    ctx.assume("the union of no boxes is outside the property; where several edges are equally long any of them may be named");
    let ends = ctx.by(vec![(-4, -4), (-4, 3), (0, 1), (1, 7), (3, 3), (-9, -2), (-BIG, 0), (2, BIG)], vec![(-4, -4), (-4, 3), (0, 1), (1, 7), (3, 3), (-9, -2), (-2, 9), (-4, 0), (-BIG, 0), (2, BIG), (-BIG, BIG)]);
    let n = ends.len();
    let mut boxes: Vec<B6> = vec![];
    for a in &ends {
        for b in &ends {
            for c in &ends {
                boxes.push([a.0, b.0, c.0, a.1, b.1, c.1])
            }
        }
    }
    let boxes = alph(boxes);
    let m = boxes.len();
    ctx.space("union-pairs", &format!("the union of every pair of {} boxes, over the intervals {:?}, into a box that was anything before", m, ends), (m * m) as u64, |i, l| {
        let mut d = Dec(i);
        let (x, y) = (boxes[d.take(m)], boxes[d.take(m)]);
        l.describe(|| format!("{:?} and {:?}", x, y));
        let (a, b) = (of6(x), of6(y));
        let w = join(x, y);
        for init in [AxisAlignedBBox::default(), of6([-90, -90, -90, 90, 90, 90]), of6([5, 5, 5, 5, 5, 5])] {
            let mut u = init.clone();
            api!(l, u.get_union(&[&a, &b]));
            l.check(eq6(&u, w), || format!("union of {:?} and {:?} into {:?} is {:?}", x, y, init, u));
        }
        let mut u = a.clone();
        api!(l, u.get_union(&[&b]));
        l.check(eq6(&u, y), || format!("union of {:?} alone into {:?} is {:?}", y, x, u));
        l.check(eq6(&a, x) && eq6(&b, y), || "the operands changed".into());
    });
    let small: Vec<B6> = boxes.iter().cloned().step_by(n - 1).collect();
    let k = small.len();
    ctx.space("union-triples", &format!("the union of every list of 3 of {} boxes", k), (k * k * k) as u64, |i, l| {
        let mut d = Dec(i);
        let (x, y, z) = (small[d.take(k)], small[d.take(k)], small[d.take(k)]);
        l.describe(|| format!("{:?}, {:?} and {:?}", x, y, z));
        let (a, b, c) = (of6(x), of6(y), of6(z));
        let mut u = AxisAlignedBBox::default();
        api!(l, u.get_union(&[&a, &b, &c]));
        l.check(eq6(&u, join(join(x, y), z)), || format!("union of {:?}, {:?} and {:?} is {:?}", x, y, z, u));
    });
    // longer lists, boxes that are far apart, and a single box that sticks out on one side
    let far: Vec<B6> = alph(vec![[0, 0, 0, 2, 2, 2], [1, -3, 1, 2, 9, 1], [10_000, 10_004, 10_006, 10_002, 10_010, 10_012], [-8_000_000, -8_000_006, -8_000_004, -7_999_990, -7_999_992, -7_999_998], [-1, 40_000, -3, 0, 40_002, 3_000_000], [5, 5, -BIG, 6, 6, -20_000], [-7, -40_000, 9, -7, -39_000, 9], [1, 1, 1, BIG, 2, 2]]);
    let nf = far.len();
    for len in 1..=ctx.by(6u32, 7) {
        ctx.space(&format!("union-lists-of-{}", len), &format!("the union of every list of {} of {} boxes, some far apart or unbounded on one side", len, nf), (nf as u64).pow(len), |i, l| {
            let mut d = Dec(i);
            let x: Vec<B6> = (0..len).map(|_| far[d.take(nf)]).collect();
            l.describe(|| format!("{:?}", x));
            let bs: Vec<AxisAlignedBBox> = x.iter().map(|b| of6(*b)).collect();
            let list: Vec<&dyn IBound> = bs.iter().map(|b| b as &dyn IBound).collect();
            let w = x[1..].iter().fold(x[0], |a, b| join(a, *b));
            let mut u = of6([-1, 0, 3, 7, 7, 7]);
            api!(l, u.get_union(&list));
            l.check(eq6(&u, w), || format!("union of {:?} is {:?}", x, u));
        });
    }
    // long lists, of which one box alone sticks out, at any place in the list and on any side
    let longest = ctx.by(80usize, 400);
    ctx.space("union-long", &format!("the union of lists of every length to {}, one box of them sticking out, at every place in the list and on every side", longest), (longest * longest * 6) as u64, |i, l| {
        let mut d = Dec(i);
        let side = d.take(6);
        let (len, at) = (1 + d.take(longest), d.take(longest));
        if at >= len {
            l.skip();
            return;
        }
        l.describe(|| format!("{} boxes, number {} sticking out on side {}", len, at, side));
        let mut bs: Vec<B6> = (0..len as i64).map(|k| [-3 - k % 5, -k % 3, -1, 4 + k % 7, 5, k % 2]).collect();
        bs[at][side] += if side < 3 { -20 } else { 20 };
        let own: Vec<AxisAlignedBBox> = bs.iter().map(|b| of6(*b)).collect();
        let list: Vec<&dyn IBound> = own.iter().map(|b| b as &dyn IBound).collect();
        let w = bs[1..].iter().fold(bs[0], |a, b| join(a, *b));
        let mut u = AxisAlignedBBox::default();
        api!(l, u.get_union(&list));
        l.check(eq6(&u, w), || format!("union of {} boxes, of which number {} sticks out, is {:?} instead of {:?}", len, at, u, w));
    });
    // growing a box by unions, as a hierarchy builder does
    let gens: Vec<B6> = vec![[0, 0, 0, 2, 2, 2], [-6, 1, 1, -5, 1, 1], [0, 8, 0, 1, 9, 1], [1, 1, -12, 2, 2, -11], [3, -3, 14, 4, 4, 15], [9, -20, 0, 10, -19, BIG], [0, 0, 0, 0, 0, 0], [-1, -1, -1, 3, 3, 3]];
    let gn = gens.len() as u32;
    ctx.bfs(
        "accumulate",
        "a box grown by 8 boxes in any order: by union with itself before or after, or with itself twice",
        gens.iter().map(|g| (*g, of6(*g))).collect(),
        gn * 3,
        40,
        1_000_000,
        |s: &(B6, AxisAlignedBBox), op, l: &mut Local| {
            let (g, how) = ((op % gn) as usize, op / gn);
            let other = of6(gens[g]);
            let me = s.1.clone();
            let mut u = s.1.clone();
            match how {
                0 => api!(l, u.get_union(&[&me, &other])),
                1 => api!(l, u.get_union(&[&other, &me])),
                _ => api!(l, u.get_union(&[&me, &other, &me])),
            }
            let w = join(s.0, gens[g]);
            l.check(eq6(&u, w), || format!("grown to {:?} instead of {:?}", u, w));
            Some((w, u))
        },
        |s| (s.0, s.1.get_bound_data()[..6].iter().map(|x| x.to_bits()).collect::<Vec<_>>()),
        |op| format!("{} {:?}", ["self+box", "box+self", "self+box+self"][(op / gn) as usize], gens[(op % gn) as usize]),
    );
    // boxes of every magnitude
    let ks = alph(vec![-50i32, -20, -7, 12, 26, 60]);
    let (nk, nb) = (ks.len(), small.len());
    ctx.space("union-scaled", &format!("the union of every pair of {} boxes, each scaled by 2^k, k in {:?}, and their centroids", nb, ks), (nb * nb * nk * nk) as u64, |i, l| {
        let mut d = Dec(i);
        let (f, h) = (2f64.powi(d.pick(&ks)), 2f64.powi(d.pick(&ks)));
        let f6 = |b: B6, f: f64| b.map(|x| if x.abs() >= BIG { x.signum() as f64 * INF } else { x as f64 / 2.0 * f });
        let (x, y) = (f6(small[d.take(nb)], f), f6(small[d.take(nb)], h));
        l.describe(|| format!("{:?} and {:?}", x, y));
        let mk = |x: [f64; 6]| aabb([x[0], x[1], x[2]], [x[3], x[4], x[5]]);
        let w = [0, 1, 2, 3, 4, 5].map(|k| if k < 3 { x[k].min(y[k]) } else { x[k].max(y[k]) });
        let mut u = mk([1.0, 2.0, 3.0, 4.0, 5.0, 6.0]);
        api!(l, u.get_union(&[&mk(x), &mk(y)]));
        l.check(u.get_bound_data()[..6] == w, || format!("union of {:?} and {:?} is {:?}", x, y, u));
        for x in [x, w] {
            if x.iter().all(|v| v.is_finite()) {
                let c = api!(l, mk(x).get_centroid());
                let ok = (0..3).all(|j| (c[j] - (x[j] / 2.0 + x[j + 3] / 2.0)).abs() <= 4.0 * f64::EPSILON * x[j].abs().max(x[j + 3].abs()));
                l.check(ok, || format!("box {:?}: centroid {:?}", x, c));
            }
        }
    });
    let es = alph(vec![1.0, 1.0 + 2f64.powi(-10), 1.0 + 2f64.powi(-28), 1.0 - 2f64.powi(-28), 1.0 - 2f64.powi(-44), 0.5, 0.0]);
    let ls = alph(vec![0.0, -0.0, 1.0, -1.0, -3.0, -0.5, 64.0]);
    let (ne, nl) = (es.len(), ls.len());
    ctx.space("longest-close", &format!("boxes with edges {:?} from corners over {:?}, scaled by 2^k, k in {:?}", es, ls, ks), (ne * ne * ne * nl * nl * nl * nk) as u64, |i, l| {
        let mut d = Dec(i);
        let f = 2f64.powi(d.pick(&ks));
        let e = [0, 1, 2].map(|_| d.pick(&es));
        let lo = [0, 1, 2].map(|_| d.pick(&ls));
        let hi = [0, 1, 2].map(|j| lo[j] + e[j]);
        l.describe(|| format!("{:?} to {:?}, scaled by {}", lo, hi, f));
        let b = aabb(lo.map(|x| x * f), hi.map(|x| x * f));
        let (ax, len) = api!(l, b.get_longest_axis());
        let k = match ax {
            Axis::X => 0,
            Axis::Y => 1,
            Axis::Z => 2,
        };
        let got = [0, 1, 2].map(|j| hi[j] - lo[j]);
        let best = got.iter().cloned().fold(0.0, f64::max);
        l.check(got[k] == best && len == best * f, || format!("box from {:?} to {:?} scaled by {}: the longest edge is number {} of {}, of lengths {:?}", lo, hi, f, k, len, got));
        let c = api!(l, b.get_centroid());
        let ok = (0..3).all(|j| (c[j] - (lo[j] + hi[j]) / 2.0 * f).abs() <= 4.0 * f64::EPSILON * f * (lo[j].abs() + 1.0));
        l.check(ok, || format!("box from {:?} to {:?} scaled by {}: centroid {:?}", lo, hi, f, c));
    });
    let ex = alph(vec![0i64, 1, 2, 3, 10, 1000, BIG]);
    let lo = alph(vec![-7i64, 0, 12]);
    ctx.space("axis-centroid", &format!("every box with edges in {:?} from corners over {:?} (half units)", ex, lo), (ex.len() as u64).pow(3) * (lo.len() as u64).pow(3), |i, l| {
        let mut d = Dec(i);
        let e = [d.pick(&ex), d.pick(&ex), d.pick(&ex)];
        let o = [d.pick(&lo), d.pick(&lo), d.pick(&lo)];
        let x: B6 = [o[0], o[1], o[2], o[0] + e[0], o[1] + e[1], o[2] + e[2]];
        let x = x.map(|v| if v > BIG / 2 { BIG } else { v });
        l.describe(|| format!("{:?}", x));
        let b = of6(x);
        let (ax, len) = api!(l, b.get_longest_axis());
        let k = match ax {
            Axis::X => 0,
            Axis::Y => 1,
            Axis::Z => 2,
        };
        let best = e.iter().max().unwrap();
        let want = if *best >= BIG { INF } else { *best as f64 / 2.0 };
        l.check(e[k] == *best, || format!("box {:?}: the longest axis is not number {}", x, k));
        l.check(len == want, || format!("box {:?}: longest edge {} instead of {}", x, len, want));
        if *best < BIG {
            let c = api!(l, b.get_centroid());
            let w = [0, 1, 2].map(|j| (x[j] + x[j + 3]) as f64 / 4.0);
            l.check(c == w, || format!("box {:?}: centroid {:?} instead of {:?}", x, c, w));
        }
    });
}

// ------------------------------------------------------------------------------------- C19

fn c19(ctx: &mut Ctx) {
    ctx.assume(OPEN);
    let tf = places(ctx);
    let nt = tf.len();
    let r = ctx.by(8, 12);
    let g = grid(-r, r);
    let n = g.len();
    ctx.space("sphere-cube", &format!("every point of the grid -{}..={} with spheres and cubes of size 1..=6 x {} placements", r, r, nt), (n * 12 * nt) as u64, |i, l| {
        let mut d = Dec(i);
        let p = Point(g[d.take(n)]);
        let s = 1 + d.take(6) as i64;
        let o = if d.take(2) == 0 { Sphere([0, 0, 0], s) } else { Cube([0, 0, 0], s) };
        scene(l, &p, &o, &tf[d.take(nt)])
    });
    // points near the surface of large spheres
    let far: Vec<I3> = {
        let mut v = vec![];
        for x in 0..=ctx.by(60i64, 90) {
            for y in 0..=ctx.by(60i64, 90) {
                for z in 0..=ctx.by(60i64, 90) {
                    let d2 = x * x + y * y + z * z;
                    let q = (d2 as f64).sqrt().round() as i64;
                    if (d2 - q * q).abs() <= 2 && q > 6 {
                        v.push([x, -y, z])
                    }
                }
            }
        }
        v
    };
    let nf = far.len();
    ctx.space("sphere-surface", &format!("{} points within 2 units of squared distance of the surface of a sphere x {} placements", nf, nt), (nf * nt) as u64, |i, l| {
        let mut d = Dec(i);
        let p = far[d.take(nf)];
        let q = len(p).round() as i64;
        scene(l, &Point(p), &Sphere([0, 0, 0], q), &tf[d.take(nt)])
    });
    ctx.space("wide", &format!("points within a unit of the surface of spheres, cubes and high prisms of sizes {:?} x {} placements", WIDE, nt), NW * 4 * BESIDE * nt as u64, |i, l| {
        let mut d = Dec(i);
        let r = d.pick(&WIDE);
        let c = [1, 0, -2];
        let k = d.take(4);
        let p = beside(&mut d, c, r);
        let o = match k {
            0 => Sphere(c, r),
            1 => Cube(c, r),
            2 => Prism([add(c, [-9000, -9000, 0]), add(c, [16384, 0, 0]), add(c, [0, 16384, 0])], r),
            _ => Prism([add(c, [0, -9000, -9000]), add(c, [0, 0, 16384]), add(c, [0, 16384, 0])], r),
        };
        scene(l, &Point(p), &o, &tf[d.take(nt)])
    });
    let bs = bases(&ctx.by(grid(-1, 2), grid(-2, 2)));
    let pg = grid(-2, 3);
    let (nb, np) = (bs.len(), pg.len());
    let hs = 3;
    ctx.space("prism", &format!("{} bases x heights 1..=3 x {} points x {} placements", nb, np, nt), (nb * np * hs * nt) as u64, |i, l| {
        let mut d = Dec(i);
        let p = Point(pg[d.take(np)]);
        let t = tf[d.take(nt)];
        let h = 1 + d.take(hs) as i64;
        scene(l, &p, &Prism(bs[d.take(nb)], h), &t)
    });
    // long and thin prisms
    let tb: Vec<[I3; 3]> = vec![[[0, 0, 0], [8, 0, 0], [0, 1, 0]], [[0, 0, 0], [0, 0, 9], [0, 2, 4]], [[0, 0, 0], [3, 0, -4], [0, 6, 0]], [[0, 0, 0], [7, 7, 1], [7, -7, 1]], [[4, 4, 4], [-4, 4, 4], [4, -4, -4]]];
    let wg = grid(-ctx.by(11, 14), ctx.by(11, 14));
    let (nb, np) = (tb.len(), wg.len());
    ctx.space("prism-long", &format!("{} bases x heights 1, 5, 20 x {} points x {} placements", nb, np, nt), (nb * np * 3 * nt) as u64, |i, l| {
        let mut d = Dec(i);
        let h = d.pick(&[1, 5, 20]);
        let t = tf[d.take(nt)];
        scene(l, &Point(wg[d.take(np)]), &Prism(tb[d.take(nb)], h), &t)
    });
    let mut ds = nonzero(grid(-2, 2));
    ds.extend([[1000, 1, 0], [-1, 300, 300], [0, 0, -7], [9, 0, 40]]);
    let qg = grid(-ctx.by(5, 7), ctx.by(6, 8));
    let (nd, nq) = (ds.len(), qg.len());
    ctx.space("ray-plane", &format!("{} directions x {} points with the ray and the plane x {} placements", nd, nq, nt), (nd * nq * 2 * nt) as u64, |i, l| {
        let mut d = Dec(i);
        let p = Point(qg[d.take(nq)]);
        let v = ds[d.take(nd)];
        let o = if d.take(2) == 0 { Ray([1, 0, -1], v) } else { Plane([1, 0, -1], v) };
        scene(l, &p, &o, &tf[d.take(nt)])
    });
    ctx.space("tilted", &format!("planes whose normal, and rays whose direction, is {:?} times steeper along one axis, points up to 3 such lengths along them, up to 4 units off, x {} placements", STEEP, nt), 4 * ALMOST * 7 * 9 * 3 * 2 * nt as u64, |i, l| {
        let mut d = Dec(i);
        let m = d.pick(&STEEP);
        let (ax, across, n) = almost_axis(&mut d, m);
        let (k, h) = (d.take(7) as i64 - 3, d.take(9) as i64 - 4);
        let mut p = [2, 0, -1];
        p[3 - ax - across] += d.take(3) as i64 - 1;
        let o = if d.take(2) == 0 {
            p[across] += k * m;
            p[ax] += h;
            Plane([2, 0, -1], n)
        } else {
            p = add(p, n.map(|x| x * k));
            p[across] += h;
            Ray([2, 0, -1], n)
        };
        scene(l, &Point(p), &o, &tf[d.take(nt)])
    });
    let sg = grid(-1, 1);
    ctx.space("point", &format!("every pair of 27 points x {} placements", nt), (27 * 27 * nt) as u64, |i, l| {
        let mut d = Dec(i);
        scene(l, &Point(sg[d.take(27)]), &Point(sg[d.take(27)]), &tf[d.take(nt)])
    });
}

// ------------------------------------------------------------------------------------- C20

fn c20(ctx: &mut Ctx) {
    ctx.assume(OPEN);
    ctx.assume("a sphere is solid for the verdict: a ray that starts inside meets it, at its exit");
    let tf = places(ctx);
    let nt = tf.len();
    let r = ctx.by(6, 8);
    let g = grid(-r, r);
    let ds = primitive(grid(-2, 2));
    let (n, nd) = (g.len(), ds.len());
    ctx.space("around", &format!("origins on the grid -{}..={} x {} directions x radii 1..=4 x {} placements", r, r, nd, nt), (n * nd * 4 * nt) as u64, |i, l| {
        let mut d = Dec(i);
        let o = g[d.take(n)];
        let v = ds[d.take(nd)];
        scene(l, &Ray(o, v), &Sphere([0, 0, 0], 1 + d.take(4) as i64), &tf[d.take(nt)])
    });
    ctx.space("wide", &format!("rays across the axes that pass spheres of radii {:?} within a unit of their surface, x {} placements", WIDE, nt), NW * 4 * BESIDE * nt as u64, |i, l| {
        let mut d = Dec(i);
        let r = d.pick(&WIDE);
        let c = [1, 0, -2];
        let k = d.take(4);
        let ax = (i as usize / (WIDE.len() * 4)) % 3;
        let mut p = beside(&mut d, c, r);
        let mut v = [0; 3];
        let other = (ax + 1 + k % 2) % 3;
        v[other] = if k < 2 { 1 } else { -1 };
        p[other] -= v[other] * (r - 7);
        scene(l, &Ray(p, v), &Sphere(c, r), &tf[d.take(nt)])
    });
    ctx.space("tilted", &format!("rays whose direction is {:?} times steeper along one axis, spheres of radii 1..=4 up to 4 such lengths ahead or behind, up to 5 units off, x {} placements", &STEEP[..3], nt), 3 * ALMOST * 6 * 11 * 3 * 4 * nt as u64, |i, l| {
        let mut d = Dec(i);
        let m = d.pick(&STEEP[..3]);
        let (ax, across, n) = almost_axis(&mut d, m);
        let (k, h) = (d.take(6) as i64 - 1, d.take(11) as i64 - 5);
        let mut p = add([2, 0, -1], n.map(|x| x * k));
        p[3 - ax - across] += d.take(3) as i64 - 1;
        p[across] += h;
        scene(l, &Ray([2, 0, -1], n), &Sphere(p, 1 + d.take(4) as i64), &tf[d.take(nt)])
    });
    let (hs, sg) = (SPECIAL, grid(-1, 1));
    ctx.space("special", &format!("rays along the axes and towards them, and away from its centre, starting within a unit of the place {:?} units before the sphere or inside it, radii 1, 5, 16385, x {} placements", hs, nt), 6 * 6 * 27 * 3 * 4 * 2 * nt as u64, |i, l| {
        let mut d = Dec(i);
        let n = d.pick(&[[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]]);
        let (h, r, c) = (d.pick(&hs), d.pick(&[1, 5, 16385]), [1, 0, -2]);
        let f = if d.take(2) == 0 { r + h } else { r - h };
        let p = add(c, add(n.map(|x| x * f), sg[d.take(27)]));
        let v = match d.take(4) {
            3 => n,
            0 => n.map(|x| -x),
            1 => sub(c, p),
            _ => add(n.map(|x| -100 * x), [1, -1, 2]),
        };
        scene(l, &Ray(p, v), &Sphere(c, r), &tf[d.take(nt)])
    });
    // aimed at points around the sphere from far away: hits and misses by little
    let eyes = alph(vec![[100, 0, 0], [-70, 50, 30], [0, -1, 200], [64, 64, -64], [9, -9, 1000]]);
    let q = ctx.by(11, 15);
    let tg = grid(-q, q);
    let (ne, ng) = (eyes.len(), tg.len());
    ctx.space("aimed", &format!("from {} far origins towards every point of the grid -{}..={}, and away, radii 1, 3, 6, 10 x {} placements", ne, q, q, nt), (ne * ng * 2 * 4 * nt) as u64, |i, l| {
        let mut d = Dec(i);
        let e = eyes[d.take(ne)];
        let p = tg[d.take(ng)];
        let v = if d.take(2) == 0 { sub(p, e) } else { sub(e, p) };
        scene(l, &Ray(e, v), &Sphere([1, 0, -1], d.pick(&[1, 3, 6, 10])), &tf[d.take(nt)])
    });
}

// ------------------------------------------------------------------------------------- C21

fn c21(ctx: &mut Ctx) {
    ctx.assume(OPEN);
    ctx.assume("planes are one-sided: only a ray running against the normal meets one, or one that lies in it");
    let tf = places(ctx);
    let nt = tf.len();
    let mut ns = primitive(grid(-1, 1));
    ns.extend([[2, -1, 0], [1, 2, -2], [-3, 4, 0], [0, 0, 5], [2, 3, -6], [100, 1, 0]]);
    ns.extend(HALVES);
    let mut ds = nonzero(ctx.by(grid(-2, 2), grid(-3, 3)));
    ds.extend([[10000, 0, 1], [10000, 0, -1], [0, -1, 10000], [1, 10000, 0], [3, -4, 7], [1, -100, 0], [-2000, -2000, 1], [-5, 4, 3], [0, 130000, -1], [-1, 200000, 0], [250000, 0, -1], [0, 1, 300000]]);
    let ns = alph(ns);
    let ds = alph(ds);
    let r = ctx.by(4, 6);
    let g = grid(-r, r);
    let (nn, nd, n) = (ns.len(), ds.len(), g.len());
    ctx.space("all", &format!("{} normals x {} directions x {} origins x {} placements", nn, nd, n, nt), (nn * nd * n * nt) as u64, |i, l| {
        let mut d = Dec(i);
        let o = g[d.take(n)];
        let t = tf[d.take(nt)];
        let v = ds[d.take(nd)];
        scene(l, &Ray(o, v), &Plane([1, -1, 0], ns[d.take(nn)]), &t)
    });
    let (hs, sg) = (SPECIAL, grid(-1, 1));
    ctx.space("special", &format!("planes across the axes and oblique ones, rays from {:?} units above within a unit of its foot, {} directions, x {} placements", hs, nd, nt), 8 * 6 * 27 * nd as u64 * nt as u64, |i, l| {
        let mut d = Dec(i);
        let n = d.pick(&[[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1], [1, -2, 2], [-2, -1, 2]]);
        let f = d.pick(&hs);
        let o = add([1, -1, 0], add(n.map(|x| x * f), sg[d.take(27)]));
        let t = tf[d.take(nt)];
        scene(l, &Ray(o, ds[d.take(nd)]), &Plane([1, -1, 0], n), &t)
    });
    ctx.space("tilted", &format!("planes whose normal is {:?} times steeper along one axis, rays from up to 3 such lengths along them and up to 2 units off, down, up, along and almost along the plane, x {} placements", STEEP, nt), 4 * ALMOST * 7 * 5 * 8 * nt as u64, |i, l| {
        let mut d = Dec(i);
        let m = d.pick(&STEEP);
        let (ax, across, n) = almost_axis(&mut d, m);
        let (k, h) = (d.take(7) as i64 - 3, d.take(5) as i64 - 2);
        let mut p = [2, 0, -1];
        p[across] += k * m;
        p[ax] += h;
        let (mut v, which) = ([0i64; 3], d.take(8));
        v[ax] = [1, -1, -n[across], n[across], 0, 0, -1, 1][which];
        v[across] = [0, 0, n[ax], n[ax], 1, -1, 700, 3][which];
        scene(l, &Ray(p, v), &Plane([2, 0, -1], n), &tf[d.take(nt)])
    });
}

// ------------------------------------------------------------------------------------- C22

fn c22(ctx: &mut Ctx) {
    ctx.assume(OPEN);
    ctx.assume("directions less than 3e-4 apart, and rays whose lines pass each other closer than about 4e-6, are left to the library's tolerance");
    let tf = places(ctx);
    let nt = tf.len().min(ctx.by(3, 6));
    let ds = primitive(ctx.by(grid(-2, 2), grid(-3, 3)));
    let r = ctx.by(3, 4);
    let g = grid(-r, r);
    let (nd, n) = (ds.len(), g.len());
    ctx.space("all", &format!("{} x {} directions x {} relative positions x {} placements", nd, nd, n, nt), (nd * nd * n * nt) as u64, |i, l| {
        let mut d = Dec(i);
        let o = g[d.take(n)];
        let t = tf[d.take(nt)];
        let u = ds[d.take(nd)];
        scene(l, &Ray([0, 0, 0], u), &Ray(o, ds[d.take(nd)]), &t)
    });
    // on parallel lines, a little beside each other or on one, far away
    let side: Vec<I3> = grid(-1, 1);
    let far = alph(ctx.by(vec![0i64, 3, 1 << 14, 1 << 22, 1 << 26], vec![0i64, 1, 3, 100, 1 << 14, 1 << 18, 1 << 22, 1 << 26]));
    let (no, nf) = (side.len(), far.len());
    let tl = alph(vec![ID, Tf { s: -6, mv: [5, 0, -1], dk: 40 }, Tf { s: -10, mv: [0, 0, 0], dk: 0 }]);
    ctx.space("alongside", &format!("{} directions, the same or opposite, origins {:?} direction lengths apart along them and {} beside, x {} placements", nd, far, no, tl.len()), (nd * 2 * nf * 2 * no * tl.len()) as u64, |i, l| {
        let mut d = Dec(i);
        let t = tl[d.take(tl.len())];
        let u = ds[d.take(nd)];
        let f = d.pick(&far) * d.pick(&[1, -1]);
        let o = add(u.map(|x| x * f), side[d.take(no)]);
        let w = if d.take(2) == 0 { u } else { u.map(|x| -x) };
        scene(l, &Ray([0, 0, 0], u), &Ray(o, w), &t)
    });
    // aimed at a common point, from in front of it, on it and beyond, or past it
    let us = alph({
        let mut v = primitive(grid(-1, 1));
        v.extend(HALVES);
        v.extend([[2, 1, 0], [1, -2, 3], [-3, 0, 5], [40, 1, 0], [40, 0, -1], [1000, 1, 0], [1000, -1, 0], [1000, 0, 3], [2900, 1, 0], [0, 2900, -1]]);
        v
    });
    let ks = alph(vec![-3i64, -1, 0, 1, 2, 5, 8193, 16383]);
    let (nu, nk) = (us.len(), ks.len());
    let nt = tf.len();
    ctx.space("crossing", &format!("{} x {} directions through one point, origins {:?} direction lengths before it, in plane or one unit beside it, x {} placements", nu, nu, ks, nt), (nu * nu * nk * nk * 3 * nt) as u64, |i, l| {
        let mut d = Dec(i);
        let t = tf[d.take(nt)];
        let (j, k) = (d.pick(&ks), d.pick(&ks));
        let off = d.pick(&[[0, 0, 0], [0, 0, 1], [1, -1, 0]]);
        let (u, w) = (us[d.take(nu)], us[d.take(nu)]);
        let a = u.map(|x| -x * j);
        let b = add(w.map(|x| -x * k), off);
        scene(l, &Ray(a, u), &Ray(b, w), &t)
    });
}

// ------------------------------------------------------------------------------------- C23

fn c23(ctx: &mut Ctx) {
    ctx.assume(OPEN);
    let tf = places(ctx);
    let nt = tf.len();
    let r = ctx.by(12, 16);
    let g = grid(-r, r);
    let n = g.len();
    let rs = alph(vec![1i64, 2, 3, 5, 6, 9]);
    let nr = rs.len();
    ctx.space("spheres", &format!("every relative centre of the grid -{}..={} x radii {:?} x {} placements", r, r, rs, nt), (n * nr * nr * nt) as u64, |i, l| {
        let mut d = Dec(i);
        let c = g[d.take(n)];
        let t = tf[d.take(nt)];
        scene(l, &Sphere([1, 0, 0], d.pick(&rs)), &Sphere(c, d.pick(&rs)), &t)
    });
    let ws = alph(vec![1i64, 33554433, 67108863, 25165829]);
    ctx.space("wide", &format!("spheres of radii {:?} with centres within a unit of the sum of the radii, and planes within a unit of the surface, x {} placements", ws, nt), 4 * 5 * BESIDE * nt as u64, |i, l| {
        let mut d = Dec(i);
        let r = d.pick(&ws);
        let c = [1, 0, -2];
        let k = d.take(5);
        let ax = (i as usize / 20) % 3;
        if k < 4 {
            let p = beside(&mut d, c, r + ws[k]);
            scene(l, &Sphere(c, r), &Sphere(p, ws[k]), &tf[d.take(nt)])
        } else {
            let p = beside(&mut d, c, r);
            let mut n = [0; 3];
            n[ax] = [1, -1, 2, -4][i as usize % 4];
            scene(l, &Sphere(c, r), &Plane(p, n), &tf[d.take(nt)])
        }
    });
    let dirs = alph(primitive(grid(-3, 3)));
    let rr = alph(ctx.by(vec![10i64, 1000, 30_000], vec![10i64, 100, 1000, 10_000, 30_000, 100_000]));
    let es = alph(vec![-16i64, -8, -4, -2, -1, 1, 2, 4, 8, 16]);
    let (nd, nx, ne) = (dirs.len(), rr.len(), es.len());
    ctx.space("ratio", &format!("radius 8 against 8 times {:?}, centres in {} directions nearly at the sum (by {:?}) or difference of the radii, or at half of it, both ways round", rr, nd, es), (nd * nx * ne * 6) as u64, |i, l| {
        let mut d = Dec(i);
        let u = dirs[d.take(nd)];
        let rb = 8 * d.pick(&rr);
        let e = d.pick(&es);
        let (swap, kind) = (d.take(2) == 1, d.take(3));
        let dist = ([rb - 8, rb + 8, rb / 2][kind] + e) as f64;
        let c = u.map(|x| (x as f64 / len(u) * dist).round() as i64);
        let (ra, rb) = if swap { (rb, 8) } else { (8, rb) };
        scene(l, &Sphere([0, 0, 0], ra), &Sphere(c, rb), &ID)
    });
    let al = alph(vec![[2000i64, 2001], [1000, 1001], [2000, 2050], [30000, 30001], [8, 9], [500, 540]]);
    ctx.space("alike", &format!("8 times radii {:?}: centres in {} directions nearly at the sum or the difference of the radii, by {:?} and 20 times that, both ways round", al, nd, es), (nd * al.len() * ne * 8) as u64, |i, l| {
        let mut d = Dec(i);
        let u = dirs[d.take(nd)];
        let r = d.pick(&al).map(|x| 8 * x);
        let e = d.pick(&es) * [1, 20][d.take(2)];
        let (swap, kind) = (d.take(2) == 1, d.take(2));
        let dist = ([r[1] - r[0], r[1] + r[0]][kind] + e) as f64;
        let c = u.map(|x| (x as f64 / len(u) * dist).round() as i64);
        let (ra, rb) = if swap { (r[1], r[0]) } else { (r[0], r[1]) };
        scene(l, &Sphere([0, 0, 0], ra), &Sphere(c, rb), &ID)
    });
    let rs2 = alph(vec![8191i64, 8193, 16383, 16385]);
    let mut us = HALVES.to_vec();
    us.extend([[1, 0, 0], [0, -1, 0], [0, 0, 1], [3, 4, 0], [-1, 2, 2], [1, 1, 0], [0, -1, 1], [1, -1, 1]]);
    let us = alph(us);
    let (nu, sg) = (us.len(), grid(-1, 1));
    ctx.space("special", &format!("radii {:?}, {} directions: spheres within a unit of contact, and planes across that direction within a unit of it, either way, x {} placements", rs2, nu, nt), (4 * 5 * 2 * nu * 27 * nt) as u64, |i, l| {
        let mut d = Dec(i);
        let (r, k, turn) = (d.pick(&rs2), d.take(5), d.take(2) == 1);
        let (u, e, t) = (us[d.take(nu)], sg[d.take(27)], tf[d.take(nt)]);
        let q = if k < 4 { r + rs2[k] } else { r } as f64;
        let p = add(e, u.map(|x| (x as f64 / len(u) * q).round() as i64 * if turn { -1 } else { 1 }));
        let c = [1, 0, -2];
        if k < 4 {
            scene(l, &Sphere(c, r), &Sphere(add(c, p), rs2[k]), &t)
        } else {
            scene(l, &Sphere(c, r), &Plane(add(c, p), u), &t)
        }
    });
    ctx.space("tilted", &format!("planes whose normal is {:?} times steeper along one axis, spheres of radii 1..=4 up to 3 such lengths along them, up to 7 units off, x {} placements", STEEP, nt), 4 * ALMOST * 7 * 15 * 4 * nt as u64, |i, l| {
        let mut d = Dec(i);
        let m = d.pick(&STEEP);
        let (ax, across, n) = almost_axis(&mut d, m);
        let (k, h) = (d.take(7) as i64 - 3, d.take(15) as i64 - 7);
        let mut p = [2, 0, -1];
        p[across] += k * m;
        p[ax] += h;
        scene(l, &Sphere(p, 1 + d.take(4) as i64), &Plane([2, 0, -1], n), &tf[d.take(nt)])
    });
    let mut ns = nonzero(grid(-2, 2));
    ns.extend([[3, 4, 0], [-6, 2, 3], [100, 1, 0], [0, -1, 50]]);
    let q = ctx.by(7, 10);
    let h = grid(-q, q);
    let (nn, m) = (ns.len(), h.len());
    ctx.space("sphere-plane", &format!("{} normals x centres of the grid -{}..={} x radii 1..=4 x {} placements", nn, q, q, nt), (nn * m * 4 * nt) as u64, |i, l| {
        let mut d = Dec(i);
        let c = h[d.take(m)];
        let t = tf[d.take(nt)];
        let rad = 1 + d.take(4) as i64;
        scene(l, &Sphere(c, rad), &Plane([0, 1, 0], ns[d.take(nn)]), &t)
    });
}

// ------------------------------------------------------------------------------------- C24

fn c24(ctx: &mut Ctx) {
    ctx.assume(OPEN);
    ctx.assume("a segment that passes an edge of the prism within about 1e-6 is left to the library's tolerance");
    let bs: Vec<[I3; 3]> = vec![
        [[0, 0, 0], [2, 0, 0], [0, 2, 0]],
        [[0, 0, 0], [0, 1, 0], [0, 0, 2]],
        [[0, 0, 0], [0, 0, 2], [4, 0, 0]],
        [[0, 0, 0], [0, 2, 0], [2, 0, 0]],
        [[0, 0, 0], [2, 1, 0], [1, 2, 2]],
        [[0, 0, 0], [-1, 2, 1], [2, 0, 1]],
        [[2, 2, 2], [0, 2, 0], [0, 0, 2]],
        [[0, 1, 0], [3, 0, 1], [0, -1, 2]],
    ];
    let bs = alph(bs);
    let tf = places(ctx);
    let nt = tf.len();
    let g = ctx.by(grid(-1, 4), grid(-2, 6));
    let n = g.len();
    let nb = bs.len();
    ctx.space("grid", &format!("{} bases x heights 1, 3 x every segment between {} points x {} placements", nb, n, nt), (nb * 2 * n * n * nt) as u64, |i, l| {
        let mut d = Dec(i);
        let t = tf[d.take(nt)];
        let b = bs[d.take(nb)];
        let h = d.pick(&[1, 3]);
        let a = g[d.take(n)];
        scene(l, &Segment(a, g[d.take(n)]), &Prism(b, h), &t)
    });
    // ends just short of a facet, on it or just beyond: by a thousandth of the prism's size
    let offs: Vec<I3> = grid(-1, 1);
    let dirs = alph({
        let mut v = nonzero(grid(-1, 1));
        v.extend([[3, 1, -2], [-5, 2, 1]]);
        v
    });
    let (no, nd) = (offs.len(), dirs.len());
    let lens = ctx.by(vec![300i64, 2000, 9001], vec![17, 300, 2000, 5000, 9001]);
    let nl = lens.len();
    let sz = ctx.by(vec![1024i64], vec![100, 1024]);
    ctx.space("ends", &format!("{} bases times {:?} x 2 heights x segments with one end within a unit of one of 10 points on the facets, coming from {} directions and {:?} units away, x {} placements", nb, sz, nd, lens, nt), (nb * sz.len() * 2 * 10 * no * nd * nl * 2 * nt) as u64, |i, l| {
        let mut d = Dec(i);
        let t = tf[d.take(nt)];
        let z = sz[d.take(sz.len())];
        let b = bs[d.take(nb)].map(|p| p.map(|x| x * z));
        let h = d.pick(&[1, 3]) * z;
        let n = normal(&b);
        let up = fl(n).map(|x| x / len(n) * h as f64);
        let k = d.take(10);
        let (i, j) = (k % 5, k / 5);
        let mix = |w: [f64; 3], f: f64| [0, 1, 2].map(|c| (b[0][c] as f64 * w[0] + b[1][c] as f64 * w[1] + b[2][c] as f64 * w[2] + up[c] * f).round() as i64);
        let e = match i {
            0 | 1 => mix([[0.25, 0.5, 0.25], [0.125, 0.125, 0.75]][j], i as f64),
            _ => {
                let mut w = [0.0; 3];
                w[i - 2] = [0.5, 0.25][j];
                w[(i - 1) % 3] = [0.5, 0.75][j];
                mix(w, [0.5, 0.125][j])
            }
        };
        let e = add(e, offs[d.take(no)]);
        let f = lens[d.take(nl)];
        let a = add(e, dirs[d.take(nd)].map(|x| x * f));
        let sg = if d.take(2) == 0 { Segment(a, e) } else { Segment(e, a) };
        scene(l, &sg, &Prism(b, h), &t)
    });
    // across an edge, or past it, near the end of a long segment or with a short one
    let offs: Vec<I3> = grid(-2, 2);
    let no = offs.len();
    let lens = alph(ctx.by(vec![1i64, 3000], vec![1i64, 2, 40, 3000]));
    let nl = lens.len();
    let sz = ctx.by(vec![512i64], vec![16, 512]);
    let tc = alph(ctx.by(vec![ID, Tf { s: -15, mv: [0, 0, 0], dk: 0 }], vec![ID, Tf { s: -15, mv: [0, 0, 0], dk: 0 }, Tf { s: -15, mv: [-3, 77, 1000], dk: 1 }, Tf { s: 10, mv: [-3, 77, 1000], dk: -30 }]));
    ctx.space("clips", &format!("{} bases times {:?} x 2 heights x segments with one end within 2 units of the middle of each edge, coming from {} directions and {:?} units away, x {} placements", nb, sz, nd, lens, tc.len()), (nb * sz.len() * 2 * 9 * no * nd * nl * 2 * tc.len()) as u64, |i, l| {
        let mut d = Dec(i);
        let t = tc[d.take(tc.len())];
        let z = sz[d.take(sz.len())];
        let b = bs[d.take(nb)].map(|p| p.map(|x| x * z));
        let h = d.pick(&[1, 3]) * z;
        let n = normal(&b);
        let up = fl(n).map(|x| x / len(n) * h as f64);
        let k = d.take(9);
        let (v, f) = match k / 3 {
            0 => ([k % 3, (k + 1) % 3], 0.0),
            1 => ([k % 3, (k + 1) % 3], 1.0),
            _ => ([k % 3, k % 3], 0.5),
        };
        let e = [0, 1, 2].map(|c| ((b[v[0]][c] + b[v[1]][c]) as f64 / 2.0 + up[c] * f).round() as i64);
        let e = add(e, offs[d.take(no)]);
        let f = lens[d.take(nl)];
        let a = add(e, dirs[d.take(nd)].map(|x| x * f));
        let sg = if d.take(2) == 0 { Segment(a, e) } else { Segment(e, a) };
        scene(l, &sg, &Prism(b, h), &t)
    });
    // very long segments: from far away on one side to far away on the other
    let ks = alph(ctx.by(vec![10u32, 20, 27], vec![7, 10, 14, 20, 24, 27, 29]));
    let nk = ks.len();
    let g = ctx.by(grid(-1, 4), grid(-2, 6));
    let (n, tl) = (g.len(), alph(vec![ID, Tf { s: -6, mv: [5, 0, -1], dk: 40 }, Tf { s: 3, mv: [-4096, 2048, 1], dk: 0 }]));
    ctx.space("long", &format!("{} bases x heights 1, 3 x segments through {} points in {} directions, 2^k units long on either side, k in {:?}, x {} placements", nb, n, nd, ks, tl.len()), (nb * 2 * n * nd * nk * nk * 2 * tl.len()) as u64, |i, l| {
        let mut d = Dec(i);
        let t = tl[d.take(tl.len())];
        let b = bs[d.take(nb)];
        let h = d.pick(&[1, 3]);
        let c = g[d.take(n)];
        let u = dirs[d.take(nd)];
        let (f, e) = (1i64 << d.pick(&ks), 1i64 << d.pick(&ks));
        let (a, z) = (add(c, u.map(|x| -x * f)), add(c, u.map(|x| x * e)));
        let sg = if d.take(2) == 0 { Segment(a, z) } else { Segment(z, a) };
        scene(l, &sg, &Prism(b, h), &t)
    });
    // larger prisms: segments stay inside, cross one facet, two, or pass by
    let big: Vec<[I3; 3]> = vec![[[0, 0, 0], [12, 0, 0], [0, 12, 0]], [[0, 0, 0], [6, 12, 3], [-6, 9, 9]], [[12, 0, 0], [0, 12, 0], [0, 0, 12]], [[0, 0, 0], [0, 9, 12], [16, 0, 0]]];
    let pts: Vec<I3> = {
        let s = ctx.by(4i64, 3);
        let mut v = vec![];
        for x in -1..=ctx.by(4, 6) {
            for y in -1..=ctx.by(4, 6) {
                for z in -1..=ctx.by(4, 6) {
                    v.push([x * s + 1, y * s + 2, z * s - 1]);
                }
            }
        }
        v
    };
    let np = pts.len();
    let nb = big.len();
    ctx.space("large", &format!("{} bases x heights 4, 11, 40 x every segment between {} points x {} placements", nb, np, nt), (nb * 3 * np * np * nt) as u64, |i, l| {
        let mut d = Dec(i);
        let t = tf[d.take(nt)];
        let b = big[d.take(nb)];
        let h = d.pick(&[4, 11, 40]);
        let a = pts[d.take(np)];
        scene(l, &Segment(a, pts[d.take(np)]), &Prism(b, h), &t)
    });
}

// ------------------------------------------------------------------------------------- C25

/// A few dozen shapes of every kind around the origin.
fn pool(deep: bool) -> Vec<G> {
    let mut v = vec![
        Point([0, 0, 0]),
        Point([1, 0, 0]),
        Point([2, -1, 1]),
        Point([-3, 0, 2]),
        Point([0, 0, 3]),
        Ray([0, 0, 0], [1, 0, 0]),
        Ray([-3, 0, 0], [1, 0, 0]),
        Ray([4, 0, 0], [-1, 0, 0]),
        Ray([2, -1, 1], [0, 1, -1]),
        Ray([0, 0, 3], [0, 0, -2]),
        Ray([0, 5, 0], [1, -2, 3]),
        Ray([-2, -2, -2], [1, 1, 1]),
        Plane([0, 0, 0], [0, 0, 1]),
        Plane([0, 0, 2], [0, 0, -1]),
        Plane([1, 0, 0], [1, 0, 0]),
        Plane([0, 1, 0], [1, -2, 2]),
        Sphere([0, 0, 0], 1),
        Sphere([0, 0, 0], 3),
        Sphere([3, 0, 0], 2),
        Sphere([-2, 2, 1], 1),
        Sphere([5, 5, -5], 6),
        Cube([0, 0, 0], 1),
        Cube([1, -1, 1], 2),
        Prism([[0, 0, 0], [2, 0, 0], [0, 2, 0]], 2),
        Prism([[-1, -1, -1], [3, 0, 0], [0, 3, 1]], 3),
        Prism([[2, 2, 2], [0, 2, 0], [0, 0, 2]], 1),
        Segment([-1, 0, 1], [3, 1, 1]),
        Segment([0, 0, 0], [1, 0, 1]),
        Segment([5, 5, 5], [6, -5, 5]),
        Segment([1, 1, 4], [1, 0, -4]),
    ];
    if deep {
        v.extend([
            Point([1, 1, 1]),
            Point([5, 5, 1]),
            Ray([0, 0, 0], [-1, 2, 0]),
            Ray([3, 3, 3], [-1, -1, -1]),
            Ray([6, -5, 5], [0, 1, 0]),
            Ray([1, 0, 0], [0, 0, 4]),
            Plane([3, 3, 3], [1, 1, 1]),
            Plane([0, -2, 0], [0, -3, 4]),
            Sphere([1, 2, 2], 3),
            Sphere([0, -4, 3], 2),
            Cube([4, 4, 4], 3),
            Prism([[0, 0, 0], [0, 0, 4], [0, 4, 0]], 5),
            Prism([[1, 0, 5], [-2, 4, 0], [3, -3, -2]], 2),
            Segment([-9, 0, 0], [9, 1, 0]),
            Segment([2, 2, 2], [2, 2, 2]),
        ]);
    }
    alph(v)
}
fn c25(ctx: &mut Ctx) {
    ctx.assume(OPEN);
    ctx.assume("pairs that the library declares unimplemented are outside the property");
    let p = pool(true);
    let tf = places(ctx);
    let (n, nt) = (p.len(), tf.len());
    let moves = alph(ctx.by(grid(-2, 2), grid(-3, 3)));
    let nm = moves.len();
    ctx.space("orders", &format!("every pair of {} shapes of all kinds, the second one moved by {} offsets, x {} placements, in both operand orders", n, nm, nt), (n * n * nm * nt) as u64, |i, l| {
        let mut d = Dec(i);
        let a = p[d.take(n)];
        let b = p[d.take(n)];
        let m = moves[d.take(nm)];
        let t = tf[d.take(nt)];
        let b = shift(&b, m);
        let Some(v) = verdict(&a, &b, &t) else {
            l.skip();
            return;
        };
        l.describe(|| format!("{:?} and {:?}{}", a, b, t.show()));
        l.outcome(vname(v));
        let (sa, sb) = (a.build(&t), b.build(&t));
        let (x, y) = (api!(l, ask(&*sa, &*sb)), api!(l, ask(&*sb, &*sa)));
        for (r, o) in [(&x, "this order"), (&y, "the other order")] {
            l.check(r.hit == r.loc.is_some(), || format!("{:?} and {:?}{} in {}: verdict {} with location {:?}", a, b, t.show(), o, r.hit, r.loc));
            if let Some(q) = r.loc {
                l.check(q.iter().all(|c| c.is_finite()), || format!("{:?} and {:?}{} in {}: location {:?}", a, b, t.show(), o, q));
            }
        }
        let j = judge(&a, &b, &t, &x, v);
        if j.open {
            l.soft();
            return;
        }
        l.check(x.hit == y.hit, || format!("{:?} and {:?}{}: {} in one operand order, {} in the other", a, b, t.show(), x.hit, y.hit));
        for (r, ga, gb) in [(&x, &a, &b), (&y, &b, &a)] {
            let j = judge(ga, gb, &t, r, v);
            if let Some(m) = j.wrong {
                l.fail(format!("{:?} with {:?}{}: {}", ga, gb, t.show(), m));
            }
        }
    });
    // a shape with itself: the same object, its copy, and one built alike
    ctx.space("itself", &format!("{} shapes moved by {} offsets x {} placements, each against itself and against one built alike", n, nm, nt), (n * nm * nt) as u64, |i, l| {
        let mut d = Dec(i);
        let t = tf[d.take(nt)];
        let a = shift(&p[d.take(n)], moves[d.take(nm)]);
        let Some(v) = verdict(&a, &a, &t) else {
            l.skip();
            return;
        };
        l.describe(|| format!("{:?} with itself{}", a, t.show()));
        let (s, q) = (a.build(&t), a.build(&t));
        let (x, y) = (api!(l, ask(&*s, &*s)), api!(l, ask(&*s, &*q)));
        l.check(x == y, || format!("{:?}{} with itself: {:?}, with a shape like it: {:?}", a, t.show(), x, y));
        let j = judge(&a, &a, &t, &x, v);
        if let Some(m) = j.wrong {
            l.fail(format!("{:?} with itself{}: {}", a, t.show(), m));
        }
    });
}
fn shift(g: &G, m: I3) -> G {
    match *g {
        Point(p) => Point(add(p, m)),
        Ray(p, d) => Ray(add(p, m), d),
        Plane(p, d) => Plane(add(p, m), d),
        Sphere(p, d) => Sphere(add(p, m), d),
        Cube(p, d) => Cube(add(p, m), d),
        Prism(b, h) => Prism(b.map(|p| add(p, m)), h),
        Segment(a, b) => Segment(add(a, m), add(b, m)),
    }
}

// ------------------------------------------------------------------------------------- C26

#[derive(Clone)]
enum Real {
    P(mazth::point::Point3),
    R(mazth::ray::Ray3),
    L(mazth::plane::Plane),
    S(mazth::sphere::Sphere),
    B(mazth::rbox::RecBox),
    T(mazth::triprism::TriPrism),
    N(mazth::line::Line3),
}
impl Real {
    fn dy(&self) -> &dyn IShape {
        match self {
            Real::P(x) => x,
            Real::R(x) => x,
            Real::L(x) => x,
            Real::S(x) => x,
            Real::B(x) => x,
            Real::T(x) => x,
            Real::N(x) => x,
        }
    }
    fn mu(&mut self) -> &mut dyn IVicinity<f64> {
        match self {
            Real::P(x) => x,
            Real::R(x) => x,
            Real::L(x) => x,
            Real::S(x) => x,
            Real::B(x) => x,
            Real::T(x) => x,
            Real::N(x) => x,
        }
    }
    fn all() -> Vec<Real> {
        vec![
            Real::P(mazth::point::Point3::init(&[4.0, -2.0, 1.0])),
            Real::R(mazth::ray::Ray3::init(&[1.0, 2.0, 3.0], &[1.0, 1.0, 0.0])),
            Real::L(mazth::plane::Plane::init(&[0.0, 0.0, 3.0], &[0.0, 0.0, 2.0])),
            Real::S(mazth::sphere::Sphere::init(&[0.0, 1.0, 0.0], 2.0)),
            Real::B(mazth::rbox::RecBox::init(&[0.0, 1.0, 0.0], 2.0)),
            Real::T(mazth::triprism::TriPrism::init(&[0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0, 0.0], 1.0)),
            Real::N(mazth::line::Line3::init(&[0.0, 0.0, 0.0], &[1.0, 2.0, 3.0])),
        ]
    }
}
const KINDS: [&str; 7] = ["point", "ray", "plane", "sphere", "cube", "prism", "segment"];

/// everything observable that depends on the tolerance `e` of `x`, of kind `k`
fn observe_tolerance(l: &mut Local, k: usize, x: &Real, e: f64) {
    let diffs = [0.0, 1.0 / (1u64 << 50) as f64, 1.0 / 2147483648.0, 1.0 / 536870912.0, 1e-7, 1e-5, 0.00048828125, 0.0009765625, 0.001953125, 0.25, 0.5, 1.0, 2.0, 3.0, 8.0, 9.0, 4095.0, 4097.0];
    for a in [0.0, 1.0, -3.5, 100.0, -1048576.0] {
        for d in diffs {
            for b in [a + d, a - d] {
                if f64::abs(b - a) != d && (a == -1048576.0 || d < 1e-14) {
                    continue; // the difference is not that
                }
                let w = d <= e;
                let g = api!(l, x.dy().within_vicinity(a, b));
                l.check(g == w, || format!("{} with tolerance {}: {} and {} within it: {} instead of {}", KINDS[k], e, a, b, g, w));
            }
        }
    }
    // and what does not depend on it
    let fresh = &Real::all()[k];
    let (x0, y0) = (still(x.dy()), still(fresh.dy()));
    l.check(x0 == y0, || format!("{} with tolerance {}: data, bound or support differ from those of a fresh one", KINDS[k], e));
    for d in diffs {
        for (s, other) in [(1.0, 1e-6), (-1.0, 1e-6), (1.0, 16.0), (-1.0, 0.0)] {
            // the points that are asked about, with whatever tolerance
            let pt = |p: F3| {
                let mut p = mazth::point::Point3::init(&p);
                p.set_vicinity(other);
                p
            };
            match k {
                0 => {
                    // each coordinate of a point within the tolerance of the point that is asked
                    for ax in 0..4 {
                        let mut q = [4.0, -2.0, 1.0];
                        let w = d <= e;
                        if ax < 3 {
                            q[ax] += s * d
                        } else {
                            q = [4.0 + s * d, -2.0 - s * d, 1.0 - s * d]
                        }
                        let g = api!(l, ask(x.dy(), &pt(q)));
                        l.check(g.hit == w, || format!("point (4,-2,1) with tolerance {} and point {:?}: {} instead of {}", e, q, g.hit, w));
                        // the point that is asked decides
                        let g = api!(l, ask(&pt(q), x.dy()));
                        let w = d <= other;
                        l.check(g.hit == w, || format!("point {:?} with tolerance {} and point (4,-2,1) of tolerance {}: {} instead of {}", q, other, e, g.hit, w));
                    }
                }
                1 => {
                    // beside a ray, not beside its bound; rounding decides at the tolerance itself
                    if d == e || e == 0.0 || d > 30.0 || (d - e).abs() < 1e-8 {
                        continue;
                    }
                    let q = [40.0 + s * d, 41.0 - s * d, 3.0];
                    let w = d < e;
                    let (g, h) = (api!(l, ask(x.dy(), &pt(q))), api!(l, ask(&pt(q), x.dy())));
                    l.check(g.hit == w && h.hit == w, || format!("ray (1,2,3)+t(1,1,0) with tolerance {} and point {:?}: {}/{} instead of {}", e, q, g.hit, h.hit, w));
                    // a ray that passes it at that distance, a plane alongside at that height
                    let h = d / f64::sqrt(2.0);
                    for up in [1.0, -1.0] {
                        let mut y = mazth::ray::Ray3::init(&[40.0 + s * h, 41.0 - s * h, 3.0 - 7.0 * up], &[0.0, 0.0, up]);
                        y.set_vicinity(other);
                        let g = api!(l, ask(x.dy(), &y));
                        l.check(g.hit == w, || format!("ray (1,2,3)+t(1,1,0) with tolerance {} and a ray of tolerance {} that passes it at distance {}: {} instead of {}", e, other, d, g.hit, w));
                        if (d - other).abs() > 1e-8 && other > 0.0 {
                            let w = d < other;
                            let g = api!(l, ask(&y, x.dy()));
                            l.check(g.hit == w, || format!("a ray of tolerance {} that passes ray (1,2,3)+t(1,1,0) of tolerance {} at distance {}: {} instead of {}", other, e, d, g.hit, w));
                        }
                        let mut y = mazth::plane::Plane::init(&[5.0, 9.0, 3.0 + s * d], &[0.0, 0.0, up]);
                        y.set_vicinity(other);
                        let (g, h) = (api!(l, ask(x.dy(), &y)), api!(l, ask(&y, x.dy())));
                        l.check(g.hit == w && h.hit == w, || format!("ray (1,2,3)+t(1,1,0) with tolerance {} and a plane of tolerance {} alongside at distance {}: {}/{} instead of {}", e, other, d, g.hit, h.hit, w));
                    }
                }
                2 => {
                    let q = [7.0, -1.0, 3.0 + s * d];
                    let w = d <= e;
                    if d != e && (d - e).abs() < 1e-8 {
                        continue;
                    }
                    let (g, h) = (api!(l, ask(x.dy(), &pt(q))), api!(l, ask(&pt(q), x.dy())));
                    l.check(g.hit == w && h.hit == w, || format!("plane z=3 with tolerance {} and point {:?}: {}/{} instead of {}", e, q, g.hit, h.hit, w));
                }
                5 => {
                    // segments outside of the slanted facet of the prism, within its bound: along it and leaving it
                    if s < 0.0 || d > 0.6 || (d - e).abs() < 1e-8 {
                        continue;
                    }
                    let q = 0.5 + d / f64::sqrt(2.0);
                    let w = d < e;
                    // across the edge of that facet and the far end: 1.4 d from the edge, d from both facets moved outwards
                    if d > e || d * 1.5 < e {
                        let o = 3.0 / f64::sqrt(2.0);
                        for (z0, up) in [(1.0, 1.0), (0.0, -1.0)] {
                            let (a, b) = ([0.5 - o, 0.5 - o, z0 + up * (2.0 * d + 3.0)], [0.5 + o, 0.5 + o, z0 + up * (2.0 * d - 3.0)]);
                            for (a, b) in [(a, b), (b, a)] {
                                let y = mazth::line::Line3::init(&a, &b);
                                let (g, h) = (api!(l, ask(x.dy(), &y)), api!(l, ask(&y, x.dy())));
                                l.check(g.hit == w && h.hit == w, || format!("prism with tolerance {} and the segment from {:?} to {:?}, {} beyond its edge: {}/{} instead of {}", e, a, b, d, g.hit, h.hit, w));
                            }
                        }
                    }
                    for (a, b) in [([q, q, -3.0], [q, q, 4.0]), ([q, q, 0.5], [3.0, 3.5, 0.5]), ([q - 2.0, q + 2.0, 0.25], [q + 2.0, q - 2.0, 0.5])] {
                        for (a, b) in [(a, b), (b, a)] {
                            let mut y = mazth::line::Line3::init(&a, &b);
                            y.set_vicinity(other);
                            let (g, h) = (api!(l, ask(x.dy(), &y)), api!(l, ask(&y, x.dy())));
                            l.check(g.hit == w && h.hit == w, || format!("prism with tolerance {} and the segment from {:?} to {:?} of tolerance {}, {} away from its facet: {}/{} instead of {}", e, a, b, other, d, g.hit, h.hit, w));
                        }
                    }
                }
                _ => {}
            }
        }
    }
}
fn c26(ctx: &mut Ctx) {
    ctx.assume("comparisons exactly at the tolerance are made with numbers for which the sum is exact");
    let es = [0.000001, 0.5, -0.25, 0.0, 2.0, -8.0, 0.0009765625, -0.0009765625, 1.0 / 1073741824.0, 4096.0];
    let n = es.len() as u32;
    ctx.bfs(
        "histories",
        "every history of tolerance settings of two shapes of any kinds, with copies replacing the shapes, everything that depends on the tolerance observed after every step",
        {
            let mut v = vec![];
            for a in 0..7usize {
                for b in 0..7usize {
                    v.push((a, b, Real::all()[a].clone(), Real::all()[b].clone(), 1e-6, 1e-6));
                }
            }
            v
        },
        2 * n + 2,
        20,
        100_000,
        move |s: &(usize, usize, Real, Real, f64, f64), op, l: &mut Local| {
            let mut s = s.clone();
            if op < n {
                api!(l, s.2.mu().set_vicinity(es[op as usize]));
                s.4 = es[op as usize].abs();
            } else if op < 2 * n {
                api!(l, s.3.mu().set_vicinity(es[(op - n) as usize]));
                s.5 = es[(op - n) as usize].abs();
            } else if op == 2 * n {
                s.2 = s.2.clone();
            } else {
                s.3 = s.3.clone();
            }
            observe_tolerance(l, s.0, &s.2, s.4);
            observe_tolerance(l, s.1, &s.3, s.5);
            Some(s)
        },
        |s| (s.0, s.1, s.4.to_bits(), s.5.to_bits(), tol_field(&s.2).to_bits(), tol_field(&s.3).to_bits()),
        move |op| {
            if op < 2 * n {
                format!("set the tolerance of shape {} to {}", op / n, es[(op % n) as usize])
            } else {
                format!("copy shape {}", op - 2 * n)
            }
        },
    );
    // queries that measure distances exactly know no tolerance
    let p: Vec<G> = pool(true);
    let np = p.len();
    let offs = alph(ctx.by(vec![[0, 0, 0], [1, -1, 2], [0, 3, 0], [-2, 0, 1]], grid(-1, 1)));
    let (no, tf) = (offs.len(), alph(vec![ID, Tf { s: -6, mv: [5, 0, -1], dk: 40 }, Tf { s: 10, mv: [-3, 77, 1000], dk: -30 }]));
    let nt = tf.len();
    let set = alph(vec![0.0, 1e-6, 0.5, -8.0]);
    let ns = set.len();
    ctx.space("elsewhere", &format!("every pair of {} shapes at {} offsets x {} placements that is decided by a distance: every combination of tolerances {:?} changes nothing", np, no, nt, set), (np * np * no * nt * ns * ns) as u64, |i, l| {
        let mut d = Dec(i);
        let (ea, eb) = (d.pick(&set), d.pick(&set));
        let t = tf[d.take(nt)];
        let a = p[d.take(np)];
        let b = shift(&p[d.take(np)], offs[d.take(no)]);
        let solid = |x: &G| matches!(x, Sphere(..) | Cube(..) | Prism(..));
        let other = |x: &G| matches!(x, Sphere(..) | Point(..)) || matches!(x, Plane(..) | Ray(..));
        if verdict(&a, &b, &t).is_none() || !(solid(&a) && other(&b) || other(&a) && solid(&b)) {
            l.skip();
            return;
        }
        l.describe(|| format!("{:?} with tolerance {} and {:?} with tolerance {}{}", a, ea, b, eb, t.show()));
        let (mut x, mut y) = (a.build(&t), b.build(&t));
        let r = api!(l, ask(&*x, &*y));
        x.set_vicinity(ea);
        y.set_vicinity(eb);
        let g = api!(l, ask(&*x, &*y));
        l.check(r == g, || format!("{:?} and {:?}{}: {:?} with default tolerances, {:?} with {} and {}", a, b, t.show(), r, g, ea, eb));
        if let Some(w) = match verdict(&a, &b, &t).unwrap() {
            V::Hit => Some(true),
            V::Miss => Some(false),
            _ => None,
        } {
            l.check(g.hit == w, || format!("{:?} and {:?}{} with tolerances {} and {}: {} instead of {}", a, b, t.show(), ea, eb, g.hit, w));
        }
    });
    // a fresh shape has the default tolerance wherever it is
    let g = grid(-2, 2);
    ctx.space("default", "a fresh shape of every kind at 125 places", 7 * 125, |i, l| {
        let mut d = Dec(i);
        let k = d.take(7);
        let p = g[d.take(125)];
        let q = add(p, [1, 0, 2]);
        let s = [Point(p), Ray(p, [0, 1, 1]), Plane(p, [1, 0, 0]), Sphere(p, 2), Cube(p, 1), Prism([p, add(p, [1, 0, 0]), q], 2), Segment(p, q)][k];
        l.describe(|| format!("{:?}", s));
        let b = s.build(&ID);
        for (dx, w) in [(0.0, true), (9e-7, true), (1.1e-6, false), (1e-4, false), (-9e-7, true), (-1.1e-6, false)] {
            let r = api!(l, b.within_vicinity(1.0, 1.0 + dx));
            l.check(r == w, || format!("{:?}: a difference of {} is within the default tolerance: {}", s, dx, r));
        }
    });
}
/// data, bound and support points
fn still(s: &dyn IShape) -> Vec<u64> {
    let mut v = bits(&s.get_shape_data());
    v.extend(bits(&s.get_bound().get_bound_data()));
    for d in [[1.0, 2.0, -3.0], [0.0, 0.0, 1.0], [-1.0, 1e-3, 0.0]] {
        if let ShapeType::Line = s.get_type() {
            break; // unimplemented
        }
        if let Some(m) = s.get_support(&Mat3x1 { _val: d }) {
            v.extend(bits(&m._val))
        }
    }
    v
}
fn tol_field(r: &Real) -> f64 {
    match r {
        Real::P(x) => x._vicinity,
        Real::R(x) => x._vicinity,
        Real::L(x) => x._vicinity,
        Real::S(x) => x._vicinity,
        Real::B(x) => x._vicinity,
        Real::T(x) => x._vicinity,
        Real::N(x) => x._vicinity,
    }
}

// ------------------------------------------------------------------------------------- C27

#[derive(Clone, Copy, Debug, PartialEq)]
enum Q {
    Meet(usize, usize),
    Support(usize, I3),
    Gjk(usize, usize),
    Bounds(usize, usize),
    /// another tolerance for a while
    Touchy(usize),
}
fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}
fn run_query(q: &Q, sh: &mut [Option<Box<dyn IShape>>]) -> Vec<u64> {
    match *q {
        Q::Meet(a, b) => {
            let r = ask(&**sh[a].as_ref().unwrap(), &**sh[b].as_ref().unwrap());
            let mut v = vec![r.hit as u64];
            v.extend(r.loc.iter().flatten().map(|x| x.to_bits()));
            v
        }
        Q::Support(a, d) => sh[a].as_ref().unwrap().get_support(&Mat3x1 { _val: fl(d) }).map_or(vec![], |m| bits(&m._val)),
        Q::Gjk(a, b) => match query_intersect(&**sh[a].as_ref().unwrap(), &**sh[b].as_ref().unwrap()) {
            None => vec![2],
            Some(x) => vec![x as u64],
        },
        Q::Bounds(a, b) => {
            let (x, y) = (sh[a].as_ref().unwrap(), sh[b].as_ref().unwrap());
            let mut v = vec![x.get_bound().intersect(y.get_bound()) as u64];
            v.extend(bits(&x.get_bound().get_centroid()));
            v
        }
        Q::Touchy(a) => {
            let s = sh[a].as_mut().unwrap();
            s.set_vicinity(0.5);
            s.set_vicinity(0.000001);
            vec![]
        }
    }
}
fn show(q: &Q, s: &[G]) -> String {
    let u = used(q);
    match q {
        Q::Meet(..) => format!("{:?} meets {:?}", s[u[0]], s[u[1]]),
        Q::Gjk(..) => format!("overlap test of {:?} and {:?}", s[u[0]], s[u[1]]),
        Q::Bounds(..) => format!("bounds of {:?} and {:?}", s[u[0]], s[u[1]]),
        Q::Support(_, d) => format!("support of {:?} in {:?}", s[u[0]], d),
        Q::Touchy(_) => format!("tolerance of {:?}", s[u[0]]),
    }
}
fn used(q: &Q) -> [usize; 2] {
    match *q {
        Q::Meet(a, b) | Q::Gjk(a, b) | Q::Bounds(a, b) => [a, b],
        Q::Support(a, _) | Q::Touchy(a) => [a, a],
    }
}
fn fingerprint(s: &dyn IShape) -> Vec<u64> {
    let mut v = bits(&s.get_shape_data());
    v.extend(bits(&s.get_bound().get_bound_data()));
    v.push(s.within_vicinity(0.0, 9e-7) as u64);
    v.push(s.within_vicinity(0.0, 1.1e-6) as u64);
    v
}
fn c27(ctx: &mut Ctx) {
    let shapes = [
        Point([1, 0, 0]),
        Point([1, 1, 1]),
        Ray([-3, 0, 0], [1, 0, 0]),
        Ray([1, -4, 0], [0, 2, 0]),
        Plane([0, 0, 1], [0, 0, -2]),
        Sphere([0, 0, 0], 1),
        Sphere([1, 1, 0], 2),
        Cube([1, -1, 1], 2),
        Prism([[0, 0, 0], [2, 0, 0], [0, 2, 0]], 2),
        Segment([-1, 0, 1], [3, 1, 1]),
    ];
    let mut qs = vec![];
    for a in 0..shapes.len() {
        for b in 0..shapes.len() {
            if verdict(&shapes[a], &shapes[b], &ID).is_some() {
                qs.push(Q::Meet(a, b))
            }
        }
    }
    for a in [0usize, 2, 4, 5, 7, 8] {
        qs.push(Q::Support(a, [1, -2, 1]));
        qs.push(Q::Support(a, [0, 0, -1]));
    }
    qs.extend([Q::Gjk(5, 6), Q::Gjk(6, 5), Q::Gjk(5, 5), Q::Bounds(2, 6), Q::Bounds(8, 9), Q::Bounds(9, 7)]);
    qs.extend((0..shapes.len()).map(Q::Touchy));
    let qs = alph(qs);
    let shapes = &shapes;
    // the answer to every query, each on fresh shapes
    let fresh = |q: &Q| {
        let mut sh: Vec<Option<Box<dyn IShape>>> = (0..shapes.len()).map(|_| None).collect();
        for u in used(q) {
            sh[u] = Some(shapes[u].build(&ID));
        }
        run_query(q, &mut sh)
    };
    let want: Vec<Vec<u64>> = qs.iter().map(fresh).collect();
    let data: Vec<Vec<u64>> = shapes.iter().map(|s| fingerprint(&*s.build(&ID))).collect();
    let depth = ctx.by(3usize, 4);
    let n = qs.len();
    ctx.space("sequences", &format!("every sequence of {} out of {} queries on the same 10 shapes: each answer bit for bit that of fresh shapes, the shapes unchanged", depth, n), (n as u64).pow(depth as u32), |i, l| {
        let mut d = Dec(i);
        let seq: Vec<usize> = (0..depth).map(|_| d.take(n)).collect();
        l.describe(|| format!("{:?}", seq.iter().map(|k| qs[*k]).collect::<Vec<_>>()));
        let mut sh: Vec<Option<Box<dyn IShape>>> = (0..shapes.len()).map(|_| None).collect();
        for k in &seq {
            for u in used(&qs[*k]) {
                if sh[u].is_none() {
                    sh[u] = Some(shapes[u].build(&ID));
                }
            }
        }
        for (j, k) in seq.iter().enumerate() {
            let g = api!(l, run_query(&qs[*k], &mut sh));
            if g != want[*k] {
                let f = |v: &Vec<u64>| v.iter().map(|x| f64::from_bits(*x)).collect::<Vec<_>>();
                l.fail(format!("{:?}: answer {} is {:?}, on fresh shapes it was {:?}", seq.iter().map(|k| qs[*k]).collect::<Vec<_>>(), j, f(&g), f(&want[*k])));
                return;
            }
        }
        for (k, s) in sh.iter().enumerate() {
            if let Some(s) = s {
                l.check(fingerprint(&**s) == data[k], || format!("{:?}: shape {:?} changed", seq.iter().map(|k| qs[*k]).collect::<Vec<_>>(), shapes[k]));
            }
        }
    });
    // shapes that agree in everything but one datum, so that an answer that is remembered under
    // part of what it depends on shows
    let twins = alph(vec![
        Point([1, 0, 0]),
        Point([0, 0, 3]),
        Ray([0, 0, -5], [0, 0, 1]),
        Ray([0, 0, -5], [0, 1, 0]),
        Ray([0, 0, 5], [0, 0, 1]),
        Ray([0, 0, 5], [0, 0, -1]),
        Plane([0, 0, 1], [0, 0, -2]),
        Plane([0, 0, 1], [0, -2, 0]),
        Plane([0, 0, 1], [0, 0, 2]),
        Plane([0, 4, 0], [0, -2, 0]),
        Sphere([0, 0, 0], 1),
        Sphere([0, 0, 0], 4),
        Sphere([0, 0, -6], 1),
        Sphere([0, 0, -6], 4),
        Cube([0, 0, 0], 1),
        Cube([0, 0, 0], 4),
        Cube([0, 0, -6], 1),
        Prism([[0, 0, 0], [4, 0, 0], [0, 4, 0]], 4),
        Prism([[0, 0, 0], [4, 0, 0], [0, 4, 0]], 1),
        Prism([[0, 0, 0], [1, 0, 0], [0, 4, 0]], 4),
        Prism([[0, 0, 0], [4, 0, 0], [0, 1, 0]], 4),
        Prism([[-1, -1, 0], [4, 0, 0], [0, 4, 0]], 4),
        Segment([1, 1, 3], [1, 1, 9]),
        Segment([1, 1, 3], [9, 9, 3]),
        Segment([3, 3, 0], [9, 9, 3]),
        Segment([1, 1, 5], [1, 1, 9]),
    ]);
    let mut qt = vec![];
    for a in 0..twins.len() {
        for b in 0..twins.len() {
            if verdict(&twins[a], &twins[b], &ID).is_some() {
                qt.push(Q::Meet(a, b));
            }
            if twins[a].kind() == 3 && twins[b].kind() == 3 {
                qt.push(Q::Gjk(a, b));
            }
            if a < b && twins[a].kind() == twins[b].kind() {
                qt.push(Q::Bounds(a, b));
            }
        }
        if !matches!(twins[a], Segment(..)) {
            qt.push(Q::Support(a, [1, -2, 1]));
            qt.push(Q::Support(a, [3, 1, -1]));
        }
    }
    let qt = alph(qt);
    let twins = &twins;
    let alone: Vec<Vec<u64>> = qt
        .iter()
        .map(|q| {
            isolated(|| {
                let mut sh: Vec<Option<Box<dyn IShape>>> = (0..twins.len()).map(|_| None).collect();
                for u in used(q) {
                    sh[u] = Some(twins[u].build(&ID));
                }
                run_query(q, &mut sh)
            })
        })
        .collect();
    let nt = qt.len();
    ctx.space("look-alikes", &format!("every ordered pair of {} queries on {} shapes of which some differ in one datum only, the second query (then the first again) on shapes kept from the start and on shapes built anew in the place of those dropped: each answer bit for bit that on a fresh thread, and the answer of the reference", nt, twins.len()), (nt * nt * 2) as u64, |i, l| {
        let mut d = Dec(i);
        let anew = d.take(2) == 1;
        let (a, b) = (d.take(nt), d.take(nt));
        l.describe(|| format!("{:?}, then {:?}, then the first again, {}", show(&qt[a], twins), show(&qt[b], twins), if anew { "each on shapes built for it" } else { "on the same shapes" }));
        l.calls += 3;
        let got: Vec<Vec<u64>> = isolated(|| {
            let build = |qs: &[usize]| {
                let mut sh: Vec<Option<Box<dyn IShape>>> = (0..twins.len()).map(|_| None).collect();
                for q in qs {
                    for u in used(&qt[*q]) {
                        if sh[u].is_none() {
                            sh[u] = Some(twins[u].build(&ID));
                        }
                    }
                }
                sh
            };
            let both = [a, b];
            let mut kept = build(if anew { &both[..0] } else { &both });
            [a, b, a]
                .iter()
                .map(|q| {
                    if anew {
                        run_query(&qt[*q], &mut build(&[*q]))
                    } else {
                        run_query(&qt[*q], &mut kept)
                    }
                })
                .collect()
        });
        for (q, g) in [a, b, a].iter().zip(&got) {
            l.check(*g == alone[*q], || {
                let f = |v: &Vec<u64>| v.iter().map(|x| f64::from_bits(*x)).collect::<Vec<_>>();
                format!("{:?}, then {:?}, then the first again ({}): {:?} is answered {:?}, on its own {:?}", show(&qt[a], twins), show(&qt[b], twins), if anew { "shapes built anew" } else { "same shapes" }, qt[*q], f(g), f(&alone[*q]))
            });
            if let Q::Meet(x, y) = qt[*q] {
                match verdict(&twins[x], &twins[y], &ID) {
                    Some(V::Hit) => {
                        l.check(g[0] == 1, || format!("{:?}: no after {:?}", show(&qt[*q], twins), show(&qt[a], twins)));
                    }
                    Some(V::Miss) => {
                        l.check(g[0] == 0, || format!("{:?}: yes after {:?}", show(&qt[*q], twins), show(&qt[a], twins)));
                    }
                    _ => {}
                }
            }
        }
    });
    // past the range of a 16-bit counter, on a thread of its own
    let many = 66_000;
    ctx.space("counts", &format!("every query {} times on a fresh thread", many), n as u64, |i, l| {
        let k = i as usize;
        l.describe(|| format!("{:?}", qs[k]));
        let q = &qs[k];
        let bad = api!(l, isolated(|| {
            let mut sh: Vec<Option<Box<dyn IShape>>> = (0..shapes.len()).map(|_| None).collect();
            for u in used(q) {
                sh[u] = Some(shapes[u].build(&ID));
            }
            (0..many).find(|_| run_query(q, &mut sh) != want[k])
        }));
        l.check(bad.is_none(), || format!("{}: repetition {} differs", show(q, shapes), bad.unwrap()));
    });
    // many repetitions of one query on one pair, with another query in between
    let reps = ctx.by(400, 4000);
    ctx.space("repeats", &format!("every pair of queries, the first one repeated {} times with the second in between", reps), (n * n) as u64, |i, l| {
        let mut d = Dec(i);
        let (a, b) = (d.take(n), d.take(n));
        l.describe(|| format!("{:?} with {:?} in between", qs[a], qs[b]));
        let mut sh: Vec<Option<Box<dyn IShape>>> = (0..shapes.len()).map(|_| None).collect();
        for k in [a, b] {
            for u in used(&qs[k]) {
                sh[u] = Some(shapes[u].build(&ID));
            }
        }
        for r in 0..reps {
            let g = api!(l, run_query(&qs[a], &mut sh));
            if g != want[a] {
                l.fail(format!("{:?} with {:?} in between: repetition {} differs", qs[a], qs[b], r));
                return;
            }
            if r % 3 == 2 {
                let g = api!(l, run_query(&qs[b], &mut sh));
                l.check(g == want[b], || format!("{:?} with {:?} in between: repetition {} of the latter differs", qs[a], qs[b], r));
            }
        }
    });
}

// ------------------------------------------------------------------------------------- C28

fn c28(ctx: &mut Ctx) {
    ctx.assume(OPEN);
    ctx.assume("contacts of boundaries, and of points and rays without thickness, are compared under the symmetries of the cube, moves by integers and scaling by powers of two (which do not round); under general rotations only scenes with room to spare are");
    let p = pool(true);
    let n = p.len();
    let syms = Sym::all();
    let mv = alph(vec![Tf { s: 0, mv: [0, 0, 0], dk: 0 }, Tf { s: 0, mv: [7, -12, 3], dk: 5 }, Tf { s: -5, mv: [-100, 1, 0], dk: 0 }, Tf { s: 9, mv: [0, 0, 31], dk: -9 }, Tf { s: -13, mv: [0, 0, 0], dk: 0 }, FAR, Tf { s: 10, mv: [-3, 77, 1000], dk: -30 }]);
    let offs = alph(ctx.by(grid(-1, 1), grid(-2, 2)));
    let (ns, nm, no) = (syms.len(), mv.len(), offs.len());
    ctx.space("symmetries", &format!("every pair of {} shapes at {} offsets, under the 48 symmetries of the cube x {} moves and scales", n, no, nm), (n * n * no * ns * nm) as u64, |i, l| {
        let mut d = Dec(i);
        let sy = syms[d.take(ns)];
        let t = mv[d.take(nm)];
        let a = p[d.take(n)];
        let b = shift(&p[d.take(n)], offs[d.take(no)]);
        let Some(v) = verdict(&a, &b, &ID) else {
            l.skip();
            return;
        };
        l.describe(|| format!("{:?} and {:?} under {:?}{}", a, b, sy, t.show()));
        let (ga, gb) = (sy.g(&a), sy.g(&b));
        let base = api!(l, ask(&*a.build(&ID), &*b.build(&ID)));
        let got = api!(l, ask(&*ga.build(&t), &*gb.build(&t)));
        let open = matches!(v, V::Open) || (v == V::Touch && !touch_is_exact(&a, &b));
        if open || verdict(&ga, &gb, &t) != Some(v) {
            l.soft();
            return;
        }
        l.check(got.hit == base.hit, || format!("{:?} and {:?}: {}; under {:?}{}: {}", a, b, base.hit, sy, t.show(), got.hit));
        if let (Some(x), Some(y), Some((_, tol))) = (base.loc, got.loc, location(&a, &b, &t)) {
            let (w, g) = (sy.f(x), t.back(y));
            l.check(flen(fsub(w, g)) <= 4.0 * tol, || format!("{:?} and {:?}: location {:?}; under {:?}{}: {:?}", a, b, x, sy, t.show(), y));
        }
    });
    // rotations made with the library's quaternions, positions and directions alike
    let mut rots = vec![];
    for q in nonzero4(ctx.by(2, 3)) {
        rots.push(q)
    }
    let nr = rots.len();
    let turned = alph(vec![ID, Tf { s: -10, mv: [1, -2, 0], dk: 20 }, Tf { s: 12, mv: [0, 5, 7], dk: -12 }, Tf { s: 0, mv: [-90, 1000, 3], dk: 0 }]);
    let offs = alph(ctx.by(vec![[0, 0, 0], [1, 0, 0], [0, 1, -1], [-1, 1, 2], [3, -2, 0]], grid(-1, 1)));
    let (no, nm) = (offs.len(), turned.len());
    ctx.space("rotations", &format!("every pair of {} shapes at {} offsets rotated by {} unit quaternions, then under {} moves and scales", n, no, nr, nm), (n * n * no * nr * nm) as u64, |i, l| {
        let mut d = Dec(i);
        let q = rots[d.take(nr)];
        let t = turned[d.take(nm)];
        let a = p[d.take(n)];
        let b = shift(&p[d.take(n)], offs[d.take(no)]);
        let Some(v) = verdict(&a, &b, &ID) else {
            l.skip();
            return;
        };
        if matches!(a, Cube(..)) || matches!(b, Cube(..)) {
            l.skip(); // cubes are axis-aligned and do not rotate
            return;
        }
        l.describe(|| format!("{:?} and {:?} rotated by {:?}{}", a, b, q, t.show()));
        let qu = mazth::quat::Quat::<f64>::init_from_vals_normalize(q[0] as f64, q[1] as f64, q[2] as f64, q[3] as f64);
        let turn = |p: F3| qu.rotate_vector(Mat3x1 { _val: p })._val;
        let (k, kd) = (t.k(), 2f64.powi(t.dk));
        let mv = fl(t.mv);
        let f = |p: F3| {
            let p = turn(p);
            [(p[0] + mv[0]) * k, (p[1] + mv[1]) * k, (p[2] + mv[2]) * k]
        };
        let g = |p: F3| turn(p).map(|x| x * kd);
        if verdict(&a, &b, &t) != Some(v) {
            l.soft();
            return;
        }
        let w = match v {
            V::Hit => true,
            V::Miss | V::Near(_) => false,
            _ => {
                l.soft();
                return;
            }
        };
        // origins of rays may leave the surface only by rounding
        let got = api!(l, ask(&*build_with(&a, &f, &g, k), &*build_with(&b, &f, &g, k)));
        l.check(got.hit == w, || format!("{:?} and {:?} rotated by {:?}{}: {} instead of {}", a, b, q, t.show(), got.hit, w));
        if let (Some(y), Some((x, tol))) = (got.loc, location(&a, &b, &t)) {
            let y = fsub([y[0] / k, y[1] / k, y[2] / k], mv);
            l.check(flen(fsub(turn(x), y)) <= 4.0 * tol + 1e-12, || format!("{:?} and {:?} rotated by {:?}{}: location {:?} instead of {:?}, both before the move", a, b, q, t.show(), y, turn(x)));
        }
    });
}
fn nonzero4(m: i64) -> Vec<[i64; 4]> {
    let mut v = vec![];
    for x in -m..=m {
        for y in -m..=m {
            for z in -m..=m {
                for w in 0..=m {
                    if x * x + y * y + z * z + w * w != 0 {
                        v.push([x, y, z, w])
                    }
                }
            }
        }
    }
    v
}
/// the shape with positions through f, directions through g and sizes times k
fn build_with(s: &G, f: &dyn Fn(F3) -> F3, g: &dyn Fn(F3) -> F3, k: f64) -> Box<dyn IShape> {
    let p = |x: I3| f(fl(x));
    let v = |x: I3| g(fl(x));
    match *s {
        Point(a) => Box::new(mazth::point::Point3::init(&p(a))),
        Ray(a, d) => Box::new(mazth::ray::Ray3::init(&p(a), &v(d))),
        Plane(a, d) => Box::new(mazth::plane::Plane::init(&p(a), &v(d))),
        Sphere(c, r) => Box::new(mazth::sphere::Sphere::init(&p(c), r as f64 * k)),
        Cube(c, h) => Box::new(mazth::rbox::RecBox::init(&p(c), h as f64 * k)),
        Prism(b, h) => {
            let v: Vec<f64> = b.iter().flat_map(|x| p(*x)).collect();
            Box::new(mazth::triprism::TriPrism::init(&v, h as f64 * k))
        }
        Segment(a, b) => Box::new(mazth::line::Line3::init(&p(a), &p(b))),
    }
}

// ------------------------------------------------------------------------------------- C29

/// Counts support queries, and gives up after many: the search must end.
struct Counted<'a> {
    s: &'a dyn IShape,
    n: &'a Cell<u32>,
}
const SUPPORTS: u32 = 2000;
impl<'a> IVicinity<f64> for Counted<'a> {
    fn set_vicinity(&mut self, _: f64) {}
    fn within_vicinity(&self, a: f64, b: f64) -> bool {
        self.s.within_vicinity(a, b)
    }
}
impl<'a> IShape for Counted<'a> {
    fn get_shape_data(&self) -> Vec<f64> {
        self.s.get_shape_data()
    }
    fn get_type(&self) -> ShapeType {
        self.s.get_type()
    }
    fn get_bound(&self) -> &dyn IBound {
        self.s.get_bound()
    }
    fn get_intersect(&self, o: &dyn IShape) -> (bool, Option<Mat3x1<f64>>) {
        self.s.get_intersect(o)
    }
    fn get_support(&self, v: &Mat3x1<f64>) -> Option<Mat3x1<f64>> {
        self.n.set(self.n.get() + 1);
        if self.n.get() > SUPPORTS {
            std::panic::panic_any(format!("no answer after {} support queries", SUPPORTS));
        }
        self.s.get_support(v)
    }
}
fn gjk_case(l: &mut Local, c: I3, ra: i64, rb: i64, t: &Tf) {
    let (a, b) = (Sphere([0, 0, 0], ra), Sphere(c, rb));
    let mut v = verdict(&a, &b, t).unwrap();
    // a gap or overlap that rounding of the support points hides
    let (dd, ss) = (len(c), (ra + rb) as f64);
    let gap = (dot(c, c) as i128 - (ra + rb) as i128 * (ra + rb) as i128) as f64 / (dd + ss);
    if gap.abs() < 4.0 * f64::EPSILON * (dd + ss + t.mag()) {
        v = V::Open;
    }
    l.describe(|| format!("{:?} and {:?}{}: {:?}", a, b, t.show(), v));
    l.outcome(vname(v));
    let (sa, sb) = (a.build(t), b.build(t));
    for (x, y) in [(&sa, &sb), (&sb, &sa)] {
        let n = Cell::new(0);
        let (p, q) = (Counted { s: &**x, n: &n }, Counted { s: &**y, n: &n });
        l.calls += 1;
        let r = match may_panic(|| query_intersect(&p, &q)) {
            Ok(r) => r,
            Err(_) => {
                l.fail(format!("{:?} and {:?}{}: no answer ({} support queries)", a, b, t.show(), n.get()));
                return;
            }
        };
        let w = match v {
            V::Hit => Some(true),
            V::Miss => Some(false),
            _ => None,
        };
        match w {
            None => l.soft(),
            w => {
                l.check(r == w, || format!("{:?} and {:?}{}: {:?} instead of {:?}", a, b, t.show(), r, w));
            }
        }
        let d = x.get_intersect(&**y).0;
        l.check(w.is_none() || Some(d) == r, || format!("{:?} and {:?}{}: {:?} but the direct test says {}", a, b, t.show(), r, d));
    }
}
fn c29(ctx: &mut Ctx) {
    ctx.assume("spheres that touch in exactly one point may be reported either way, but an answer must be given; sphere pairs only (the library refuses others)");
    let tf = places(ctx);
    let nt = tf.len();
    let r = ctx.by(13, 20);
    let g = grid(-r, r);
    let n = g.len();
    let rs = alph(vec![1i64, 2, 3, 5, 9]);
    let nr = rs.len();
    ctx.space("spheres", &format!("every relative centre of the grid -{}..={} x radii {:?} x {} placements, both operand orders", r, r, rs, nt), (n * nr * nr * nt) as u64, |i, l| {
        let mut d = Dec(i);
        let c = g[d.take(n)];
        let (ra, rb) = (d.pick(&rs), d.pick(&rs));
        gjk_case(l, c, ra, rb, &tf[d.take(nt)])
    });
    // close calls: separated or overlapping by little, seen from everywhere
    let q = ctx.by(90i64, 200);
    let close: Vec<(I3, i64)> = grid(0, q)
        .into_iter()
        .filter(|c| c[0] <= c[1])
        .filter_map(|c| {
            let d2 = dot(c, c);
            let s = (d2 as f64).sqrt().round() as i64;
            if s > 3 && (d2 - s * s).abs() <= 1 {
                Some((c, s))
            } else {
                None
            }
        })
        .collect();
    let nc = close.len();
    let octs: Vec<Sym> = Sym::all();
    ctx.space("close", &format!("{} centre distances within half a unit of squared length of the sum of radii x 48 symmetries x 3 radius splits", nc), (nc * 48 * 3) as u64, |i, l| {
        let mut d = Dec(i);
        let (c, s) = close[d.take(nc)];
        let c = octs[d.take(48)].p(c);
        let ra = [1, s / 2, s - 1][d.take(3)];
        gjk_case(l, c, ra, s - ra, &ID)
    });
    // the same for large spheres, whose gap or overlap is then a tiny part of their size
    let hyp: Vec<(I3, i64)> = {
        let mut v = vec![];
        for m in ctx.by(vec![300i64, 1000, 30_011, 1_000_003], vec![300, 1000, 5003, 30_011, 200_003, 1_000_003]) {
            for (a, b) in [(m / 3, m / 2), (m / 7, m), (1, m), (m, m + 1), (m / 50, m / 2 + 1), (0, m)] {
                // a third coordinate that makes the squared distance a square, or one off
                let base = a * a + b * b;
                let mut found = 0;
                for c in 0..=4 * m {
                    let d2 = base + c * c;
                    let s = isqrt(d2);
                    for s in [s, s + 1] {
                        if (d2 - s * s).abs() == 1 && found < 2 {
                            v.push(([a, b, c], s));
                            found += 1;
                        }
                    }
                    if found >= 2 {
                        break;
                    }
                }
            }
        }
        alph(v)
    };
    let nh = hyp.len();
    ctx.space("close-large", &format!("{} centre distances up to {} that miss the sum of radii by about half its inverse x 48 symmetries x 4 radius splits", nh, hyp.iter().map(|x| x.1).max().unwrap()), (nh * 48 * 4) as u64, |i, l| {
        let mut d = Dec(i);
        let (c, s) = hyp[d.take(nh)];
        let c = octs[d.take(48)].p(c);
        let ra = [1, s / 3, s / 2, s - 1][d.take(4)];
        gjk_case(l, c, ra, s - ra, &ID)
    });
    ctx.space("wide", &format!("spheres of radii {:?} with centres within a unit of the sum of the radii x {} placements", WIDE, nt), NW * NW * BESIDE * nt as u64, |i, l| {
        let mut d = Dec(i);
        let (r, q) = (d.pick(&WIDE), d.pick(&WIDE));
        let p = beside(&mut d, [0, 0, 0], r + q);
        gjk_case(l, p, r, q, &tf[d.take(nt)])
    });
    // one sphere far larger than the other
    let dirs = alph(primitive(grid(-3, 3)));
    let rr = alph(ctx.by(vec![10i64, 1000, 30_000], vec![10i64, 100, 1000, 10_000, 30_000, 100_000]));
    let es = alph(vec![-16i64, -8, -4, -2, -1, 1, 2, 4, 8, 16]);
    let (nd, nx, ne) = (dirs.len(), rr.len(), es.len());
    ctx.space("ratio", &format!("radius 8 against 8 times {:?}, centres in {} directions nearly at the sum (by {:?}) or difference of the radii, both ways round", rr, nd, es), (nd * nx * ne * 4) as u64, |i, l| {
        let mut d = Dec(i);
        let u = dirs[d.take(nd)];
        let rb = 8 * d.pick(&rr);
        let e = d.pick(&es);
        let (swap, inner) = (d.take(2) == 1, d.take(2) == 1);
        let dist = (if inner { rb - 8 } else { rb + 8 } + e) as f64;
        let c = u.map(|x| (x as f64 / len(u) * dist).round() as i64);
        if swap {
            gjk_case(l, c, rb, 8, &ID)
        } else {
            gjk_case(l, c, 8, rb, &ID)
        }
    });
}

// ------------------------------------------------------------------------------------- C30

fn c30(ctx: &mut Ctx) {
    ctx.assume("where several points are farthest, any of them may be returned");
    let tf = places(ctx);
    let nt = tf.len();
    let mut vs = grid(-3, 3);
    vs.extend([[1000, 1, 0], [-1, 500, -500], [0, 7, 100]]);
    // by a hair off an axis or a diagonal
    vs.extend([[67108864, 1, 0], [-67108864, 0, 1], [1, -67108864, 1], [-1, 2, 67108864], [1048576, 1, -1], [1, 1048576, -1048576], [-1048577, -1048576, 1048575]]);
    let nv = vs.len();
    let mut sh = vec![];
    for r in 1..=3 {
        for c in [[0, 0, 0], [4, -1, 2], [-3, 5, -6]] {
            sh.push(Sphere(c, r));
            sh.push(Cube(c, r));
        }
    }
    for r in WIDE {
        sh.push(Sphere([1, 0, -2], r));
        sh.push(Cube([0, -1, 1], r));
        sh.push(Prism([[0, 0, 0], [2, 0, 0], [0, 1, 0]], r));
    }
    for p in grid(-1, 1) {
        sh.push(Point(p))
    }
    for b in bases(&ctx.by(grid(-1, 1), grid(-1, 2))) {
        for h in 1..=2 {
            sh.push(Prism(b, h))
        }
    }
    for p in [Ray([1, 2, 3], [0, 1, 2]), Plane([1, 2, 3], [0, 1, 2])] {
        sh.push(p)
    }
    let sh = alph(sh);
    let n = sh.len();
    let lens = alph(vec![1.0, 1e-30, 1e20, 1.00390625, 0.9990234375, 1.00006103515625]);
    ctx.space("supports", &format!("{} shapes x {} directions x 6 lengths of the direction x {} placements", n, nv, nt), (n * nv * 6 * nt) as u64, |i, l| {
        let mut d = Dec(i);
        let t = tf[d.take(nt)];
        let s = sh[d.take(n)];
        let v = vs[d.take(nv)];
        let f = d.pick(&lens);
        l.describe(|| format!("{:?} in direction {:?}*{}{}", s, v, f, t.show()));
        let b = s.build(&t);
        let got = api!(l, b.get_support(&Mat3x1 { _val: fl(v).map(|x| x * f) })).map(|m| m._val);
        if zero(v) && f != 1.0 {
            l.skip();
            return;
        }
        match s {
            Point(p) => {
                l.check(got == Some(t.p(p)), || format!("{:?} in direction {:?}: {:?}", s, v, got));
                return;
            }
            Ray(..) | Plane(..) => {
                l.check(got.is_none(), || format!("{:?} is unbounded but its support is {:?}", s, got));
                return;
            }
            _ => {}
        }
        if zero(v) {
            l.check(got.is_none(), || format!("{:?} without direction: {:?}", s, got));
            return;
        }
        let Some(p) = got else {
            l.fail(format!("{:?} in direction {:?}*{}{}: no support point", s, v, f, t.show()));
            return;
        };
        let p = t.back(p);
        let u = fl(v).map(|x| x / len(v));
        let m = 1.0 + s.mag() + t.mag();
        let tol = 1e-13 * m;
        let best = match s {
            Sphere(c, r) => fdot(fl(c), u) + r as f64,
            Cube(c, h) => fdot(fl(c), u) + h as f64 * (u[0].abs() + u[1].abs() + u[2].abs()),
            Prism(b, h) => {
                let n = fl(normal(&b));
                let n = n.map(|x| x / flen(n) * h as f64);
                b.iter().map(|q| fdot(fl(*q), u)).fold(-INF, f64::max) + fdot(n, u).max(0.0)
            }
            _ => unreachable!(),
        };
        l.check((fdot(p, u) - best).abs() <= tol, || format!("{:?} in direction {:?}{}: {:?} reaches {} instead of {}", s, v, t.show(), p, fdot(p, u), best));
        l.check(s.distance(p) <= tol, || format!("{:?} in direction {:?}{}: {:?} is not on the shape", s, v, t.show(), p));
    });
}

// ------------------------------------------------------------------------------------- C31

fn c31(ctx: &mut Ctx) {
    ctx.assume("unit vectors and the prism's height vector are compared within 4 rounding errors, all other numbers exactly");
    let tf = places(ctx);
    let nt = tf.len();
    let g = grid(-ctx.by(3, 4), 3);
    let n = g.len();
    let mut dirs = grid(-2, 2);
    dirs.extend([[3, 4, 0], [-1, 1000, 2], [6, -2, 3]]);
    // almost of unit length when given with a factor of 2^-10
    dirs.extend([[1025, 0, 0], [0, -1023, 0], [0, 1, 1024], [615, 0, 820], [600, -800, 241]]);
    dirs.extend([[16385, 16383, 8191], [16383, 8191, 16385], [-8193, -16385, 16383], [16385, 8193, -16383], [8191, -16385, 16383], [-16383, 16385, -8191], [866, 501, 0], [501, 0, -866], [0, -866, 499], [-499, 866, 0], [0, 501, 866], [866, 0, 501]]);
    dirs.extend(WIDE.map(|x| [x, 0, 0]));
    dirs.extend([[1 << 24, 1, 0], [-1, 1 << 24, 3], [2, 0, -(1 << 25)], [1 << 26, -1, 1]]);
    let nd = dirs.len();
    let near3 = |got: &[f64], w: F3, tol: f64| (0..3).all(|i| (got[i] - w[i]).abs() <= tol);
    ctx.space("positions-directions", &format!("{} positions x {} directions or second points x 6 kinds x {} placements", n, nd, nt), (n * nd * 6 * nt) as u64, |i, l| {
        let mut d = Dec(i);
        let t = tf[d.take(nt)];
        let (p, v) = (g[d.take(n)], dirs[d.take(nd)]);
        let k = d.take(6);
        let s = [Point(p), Ray(p, v), Plane(p, v), Sphere(p, v[0]), Cube(p, v[0]), Segment(p, v)][k];
        let extra = match k {
            0 => !zero(v),
            3 | 4 => v[1] != 0 || v[2] != 0,
            _ => false,
        };
        if !s.valid() || extra {
            l.skip();
            return;
        }
        l.describe(|| format!("{:?}{}", s, t.show()));
        let b = s.build(&t);
        let got = api!(l, b.get_shape_data());
        let wp = t.p(p);
        let f = v[0] as f64 * t.k();
        let u = fl(v).map(|x| x / len(v));
        let tol = 4.0 * f64::EPSILON;
        let ok = match k {
            0 => got == wp.to_vec() && matches!(b.get_type(), ShapeType::Point),
            1 => got.len() == 6 && got[..3] == wp && near3(&got[3..], u, tol) && matches!(b.get_type(), ShapeType::Ray),
            2 => got.len() == 6 && got[..3] == wp && near3(&got[3..], u, tol) && matches!(b.get_type(), ShapeType::Plane),
            3 => got.len() == 4 && got[..3] == wp && got[3] == f && matches!(b.get_type(), ShapeType::Sphere),
            4 => got.len() == 4 && got[..3] == wp && got[3] == f && matches!(b.get_type(), ShapeType::Box),
            _ => got.len() == 6 && got[..3] == wp && got[3..] == t.p(v) && matches!(b.get_type(), ShapeType::Line),
        };
        l.check(ok, || format!("{:?}{} reports {:?}", s, t.show(), got));
    });
    let mut bs = bases(&ctx.by(grid(-2, 2), grid(-2, 3)));
    // with edges whose product is almost one when scaled
    bs.extend([[[0, 0, 0], [33, 0, 0], [0, 31, 0]], [[1, 0, 0], [1, 65, 0], [1, 0, 63]], [[0, 0, 0], [9, 0, 1], [0, 7, 0]], [[0, 0, 0], [8, 0, 0], [0, 8, 1]]]);
    let mut tf = tf;
    tf.extend([Tf { s: -5, ..ID }, Tf { s: -3, ..ID }]);
    let tf = alph(tf);
    let nt = tf.len();
    let nb = bs.len();
    ctx.space("prisms", &format!("{} bases x heights 1..=4 x {} placements", nb, nt), (nb * 4 * nt) as u64, |i, l| {
        let mut d = Dec(i);
        let t = tf[d.take(nt)];
        let b = bs[d.take(nb)];
        let h = 1 + d.take(4) as i64;
        let s = Prism(b, h);
        l.describe(|| format!("{:?}{}", s, t.show()));
        let v: Vec<f64> = b.iter().flat_map(|x| t.p(*x)).collect();
        let hw = h as f64 * t.k();
        let pr = api!(l, mazth::triprism::TriPrism::init(&v, hw));
        let got = pr.get_shape_data();
        let nn = fl(normal(&b));
        let w = nn.map(|x| x / flen(nn) * hw);
        l.check(got.len() == 12 && got[..9] == v[..], || format!("{:?}{} reports {:?}", s, t.show(), got));
        l.check(got.len() == 12 && near3(&got[9..], w, 4.0 * f64::EPSILON * hw), || format!("{:?}{} reports the height vector {:?} instead of {:?}", s, t.show(), &got[9..], w));
        l.check(matches!(pr.get_type(), ShapeType::TriPrism), || "the kind is wrong".into());
        for k in 0..3 {
            let (lo, hi) = (pr._tri_base[k]._val, pr._tri_base2[k]._val);
            let m = flen(fl(b[k])) + t.mag() + h as f64;
            l.check(lo == t.p(b[k]) && near3(&hi, [0, 1, 2].map(|j| lo[j] + w[j]), 8.0 * f64::EPSILON * m * t.k()), || format!("{:?}{}: corner {} is {:?} below and {:?} above", s, t.show(), k, lo, hi));
        }
    });
    // copies
    let p = pool(true);
    let n = p.len();
    let tf = places(ctx);
    let nt = tf.len();
    let tols = [None, Some(0.0), Some(0.125), Some(-64.0)];
    ctx.space("copies", &format!("copies of {} shapes of all kinds x {} tolerances x {} placements, and of their bounds: they report, support and answer as the original, and go their own way from there", n, tols.len(), nt), (n * tols.len() * nt) as u64, |i, l| {
        let mut d = Dec(i);
        let t = tf[d.take(nt)];
        let e: Option<f64> = d.pick(&tols);
        let j = d.0 as usize;
        let s = p[j];
        l.describe(|| format!("a copy of {:?}{}, tolerance {:?}", s, t.show(), e));
        let mut a = real_of(&s, &t);
        if let Some(e) = e {
            a.mu().set_vicinity(e * t.k());
        }
        let mut b = a.clone();
        l.calls += 1;
        l.check(same_kind(a.dy(), b.dy()), || "the copy has another kind".into());
        let (x, y) = (still(a.dy()), still(b.dy()));
        l.check(x == y, || format!("data, bound or support of a copy of {:?}{} differ", s, t.show()));
        l.check(tol_field(&a).to_bits() == tol_field(&b).to_bits(), || "the copy has another tolerance".into());
        for k in [0, 1, 2, 3, n / 2, n - 1] {
            let o = &p[(j + k) % n];
            if verdict(&s, o, &t).is_none() {
                continue;
            }
            let o = o.build(&t);
            let (g, h) = (api!(l, ask(a.dy(), &*o)), api!(l, ask(b.dy(), &*o)));
            l.check(g.hit == h.hit && g.loc.map(|x| bits(&x)) == h.loc.map(|x| bits(&x)), || format!("the copy answers {:?}, the original {:?}", h, g));
            let (g, h) = (api!(l, ask(&*o, a.dy())), api!(l, ask(&*o, b.dy())));
            l.check(g.hit == h.hit && g.loc.map(|x| bits(&x)) == h.loc.map(|x| bits(&x)), || format!("asked about the copy: {:?}, about the original: {:?}", h, g));
        }
        // what happens to one does not happen to the other
        let was = tol_field(&b).to_bits();
        a.mu().set_vicinity(3.0);
        l.check(tol_field(&b).to_bits() == was && still(b.dy()) == y, || "the copy changed with the original".into());
        b.mu().set_vicinity(5.0);
        l.check(tol_field(&a) == 3.0 && still(a.dy()) == x, || "the original changed with the copy".into());
        // boxes
        let bd = a.dy().get_bound().get_bound_data();
        let u = aabb([bd[0], bd[1], bd[2]], [bd[3], bd[4], bd[5]]);
        let mut v = u.clone();
        l.calls += 1;
        l.check(bits(&v.get_bound_data()) == bits(&u.get_bound_data()), || format!("the copy of the box {:?} is {:?}", &bd[..6], &v.get_bound_data()[..6]));
        v.get_union(&[&aabb([-1.0; 3], [1.0; 3])]);
        l.check(bits(&u.get_bound_data()) == bits(&bd), || "a box changed with its copy".into());
    });
}

fn same_kind(a: &dyn IShape, b: &dyn IShape) -> bool {
    std::mem::discriminant(&a.get_type()) == std::mem::discriminant(&b.get_type())
}
fn real_of(s: &G, t: &Tf) -> Real {
    let k = t.k();
    match *s {
        Point(p) => Real::P(mazth::point::Point3::init(&t.p(p))),
        Ray(o, d) => Real::R(mazth::ray::Ray3::init(&t.p(o), &t.d(d))),
        Plane(o, n) => Real::L(mazth::plane::Plane::init(&t.p(o), &t.d(n))),
        Sphere(c, r) => Real::S(mazth::sphere::Sphere::init(&t.p(c), r as f64 * k)),
        Cube(c, h) => Real::B(mazth::rbox::RecBox::init(&t.p(c), h as f64 * k)),
        Prism(b, h) => {
            let v: Vec<f64> = b.iter().flat_map(|p| t.p(*p)).collect();
            Real::T(mazth::triprism::TriPrism::init(&v, h as f64 * k))
        }
        Segment(a, b) => Real::N(mazth::line::Line3::init(&t.p(a), &t.p(b))),
    }
}

// ------------------------------------------------------------------------------------- C33

fn c33(ctx: &mut Ctx) {
    ctx.assume("pairs are judged when a lattice point lies inside both (on the one and inside the other, if one has no inside), or when one of 62 lattice directions separates them by a quarter of a unit; others are left open");
    let p = pool(true);
    let n = p.len();
    let offs = alph(ctx.by(grid(-1, 1), grid(-3, 3)).into_iter().map(|x| [3 * x[0], 2 * x[1], x[2]]).collect());
    let tf = alph(vec![ID, Tf { s: -6, mv: [5, 0, -1], dk: 40 }, Tf { s: 10, mv: [-3, 77, 1000], dk: -30 }]);
    let (no, nt) = (offs.len(), tf.len());
    let dirs = primitive(grid(-2, 2));
    let cand = grid(-6, 6);
    let solid = |x: &G| matches!(x, Sphere(..) | Cube(..) | Prism(..));
    let plane = |x: &G| matches!(x, Plane(..));
    // what exact geometry says of a pair
    let truth = |a: &G, b: &G| {
        if separated(a, b, &dirs) {
            return Some(false);
        }
        let room = solid(a) || solid(b) || plane(a) && plane(b);
        if room && cand.iter().any(|c| member(a, *c) && member(b, *c)) {
            return Some(true);
        }
        None
    };
    let truths: Vec<Vec<Option<bool>>> = (0..n * n).map(|k| offs.iter().map(|o| truth(&p[k / n], &shift(&p[k % n], *o))).collect()).collect();
    let word = |x: Option<bool>| match x {
        Some(true) => "have a point in common",
        Some(false) => "are apart",
        None => "undecided",
    };
    ctx.space("pairs", &format!("every pair of {} shapes of all kinds, supported or not, at {} offsets x {} placements: refused or answered right", n, no, nt), (n * n * no * nt) as u64, |i, l| {
        let mut d = Dec(i);
        let t = tf[d.take(nt)];
        let ko = d.take(no);
        let k = d.take(n * n);
        let (a, b) = (p[k / n], shift(&p[k % n], offs[ko]));
        let w = truths[k][ko];
        if let (Ray(_, u), Plane(_, m)) | (Plane(_, m), Ray(_, u)) = (&a, &b) {
            // planes have a front side for rays
            if dot(*u, *m) >= 0 {
                l.skip();
                return;
            }
        }
        l.describe(|| format!("{:?} and {:?}{}: {}", a, b, t.show(), word(w)));
        l.outcome(word(w));
        let (x, y) = (a.build(&t), b.build(&t));
        for (s, o, r) in [(&x, &y, "asked of the first"), (&y, &x, "asked of the second")] {
            l.calls += 1;
            let g = may_panic(|| ask(&**s, &**o));
            match (g, w) {
                (Err(_), _) => l.outcome("refused"),
                (Ok(g), Some(w)) => {
                    l.check(g.hit == w, || format!("{:?} and {:?}{} {}, but the answer is {} ({})", a, b, t.show(), word(Some(w)), g.hit, r));
                    l.check(g.hit || g.loc.is_none(), || format!("{:?} and {:?}{}: no, but a location ({})", a, b, t.show(), r));
                }
                _ => l.soft(),
            }
        }
    });
    // the general overlap test
    ctx.space("overlap", &format!("the general overlap test of every pair of {} shapes of all kinds at {} offsets", n, no), (n * n * no) as u64, |i, l| {
        let mut d = Dec(i);
        let ko = d.take(no);
        let k = d.take(n * n);
        let (a, b) = (p[k / n], shift(&p[k % n], offs[ko]));
        let w = truths[k][ko];
        l.describe(|| format!("overlap test of {:?} and {:?}: {}", a, b, word(w)));
        let (x, y) = (a.build(&ID), b.build(&ID));
        let cnt = Cell::new(0);
        let (x, y) = (Counted { s: &*x, n: &cnt }, Counted { s: &*y, n: &cnt });
        l.calls += 1;
        match (may_panic(|| query_intersect(&x, &y)), w) {
            (Err(_), _) if cnt.get() > SUPPORTS => {
                l.fail(format!("overlap test of {:?} and {:?}: no end after {} support points", a, b, SUPPORTS));
            }
            (Err(_), _) | (Ok(None), _) => l.outcome("refused"),
            (Ok(Some(g)), Some(w)) => {
                l.check(g == w, || format!("{:?} and {:?} {}, but the overlap test says {}", a, b, word(Some(w)), g));
            }
            _ => l.soft(),
        }
    });
    // support points of whatever kind
    let ds = alph(nonzero(grid(-2, 2)));
    let nd = ds.len();
    ctx.space("support", &format!("support points of {} shapes of all kinds in {} directions: refused, none, or right", n, nd), (n * nd) as u64, |i, l| {
        let mut d = Dec(i);
        let v = ds[d.take(nd)];
        let a = p[d.take(n)];
        l.describe(|| format!("support point of {:?} in {:?}", a, v));
        let x = a.build(&ID);
        l.calls += 1;
        match may_panic(|| x.get_support(&Mat3x1 { _val: fl(v) })) {
            Err(_) | Ok(None) => l.outcome("refused or none"),
            Ok(Some(m)) => {
                let (g, (_, hi)) = (fdot(m._val, fl(v)), extent(&a, v));
                l.check((g - hi).abs() <= 1e-12 * (1.0 + hi.abs()), || format!("support point {:?} of {:?} in {:?} lies at {} instead of {}", m._val, a, v, g, hi));
            }
        }
    });
    // separation of boxes, boxes of kinds that have none, spheres as bounds
    let bx = alph(ctx.by(grid(-2, 2), grid(-4, 4)));
    let nb = bx.len();
    let hs = [[1.0, 1.0, 1.0], [0.5, 2.0, 0.0], [3.0, 0.25, 1.0]];
    ctx.space("bounds", &format!("separation of boxes at {} places x 9 sizes: refused or right; boxes of unbounded or unknown kinds and bounding spheres refused", nb), (nb * 9) as u64, |i, l| {
        use mazth::bound::AxisAlignedBBox;
        use mazth::i_bound::IBound;
        let mut d = Dec(i);
        let (ha, hb) = (hs[d.take(3)], hs[d.take(3)]);
        let c = fl(bx[d.take(nb)]);
        let mk = |c: F3, h: F3| AxisAlignedBBox::init(ShapeType::Rect, &[c[0] - h[0], c[1] - h[1], c[2] - h[2], c[0] + h[0], c[1] + h[1], c[2] + h[2]]);
        let (x, y) = (mk([0.0; 3], ha), mk(c, hb));
        l.describe(|| format!("boxes of half edges {:?} at 0 and {:?} at {:?}", ha, hb, c));
        l.calls += 1;
        let gap = [0, 1, 2].map(|k| f64::max(0.0, c[k].abs() - ha[k] - hb[k]));
        let w = flen(gap);
        match may_panic(|| x.get_shortest_separation(&y)) {
            Err(_) => l.outcome("refused"),
            Ok(g) => {
                l.check((g - w).abs() <= 1e-12, || format!("separation of boxes of half edges {:?} at 0 and {:?} at {:?}: {} instead of {}", ha, hb, c, g, w));
            }
        }
    });
}

// ------------------------------------------------------------------------------------- C34

/// the same shape on a lattice 64 times finer
fn fine(g: &G) -> G {
    let m = |p: I3| p.map(|x| 64 * x);
    match *g {
        Point(p) => Point(m(p)),
        Ray(p, d) => Ray(m(p), d),
        Plane(p, d) => Plane(m(p), d),
        Sphere(p, r) => Sphere(m(p), 64 * r),
        Cube(p, r) => Cube(m(p), 64 * r),
        Prism(b, h) => Prism(b.map(m), 64 * h),
        Segment(a, b) => Segment(m(a), m(b)),
    }
}
/// one that contains the former, the more so the larger k is
fn grown(g: &G, k: i64) -> Option<G> {
    Some(match *g {
        Ray(p, d) => Ray(sub(p, d.map(|x| x * k)), d),
        Sphere(p, r) => Sphere(p, r + k),
        Cube(p, r) => Cube(p, r + k),
        Prism(b, h) => Prism(b, h + k),
        Segment(a, b) if !zero(sub(b, a)) => {
            let d = sub(b, a).map(|x| x / 64);
            Segment(sub(a, d.map(|x| x * k)), add(b, d.map(|x| x * (k / 2))))
        }
        _ => return None,
    })
}
/// asks along a path of scenes; the verdicts that exact geometry decides, in order
fn path(l: &mut Local, scenes: impl Iterator<Item = (G, G)>, t: &Tf) -> Option<Vec<bool>> {
    let mut r = vec![];
    for (a, b) in scenes {
        let v = verdict(&a, &b, t)?;
        let (x, y) = (a.build(t), b.build(t));
        for (s, o, ga, gb) in [(&x, &y, &a, &b), (&y, &x, &b, &a)] {
            let g = api!(l, ask(&**s, &**o));
            let j = judge(ga, gb, t, &g, v);
            if let Some(m) = j.wrong {
                l.fail(format!("{:?} with {:?}{}: {}", ga, gb, t.show(), m));
                return None;
            }
            if matches!(v, V::Hit | V::Miss) {
                r.push(g.hit)
            }
        }
    }
    Some(r)
}
fn c34(ctx: &mut Ctx) {
    ctx.assume(OPEN);
    let p = pool(ctx.deep());
    let n = p.len();
    let offs = alph(ctx.by([grid(-1, 1), vec![[-2, 3, 1], [0, 2, -4]]].concat(), grid(-2, 2)));
    let dirs = alph(vec![[5, 0, 0], [0, 5, 0], [0, 0, 5], [4, -8, 12], [-11, 7, 2], [3, 1, -16], [9, 9, 0], [1, 1, 1], [0, -13, 6]]);
    let tf = alph(vec![Tf { s: -6, mv: [0, 0, 0], dk: 0 }, Tf { s: -17, mv: [321, 0, -64], dk: 10 }, Tf { s: 4, mv: [-3, 7777, 100000], dk: -12 }]);
    let (no, nd, nt) = (offs.len(), dirs.len(), tf.len());
    let steps = ctx.by(150i64, 400);
    ctx.space("motion", &format!("every pair of {} shapes at {} offsets x {} placements, the second moving along {} directions in {} steps of 1/64 to 1/4: each verdict right, the meeting times one interval", n, no, nt, nd, 2 * steps + 1), (n * n * no * nd * nt) as u64, |i, l| {
        let mut d = Dec(i);
        let t = tf[d.take(nt)];
        let u = dirs[d.take(nd)];
        let o = offs[d.take(no)];
        let (a, b) = (fine(&p[d.take(n)]), fine(&shift(&p[d.take(n)], o)));
        if verdict(&a, &b, &t).is_none() {
            l.skip();
            return;
        }
        l.describe(|| format!("{:?} with {:?} moving by {:?} a step{}", a, b, u, t.show()));
        let Some(r) = path(l, (-steps..=steps).map(|k| (a, shift(&b, u.map(|x| x * k)))), &t) else { return };
        let turns = r.windows(2).filter(|w| w[0] != w[1]).count();
        let once = turns <= 1 || turns == 2 && !r[0];
        l.check(once, || format!("{:?} with {:?} moving by {:?} a step{}: they meet, part and meet again", a, b, u, t.show()));
    });
    let steps = ctx.by(256i64, 768);
    ctx.space("growth", &format!("every pair of {} shapes at {} offsets x {} placements, the first growing in {} steps: each verdict right, and once they meet they keep meeting", n, no, nt, steps), (n * n * no * nt) as u64, |i, l| {
        let mut d = Dec(i);
        let t = tf[d.take(nt)];
        let o = offs[d.take(no)];
        let (a, b) = (fine(&p[d.take(n)]), fine(&shift(&p[d.take(n)], o)));
        if verdict(&a, &b, &t).is_none() || grown(&a, 1).is_none() {
            l.skip();
            return;
        }
        l.describe(|| format!("{:?} growing, with {:?}{}", a, b, t.show()));
        let Some(r) = path(l, (0..steps).map(|k| (grown(&a, k).unwrap(), b)), &t) else { return };
        l.check(r.windows(2).all(|w| !w[0] || w[1]), || format!("{:?} growing, with {:?}{}: they meet, then a larger one does not", a, b, t.show()));
    });
    ctx.space("growth-far", &format!("every pair of {} shapes at {} offsets x {} placements, the first growing by 1/64 and then by half again, to 400 times its size and more", n, no, nt), (n * n * no * nt) as u64, |i, l| {
        let mut d = Dec(i);
        let t = tf[d.take(nt)];
        let o = offs[d.take(no)];
        let (a, b) = (fine(&p[d.take(n)]), fine(&shift(&p[d.take(n)], o)));
        if verdict(&a, &b, &t).is_none() || grown(&a, 1).is_none() {
            l.skip();
            return;
        }
        l.describe(|| format!("{:?} growing, with {:?}{}", a, b, t.show()));
        let mut k = 0i64;
        let ks = std::iter::from_fn(|| {
            let r = k;
            k += k / 2 + 1;
            Some(r).filter(|r| *r < 30000)
        });
        let Some(r) = path(l, ks.map(|k| (grown(&a, k).unwrap(), b)), &t) else { return };
        l.check(r.windows(2).all(|w| !w[0] || w[1]), || format!("{:?} growing, with {:?}{}: they meet, then a larger one does not", a, b, t.show()));
    });
}

// ------------------------------------------------------------------------------------- C37

/// a point well inside of a solid, on the lattice of the scene
fn inner(g: &G) -> Option<F3> {
    Some(match *g {
        Sphere(c, _) | Cube(c, _) => fl(c),
        Prism(b, h) => {
            let n = fl(normal(&b));
            let k = h as f64 / 2.0 / flen(n);
            [0, 1, 2].map(|i| (b[0][i] + b[1][i] + b[2][i]) as f64 / 3.0 + n[i] * k)
        }
        _ => return None,
    })
}
fn world(t: &Tf, p: F3) -> F3 {
    let k = t.k();
    [0, 1, 2].map(|i| (p[i] + t.mv[i] as f64) * k)
}
fn toward(p: F3, q: F3, f: f64) -> F3 {
    [0, 1, 2].map(|i| p[i] + (q[i] - p[i]) * f)
}
fn c37(ctx: &mut Ctx) {
    ctx.assume("contacts that floating point cannot represent are asked about a little inside of the solid, by a hundred-thousandth of its size (more where the library's tolerance of 1e-6 is more)");
    ctx.assume("planes are looked at from their front side, as the library defines it");
    let p = pool(true);
    let tf = places(ctx);
    let (n, nt) = (p.len(), tf.len());
    // one shape: support points, bound, points and rays
    let shapes: Vec<G> = {
        let mut v: Vec<G> = p.iter().cloned().filter(|g| inner(g).is_some()).collect();
        for r in WIDE {
            v.push(Sphere([1, 0, -2], r));
            v.push(Cube([0, -1, 1], r));
        }
        for b in bases(&ctx.by(vec![[0, 0, 0], [2, 0, 1], [-1, 2, 0], [0, 1, -2], [3, 1, 1], [0, 0, 4], [-2, -2, -1], [1, 0, 0]], grid(-1, 1))) {
            v.push(Prism(b, 2));
        }
        alph(v)
    };
    let ds = alph(primitive(nonzero(ctx.by(grid(-3, 3), grid(-5, 5)))));
    let (ns, nd) = (shapes.len(), ds.len());
    ctx.space("self", &format!("{} solids x {} directions x {} placements: support point against bound, point queries, rays and segments", ns, nd, nt), (ns * nd * nt) as u64, |i, l| {
        let mut d = Dec(i);
        let t = tf[d.take(nt)];
        let u = ds[d.take(nd)];
        let g = shapes[d.take(ns)];
        if !g.valid() {
            l.skip();
            return;
        }
        l.describe(|| format!("{:?} in direction {:?}{}", g, u, t.show()));
        let s = g.build(&t);
        let k = t.k();
        let m = 1.0 + g.mag() + t.mag();
        let Some(w) = api!(l, s.get_support(&Mat3x1 { _val: fl(u) })).map(|m| m._val) else {
            l.fail(format!("{:?} in direction {:?}{}: no support point", g, u, t.show()));
            return;
        };
        let (b, _) = bound_of(&*s);
        let e = 1e-12 * m * k;
        for a in 0..3 {
            l.check(b[a] - e <= w[a] && w[a] <= b[a + 3] + e, || format!("support point {:?} of {:?}{} lies outside of its bound {:?}", w, g, t.show(), b));
            if u[(a + 1) % 3] == 0 && u[(a + 2) % 3] == 0 {
                let f = if u[a] > 0 { b[a + 3] } else { b[a] };
                l.check((w[a] - f).abs() <= e, || format!("support point {:?} of {:?}{} along axis {} is not on the face {} of the bound", w, g, t.show(), a, f));
            }
        }
        let c = inner(&g).unwrap();
        let q = t.back(w);
        let size = flen(fsub(q, c));
        let dir = fl(u).map(|x| x / len(u));
        let tiny = 1e-5f64.max(1e-9 * m / size.max(1.0));
        let (i1, o1) = (toward(q, c, tiny), [0, 1, 2].map(|j| q[j] + dir[j] * tiny * size));
        let pt = |p: F3| mazth::point::Point3::init(&world(&t, p));
        for (p, w, what) in [(i1, true, "a little inside"), (o1, false, "a little beyond")] {
            let x = pt(p);
            let (g1, g2) = (api!(l, ask(&*s, &x)), api!(l, ask(&x, &*s)));
            l.check(g1.hit == w && g2.hit == w, || format!("{:?}{}: the point {} its support point in {:?}: {}/{} instead of {}", g, t.show(), what, u, g1.hit, g2.hit, w));
        }
        // looked at along the direction, from outside and from within
        let far = [0, 1, 2].map(|j| q[j] + dir[j] * (3.0 + size));
        match g {
            Sphere(_, r) => {
                let ray = |o: F3, d: F3| mazth::ray::Ray3::init(&world(&t, o), &d);
                for (o, d, wl, what) in [(far, dir.map(|x| -x), q, "from outside"), (c, dir, q, "from the centre"), (far, dir.map(|x| -x), q, "from outside")] {
                    let a = api!(l, ask(&*s, &ray(o, d)));
                    let tol = 1e-11 * (m + r as f64);
                    l.check(a.loc.map(|x| flen(fsub(t.back(x), wl)) <= tol) == Some(true), || format!("{:?}{} looked at {} along {:?}: {:?} instead of the support point {:?}", g, t.show(), what, u, a, w));
                }
                let a = api!(l, ask(&*s, &ray(far, dir)));
                l.check(!a.hit, || format!("{:?}{} is seen looking away from it: {:?}", g, t.show(), a));
                // a plane at the support point, a little nearer and a little farther
                for (o, w) in [(i1, true), (o1, false)] {
                    let pl = mazth::plane::Plane::init(&world(&t, o), &dir);
                    let a = api!(l, ask(&*s, &pl));
                    l.check(a.hit == w, || format!("{:?}{} and the plane at {:?} across {:?}: {} instead of {}", g, t.show(), o, u, a.hit, w));
                }
            }
            Prism(..) => {
                let seg = |a: F3, b: F3| mazth::line::Line3::init(&world(&t, a), &world(&t, b));
                // the library's tolerance, and segments it can tell from points
                let slack = 4e-6 / k;
                let off = 1e-3f64.max(30.0 * slack / size);
                if off < 0.3 {
                    let out = [0, 1, 2].map(|j| q[j] + dir[j] * off * size);
                    for (a, b, w) in [(far, toward(q, c, off), true), (toward(q, c, off), far, true), (far, out, false), (out, far, false), (c, far, true)] {
                        let r = api!(l, ask(&*s, &seg(a, b)));
                        l.check(r.hit == w, || format!("{:?}{} and the segment from {:?} to {:?} past its support point: {} instead of {}", g, t.show(), a, b, r.hit, w));
                    }
                }
            }
            _ => {}
        }
    });
    // two shapes: where they meet is found again
    let offs = alph(ctx.by(grid(-3, 3), grid(-6, 6)));
    let no = offs.len();
    let eyes: Vec<F3> = vec![[40.0, 3.0, -7.0], [-6.0, 31.0, 12.0], [-9.0, -8.0, 29.0], [2.0, -35.0, 1.5]];
    ctx.space("meeting", &format!("every pair of {} shapes at {} offsets x {} placements: the reported location against both bounds and their union, as a point, and looked at from {} places", n, no, nt, eyes.len()), (n * n * no * nt) as u64, |i, l| {
        let mut d = Dec(i);
        let t = tf[d.take(nt)];
        let o = offs[d.take(no)];
        let (a, b) = (p[d.take(n)], shift(&p[d.take(n)], o));
        if verdict(&a, &b, &t).is_none() {
            l.skip();
            return;
        }
        l.describe(|| format!("{:?} and {:?}{}", a, b, t.show()));
        let (mut x, mut y) = (a.build(&t), b.build(&t));
        let r = api!(l, ask(&*x, &*y));
        let near = api!(l, x.get_bound().intersect(y.get_bound()));
        // bounds within the library's own tolerance of each other are as good as meeting where it decides
        let (b1, b2) = (bound_of(&*x).0, bound_of(&*y).0);
        let gap = (0..3).map(|j| (b1[j] - b2[j + 3]).max(b2[j] - b1[j + 3])).fold(f64::MIN, f64::max);
        l.check(near || !r.hit || gap <= 8e-6, || format!("{:?} and {:?}{} meet, but their bounds do not", a, b, t.show()));
        l.check(r.hit == r.loc.is_some(), || format!("{:?} and {:?}{}: {:?}", a, b, t.show(), r));
        let Some(w) = r.loc else {
            l.outcome("apart");
            return;
        };
        l.outcome("meet");
        let k = t.k();
        let m = 1.0 + a.mag().max(b.mag()) + t.mag();
        // the library's own tolerance where it decides the contact, and rounding
        let e = 1e-9 * m * k + if matches!((a, b), (Sphere(..) | Plane(..), Sphere(..)) | (Sphere(..), Plane(..))) { 0.0 } else { 8e-6 };
        let mut u = AxisAlignedBBox::default();
        api!(l, u.get_union(&[x.get_bound(), y.get_bound()]));
        for (bd, what) in [(bound_of(&*x).0, "the first bound"), (bound_of(&*y).0, "the second bound")] {
            let ok = (0..3).all(|j| bd[j] - e <= w[j] && w[j] <= bd[j + 3] + e);
            l.check(ok, || format!("{:?} and {:?}{} meet at {:?}, outside of {} {:?}", a, b, t.show(), w, what, bd));
        }
        let ub = u.get_bound_data();
        l.check((0..3).all(|j| ub[j] - e <= w[j] && w[j] <= ub[j + 3] + e), || format!("{:?} and {:?}{} meet at {:?}, outside of the union of their bounds {:?}", a, b, t.show(), w, u));
        // shapes small enough to lie within the tolerance of each other: nothing to aim at
        if e / k > 0.2 {
            return;
        }
        let q = t.back(w);
        for (s, g) in [(&mut x, &a), (&mut y, &b)] {
            let at = match inner(g) {
                Some(c) => {
                    let off = 1e-5 + 100.0 * e / k;
                    if off > 0.2 {
                        continue;
                    }
                    toward(q, c, off)
                }
                None => {
                    s.set_vicinity(e);
                    q
                }
            };
            let pt = mazth::point::Point3::init(&world(&t, at));
            match g {
                Segment(..) => continue,
                Point(..) => {
                    let h = api!(l, ask(&**s, &pt)).hit;
                    l.check(h, || format!("{:?} and {:?}{} meet at {:?}, which is not the point {:?}", a, b, t.show(), w, g));
                }
                _ => {
                    // the start of a ray and the bound of an axis-aligned one are not subject to the tolerance
                    if let Ray(o, u) = g {
                        let s = fdot(fsub(q, fl(*o)), fl(*u)) / len(*u);
                        if s < e / k || u.contains(&0) {
                            continue;
                        }
                    }
                    let (h, h2) = (api!(l, ask(&**s, &pt)).hit, api!(l, ask(&pt, &**s)).hit);
                    l.check(h && h2, || format!("{:?} and {:?}{} meet at {:?}; asked there, {:?} says {} (and the point {})", a, b, t.show(), w, g, h, h2));
                }
            }
            // looked at from elsewhere
            for o in &eyes {
                let dir = fsub(at, *o);
                let dist = flen(dir);
                let look = |l: &mut Local| {
                    let ray = mazth::ray::Ray3::init(&world(&t, *o), &dir);
                    let r = api!(l, ask(&ray, &**s));
                    r.loc.map(|x| t.back(x))
                };
                match g {
                    Sphere(c, rr) => {
                        if flen(fsub(*o, fl(*c))) <= *rr as f64 + 1.0 {
                            continue;
                        }
                        let r = look(l);
                        let ok = r.map(|x| flen(fsub(x, *o)) <= dist * (1.0 + 1e-9) + e / k && (flen(fsub(x, fl(*c))) - *rr as f64).abs() <= 1e-7 * m);
                        l.check(ok == Some(true), || format!("{:?} and {:?}{} meet at {:?}; looked at from {:?}, the sphere is hit at {:?}", a, b, t.show(), q, o, r));
                    }
                    Plane(c, nn) => {
                        let h = fdot(fsub(*o, fl(*c)), fl(*nn)) / len(*nn);
                        if h < 1.0 {
                            continue;
                        }
                        let r = look(l);
                        let tol = (e / k + 1e-9 * m) * (1.0 + dist / h);
                        let ok = r.map(|x| flen(fsub(x, at)) <= tol);
                        l.check(ok == Some(true), || format!("{:?} and {:?}{} meet at {:?}; looked at from {:?}, the plane is hit at {:?}", a, b, t.show(), q, o, r));
                    }
                    Prism(..) => {
                        let seg = mazth::line::Line3::init(&world(&t, *o), &world(&t, at));
                        let r = api!(l, ask(&seg, &**s));
                        l.check(r.hit, || format!("{:?} and {:?}{} meet at {:?}; the segment there from {:?} does not meet the prism", a, b, t.show(), q, o));
                    }
                    _ => {}
                }
            }
        }
    });
}

// ------------------------------------------------------------------------------------- C39

#[derive(Clone, Copy, Debug)]
enum Mirror {
    /// point, normal into the room
    Wall(F3, F3),
    Ball(F3, f64),
}
/// Where the ray meets the mirror: at which length, or not; None if rounding may decide.
fn sight(mi: &Mirror, p: F3, d: F3) -> Option<Option<f64>> {
    match *mi {
        Mirror::Wall(o, n) => {
            let n = n.map(|x| x / flen(n));
            let (h, c) = (fdot(fsub(p, o), n), fdot(d, n));
            if h.abs() < 1e-3 || c.abs() < 1e-3 {
                return None;
            }
            Some(if h > 0.0 && c < 0.0 { Some(-h / c) } else { None })
        }
        Mirror::Ball(o, r) => {
            let w = fsub(p, o);
            let (b, c) = (fdot(w, d), fdot(w, w) - r * r);
            let disc = b * b - c;
            if c.abs() < 1e-3 || disc.abs() < 1e-3 {
                return None;
            }
            Some(if disc < 0.0 || c > 0.0 && b > 0.0 {
                None
            } else if c > 0.0 {
                Some(c / (-b + disc.sqrt()))
            } else {
                Some(-b + disc.sqrt())
            })
        }
    }
}
fn c39(ctx: &mut Ctx) {
    use mazth::quat::Quat;
    ctx.assume("a path is followed until rounding could decide its next mirror, or the position is known to no better than a hundred-thousandth; the mirror that a ray leaves is not asked");
    let wall = |o: [f64; 3], n: [f64; 3]| Mirror::Wall(o, n);
    let cube = |h: f64| -> Vec<Mirror> {
        let mut v = vec![];
        for a in 0..3 {
            for s in [1.0, -1.0] {
                let (mut o, mut n) = ([1.0, -2.0, 0.5], [0.0; 3]);
                o[a] = -s * h;
                n[a] = s * [1.0, 0.25, 5.0][a];
                v.push(wall(o, n));
            }
        }
        v
    };
    let tetra = [[1.0, 1.0, 1.0], [1.0, -1.0, -1.0], [-1.0, 1.0, -1.0], [-1.0, -1.0, 1.0]];
    let rooms: Vec<(Vec<Mirror>, Vec<G>)> = vec![
        (
            [cube(10.0), vec![Mirror::Ball([3.0, 2.0, -1.0], 2.0), Mirror::Ball([-5.0, -4.0, 2.0], 3.0)]].concat(),
            vec![Prism([[-6, 4, 0], [2, 6, 1], [-4, 9, 3]], 2), Prism([[0, 0, 5], [0, 4, 7], [5, -4, 8]], 1)],
        ),
        (
            [tetra.map(|n| wall(n.map(|x| -6.0 * x), n)).to_vec(), vec![Mirror::Ball([0.0, 0.0, 1.0], 2.0)]].concat(),
            vec![Prism([[3, -3, 0], [4, 0, 0], [3, -1, 4]], 1)],
        ),
        // open room: a corner and slanted walls
        (
            vec![
                wall([0.0, 0.0, -9.0], [0.0, 0.0, 3.0]),
                wall([-9.0, 0.0, 0.0], [2.0, 1.0, 0.0]),
                wall([9.0, 1.0, 0.0], [-3.0, 0.0, 1.0]),
                wall([0.0, 12.0, 0.0], [1.0, -2.0, -2.0]),
                wall([0.0, -12.0, 1.0], [0.0, 4.0, -1.0]),
                Mirror::Ball([0.0, 0.0, 6.0], 1.0),
                Mirror::Ball([4.0, -4.0, -3.0], 2.5),
            ],
            vec![Prism([[-3, 0, 0], [-3, 5, -5], [-6, 2, 2]], 3)],
        ),
        // inside of a sphere, another in it
        (vec![Mirror::Ball([1.0, 0.0, 0.0], 16.0), Mirror::Ball([0.0, -3.0, 2.0], 4.0)], vec![Prism([[5, 5, 5], [8, 5, 5], [5, 9, 4]], 3)]),
    ];
    let starts: Vec<F3> = {
        let mut v = vec![];
        for g in ctx.by(grid(-2, 2), grid(-3, 3)) {
            let f = ctx.by(1.5, 1.0);
            v.push([f * g[0] as f64 + 0.25, f * g[1] as f64 - 0.375, f * g[2] as f64 + 0.125]);
        }
        v
    };
    // and close to the balls of the room, beside their surfaces
    let close: Vec<(F3, f64)> = primitive(nonzero(grid(-1, 1))).into_iter().flat_map(|u| [0.99, 1.003, 1.0625].map(|f| (fl(u).map(|x| x / len(u)), f))).collect();
    let dirs = alph(primitive(nonzero(ctx.by(grid(-3, 3), grid(-5, 5)))));
    let tf = alph(vec![ID, Tf { s: -6, mv: [5, 0, -1], dk: 40 }, Tf { s: 10, mv: [-3, 77, 1000], dk: -30 }, Tf { s: 3, mv: [-4096, 2048, 1], dk: 1 }]);
    let (nr, ns, nd, nt) = (rooms.len(), starts.len() + close.len(), dirs.len(), tf.len());
    let most = ctx.by(24, 60);
    ctx.space("paths", &format!("{} rooms of plane and spherical mirrors x {} starts x {} directions x {} placements, up to {} bounces", nr, ns, nd, nt, most), (nr * ns * nd * nt) as u64, |i, l| {
        let mut dd = Dec(i);
        let t = tf[dd.take(nt)];
        let d0 = dirs[dd.take(nd)];
        let si = dd.take(ns);
        let room = dd.take(nr);
        let (mirrors, prisms) = &rooms[room];
        let start = if si < starts.len() {
            starts[si]
        } else {
            let (u, f) = close[si - starts.len()];
            match mirrors[mirrors.len() - 1] {
                Mirror::Ball(c, r) => [0, 1, 2].map(|i| c[i] + f * r * u[i]),
                _ => unreachable!(),
            }
        };
        l.describe(|| format!("room {} from {:?} towards {:?}{}", room, start, d0, t.show()));
        let k = t.k();
        let m = 20.0 + t.mag();
        let shapes: Vec<Box<dyn IShape>> = mirrors
            .iter()
            .map(|mi| -> Box<dyn IShape> {
                match *mi {
                    Mirror::Wall(o, n) => Box::new(mazth::plane::Plane::init(&world(&t, o), &n)),
                    Mirror::Ball(c, r) => Box::new(mazth::sphere::Sphere::init(&world(&t, c), r * k)),
                }
            })
            .collect();
        let solids: Vec<Box<dyn IShape>> = prisms.iter().map(|g| g.build(&t)).collect();
        // the model, and the library's position (of the world) and direction
        let mut p = start;
        let mut d = fl(d0).map(|x| x / len(d0));
        let mut pl = world(&t, p);
        let mut dl = t.d(d0);
        // what position and direction may be off by
        let (mut ep, mut ed) = (1e-14 * m, 1e-15);
        let mut last: Option<usize> = None;
        for bounce in 0..most {
            // what is in sight
            let mut seen: Vec<Option<f64>> = vec![];
            for (j, mi) in mirrors.iter().enumerate() {
                if last == Some(j) {
                    seen.push(None);
                    continue;
                }
                match sight(mi, p, d) {
                    Some(x) => seen.push(x),
                    None => {
                        l.outcome("left to rounding");
                        return;
                    }
                }
            }
            let ray = mazth::ray::Ray3::init(&pl, &dl);
            let mut best: Option<(usize, f64, F3)> = None;
            for (j, s) in shapes.iter().enumerate() {
                if last == Some(j) {
                    continue;
                }
                let a = if (bounce + j) % 2 == 0 { api!(l, ask(&ray, &**s)) } else { api!(l, ask(&**s, &ray)) };
                if !l.check(a.hit == seen[j].is_some(), || format!("bounce {}: from {:?} towards {:?}{} mirror {:?} is seen: {} instead of {}", bounce, p, d, t.show(), mirrors[j], a.hit, seen[j].is_some())) {
                    return;
                }
                if let (Some(x), Some(len)) = (a.loc, seen[j]) {
                    let w = [0, 1, 2].map(|c| p[c] + d[c] * len);
                    let e = flen(fsub(t.back(x), w));
                    let grow = match mirrors[j] {
                        Mirror::Wall(_, n) => 1.0 / (fdot(d, n) / flen(n)).abs(),
                        Mirror::Ball(c, r) => r / fdot(fsub(w, c), d).abs(),
                    };
                    let lim = 4.0 * (ep + len * ed + 1e-14 * m) * (1.0 + grow);
                    if !l.check(e <= lim, || format!("bounce {}: from {:?} towards {:?}{} mirror {:?} is hit at {:?} instead of {:?}", bounce, p, d, t.show(), mirrors[j], t.back(x), w)) {
                        return;
                    }
                    let dist = flen(fsub(x, pl));
                    if best.map(|b| dist < b.1).unwrap_or(true) {
                        best = Some((j, dist, x));
                    }
                }
            }
            let mut lens: Vec<f64> = seen.iter().filter_map(|x| *x).collect();
            lens.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let Some((j, _, x)) = best else {
                l.outcome("leaves the room");
                return;
            };
            if lens.len() > 1 && lens[1] - lens[0] < 1e-3 {
                l.outcome("left to rounding");
                return;
            }
            if !l.check(seen[j] == Some(lens[0]), || format!("bounce {}: from {:?} towards {:?}{} mirror {:?} seems nearest", bounce, p, d, t.show(), mirrors[j])) {
                return;
            }
            let w = [0, 1, 2].map(|c| p[c] + d[c] * lens[0]);
            // what is crossed on the way
            for (g, s) in prisms.iter().zip(&solids) {
                let f = g.facets();
                let by = 1e-4 + 1e-5 / k;
                let v = match (clip(p, w, &f, &[by; 5]).is_some(), clip(p, w, &f, &[-by; 5]).is_some()) {
                    (false, _) => false,
                    (_, true) => true,
                    _ => continue,
                };
                let seg = mazth::line::Line3::init(&pl, &x);
                let a = api!(l, ask(&seg, &**s));
                if !l.check(a.hit == v, || format!("bounce {}: the flight from {:?} to {:?}{} crosses {:?}: {} instead of {}", bounce, p, w, t.show(), g, a.hit, v)) {
                    return;
                }
            }
            // looking back from half way
            if let Some(b) = last {
                let mid = [0, 1, 2].map(|c| (pl[c] + x[c]) / 2.0);
                let back = mazth::ray::Ray3::init(&mid, &dl.map(|c| -c));
                let pm = t.back(mid);
                if sight(&mirrors[b], pm, d.map(|c| -c)).is_some() {
                    let a = api!(l, ask(&back, &*shapes[b]));
                    let g = match mirrors[b] {
                        Mirror::Wall(_, n) => 1.0 / (fdot(d, n) / flen(n)).abs(),
                        Mirror::Ball(c, r) => r / fdot(fsub(p, c), d).abs(),
                    };
                    let ok = a.loc.map(|y| flen(fsub(t.back(y), p)) <= 8.0 * (ep + lens[0] * ed + 1e-14 * m) * (1.0 + g));
                    if !l.check(ok == Some(true), || format!("bounce {}: back from {:?} towards {:?}{} mirror {:?} is hit at {:?} instead of {:?}", bounce, pm, d, t.show(), mirrors[b], a.loc.map(|y| t.back(y)), p)) {
                        return;
                    }
                }
            }
            // bounce
            let (n, nl, grow, bend) = match mirrors[j] {
                Mirror::Wall(_, n) => (n, n, 1.0 / (fdot(d, n) / flen(n)).abs(), 0.0),
                Mirror::Ball(c, r) => {
                    let c2 = world(&t, c);
                    let n = fsub(w, c);
                    (n, fsub(x, c2), r / fdot(n, d).abs(), 2.0 / r)
                }
            };
            let q = Quat::<f64>::init_from_vals_normalize(nl[0], nl[1], nl[2], 0.0);
            let before = flen(dl);
            dl = api!(l, q.reflection_in_plane(Mat3x1 { _val: dl }))._val;
            l.check((flen(dl) - before).abs() <= 1e-12 * before, || format!("bounce {}: reflected at {:?}{} the direction changes its length from {} to {}", bounce, n, t.show(), before, flen(dl)));
            let nn = n.map(|c| c / flen(n));
            let f = 2.0 * fdot(d, nn);
            d = [0, 1, 2].map(|c| d[c] - f * nn[c]);
            ep = (ep + lens[0] * ed) * grow + 1e-14 * m * (1.0 + grow);
            ed += ep * bend + 1e-15 + if bend > 0.0 { 1e-14 * m * bend } else { 0.0 };
            let inside = matches!(mirrors[j], Mirror::Ball(..)) && f > 0.0;
            p = w;
            pl = x;
            last = Some(j);
            let u = dl.map(|c| c / flen(dl));
            if inside {
                // the same ball may be next: go on from a little within it
                p = [0, 1, 2].map(|c| p[c] + 0.125 * d[c]);
                pl = [0, 1, 2].map(|c| pl[c] + 0.125 * k * u[c]);
                last = None;
            }
            let e = flen(fsub(u, d));
            if !l.check(e <= 8.0 * ed, || format!("bounce {}: reflected at {:?}{} the direction is {:?} instead of {:?}", bounce, n, t.show(), dl, d)) {
                return;
            }
            l.outcome("bounce");
            if ep > 1e-5 {
                l.outcome("no longer exact");
                return;
            }
        }
    });
}

// ------------------------------------------------------------------------------------- C40

fn c40(ctx: &mut Ctx) {
    ctx.assume("boxes nearer to each other than the rounding of their corners may or may not be told apart");
    let p = pool(ctx.deep());
    let qs = pool(true);
    let (n, nq) = (p.len(), qs.len());
    let offs = alph(ctx.by(vec![[0, 0, 0], [3, -2, 1], [-7, 4, 0]], vec![[0, 0, 0], [3, -2, 1], [-7, 4, 0], [0, 11, -5], [1, 1, 1]]));
    let tf = alph(vec![ID, Tf { s: -6, mv: [5, 0, -1], dk: 40 }, Tf { s: 10, mv: [-3, 77, 1000], dk: -30 }]);
    let (no, nt) = (offs.len(), tf.len());
    let axes = [[1, 0, 0], [0, 1, 0], [0, 0, 1]];
    // exact box of a shape, as the bound is defined
    // (a plane's is all of space)
    let exact = |g: &G| if let Plane(..) = g { [(-INF, INF); 3] } else { axes.map(|a| extent(g, a)) };
    let span = |x: [(f64, f64); 3], y: [(f64, f64); 3]| [0, 1, 2].map(|i| (x[i].0.min(y[i].0), x[i].1.max(y[i].1)));
    ctx.space("trees", &format!("every hierarchy of boxes over 3 of {} shapes, boxes used anew for every union, asked for {} shapes at {} offsets x {} placements: what the boxes rule out does not meet, what meets is not ruled out", n, nq, no, nt), (n * n * n * nq * no * nt) as u64, |i, l| {
        let mut d = Dec(i);
        let t = tf[d.take(nt)];
        let o = offs[d.take(no)];
        let q = qs[d.take(nq)];
        let leaves = [p[d.take(n)], shift(&p[d.take(n)], o), shift(&p[d.take(n)], [o[1], o[2], o[0]])];
        l.describe(|| format!("hierarchy over {:?}, asked for {:?}{}", leaves, q, t.show()));
        let s: Vec<Box<dyn IShape>> = leaves.iter().map(|g| g.build(&t)).collect();
        let sq = q.build(&t);
        // one box is used for both levels, as a builder does: the lower one is kept as a copy
        let mut b = AxisAlignedBBox::default();
        api!(l, b.get_union(&[s[0].get_bound(), s[1].get_bound()]));
        let low = b.clone();
        api!(l, b.get_union(&[&low, s[2].get_bound()]));
        let top = b;
        let e: Vec<_> = leaves.iter().map(exact).collect();
        let (elow, eq) = (span(e[0], e[1]), exact(&q));
        // the same in one union, into a box that has been used, and in another order
        let mut flat = low.clone();
        api!(l, flat.get_union(&[s[0].get_bound(), s[1].get_bound(), s[2].get_bound()]));
        let mut turned = AxisAlignedBBox::default();
        api!(l, turned.get_union(&[s[2].get_bound(), &low, s[0].get_bound(), s[1].get_bound()]));
        for (x, what) in [(&flat, "three"), (&turned, "three and the lower box, in another order")] {
            l.check(x.get_bound_data()[..6] == top.get_bound_data()[..6], || format!("the union of {} over {:?}{} is {:?}, in two steps {:?}", what, leaves, t.show(), x, top));
        }
        let etop = span(elow, e[2]);
        let m = 1.0 + q.mag() + leaves.iter().map(|g| g.mag()).max_by(|a, b| a.partial_cmp(b).unwrap()).unwrap() + t.mag();
        let open = |x: &[(f64, f64); 3]| {
            // where a separation or an overlap hangs on rounding
            let gap = (0..3).map(|i| f64::max(x[i].0 - eq[i].1, eq[i].0 - x[i].1)).fold(-INF, f64::max);
            (gap, gap.abs() <= 1e-12 * m && gap != 0.0)
        };
        let ask_box = |l: &mut Local, x: &AxisAlignedBBox, w: &[(f64, f64); 3], what: &str| {
            let (g, h) = (api!(l, x.intersect(sq.get_bound())), api!(l, sq.get_bound().intersect(x)));
            let (gap, soft) = open(w);
            if !soft {
                l.check(g == (gap <= 0.0) && h == g, || format!("the {} box {:?} over {:?} and the bound of {:?}{} overlap: {}/{} instead of {}", what, x, leaves, q, t.show(), g, h, gap <= 0.0));
            }
            g
        };
        let (gl, gt) = (ask_box(l, &low, &elow, "lower"), ask_box(l, &top, &etop, "upper"));
        l.check(gt || !gl, || format!("the lower box over {:?} is met by {:?}{}, the upper one is not", leaves, q, t.show()));
        for (k, g) in leaves.iter().enumerate() {
            let own = api!(l, s[k].get_bound().intersect(sq.get_bound()));
            let reached = gt && (k == 2 || gl) && own;
            l.check(reached || !own, || format!("{:?} and {:?}{}: their bounds overlap, but a box above rules it out", g, q, t.show()));
            let Some(v) = verdict(g, &q, &t) else { continue };
            let a = api!(l, ask(&*s[k], &*sq));
            l.check(reached || !a.hit, || format!("{:?} and {:?}{} meet, but the hierarchy rules it out", g, q, t.show()));
            match v {
                V::Hit => {
                    l.outcome("meet");
                    l.check(reached && a.hit, || format!("{:?} and {:?}{} have a point in common: the hierarchy says {}, the shapes {}", g, q, t.show(), reached, a.hit));
                }
                V::Miss => {
                    l.outcome(if reached { "apart, boxes overlap" } else { "ruled out" });
                    l.check(!a.hit, || format!("{:?} and {:?}{} are apart, but meet", g, q, t.show()));
                }
                _ => l.outcome("contact"),
            }
        }
    });
}
