//! Quaternions: C09..C15, and rigid motions and reflections: C32, C35.

use crate::api::*;
use crate::engine::*;
use mazth::mat::Mat4;
use mazth::quat::Quat;
use std::f64::consts::PI;

pub fn checks() -> Vec<(&'static str, fn(&mut Ctx))> {
    vec![
        ("C09", c09),
        ("C10", c10),
        ("C11", c11),
        ("C12", c12),
        ("C13", c13),
        ("C14", c14),
        ("C15", c15),
        ("C32", c32),
        ("C35", c35),
        ("C36", c36),
    ]
}

fn qmul(a: A4, b: A4) -> A4 {
    let ([ax, ay, az, aw], [bx, by, bz, bw]) = (a, b);
    [
        aw * bx + bw * ax + (ay * bz - az * by),
        aw * by + bw * ay + (az * bx - ax * bz),
        aw * bz + bw * az + (ax * by - ay * bx),
        aw * bw - (ax * bx + ay * by + az * bz),
    ]
}
fn conj(a: A4) -> A4 {
    [-a[0], -a[1], -a[2], a[3]]
}
fn dot4(a: A4, b: A4) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
}
fn n2(a: A4) -> f64 {
    dot4(a, a)
}
fn mulf(a: A4, f: f64) -> A4 {
    a.map(|x| x * f)
}
fn unit(a: A4) -> A4 {
    let l = n2(a).sqrt();
    a.map(|x| x / l)
}
fn eq4(l: &mut Local, what: impl Fn() -> String, got: A4, want: A4, tol: f64) {
    for i in 0..4 {
        if !near(got[i], want[i], tol) {
            l.fail(format!("{} is {:?} instead of {:?} (x,y,z,w)", what(), got, want));
            return;
        }
    }
}
fn eq3(l: &mut Local, what: impl Fn() -> String, got: [f64; 3], want: [f64; 3], tol: f64) {
    for i in 0..3 {
        if !near(got[i], want[i], tol) {
            l.fail(format!("{} is {:?} instead of {:?}", what(), got, want));
            return;
        }
    }
}
/// the value as the scalar type holds it
fn rnd<Q: QuatApi>(q: A4) -> A4 {
    Q::mk(q).get()
}
/// all integer quaternions over an alphabet but zero
fn lattice(al: &[f64]) -> Vec<A4> {
    let mut v = vec![];
    for &x in al {
        for &y in al {
            for &z in al {
                for &w in al {
                    if x != 0.0 || y != 0.0 || z != 0.0 || w != 0.0 {
                        v.push([x, y, z, w]);
                    }
                }
            }
        }
    }
    v
}
fn lattice3(al: &[f64]) -> Vec<[f64; 3]> {
    let mut v = vec![];
    for &x in al {
        for &y in al {
            for &z in al {
                if x != 0.0 || y != 0.0 || z != 0.0 {
                    v.push([x, y, z]);
                }
            }
        }
    }
    v
}
/// one quaternion per direction (as unit quaternions they would repeat)
fn directions(al: &[f64]) -> Vec<A4> {
    let mut seen = std::collections::HashSet::new();
    lattice(al)
        .into_iter()
        .filter(|q| {
            let g = q.iter().fold(0i64, |g, x| {
                let (mut a, mut b) = (g, x.abs() as i64);
                while b != 0 {
                    let t = a % b;
                    a = b;
                    b = t;
                }
                a
            });
            seen.insert(q.map(|x| (x as i64) / g))
        })
        .collect()
}

/// the identity, the units and other unit quaternions, and neighbours of them at 6 distances
/// (where shortcuts for "almost the identity", "almost pure", "almost a half turn" would act)
fn neighbours() -> Vec<A4> {
    let p = |k: i32| (2.0f64).powi(k);
    let mut v = vec![];
    for b in [[0., 0., 0., 1.], [0., 0., 0., -1.], [1., 0., 0., 0.], [0., -1., 0., 0.], [0., 0., 1., 0.], [0.5, 0.5, 0.5, 0.5], [0.5, -0.5, 0.5, -0.5], [0., 0.625, 0., -0.75]] {
        v.push(b);
        for u in [[1., 0., 0., 0.], [0., 1., 0., 0.], [0., 0., 1., 0.], [0., 0., 0., 1.], [1., -1., 0.5, 0.]] {
            for k in [-7, -10, -13, -16, -20, -26] {
                for s in [-1.0, 1.0] {
                    // zeros of either sign
                    v.push([0, 1, 2, 3].map(|i| {
                        let x: f64 = b[i] + s * p(k) * u[i];
                        if x == 0.0 {
                            s * 0.0
                        } else {
                            x
                        }
                    }));
                }
            }
        }
    }
    v
}
/// lengths: one, close to one from both sides, tiny and large
fn lengths() -> Vec<f64> {
    let p = |k: i32| (2.0f64).powi(k);
    let mut v = vec![1.0, p(-20), p(-40), p(20), p(40)];
    for k in [-7, -9, -11, -14, -17, -20] {
        v.push(1.0 + p(k));
        v.push(1.0 - p(k));
    }
    v
}

// ------------------------------------------------------------------------------------- C09

fn c09(ctx: &mut Ctx) {
    ctx.assume("integer and half-integer quaternions: sums and products are exact in the scalar type, so equality is required; inverse and length are compared within 4 rounding errors");
    for_quats!(c09_q, ctx);
}
fn c09_q<Q: QuatApi>(ctx: &mut Ctx) {
    let al = ctx.by(vec![-2.0, -1.0, 0.0, 1.0, 3.0], vec![-7.0, -2.0, -1.0, 0.0, 1.0, 3.0, 8.0]);
    let m = al.len();
    ctx.space(&format!("pairs-{}", Q::NAME), &format!("every pair of quaternions over {:?}", al), (m as u64).pow(8), |i, l| {
        let mut d = Dec(i);
        let mut t = || [d.pick(&al), d.pick(&al), d.pick(&al), d.pick(&al)];
        let (a, b) = (t(), t());
        l.describe(|| format!("{} a={:?} b={:?}", Q::NAME, a, b));
        let (p, q) = (Q::mk(a), Q::mk(b));
        let w = qmul(a, b);
        let r = api!(l, p.mul(q));
        eq4(l, || "a*b".into(), r.get(), w, 0.0);
        let g = api!(l, p.add(q)).get();
        eq4(l, || "a+b".into(), g, [a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]], 0.0);
        let g = api!(l, p.minus(q)).get();
        eq4(l, || "a-b".into(), g, [a[0] - b[0], a[1] - b[1], a[2] - b[2], a[3] - b[3]], 0.0);
        // the length is multiplicative, conjugation reverses products
        let (g, e) = (api!(l, r.len2()), p.len2() * q.len2());
        l.check(g == e && g == n2(a) * n2(b), || format!("|ab|^2 = {} but |a|^2 |b|^2 = {}", g, e));
        let g = api!(l, q.conjugate().mul(p.conjugate())).get();
        eq4(l, || "conj(b)*conj(a)".into(), g, conj(w), 0.0);
        let g = api!(l, p.mul(p)).get();
        eq4(l, || "a*a".into(), g, qmul(a, a), 0.0);
        if n2(a) != 0.0 {
            let inv = api!(l, p.inverse());
            let g = inv.mul(r).get();
            eq4(l, || "a^-1 * (a*b)".into(), g, b, 16.0 * Q::S::EPS * n2(b).sqrt());
        }
    });
    let t3 = ctx.by(vec![-1.0, 0.0, 1.0], vec![-1.0, 0.0, 1.0, 3.0]);
    ctx.space(&format!("triples-{}", Q::NAME), &format!("associativity and distributivity on every triple of quaternions over {:?}", t3), (t3.len() as u64).pow(12), |i, l| {
        let mut d = Dec(i);
        let mut t = || [d.pick(&t3), d.pick(&t3), d.pick(&t3), d.pick(&t3)];
        let (a, b, c) = (t(), t(), t());
        l.describe(|| format!("{} a={:?} b={:?} c={:?}", Q::NAME, a, b, c));
        let (p, q, r) = (Q::mk(a), Q::mk(b), Q::mk(c));
        let (x, y) = (api!(l, p.mul(q).mul(r)).get(), api!(l, p.mul(q.mul(r))).get());
        eq4(l, || "(ab)c".into(), x, y, 0.0);
        let (x, y) = (api!(l, p.mul(q.add(r))).get(), api!(l, p.mul(q).add(p.mul(r))).get());
        eq4(l, || "a(b+c)".into(), x, y, 0.0);
        let (x, y) = (api!(l, q.minus(r).mul(p)).get(), api!(l, q.mul(p).minus(r.mul(p))).get());
        eq4(l, || "(b-c)a".into(), x, y, 0.0);
    });
    let wide = alph(vec![-1000.0, -9.0, -0.5, 0.0, 1.0, 3.0, 0.0078125]);
    let sc = alph(vec![-2.0, 0.0, 0.125, 1.0, 1024.0]);
    ctx.space(&format!("single-{}", Q::NAME), &format!("every quaternion over {:?} x scale factors {:?}", wide, sc), (wide.len() as u64).pow(4) * sc.len() as u64, |i, l| {
        let mut d = Dec(i);
        let a = [d.pick(&wide), d.pick(&wide), d.pick(&wide), d.pick(&wide)];
        let s = d.pick(&sc);
        l.describe(|| format!("{} a={:?} s={}", Q::NAME, a, s));
        let p = Q::mk(a);
        let g = api!(l, p.negate()).get();
        eq4(l, || "-a".into(), g, mulf(a, -1.0), 0.0);
        let g = api!(l, p.conjugate()).get();
        eq4(l, || "conjugate".into(), g, conj(a), 0.0);
        let g = api!(l, p.scale(s)).get();
        eq4(l, || format!("a*{}", s), g, mulf(a, s), 0.0);
        let e = Q::S::EPS;
        let g = api!(l, p.len2());
        l.check(near(g, n2(a), 4.0 * e * n2(a)), || format!("squared length {} instead of {}", g, n2(a)));
        let g = api!(l, p.len());
        l.check(near(g, n2(a).sqrt(), 4.0 * e * n2(a).sqrt()), || format!("length {} instead of {}", g, n2(a).sqrt()));
        if n2(a) > 0.0 {
            let u = api!(l, p.normalize());
            let w = mulf(a, 1.0 / n2(a).sqrt());
            for k in 0..4 {
                l.check(near(u.get()[k], w[k], 8.0 * e * w[k].abs()), || format!("{:?} normalized is {:?} instead of {:?}", a, u.get(), w));
            }
            let g = api!(l, u.len());
            l.check(near(g, 1.0, 8.0 * e), || format!("{:?} normalized has length {}", a, g));
            let v = api!(l, p.inverse());
            let w = mulf(conj(a), 1.0 / n2(a));
            for k in 0..4 {
                l.check(near(v.get()[k], w[k], 8.0 * e * w[k].abs()), || format!("inverse {:?} instead of {:?}", v.get(), w));
            }
            let g = api!(l, p.mul(v)).get();
            eq4(l, || "a * a^-1".into(), g, [0., 0., 0., 1.], 16.0 * e);
            let g = api!(l, v.mul(p)).get();
            eq4(l, || "a^-1 * a".into(), g, [0., 0., 0., 1.], 16.0 * e);
        }
    });
    let (nb, ln) = (alph(neighbours()), alph(lengths()));
    ctx.space(&format!("neighbours-{}", Q::NAME), &format!("{} quaternions next to units x {} lengths around one, tiny and large", nb.len(), ln.len()), (nb.len() * ln.len()) as u64, |i, l| {
        let mut d = Dec(i);
        let f = d.pick(&ln);
        let a = rnd::<Q>(mulf(d.pick(&nb), f));
        l.describe(|| format!("{} a={:?}", Q::NAME, a));
        let e = Q::S::EPS;
        let p = Q::mk(a);
        let len = n2(a).sqrt();
        let g = api!(l, p.len2());
        l.check(near(g, n2(a), 4.0 * e * n2(a)), || format!("squared length {} instead of {}", g, n2(a)));
        let g = api!(l, p.len());
        l.check(near(g, len, 4.0 * e * len), || format!("length {} instead of {}", g, len));
        let v = api!(l, p.inverse()).get();
        let w = mulf(conj(a), 1.0 / n2(a));
        for k in 0..4 {
            l.check(near(v[k], w[k], 8.0 * e * w[k].abs()), || format!("inverse {:?} instead of {:?}", v, w));
        }
        let u = api!(l, p.normalize()).get();
        let w = mulf(a, 1.0 / len);
        for k in 0..4 {
            l.check(near(u[k], w[k], 8.0 * e * w[k].abs()), || format!("{:?} normalized is {:?} instead of {:?}", a, u, w));
        }
        let g = api!(l, p.mul(p)).get();
        eq4(l, || "a*a".into(), g, qmul(a, a), 8.0 * e * n2(a));
        let g = api!(l, p.mul(p.conjugate())).get();
        eq4(l, || "a*conj(a)".into(), g, [0.0, 0.0, 0.0, n2(a)], 8.0 * e * n2(a));
        let g = api!(l, p.add(p)).get();
        eq4(l, || "a+a".into(), g, mulf(a, 2.0), 0.0);
        let g = api!(l, p.minus(p)).get();
        eq4(l, || "a-a".into(), g, [0.0; 4], 0.0);
        let g = api!(l, p.negate()).get();
        eq4(l, || "-a".into(), g, mulf(a, -1.0), 0.0);
        let g = api!(l, p.conjugate()).get();
        eq4(l, || "conjugate".into(), g, conj(a), 0.0);
    });
    ctx.space(&format!("neighbour-pairs-{}", Q::NAME), &format!("every pair of {} quaternions next to units", nb.len()), (nb.len() * nb.len()) as u64, |i, l| {
        let mut d = Dec(i);
        let (a, b) = (rnd::<Q>(d.pick(&nb)), rnd::<Q>(d.pick(&nb)));
        l.describe(|| format!("{} a={:?} b={:?}", Q::NAME, a, b));
        let e = Q::S::EPS;
        let (p, q) = (Q::mk(a), Q::mk(b));
        let g = api!(l, p.mul(q)).get();
        eq4(l, || "a*b".into(), g, qmul(a, b), 4.0 * e * (n2(a) * n2(b)).sqrt());
        let g = api!(l, p.add(q)).get();
        eq4(l, || "a+b".into(), g, [a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]], e);
        let g = api!(l, p.minus(q)).get();
        eq4(l, || "a-b".into(), g, [a[0] - b[0], a[1] - b[1], a[2] - b[2], a[3] - b[3]], e);
    });
    // the 24 Hurwitz units: closed under every operation, and nothing else is ever reached
    #[derive(Clone)]
    struct St<Q> {
        q: Q,
        m: [i8; 4], // twice the components
    }
    let gens: [[i8; 4]; 3] = [[2, 0, 0, 0], [0, 2, 0, 0], [1, 1, 1, 1]];
    let hf = |m: [i8; 4]| m.map(|x| x as f64 / 2.0);
    let hm = |a: [i8; 4], b: [i8; 4]| qmul(hf(a), hf(b)).map(|x| (x * 2.0) as i8);
    let names = ["times i", "times j", "times h", "i times", "j times", "h times", "conjugate", "negate", "inverse", "normalize", "square", "times its conjugate, times itself"];
    ctx.bfs(
        &format!("hurwitz-{}", Q::NAME),
        "products, conjugates, negations and inverses of the units i, j, (1+i+j+k)/2 from 1; the group has 24 elements",
        vec![St { q: Q::dflt(), m: [0, 0, 0, 2] }],
        names.len() as u32,
        30,
        100,
        |s, op, l| {
            let (q, m) = match op {
                0..=2 => (api!(l, s.q.mul(Q::mk(hf(gens[op as usize])))), hm(s.m, gens[op as usize])),
                3..=5 => (api!(l, Q::mk(hf(gens[op as usize - 3])).mul(s.q)), hm(gens[op as usize - 3], s.m)),
                6 => (api!(l, s.q.conjugate()), [-s.m[0], -s.m[1], -s.m[2], s.m[3]]),
                7 => (api!(l, s.q.negate()), s.m.map(|x| -x)),
                8 => (api!(l, s.q.inverse()), [-s.m[0], -s.m[1], -s.m[2], s.m[3]]),
                9 => (api!(l, s.q.normalize()), s.m),
                10 => (api!(l, s.q.mul(s.q)), hm(s.m, s.m)),
                _ => (api!(l, s.q.mul(s.q.conjugate()).mul(s.q)), s.m),
            };
            eq4(l, || format!("{} of {:?}", names[op as usize], s.q.get()), q.get(), hf(m), 0.0);
            Some(St { q, m })
        },
        |s| s.q.get().map(|x| (x + 0.0).to_bits()),
        |o| names[o as usize].into(),
    );
    // histories of mixed operations on integer quaternions
    #[derive(Clone)]
    struct H<Q> {
        q: Q,
        m: A4,
    }
    let k = [1.0, -2.0, 0.0, 1.0];
    let k2 = [0.0, 1.0, 1.0, -1.0];
    let names = ["times k", "k times", "plus k2", "minus k", "scale 2", "scale -1/2", "conjugate", "negate", "plus itself", "k2 minus"];
    ctx.bfs(
        &format!("histories-{}", Q::NAME),
        "10 operations with fixed operands from 3 initial quaternions",
        vec![H { q: Q::init(), m: [0., 0., 0., 1.] }, H { q: Q::mk([1., 2., 3., 4.]), m: [1., 2., 3., 4.] }, H { q: Q::raw_vals([0., -1., 0., 0.]), m: [0., -1., 0., 0.] }],
        names.len() as u32,
        ctx.by(6, 8),
        4_000_000,
        |s, op, l| {
            let sub = |a: A4, b: A4| [a[0] - b[0], a[1] - b[1], a[2] - b[2], a[3] - b[3]];
            let add = |a: A4, b: A4| [a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]];
            let (q, m) = match op {
                0 => (api!(l, s.q.mul(Q::mk(k))), qmul(s.m, k)),
                1 => (api!(l, Q::mk(k).mul(s.q)), qmul(k, s.m)),
                2 => (api!(l, s.q.add(Q::mk(k2))), add(s.m, k2)),
                3 => (api!(l, s.q.minus(Q::mk(k))), sub(s.m, k)),
                4 => (api!(l, s.q.scale(2.0)), mulf(s.m, 2.0)),
                5 => (api!(l, s.q.scale(-0.5)), mulf(s.m, -0.5)),
                6 => (api!(l, s.q.conjugate()), conj(s.m)),
                7 => (api!(l, s.q.negate()), mulf(s.m, -1.0)),
                8 => (api!(l, s.q.add(s.q)), mulf(s.m, 2.0)),
                _ => (api!(l, Q::mk(k2).minus(s.q)), sub(k2, s.m)),
            };
            eq4(l, || format!("{} of {:?}", names[op as usize], s.q.get()), q.get(), m, 0.0);
            if m.iter().any(|x| x.abs() > 1024.0 || (x * 64.0).fract() != 0.0) {
                return None;
            }
            Some(H { q, m })
        },
        |s| s.q.get().map(|x| (x + 0.0).to_bits()),
        |o| names[o as usize].into(),
    );
}

// ------------------------------------------------------------------------------------- C10

/// rotation by an integer quaternion: exact integer rows over n
fn rot_rows(q: A4) -> ([f64; 9], f64) {
    let [x, y, z, w] = q;
    (
        [
            w * w + x * x - y * y - z * z,
            2.0 * (x * y - w * z),
            2.0 * (x * z + w * y),
            2.0 * (x * y + w * z),
            w * w - x * x + y * y - z * z,
            2.0 * (y * z - w * x),
            2.0 * (x * z - w * y),
            2.0 * (y * z + w * x),
            w * w - x * x - y * y + z * z,
        ],
        n2(q),
    )
}
fn rot(q: A4, v: [f64; 3]) -> [f64; 3] {
    let (r, n) = rot_rows(q);
    [
        (r[0] * v[0] + r[1] * v[1] + r[2] * v[2]) / n,
        (r[3] * v[0] + r[4] * v[1] + r[5] * v[2]) / n,
        (r[6] * v[0] + r[7] * v[1] + r[8] * v[2]) / n,
    ]
}
fn len3(v: [f64; 3]) -> f64 {
    (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt()
}

fn c10(ctx: &mut Ctx) {
    ctx.assume("unit quaternions are normalized integer quaternions, so the rotation matrix is known exactly as integers over the squared length; results are compared within 32 rounding errors of the vector's length");
    for_quats!(c10_q, ctx);
}
fn c10_q<Q: QuatApi>(ctx: &mut Ctx) {
    let e = Q::S::EPS;
    let mut qs = directions(&ctx.by(vec![-4., -3., -2., -1., 0., 1., 2., 3.], vec![-9., -4., -3., -2., -1., 0., 1., 2., 3., 5., 100.]));
    for q in neighbours() {
        // the units themselves are among the integer ones
        if q.iter().any(|x| (x * 8.0).fract() != 0.0) {
            qs.push(q)
        }
    }
    let vs = alph({
        let mut v = lattice3(&ctx.by(vec![-2.0, -1.0, 0.0, 1.0, 3.0], vec![-4.0, -2.0, -1.0, 0.0, 1.0, 3.0, 50.0]));
        v.push([0.0, 0.0, 0.0]);
        v.push([1000.0, -2000.0, 500.0]);
        v.push([0.0009765625, 0.0, -0.001953125]);
        v.push([1e6, 0.0, 1.0]);
        // lengths at which a shortcut for "no vector at all" would act
        for k in [-16, -22, -30, -40] {
            let p = (2.0f64).powi(k);
            v.push([p, -p, 3.0 * p]);
            v.push([1.0, p, 0.0]);
        }
        // large, nearly equal and nearly opposite components, zeros of either sign
        for f in [1e9, 1e15, 1.0] {
            v.push([f, -0.25 * f, 0.5 * f]);
            v.push([-f, f * (1.0 + 0.5f64.powi(14)), -f]);
            v.push([-0.0, f * 0.75, -0.0]);
        }
        v
    });
    ctx.space(&format!("vectors-{}", Q::NAME), &format!("{} unit quaternions x {} vectors: rotated directly and by both matrices", qs.len(), vs.len()), (qs.len() * vs.len()) as u64, |i, l| {
        let mut d = Dec(i);
        let q0 = qs[d.take(qs.len())];
        let v = d.pick(&vs);
        l.describe(|| format!("{} {:?} normalized, vector {:?}", Q::NAME, q0, v));
        let q = Q::mk(unit(q0));
        let want = rot(q0, v);
        let tol = 32.0 * e * len3(v);
        let g = api!(l, q.rotate(v));
        eq3(l, || format!("{:?} rotated by {:?}", v, q0), g, want, tol);
        l.check(near(len3(g), len3(v), tol), || format!("rotation changes the length of {:?} to {}", v, len3(g)));
        for rm in [true, false] {
            let g = api!(l, q.matrix_apply(rm, [v[0], v[1], v[2], 1.0]));
            eq4(l, || format!("rotation matrix (row_major={}) of {:?} times {:?}", rm, q0, v), g, [want[0], want[1], want[2], 1.0], tol);
            let g = api!(l, q.matrix_apply(rm, [v[0], v[1], v[2], 0.0]));
            eq4(l, || format!("rotation matrix (row_major={}) of {:?} times direction {:?}", rm, q0, v), g, [want[0], want[1], want[2], 0.0], tol);
        }
        // the opposite quaternion is the same rotation, the conjugate undoes it
        let g = api!(l, q.negate().rotate(v));
        eq3(l, || format!("{:?} rotated by minus {:?}", v, q0), g, want, tol);
        let g = api!(l, q.conjugate().rotate(q.rotate(v)));
        eq3(l, || format!("{:?} rotated by {:?} and back", v, q0), g, v, 2.0 * tol);
        let g = api!(l, q.inverse().rotate(want));
        eq3(l, || format!("{:?} rotated by the inverse of {:?}", want, q0), g, v, 2.0 * tol);
    });
    ctx.space(&format!("matrices-{}", Q::NAME), &format!("{} unit quaternions: every matrix entry, both orders", qs.len()), 2 * qs.len() as u64, |i, l| {
        let mut d = Dec(i);
        let rm = d.take(2) == 0;
        let q0 = qs[d.take(qs.len())];
        l.describe(|| format!("{} {:?} normalized, row_major={}", Q::NAME, q0, rm));
        let (m, o) = api!(l, Q::mk(unit(q0)).rotation_matrix(rm));
        l.check(o == rm, || "the matrix has the other storage order".into());
        let (r, n) = rot_rows(q0);
        for a in 0..4 {
            for b in 0..4 {
                let w = if a < 3 && b < 3 {
                    r[a * 3 + b] / n
                } else if a == b {
                    1.0
                } else {
                    0.0
                };
                l.check(near(m[a * 4 + b], w, 8.0 * e), || format!("matrix (row_major={}) of {:?}: entry ({},{}) is {} instead of {}", rm, q0, a, b, m[a * 4 + b], w));
            }
        }
    });
    let ps = directions(&ctx.by(vec![-2., -1., 0., 1., 2.], vec![-3., -2., -1., 0., 1., 2., 5.]));
    let v3 = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [1.0, -2.0, 3.0]];
    ctx.space(&format!("composition-{}", Q::NAME), &format!("{} x {} pairs of unit quaternions x 3 vectors: a product rotates by the second factor, then the first", ps.len(), ps.len()), (ps.len() * ps.len()) as u64 * 3, |i, l| {
        let mut d = Dec(i);
        let (a, b, v) = (ps[d.take(ps.len())], ps[d.take(ps.len())], d.pick(&v3));
        l.describe(|| format!("{} a={:?} b={:?} normalized, vector {:?}", Q::NAME, a, b, v));
        let (p, q) = (Q::mk(unit(a)), Q::mk(unit(b)));
        let want = rot(a, rot(b, v));
        let tol = 64.0 * e * len3(v);
        let pq = api!(l, p.mul(q));
        let g = api!(l, pq.rotate(v));
        eq3(l, || format!("{:?} rotated by {:?} * {:?}", v, a, b), g, want, tol);
        let g = api!(l, p.rotate(q.rotate(v)));
        eq3(l, || format!("{:?} rotated by {:?}, then {:?}", v, b, a), g, want, tol);
        for rm in [true, false] {
            let g = api!(l, pq.matrix_apply(rm, [v[0], v[1], v[2], 1.0]));
            eq4(l, || format!("matrix (row_major={}) of {:?} * {:?} times {:?}", rm, a, b, v), g, [want[0], want[1], want[2], 1.0], tol);
        }
    });
}

// ------------------------------------------------------------------------------------- C11

fn c11(ctx: &mut Ctx) {
    ctx.assume("close to the identity a quaternion determines its axis and angle only up to rounding of w; the tolerance grows accordingly (rounding / sine of the half angle), and half angles below 1.5e-6 may be taken for the identity");
    for_quats!(c11_q, ctx);
}
/// axis-angle of a quaternion stands for the same rotation
fn axis_angle_of<Q: QuatApi>(l: &mut Local, q: &Q, exact: A4, drift: f64) {
    let e = Q::S::EPS;
    let (ax, an) = api!(l, q.to_axis_angle());
    if !(ax[0].is_finite() && ax[1].is_finite() && ax[2].is_finite() && an.is_finite()) {
        l.fail(format!("axis {:?} angle {} of {:?}", ax, an, q.get()));
        return;
    }
    l.check(near(len3(ax), 1.0, 16.0 * e), || format!("axis {:?} of {:?} is not of unit length", ax, q.get()));
    l.check(an >= 0.0 && an <= 2.0 * PI + 8.0 * e, || format!("angle {} of {:?} is not in [0, 2 pi]", an, q.get()));
    // the same rotation: its quaternion is q or -q
    let (s, c) = (an / 2.0).sin_cos();
    let r = [ax[0] * s, ax[1] * s, ax[2] * s, c];
    let sn = (exact[0] * exact[0] + exact[1] * exact[1] + exact[2] * exact[2]).sqrt();
    let mut tol = 16.0 * e + drift + f64::min((16.0 * e + 2.0 * drift) / sn.max(1e-300), 8.0 * (e + drift).sqrt());
    if sn < 1.5e-6 {
        tol = tol.max(1.6e-6)
    }
    let ok = near_n(&r, &exact, tol) || near_n(&r, &mulf(exact, -1.0), tol);
    l.check(ok, || format!("axis {:?} angle {} of {:?} is the rotation of quaternion {:?}", ax, an, exact, r));
}
fn c11_q<Q: QuatApi>(ctx: &mut Ctx) {
    let e = Q::S::EPS;
    let axes = alph({
        let mut v = lattice3(&ctx.by(vec![-2.0, -1.0, 0.0, 1.0, 3.0], vec![-4.0, -2.0, -1.0, 0.0, 1.0, 3.0, 50.0]));
        v.push([0.0, 0.0, 1000.0]);
        v.push([0.001953125, -0.0009765625, 0.0]);
        v.push([1.0, 1e4, -1.0]);
        v.push([3e8, -1e8, 2e8]);
        v.push([-2e-8, 1e-8, 3e-8]);
        v.push([1e15, -0.0, 1e15]);
        v.push([-0.0, 1e-14, -1e-14]);
        v.push([1.0, 1e-6, -1e6]);
        // almost of unit length, almost along an axis
        for k in [-7, -9, -11, -14, -17, -20] {
            let t = (2.0f64).powi(k);
            v.push([0.0, 1.0 + t, 0.0]);
            v.push([0.0, 0.0, 1.0 - t]);
            v.push([0.6 * (1.0 + t), 0.0, -0.8 * (1.0 + t)]);
            v.push([1.0, 0.0, t]);
            v.push([t, -2.0, -t]);
        }
        v
    });
    let mut degs = vec![-1080.0, -540.0, -360.0, -179.0, -1.0, -0.001953125, 0.0, 0.0009765625, 0.0625, 0.5, 1.0, 2.0, 179.0, 179.9375, 180.0625, 359.0, 359.9375, 540.0, 719.0, 1000.0, -0.0, 1e-5, -1e-7, 1e-12, 89.9990234375, -90.0009765625, 180.0009765625, 359.9990234375, 7200.0, 36000.5];
    let mut a = -330.0;
    while a < 360.5 {
        if !degs.contains(&a) {
            degs.push(a)
        }
        a += ctx.by(3.0, 0.5);
    }
    // next to the multiples of 30 degrees, and to whole and half radians
    for k in -12..=24 {
        for x in [-0.0625, -0.0009765625, 0.000030517578125, 0.015625] {
            for a in [30.0 * k as f64, 15.0 / PI * k as f64] {
                if !degs.contains(&(a + x)) {
                    degs.push(a + x)
                }
            }
        }
    }
    let degs = alph(degs);
    ctx.space(&format!("axis-angle-{}", Q::NAME), &format!("{} axes of any length x {} angles in degrees and radians", axes.len(), degs.len()), (axes.len() * degs.len()) as u64, |i, l| {
        let mut d = Dec(i);
        let ax = d.pick(&axes).map(|x| Q::S::of(x).d());
        let deg = Q::S::of(d.pick(&degs)).d();
        let rad = Q::S::of(deg * PI / 180.0).d();
        l.describe(|| format!("{} axis {:?} angle {} degrees", Q::NAME, ax, deg));
        let n = len3(ax);
        let f = |r: f64| {
            let (s, c) = (r / 2.0).sin_cos();
            [ax[0] / n * s, ax[1] / n * s, ax[2] / n * s, c]
        };
        let tol = e * (8.0 + 2.0 * rad.abs());
        let q = api!(l, Q::from_degree(ax, deg));
        let w = f(deg * PI / 180.0);
        eq4(l, || format!("quaternion of {} degrees about {:?}", deg, ax), q.get(), w, tol);
        let q2 = api!(l, Q::from_radian(ax, rad));
        eq4(l, || format!("quaternion of {} radians about {:?}", rad, ax), q2.get(), f(rad), tol);
        l.check(near(n2(q.get()), 1.0, 16.0 * e), || format!("the quaternion {:?} is not of unit length", q.get()));
        axis_angle_of(l, &q, w, e * rad.abs());
        axis_angle_of(l, &q2, f(rad), e * rad.abs());
        // it rotates by that angle about that axis
        let v = [1.0, -2.0, 0.5];
        let g = api!(l, q.rotate(v));
        let k = [ax[0] / n, ax[1] / n, ax[2] / n];
        let (s, c) = (deg * PI / 180.0).sin_cos();
        let kv = k[0] * v[0] + k[1] * v[1] + k[2] * v[2];
        let cr = [k[1] * v[2] - k[2] * v[1], k[2] * v[0] - k[0] * v[2], k[0] * v[1] - k[1] * v[0]];
        let want = [0, 1, 2].map(|j| v[j] * c + cr[j] * s + k[j] * kv * (1.0 - c));
        eq3(l, || format!("{:?} rotated by {} degrees about {:?}", v, deg, ax), g, want, e * (64.0 + 16.0 * rad.abs()));
    });
    let mut qs = directions(&ctx.by(vec![-3., -2., -1., 0., 1., 2., 3., 50.], vec![-20., -3., -2., -1., 0., 1., 2., 3., 5., 7., 50., 1000.]));
    for q in neighbours() {
        if q.iter().any(|x| (x * 8.0).fract() != 0.0) {
            qs.push(q)
        }
    }
    ctx.space(&format!("quaternions-{}", Q::NAME), &format!("{} unit quaternions to axis and angle", qs.len()), qs.len() as u64, |i, l| {
        let q0 = qs[i as usize];
        l.describe(|| format!("{} {:?} normalized", Q::NAME, q0));
        let q = Q::mk(unit(q0));
        axis_angle_of(l, &q, unit(q0), 0.0);
        let (ax, an) = q.to_axis_angle();
        let back = api!(l, Q::from_radian(ax, an)).get();
        let sn = len3([q0[0], q0[1], q0[2]]) / n2(q0).sqrt();
        let mut tol = 16.0 * e + f64::min(16.0 * e / sn.max(1e-300), 8.0 * e.sqrt());
        if sn < 1.5e-6 {
            tol = tol.max(1.6e-6)
        }
        let u = unit(q0);
        l.check(near_n(&back, &u, tol) || near_n(&back, &mulf(u, -1.0), tol), || format!("{:?} through axis and angle and back is {:?}", u, back));
    });
    // unit quaternions as programs make them: products of rotations, not renormalized
    #[derive(Clone)]
    struct W<Q> {
        q: Q,
        x: A4,
        n: u32,
    }
    let gens: Vec<([f64; 3], f64)> = vec![([1., 0., 0.], 45.), ([1., 1., 0.], 60.), ([0., 0., -3.], 1.), ([0., 1., 0.], 180.), ([1., 2., 3.], 0.0625), ([0., 1., -1.], 120.)];
    let g2: Vec<(Q, A4)> = gens
        .iter()
        .map(|(a, d)| {
            let n = len3(*a);
            let (s, c) = (d * PI / 360.0).sin_cos();
            (Q::from_degree(*a, *d), [a[0] / n * s, a[1] / n * s, a[2] / n * s, c])
        })
        .collect();
    ctx.bfs(
        &format!("words-{}", Q::NAME),
        "products of 6 rotations and their conjugates, never renormalized: axis and angle of every product",
        vec![W { q: Q::dflt(), x: [0., 0., 0., 1.], n: 0 }],
        8,
        ctx.by(6, 8),
        6_000_000,
        |s, op, l| {
            let (q, x) = match op {
                0..=5 => (api!(l, s.q.mul(g2[op as usize].0)), qmul(s.x, g2[op as usize].1)),
                6 => (api!(l, g2[0].0.conjugate().mul(s.q)), qmul(conj(g2[0].1), s.x)),
                _ => (api!(l, g2[3].0.inverse().mul(s.q)), qmul(conj(g2[3].1), s.x)),
            };
            let n = s.n + 1;
            axis_angle_of(l, &q, x, 8.0 * e * n as f64);
            Some(W { q, x, n })
        },
        |s| (s.q.get().map(|x| (x + 0.0).to_bits()), s.n),
        |o| if o < 6 { format!("times {} degrees about {:?}", gens[o as usize].1, gens[o as usize].0) } else { format!("undo rotation {}", o) },
    );
}

// ------------------------------------------------------------------------------------- C12

fn qln(q: A4) -> A4 {
    let v = len3([q[0], q[1], q[2]]);
    let a = v.atan2(q[3]);
    [q[0] / v * a, q[1] / v * a, q[2] / v * a, n2(q).sqrt().ln()]
}
fn qexp(q: A4) -> A4 {
    let v = len3([q[0], q[1], q[2]]);
    let (s, c) = v.sin_cos();
    let f = q[3].exp();
    let k = if v == 0.0 { 1.0 } else { s / v };
    [q[0] * k * f, q[1] * k * f, q[2] * k * f, c * f]
}
fn c12(ctx: &mut Ctx) {
    ctx.assume("quaternions with a vector part of at least a millionth of the length, with a tolerance that grows as the vector part shrinks; a quaternion without vector part has no unique logarithm and is outside the property");
    for_quats!(c12_q, ctx);
}
fn c12_q<Q: QuatApi>(ctx: &mut Ctx) {
    let e = Q::S::EPS;
    let al = ctx.by(vec![-3., -2., -1., 0., 1., 2., 5.], vec![-20., -3., -2., -1., -0.5, 0., 0.125, 1., 2., 5., 9.]);
    let mut qs = lattice(&al);
    // small angles and obtuse ones
    for w in [-800000.0, -50000.0, -5000.0, -800.0, -30.0, -12.0, 12.0, 30.0, 800.0, 5000.0, 50000.0, 800000.0] {
        for v in lattice3(&[-1.0, 0.0, 1.0]) {
            qs.push([v[0], v[1], v[2], w]);
        }
    }
    qs.retain(|q| q[0] != 0.0 || q[1] != 0.0 || q[2] != 0.0);
    let qs = alph(qs);
    let sc = alph(vec![0.0625, 0.0, 1.0, 16.0, 1048576.0, 0.5f64.powi(20), -1.001953125, -0.9990234375, -1.0000152587890625, -(1.0 + 1.0 / 1048576.0), -(1.0 - 1.0 / 4194304.0), -(1.0 + 0.5f64.powi(30))]); // 0: normalized; negative: made of that length
    let ts = alph(vec![-3.0, -2.0, -1.5, -1.0, -0.5, 0.0, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 3.0, -6.0, 4.5, 5.0, 7.0, 0.00048828125, -0.000030517578125, 1.0009765625]);
    let base = |q0: A4, s: f64| if s == 0.0 { rnd::<Q>(unit(q0)) } else if s < 0.0 { rnd::<Q>(mulf(unit(q0), -s)) } else { rnd::<Q>(mulf(q0, s)) };
    ctx.space(&format!("ln-{}", Q::NAME), &format!("{} quaternions x lengths {:?} (0: unit, negative: of that length)", qs.len(), sc), (qs.len() * sc.len()) as u64, |i, l| {
        let mut d = Dec(i);
        let x = base(qs[d.take(qs.len())], d.pick(&sc));
        l.describe(|| format!("{} {:?}", Q::NAME, x));
        let q = Q::mk(x);
        let g = api!(l, q.ln()).get();
        let w = qln(x);
        let sn = len3([x[0], x[1], x[2]]) / n2(x).sqrt();
        let tol = e * (32.0 + 16.0 / sn) * (1.0 + w[3].abs());
        eq4(l, || format!("ln of {:?}", x), g, w, tol);
        eq4(l, || format!("exp of ln of {:?}", x), qexp(g), x, 4.0 * tol * n2(x).sqrt());
    });
    ctx.space(&format!("pow-{}", Q::NAME), &format!("{} quaternions x lengths {:?} (0: unit, negative: of that length) x exponents {:?}", qs.len(), sc, ts), (qs.len() * sc.len() * ts.len()) as u64, |i, l| {
        let mut d = Dec(i);
        let t = d.pick(&ts);
        let x = base(qs[d.take(qs.len())], d.pick(&sc));
        l.describe(|| format!("{} {:?} to the power {}", Q::NAME, x, t));
        let q = Q::mk(x);
        let len = n2(x).sqrt();
        if e > 1e-10 && [t, 1.0 - t].iter().any(|t| len.powf(*t).log10().abs() > 36.0) {
            // overflows single precision
            l.skip();
            return;
        }
        let g = api!(l, q.pow(t));
        let v = len3([x[0], x[1], x[2]]);
        let a = v.atan2(x[3]) * t;
        let k = len.powf(t);
        let w = [x[0] / v * a.sin() * k, x[1] / v * a.sin() * k, x[2] / v * a.sin() * k, a.cos() * k];
        let sn = v / len;
        let rel = e * (64.0 + 32.0 * t.abs() / sn + 16.0 * t.abs() * len.ln().abs());
        eq4(l, || format!("{:?} to the power {}", x, t), g.get(), w, rel * k);
        // whole powers are products
        let xs = match t {
            t if t == 0.0 => Some([0., 0., 0., 1.]),
            t if t == 1.0 => Some(x),
            t if t == 2.0 => Some(qmul(x, x)),
            t if t == 3.0 => Some(qmul(x, qmul(x, x))),
            t if t == -1.0 => Some(mulf(conj(x), 1.0 / n2(x))),
            t if t == -2.0 => {
                let y = mulf(conj(x), 1.0 / n2(x));
                Some(qmul(y, y))
            }
            _ => None,
        };
        if let Some(xs) = xs {
            eq4(l, || format!("{:?} to the power {}", x, t), g.get(), xs, rel * k);
        }
        if t == 0.5 {
            let s = api!(l, g.mul(g)).get();
            eq4(l, || format!("square of the square root of {:?}", x), s, x, 4.0 * rel * len);
        }
        // exponents add up
        let r = api!(l, q.pow(1.0 - t));
        let s = api!(l, g.mul(r)).get();
        let rel2 = rel + e * (64.0 + 32.0 * (1.0 - t).abs() / sn + 16.0 * (1.0 - t).abs() * len.ln().abs());
        eq4(l, || format!("q^{} * q^{} for q={:?}", t, 1.0 - t, x), s, x, 4.0 * rel2 * len);
    });
}

// ------------------------------------------------------------------------------------- C13

/// reference: along the great circle, by the angle between the (shorter) ends
fn slerp_ref(s: A4, e: A4, t: f64, flip: bool) -> A4 {
    let e = if flip { mulf(e, -1.0) } else { e };
    let t = t.clamp(0.0, 1.0);
    let diff = [s[0] - e[0], s[1] - e[1], s[2] - e[2], s[3] - e[3]];
    let sum = [s[0] + e[0], s[1] + e[1], s[2] + e[2], s[3] + e[3]];
    let om = 2.0 * n2(diff).sqrt().atan2(n2(sum).sqrt());
    let (k0, k1) = if om < 1e-9 { (1.0 - t, t) } else { (((1.0 - t) * om).sin() / om.sin(), (t * om).sin() / om.sin()) };
    [0, 1, 2, 3].map(|i| s[i] * k0 + e[i] * k1)
}
fn c13(ctx: &mut Ctx) {
    ctx.assume("for ends closer than a cosine of 0.9999 the library interpolates linearly; there the result may deviate by 4e-5");
    ctx.assume("when the ends are orthogonal up to rounding, either arc may be taken");
    for_quats!(c13_q, ctx);
    for_quats!(c13_near, ctx);
}
fn slerp_case<Q: QuatApi>(l: &mut Local, s: A4, e: A4, t: f64) {
    let eps = Q::S::EPS;
    let (s, e) = (rnd::<Q>(s), rnd::<Q>(e));
    let t = Q::S::of(t).d();
    l.describe(|| format!("{} from {:?} to {:?} at {}", Q::NAME, s, e, t));
    let g = api!(l, Q::slerp(Q::mk(s), Q::mk(e), t)).get();
    let c = dot4(s, e);
    let tol = if c.abs() > 0.9999 - 1e-5 { 4e-5 } else { 64.0 * eps };
    let (a, b) = (slerp_ref(s, e, t, c < 0.0), slerp_ref(s, e, t, c >= 0.0));
    let ok = near_n(&g, &a, tol) || (c.abs() < 16.0 * eps && near_n(&g, &b, tol));
    l.outcome(if c < 0.0 { "long way flipped" } else { "as given" });
    l.check(ok, || format!("from {:?} to {:?} at {}: {:?} instead of {:?}", s, e, t, g, a));
    l.check(near(n2(g), 1.0, 2.5 * tol + 64.0 * eps), || format!("from {:?} to {:?} at {}: {:?} of squared length {}", s, e, t, g, n2(g)));
    if t <= 0.0 {
        eq4(l, || format!("start of {:?} to {:?}", s, e), g, s, 16.0 * eps);
    }
    if t >= 1.0 {
        let ok = near_n(&g, &e, 16.0 * eps) || near_n(&g, &mulf(e, -1.0), 16.0 * eps);
        l.check(ok, || format!("end of {:?} to {:?} is {:?}", s, e, g));
    }
}
fn c13_q<Q: QuatApi>(ctx: &mut Ctx) {
    let qs = directions(&ctx.by(vec![-2., -1., 0., 1., 2.], vec![-3., -2., -1., 0., 1., 2., 5.]));
    let ts = alph(vec![-2.0, -0.001, 0.0, 0.0625, 0.25, 0.375, 0.5, 0.75, 0.9375, 1.0, 1.001, 100.0, 0.00048828125, 0.00000095367431640625, 0.99951171875, 0.99993896484375, 1.0 - 1.0 / 1048576.0, 0.00006103515625, -0.00006103515625]);
    let n = qs.len();
    ctx.space(&format!("pairs-{}", Q::NAME), &format!("{} x {} unit quaternions x t in {:?}", n, n, ts), (n * n * ts.len()) as u64, |i, l| {
        let mut d = Dec(i);
        let t = d.pick(&ts);
        let (s, e) = (unit(qs[d.take(n)]), unit(qs[d.take(n)]));
        slerp_case::<Q>(l, s, e, t)
    });
    // ends at given angles of each other, on both sides
    let angles = alph(vec![0.0, 1e-7, 1e-4, 0.001, 0.005, 0.0141, 0.0143, 0.016, 0.02, 0.03, 0.05, 0.1, 0.2, 0.5, 1.0, 1.3, 1.5, 1.56, 1.57, 1.5705, 1.57079, 1.5708, 1.571, 1.5715, 1.58, 1.6, 2.0, 2.5, 3.0, 3.1, 3.125, 3.13, 3.14, 3.1415, PI]);
    let bases = directions(&ctx.by(vec![-1., 0., 1., 2.], vec![-2., -1., 0., 1., 2., 3.]));
    let m = bases.len();
    ctx.space(&format!("angles-{}", Q::NAME), &format!("{} unit quaternions x 3 orthogonal directions x {} angles between the ends x t in {:?}", m, angles.len(), ts), (m * 3 * angles.len() * ts.len()) as u64, |i, l| {
        let mut d = Dec(i);
        let t = d.pick(&ts);
        let an = d.pick(&angles);
        let ax = d.take(3);
        let s = unit(bases[d.take(m)]);
        // i*s, j*s, k*s are orthogonal to s
        let mut u = [0.0; 4];
        u[ax] = 1.0;
        let o = qmul(u, s);
        let e = [0, 1, 2, 3].map(|k| s[k] * an.cos() + o[k] * an.sin());
        slerp_case::<Q>(l, s, e, t)
    });
}

/// ends of which some components are very small
fn c13_near<Q: QuatApi>(ctx: &mut Ctx) {
    let nb = neighbours();
    let ends = directions(&ctx.by(vec![-1., 0., 2.], vec![-2., -1., 0., 1., 2.]));
    let ts = alph(vec![0.0, 0.0625, 0.5, 0.75, 1.0, 1.5]);
    ctx.space(&format!("neighbours-{}", Q::NAME), &format!("{} quaternions next to units, and {} others, from the one to the other and back, and from each neighbour to another, x t in {:?}", nb.len(), ends.len(), ts), (nb.len() * (ends.len() + 40) * 2 * ts.len()) as u64, |i, l| {
        let mut d = Dec(i);
        let t = d.pick(&ts);
        let back = d.take(2) == 1;
        let k = d.take(nb.len());
        let m = d.0 as usize;
        let (s, e) = (unit(nb[k]), unit(if m < ends.len() { ends[m] } else { nb[(k * 7 + (m - ends.len()) * 11) % nb.len()] }));
        if back {
            slerp_case::<Q>(l, e, s, t)
        } else {
            slerp_case::<Q>(l, s, e, t)
        }
    });
}

// ------------------------------------------------------------------------------------- C14

fn c14(ctx: &mut Ctx) {
    ctx.assume("the plane goes through the origin and its normal is the vector part of a unit quaternion with w = 0");
    for_quats!(c14_q, ctx);
    for_quats!(c14_near, ctx);
}
fn c14_q<Q: QuatApi>(ctx: &mut Ctx) {
    let e = Q::S::EPS;
    let ns = alph({
        let mut v = lattice3(&ctx.by(vec![-3., -2., -1., 0., 1., 2., 3.], vec![-40., -5., -3., -2., -1., 0., 1., 2., 3., 7., 90.]));
        v.push([100.0, 1.0, 0.0]);
        // almost along an axis or a diagonal
        for k in [-8, -11, -14, -18, -22] {
            let t = (2.0f64).powi(k);
            for a in 0..3 {
                for b in 0..3 {
                    if a != b {
                        for s in [-1.0, 1.0] {
                            let mut n = [0.0; 3];
                            n[a] = 1.0;
                            n[b] = s * t;
                            v.push(n);
                            n[3 - a - b] = 1.0;
                            if a < 3 - a - b {
                                v.push(n);
                            }
                        }
                    }
                }
            }
        }
        v
    });
    let ps = alph({
        let mut v = lattice3(&ctx.by(vec![-2.0, -1.0, 0.0, 1.0, 3.0], vec![-2.0, -1.0, 0.0, 1.0, 3.0, 50.0, -1000.0]));
        v.push([0.0, 0.0, 0.0]);
        v.push([1e5, -1.0, 0.0]);
        v.push([0.001953125, 0.0, 1024.0]);
        for f in [1e9, 1e15, 1e-6, 1e-14] {
            v.push([f, -0.25 * f, 0.5 * f]);
            v.push([f, 1.0, -1.0]);
            v.push([1.0, f, 0.0]);
            v.push([-1.0, 0.5, f]);
        }
        for k in [-9, -15] {
            let t = (2.0f64).powi(k);
            v.push([1.0, 1.0 + t, 1.0 - t]);
            v.push([-2.0, 2.0 + t, -0.0]);
            v.push([0.0, -1.0, 1.0 + t]);
        }
        v
    });
    ctx.space(&format!("planes-{}", Q::NAME), &format!("{} plane normals x {} vectors", ns.len(), ps.len()), (ns.len() * ps.len()) as u64, |i, l| {
        let mut d = Dec(i);
        let n = d.pick(&ns);
        let p = d.pick(&ps);
        l.describe(|| format!("{} normal {:?} vector {:?}", Q::NAME, n, p));
        let nn = n[0] * n[0] + n[1] * n[1] + n[2] * n[2];
        let q = Q::mk(unit([n[0], n[1], n[2], 0.0]));
        let f = (n[0] * p[0] + n[1] * p[1] + n[2] * p[2]) / nn;
        let orth = n.map(|x| x * f);
        let par = [0, 1, 2].map(|k| p[k] - orth[k]);
        let refl = [0, 1, 2].map(|k| p[k] - 2.0 * orth[k]);
        let tol = 16.0 * e * len3(p);
        let r = api!(l, q.reflect(p));
        eq3(l, || format!("{:?} reflected in the plane of normal {:?}", p, n), r, refl, tol);
        let a = api!(l, q.parallel(p));
        eq3(l, || format!("component of {:?} in the plane of normal {:?}", p, n), a, par, tol);
        let b = api!(l, q.orthogonal(p));
        eq3(l, || format!("component of {:?} along the normal {:?}", p, n), b, orth, tol);
        let r2 = api!(l, q.reflect(r));
        eq3(l, || format!("{:?} reflected twice in the plane of normal {:?}", p, n), r2, p, 2.0 * tol);
        let r3 = api!(l, q.negate().reflect(p));
        eq3(l, || format!("{:?} reflected in the plane of normal minus {:?}", p, n), r3, refl, tol);
        eq3(l, || format!("sum of the components of {:?}", p), [0, 1, 2].map(|k| a[k] + b[k]), p, 2.0 * tol);
    });
}

/// vectors almost along the normal and almost in the plane
fn c14_near<Q: QuatApi>(ctx: &mut Ctx) {
    let e = Q::S::EPS;
    let ns = lattice3(&ctx.by(vec![-2., -1., 0., 1., 3.], vec![-3., -2., -1., 0., 1., 2., 3.]));
    let us = lattice3(&[-1., 0., 1.]);
    let ks = alph(vec![-8, -12, -16, -20]);
    let fs = alph(vec![1.0, -3.0, 1000.0, 2f64.powi(-10), 2f64.powi(30)]);
    ctx.space(&format!("near-{}", Q::NAME), &format!("{} plane normals x vectors along them or in their plane, but for a step in one of {} directions of a size 2^k, k in {:?}, and of lengths {:?}", ns.len(), us.len(), ks, fs), (ns.len() * us.len() * ks.len() * fs.len() * 4) as u64, |i, l| {
        let mut d = Dec(i);
        let n = ns[d.take(ns.len())];
        let u = us[d.take(us.len())];
        let t = (2.0f64).powi(d.pick(&ks));
        let f = d.pick(&fs);
        let b = match d.take(4) {
            0 => n,
            1 => [n[1], -n[0], 0.0],
            2 => [0.0, n[2], -n[1]],
            _ => [-n[2], 0.0, n[0]],
        };
        let p = [0, 1, 2].map(|k| Q::S::of((b[k] + t * u[k]) * f).d());
        l.describe(|| format!("{} normal {:?} vector {:?}", Q::NAME, n, p));
        let nn = n[0] * n[0] + n[1] * n[1] + n[2] * n[2];
        let q = Q::mk(unit([n[0], n[1], n[2], 0.0]));
        let h = (n[0] * p[0] + n[1] * p[1] + n[2] * p[2]) / nn;
        let tol = 16.0 * e * len3(p);
        let g = api!(l, q.orthogonal(p));
        eq3(l, || format!("component of {:?} along the normal {:?}", p, n), g, n.map(|x| x * h), tol);
        let g = api!(l, q.parallel(p));
        eq3(l, || format!("component of {:?} in the plane of normal {:?}", p, n), g, [0, 1, 2].map(|k| p[k] - n[k] * h), tol);
        let g = api!(l, q.reflect(p));
        eq3(l, || format!("{:?} reflected in the plane of normal {:?}", p, n), g, [0, 1, 2].map(|k| p[k] - 2.0 * n[k] * h), tol);
    });
}

// ------------------------------------------------------------------------------------- C15

fn c15(ctx: &mut Ctx) {
    ctx.assume("a vector part longer than one has no real completion to a unit quaternion and is outside the property");
    for_quats!(c15_q, ctx);
}
fn c15_q<Q: QuatApi>(ctx: &mut Ctx) {
    let e = Q::S::EPS;
    let al = alph(vec![-300.0, -2.0, -0.0625, 0.0, 1.0, 4.0, 2048.0]);
    ctx.space(&format!("constructors-{}", Q::NAME), &format!("every quaternion over {:?}", al), (al.len() as u64).pow(4), |i, l| {
        let mut d = Dec(i);
        let a = [d.pick(&al), d.pick(&al), d.pick(&al), d.pick(&al)];
        l.describe(|| format!("{} {:?}", Q::NAME, a));
        let g = api!(l, Q::raw_vals(a)).get();
        eq4(l, || "quaternion from its components".into(), g, a, 0.0);
        for g in [Q::dflt().get(), Q::init().get()] {
            eq4(l, || "the initial quaternion".into(), g, [0., 0., 0., 1.], 0.0);
        }
        let q = Q::mk(a);
        if n2(a) > 0.0 {
            let u = unit(a);
            let tol = 4.0 * e;
            let g = api!(l, q.normalize()).get();
            eq4(l, || format!("{:?} normalized", a), g, u, tol);
            let g = api!(l, Q::init_normalize(a)).get();
            eq4(l, || format!("quaternion from {:?} normalized", a), g, u, tol);
            for k in 0..4 {
                l.check(near(g[k], u[k], 8.0 * e * u[k].abs()), || format!("{:?} normalized is {:?}", a, g));
            }
        }
        // the translation of a quaternion is twice its vector part
        for rm in [true, false] {
            let (m, o) = api!(l, q.translation_matrix(rm));
            let ok = (0..16).all(|k| m[k] == if k % 5 == 0 { 1.0 } else if k % 4 == 3 { 2.0 * a[k / 4] } else { 0.0 });
            l.check(o == rm && ok, || format!("translation matrix of {:?} (row_major={}, said to be {}): {:?}", a, rm, o, m));
        }
        let (r, t) = api!(l, Q::dual(q, q.negate()));
        eq4(l, || "rotation part of the dual quaternion".into(), r, a, 0.0);
        eq4(l, || "translation part of the dual quaternion".into(), t, mulf(a, -1.0), 0.0);
    });
    let (nb, ln) = (alph(neighbours()), alph(lengths()));
    ctx.space(&format!("neighbours-{}", Q::NAME), &format!("normalizing {} quaternions next to units x {} lengths around one, tiny and large", nb.len(), ln.len()), (nb.len() * ln.len()) as u64, |i, l| {
        let mut d = Dec(i);
        let f = d.pick(&ln);
        let a = rnd::<Q>(mulf(d.pick(&nb), f));
        l.describe(|| format!("{} {:?}", Q::NAME, a));
        let u = unit(a);
        for g in [api!(l, Q::mk(a).normalize()).get(), api!(l, Q::init_normalize(a)).get()] {
            for k in 0..4 {
                l.check(near(g[k], u[k], 8.0 * e * u[k].abs()), || format!("{:?} normalized is {:?}", a, g));
            }
        }
        let g = api!(l, Q::raw_vals(a)).get();
        eq4(l, || "quaternion from its components".into(), g, a, 0.0);
    });
    // completion to a unit quaternion, w <= 0
    let sf = ctx.by(256i64, 1024);
    ctx.space(&format!("auto-w-surface-{}", Q::NAME), &format!("for all multiples x, y of 1/{} the 3 multiples z of it closest to the unit sphere from inside, both signs", sf), ((2 * sf + 1) as u64).pow(2) * 6, |i, l| {
        let mut d = Dec(i);
        let n = (2 * sf + 1) as usize;
        let (x, y) = (d.take(n) as i64 - sf, d.take(n) as i64 - sf);
        let sg = if d.take(2) == 0 { 1 } else { -1 };
        let k = d.take(3) as i64;
        let rest = sf * sf - x * x - y * y;
        let mut z = (rest.max(0) as f64).sqrt() as i64;
        while z * z > rest && z > 0 {
            z -= 1
        }
        z -= k;
        if rest < 0 || z < 0 || (z == 0 && sg < 0) {
            l.skip();
            return;
        }
        let v = [x, y, sg * z].map(|t| t as f64 / sf as f64);
        l.describe(|| format!("{} {:?}", Q::NAME, v));
        let q = api!(l, Q::auto_w(v)).get();
        let w = -(((rest - z * z) as f64).sqrt() / sf as f64);
        l.check(q[0] == v[0] && q[1] == v[1] && q[2] == v[2], || format!("vector part {:?} became {:?}", v, q));
        l.check(near(q[3] * q[3], w * w, 8.0 * e) && q[3] <= 0.0, || format!("w completing {:?} is {} instead of {}", v, q[3], w));
    });
    let st = ctx.by(16i64, 64);
    ctx.space(&format!("auto-w-{}", Q::NAME), &format!("every vector of multiples of 1/{} of length at most one", st), ((2 * st + 1) as u64).pow(3), |i, l| {
        let mut d = Dec(i);
        let n = (2 * st + 1) as usize;
        let c = [d.take(n) as i64 - st, d.take(n) as i64 - st, d.take(n) as i64 - st];
        let r = st * st - c[0] * c[0] - c[1] * c[1] - c[2] * c[2];
        if r < 0 {
            l.skip();
            return;
        }
        let v = c.map(|x| x as f64 / st as f64);
        l.describe(|| format!("{} {:?}", Q::NAME, v));
        let q = api!(l, Q::auto_w(v)).get();
        let w = -((r as f64).sqrt() / st as f64);
        l.check(q[0] == v[0] && q[1] == v[1] && q[2] == v[2], || format!("vector part {:?} became {:?}", v, q));
        l.check(near(q[3], w, 4.0 * e), || format!("w completing {:?} is {} instead of {}", v, q[3], w));
        l.check(near(n2(q), 1.0, 16.0 * e), || format!("{:?} is not of unit length", q));
    });
    let bits = if e > 1e-10 { 23 } else { 52 };
    ctx.space(&format!("auto-w-ends-{}", Q::NAME), "vectors along an axis, short of one by every power of two", bits as u64 * 6, |i, l| {
        let mut d = Dec(i);
        let (ax, sg) = (d.take(3), [1.0, -1.0][d.take(2)]);
        let x = 0.5f64.powi(1 + d.take(bits) as i32);
        let mut v = [0.0; 3];
        v[ax] = sg * (1.0 - x);
        l.describe(|| format!("{} {:?}", Q::NAME, v));
        let q = api!(l, Q::auto_w(v)).get();
        let w2 = 2.0 * x - x * x;
        l.check(q[0] == v[0] && q[1] == v[1] && q[2] == v[2], || format!("vector part {:?} became {:?}", v, q));
        l.check(near(q[3] * q[3], w2, 4.0 * e) && q[3] <= 0.0, || format!("w completing {:?} is {} instead of {}", v, q[3], -w2.sqrt()));
    });
    // translations
    let tl = alph(vec![-1024.0, -3.0, 0.0, 0.5, 7.0, 100.0]);
    ctx.space(&format!("translation-{}", Q::NAME), &format!("every translation over {:?}, both orders, of 4 points and directions", tl), (tl.len() as u64).pow(3) * 2, |i, l| {
        let mut d = Dec(i);
        let rm = d.take(2) == 0;
        let t = [d.pick(&tl), d.pick(&tl), d.pick(&tl)];
        l.describe(|| format!("{} translation {:?} row_major={}", Q::NAME, t, rm));
        let q = api!(l, Q::from_translation(t));
        eq4(l, || "translation quaternion".into(), q.get(), [t[0] / 2.0, t[1] / 2.0, t[2] / 2.0, 0.0], 0.0);
        let (m, o) = api!(l, q.translation_matrix(rm));
        l.check(o == rm, || "the matrix has the other storage order".into());
        for r in 0..4 {
            for c in 0..4 {
                let w = if r == c {
                    1.0
                } else if c == 3 {
                    t[r]
                } else {
                    0.0
                };
                l.check(m[r * 4 + c] == w, || format!("translation matrix of {:?} (row_major={}): entry ({},{}) is {}", t, rm, r, c, m[r * 4 + c]));
            }
        }
        for v in [[0.0, 0.0, 0.0], [1.0, -2.0, 3.0], [64.0, 0.0, -0.5], [-t[0], -t[1], -t[2]]] {
            let g = api!(l, q.matrix_apply_t(rm, [v[0], v[1], v[2], 1.0]));
            eq4(l, || format!("point {:?} translated by {:?} (row_major={})", v, t, rm), g, [v[0] + t[0], v[1] + t[1], v[2] + t[2], 1.0], 0.0);
            let g = api!(l, q.matrix_apply_t(rm, [v[0], v[1], v[2], 0.0]));
            eq4(l, || format!("direction {:?} translated by {:?} (row_major={})", v, t, rm), g, [v[0], v[1], v[2], 0.0], 0.0);
        }
    });
    let wl = alph(vec![-0.0, 2f64.powi(-30), -1e-12, 1e9, -3.5, 2f64.powi(60), 1.0 - 2f64.powi(-14), -1.0 - 2f64.powi(-17), 0.5 + 2f64.powi(-12), 2.0 - 2f64.powi(-13)]);
    ctx.space(&format!("translation-wide-{}", Q::NAME), &format!("every translation over {:?}, both orders, of 3 points and a direction", wl), (wl.len() as u64).pow(3) * 2, |i, l| {
        let mut d = Dec(i);
        let rm = d.take(2) == 0;
        let t = [0, 1, 2].map(|_| Q::S::of(d.pick(&wl)).d());
        l.describe(|| format!("{} translation {:?} row_major={}", Q::NAME, t, rm));
        let q = api!(l, Q::from_translation(t));
        eq4(l, || "translation quaternion".into(), q.get(), [t[0] / 2.0, t[1] / 2.0, t[2] / 2.0, 0.0], 0.0);
        for (v, w) in [([0.0, 0.0, 0.0], 1.0), ([1.0, -2.0, 3.0], 1.0), (t, 1.0), ([64.0, 0.0, -0.5], 0.0)] {
            let g = api!(l, q.matrix_apply_t(rm, [v[0], v[1], v[2], w]));
            for k in 0..4 {
                let x = if k < 3 { v[k] + t[k] * w } else { w };
                l.check(near(g[k], x, 2.0 * e * x.abs()), || format!("{:?} (w={}) translated by {:?} (row_major={}) is {:?}", v, w, t, rm, g));
            }
        }
    });
    // linear interpolation between ends of any magnitude, equal, opposite or close
    let fl = alph(vec![1.0, 2f64.powi(-45), 2f64.powi(-12), 2f64.powi(20), 2f64.powi(50)]);
    let nb1: Vec<A4> = neighbours().into_iter().step_by(3).collect();
    let tn = alph(vec![-1.0, 0.0, 0.00048828125, 0.3, 0.5, 0.9, 1.0, 2.0]);
    ctx.space(&format!("lerp-near-{}", Q::NAME), &format!("{} quaternions next to units, scaled by {:?}, to the same, the opposite, a multiple or a neighbour of them, x t in {:?}", nb1.len(), fl, tn), (nb1.len() * fl.len() * tn.len() * 6) as u64, |i, l| {
        let mut d = Dec(i);
        let (t, f) = (Q::S::of(d.pick(&tn)).d(), d.pick(&fl));
        let how = d.take(6);
        let a = rnd::<Q>(mulf(nb1[d.take(nb1.len())], f));
        let b = rnd::<Q>(match how {
            0 => a,
            1 => mulf(a, -1.0),
            2 => mulf(a, 1024.0),
            3 => [a[0], a[1] + f * 2f64.powi(-12), a[2], a[3]],
            4 => [a[0], a[1], a[2] - f * 2f64.powi(-18), a[3]],
            _ => [-a[0], -a[1], a[2], a[3]],
        });
        l.describe(|| format!("{} from {:?} to {:?} at {}", Q::NAME, a, b, t));
        let g = api!(l, Q::lerp(Q::mk(a), Q::mk(b), t)).get();
        let c = t.clamp(0.0, 1.0);
        for k in 0..4 {
            let w = a[k] + (b[k] - a[k]) * c;
            l.check(near(g[k], w, 4.0 * e * a[k].abs().max(b[k].abs())), || format!("from {:?} to {:?} at {}: {:?}, component {} is not {}", a, b, t, g, k, w));
        }
    });
    // linear interpolation, clamped
    let ts = alph(vec![-5.0, -0.0625, -0.00048828125, 0.0, 0.000030517578125, 0.00048828125, 0.125, 0.5, 0.875, 0.99951171875, 0.999969482421875, 1.0, 1.00048828125, 1.0625, 9.0]);
    let ls = alph(vec![-2.0, -1.0, 0.0, 1.0, 8.0]);
    ctx.space(&format!("lerp-{}", Q::NAME), &format!("every pair of quaternions over {:?} x t in {:?}", ls, ts), (ls.len() as u64).pow(8) * ts.len() as u64, |i, l| {
        let mut d = Dec(i);
        let t = d.pick(&ts);
        let a = [d.pick(&ls), d.pick(&ls), d.pick(&ls), d.pick(&ls)];
        let b = [d.pick(&ls), d.pick(&ls), d.pick(&ls), d.pick(&ls)];
        l.describe(|| format!("{} from {:?} to {:?} at {}", Q::NAME, a, b, t));
        let g = api!(l, Q::lerp(Q::mk(a), Q::mk(b), t)).get();
        let c = t.clamp(0.0, 1.0);
        eq4(l, || format!("from {:?} to {:?} at {}", a, b, t), g, [0, 1, 2, 3].map(|k| a[k] + (b[k] - a[k]) * c), 0.0);
    });
}

// ------------------------------------------------------------------------------------- C32

type I3 = [i64; 3];
type R3 = [I3; 3];
fn times(a: &R3, b: &R3) -> R3 {
    [0, 1, 2].map(|i| [0, 1, 2].map(|j| (0..3).map(|k| a[i][k] * b[k][j]).sum()))
}
fn apply(a: &R3, v: I3) -> I3 {
    [0, 1, 2].map(|i| (0..3).map(|k| a[i][k] * v[k]).sum())
}
fn turned(a: &R3) -> R3 {
    [0, 1, 2].map(|i| [0, 1, 2].map(|j| a[j][i]))
}
const ONE: R3 = [[1, 0, 0], [0, 1, 0], [0, 0, 1]];
/// one rigid motion, four ways: quaternion with a vector, both matrices, and exactly
#[derive(Clone)]
struct Motion<Q, M> {
    q: Q,
    t: [f64; 3],
    m: [M; 2],
    rot: R3,
    mv: I3,
    n: u32,
}
fn c32(ctx: &mut Ctx) {
    ctx.assume("rotations of the cube's symmetry group and moves by integers, so that the motion is known exactly; the way through axis and angle is not taken at the identity, which has no axis");
    c32_q::<Quat<f64>, Mat4<f64>>(ctx);
    c32_q::<Quat<f32>, Mat4<f32>>(ctx);
}
fn c32_q<Q: QuatApi, M: MatApi>(ctx: &mut Ctx) {
    let e = Q::S::EPS;
    let h = 0.5;
    let gens: [(Q, R3, &str); 6] = [
        (Q::from_degree([1., 0., 0.], 90.), [[1, 0, 0], [0, 0, -1], [0, 1, 0]], "90 degrees about x"),
        (Q::from_degree([0., -2., 0.], -90.), [[0, 0, 1], [0, 1, 0], [-1, 0, 0]], "90 degrees about y"),
        (Q::from_radian([0., 0., 1.], -PI / 2.0), [[0, 1, 0], [-1, 0, 0], [0, 0, 1]], "-90 degrees about z"),
        (Q::from_radian([3., 3., 3.], PI / 1.5), [[0, 0, 1], [1, 0, 0], [0, 1, 0]], "120 degrees about (1,1,1)"),
        (Q::from_degree([0., 1., 1.], 180.), [[-1, 0, 0], [0, 0, 1], [0, 1, 0]], "180 degrees about (0,1,1)"),
        (Q::raw_vals([h, -h, h, h]), [[0, -1, 0], [0, 0, -1], [1, 0, 0]], "120 degrees about (1,-1,1)"),
    ];
    let moves: [I3; 3] = [[1, 0, 0], [0, -2, 5], [-3, 4, 7]];
    let fl = |v: I3| v.map(|x| x as f64);
    // the very matrix: its entries by row, and its order
    let mat = |(r, rm): (A16, bool)| {
        let mut v = r;
        if !rm {
            for i in 0..16 {
                v[i] = r[i % 4 * 4 + i / 4]
            }
        }
        M::of_raw(&v, rm)
    };
    let shift = |v: [f64; 3], rm: bool| mat(Q::from_translation(v).translation_matrix(rm));
    let watch = |l: &mut Local, s: &Motion<Q, M>| {
        let tol = e * (64 + 32 * s.n) as f64 * 8.0;
        let big = 1.0 + s.mv.iter().map(|x| x.abs()).max().unwrap() as f64;
        for (k, m) in s.m.iter().enumerate() {
            let name = ["row-major", "column-major"][k];
            let r = m.rows();
            for i in 0..4 {
                for j in 0..4 {
                    let w = if i == 3 { (j == 3) as i64 } else if j == 3 { s.mv[i] } else { s.rot[i][j] } as f64;
                    let g = m.at(i, j);
                    if !near(g, w, tol * big) || g.to_bits() != r[i * 4 + j].to_bits() {
                        l.fail(format!("entry {},{} of the {} matrix is {} instead of {}; the motion is {:?} then a move by {:?}", i, j, name, g, w, s.rot, s.mv));
                        return;
                    }
                }
            }
        }
        for p in [[0, 0, 0], [1, 2, 3], [-5, 0, 2]] {
            let w = apply(&s.rot, p);
            let w = fl([w[0] + s.mv[0], w[1] + s.mv[1], w[2] + s.mv[2]]);
            let g = api!(l, s.q.rotate(fl(p)));
            eq3(l, || format!("{:?} by quaternion and vector", p), [g[0] + s.t[0], g[1] + s.t[1], g[2] + s.t[2]], w, tol * big);
            let f = fl(p);
            for k in 0..2 {
                let a = api!(l, s.m[k].mul_col(&[f[0], f[1], f[2], 1.0])).unwrap_or([f64::NAN; 4]);
                eq4(l, || format!("{:?} by matrix {}", p, k), a, [w[0], w[1], w[2], 1.0], tol * big);
                let tr = api!(l, s.m[k].transpose());
                let a = api!(l, tr.row_mul(&[f[0], f[1], f[2], 1.0])).unwrap_or([f64::NAN; 4]);
                eq4(l, || format!("{:?} as a row by the transpose of matrix {}", p, k), a, [w[0], w[1], w[2], 1.0], tol * big);
            }
        }
        // the rotation alone: matrix of the quaternion against the upper left of the motion
        for k in 0..2 {
            let r = api!(l, mat(s.q.rotation_matrix(k == 0)));
            for i in 0..3 {
                for j in 0..3 {
                    l.check(near(r.at(i, j), s.rot[i][j] as f64, tol), || format!("entry {},{} of rotation matrix {} of the quaternion is {} instead of {}", i, j, k, r.at(i, j), s.rot[i][j]));
                }
            }
        }
    };
    let start = Motion { q: Q::init(), t: [0.0; 3], m: [M::iden(), shift([0.0; 3], false)], rot: ONE, mv: [0; 3], n: 0 };
    let far = {
        let v = [100.0, -20.0, 3.0];
        let g = &gens[3];
        let m = [true, false].map(|rm| shift(v, rm).mul(&mat(g.0.rotation_matrix(rm))).unwrap());
        Motion { q: g.0, t: v, m, rot: g.1, mv: [100, -20, 3], n: 2 }
    };
    ctx.bfs(
        &format!("motions-{}", Q::NAME),
        "every sequence of 6 rotations and 3 moves on either side, inversions, and ways through other representations, of a motion kept as quaternion and vector and as row-major and column-major matrix",
        vec![start, far],
        23,
        ctx.by(4, 5),
        14_000_000,
        |s, op, l| {
            let mut s = s.clone();
            s.n += 1;
            match op {
                0..=11 => {
                    let (g, r, _) = &gens[op as usize % 6];
                    let ms = [true, false].map(|rm| mat(g.rotation_matrix(rm)));
                    if op < 6 {
                        for k in 0..2 {
                            s.m[k] = api!(l, ms[k].mul(&s.m[k])).unwrap()
                        }
                        s.q = api!(l, g.mul(s.q));
                        s.t = api!(l, g.rotate(s.t));
                        s.rot = times(r, &s.rot);
                        s.mv = apply(r, s.mv);
                    } else {
                        for k in 0..2 {
                            s.m[k] = api!(l, s.m[k].mul(&ms[k])).unwrap()
                        }
                        s.q = api!(l, s.q.mul(*g));
                        s.rot = times(&s.rot, r);
                    }
                }
                12..=17 => {
                    let v = moves[op as usize % 3];
                    let ms = [true, false].map(|rm| shift(fl(v), rm));
                    let (a, b) = if op < 15 { (fl(v), v) } else { (api!(l, s.q.rotate(fl(v))), apply(&s.rot, v)) };
                    for k in 0..2 {
                        s.m[k] = api!(l, if op < 15 { ms[k].mul(&s.m[k]) } else { s.m[k].mul(&ms[k]) }).unwrap()
                    }
                    for i in 0..3 {
                        s.t[i] += a[i];
                        s.mv[i] += b[i];
                    }
                }
                18 => {
                    for k in 0..2 {
                        let Some(m) = api!(l, s.m[k].inverse()) else {
                            l.fail(format!("matrix {} of the motion {:?}, {:?} has no inverse", k, s.rot, s.mv));
                            return None;
                        };
                        s.m[k] = m;
                    }
                    s.q = api!(l, s.q.inverse());
                    s.t = api!(l, s.q.rotate(s.t)).map(|x| -x);
                    s.rot = turned(&s.rot);
                    s.mv = apply(&s.rot, s.mv).map(|x| -x);
                }
                19 => {
                    if s.rot == ONE {
                        return None;
                    }
                    let (ax, an) = api!(l, s.q.to_axis_angle());
                    s.q = api!(l, Q::from_radian(ax, an));
                }
                20 => {
                    // matrices made anew, each order from the other way round
                    let q = api!(l, s.q.normalize());
                    for k in 0..2 {
                        s.m[k] = api!(l, shift(s.t, k == 0).mul(&mat(q.rotation_matrix(k == 0)))).unwrap();
                    }
                    s.q = q;
                }
                21 => s.q = api!(l, s.q.negate()),
                _ => {
                    // through a dual quaternion, and the move back from its matrix
                    let (r, t) = api!(l, Q::dual(s.q, Q::from_translation(s.t)));
                    s.q = Q::mk(r);
                    let m = mat(Q::mk(t).translation_matrix(s.n % 2 == 0));
                    s.t = [m.at(0, 3), m.at(1, 3), m.at(2, 3)];
                }
            }
            watch(l, &s);
            Some(s)
        },
        |s| {
            let b = |v: &[f64]| v.iter().map(|x| (x + 0.0).to_bits()).collect::<Vec<_>>();
            (b(&s.q.get()), b(&s.t), b(&s.m[0].raw().0), b(&s.m[1].raw().0), s.n)
        },
        |o| match o {
            0..=5 => format!("then rotate {}", gens[o as usize].2),
            6..=11 => format!("first rotate {}", gens[o as usize - 6].2),
            12..=14 => format!("then move by {:?}", moves[o as usize - 12]),
            15..=17 => format!("first move by {:?}", moves[o as usize - 15]),
            18 => "invert".into(),
            19 => "quaternion through axis and angle".into(),
            20 => "matrices anew from the quaternion".into(),
            21 => "negate the quaternion".into(),
            _ => "through a dual quaternion".into(),
        },
    );
}

// ------------------------------------------------------------------------------------- C35

/// three vectors carried through a history, and where they are exactly
#[derive(Clone)]
struct Carried<Q> {
    p: [[f64; 3]; 3],
    x: [[f64; 3]; 3],
    /// product of the normals and rotations, as long as nothing was projected
    q: Option<Q>,
    odd: bool,
    n: u32,
}
fn c35(ctx: &mut Ctx) {
    ctx.assume("planes of symmetry of the cube and rotations of it, so that every projected vector is known exactly");
    for_quats!(c35_q, ctx);
}
fn c35_q<Q: QuatApi>(ctx: &mut Ctx) {
    let e = Q::S::EPS;
    let ns: [[f64; 3]; 9] = [[1., 0., 0.], [0., -1., 0.], [0., 0., 1.], [1., 1., 0.], [-1., 1., 0.], [1., 0., 1.], [1., 0., -1.], [0., 1., 1.], [0., -1., 1.]];
    let planes = ns.map(|n| Q::mk(unit([n[0], n[1], n[2], 0.0])));
    let turns = [[0.5, 0.5, 0.5, 0.5], [-0.5, 0.5, 0.5, -0.5], [0.5f64.sqrt(), 0.0, 0.0, 0.5f64.sqrt()]];
    let turn = |k: usize, v: [f64; 3]| match k {
        0 => [v[2], v[0], v[1]],
        1 => {
            // the textbook rotation, exact for halves
            let r = qmul(qmul(turns[1], [v[0], v[1], v[2], 0.0]), conj(turns[1]));
            [r[0], r[1], r[2]]
        }
        _ => [v[0], -v[2], v[1]],
    };
    let start = [[1., 0., 0.], [3., -2., 5.], [0., 7., 1.]];
    let name = |o: u32| match o {
        0..=8 => format!("reflect at the plane of normal {:?}", ns[o as usize]),
        9..=17 => format!("take the component in the plane of normal {:?}", ns[o as usize - 9]),
        18..=26 => format!("take the component along the normal {:?}", ns[o as usize - 18]),
        _ => format!("rotate by the quaternion {:?}", turns[o as usize - 27]),
    };
    ctx.bfs(
        &format!("words-{}", Q::NAME),
        "every sequence of reflections at 9 planes, projections to them and to their normals, and 3 rotations, of three vectors; reflections also as one quaternion",
        vec![Carried { p: start, x: start, q: Some(Q::init()), odd: false, n: 0 }],
        30,
        ctx.by(4, 5),
        16_000_000,
        |s, op, l| {
            let mut s = s.clone();
            s.n += 1;
            let k = op as usize % 9;
            for i in 0..3 {
                let (p, x) = (s.p[i], s.x[i]);
                if op < 27 {
                    let n = ns[k];
                    let nn: f64 = n.iter().map(|a| a * a).sum();
                    let f = (n[0] * x[0] + n[1] * x[1] + n[2] * x[2]) / nn;
                    let (m, g) = match op / 9 {
                        0 => ([1.0, -2.0], api!(l, planes[k].reflect(p))),
                        1 => ([1.0, -1.0], api!(l, planes[k].parallel(p))),
                        _ => ([0.0, 1.0], api!(l, planes[k].orthogonal(p))),
                    };
                    s.x[i] = [0, 1, 2].map(|j| m[0] * x[j] + m[1] * f * n[j]);
                    s.p[i] = g;
                } else {
                    s.p[i] = api!(l, Q::mk(turns[k]).rotate(p));
                    s.x[i] = turn(k, x);
                }
                eq3(l, || format!("{:?} carried along", start[i]), s.p[i], s.x[i], 64.0 * e * len3(start[i]) * s.n as f64);
            }
            match (op / 9, s.q) {
                (0, Some(q)) => {
                    s.q = Some(api!(l, planes[k].mul(q)));
                    s.odd = !s.odd;
                }
                (3, Some(q)) => s.q = Some(api!(l, Q::mk(turns[k]).mul(q))),
                _ => {
                    s.q = None;
                    s.odd = false;
                }
            }
            if let (Some(q), false) = (s.q, s.odd) {
                for i in 0..3 {
                    let g = api!(l, q.rotate(start[i]));
                    eq3(l, || format!("{:?} rotated by the product of the normals", start[i]), g, s.x[i], 64.0 * e * len3(start[i]) * s.n as f64);
                }
            }
            Some(s)
        },
        |s| {
            let b = |v: &[f64; 3]| v.map(|x| (x + 0.0).to_bits());
            (b(&s.p[0]), b(&s.p[1]), b(&s.p[2]), s.q.map(|q| q.get().map(|x| (x + 0.0).to_bits())), s.odd, s.n)
        },
        name,
    );
}

// ------------------------------------------------------------------------------------- C36

/// an arc between two orientations: the library's ends, the exact ones, and how far the former may be off
#[derive(Clone)]
struct Arc<Q> {
    a: Q,
    b: Q,
    xa: A4,
    xb: A4,
    tol: f64,
    n: u32,
}

fn c36(ctx: &mut Ctx) {
    ctx.assume("arcs whose ends are orthogonal up to rounding have two shorter ways and are not continued; below a cosine of 0.9999 of each other the library interpolates linearly and may deviate by 4e-5");
    for_quats!(c36_q, ctx);
}
fn c36_q<Q: QuatApi>(ctx: &mut Ctx) {
    let eps = Q::S::EPS;
    let parts = [(0.0, 0.5), (0.5, 1.0), (0.0, 1.0 / 3.0), (0.25, 0.75), (0.7, 1.0), (0.5, 2.0)];
    let turns = [unit([1., -2., 0., 2.]), unit([0.5, 0.5, 0.5, -0.5]), unit([0., 3., 1., 0.])];
    let ts = [0.0, 0.125, 1.0 / 3.0, 0.5, 0.7, 1.0];
    let near_arc = |c: f64| c.abs() > 0.9999 - 1e-5;
    let slack = |xa: A4, xb: A4| {
        let c = dot4(xa, xb);
        if near_arc(c) {
            4e-5
        } else {
            eps * (64.0 + 8.0 / (1.0 - c * c).sqrt())
        }
    };
    let rot = |ax: [f64; 3], deg: f64| {
        let (s, c) = (deg * PI / 360.0).sin_cos();
        let n = len3(ax);
        [ax[0] / n * s, ax[1] / n * s, ax[2] / n * s, c]
    };
    let mut inits = vec![];
    for (xa, xb) in [
        ([0., 0., 0., 1.], rot([0., 0., 1.], 120.0)),
        (rot([1., 1., 0.], 50.0), qmul(rot([0., 1., 3.], 100.0), rot([1., 1., 0.], 50.0))),
        (rot([1., 0., 0.], 180.0), rot([1., 0., 0.], 200.0)),
        (rot([2., 1., -1.], 90.0), mulf(rot([2., 0., -1.], 150.0), -1.0)),
        (rot([0., 1., 0.], 10.0), rot([0., 1., 0.], -160.0)),
    ] {
        inits.push(Arc { a: Q::mk(xa), b: Q::mk(xb), xa, xb, tol: 2.0 * eps, n: 0 });
    }
    let nops = parts.len() as u32 + 5 + 2 * turns.len() as u32;
    let name = |o: u32| {
        let o = o as usize;
        if o < parts.len() {
            return if parts[o].1 > 1.0 { "go on as far again".into() } else { format!("keep the part from {} to {}", parts[o].0, parts[o].1) };
        }
        let o = o - parts.len();
        match o {
            0 => "swap the ends".into(),
            1 => "negate the end".into(),
            2 => "negate the start".into(),
            3 => "conjugate both".into(),
            4 => "invert both, and swap".into(),
            _ => format!("turn both by {:?} from the {}", turns[(o - 5) / 2], ["left", "right"][(o - 5) % 2]),
        }
    };
    ctx.bfs(
        &format!("arcs-{}", Q::NAME),
        "every sequence of taking parts of an arc (by interpolation), going on, swapping, negating, conjugating and turning its ends, of 5 arcs; interpolation, powers and angles compared at 6 parameters in every state",
        inits,
        nops,
        ctx.by(5, 6),
        10_000_000,
        |s, op, l| {
            let mut s = s.clone();
            s.n += 1;
            let op = op as usize;
            if op < parts.len() {
                let (u, v) = parts[op];
                let flip = dot4(s.xa, s.xb) < 0.0;
                if v > 1.0 {
                    // b a^-1 b: as far again
                    let b = if flip { api!(l, s.b.negate()) } else { s.b };
                    let xb = if flip { mulf(s.xb, -1.0) } else { s.xb };
                    s.b = api!(l, b.mul(s.a.inverse().mul(b)));
                    s.xb = qmul(xb, qmul(conj(s.xa), xb));
                    s.tol = 3.0 * s.tol + 16.0 * eps;
                } else {
                    let (a, b) = (api!(l, Q::slerp(s.a, s.b, u)), api!(l, Q::slerp(s.a, s.b, v)));
                    let k = slack(s.xa, s.xb);
                    let (xa, xb) = (slerp_ref(s.xa, s.xb, u, flip), slerp_ref(s.xa, s.xb, v, flip));
                    s = Arc { a, b, xa, xb, tol: s.tol + k, n: s.n };
                }
            } else {
                match op - parts.len() {
                    0 => {
                        std::mem::swap(&mut s.a, &mut s.b);
                        std::mem::swap(&mut s.xa, &mut s.xb);
                    }
                    1 => {
                        s.b = api!(l, s.b.negate());
                        s.xb = mulf(s.xb, -1.0);
                    }
                    2 => {
                        s.a = api!(l, s.a.scale(-1.0));
                        s.xa = mulf(s.xa, -1.0);
                    }
                    3 => {
                        s.a = api!(l, s.a.conjugate());
                        s.b = api!(l, s.b.conjugate());
                        s.xa = conj(s.xa);
                        s.xb = conj(s.xb);
                    }
                    4 => {
                        let (a, b) = (api!(l, s.b.inverse()), api!(l, s.a.inverse()));
                        let (xa, xb) = (conj(s.xb), conj(s.xa));
                        s = Arc { a, b, xa, xb, tol: s.tol + 8.0 * eps, n: s.n };
                    }
                    k => {
                        let p = turns[(k - 5) / 2];
                        let q = Q::mk(p);
                        let left = (k - 5) % 2 == 0;
                        let f = |l: &mut Local, x: Q| if left { api!(l, q.mul(x)) } else { api!(l, x.mul(q)) };
                        s.a = f(l, s.a);
                        s.b = f(l, s.b);
                        let f = |x: A4| if left { qmul(p, x) } else { qmul(x, p) };
                        s.xa = f(s.xa);
                        s.xb = f(s.xb);
                        s.tol += 16.0 * eps;
                    }
                }
            }
            // ends stay where they belong
            eq4(l, || "the start of the arc".into(), s.a.get(), s.xa, s.tol);
            eq4(l, || "the end of the arc".into(), s.b.get(), s.xb, s.tol);
            let c = dot4(s.xa, s.xb);
            if l.failed() || c.abs() < 0.02 {
                return None;
            }
            let flip = c < 0.0;
            let sn = (1.0 - c * c).max(0.0).sqrt();
            let base = 4.0 * s.tol + slack(s.xa, s.xb);
            let up = |x: A4, w: A4| if dot4(x, w) < 0.0 { mulf(x, -1.0) } else { x };
            // the quotient of the ends, of acute angle
            let d = api!(l, s.a.inverse().mul(s.b));
            let d = if flip { api!(l, d.negate()) } else { d };
            let other = base + (s.tol + 16.0 * eps) * 32.0 / sn.max(1e-9);
            let aa = if sn > 0.01 { Some(api!(l, d.to_axis_angle())) } else { None };
            for t in ts {
                let w = slerp_ref(s.xa, s.xb, t, flip);
                let g = api!(l, Q::slerp(s.a, s.b, t)).get();
                eq4(l, || format!("interpolation at {} of {:?} to {:?}", t, s.xa, s.xb), g, w, base);
                let g = api!(l, Q::slerp(s.b, s.a, 1.0 - t)).get();
                eq4(l, || format!("interpolation back at {} of {:?} to {:?}", t, s.xa, s.xb), up(g, w), w, base);
                if let Some((ax, an)) = aa {
                    let g = api!(l, s.a.mul(d.pow(t))).get();
                    eq4(l, || format!("start times the power {} of the quotient, {:?} to {:?}", t, s.xa, s.xb), g, w, other);
                    let g = api!(l, s.a.mul(Q::from_radian(ax, an * t))).get();
                    eq4(l, || format!("start turned by the part {} of the angle of the quotient, {:?} to {:?}", t, s.xa, s.xb), up(g, w), w, other);
                }
            }
            l.outcome(if aa.is_some() { "four ways" } else { "two ways" });
            Some(s)
        },
        |s| (s.a.get().map(|x| (x + 0.0).to_bits()), s.b.get().map(|x| (x + 0.0).to_bits()), s.n),
        name,
    );
}
