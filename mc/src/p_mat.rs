//! Matrices and vectors: C01..C08.

use crate::api::*;
use crate::engine::*;

pub fn checks() -> Vec<(&'static str, fn(&mut Ctx))> {
    vec![
        ("C01", c01),
        ("C02", c02),
        ("C03", c03),
        ("C04", c04),
        ("C05", c05),
        ("C06", c06),
        ("C07", c07),
        ("C08", c08),
        ("C38", c38),
    ]
}

/// All ways to replace at most `k` of `slots` entries of a base by one of `vals`.
pub struct Devs {
    tuples: Vec<Vec<u8>>,
    vals: Vec<f64>,
    offs: Vec<u64>,
}
impl Devs {
    pub fn new(slots: usize, k: usize, vals: &[f64]) -> Devs {
        fn rec(start: usize, slots: usize, left: usize, cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
            if left == 0 {
                out.push(cur.clone());
                return;
            }
            for i in start..slots {
                cur.push(i as u8);
                rec(i + 1, slots, left - 1, cur, out);
                cur.pop();
            }
        }
        let mut tuples = vec![];
        for n in 0..=k {
            rec(0, slots, n, &mut vec![], &mut tuples);
        }
        let mut offs = vec![0u64];
        for t in &tuples {
            offs.push(offs.last().unwrap() + (vals.len() as u64).pow(t.len() as u32));
        }
        Devs { tuples, vals: alph(vals.to_vec()), offs }
    }
    pub fn size(&self) -> u64 {
        *self.offs.last().unwrap()
    }
    pub fn apply(&self, idx: u64, arr: &mut [f64]) {
        self.each(idx, |p, v| arr[p] = v)
    }
    /// adds the values instead of putting them in place
    pub fn nudge(&self, idx: u64, arr: &mut [f64]) {
        self.each(idx, |p, v| arr[p] += v)
    }
    fn each(&self, idx: u64, mut f: impl FnMut(usize, f64)) {
        let t = self.offs.partition_point(|o| *o <= idx) - 1;
        let mut d = Dec(idx - self.offs[t]);
        for p in &self.tuples[t] {
            f(*p as usize, d.pick(&self.vals));
        }
    }
}

/// equal, both NaN, or within `ulps` units of the last place of `S`
pub fn same<S: Fl>(got: f64, want: f64, ulps: f64) -> bool {
    got == want || (got.is_nan() && want.is_nan()) || (got - want).abs() <= ulps * S::EPS * want.abs()
}

fn show(v: &[f64]) -> String {
    format!("{:?}", v)
}

// ------------------------------------------------------------------------------------- C01

fn c01(ctx: &mut Ctx) {
    ctx.assume("a component is compared with the single IEEE operation on the two corresponding components, within 2 units in the last place (so an implementation may e.g. multiply by a reciprocal)");
    ctx.assume("division by zero components is outside the property");
    for_vecs!(c01_vec, ctx);
    for_mats!(c01_mat, ctx);
}

fn c01_cmp<S: Fl>(l: &mut Local, what: &str, got: Option<&[f64]>, a: &[f64], b: &[f64], f: impl Fn(S, S) -> f64) {
    let Some(g) = got else {
        l.fail(format!("{} gives nothing", what));
        return;
    };
    for i in 0..a.len() {
        let w = f(S::of(a[i]), S::of(b[i]));
        if !same::<S>(g[i], w, 2.0) {
            l.fail(format!("{}: component {} is {} instead of {} ({} and {})", what, i, g[i], w, a[i], b[i]));
            return;
        }
    }
}

fn c01_vec<V: VecApi>(ctx: &mut Ctx) {
    let n = V::N;
    // full product over a small alphabet, then a wide alphabet on at most k slots
    let small = alph(match n {
        2 => vec![-2.0, -0.5, 0.0, 1.0, 3.0, 1024.0],
        3 => vec![-2.0, 0.0, 0.5, 3.0, 64.0],
        _ => ctx.by(vec![-2.0, 0.0, 0.5, 3.0], vec![-2.0, 0.0, 0.5, 3.0, -1000.0]),
    });
    let scal = alph(vec![-3.0, 0.0, 0.25, 1.0, 1e3, -1.0, 1.0 + 0.5f64.powi(19), 1.0 - 0.5f64.powi(14), 1.0 + 0.5f64.powi(22), 0.5f64.powi(30)]);
    let run = |a: &[f64], b: &[f64], s: f64, l: &mut Local| {
        l.describe(|| format!("{} a={} b={} s={}", V::NAME, show(a), show(b), s));
        let (x, y) = (V::mk(a), V::mk(b));
        let r = api!(l, x.plus(&y));
        c01_cmp::<V::S>(l, "plus", r.as_ref().map(|r| &r[..]), a, b, |p, q| p.sum(q));
        let r = api!(l, x.minus(&y));
        c01_cmp::<V::S>(l, "minus", r.as_ref().map(|r| &r[..]), a, b, |p, q| p.sub(q));
        let r = api!(l, x.mul_elem(&y));
        c01_cmp::<V::S>(l, "component-wise product", r.as_ref().map(|r| &r[..]), a, b, |p, q| p.prod(q));
        if b.iter().all(|v| *v != 0.0) {
            let r = api!(l, x.div(&y));
            c01_cmp::<V::S>(l, "component-wise quotient", r.as_ref().map(|r| &r[..]), a, b, |p, q| p.quot(q));
        }
        let r = api!(l, x.scale(s));
        c01_cmp::<V::S>(l, "scale", r.as_ref().map(|r| &r[..]), a, &[s; 4], |p, q| p.prod(q));
        // the same object on both sides
        let r = api!(l, x.plus(&x));
        c01_cmp::<V::S>(l, "a plus a", r.as_ref().map(|r| &r[..]), a, a, |p, q| p.sum(q));
        let r = api!(l, x.minus(&x));
        c01_cmp::<V::S>(l, "a minus a", r.as_ref().map(|r| &r[..]), a, a, |p, q| p.sub(q));
        let r = api!(l, x.mul_elem(&x));
        c01_cmp::<V::S>(l, "a times a", r.as_ref().map(|r| &r[..]), a, a, |p, q| p.prod(q));
        let (ga, gb) = (x.get(), y.get());
        l.check((0..n).all(|i| ga[i] == V::S::of(a[i]).d() && gb[i] == V::S::of(b[i]).d()), || "an operand changed".into());
    };
    ctx.space(
        &format!("all-{}", V::NAME),
        &format!("every pair of vectors over {:?} and every scale factor of {:?}", small, scal),
        (small.len() as u64).pow(2 * n as u32) * scal.len() as u64,
        |i, l| {
            let mut d = Dec(i);
            let s = d.pick(&scal);
            let (mut a, mut b) = ([0.0; 4], [0.0; 4]);
            for k in 0..n {
                a[k] = d.pick(&small);
                b[k] = d.pick(&small);
            }
            run(&a[..n], &b[..n], s, l)
        },
    );
    let wide = [-1e9, -7.75, -1e-3, 1e-9, 0.1, 2.0, 33.0, 65537.0, 1e17, -1e-16, 1.0 - 0.5f64.powi(20)];
    let devs = Devs::new(2 * n + 1, ctx.by(3, 4), &wide);
    ctx.space(
        &format!("wide-{}", V::NAME),
        &format!("up to {} of the {} components and scale replaced by {:?}", ctx.by(3, 4), 2 * n + 1, wide),
        devs.size(),
        |i, l| {
            let mut x = [3.0, 5.0, 7.0, 11.0, 13.0, 17.0, 19.0, 23.0, 29.0];
            devs.apply(i, &mut x[..2 * n + 1]);
            run(&x[..n], &x[n..2 * n], x[2 * n], l)
        },
    );
    // components next to special ones
    ctx.space(
        &format!("next-{}", V::NAME),
        &format!("every pair of vectors over {:?}, scaled by one of them", NEXT),
        (NEXT.len() as u64).pow(2 * n as u32),
        |i, l| {
            let mut d = Dec(i);
            let (mut a, mut b) = ([0.0; 4], [0.0; 4]);
            for k in 0..n {
                a[k] = d.pick(&NEXT);
                b[k] = d.pick(&NEXT);
            }
            run(&a[..n], &b[..n], NEXT[(i % 5) as usize], l)
        },
    );
    // operands that are related component by component, of every magnitude
    let firsts = [[3.0, 5.0, 7.0, 11.0], [1.0; 4], [2.0, -2.0, 2.0, -2.0], [0.1, -0.3, 0.7, 0.9], [-0.0, 0.0, 1.0, -1.0], [0.0; 4]];
    let big = alph(vec![2f64.powi(-55), 2f64.powi(-30), 1.0, 2f64.powi(30), 2f64.powi(55)]);
    let sc = [2f64.powi(-40), 2f64.powi(40), -1e15, -0.0, 7e-13];
    ctx.space(
        &format!("related-{}", V::NAME),
        &format!("every component of the second operand related to that of the first in one of {} ways (the same, opposite, off by a few units in the last place, multiples, reciprocal, zeros of either sign), {} first operands at {} magnitudes, both ways round", RELATED, firsts.len(), big.len()),
        (RELATED as u64).pow(n as u32) * (2 * firsts.len() * big.len()) as u64,
        |i, l| {
            let mut d = Dec(i);
            let sw = d.take(2) == 1;
            let m = d.pick(&big);
            let f: [f64; 4] = d.pick(&firsts);
            let s = sc[(d.0 % 5) as usize];
            let (mut a, mut b) = ([0.0; 4], [0.0; 4]);
            for k in 0..n {
                a[k] = f[k] * m;
                b[k] = related(d.take(RELATED), a[k]);
            }
            if sw {
                run(&b[..n], &a[..n], s, l)
            } else {
                run(&a[..n], &b[..n], s, l)
            }
        },
    );
}

/// entries a little off 1, 1/2, 2 and -1, and one that is not
const NEXT: [f64; 5] = [0.99993896484375, 0.50048828125, 1.9998779296875, -1.00006103515625, -7.0];

/// ways in which the corresponding entries of two operands may be related
const RELATED: usize = 9;
fn related(k: usize, v: f64) -> f64 {
    match k {
        0 => v,
        1 => -v,
        2 => v * (1.0 + 0.5f64.powi(20)),
        3 => -v * (1.0 - 0.5f64.powi(18)),
        4 => 0.0,
        5 => -0.0,
        6 => 3.0 * v,
        7 => if v != 0.0 { 1.0 / v } else { 1.0 },
        _ => v * 2f64.powi(22),
    }
}

fn base_mat(n: usize, k: usize) -> Vec<f64> {
    // distinct, non-symmetric, exact in f32
    (0..n * n)
        .map(|i| match k {
            0 => (2 * i + 3) as f64,
            1 => (40 - 3 * i as i64) as f64 + if i % 2 == 0 { 0.5 } else { 0.0 },
            _ => ((i * i) as f64) - 7.0 * (i as f64) + 1.0,
        })
        .collect()
}

/// Matrices with a structure that an implementation might give a treatment of its own; all entries small dyadics.
fn specials(n: usize) -> Vec<Vec<f64>> {
    let mk = |f: &dyn Fn(usize, usize) -> f64| -> Vec<f64> { (0..n * n).map(|i| f(i / n, i % n)).collect() };
    let id = |i: usize, j: usize| if i == j { 1.0 } else { 0.0 };
    let l = n - 1;
    vec![
        mk(&|_, _| 0.0),
        mk(&id),
        mk(&|i, j| -id(i, j)),
        mk(&|i, j| id(i, j) * [2.0, -1.0, 4.0, 1.0][i]),
        mk(&|i, j| if i == 0 { -id(i, j) } else { id(i, j) }),
        // symmetric, antisymmetric
        mk(&|i, j| [3.0, 1.0, -2.0, 0.5, 4.0, -1.0, 7.0][i + j] + id(i, j)),
        mk(&|i, j| if i < j { (2 * i + j) as f64 } else if i > j { -((2 * j + i) as f64) } else { 0.0 }),
        // triangular
        mk(&|i, j| if i == j { 1.0 } else if j > i { (i + 2 * j) as f64 - 3.0 } else { 0.0 }),
        mk(&|i, j| if i == j { 2.0 } else if j < i { (3 * i + j) as f64 - 4.0 } else { 0.0 }),
        // affine: a quarter turn, a shear, a scaling; and its transpose; and a projective one
        mk(&|i, j| if i == l || j == l { if i == l { id(i, j) } else { [5.0, -3.0, 2.0][i] } } else { [[0.0, -1.0, 0.0], [1.0, 0.0, 0.0], [0.0, 0.0, 1.0]][i][j] }),
        mk(&|i, j| if i == l { id(i, j) } else { [[2.0, 1.0, 0.0, 4.0], [0.0, -1.0, 3.0, 1.0], [0.5, 0.0, 2.0, -6.0]][i][j] }),
        mk(&|i, j| if j == l { id(i, j) } else { [[2.0, 0.0, 0.5], [1.0, -1.0, 0.0], [0.0, 3.0, 2.0], [4.0, 1.0, -6.0]][i][j] }),
        mk(&|i, j| if i == l { [0.0, 0.0, -1.0, 0.0][j + 4 - n] } else { id(i, j) }),
        // cyclic, constant, of rank one, in blocks
        mk(&|i, j| if j == (i + 1) % n { [1.0, 2.0, -1.0, 0.5][i] } else { 0.0 }),
        mk(&|_, _| 2.0),
        mk(&|i, j| [1.0, -2.0, 3.0, 0.5][i] * [2.0, 1.0, -1.0, 4.0][j]),
        mk(&|i, j| if i / 2 == j / 2 { (i + 3 * j) as f64 - 2.0 } else { 0.0 }),
        // orthogonal rows of equal length
        mk(&|i, j| if (i & j).count_ones() % 2 == 0 { 1.0 } else { -1.0 }),
    ]
}

fn c01_mat<M: MatApi>(ctx: &mut Ctx) {
    let (n, nn) = (M::N, M::N * M::N);
    let scal = alph(vec![-3.0, 0.0, 0.25, 1.0, 1e3, -1.0, 1.0 + 0.5f64.powi(19), 1.0 - 0.5f64.powi(14), 1.0 + 0.5f64.powi(22), 0.5f64.powi(30)]);
    let run = |a: &[f64], ra: bool, b: &[f64], rb: bool, ss: &[f64], l: &mut Local| {
        l.describe(|| format!("{} a={:?} row_major={} b={:?} row_major={} s={:?}", M::NAME, a, ra, b, rb, ss));
        let (p, q) = (M::init(a, ra), M::init(b, rb));
        let cut = |m: Option<M>| m.map(|m| m.rows());
        let r = cut(api!(l, p.plus(&q)));
        c01_cmp::<M::S>(l, "plus", r.as_ref().map(|r| &r[..]), a, b, |p, q| p.sum(q));
        let r = cut(api!(l, p.minus(&q)));
        c01_cmp::<M::S>(l, "minus", r.as_ref().map(|r| &r[..]), a, b, |p, q| p.sub(q));
        let r = cut(api!(l, p.mul_elem(&q)));
        c01_cmp::<M::S>(l, "entry-wise product", r.as_ref().map(|r| &r[..]), a, b, |p, q| p.prod(q));
        if b.iter().all(|v| *v != 0.0) {
            let r = cut(api!(l, p.div(&q)));
            c01_cmp::<M::S>(l, "entry-wise quotient", r.as_ref().map(|r| &r[..]), a, b, |p, q| p.quot(q));
        }
        for s in ss {
            let r = cut(api!(l, p.scale(*s)));
            c01_cmp::<M::S>(l, "scale", r.as_ref().map(|r| &r[..]), a, &[*s; 16], |p, q| p.prod(q));
        }
        let r = cut(api!(l, p.plus(&p)));
        c01_cmp::<M::S>(l, "a plus a", r.as_ref().map(|r| &r[..]), a, a, |p, q| p.sum(q));
        let r = cut(api!(l, p.minus(&p)));
        c01_cmp::<M::S>(l, "a minus a", r.as_ref().map(|r| &r[..]), a, a, |p, q| p.sub(q));
        let (x, y) = (p.rows(), q.rows());
        l.check((0..n * n).all(|i| x[i] == M::S::of(a[i]).d() && y[i] == M::S::of(b[i]).d()) && p.raw().1 == ra && q.raw().1 == rb, || "an operand changed".into());
    };
    let vals = [-2.0, 0.0, 0.125, 1e6, -1e-3];
    let k = ctx.by(3, if n == 3 { 4 } else { 3 });
    let devs = Devs::new(2 * nn, k, &vals);
    ctx.space(
        &format!("wide-{}", M::NAME),
        &format!("4 storage-order combinations x up to {} of the {} entries of both operands replaced by {:?}", k, 2 * nn, vals),
        devs.size() * 4,
        |i, l| {
            let mut d = Dec(i);
            let (ra, rb) = (d.take(2) == 0, d.take(2) == 0);
            let s = scal[(d.0 % scal.len() as u64) as usize];
            let mut x = base_mat(n, 0);
            x.extend(base_mat(n, 1));
            devs.apply(d.0, &mut x);
            let (a, b) = x.split_at(nn);
            run(a, ra, b, rb, &[s], l)
        },
    );
    let sp = specials(n);
    let devs = Devs::new(2 * nn, ctx.by(1, 2), &[0.0, 1.0, -5.0, 1e17, 1e-16]);
    ctx.space(
        &format!("structured-{}", M::NAME),
        &format!("every pair of {} structured matrices (zero, identity, diagonal, symmetric, triangular, affine, ...) with up to {} entries replaced by one of 5 values, 4 storage-order combinations, scaled by {:?}", sp.len(), ctx.by(1, 2), scal),
        devs.size() * 4 * (sp.len() * sp.len()) as u64,
        |i, l| {
            let mut d = Dec(i);
            let (ra, rb) = (d.take(2) == 0, d.take(2) == 0);
            let mut x = sp[d.take(sp.len())].clone();
            x.extend(&sp[d.take(sp.len())]);
            devs.apply(d.0, &mut x);
            let (a, b) = x.split_at(nn);
            run(a, ra, b, rb, &scal, l)
        },
    );
    // entries next to special ones
    let devs = Devs::new(2 * nn, 2, &NEXT);
    ctx.space(
        &format!("next-{}", M::NAME),
        &format!("4 storage-order combinations x up to 2 of the {} entries of both operands replaced by {:?}, all entries different or one of these", 2 * nn, NEXT),
        devs.size() * 4 * 6,
        |i, l| {
            let mut d = Dec(i);
            let (ra, rb) = (d.take(2) == 0, d.take(2) == 0);
            let k = d.take(6);
            let mut x = base_mat(n, 0);
            x.extend(base_mat(n, 1));
            if k < 5 {
                for v in x.iter_mut() {
                    *v = NEXT[k];
                }
            }
            devs.apply(d.0, &mut x);
            let (a, b) = x.split_at(nn);
            run(a, ra, b, rb, &[NEXT[(d.0 % 5) as usize]], l)
        },
    );
    // every pattern of equal and different entries that symmetry and the like consist of
    let pats = if n == 3 { 1u64 << 9 } else { 1 << 16 };
    ctx.space(&format!("patterns-{}", M::NAME), "every matrix of two values with one that has all entries different, 4 storage-order combinations, either operand", pats * 8, |i, l| {
        let mut d = Dec(i);
        let (ra, rb, sw) = (d.take(2) == 0, d.take(2) == 0, d.take(2) == 0);
        let a: Vec<f64> = (0..nn).map(|k| if (d.0 >> k) & 1 == 1 { 3.0 } else { -0.5 }).collect();
        let b = base_mat(n, 1);
        if sw {
            run(&b, ra, &a, rb, &[0.25], l)
        } else {
            run(&a, ra, &b, rb, &[0.0], l)
        }
    });
    // operands that are related entry by entry, of every magnitude
    let big = alph(vec![2f64.powi(-55), 2f64.powi(-30), 1.0, 2f64.powi(30), 2f64.powi(55)]);
    let sc = [2f64.powi(-40), 2f64.powi(40), -1e15, -0.0, 7e-13];
    let ways: Vec<f64> = (0..RELATED).map(|k| k as f64).collect();
    let k = ctx.by(if n == 3 { 2 } else { 1 }, 2);
    let devs = Devs::new(nn, k, &ways);
    let mut firsts = vec![base_mat(n, 0), base_mat(n, 2), vec![1.0; nn], (0..nn).map(|i| [0.1, -0.3, 0.7, 0.9, -0.0][i % 5]).collect()];
    firsts.extend(specials(n).into_iter().skip(1).step_by(3));
    ctx.space(
        &format!("related-{}", M::NAME),
        &format!("every entry of the second operand related to that of the first in one of {} ways (the same, opposite, off by a few units in the last place, multiples, reciprocal, zeros of either sign), up to {} entries in another of these ways, {} first operands at {} magnitudes, 4 storage-order combinations", RELATED, k, firsts.len(), big.len()),
        devs.size() * (4 * RELATED * firsts.len() * big.len()) as u64,
        |i, l| {
            let mut d = Dec(i);
            let (ra, rb) = (d.take(2) == 0, d.take(2) == 0);
            let m = d.pick(&big);
            let mut how = [d.take(RELATED) as f64; 16];
            let a: Vec<f64> = firsts[d.take(firsts.len())].iter().map(|v| v * m).collect();
            devs.apply(d.0, &mut how[..nn]);
            let b: Vec<f64> = (0..nn).map(|k| related(how[k] as usize, a[k])).collect();
            let s = sc[(d.0 % 5) as usize];
            run(&a, ra, &b, rb, &[s], l)
        },
    );
}

// ------------------------------------------------------------------------------------- C02

fn mm(n: usize, a: &[f64], b: &[f64]) -> A16 {
    let mut r = [0.0; 16];
    for i in 0..n {
        for j in 0..n {
            r[i * n + j] = (0..n).map(|k| a[i * n + k] * b[k * n + j]).sum()
        }
    }
    r
}
fn mv(n: usize, a: &[f64], v: &[f64]) -> A4 {
    let mut r = [0.0; 4];
    for i in 0..n {
        r[i] = (0..n).map(|k| a[i * n + k] * v[k]).sum()
    }
    r
}
fn vm(n: usize, v: &[f64], a: &[f64]) -> A4 {
    let mut r = [0.0; 4];
    for j in 0..n {
        r[j] = (0..n).map(|k| v[k] * a[k * n + j]).sum()
    }
    r
}
fn tr(n: usize, a: &[f64]) -> A16 {
    let mut r = [0.0; 16];
    for i in 0..n {
        for j in 0..n {
            r[j * n + i] = a[i * n + j]
        }
    }
    r
}

fn eq_rows(l: &mut Local, what: &str, got: Option<A16>, want: &A16, n: usize) {
    match got {
        None => l.fail(format!("{} gives nothing", what)),
        Some(g) => {
            if g[..n * n] != want[..n * n] {
                l.fail(format!("{} is {:?} instead of {:?}", what, &g[..n * n], &want[..n * n]))
            }
        }
    }
}

fn c02(ctx: &mut Ctx) {
    ctx.assume("entries are integers or dyadic fractions whose products and sums are exact in the scalar type, so the result must be equal in every evaluation order");
    ctx.assume("a product of matrices of different storage order may refuse (it panics today); if it answers, the answer must be the product");
    for_mats!(c02_mat, ctx);
}

fn c02_mat<M: MatApi>(ctx: &mut Ctx) {
    let (n, nn) = (M::N, M::N * M::N);
    let one = |a: &[f64], b: &[f64], v: &[f64], l: &mut Local| {
        l.describe(|| format!("{} a={:?} b={:?} v={:?}", M::NAME, a, b, &v[..n]));
        for rm in [true, false] {
            let (p, q) = (M::init(a, rm), M::init(b, rm));
            let r = api!(l, p.mul(&q));
            eq_rows(l, if rm { "row-major product" } else { "column-major product" }, r.map(|m| m.rows()), &mm(n, a, b), n);
            if let Some(m) = r {
                l.check(m.raw().1 == rm, || "the product changed the storage order".into());
            }
            let w = mv(n, a, v);
            let g = api!(l, p.mul_col(v));
            l.check(g == Some(w), || format!("matrix times column vector (row_major={}) is {:?} instead of {:?}", rm, g, w));
            let w = vm(n, v, b);
            let g = api!(l, q.row_mul(v));
            l.check(g == Some(w), || format!("row vector times matrix (row_major={}) is {:?} instead of {:?}", rm, g, w));
            // same object on both sides
            let g = api!(l, p.mul(&p)).map(|m| m.rows());
            eq_rows(l, "a times a", g, &mm(n, a, a), n);
        }
    };
    // bilinear coverage: up to k of all entries of a, b and v changed
    let vals = [-3.0, 0.0, 16.0];
    let slots = 2 * nn + n;
    let k = ctx.by(3, 4);
    let devs = Devs::new(slots, k, &vals);
    for bs in 0..2usize {
        ctx.space(
            &format!("deviations{}-{}", bs, M::NAME),
            &format!("up to {} of the {} entries of both matrices and the vector replaced by {:?}, both orders", k, slots, vals),
            devs.size(),
            |i, l| {
                let mut x: Vec<f64> = if bs == 0 { (0..nn).map(|i| (i + 2) as f64).collect() } else { vec![0.0; nn] };
                x.extend(if bs == 0 { (0..nn).map(|i| 20.0 - 2.0 * i as f64 + (i % 3) as f64).collect::<Vec<_>>() } else { vec![1.0; nn] });
                x.extend([5.0, -7.0, 0.5, 2.0].iter().take(n));
                devs.apply(i, &mut x);
                one(&x[..nn], &x[nn..2 * nn], &x[2 * nn..], l)
            },
        );
    }
    // dense small matrices
    if n == 3 {
        let al = ctx.by(vec![-1.0, 0.0, 2.0], vec![-1.0, 0.0, 2.0]);
        let bs: Vec<[f64; 9]> = vec![
            [1., 2., 3., 4., 5., 6., 7., 8., 10.],
            [0., -1., 0., 1., 0., 0., 0., 0., 1.],
            [2., 0., 0.5, 0., -4., 0., 8., 0., 1.],
            [-1., 3., -5., 7., -9., 11., -13., 15., -17.],
        ];
        ctx.space(&format!("dense-{}", M::NAME), &format!("every 3x3 matrix over {:?} times 4 fixed matrices", al), (al.len() as u64).pow(9) * 4, |i, l| {
            let mut d = Dec(i);
            let b = d.pick(&bs);
            let a: Vec<f64> = (0..9).map(|_| d.pick(&al)).collect();
            one(&a, &b, &[b[1], a[3] - 1.5, b[7] * 2.0], l)
        });
    } else {
        ctx.space(&format!("dense-{}", M::NAME), "every 4x4 matrix of zeros and ones times a fixed matrix", 1 << 16, |i, l| {
            let a: Vec<f64> = (0..16).map(|k| ((i >> k) & 1) as f64 * (1.0 + (k % 5) as f64)).collect();
            one(&a, &base_mat(4, 2), &[1.0, -2.0, 3.0, 0.5], l)
        });
    }
    // structured operands
    let sp = specials(n);
    let vs = alph(vec![[0.0, 0.0, 0.0, 1.0], [3.0, -2.0, 5.0, 1.0], [1.0, 2.0, 1.0, 0.0], [0.0; 4], [1.0; 4], [1.0, 0.0, 0.0, 0.0], [0.0, -2.0, 0.0, 0.0], [-1.0, 4.0, -1.0, -1.0], [0.5, 0.5, 1.0, 7.0]]);
    let devs = Devs::new(2 * nn, ctx.by(1, 2), &[0.0, 1.0, -5.0]);
    ctx.space(
        &format!("structured-{}", M::NAME),
        &format!("every pair of {} structured matrices (zero, identity, diagonal, symmetric, triangular, affine, ...) with up to {} entries replaced x {} vectors", sp.len(), ctx.by(1, 2), vs.len()),
        devs.size() * (sp.len() * sp.len() * vs.len()) as u64,
        |i, l| {
            let mut d = Dec(i);
            let v: [f64; 4] = d.pick(&vs);
            let v = if n == 3 { [v[0], v[1], v[3], 0.0] } else { v };
            let mut x = sp[d.take(sp.len())].clone();
            x.extend(&sp[d.take(sp.len())]);
            devs.apply(d.0, &mut x);
            one(&x[..nn], &x[nn..], &v, l)
        },
    );
    // nearly of that structure
    let nudges: Vec<f64> = if M::S::BITS > 30 { [10, 14, 20].iter().flat_map(|k| [0.5f64.powi(*k), -0.5f64.powi(*k)]).collect() } else { vec![0.5f64.powi(12), -0.5f64.powi(9)] };
    let devs = Devs::new(nn, ctx.by(1, 2), &nudges);
    ctx.space(
        &format!("nearly-{}", M::NAME),
        &format!("every pair of {} structured matrices, up to {} entries of the second off by {:?}, x {} vectors", sp.len(), ctx.by(1, 2), nudges, vs.len()),
        devs.size() * (sp.len() * sp.len() * vs.len()) as u64,
        |i, l| {
            let mut d = Dec(i);
            let v: [f64; 4] = d.pick(&vs);
            let v = if n == 3 { [v[0], v[1], v[3], 0.0] } else { v };
            let a = sp[d.take(sp.len())].clone();
            let mut b = sp[d.take(sp.len())].clone();
            devs.nudge(d.0, &mut b);
            one(&a, &b, &v, l);
            if M::S::BITS > 30 {
                one(&b, &a, &v, l)
            }
        },
    );
    // magnitudes
    let big = alph(vec![0.5f64.powi(40), 0.5f64.powi(12), 1024.0, 2f64.powi(35)]);
    let devs = Devs::new(2 * nn + n, 2, &[0.0, 1.0, -3.0]);
    ctx.space(&format!("scaled-{}", M::NAME), &format!("both matrices and the vector scaled by {:?} each, up to 2 entries replaced", big), devs.size() * (big.len() as u64).pow(2), |i, l| {
        let mut d = Dec(i);
        let (sa, sb) = (d.pick(&big), d.pick(&big));
        let mut x: Vec<f64> = (0..nn).map(|i| (i + 2) as f64).collect();
        x.extend((0..nn).map(|i| 20.0 - 2.0 * i as f64 + (i % 3) as f64));
        x.extend([5.0, -7.0, 0.5, 2.0].iter().take(n));
        devs.apply(d.0, &mut x);
        for k in 0..2 * nn {
            x[k] *= if k < nn { sa } else { sb };
        }
        one(&x[..nn], &x[nn..2 * nn], &x[2 * nn..], l)
    });
    // vectors of every magnitude, with equal, opposite and nearly equal entries
    let va = alph(vec![-2.0, -1.0, 0.0, 1.0, 1.0 + 0.5f64.powi(9)]);
    let sv = alph(vec![0.5f64.powi(60), 0.5f64.powi(25), 0.5f64.powi(8), 1.0, 2f64.powi(14), 2f64.powi(30), 2f64.powi(60)]);
    ctx.space(&format!("vectors-{}", M::NAME), &format!("every vector over {:?} scaled by {:?} with {} structured matrices scaled by each of 3 factors", va, sv, sp.len()), (va.len() as u64).pow(n as u32) * (sv.len() * 3 * sp.len()) as u64, |i, l| {
        let mut d = Dec(i);
        let (s, sm) = (d.pick(&sv), d.pick(&[1.0, 2f64.powi(-50), 2f64.powi(45)]));
        let k = d.take(sp.len());
        let a: Vec<f64> = sp[k].iter().map(|x| x * sm).collect();
        let v: Vec<f64> = (0..n).map(|_| d.pick(&va) * s).collect();
        one(&a, &sp[(k * 5 + 3) % sp.len()], &v, l)
    });
    // mixed orders: refuse or be right
    let devs = Devs::new(2 * nn, 1, &vals);
    ctx.space(&format!("mixed-{}", M::NAME), "different storage orders: one entry of either matrix replaced", devs.size() * 2, |i, l| {
        let mut d = Dec(i);
        let rm = d.take(2) == 0;
        let mut x = base_mat(n, 0);
        x.extend(base_mat(n, 2));
        devs.apply(d.0, &mut x);
        let (a, b) = x.split_at(nn);
        l.describe(|| format!("{} a={:?} row_major={} b={:?} row_major={}", M::NAME, a, rm, b, !rm));
        let (p, q) = (M::init(a, rm), M::init(b, !rm));
        match may_panic(|| p.mul(&q)) {
            Err(_) => l.outcome("refused"),
            Ok(None) => l.outcome("refused"),
            Ok(r) => {
                l.outcome("answered");
                eq_rows(l, "mixed-order product", r.map(|m| m.rows()), &mm(n, a, b), n)
            }
        }
        l.calls += 1;
    });
}

// ------------------------------------------------------------------------------------- C03

#[derive(Clone)]
struct Twin<M> {
    r: M,
    c: M,
    m: A16,
}

fn det_adj(n: usize, a: &[f64]) -> (f64, A16) {
    // exact on integers and dyadics of moderate size
    let mut adj = [0.0; 16];
    let minor = |rows: &[usize], cols: &[usize]| -> f64 {
        fn d(a: &[f64], n: usize, rows: &[usize], cols: &[usize]) -> f64 {
            if rows.len() == 1 {
                return a[rows[0] * n + cols[0]];
            }
            let mut s = 0.0;
            for (k, c) in cols.iter().enumerate() {
                let rest: Vec<usize> = cols.iter().cloned().filter(|x| x != c).collect();
                let t = a[rows[0] * n + c] * d(a, n, &rows[1..], &rest);
                s += if k % 2 == 0 { t } else { -t };
            }
            s
        }
        d(a, n, rows, cols)
    };
    let all: Vec<usize> = (0..n).collect();
    for i in 0..n {
        for j in 0..n {
            let rows: Vec<usize> = all.iter().cloned().filter(|x| *x != i).collect();
            let cols: Vec<usize> = all.iter().cloned().filter(|x| *x != j).collect();
            let s = if (i + j) % 2 == 0 { 1.0 } else { -1.0 };
            adj[j * n + i] = s * minor(&rows, &cols);
        }
    }
    let det = (0..n).map(|k| a[k] * adj[k * n]).sum();
    (det, adj)
}

fn pow2(x: f64) -> bool {
    x != 0.0 && x.is_finite() && {
        let b = x.abs().to_bits();
        b & ((1u64 << 52) - 1) == 0
    }
}

/// small dyadics only, so that everything stays exact in f32
fn tame(m: &[f64]) -> bool {
    m.iter().all(|x| x.abs() <= 64.0 && (x * 16.0).fract() == 0.0)
}

/// one step on entries of every magnitude
fn c03_wide<M: MatApi>(ctx: &mut Ctx) {
    let (n, nn) = (M::N, M::N * M::N);
    let mut sp = specials(n);
    sp.extend([base_mat(n, 0), base_mat(n, 2)]);
    let vals = [-0.0, 2f64.powi(60), -2f64.powi(-60), 1e9, 1.0 + 0.5f64.powi(18)];
    let big = alph(vec![1.0, 2f64.powi(-40), 2f64.powi(45)]);
    let k = ctx.by(1, 2);
    let devs = Devs::new(nn, k, &vals);
    ctx.space(&format!("wide-{}", M::NAME), &format!("twins of {} matrices scaled by {:?}, up to {} entries replaced by {:?}: entries read, one entry set, transposes, trace, 3x3 part, scaling, sums, quotients and products with vectors", sp.len(), big, k, vals), devs.size() * (sp.len() * big.len()) as u64, |i, l| {
        let mut d = Dec(i);
        let m = d.pick(&big);
        let mut a: Vec<f64> = sp[d.take(sp.len())].iter().map(|x| x * m).collect();
        devs.apply(d.0, &mut a);
        let a: Vec<f64> = a.iter().map(|x| M::S::of(*x).d()).collect();
        l.describe(|| format!("{} twins of {:?}", M::NAME, a));
        let b: Vec<f64> = base_mat(n, 1).iter().map(|x| x * m).collect();
        let v = [3.0, -1.0, 2.0, 0.5].map(|x| x / m);
        for rm in [true, false] {
            let (x, y) = (M::init(&a, rm), M::init(&b, !rm));
            let t = api!(l, x.transpose());
            let mut z = x;
            let p = (d.0 % nn as u64) as usize;
            api!(l, z.put(p / n, p % n, 2f64.powi(77)));
            for r in 0..n {
                for c in 0..n {
                    let (g, w) = (api!(l, x.at(r, c)), a[r * n + c]);
                    l.check(g == w, || format!("entry ({},{}) reads {} instead of {} (row_major={})", r, c, g, w, rm));
                    l.check(t.at(c, r) == w, || format!("entry ({},{}) of the transpose reads {} instead of {} (row_major={})", c, r, t.at(c, r), w, rm));
                    let (g, w) = (api!(l, z.at(r, c)), if r * n + c == p { 2f64.powi(77) } else { w });
                    l.check(g == w, || format!("entry ({},{}) reads {} instead of {} after setting ({},{}) (row_major={})", r, c, g, w, p / n, p % n, rm));
                }
            }
            let sum = |l: &mut Local, what: &str, g: f64, t: &[f64]| {
                let (w, e) = (t.iter().sum::<f64>(), t.iter().map(|x| x.abs()).sum::<f64>());
                l.check(near(g, w, 8.0 * M::S::EPS * e), || format!("{} is {} instead of {} (row_major={})", what, g, w, rm));
            };
            let g = api!(l, x.trace());
            sum(l, "the trace", g, &(0..n).map(|k| a[k * n + k]).collect::<Vec<_>>());
            if let Some((s, o)) = api!(l, x.submat()) {
                l.check(o == rm && (0..9).all(|k| s[k] == a[k / 3 * n + k % 3]), || format!("the upper left 3x3 is {:?} (row_major={})", s, rm));
            }
            let g = api!(l, x.mul_col(&v));
            let h = api!(l, x.row_mul(&v));
            match (g, h) {
                (Some(g), Some(h)) => {
                    for r in 0..n {
                        sum(l, "a component of the product with a column", g[r], &(0..n).map(|k| a[r * n + k] * v[k]).collect::<Vec<_>>());
                        sum(l, "a component of the product with a row", h[r], &(0..n).map(|k| a[k * n + r] * v[k]).collect::<Vec<_>>());
                    }
                }
                _ => l.fail("a product with a vector gives nothing".into()),
            }
            let rows = |o: Option<M>| o.map(|m| m.rows());
            let r = rows(api!(l, x.scale(-0.375)));
            c01_cmp::<M::S>(l, "scale", r.as_ref().map(|r| &r[..]), &a, &[-0.375; 16], |p, q| p.prod(q));
            let r = rows(api!(l, x.plus(&y)));
            c01_cmp::<M::S>(l, "plus the other order", r.as_ref().map(|r| &r[..]), &a, &b, |p, q| p.sum(q));
            let r = rows(api!(l, x.minus(&y)));
            c01_cmp::<M::S>(l, "minus the other order", r.as_ref().map(|r| &r[..]), &a, &b, |p, q| p.sub(q));
            if b.iter().all(|x| *x != 0.0) {
                let r = rows(api!(l, x.div(&y)));
                c01_cmp::<M::S>(l, "over the other order", r.as_ref().map(|r| &r[..]), &a, &b, |p, q| p.quot(q));
            }
        }
    });
}

fn c03(ctx: &mut Ctx) {
    for_mats!(c03_wide, ctx);
    ctx.assume("histories keep every entry a multiple of 1/16 of at most 64, where f32 and f64 are exact; a step that leaves that range is still compared, and not continued");
    for_mats!(c03_mat, ctx);
}

fn c03_mat<M: MatApi>(ctx: &mut Ctx) {
    let (n, nn) = (M::N, M::N * M::N);
    let k1: Vec<f64> = (0..nn).map(|i| ((i * 7) % 5) as f64 - 2.0 + (i / n) as f64).collect();
    let k2: Vec<f64> = (0..nn).map(|i| [1.0, 2.0, -1.0, 0.5, -2.0][(i * 2 + i / n) % 5]).collect();
    let one: Vec<f64> = (0..nn).map(|i| if i % (n + 1) == 0 { 1.0 } else { 0.0 }).collect();
    // unimodular, not symmetric
    let mut p1 = vec![0.0; nn];
    for i in 0..n {
        p1[i * n + (i + 1) % n] = 1.0;
    }
    p1[0] = 2.0;
    let inits: Vec<Twin<M>> = (0..3)
        .map(|k| {
            let mut m = [0.0; 16];
            for i in 0..n {
                for j in 0..n {
                    m[i * n + j] = match k {
                        // unimodular upper triangular, distinct off-diagonal
                        0 => {
                            if i == j {
                                1.0
                            } else if j > i {
                                (i + 2 * j) as f64 - 3.0
                            } else {
                                0.0
                            }
                        }
                        1 => (i * n + j + 1) as f64 - if i == j { 4.0 } else { 0.0 },
                        _ => {
                            if j == (i + 1) % n {
                                [1.0, 2.0, -1.0, 0.5][i]
                            } else {
                                0.0
                            }
                        }
                    }
                }
            }
            Twin { r: M::init(&m, true), c: M::init(&m, false), m }
        })
        .collect();
    let names = [
        "transpose", "transpose in place", "scale -1", "scale 2", "scale 1/2", "plus K (same order)", "plus K (other order)", "K (other order) plus", "minus K (other order)",
        "entry product with K2 (same order)", "entry product with K2 (other order)", "entry quotient by K2 (other order)", "times P", "P times", "inverse", "set entry (0,last)",
        "set entry (last,0)", "set entry (1,2)", "normalize", "plus itself", "times itself", "rebuild in the other order", "plus its twin", "minus its twin's transpose", "scale 0", "minus itself", "times the identity", "the identity times", "entry product with itself",
    ];
    let step = |s: &Twin<M>, op: u32, l: &mut Local| -> Option<Twin<M>> {
        let m = &s.m[..nn];
        let zip = |f: &dyn Fn(f64, f64) -> f64, k: &[f64]| -> A16 {
            let mut r = [0.0; 16];
            for i in 0..nn {
                r[i] = f(m[i], k[i])
            }
            r
        };
        // each of the twins, and the model
        let both = |l: &mut Local, f: &dyn Fn(&M, bool) -> Option<M>| -> Option<(M, M)> {
            let a = api!(l, f(&s.r, true));
            let b = api!(l, f(&s.c, false));
            match (a, b) {
                (Some(a), Some(b)) => Some((a, b)),
                _ => {
                    l.fail("an operation gives nothing".into());
                    None
                }
            }
        };
        let res: Option<((M, M), A16)> = match op {
            0 => both(l, &|x, _| Some(x.transpose())).map(|t| (t, tr(n, m))),
            1 => both(l, &|x, _| {
                let mut y = *x;
                y.transpose_self();
                Some(y)
            })
            .map(|t| (t, tr(n, m))),
            2 | 3 | 4 => {
                let f = [-1.0, 2.0, 0.5][op as usize - 2];
                both(l, &|x, _| x.scale(f)).map(|t| (t, zip(&|a, _| a * f, m)))
            }
            5 => both(l, &|x, o| x.plus(&M::init(&k1, o))).map(|t| (t, zip(&|a, b| a + b, &k1))),
            6 => both(l, &|x, o| x.plus(&M::init(&k1, !o))).map(|t| (t, zip(&|a, b| a + b, &k1))),
            7 => both(l, &|x, o| M::init(&k1, !o).plus(x)).map(|(a, b)| ((b, a), zip(&|a, b| a + b, &k1))),
            8 => both(l, &|x, o| x.minus(&M::init(&k1, !o))).map(|t| (t, zip(&|a, b| a - b, &k1))),
            9 => both(l, &|x, o| x.mul_elem(&M::init(&k2, o))).map(|t| (t, zip(&|a, b| a * b, &k2))),
            10 => both(l, &|x, o| x.mul_elem(&M::init(&k2, !o))).map(|t| (t, zip(&|a, b| a * b, &k2))),
            11 => both(l, &|x, o| x.div(&M::init(&k2, !o))).map(|t| (t, zip(&|a, b| a / b, &k2))),
            12 => both(l, &|x, o| x.mul(&M::init(&p1, o))).map(|t| (t, mm(n, m, &p1))),
            13 => both(l, &|x, o| M::init(&p1, o).mul(x)).map(|t| (t, mm(n, &p1, m))),
            14 => {
                let (det, adj) = det_adj(n, m);
                if det == 0.0 {
                    let (a, b) = (api!(l, s.r.inverse()), api!(l, s.c.inverse()));
                    l.check(a.is_none() && b.is_none(), || "a singular matrix is inverted".into());
                    return None;
                }
                if !pow2(det) || det.abs() < 0.001 {
                    return None;
                }
                let mut w = [0.0; 16];
                for i in 0..nn {
                    w[i] = adj[i] / det
                }
                both(l, &|x, _| x.inverse()).map(|t| (t, w))
            }
            15 | 16 | 17 => {
                let (i, j, v) = [(0, n - 1, 5.0), (n - 1, 0, -3.0), (1, 2, 0.25)][op as usize - 15];
                let mut w = s.m;
                w[i * n + j] = v;
                both(l, &|x, _| {
                    let mut y = *x;
                    y.put(i, j, v);
                    Some(y)
                })
                .map(|t| (t, w))
            }
            18 => {
                let last = m[nn - 1];
                if !pow2(last) {
                    return None;
                }
                both(l, &|x, _| x.normalize()).map(|t| (t, zip(&|a, _| a / last, m)))
            }
            19 => both(l, &|x, _| x.plus(x)).map(|t| (t, zip(&|a, b| a + b, m))),
            20 => both(l, &|x, _| x.mul(x)).map(|t| (t, mm(n, m, m))),
            21 => {
                let f = |x: &M, o: bool| {
                    let rows = x.rows();
                    Some(M::init(&rows, !o))
                };
                both(l, &f).map(|(a, b)| ((b, a), s.m))
            }
            24 => both(l, &|x, _| x.scale(0.0)).map(|t| (t, [0.0; 16])),
            25 => both(l, &|x, _| x.minus(x)).map(|t| (t, [0.0; 16])),
            26 => both(l, &|x, o| x.mul(&M::init(&one, o))).map(|t| (t, s.m)),
            27 => both(l, &|x, o| M::init(&one, o).mul(x)).map(|t| (t, s.m)),
            28 => both(l, &|x, _| x.mul_elem(x)).map(|t| (t, zip(&|a, _| a * a, m))),
            22 => {
                let a = api!(l, s.r.plus(&s.c));
                let b = api!(l, s.c.plus(&s.r));
                match (a, b) {
                    (Some(a), Some(b)) => Some(((a, b), zip(&|a, b| a + b, m))),
                    _ => {
                        l.fail("plus gives nothing".into());
                        None
                    }
                }
            }
            _ => {
                let t = tr(n, m);
                let a = api!(l, s.r.minus(&s.c.transpose()));
                let b = api!(l, s.c.minus(&s.r.transpose()));
                match (a, b) {
                    (Some(a), Some(b)) => Some(((a, b), zip(&|a, b| a - b, &t))),
                    _ => {
                        l.fail("minus gives nothing".into());
                        None
                    }
                }
            }
        };
        let ((r, c), w) = res?;
        // observations on both twins
        for (x, o, nm) in [(&r, true, "row-major"), (&c, false, "column-major")] {
            let (raw, flag) = x.raw();
            l.check(flag == o, || format!("{}: the {} operand gives a result of the other storage order", names[op as usize], nm));
            for i in 0..n {
                for j in 0..n {
                    let g = api!(l, x.at(i, j));
                    let lay = if o { raw[i * n + j] } else { raw[j * n + i] };
                    if g != w[i * n + j] || lay != g {
                        l.fail(format!("{} of the {} twin: entry ({},{}) reads {} (stored {}) instead of {}; before {:?}", names[op as usize], nm, i, j, g, lay, w[i * n + j], m));
                        return None;
                    }
                }
            }
            let v = [3.0, -1.0, 2.0, 0.5];
            let (g, e) = (api!(l, x.mul_col(&v)), mv(n, &w, &v));
            l.check(g == Some(e), || format!("{} twin times a column: {:?} instead of {:?}", nm, g, e));
            let (g, e) = (api!(l, x.row_mul(&v)), vm(n, &v, &w));
            l.check(g == Some(e), || format!("row times {} twin: {:?} instead of {:?}", nm, g, e));
            let (g, e): (f64, f64) = (api!(l, x.trace()), (0..n).map(|i| w[i * n + i]).sum());
            l.check(g == e, || format!("trace of the {} twin: {} instead of {}", nm, g, e));
            if let Some((sub, so)) = api!(l, x.submat()) {
                let mut ok = so == o;
                for i in 0..3 {
                    for j in 0..3 {
                        ok &= sub[i * 3 + j] == w[i * n + j]
                    }
                }
                l.check(ok, || format!("upper left 3x3 of the {} twin is {:?} (order {}) of {:?}", nm, sub, so, &w[..nn]));
            }
        }
        if l.failed() || !tame(&w[..nn]) {
            return None;
        }
        Some(Twin { r, c, m: w })
    };
    let depth = ctx.by(if n == 3 { 4 } else { 3 }, if n == 3 { 5 } else { 5 });
    ctx.bfs(
        &format!("twins-{}", M::NAME),
        &format!("3 initial matrices, each built in both storage orders; {} operations applied to both twins, mirrored by an exact model", names.len()),
        inits,
        names.len() as u32,
        depth,
        3_000_000,
        step,
        |s| {
            let (a, b) = (s.r.raw().0, s.c.raw().0);
            (a.map(|x| (x + 0.0).to_bits()), b.map(|x| (x + 0.0).to_bits()))
        },
        |o| names[o as usize].to_string(),
    );
}

// ------------------------------------------------------------------------------------- C04

fn c04(ctx: &mut Ctx) {
    for_mats!(c04_mat, ctx);
    for_vecs!(c04_vec, ctx);
}
fn c04_vec<V: VecApi>(ctx: &mut Ctx) {
    let n = V::N;
    let al = alph(vec![-7.5, 7.5, -1.0, 0.0, 2.0, 1e8, 1e-8, 2f64.powi(100), -2f64.powi(-90), 1.0 + 0.5f64.powi(20), 1.0]);
    ctx.space(&format!("vector-{}", V::NAME), &format!("every vector over {:?}", al), (al.len() as u64).pow(n as u32), |i, l| {
        let mut d = Dec(i);
        let v: Vec<f64> = (0..n).map(|_| V::S::of(d.pick(&al)).d()).collect();
        l.describe(|| format!("{} {:?}", V::NAME, v));
        let x = V::mk(&v);
        let t = api!(l, x.transpose());
        let t2 = api!(l, x.transpose2());
        l.check(t[..n] == v[..], || format!("transpose of {:?} is {:?}", v, t));
        l.check(t2[..n] == v[..], || format!("transposing {:?} twice gives {:?}", v, t2));
    });
}
fn c04_mat<M: MatApi>(ctx: &mut Ctx) {
    let (n, nn) = (M::N, M::N * M::N);
    let vals = [-4.0, 0.0, 0.5, 4096.0];
    let k = ctx.by(3, 4);
    let devs = Devs::new(nn, k, &vals);
    let run = |a: &[f64], rm: bool, l: &mut Local| {
        let b = base_mat(n, 0);
        l.describe(|| format!("{} {:?} row_major={}", M::NAME, a, rm));
        let want = tr(n, &a);
        let x = M::init(&a, rm);
        let t = api!(l, x.transpose());
        eq_rows(l, "transpose", Some(t.rows()), &want, n);
        for r in 0..n {
            for c in 0..n {
                let g = api!(l, t.at(r, c));
                l.check(g == a[c * n + r], || format!("entry ({},{}) of the transpose is {} and not entry ({},{}) = {}", r, c, g, c, r, a[c * n + r]));
            }
        }
        let mut y = x;
        api!(l, y.transpose_self());
        eq_rows(l, "transpose in place", Some(y.rows()), &want, n);
        l.check(t.raw().1 == rm && y.raw().1 == rm, || "transposing changed the storage order".into());
        let mut w = [0.0; 16];
        w[..nn].copy_from_slice(&a);
        let tt = api!(l, t.transpose());
        eq_rows(l, "transpose of the transpose", Some(tt.rows()), &w, n);
        api!(l, y.transpose_self());
        eq_rows(l, "transposing in place twice", Some(y.rows()), &w, n);
        eq_rows(l, "operand of transpose", Some(x.rows()), &w, n);
        // (ab)^T = b^T a^T
        let (lo, hi) = a.iter().filter(|x| **x != 0.0).fold((f64::MAX, 0.0f64), |(p, q), x| (p.min(x.abs()), q.max(x.abs())));
        if hi > 1e5 * lo {
            return; // rounding
        }
        let z = M::init(&b, rm);
        let p = api!(l, x.mul(&z)).map(|m| m.transpose().rows());
        let q = api!(l, z.transpose().mul(&t)).map(|m| m.rows());
        l.check(p.is_some() && p == q, || format!("(ab)^T = {:?} but b^T a^T = {:?}", p, q));
    };
    ctx.space(&format!("matrix-{}", M::NAME), &format!("up to {} of {} entries of 2 base matrices replaced by {:?}, both orders", k, nn, vals), devs.size() * 4, |i, l| {
        let mut d = Dec(i);
        let rm = d.take(2) == 0;
        let mut a = base_mat(n, [0, 2][d.take(2)]);
        devs.apply(d.0, &mut a);
        run(&a, rm, l)
    });
    let sp = specials(n);
    let devs = Devs::new(nn, ctx.by(2, 3), &[0.0, 1.0, -5.0, 2f64.powi(110), -(2f64.powi(-100))]);
    ctx.space(&format!("structured-{}", M::NAME), &format!("{} structured matrices (zero, identity, diagonal, symmetric, triangular, affine, ...) with up to {} entries replaced by one of 5 values, both orders", sp.len(), ctx.by(2, 3)), devs.size() * 2 * sp.len() as u64, |i, l| {
        let mut d = Dec(i);
        let rm = d.take(2) == 0;
        let mut a = sp[d.take(sp.len())].clone();
        devs.apply(d.0, &mut a);
        run(&a, rm, l)
    });
    let big = alph(vec![2f64.powi(-70), 2f64.powi(-20), 2f64.powi(25), 2f64.powi(80)]);
    let devs = Devs::new(nn, ctx.by(1, 2), &[0.0, -0.0, 1.0, -5.0]);
    ctx.space(&format!("scaled-{}", M::NAME), &format!("{} structured matrices with up to {} entries replaced, scaled by {:?}, both orders", sp.len(), ctx.by(1, 2), big), devs.size() * (2 * sp.len() * big.len()) as u64, |i, l| {
        let mut d = Dec(i);
        let rm = d.take(2) == 0;
        let s = d.pick(&big);
        let mut a = sp[d.take(sp.len())].clone();
        devs.apply(d.0, &mut a);
        a.iter_mut().for_each(|x| *x *= s);
        run(&a, rm, l)
    });
    let nudges = [0.5f64.powi(12), -0.5f64.powi(9), 0.5f64.powi(if M::S::BITS > 30 { 25 } else { 11 })];
    let devs = Devs::new(nn, ctx.by(2, 3), &nudges);
    ctx.space(&format!("nearly-{}", M::NAME), &format!("{} structured matrices with up to {} entries off by {:?}, both orders", sp.len(), ctx.by(2, 3), nudges), devs.size() * 2 * sp.len() as u64, |i, l| {
        let mut d = Dec(i);
        let rm = d.take(2) == 0;
        let mut a = sp[d.take(sp.len())].clone();
        devs.nudge(d.0, &mut a);
        run(&a, rm, l)
    });
    let pats = if n == 3 { 1u64 << 9 } else { 1 << 16 };
    ctx.space(&format!("patterns-{}", M::NAME), "every matrix of two values, both orders, and every matrix symmetric on some pairs of entries and not on others", pats * 2 + (1 << (nn - n) / 2) * 2, |i, l| {
        let mut d = Dec(i);
        let rm = d.take(2) == 0;
        if d.0 < pats {
            let a: Vec<f64> = (0..nn).map(|k| if (d.0 >> k) & 1 == 1 { 3.0 } else { -0.5 }).collect();
            run(&a, rm, l)
        } else {
            let w = d.0 - pats;
            let mut a = base_mat(n, 0);
            let mut k = 0;
            for i in 0..n {
                for j in i + 1..n {
                    if (w >> k) & 1 == 1 {
                        a[i * n + j] = a[j * n + i];
                    }
                    k += 1;
                }
            }
            run(&a, rm, l)
        }
    });
}

// ------------------------------------------------------------------------------------- C05

fn c05(ctx: &mut Ctx) {
    ctx.assume("the reference is the exact adjugate and determinant; entries are compared within a few rounding errors of the largest cofactor term");
    ctx.assume("determinants between 0 and 1e-6 in magnitude are outside the property (the library treats tiny determinants as singular)");
    for_mats!(c05_mat, ctx);
}

fn c05_case<M: MatApi>(l: &mut Local, a: &[f64], rm: bool, scale: f64) {
    let (n, nn) = (M::N, M::N * M::N);
    let s: Vec<f64> = a.iter().map(|x| x * scale).collect();
    let (det, adj) = det_adj(n, a);
    l.describe(|| format!("{} {:?} row_major={} (determinant {})", M::NAME, s, rm, det * scale.powi(n as i32)));
    let x = M::init(&s, rm);
    let inv = api!(l, x.inverse());
    let full = det * scale.powi(n as i32);
    if det == 0.0 {
        l.outcome("singular");
        l.check(inv.is_none(), || format!("the singular matrix {:?} (row_major={}) has an inverse {:?}", s, rm, inv.map(|m| m.rows()[..nn].to_vec())));
        return;
    }
    if full.abs() < 1e-6 {
        l.skip();
        return;
    }
    l.outcome("invertible");
    let Some(inv) = inv else {
        l.fail(format!("the matrix {:?} (row_major={}) of determinant {} has no inverse", s, rm, full));
        return;
    };
    l.check(inv.raw().1 == rm, || "the inverse has the other storage order".into());
    let g = inv.rows();
    let big = a.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    // rounding of a cofactor of at most 6 products of n-1 factors, and of the determinant
    let cof = 6.0 * big.powi(n as i32 - 1);
    let dterm = 24.0 * big.powi(n as i32);
    for i in 0..nn {
        let w = adj[i] / det / scale;
        let tol = M::S::EPS * (8.0 * cof / det.abs() / scale.abs() + 8.0 * w.abs() * (1.0 + dterm / det.abs()));
        // exact integer inputs of small size leave only the final divisions inexact
        let tol = if big.powi(n as i32) * 24.0 < 2f64.powi(M::S::BITS as i32) && pow2(scale) { M::S::EPS * 4.0 * w.abs() } else { tol };
        if !near(g[i], w, tol) {
            l.fail(format!("inverse of {:?} (row_major={}): entry ({},{}) is {} instead of {}", s, rm, i / n, i % n, g[i], w));
            return;
        }
    }
}

fn perms_of(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    fn rec(n: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for i in 0..n {
            if !cur.contains(&i) {
                cur.push(i);
                rec(n, cur, out);
                cur.pop();
            }
        }
    }
    rec(n, &mut vec![], &mut out);
    out
}
fn tr_vec(n: usize, a: &[f64]) -> Vec<f64> {
    (0..n * n).map(|i| a[i % n * n + i / n]).collect()
}

fn c05_mat<M: MatApi>(ctx: &mut Ctx) {
    let (n, nn) = (M::N, M::N * M::N);
    if n == 3 {
        let al = ctx.by(vec![-2.0, -1.0, 0.0, 1.0], vec![-2.0, -1.0, 0.0, 1.0, 3.0]);
        let m = al.len() as u64;
        ctx.space(&format!("all-{}", M::NAME), &format!("every 3x3 matrix over {:?}, both orders", al), m.pow(9) * 2, |i, l| {
            let mut d = Dec(i);
            let rm = d.take(2) == 0;
            let a: Vec<f64> = (0..9).map(|_| d.pick(&al)).collect();
            c05_case::<M>(l, &a, rm, 1.0)
        });
    } else {
        ctx.space(&format!("zero-one-{}", M::NAME), "every 4x4 matrix of zeros and ones, both orders", 1 << 17, |i, l| {
            let mut d = Dec(i);
            let a: Vec<f64> = (0..16).map(|_| d.take(2) as f64).collect();
            if d.0 == 0 {
                c05_case::<M>(l, &a, i % 3 == 0, 1.0);
            } else {
                c05_case::<M>(l, &a, i % 3 != 0, 1.0);
            }
        });
    }
    // dense bases with up to k entries replaced
    let bases: Vec<Vec<f64>> = if n == 3 {
        vec![
            vec![2., -3., 5., 7., 1., -4., -6., 8., 9.],
            vec![10., 2., 3., 4., 20., 6., 7., 8., 30.],
            vec![1., 0., 0., 0., 1., 0., 0., 0., 1.],
            vec![0., 3., 0., 0., 0., 5., 7., 0., 0.],
        ]
    } else {
        vec![
            vec![2., -3., 5., 7., 1., -4., -6., 8., 9., 3., -2., 4., -5., 6., -7., 1.],
            vec![1., 0., 0., 5., 0., 1., 0., -6., 0., 0., 1., 7., 0., 0., 0., 1.],
            vec![0., 3., 0., 0., 0., 0., 5., 0., 7., 0., 0., 0., 0., 0., 0., 2.],
            vec![1., 2., 3., 4., 0., 1., 5., 6., 0., 0., 1., 7., 8., 0., 0., 1.],
            vec![0., -1., 0., 3., 1., 0., 0., 4., 0., 0., 1., 5., 0., 0., 0., 1.],
        ]
    };
    let vals = [-9.0, -2.0, 0.0, 1.0, 12.0];
    let k = ctx.by(if n == 3 { 4 } else { 3 }, if n == 3 { 5 } else { 4 });
    let devs = Devs::new(nn, k, &vals);
    ctx.space(&format!("dense-{}", M::NAME), &format!("up to {} of {} entries of {} base matrices replaced by {:?}, both orders", k, nn, bases.len(), vals), devs.size() * 2 * bases.len() as u64, |i, l| {
        let mut d = Dec(i);
        let rm = d.take(2) == 0;
        let mut a = bases[d.take(bases.len())].clone();
        devs.apply(d.0, &mut a);
        c05_case::<M>(l, &a, rm, 1.0)
    });
    let sp = specials(n);
    let devs = Devs::new(nn, ctx.by(2, 3), &[0.0, 1.0, -1.0, 3.0, 0.5]);
    ctx.space(&format!("structured-{}", M::NAME), &format!("{} structured matrices (zero, identity, diagonal, symmetric, triangular, affine, ...) with up to {} entries replaced by one of 5 values, both orders", sp.len(), ctx.by(2, 3)), devs.size() * 2 * sp.len() as u64, |i, l| {
        let mut d = Dec(i);
        let rm = d.take(2) == 0;
        let mut a = sp[d.take(sp.len())].clone();
        devs.apply(d.0, &mut a);
        c05_case::<M>(l, &a, rm, 1.0)
    });
    // nearly of that structure: integers whose determinants and cofactors are exact in f64
    for &(unit, k) in if M::S::BITS <= 30 {
        &[][..]
    } else if n == 3 {
        &[(8192.0, 3), (16384.0, 2)][..]
    } else {
        &[(512.0, 3), (16384.0, 2)][..]
    } {
        let k = ctx.by(2, k);
        let devs = Devs::new(nn, k, &[1.0, -1.0, 16.0]);
        ctx.space(&format!("nearly-{}-{}", unit, M::NAME), &format!("{} structured matrices with up to {} entries off by 1, -1 or 16 parts in {}, both orders", sp.len(), k, unit), devs.size() * 2 * sp.len() as u64, |i, l| {
            let mut d = Dec(i);
            let rm = d.take(2) == 0;
            let mut a: Vec<f64> = sp[d.take(sp.len())].iter().map(|x| x * unit).collect();
            devs.nudge(d.0, &mut a);
            c05_case::<M>(l, &a, rm, 1.0 / unit)
        });
    }
    // magnitude: the same matrices scaled; determinants from 1e-6 up
    let scales: Vec<f64> = vec![1.0 / 64.0, 0.0625, 0.5, 8.0, 128.0];
    let devs = Devs::new(nn, ctx.by(2, 3), &vals);
    ctx.space(&format!("scaled-{}", M::NAME), &format!("base matrices with up to {} entries replaced, scaled by {:?}", ctx.by(2, 3), scales), devs.size() * 2 * (bases.len() * scales.len()) as u64, |i, l| {
        let mut d = Dec(i);
        let rm = d.take(2) == 0;
        let s = d.pick(&scales);
        let mut a = bases[d.take(bases.len())].clone();
        devs.apply(d.0, &mut a);
        c05_case::<M>(l, &a, rm, s)
    });
    // small determinants of matrices with entries of ordinary size: diag(2^-i, ...) patterns
    let ds = alph(vec![-4.0, -0.125, 0.0078125, 0.0625, 1.0, 3.0, 256.0]);
    let perms = perms_of(n);
    ctx.space(&format!("monomial-{}", M::NAME), &format!("every permutation pattern with non-zeros from {:?}, both orders, with and without one off-pattern entry", ds), (perms.len() as u64) * (ds.len() as u64).pow(n as u32) * 4, |i, l| {
        let mut d = Dec(i);
        let rm = d.take(2) == 0;
        let off = d.take(2) == 1;
        let p = &perms[d.take(perms.len())];
        let mut a = vec![0.0; nn];
        let mut det = 1.0f64;
        for r in 0..n {
            let v = d.pick(&ds);
            det *= v;
            a[r * n + p[r]] = v;
        }
        if off {
            a[p[1]] += 2.0; // an entry of row 0 in the column of row 1's pivot: the determinant stays
        }
        let (det2, adj) = det_adj(n, &a);
        l.describe(|| format!("{} {:?} row_major={} (determinant {})", M::NAME, a, rm, det2));
        if det.abs() < 1e-6 {
            l.skip();
            return;
        }
        let x = M::init(&a, rm);
        match api!(l, x.inverse()) {
            None => l.fail(format!("the matrix {:?} of determinant {} has no inverse", a, det2)),
            Some(v) => {
                let g = v.rows();
                for i in 0..nn {
                    let w = adj[i] / det2;
                    if !near(g[i], w, M::S::EPS * 16.0 * w.abs()) {
                        l.fail(format!("inverse of {:?} (row_major={}): entry ({},{}) is {} instead of {}", a, rm, i / n, i % n, g[i], w));
                        return;
                    }
                }
                l.check(v.raw().1 == rm, || "the inverse has the other storage order".into());
            }
        }
    });
    // rows of length one, or columns, that are not at right angles: what looks like a rotation
    let shapes3: Vec<(Vec<f64>, f64)> = vec![(vec![1., 0., 0.], 1.), (vec![3., 4., 0.], 5.), (vec![1., 2., 2.], 3.), (vec![2., 3., 6.], 7.)];
    let shapes4: Vec<(Vec<f64>, f64)> = vec![(vec![1., 0., 0., 0.], 1.), (vec![3., 4., 0., 0.], 5.), (vec![1., 1., 1., 1.], 2.), (vec![2., 4., 5., 6.], 9.)];
    for affine in [false, true] {
        // dimension of the vectors
        let vd = match (n, affine) {
            (3, true) => continue,
            (3, false) | (4, true) => 3,
            _ => 4,
        };
        let mut units: Vec<(Vec<f64>, f64)> = vec![];
        let keep = if affine { ctx.by(2, 3) } else { ctx.by(3, 4) };
        for (v, len) in if vd == 3 { &shapes3[..keep] } else { &shapes4[..keep] } {
            for p in perms_of(vd) {
                for sg in 0..1 << vd {
                    let w: Vec<f64> = (0..vd).map(|i| v[p[i]] * if sg >> i & 1 == 1 { -1.0 } else { 1.0 } + 0.0).collect();
                    // four dimensions: one sign per line through the origin, and cyclic orders
                    if vd == 4 && (w.iter().find(|x| **x != 0.0).unwrap() < &0.0 || (0..4).any(|i| p[(i + 1) % 4] != (p[i] + 1) % 4)) {
                        continue;
                    }
                    if !units.iter().any(|u| u.0 == w && u.1 == *len) {
                        units.push((w, *len));
                    }
                }
            }
        }
        let nu = units.len();
        let last = match (n, affine) {
            (3, _) => 1,
            (_, true) => 2,
            _ => 4,
        };
        ctx.space(&format!("{}units-{}", if affine { "affine-" } else { "" }, M::NAME), &format!("every matrix with 3 rows (or columns){} among {} rational vectors of length one, both orders", if affine { " of its linear part, with and without translation," } else { "" }, nu), (nu as u64).pow(3) * last * 4, |i, l| {
            let mut d = Dec(i);
            let (rm, cols) = (d.take(2) == 0, d.take(2) == 1);
            let lk = d.take(last as usize);
            let mut a = vec![0.0; nn];
            let mut k = vec![1.0; n];
            for r in 0..3 {
                let u = &units[d.take(nu)];
                a[r * n..r * n + vd].copy_from_slice(&u.0);
                k[r] = u.1;
                if affine && lk == 1 {
                    a[r * n + 3] = [5., -7., 3.][r] * u.1;
                }
            }
            if affine {
                a[15] = 1.0;
            } else if n == 4 {
                a[12..16].copy_from_slice(&[[0., 0., 0., 1.], [0., 1., 0., 0.], [5., -7., 3., 1.], [-1., 0., 0., 0.]][lk]);
            }
            let (det, adj) = det_adj(n, &a);
            let full = det / k.iter().product::<f64>();
            let m: Vec<f64> = (0..nn).map(|j| a[j] / k[j / n]).collect();
            let m = if cols { tr_vec(n, &m) } else { m };
            l.describe(|| format!("{} {:?} row_major={} (determinant {})", M::NAME, m, rm, full));
            if full.abs() < 1e-3 {
                l.skip();
                return;
            }
            let Some(v) = api!(l, M::init(&m, rm).inverse()) else {
                l.fail(format!("the matrix {:?} of determinant {} has no inverse", m, full));
                return;
            };
            let g = v.rows();
            let tol = M::S::EPS * 256.0 * m.iter().fold(1.0f64, |a, x| a.max(x.abs())).powi(2) * (1.0 + 1.0 / full.abs()).powi(2);
            for j in 0..nn {
                let (r, c) = if cols { (j % n, j / n) } else { (j / n, j % n) };
                let w = adj[r * n + c] / det * k[c];
                if !near(g[j], w, tol) {
                    l.fail(format!("inverse of {:?} (row_major={}): entry ({},{}) is {} instead of {}", m, rm, j / n, j % n, g[j], w));
                    return;
                }
            }
            l.check(v.raw().1 == rm, || "the inverse has the other storage order".into());
        });
    }
    // rows and columns of very different magnitude: scaling by powers of two commutes with every step
    let sc = alph(vec![2f64.powi(-15), 1.0, 2f64.powi(15)]);
    let mut eq: Vec<Vec<f64>> = specials(n);
    eq.extend(bases.iter().cloned());
    ctx.space(&format!("unequal-{}", M::NAME), &format!("{} matrices with every row and every column scaled by one of {:?}, both orders", eq.len(), sc), (sc.len() as u64).pow(2 * n as u32) * 2 * eq.len() as u64, |i, l| {
        let mut d = Dec(i);
        let rm = d.take(2) == 0;
        let s: Vec<f64> = (0..2 * n).map(|_| d.pick(&sc)).collect();
        let a = &eq[d.0 as usize];
        let (det, adj) = det_adj(n, a);
        let full = det * s.iter().product::<f64>();
        if det != 0.0 && (full.abs() < 1e-6 || full.abs() > 1e12) {
            l.skip();
            return;
        }
        let m: Vec<f64> = (0..nn).map(|k| a[k] * s[k / n] * s[n + k % n]).collect();
        l.describe(|| format!("{} {:?} row_major={} (determinant {})", M::NAME, m, rm, full));
        let inv = api!(l, M::init(&m, rm).inverse());
        if det == 0.0 {
            l.outcome("singular");
            l.check(inv.is_none(), || format!("the singular matrix {:?} (row_major={}) has an inverse", m, rm));
            return;
        }
        l.outcome("invertible");
        let Some(inv) = inv else {
            l.fail(format!("the matrix {:?} (row_major={}) of determinant {} has no inverse", m, rm, full));
            return;
        };
        let g = inv.rows();
        let big = a.iter().fold(0.0f64, |m, x| m.max(x.abs()));
        for k in 0..nn {
            let sk = s[n + k / n] * s[k % n];
            let w = adj[k] / det / sk;
            let tol = M::S::EPS * (48.0 * big.powi(n as i32 - 1) / det.abs() / sk + 8.0 * w.abs() * (1.0 + 24.0 * big.powi(n as i32) / det.abs()));
            if !near(g[k], w, tol) {
                l.fail(format!("inverse of {:?} (row_major={}): entry ({},{}) is {} instead of {}", m, rm, k / n, k % n, g[k], w));
                return;
            }
        }
        l.check(inv.raw().1 == rm, || "the inverse has the other storage order".into());
    });
    // the inverse undoes the matrix, on either side, through the library's own product
    let devs = Devs::new(nn, ctx.by(2, 3), &vals);
    ctx.space(&format!("undo-{}", M::NAME), "matrix times its inverse and inverse times matrix are the identity; inverse of the inverse is the matrix", devs.size() * 2 * bases.len() as u64, |i, l| {
        let mut d = Dec(i);
        let rm = d.take(2) == 0;
        let mut a = bases[d.take(bases.len())].clone();
        devs.apply(d.0, &mut a);
        let (det, adj) = det_adj(n, &a);
        l.describe(|| format!("{} {:?} row_major={} (determinant {})", M::NAME, a, rm, det));
        if det == 0.0 {
            l.skip();
            return;
        }
        let x = M::init(&a, rm);
        let Some(v) = api!(l, x.inverse()) else {
            l.fail(format!("the matrix {:?} of determinant {} has no inverse", a, det));
            return;
        };
        let big = a.iter().fold(0.0f64, |m, x| m.max(x.abs()));
        let ibig = adj[..nn].iter().fold(0.0f64, |m, x| m.max(x.abs())) / det.abs();
        let tol = M::S::EPS * 16.0 * n as f64 * (1.0 + big * ibig);
        for (p, nm) in [(api!(l, x.mul(&v)), "a * a^-1"), (api!(l, v.mul(&x)), "a^-1 * a")] {
            let Some(p) = p else {
                l.fail("a product gives nothing".into());
                return;
            };
            for r in 0..n {
                for c in 0..n {
                    let w = if r == c { 1.0 } else { 0.0 };
                    if !near(p.at(r, c), w, tol) {
                        l.fail(format!("{} of {:?} (row_major={}) has {} at ({},{})", nm, a, rm, p.at(r, c), r, c));
                        return;
                    }
                }
            }
        }
    });
}

// ------------------------------------------------------------------------------------- C06

fn c06(ctx: &mut Ctx) {
    ctx.assume("lattice points times a power of two: dot and cross are exact; magnitude and normalize are compared within 4 and 8 rounding errors");
    ctx.assume("the zero vector has no direction; its normalization is outside the property");
    for_vecs!(c06_vec, ctx);
    for_mats!(c06_mat, ctx);
}
/// matrices are normalized to their last entry, and have neither dot nor cross product
fn c06_mat<M: MatApi>(ctx: &mut Ctx) {
    let (n, nn) = (M::N, M::N * M::N);
    let mut sp = specials(n);
    sp.extend((0..3).map(|k| base_mat(n, k)));
    let devs = Devs::new(nn - 1, ctx.by(1, 2), &[0.0, -0.0, 1.0, -5.0, 1e6, 1e15, -1e-15]);
    let last = alph(vec![1.0, -1.0, 2.0, -0.25, 3.0, -1e4, 1.0 + 0.5f64.powi(19), 0.5f64.powi(30), 1e15, -0.5f64.powi(50)]);
    ctx.space(&format!("normalize-{}", M::NAME), &format!("{} matrices with up to {} entries replaced x last entry of {:?} x both orders", sp.len(), ctx.by(1, 2), last), devs.size() * (sp.len() * last.len() * 2) as u64, |i, l| {
        let mut d = Dec(i);
        let rm = d.take(2) == 0;
        let z = d.pick(&last);
        let mut a = sp[d.take(sp.len())].clone();
        devs.apply(d.0, &mut a);
        a[nn - 1] = z;
        l.describe(|| format!("{} {:?} row_major={}", M::NAME, a, rm));
        let x = M::init(&a, rm);
        let Some(g) = api!(l, x.normalize()) else {
            l.fail("normalizing gives nothing".into());
            return;
        };
        l.check(g.raw().1 == rm, || "normalizing changed the storage order".into());
        let (g, zz) = (g.rows(), M::S::of(z));
        for k in 0..nn {
            let w = M::S::of(a[k]).quot(zz);
            if !same::<M::S>(g[k], w, 2.0) {
                l.fail(format!("{:?} (row_major={}) normalized has {} at ({},{}) instead of {}", a, rm, g[k], k / n, k % n, w));
                return;
            }
        }
        let r = x.rows();
        l.check((0..nn).all(|k| r[k] == M::S::of(a[k]).d()), || "the operand changed".into());
    });
}
fn c06_vec<V: VecApi>(ctx: &mut Ctx) {
    let n = V::N;
    let al = alph(match n {
        2 => (-9..=9).map(|x| x as f64).collect(),
        3 => ctx.by(vec![-3.0, -2.0, -1.0, 0.0, 1.0, 2.0, 5.0], vec![-7.0, -3.0, -2.0, -1.0, 0.0, 1.0, 2.0, 5.0, 11.0]),
        _ => ctx.by(vec![-2.0, 0.0, 1.0, 3.0], vec![-2.0, -1.0, 0.0, 1.0, 3.0, 7.0]),
    });
    let check = |a: &[f64], b: &[f64], sa: f64, sb: f64, l: &mut Local| {
        l.describe(|| format!("{} a={:?}*{} b={:?}*{}", V::NAME, a, sa, b, sb));
        let xs: Vec<f64> = a.iter().map(|x| x * sa).collect();
        let ys: Vec<f64> = b.iter().map(|x| x * sb).collect();
        let (x, y) = (V::mk(&xs), V::mk(&ys));
        let dot: f64 = a.iter().zip(b).map(|(p, q)| p * q).sum::<f64>() * sa * sb;
        let g = api!(l, x.dot(&y));
        l.check(g == Some(dot), || format!("dot product of {:?} and {:?} is {:?} instead of {}", xs, ys, g, dot));
        let g = api!(l, y.dot(&x));
        l.check(g == Some(dot), || format!("dot product of {:?} and {:?} is {:?} instead of {}", ys, xs, g, dot));
        let n2: f64 = a.iter().map(|p| p * p).sum();
        let g = api!(l, x.dot(&x));
        l.check(g == Some(n2 * sa * sa), || format!("dot product of {:?} with itself is {:?}", xs, g));
        let g = api!(l, x.cross(&y));
        if n == 3 {
            let s = sa * sb;
            let w = [(a[1] * b[2] - a[2] * b[1]) * s, (a[2] * b[0] - a[0] * b[2]) * s, (a[0] * b[1] - a[1] * b[0]) * s, 0.0];
            l.check(g == Some(w), || format!("cross product of {:?} and {:?} is {:?} instead of {:?}", xs, ys, g, w));
            let g = api!(l, y.cross(&x));
            l.check(g == Some(w.map(|v| -v)), || format!("cross product of {:?} and {:?} is {:?} instead of minus {:?}", ys, xs, g, w));
            let g = api!(l, x.cross(&x));
            l.check(g == Some([0.0; 4]), || format!("cross product of {:?} with itself is {:?}", xs, g));
        } else {
            l.check(g.is_none(), || format!("a cross product {:?} of {}-vectors", g, n));
        }
        let m = n2.sqrt() * sa.abs();
        let g = api!(l, x.magnitude());
        l.check(g.map_or(false, |g| near(g, m, 4.0 * V::S::EPS * m)), || format!("length of {:?} is {:?} instead of {}", xs, g, m));
        if n2 > 0.0 {
            let g = api!(l, x.normalize());
            match g {
                None => l.fail(format!("{:?} is not normalized", xs)),
                Some(g) => {
                    for i in 0..n {
                        let w = xs[i] / m;
                        if !near(g[i], w, 8.0 * V::S::EPS * w.abs()) {
                            l.fail(format!("{:?} normalized has component {} = {} instead of {}", xs, i, g[i], w));
                        }
                    }
                }
            }
        }
        let (ga, gb) = (x.get(), y.get());
        l.check(ga[..n] == xs[..] && gb[..n] == ys[..], || "an operand changed".into());
    };
    ctx.space(&format!("lattice-{}", V::NAME), &format!("every pair of vectors over {:?}", al), (al.len() as u64).pow(2 * n as u32), |i, l| {
        let mut d = Dec(i);
        let a: Vec<f64> = (0..n).map(|_| d.pick(&al)).collect();
        let b: Vec<f64> = (0..n).map(|_| d.pick(&al)).collect();
        check(&a, &b, 1.0, 1.0, l)
    });
    // magnitudes: powers of two scale both vectors separately
    let sc = alph(vec![2f64.powi(-45), 2f64.powi(-20), 2f64.powi(-7), 0.5, 2f64.powi(9), 2f64.powi(21), 2f64.powi(45)]);
    let vals = [-7.0, 0.0, 1.0, 100.0];
    let devs = Devs::new(2 * n, ctx.by(3, 4), &vals);
    ctx.space(&format!("scaled-{}", V::NAME), &format!("up to {} of {} components replaced by {:?}, each vector scaled by {:?}", ctx.by(3, 4), 2 * n, vals, sc), devs.size() * (sc.len() * sc.len()) as u64, |i, l| {
        let mut d = Dec(i);
        let (sa, sb) = (d.pick(&sc), d.pick(&sc));
        let mut x = [3.0, -4.0, 12.0, 2.0, 5.0, 6.0, -8.0, 9.0];
        if n < 4 {
            x[n..2 * n].copy_from_slice(&[5.0, 6.0, -8.0, 9.0][..n]);
        }
        devs.apply(d.0, &mut x[..2 * n]);
        check(&x[..n], &x[n..2 * n], sa, sb, l)
    });
    // nearly parallel
    let al: Vec<f64> = if n == 4 { vec![-1.0, 0.0, 2.0] } else { vec![-2.0, -1.0, 0.0, 1.0, 2.0] };
    let ks = alph(vec![1.0, -1.0, 8.0, 64.0, -100.0, 1000.0, 999.0]);
    ctx.space(&format!("nearly-parallel-{}", V::NAME), &format!("every vector over {:?} with {:?} times itself plus every vector of -1, 0, 1, both ways round", al, ks), (al.len() as u64 * 3).pow(n as u32) * ks.len() as u64 * 2, |i, l| {
        let mut d = Dec(i);
        let swap = d.take(2) == 1;
        let k = d.pick(&ks);
        let a: Vec<f64> = (0..n).map(|_| d.pick(&al)).collect();
        let b: Vec<f64> = a.iter().map(|x| k * x + d.take(3) as f64 - 1.0).collect();
        if swap {
            check(&b, &a, 1.0, 1.0, l)
        } else {
            check(&a, &b, 1.0, 1.0, l)
        }
    });
    // equal, opposite and nearly equal components
    let mut cl = vec![-1.0 - 0.5f64.powi(10), -1.0, 0.0, 1.0, 1.0 + 0.5f64.powi(10)];
    if V::S::BITS > 30 {
        cl.push(1.0 - 0.5f64.powi(14)); // squares and sums of these are exact in f64
    }
    let cl = alph(cl);
    ctx.space(&format!("close-{}", V::NAME), &format!("every pair of vectors over {:?}", cl), (cl.len() as u64).pow(2 * n as u32), |i, l| {
        let mut d = Dec(i);
        let a: Vec<f64> = (0..n).map(|_| d.pick(&cl)).collect();
        let b: Vec<f64> = (0..n).map(|_| d.pick(&cl)).collect();
        check(&a, &b, 1.0, 1.0, l)
    });
    // very unequal components
    let un = alph(vec![0.0, -0.0, 1.0, -1.0, 1.0 + 0.5f64.powi(15), -1024.0, 1e6, -3e-5, 1e12, -1e-12]);
    ctx.space(&format!("unequal-{}", V::NAME), &format!("length and direction of every vector over {:?}", un), (un.len() as u64).pow(n as u32), |i, l| {
        let mut d = Dec(i);
        let v: Vec<f64> = (0..n).map(|_| V::S::of(d.pick(&un)).d()).collect();
        l.describe(|| format!("{} {:?}", V::NAME, v));
        let m = v.iter().map(|p| p * p).sum::<f64>().sqrt();
        if m == 0.0 {
            let g = api!(l, V::mk(&v).magnitude());
            l.check(g == Some(0.0), || format!("length of the zero vector is {:?}", g));
            return;
        }
        let x = V::mk(&v);
        let g = api!(l, x.magnitude());
        l.check(g.map_or(false, |g| near(g, m, 4.0 * V::S::EPS * m)), || format!("length of {:?} is {:?} instead of {}", v, g, m));
        let g = api!(l, x.normalize());
        match g {
            None => l.fail(format!("{:?} is not normalized", v)),
            Some(g) => {
                for i in 0..n {
                    let w = v[i] / m;
                    l.check(near(g[i], w, 8.0 * V::S::EPS * w.abs()), || format!("{:?} normalized has component {} = {} instead of {}", v, i, g[i], w));
                }
            }
        }
    });
}

// ------------------------------------------------------------------------------------- C07

fn c07(ctx: &mut Ctx) {
    ctx.assume("components and tolerances are dyadic, so |a-b| <= error is decided exactly; infinite components are outside the property");
    for_vecs!(c07_vec, ctx);
    for_mats!(c07_mat, ctx);
}
const ERRS: [f64; 7] = [0.0, 0.0009765625, 0.5, 4.0, 1024.0, -0.5, -1024.0];
/// difference of two components, as a multiple of the tolerance (or a constant for tolerance 0)
fn delta(k: usize, e: f64) -> f64 {
    let tick = if e == 0.0 { 0.0009765625 } else { e / 8.0 };
    match k {
        0 => 0.0,
        1 => e,
        2 => -e,
        3 => e + tick,
        4 => -e - tick,
        5 => e - tick,
        6 => -e + tick,
        7 => f64::NAN,
        8 => 2.0 * e + 100.0,
        _ => -2.0 * e - 100.0,
    }
}
fn c07_vec<V: VecApi>(ctx: &mut Ctx) {
    c07_vec_rich::<V>(ctx);
    let n = V::N;
    let kinds = 10;
    ctx.space(&format!("vector-{}", V::NAME), &format!("tolerances {:?} x {} difference kinds on every component (equal, at, just inside, just outside, far, NaN) x NaN on either side or both", ERRS, kinds), (ERRS.len() as u64) * (kinds as u64).pow(n as u32) * 3, |i, l| {
        let mut d = Dec(i);
        let e = d.pick(&ERRS);
        let nan = d.take(3);
        let base = [3.0, -17.0, 0.0, 250.0];
        let (mut a, mut b) = ([0.0; 4], [0.0; 4]);
        let mut want = true;
        for k in 0..n {
            let dl = delta(d.take(kinds), e);
            if dl.is_nan() {
                a[k] = if nan != 1 { f64::NAN } else { base[k] };
                b[k] = if nan != 0 { f64::NAN } else { base[k] };
            } else {
                a[k] = base[k];
                b[k] = base[k] + dl;
            }
            want &= dl.abs() <= e;
        }
        l.describe(|| format!("{} a={:?} b={:?} error={}", V::NAME, &a[..n], &b[..n], e));
        l.outcome(if want { "equal" } else { "different" });
        let (x, y) = (V::mk(&a), V::mk(&b));
        let g = api!(l, x.is_equal(&y, e));
        l.check(g == Some(want), || format!("{:?} and {:?} compare {:?} within {}", &a[..n], &b[..n], g, e));
        let g = api!(l, y.is_equal(&x, e));
        l.check(g == Some(want), || format!("{:?} and {:?} compare {:?} within {}", &b[..n], &a[..n], g, e));
        let (g, w) = (api!(l, x.is_equal(&x, e)), e >= 0.0 && a[..n].iter().all(|x| !x.is_nan()));
        l.check(g == Some(w), || format!("{:?} compares {:?} with itself within {}", &a[..n], g, e));
    });
}
/// pairs of entries of every magnitude and sign
const RICH: [f64; 15] = [0.50048828125, 1.9998779296875, 1.00000011920928955078125, 1.0000000000000002220446049250313, 0.0, -0.0, 8.673617379884035e-19, -8.673617379884035e-19, 1.0, -1.0, 1.0000019073486328, 1099511627776.0, -1099511627776.0, 1099511758848.0, 1e30];
/// a difference of two entries is exactly this, or far from it, but for a few pairs left undecided
const RICH_ERRS: [f64; 8] = [0.0, 8.673617379884035e-19, 9.5367431640625e-7, 0.5, 2.0, 131072.0, 2199023255552.0, 1e31];
/// whether two entries agree within the tolerance; None where that depends on how the difference, or
/// the end of the interval around an entry, is rounded
fn agree<S: Fl>(a: f64, b: f64, e: f64) -> Option<bool> {
    let r = |x: f64| S::of(x).d();
    let (a, b, e) = (r(a), r(b), r(e));
    let by = [r((a - b).abs()) <= e, a <= r(b + e) && a >= r(b - e), b <= r(a + e) && b >= r(a - e), (a - b).abs() <= e];
    if by.iter().all(|x| *x == by[0]) { Some(by[0]) } else { None }
}
/// all of several answers
fn all_of(it: impl Iterator<Item = Option<bool>>) -> Option<bool> {
    let mut w = Some(true);
    for x in it {
        match x {
            Some(false) => return Some(false),
            None => w = None,
            _ => (),
        }
    }
    w
}
fn c07_vec_rich<V: VecApi>(ctx: &mut Ctx) {
    let n = V::N;
    let q = RICH.len() * RICH.len();
    ctx.space(&format!("rich-{}", V::NAME), &format!("every pair of values among {:?} in each two components, the others equal, tolerances {:?}", RICH, RICH_ERRS), (q * q * RICH_ERRS.len() * n * (n - 1) / 2) as u64, |i, l| {
        let mut d = Dec(i);
        let e = d.pick(&RICH_ERRS);
        let (mut a, mut b) = ([1.0, 1e30, 0.0, -3.0], [1.0, 1e30, -0.0, -3.0]);
        let pr = [(0, 1), (0, 2), (1, 2), (0, 3), (1, 3), (2, 3)];
        let (p, r) = pr[..n * (n - 1) / 2][d.take(n * (n - 1) / 2)];
        for k in [p, r] {
            a[k] = d.pick(&RICH);
            b[k] = d.pick(&RICH);
        }
        let want = match all_of((0..n).map(|k| agree::<V::S>(a[k], b[k], e))) {
            Some(w) => w,
            None => return l.soft(),
        };
        l.describe(|| format!("{} a={:?} b={:?} error={}", V::NAME, &a[..n], &b[..n], e));
        l.outcome(if want { "equal" } else { "different" });
        let (x, y) = (V::mk(&a), V::mk(&b));
        let g = api!(l, x.is_equal(&y, e));
        l.check(g == Some(want), || format!("{:?} and {:?} compare {:?} within {}", &a[..n], &b[..n], g, e));
        let g = api!(l, y.is_equal(&x, e));
        l.check(g == Some(want), || format!("{:?} and {:?} compare {:?} within {}", &b[..n], &a[..n], g, e));
    });
}
fn c07_mat_rich<M: MatApi>(ctx: &mut Ctx) {
    let (n, nn) = (M::N, M::N * M::N);
    let q = RICH.len() * RICH.len();
    let bases = [base_mat(n, 2), vec![0.0; nn], vec![1e30; nn], vec![-1.0; nn]];
    ctx.space(&format!("rich-{}", M::NAME), &format!("every pair of values among {:?} in each entry, the next entry off by as much or equal, {} bases, tolerances {:?}, both orders", RICH, bases.len(), RICH_ERRS), (q * nn * RICH_ERRS.len() * bases.len() * 4) as u64, |i, l| {
        let mut d = Dec(i);
        let e = d.pick(&RICH_ERRS);
        let (rm, two) = (d.take(2) == 0, d.take(2) == 0);
        let mut a = bases[d.take(bases.len())].clone();
        let mut b = a.clone();
        let p = d.take(nn);
        a[p] = d.pick(&RICH);
        b[p] = d.pick(&RICH);
        if two {
            a[(p + 1) % nn] = b[p];
            b[(p + 1) % nn] = a[p];
        }
        let want = match all_of((0..nn).map(|k| agree::<M::S>(a[k], b[k], e))) {
            Some(w) => w,
            None => return l.soft(),
        };
        l.describe(|| format!("{} a={:?} b={:?} error={} row_major={}", M::NAME, a, b, e, rm));
        l.outcome(if want { "equal" } else { "different" });
        let (x, y) = (M::init(&a, rm), M::init(&b, rm));
        let g = api!(l, x.is_equal(&y, e));
        l.check(g == Some(want), || format!("{:?} and {:?} compare {:?} within {}", a, b, g, e));
        let g = api!(l, y.is_equal(&x, e));
        l.check(g == Some(want), || format!("{:?} and {:?} compare {:?} within {}", b, a, g, e));
    });
}
fn c07_mat<M: MatApi>(ctx: &mut Ctx) {
    c07_mat_rich::<M>(ctx);
    let (n, nn) = (M::N, M::N * M::N);
    let vals: Vec<f64> = (1..10).map(|x| x as f64).collect();
    let k = ctx.by(3, 4);
    let devs = Devs::new(nn, k, &vals);
    ctx.space(&format!("matrix-{}", M::NAME), &format!("tolerances {:?} x up to {} of {} entries differing in each of 9 ways (at, just inside, just outside, far, NaN) x NaN on either side or both, both orders", ERRS, k, nn), devs.size() * ERRS.len() as u64 * 6, |i, l| {
        let mut d = Dec(i);
        let e = d.pick(&ERRS);
        let rm = d.take(2) == 0;
        let nan = d.take(3);
        let mut kinds = [0.0; 16];
        devs.apply(d.0, &mut kinds[..nn]);
        let mut a = base_mat(n, 0);
        let mut b = a.clone();
        let mut want = true;
        for p in 0..nn {
            let dl = delta(kinds[p] as usize, e);
            if dl.is_nan() {
                if nan != 1 {
                    a[p] = f64::NAN
                }
                if nan != 0 {
                    b[p] = f64::NAN
                }
            } else {
                b[p] += dl
            }
            want &= dl.abs() <= e;
        }
        l.describe(|| format!("{} a={:?} b={:?} error={} row_major={}", M::NAME, a, b, e, rm));
        l.outcome(if want { "equal" } else { "different" });
        let (x, y) = (M::init(&a, rm), M::init(&b, rm));
        let g = api!(l, x.is_equal(&y, e));
        l.check(g == Some(want), || format!("{:?} and {:?} compare {:?} within {}", a, b, g, e));
        let g = api!(l, y.is_equal(&x, e));
        l.check(g == Some(want), || format!("{:?} and {:?} compare {:?} within {}", b, a, g, e));
        let (g, w) = (api!(l, x.is_equal(&x, e)), e >= 0.0 && a.iter().all(|x| !x.is_nan()));
        l.check(g == Some(w), || format!("{:?} compares {:?} with itself within {}", a, g, e));
        // different storage orders never compare equal
        let z = M::init(&b, !rm);
        let g = api!(l, x.is_equal(&z, e));
        l.check(g == Some(false), || format!("matrices of different storage order compare {:?}", g));
    });
    // every subset of the entries off by the same amount: what the differences sum to is irrelevant
    let errs = [0.5, 1024.0];
    let pairs = [(1, 0), (2, 0), (1, 2), (5, 6), (6, 0), (0, 5)];
    ctx.space(&format!("subsets-{}", M::NAME), &format!("every subset of the entries at, or just inside, the tolerance, the others equal or at the other end of it; alone or with any one entry just outside; tolerances {:?}", errs), (1u64 << nn) * (pairs.len() * errs.len() * (nn + 1)) as u64, |i, l| {
        let mut d = Dec(i);
        let odd = d.take(nn + 1);
        let e = d.pick(&errs);
        let (k1, k2) = d.pick(&pairs);
        let mask = d.0;
        let a = base_mat(n, 0);
        let mut b = a.clone();
        for p in 0..nn {
            b[p] += delta(if p == odd { 3 } else if mask >> p & 1 == 1 { k1 } else { k2 }, e);
        }
        let want = odd == nn;
        l.describe(|| format!("{} a={:?} b={:?} error={}", M::NAME, a, b, e));
        l.outcome(if want { "equal" } else { "different" });
        let (x, y) = (M::init(&a, true), M::init(&b, true));
        let g = api!(l, x.is_equal(&y, e));
        l.check(g == Some(want), || format!("{:?} and {:?} compare {:?} within {}", a, b, g, e));
        let g = api!(l, y.is_equal(&x, e));
        l.check(g == Some(want), || format!("{:?} and {:?} compare {:?} within {}", b, a, g, e));
    });
}

// ------------------------------------------------------------------------------------- C08

fn c08(ctx: &mut Ctx) {
    for_vecs!(c08_vec, ctx);
    for_mats!(c08_mat, ctx);
}
fn c08_vec<V: VecApi>(ctx: &mut Ctx) {
    let n = V::N;
    let al = alph(vec![-2.5, 0.0, 1.0, 1e10, 2f64.powi(100), -2f64.powi(-90)]);
    ctx.space(&format!("vector-{}", V::NAME), &format!("every vector over {:?} x one component overwritten by each value", al), (al.len() as u64).pow(n as u32 + 1) * n as u64, |i, l| {
        let mut d = Dec(i);
        let mut v: Vec<f64> = (0..n).map(|_| d.pick(&al)).collect();
        let nv = d.pick(&al) + 0.25;
        let nv = V::S::of(nv).d();
        let p = d.take(n);
        l.describe(|| format!("{} {:?}, component {} set to {}", V::NAME, v, p, nv));
        let mut x = V::mk(&v);
        for k in 0..n {
            let g = api!(l, x.at(k));
            l.check(g == v[k], || format!("component {} of {:?} reads {}", k, v, g));
        }
        api!(l, x.put(p, nv));
        v[p] = nv;
        for k in 0..n {
            let g = api!(l, x.at(k));
            l.check(g == v[k], || format!("after setting component {} to {}: component {} of {:?} reads {}", p, nv, k, v, g));
        }
        let g = api!(l, x.size());
        l.check(g == Some(n), || format!("size of a {}-vector is {:?}", n, g));
        let g = V::dflt();
        l.check(g == [0.0; 4], || format!("the default vector is {:?}", g));
    });
}
fn c08_mat<M: MatApi>(ctx: &mut Ctx) {
    let (n, nn) = (M::N, M::N * M::N);
    let run = |mut a: Vec<f64>, rm: bool, p: usize, l: &mut Local| {
        l.describe(|| format!("{} {:?} row_major={}, entry ({},{}) overwritten", M::NAME, a, rm, p / n, p % n));
        let mut x = api!(l, M::init(&a, rm));
        let (raw, flag) = x.raw();
        l.check(flag == rm, || "the constructor ignores the storage order".into());
        let mut rows = [0.0; 16];
        rows[..nn].copy_from_slice(&a);
        let want = if rm { rows } else { tr(n, &a) };
        l.check(raw[..nn] == want[..nn], || format!("{:?} (row_major={}) is stored as {:?}", a, rm, &raw[..nn]));
        let t: f64 = (0..n).map(|k| a[k * n + k]).sum();
        let g = api!(l, x.trace());
        // however the sum is rounded on the way
        let most: f64 = (0..n).map(|k| a[k * n + k].abs()).sum();
        l.check(near(g, t, 4.0 * M::S::EPS * most), || format!("trace of {:?} is {} instead of {}", a, g, t));
        if let Some((s, o)) = api!(l, x.submat()) {
            let mut ok = o == rm;
            for r in 0..3 {
                for c in 0..3 {
                    ok &= s[r * 3 + c] == a[r * n + c];
                }
            }
            l.check(ok, || format!("upper left 3x3 of {:?} (row_major={}) is {:?} (row_major={})", a, rm, s, o));
        }
        if a[nn - 1] != 0.0 {
            match api!(l, x.normalize()) {
                None => l.fail("normalize gives nothing".into()),
                Some(m) => {
                    let g = m.rows();
                    for q in 0..nn {
                        let w = a[q] / a[nn - 1];
                        if !near(g[q], w, 4.0 * M::S::EPS * w.abs()) {
                            l.fail(format!("{:?} normalized by its last entry has {} at ({},{}) instead of {}", a, g[q], q / n, q % n, w));
                            break;
                        }
                    }
                    l.check(m.raw().1 == rm, || "normalize changed the storage order".into());
                }
            }
        }
        // overwrite one entry: exactly that entry changes
        api!(l, x.put(p / n, p % n, -77.5));
        a[p] = -77.5;
        for r in 0..n {
            for c in 0..n {
                let g = api!(l, x.at(r, c));
                if g != a[r * n + c] {
                    l.fail(format!("entry ({},{}) of {:?} (row_major={}) reads {}", r, c, a, rm, g));
                    return;
                }
            }
        }
        l.check(x.rows()[..nn] == a[..], || format!("{:?} (row_major={}) is stored as {:?}", a, rm, x.raw().0));
        let g = api!(l, x.size());
        l.check(g == Some(nn), || format!("size is {:?}", g));
        l.check(x.dot_none(&x) && x.cross_none(&x), || "a dot or cross product of square matrices".into());
    };
    let vals = [-4.0, 0.0, 0.5, 1e7, 2f64.powi(60), -2f64.powi(-55)];
    let k = ctx.by(2, 3);
    let devs = Devs::new(nn, k, &vals);
    ctx.space(
        &format!("matrix-{}", M::NAME),
        &format!("up to {} of {} entries of 2 base matrices replaced by {:?} x one entry overwritten x both orders", k, nn, vals),
        devs.size() * 4 * nn as u64,
        |i, l| {
            let mut d = Dec(i);
            let rm = d.take(2) == 0;
            let bs = [0, 2][d.take(2)];
            let p = d.take(nn);
            let mut a = base_mat(n, bs);
            devs.apply(d.0, &mut a);
            run(a, rm, p, l)
        },
    );
    let sp = specials(n);
    let one = Devs::new(nn, ctx.by(1, 2), &[-4.0, 0.0, 1.0, 1e7, 2f64.powi(60), -2f64.powi(-55)]);
    ctx.space(&format!("structured-{}", M::NAME), &format!("{} matrices of special structure with up to {} entries replaced x one entry overwritten x both orders", sp.len(), ctx.by(1, 2)), one.size() * (sp.len() * nn * 2) as u64, |i, l| {
        let mut d = Dec(i);
        let rm = d.take(2) == 0;
        let p = d.take(nn);
        let mut a = sp[d.take(sp.len())].clone();
        one.apply(d.0, &mut a);
        run(a, rm, p, l)
    });
    ctx.space(&format!("constants-{}", M::NAME), "default and identity", 2, |i, l| {
        let m = if i == 0 { api!(l, M::dflt()) } else { api!(l, M::iden()) };
        l.describe(|| format!("{} {}", M::NAME, if i == 0 { "default" } else { "identity" }));
        for r in 0..n {
            for c in 0..n {
                let w = if i == 1 && r == c { 1.0 } else { 0.0 };
                l.check(m.at(r, c) == w, || format!("entry ({},{}) is {}", r, c, m.at(r, c)));
            }
        }
        l.check(m.raw().1, || "not row-major".into());
        let g = api!(l, m.trace());
        l.check(g == if i == 0 { 0.0 } else { n as f64 }, || format!("trace is {}", g));
        if i == 1 {
            let a = base_mat(n, 2);
            let x = M::init(&a, true);
            let p = api!(l, m.mul(&x)).map(|r| r.rows());
            let q = api!(l, x.mul(&m)).map(|r| r.rows());
            let mut w = [0.0; 16];
            w[..nn].copy_from_slice(&a);
            eq_rows(l, "identity times a matrix", p, &w, n);
            eq_rows(l, "matrix times identity", q, &w, n);
        }
    });
}

// ------------------------------------------------------------------------------------- C38

/// a matrix of the library with its companion, which is built from the inverses of the factors
#[derive(Clone)]
struct Pair<M> {
    x: M,
    k: M,
    m: A16,
    mi: A16,
    rm: bool,
    n: u8,
    /// what rounding may have added to any entry, once a factor was not exact
    e: f64,
}

fn c38(ctx: &mut Ctx) {
    ctx.assume("factors are small integer matrices of determinant 1 or -1 (powers of two on the diagonal, in f64 one with skew axes of length one), whose inverses are known; matrices that agree to 1/1024 in every entry are continued once; entries of at most 24 are continued");
    for_mats!(c38_mat, ctx);
}

fn c38_mat<M: MatApi>(ctx: &mut Ctx) {
    let (n, nn) = (M::N, M::N * M::N);
    let id = |n: usize| {
        let mut r = [0.0; 16];
        for i in 0..n {
            r[i * n + i] = 1.0
        }
        r
    };
    let one = id(n);
    // (name, factor, its inverse)
    let mut gens: Vec<(String, A16, A16)> = vec![];
    for i in 0..n {
        for j in 0..n {
            // in four dimensions the neighbouring shears, and those of the last column and row
            if i != j && (n == 3 || j == n - 1 || i == n - 1 || j == i + 1) {
                let s = if (i + j) % 2 == 0 { 1.0 } else { -2.0 };
                let (mut a, mut b) = (one, one);
                a[i * n + j] = s;
                b[i * n + j] = -s;
                gens.push((format!("shear {} at ({},{})", s, i, j), a, b));
            }
        }
    }
    let (mut a, mut b) = ([0.0; 16], [0.0; 16]);
    for i in 0..n {
        a[i * n + (i + 1) % n] = 1.0;
        b[((i + 1) % n) * n + i] = 1.0;
    }
    gens.push(("cyclic permutation".into(), a, b));
    let mut a = one;
    a[0] = -1.0;
    gens.push(("sign of the first axis".into(), a, a));
    let (mut a, mut b) = (one, one);
    a[nn - 1] = 2.0;
    b[nn - 1] = 0.5;
    a[n + 1] = -0.5;
    b[n + 1] = -2.0;
    gens.push(("powers of two on the diagonal".into(), a, b));
    // rows of length one that are not at right angles, with a determinant other than one
    let (mut a, mut b) = (one, one);
    a[n] = 0.6;
    a[n + 1] = 0.8;
    b[n] = -0.75;
    b[n + 1] = 1.25;
    if M::S::BITS > 30 {
        gens.push(("skew axes of length one".into(), a, b));
    }
    let skew = gens.len() as u32 - 1;
    let g = gens.len() as u32;
    let names = |o: u32| match o {
        _ if o < g => format!("times {}", gens[o as usize].0),
        _ if o < 2 * g => format!("{} times", gens[(o - g) as usize].0),
        _ => ["invert", "transpose", "rebuild in the other order", "square"][(o - 2 * g) as usize].into(),
    };
    let big = |m: &A16| m[..nn].iter().fold(0.0f64, |a, x| a.max(x.abs()));
    // error of an inverse by cofactors of a matrix known to e
    let inv_err = |m: &A16, mi: &A16, e: f64| {
        let (bm, bi) = (big(m).max(1.0), big(mi).max(1.0));
        let d = det_adj(n, &m[..nn]).0.abs();
        let nf = n as f64;
        2.0 * e * (nf * bi).powi(2) + M::S::EPS * (24.0 * bm.powi(n as i32 - 1) + 96.0 * bm.powi(n as i32) * bi) / d
    };
    let step = |s: &Pair<M>, op: u32, l: &mut Local| -> Option<Pair<M>> {
        let lib = |a: &A16| M::init(&a[..nn], s.rm);
        let got: Option<(M, M)>;
        let (m, mi, rm);
        let nf = n as f64;
        let sb = big(&s.m).max(big(&s.mi)).max(1.0);
        let e;
        let two = |a: Option<M>, b: Option<M>| match (a, b) {
            (Some(a), Some(b)) => Some((a, b)),
            _ => None,
        };
        if op < 2 * g {
            let (_, f, fi) = &gens[(op % g) as usize];
            rm = s.rm;
            let fb = big(f).max(big(fi));
            e = if s.e > 0.0 || (M::S::BITS > 30 && op % g == skew) { nf * fb * s.e + 4.0 * nf * M::S::EPS * sb * fb } else { 0.0 };
            if op < g {
                got = two(api!(l, s.x.mul(&lib(f))), api!(l, lib(fi).mul(&s.k)));
                m = mm(n, &s.m, f);
                mi = mm(n, fi, &s.mi);
            } else {
                got = two(api!(l, lib(f).mul(&s.x)), api!(l, s.k.mul(&lib(fi))));
                m = mm(n, f, &s.m);
                mi = mm(n, &s.mi, fi);
            }
        } else {
            match op - 2 * g {
                0 => {
                    got = two(api!(l, s.x.inverse()), api!(l, s.k.inverse()));
                    m = s.mi;
                    mi = s.m;
                    rm = s.rm;
                    e = if s.e > 0.0 { inv_err(&s.m, &s.mi, s.e).max(inv_err(&s.mi, &s.m, s.e)) } else { 0.0 };
                }
                1 => {
                    got = Some((api!(l, s.x.transpose()), api!(l, s.k.transpose())));
                    m = tr(n, &s.m);
                    mi = tr(n, &s.mi);
                    rm = s.rm;
                    e = s.e;
                }
                2 => {
                    got = Some((M::init(&s.x.rows()[..nn], !s.rm), M::init(&s.k.rows()[..nn], !s.rm)));
                    m = s.m;
                    mi = s.mi;
                    rm = !s.rm;
                    e = s.e;
                }
                _ => {
                    got = two(api!(l, s.x.mul(&s.x)), api!(l, s.k.mul(&s.k)));
                    m = mm(n, &s.m, &s.m);
                    mi = mm(n, &s.mi, &s.mi);
                    rm = s.rm;
                    e = if s.e > 0.0 { 2.0 * nf * sb * s.e + 4.0 * nf * M::S::EPS * sb * sb } else { 0.0 };
                }
            }
        }
        let Some((x, k)) = got else {
            l.fail("an operation on invertible matrices gives nothing".into());
            return None;
        };
        let (bm, bi) = (big(&m), big(&mi));
        if bm > 24.0 || bi > 24.0 {
            return None;
        }
        // both sides of each law, entries compared within the rounding of cofactors of this size
        let mut tol = M::S::EPS * 64.0 * (s.n as f64 + 2.0) * (1.0 + bm * bi);
        if e > 0.0 {
            tol += inv_err(&m, &mi, e) + 4.0 * nf * (1.0 + bm.max(bi)) * e;
            if tol > 1e-5 {
                l.outcome("left to rounding");
                return None;
            }
        }
        let same = |l: &mut Local, what: &str, got: Option<A16>, want: &A16| match got {
            None => l.fail(format!("{} gives nothing", what)),
            Some(v) => {
                if !near_n(&v[..nn], &want[..nn], tol) {
                    l.fail(format!("{} is {:?} instead of {:?}", what, &v[..nn], &want[..nn]))
                }
            }
        };
        let at = |y: &M| {
            let mut r = [0.0; 16];
            for i in 0..nn {
                r[i] = y.at(i / n, i % n)
            }
            r
        };
        same(l, "the product", Some(at(&x)), &m);
        same(l, "the product of the inverse factors in reverse order", Some(at(&k)), &mi);
        l.calls += 6;
        let inv = x.inverse();
        same(l, "the inverse of the product", inv.map(|y| at(&y)), &mi);
        same(l, "the product times the product of the inverse factors", x.mul(&k).map(|y| at(&y)), &one);
        same(l, "the product of the inverse factors times the product", k.mul(&x).map(|y| at(&y)), &one);
        same(l, "the inverse of the transpose", x.transpose().inverse().map(|y| at(&y)), &tr(n, &mi));
        if let Some(inv) = inv {
            l.check(inv.raw().1 == rm && x.raw().1 == rm, || "the storage order changes".into());
            let mut t = inv;
            t.transpose_self();
            l.calls += 1;
            same(l, "the transpose of the inverse", Some(at(&t)), &tr(n, &mi));
            // solving: what the matrix makes of a vector its inverse takes back
            for v in [[1.0, 0.0, 0.0, 0.0], [3.0, -1.0, 2.0, 5.0]] {
                let w = api!(l, x.mul_col(&v)).and_then(|w| api!(l, inv.mul_col(&w[..n])));
                if !w.map(|w| near_n(&w[..n], &v[..n], tol * if e > 0.0 { 64.0 * bm.max(1.0) } else { 8.0 })).unwrap_or(false) {
                    l.fail(format!("the inverse takes the image of {:?} to {:?}", &v[..n], w))
                }
                let w = api!(l, x.row_mul(&v)).and_then(|w| api!(l, inv.row_mul(&w[..n])));
                if !w.map(|w| near_n(&w[..n], &v[..n], tol * if e > 0.0 { 64.0 * bm.max(1.0) } else { 8.0 })).unwrap_or(false) {
                    l.fail(format!("the inverse takes the image of the row {:?} to {:?}", &v[..n], w))
                }
            }
        }
        if l.failed() {
            return None;
        }
        Some(Pair { x, k, m, mi, rm, n: s.n + 1, e })
    };
    ctx.bfs(
        &format!("words-{}", M::NAME),
        &format!("every product of up to the stated number of the {} factors from either side, with inversion, transposition, squaring and change of storage order between", gens.len()),
        [true, false].iter().map(|&rm| Pair { x: M::init(&one[..nn], rm), k: M::init(&one[..nn], rm), m: one, mi: one, rm, n: 0, e: 0.0 }).collect(),
        2 * g + 4,
        ctx.by(if n == 3 { 6 } else { 5 }, if n == 3 { 7 } else { 6 }),
        12_000_000,
        step,
        |s| {
            let mut k = [0i16; 16];
            for i in 0..nn {
                k[i] = (s.m[i] * 1024.0).round() as i16
            }
            (k, s.rm)
        },
        names,
    );
}
