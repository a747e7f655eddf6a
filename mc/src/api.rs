//! Uniform view of the library's matrix, vector and quaternion types, so that one exploration
//! runs over every size, layout and scalar type. Values cross this boundary as f64 (exact for
//! both scalar types); every operation is the library's own method.

use mazth::i_comparable::IComparableError;
use mazth::mat::*;
use mazth::quat::Quat;

pub trait Fl: Copy + PartialOrd + std::fmt::Debug + Send + Sync + 'static {
    const EPS: f64;
    const NAME: &'static str;
    /// bits of the mantissa
    const BITS: u32;
    fn of(x: f64) -> Self;
    fn d(self) -> f64;
    fn sum(self, o: Self) -> f64;
    fn sub(self, o: Self) -> f64;
    fn prod(self, o: Self) -> f64;
    fn quot(self, o: Self) -> f64;
}
macro_rules! fl {
    ($t:ty, $n:expr, $b:expr) => {
        impl Fl for $t {
            const EPS: f64 = <$t>::EPSILON as f64;
            const NAME: &'static str = $n;
            const BITS: u32 = $b;
            fn of(x: f64) -> Self {
                x as $t
            }
            fn d(self) -> f64 {
                self as f64
            }
            fn sum(self, o: Self) -> f64 {
                (self + o) as f64
            }
            fn sub(self, o: Self) -> f64 {
                (self - o) as f64
            }
            fn prod(self, o: Self) -> f64 {
                (self * o) as f64
            }
            fn quot(self, o: Self) -> f64 {
                (self / o) as f64
            }
        }
    };
}
fl!(f32, "f32", 24);
fl!(f64, "f64", 53);

pub type A4 = [f64; 4];
pub type A16 = [f64; 16];

/// The six vector types. Arrays are padded with zeros to four.
pub trait VecApi: Copy + Send + Sync + 'static {
    type S: Fl;
    const N: usize;
    const NAME: &'static str;
    fn mk(v: &[f64]) -> Self;
    fn get(&self) -> A4;
    fn dflt() -> A4;
    fn size(&self) -> Option<usize>;
    fn at(&self, i: usize) -> f64;
    fn put(&mut self, i: usize, v: f64);
    fn plus(&self, o: &Self) -> Option<A4>;
    fn minus(&self, o: &Self) -> Option<A4>;
    fn mul_elem(&self, o: &Self) -> Option<A4>;
    fn div(&self, o: &Self) -> Option<A4>;
    fn dot(&self, o: &Self) -> Option<f64>;
    fn cross(&self, o: &Self) -> Option<A4>;
    fn magnitude(&self) -> Option<f64>;
    fn normalize(&self) -> Option<A4>;
    fn scale(&self, s: f64) -> Option<A4>;
    fn transpose(&self) -> A4;
    fn transpose2(&self) -> A4;
    fn is_equal(&self, o: &Self, e: f64) -> Option<bool>;
}

fn pad<T: Fl>(v: &[T]) -> A4 {
    let mut r = [0.0; 4];
    for (i, x) in v.iter().enumerate() {
        r[i] = x.d()
    }
    r
}

macro_rules! vecapi {
    ($ty:ident, $s:ty, $n:expr, $name:expr) => {
        impl VecApi for $ty<$s> {
            type S = $s;
            const N: usize = $n;
            const NAME: &'static str = $name;
            fn mk(v: &[f64]) -> Self {
                let mut a = [0 as $s; $n];
                for i in 0..$n {
                    a[i] = v[i] as $s
                }
                $ty { _val: a }
            }
            fn get(&self) -> A4 {
                pad(&self._val)
            }
            fn dflt() -> A4 {
                let d: $ty<$s> = Default::default();
                pad(&d._val)
            }
            fn size(&self) -> Option<usize> {
                <$ty<$s>>::size(self)
            }
            fn at(&self, i: usize) -> f64 {
                self[i] as f64
            }
            fn put(&mut self, i: usize, v: f64) {
                self[i] = v as $s
            }
            fn plus(&self, o: &Self) -> Option<A4> {
                <$ty<$s>>::plus(self, o).map(|r| pad(&r._val))
            }
            fn minus(&self, o: &Self) -> Option<A4> {
                <$ty<$s>>::minus(self, o).map(|r| pad(&r._val))
            }
            fn mul_elem(&self, o: &Self) -> Option<A4> {
                <$ty<$s>>::mul_elem(self, o).map(|r| pad(&r._val))
            }
            fn div(&self, o: &Self) -> Option<A4> {
                <$ty<$s>>::div(self, o).map(|r| pad(&r._val))
            }
            fn dot(&self, o: &Self) -> Option<f64> {
                <$ty<$s>>::dot(self, o).map(|x| x as f64)
            }
            fn cross(&self, o: &Self) -> Option<A4> {
                <$ty<$s>>::cross(self, o).map(|r| pad(&r._val))
            }
            fn magnitude(&self) -> Option<f64> {
                <$ty<$s>>::magnitude(self).map(|x| x as f64)
            }
            fn normalize(&self) -> Option<A4> {
                <$ty<$s>>::normalize(*self).map(|r| pad(&r._val))
            }
            fn scale(&self, s: f64) -> Option<A4> {
                <$ty<$s>>::scale(self, s as $s).map(|r| pad(&r._val))
            }
            fn transpose(&self) -> A4 {
                pad(&<$ty<$s>>::transpose(*self)._val)
            }
            fn transpose2(&self) -> A4 {
                pad(&<$ty<$s>>::transpose(*self).transpose()._val)
            }
            fn is_equal(&self, o: &Self, e: f64) -> Option<bool> {
                IComparableError::is_equal(self, o, e as $s)
            }
        }
    };
}
vecapi!(Mat2x1, f32, 2, "Mat2x1<f32>");
vecapi!(Mat2x1, f64, 2, "Mat2x1<f64>");
vecapi!(Mat1x2, f32, 2, "Mat1x2<f32>");
vecapi!(Mat1x2, f64, 2, "Mat1x2<f64>");
vecapi!(Mat3x1, f32, 3, "Mat3x1<f32>");
vecapi!(Mat3x1, f64, 3, "Mat3x1<f64>");
vecapi!(Mat1x3, f32, 3, "Mat1x3<f32>");
vecapi!(Mat1x3, f64, 3, "Mat1x3<f64>");
vecapi!(Mat4x1, f32, 4, "Mat4x1<f32>");
vecapi!(Mat4x1, f64, 4, "Mat4x1<f64>");
vecapi!(Mat1x4, f32, 4, "Mat1x4<f32>");
vecapi!(Mat1x4, f64, 4, "Mat1x4<f64>");

/// Run a generic function for every vector type.
#[macro_export]
macro_rules! for_vecs {
    ($f:ident, $ctx:expr) => {{
        use mazth::mat::*;
        $f::<Mat2x1<f32>>($ctx);
        $f::<Mat2x1<f64>>($ctx);
        $f::<Mat1x2<f32>>($ctx);
        $f::<Mat1x2<f64>>($ctx);
        $f::<Mat3x1<f32>>($ctx);
        $f::<Mat3x1<f64>>($ctx);
        $f::<Mat1x3<f32>>($ctx);
        $f::<Mat1x3<f64>>($ctx);
        $f::<Mat4x1<f32>>($ctx);
        $f::<Mat4x1<f64>>($ctx);
        $f::<Mat1x4<f32>>($ctx);
        $f::<Mat1x4<f64>>($ctx);
    }};
}

/// Square matrices. `rows` arrays are listed row by row and padded to 16.
pub trait MatApi: Copy + Send + Sync + 'static {
    type S: Fl;
    const N: usize;
    const NAME: &'static str;
    /// the library's constructor
    fn init(rows: &[f64], row_major: bool) -> Self;
    /// storage as laid out, and the order flag
    fn raw(&self) -> (A16, bool);
    fn of_raw(raw: &[f64], row_major: bool) -> Self;
    fn at(&self, r: usize, c: usize) -> f64;
    fn put(&mut self, r: usize, c: usize, v: f64);
    fn dflt() -> Self;
    fn iden() -> Self;
    fn trace(&self) -> f64;
    fn size(&self) -> Option<usize>;
    fn plus(&self, o: &Self) -> Option<Self>;
    fn minus(&self, o: &Self) -> Option<Self>;
    fn mul_elem(&self, o: &Self) -> Option<Self>;
    fn div(&self, o: &Self) -> Option<Self>;
    fn mul(&self, o: &Self) -> Option<Self>;
    fn scale(&self, s: f64) -> Option<Self>;
    fn normalize(&self) -> Option<Self>;
    fn transpose(&self) -> Self;
    fn transpose_self(&mut self);
    fn inverse(&self) -> Option<Self>;
    fn dot_none(&self, o: &Self) -> bool;
    fn cross_none(&self, o: &Self) -> bool;
    /// matrix times column vector
    fn mul_col(&self, v: &[f64]) -> Option<A4>;
    /// row vector times matrix
    fn row_mul(&self, v: &[f64]) -> Option<A4>;
    fn is_equal(&self, o: &Self, e: f64) -> Option<bool>;
    /// upper left 3x3 as (rows, order); 4x4 only
    fn submat(&self) -> Option<([f64; 9], bool)>;
    /// rows read straight from the storage
    fn rows(&self) -> A16 {
        let (v, rm) = self.raw();
        let mut r = [0.0; 16];
        for i in 0..Self::N {
            for j in 0..Self::N {
                r[i * Self::N + j] = if rm { v[i * Self::N + j] } else { v[j * Self::N + i] }
            }
        }
        r
    }
}

macro_rules! matapi {
    ($ty:ident, $s:ty, $n:expr, $name:expr, $col:ident, $row:ident, $mc:ident, $rm:ident, $sub:expr) => {
        impl MatApi for $ty<$s> {
            type S = $s;
            const N: usize = $n;
            const NAME: &'static str = $name;
            fn init(rows: &[f64], row_major: bool) -> Self {
                let mut a = [0 as $s; $n * $n];
                for i in 0..$n * $n {
                    a[i] = rows[i] as $s
                }
                <$ty<$s>>::init(a, row_major)
            }
            fn raw(&self) -> (A16, bool) {
                let mut r = [0.0; 16];
                for i in 0..$n * $n {
                    r[i] = self._val[i] as f64
                }
                (r, self._is_row_major)
            }
            fn of_raw(raw: &[f64], row_major: bool) -> Self {
                let mut a = [0 as $s; $n * $n];
                for i in 0..$n * $n {
                    a[i] = raw[i] as $s
                }
                $ty { _val: a, _is_row_major: row_major }
            }
            fn at(&self, r: usize, c: usize) -> f64 {
                self.index(r as u64, c as u64) as f64
            }
            fn put(&mut self, r: usize, c: usize, v: f64) {
                *self.index_mut(r as u64, c as u64) = v as $s
            }
            fn dflt() -> Self {
                Default::default()
            }
            fn iden() -> Self {
                <$ty<$s>>::iden()
            }
            fn trace(&self) -> f64 {
                <$ty<$s>>::trace(self) as f64
            }
            fn size(&self) -> Option<usize> {
                <$ty<$s>>::size(self)
            }
            fn plus(&self, o: &Self) -> Option<Self> {
                <$ty<$s>>::plus(self, o)
            }
            fn minus(&self, o: &Self) -> Option<Self> {
                <$ty<$s>>::minus(self, o)
            }
            fn mul_elem(&self, o: &Self) -> Option<Self> {
                <$ty<$s>>::mul_elem(self, o)
            }
            fn div(&self, o: &Self) -> Option<Self> {
                <$ty<$s>>::div(self, o)
            }
            fn mul(&self, o: &Self) -> Option<Self> {
                <$ty<$s>>::mul(self, o)
            }
            fn scale(&self, s: f64) -> Option<Self> {
                <$ty<$s>>::scale(self, s as $s)
            }
            fn normalize(&self) -> Option<Self> {
                <$ty<$s>>::normalize(*self)
            }
            fn transpose(&self) -> Self {
                <$ty<$s>>::transpose(*self)
            }
            fn transpose_self(&mut self) {
                <$ty<$s>>::transpose_self(self)
            }
            fn inverse(&self) -> Option<Self> {
                <$ty<$s>>::inverse(self)
            }
            fn dot_none(&self, o: &Self) -> bool {
                <$ty<$s>>::dot(self, o).is_none()
            }
            fn cross_none(&self, o: &Self) -> bool {
                <$ty<$s>>::cross(self, o).is_none()
            }
            fn mul_col(&self, v: &[f64]) -> Option<A4> {
                self.$mc(&<$col<$s> as VecApi>::mk(v)).map(|r| r.get())
            }
            fn row_mul(&self, v: &[f64]) -> Option<A4> {
                <$row<$s> as VecApi>::mk(v).$rm(self).map(|r| r.get())
            }
            fn is_equal(&self, o: &Self, e: f64) -> Option<bool> {
                IComparableError::is_equal(self, o, e as $s)
            }
            fn submat(&self) -> Option<([f64; 9], bool)> {
                $sub(self)
            }
        }
    };
}
fn sub32(m: &Mat4<f32>) -> Option<([f64; 9], bool)> {
    let s = m.submat_mat3();
    let r = MatApi::rows(&s);
    Some((r[..9].try_into().unwrap(), s._is_row_major))
}
fn sub64(m: &Mat4<f64>) -> Option<([f64; 9], bool)> {
    let s = m.submat_mat3();
    let r = MatApi::rows(&s);
    Some((r[..9].try_into().unwrap(), s._is_row_major))
}
matapi!(Mat3, f32, 3, "Mat3<f32>", Mat3x1, Mat1x3, mul_mat3x1, mul_mat3x3, |_| None);
matapi!(Mat3, f64, 3, "Mat3<f64>", Mat3x1, Mat1x3, mul_mat3x1, mul_mat3x3, |_| None);
matapi!(Mat4, f32, 4, "Mat4<f32>", Mat4x1, Mat1x4, mul_mat4x1, mul_mat4x4, sub32);
matapi!(Mat4, f64, 4, "Mat4<f64>", Mat4x1, Mat1x4, mul_mat4x1, mul_mat4x4, sub64);

#[macro_export]
macro_rules! for_mats {
    ($f:ident, $ctx:expr) => {{
        use mazth::mat::*;
        $f::<Mat3<f32>>($ctx);
        $f::<Mat3<f64>>($ctx);
        $f::<Mat4<f32>>($ctx);
        $f::<Mat4<f64>>($ctx);
    }};
}

/// Quaternions as [x, y, z, w].
pub trait QuatApi: Copy + Send + Sync + 'static {
    type S: Fl;
    const NAME: &'static str;
    fn mk(q: A4) -> Self;
    fn raw_vals(q: A4) -> Self;
    fn get(&self) -> A4;
    fn dflt() -> Self;
    fn init() -> Self;
    fn init_normalize(q: A4) -> Self;
    fn auto_w(v: [f64; 3]) -> Self;
    fn from_translation(v: [f64; 3]) -> Self;
    fn translation_matrix(&self, rm: bool) -> (A16, bool);
    fn rotation_matrix(&self, rm: bool) -> (A16, bool);
    fn to_axis_angle(&self) -> ([f64; 3], f64);
    fn from_degree(axis: [f64; 3], a: f64) -> Self;
    fn from_radian(axis: [f64; 3], a: f64) -> Self;
    fn rotate(&self, v: [f64; 3]) -> [f64; 3];
    /// matrix of the rotation applied to (v, h)
    fn matrix_apply(&self, rm: bool, v: A4) -> A4;
    fn matrix_apply_t(&self, rm: bool, v: A4) -> A4;
    fn reflect(&self, v: [f64; 3]) -> [f64; 3];
    fn parallel(&self, v: [f64; 3]) -> [f64; 3];
    fn orthogonal(&self, v: [f64; 3]) -> [f64; 3];
    fn add(&self, o: Self) -> Self;
    fn minus(&self, o: Self) -> Self;
    fn mul(&self, o: Self) -> Self;
    fn len2(&self) -> f64;
    fn len(&self) -> f64;
    fn normalize(&self) -> Self;
    fn ln(&self) -> Self;
    fn pow(&self, t: f64) -> Self;
    fn negate(&self) -> Self;
    fn conjugate(&self) -> Self;
    fn scale(&self, s: f64) -> Self;
    fn inverse(&self) -> Self;
    fn lerp(a: Self, b: Self, t: f64) -> Self;
    fn slerp(a: Self, b: Self, t: f64) -> Self;
    fn dual(r: Self, t: Self) -> (A4, A4);
}
macro_rules! quatapi {
    ($s:ty, $name:expr) => {
        impl QuatApi for Quat<$s> {
            type S = $s;
            const NAME: &'static str = $name;
            fn mk(q: A4) -> Self {
                Quat { _x: q[0] as $s, _y: q[1] as $s, _z: q[2] as $s, _w: q[3] as $s }
            }
            fn raw_vals(q: A4) -> Self {
                Quat::<$s>::init_from_vals_raw(q[0] as $s, q[1] as $s, q[2] as $s, q[3] as $s)
            }
            fn get(&self) -> A4 {
                [self._x as f64, self._y as f64, self._z as f64, self._w as f64]
            }
            fn dflt() -> Self {
                Default::default()
            }
            fn init() -> Self {
                Quat::<$s>::init()
            }
            fn init_normalize(q: A4) -> Self {
                Quat::<$s>::init_from_vals_normalize(q[0] as $s, q[1] as $s, q[2] as $s, q[3] as $s)
            }
            fn auto_w(v: [f64; 3]) -> Self {
                Quat::<$s>::init_from_vals_auto_w(v[0] as $s, v[1] as $s, v[2] as $s)
            }
            fn from_translation(v: [f64; 3]) -> Self {
                Quat::<$s>::init_from_translation(<Mat3x1<$s> as VecApi>::mk(&v))
            }
            fn translation_matrix(&self, rm: bool) -> (A16, bool) {
                let m = self.to_translation_matrix(rm);
                (MatApi::rows(&m), m._is_row_major)
            }
            fn rotation_matrix(&self, rm: bool) -> (A16, bool) {
                let m = self.to_rotation_matrix(rm);
                (MatApi::rows(&m), m._is_row_major)
            }
            fn to_axis_angle(&self) -> ([f64; 3], f64) {
                let (v, a) = Quat::<$s>::to_axis_angle(self);
                ([v._val[0] as f64, v._val[1] as f64, v._val[2] as f64], a as f64)
            }
            fn from_degree(axis: [f64; 3], a: f64) -> Self {
                Quat::<$s>::init_from_axis_angle_degree((<Mat3x1<$s> as VecApi>::mk(&axis), a as $s))
            }
            fn from_radian(axis: [f64; 3], a: f64) -> Self {
                Quat::<$s>::init_from_axis_angle_radian((<Mat3x1<$s> as VecApi>::mk(&axis), a as $s))
            }
            fn rotate(&self, v: [f64; 3]) -> [f64; 3] {
                let r = self.rotate_vector(<Mat3x1<$s> as VecApi>::mk(&v));
                [r._val[0] as f64, r._val[1] as f64, r._val[2] as f64]
            }
            fn matrix_apply(&self, rm: bool, v: A4) -> A4 {
                let m = self.to_rotation_matrix(rm);
                m.mul_mat4x1(&<Mat4x1<$s> as VecApi>::mk(&v)).map_or([f64::NAN; 4], |r| r.get())
            }
            fn matrix_apply_t(&self, rm: bool, v: A4) -> A4 {
                let m = self.to_translation_matrix(rm);
                m.mul_mat4x1(&<Mat4x1<$s> as VecApi>::mk(&v)).map_or([f64::NAN; 4], |r| r.get())
            }
            fn reflect(&self, v: [f64; 3]) -> [f64; 3] {
                let r = self.reflection_in_plane(<Mat3x1<$s> as VecApi>::mk(&v));
                [r._val[0] as f64, r._val[1] as f64, r._val[2] as f64]
            }
            fn parallel(&self, v: [f64; 3]) -> [f64; 3] {
                let r = self.parallel_component_of_plane(<Mat3x1<$s> as VecApi>::mk(&v));
                [r._val[0] as f64, r._val[1] as f64, r._val[2] as f64]
            }
            fn orthogonal(&self, v: [f64; 3]) -> [f64; 3] {
                let r = self.orthogonal_component_of_plane(<Mat3x1<$s> as VecApi>::mk(&v));
                [r._val[0] as f64, r._val[1] as f64, r._val[2] as f64]
            }
            fn add(&self, o: Self) -> Self {
                Quat::<$s>::add(self, o)
            }
            fn minus(&self, o: Self) -> Self {
                Quat::<$s>::minus(self, o)
            }
            fn mul(&self, o: Self) -> Self {
                Quat::<$s>::mul(self, o)
            }
            fn len2(&self) -> f64 {
                self.length_squared() as f64
            }
            fn len(&self) -> f64 {
                self.length() as f64
            }
            fn normalize(&self) -> Self {
                Quat::<$s>::normalize(self)
            }
            fn ln(&self) -> Self {
                Quat::<$s>::ln(self)
            }
            fn pow(&self, t: f64) -> Self {
                Quat::<$s>::pow(self, t as $s)
            }
            fn negate(&self) -> Self {
                Quat::<$s>::negate(self)
            }
            fn conjugate(&self) -> Self {
                Quat::<$s>::conjugate(self)
            }
            fn scale(&self, s: f64) -> Self {
                Quat::<$s>::scale(self, s as $s)
            }
            fn inverse(&self) -> Self {
                Quat::<$s>::inverse(self)
            }
            fn lerp(a: Self, b: Self, t: f64) -> Self {
                Quat::<$s>::interpolate_linear(a, b, t as $s)
            }
            fn slerp(a: Self, b: Self, t: f64) -> Self {
                Quat::<$s>::interpolate_slerp(a, b, t as $s)
            }
            fn dual(r: Self, t: Self) -> (A4, A4) {
                let d = mazth::dualquat::DualQuat::<$s>::init(r, t);
                (d._rot.get(), d._tra.get())
            }
        }
    };
}
quatapi!(f32, "Quat<f32>");
quatapi!(f64, "Quat<f64>");

#[macro_export]
macro_rules! for_quats {
    ($f:ident, $ctx:expr) => {{
        use mazth::quat::Quat;
        $f::<Quat<f32>>($ctx);
        $f::<Quat<f64>>($ctx);
    }};
}

/// |got - want| <= tol, and both numbers
#[inline]
pub fn near(got: f64, want: f64, tol: f64) -> bool {
    (got - want).abs() <= tol
}
pub fn near_n(got: &[f64], want: &[f64], tol: f64) -> bool {
    got.len() == want.len() && got.iter().zip(want).all(|(a, b)| near(*a, *b, tol))
}
