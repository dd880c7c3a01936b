//! C13: directions and surface normals are transformed consistently.
use mc::floats::Fl;
use mc::scalars::{F2, F3, F5};
use mc::*;
use num_traits::{Inv, Num, NumCast};
use std::fmt::Debug;
use std::ops::Neg;
use vecmat::transform::{Affine, Chain, Directional, Linear, Moebius, Reorder, Rotation2, Rotation3, Scale, Shift};
use vecmat::prelude::Normalize;
use vecmat::{Complex, Matrix, Quaternion, Transform, Vector};

trait Fx: Fl + NumCast + Inv<Output = Self> {}
impl Fx for f64 {}
impl Fx for f32 {}

trait Sp<T: Fx>: Copy + Debug + 'static {
    const DIM: usize;
    fn of(l: &[T]) -> Self;
    fn list(&self) -> Vec<f64>;
}
impl<T: Fx, const N: usize> Sp<T> for Vector<T, N> {
    const DIM: usize = N;
    fn of(l: &[T]) -> Self {
        Vector::from_array(std::array::from_fn(|i| l[i]))
    }
    fn list(&self) -> Vec<f64> {
        self.into_array().iter().map(|x| x.f()).collect()
    }
}
impl<T: Fx> Sp<T> for Complex<T> {
    const DIM: usize = 2;
    fn of(l: &[T]) -> Self {
        Complex::new(l[0], l[1])
    }
    fn list(&self) -> Vec<f64> {
        self.into_array().iter().map(|x| x.f()).collect()
    }
}
impl<T: Fx> Sp<T> for Quaternion<T> {
    const DIM: usize = 4;
    fn of(l: &[T]) -> Self {
        Quaternion::from_array([l[0], l[1], l[2], l[3]])
    }
    fn list(&self) -> Vec<f64> {
        self.into_array().iter().map(|x| x.f()).collect()
    }
}
/// A transformation to choose; nothing for singular ones.
trait Tr<T: Fx, P: Sp<T>>: Directional<P> + Copy + Debug {
    fn choose(ctx: &mut Ctx, part: bool) -> Option<Self>;
    fn defined(&self, _x: &P) -> bool {
        true
    }
}
fn ints<T: Fx>(v: &[i32]) -> Vec<T> {
    v.iter().map(|x| T::lit(*x as f64)).collect()
}
impl<T: Fx, const N: usize> Tr<T, Vector<T, N>> for Shift<T, N> {
    fn choose(ctx: &mut Ctx, _: bool) -> Option<Self> {
        let k = ctx.choose(3);
        let l: Vec<T> = (0..N).map(|i| T::lit([0.0, 1.5, -3.0][(i + k) % 3])).collect();
        Some(Vector::of(&l).into())
    }
}
impl<T: Fx, const N: usize> Tr<T, Vector<T, N>> for Scale<T> {
    fn choose(ctx: &mut Ctx, _: bool) -> Option<Self> {
        Some(T::lit(*ctx.pick(&[1.0, -1.0, 2.0, -0.5, 3.7, -1000.0, 1e-3, -7.1])).into())
    }
}
fn det(a: &[f64], n: usize) -> f64 {
    if n == 0 {
        return 1.0;
    }
    (0..n)
        .map(|j| {
            let m: Vec<f64> = (1..n).flat_map(|i| (0..n).filter(move |k| *k != j).map(move |k| a[i * n + k])).collect();
            let s = if j % 2 == 0 { 1.0 } else { -1.0 };
            s * a[j] * det(&m, n - 1)
        })
        .sum()
}
impl<T: Fx, const N: usize> Tr<T, Vector<T, N>> for Linear<T, N> {
    fn choose(ctx: &mut Ctx, part: bool) -> Option<Self> {
        let th = ctx.thorough();
        if N > 4 {
            // a dense matrix with one entry of another size and sign
            let mut l: Vec<f64> = (0..N * N).map(|k| if k / N == k % N { 2.0 } else { [0.0, 1.0, -1.0][(k * k + k / N) % 3] }).collect();
            let k = ctx.choose(N * N);
            l[k] += [3.0, -5.0][ctx.choose(2)];
            if det(&l, N) == 0.0 {
                return None;
            }
            return Some(Matrix::from_array_of_arrays(std::array::from_fn(|i| std::array::from_fn(|j| T::lit(l[i * N + j])))).into());
        }
        let g: &[i32] = match (N, part) {
            (1, _) => &[-7, -2, -1, 1, 3],
            (2, false) => &[-2, -1, 0, 1, 3],
            (2, true) => &[-1, 0, 2],
            (3, false) if th => &[-1, 0, 1, 2],
            (3, false) => &[-1, 0, 2],
            _ => &[0, 1],
        };
        let mut l: Vec<f64> = (0..N * N).map(|_| *ctx.pick(g) as f64).collect();
        if N == 4 || part && N == 3 {
            // one entry of another sign and size so that the maps shear, mirror and stretch
            l[N] *= -3.0;
            l[0] *= 2.0;
        }
        if det(&l, N) == 0.0 {
            return None;
        }
        Some(Matrix::from_array_of_arrays(std::array::from_fn(|i| std::array::from_fn(|j| T::lit(l[i * N + j])))).into())
    }
}
impl<T: Fx> Tr<T, Vector<T, 2>> for Rotation2<T> {
    fn choose(ctx: &mut Ctx, _: bool) -> Option<Self> {
        Some(Rotation2::new(T::lit(ctx.choose(16) as f64) * T::FRAC_PI_8()))
    }
}
impl<T: Fx> Tr<T, Vector<T, 3>> for Rotation3<T> {
    fn choose(ctx: &mut Ctx, _: bool) -> Option<Self> {
        let mut all: Vec<[f64; 4]> = (0..16).map(|m| std::array::from_fn(|i| if m >> i & 1 == 1 { 0.5 } else { -0.5 })).collect();
        for k in 0..4 {
            all.push(std::array::from_fn(|i| (i == k) as i32 as f64));
        }
        all.push([0.8, 0.6, 0.0, 0.0]);
        all.push([0.6, 0.0, -0.8, 0.0]);
        Some(Quaternion::from_array(ctx.pick(&all).map(T::lit)).into())
    }
}
impl<T: Fx, P: Sp<T>, A: Tr<T, P>, B: Tr<T, P>> Tr<T, P> for Chain<A, B, P>
where
    Chain<A, B, P>: Directional<P>,
{
    fn choose(ctx: &mut Ctx, _: bool) -> Option<Self> {
        let a = A::choose(ctx, true);
        let b = B::choose(ctx, true);
        Some(Chain::new(a?, b?))
    }
}
fn coefs<T: Fx>(ctx: &mut Ctx) -> Option<Moebius<Complex<T>>> {
    let g = [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (-1.0, 2.0)].map(|(a, b)| Complex::new(T::lit(a), T::lit(b)));
    let [a, b, c, d]: [Complex<T>; 4] = std::array::from_fn(|_| *ctx.pick(&g));
    if (a * d - b * c).norm_sqr() < T::lit(0.1) {
        return None;
    }
    Some(Moebius::new(a, b, c, d))
}
impl<T: Fx> Tr<T, Complex<T>> for Moebius<Complex<T>> {
    fn choose(ctx: &mut Ctx, _: bool) -> Option<Self> {
        coefs(ctx)
    }
    fn defined(&self, x: &Complex<T>) -> bool {
        (self.c() * *x + self.d()).norm_sqr() > T::lit(0.05)
    }
}
impl<T: Fx> Tr<T, Quaternion<T>> for Moebius<Complex<T>> {
    fn choose(ctx: &mut Ctx, _: bool) -> Option<Self> {
        coefs(ctx)
    }
    fn defined(&self, x: &Quaternion<T>) -> bool {
        (self.c() * *x + self.d()).norm_sqr() > T::lit(0.05)
    }
}

/// Somebody's own transformation of the plane, bending it along one axis: its derivative, and with it
/// the image of directions and normals, depends on the place, and it keeps no angles. It also moves across
/// that axis, so that the derivative at a place and at the image of the place differ.
#[derive(Clone, Copy, Debug)]
struct Bend<T> {
    along: usize,
    k: T,
    by: T,
}
impl<T: Fx> Bend<T> {
    fn slope(&self, pos: Vector<T, 2>) -> T {
        T::lit(2.0) * self.k * pos[1 - self.along]
    }
}
impl<T: Fx> Transform<Vector<T, 2>> for Bend<T> {
    fn identity() -> Self {
        Bend { along: 0, k: T::zero(), by: T::zero() }
    }
    fn inv(self) -> Self {
        unreachable!("bends are not inverted")
    }
    fn apply(&self, mut pos: Vector<T, 2>) -> Vector<T, 2> {
        let h = pos[1 - self.along];
        pos[self.along] += self.k * h * h;
        pos[1 - self.along] += self.by;
        pos
    }
    fn deriv(&self, pos: Vector<T, 2>, mut dir: Vector<T, 2>) -> Vector<T, 2> {
        let d = self.slope(pos) * dir[1 - self.along];
        dir[self.along] += d;
        dir
    }
    fn chain(self, _: Self) -> Self {
        unreachable!("bends are chained by Chain only")
    }
}
impl<T: Fx> Reorder<Bend<T>, Vector<T, 2>> for Bend<T> {
    fn reorder(self, other: Self) -> (Self, Self) {
        (self, other)
    }
}
impl<T: Fx> Directional<Vector<T, 2>> for Bend<T>
where
    Vector<T, 2>: Normalize,
{
    fn apply_dir(&self, pos: Vector<T, 2>, dir: Vector<T, 2>) -> Vector<T, 2> {
        self.deriv(pos, dir).normalize()
    }
    fn apply_normal(&self, pos: Vector<T, 2>, mut normal: Vector<T, 2>) -> Vector<T, 2> {
        let d = self.slope(pos) * normal[self.along];
        normal[1 - self.along] -= d;
        normal.normalize()
    }
}
impl<T: Fx> Tr<T, Vector<T, 2>> for Bend<T>
where
    Vector<T, 2>: Normalize,
{
    fn choose(ctx: &mut Ctx, _: bool) -> Option<Self> {
        Some(Bend { along: ctx.choose(2), k: *ctx.pick(&[T::lit(0.5), T::lit(-1.25), T::zero(), T::one()]), by: *ctx.pick(&[T::lit(0.75), T::zero()]) })
    }
}

fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
fn unit(a: &[f64]) -> Vec<f64> {
    let n = dot(a, a).sqrt();
    a.iter().map(|x| x / n).collect()
}
/// Unit directions: all grid directions, thinner in four dimensions.
fn direction(ctx: &mut Ctx, n: usize) -> Vec<f64> {
    let v: Vec<f64> = if n <= 3 {
        (0..n).map(|_| *ctx.pick(if n == 2 { &[0.0, 1.0, -1.0, 2.0][..] } else { &[0.0, 1.0, -1.0][..] })).collect()
    } else {
        let k = ctx.choose(2 * n + 3);
        (0..n).map(|i| if k < 2 * n { if i == k % n { if k < n { 1.0 } else { -1.0 } } else { 0.0 } } else { [1.0, -2.0, 0.0, 3.0, 1.0, 0.0][(i + k) % 6] }).collect()
    };
    if dot(&v, &v) == 0.0 {
        return v;
    }
    unit(&v)
}
fn directional<T: Fx, P: Sp<T>, A: Tr<T, P>>(ctx: &mut Ctx) {
    let Some(t) = A::choose(ctx, false) else { return };
    let d = direction(ctx, P::DIM);
    if dot(&d, &d) == 0.0 {
        return;
    }
    let places = [[0.25, -1.0, 2.0, 0.5, 4.0, -0.5, 1.0, -2.0, 0.75], [0.0; 9], [-3.0, 1.0, 0.5, -1.0, 0.0, 2.0, -0.25, 3.0, 1.0]];
    let x = ctx.pick(&places[..]).map(T::lit);
    let x = P::of(&x);
    if !t.defined(&x) {
        return;
    }
    ctx.note(|| format!("{:?} at {:?}, direction {:?}", t, x, d));
    let p = |v: &[f64]| P::of(&v.iter().map(|x| T::lit(*x)).collect::<Vec<_>>());
    let tol = 4000.0 * T::EPS.f();
    let len = |v: &[f64]| dot(v, v).sqrt();
    // directions
    let got = t.apply_dir(x, p(&d)).list();
    let want = unit(&t.deriv(x, p(&d)).list());
    let err = got.iter().zip(&want).map(|(a, b)| (a - b).abs()).fold(0.0, f64::max);
    ensure!(ctx, err < tol, "direction {:?} under {:?} at {:?}: got {:?}, expected {:?}", d, t, x, got, want);
    // normals
    let n = t.apply_normal(x, p(&d)).list();
    ensure!(ctx, (len(&n) - 1.0).abs() < tol, "normal {:?} under {:?} at {:?}: {:?} has length {}", d, t, x, n, len(&n));
    for i in 0..P::DIM {
        // a tangent: the i-th basis vector without its part along the normal
        let tangent: Vec<f64> = (0..P::DIM).map(|k| (k == i) as i32 as f64 - d[i] * d[k]).collect();
        let image = t.deriv(x, p(&tangent)).list();
        let cos = dot(&image, &n);
        ensure!(
            ctx,
            cos.abs() < tol * (1.0 + len(&image)),
            "normal {:?} under {:?} at {:?}: got {:?}, not perpendicular to {:?}, the image of the tangent {:?}",
            d, t, x, n, image, tangent
        );
        ctx.ops(1);
    }
    let side = dot(&t.deriv(x, p(&d)).list(), &n);
    ensure!(ctx, side > 0.0, "normal {:?} under {:?} at {:?}: got {:?}, on the other side", d, t, x, n);
    ctx.ops(3);
    let key: Vec<u64> = n.iter().chain(&got).map(|x| x.to_bits()).collect();
    ctx.state(&(format!("{:?}{:?}", t, x), key));
}
/// The matrix for normals, exactly: pairing with images of vectors is preserved.
fn normal_matrix<T, const N: usize>(ctx: &mut Ctx)
where
    T: Num + Neg<Output = T> + Copy + Debug + 'static + Grid,
{
    let g = T::grid();
    let l: Vec<T> = (0..N * N).map(|_| *ctx.pick(&g)).collect();
    normal::<T, N>(ctx, &l);
}
/// Larger dimensions: a triangular or dense matrix with one entry of any value.
fn normal_larger<T, const N: usize>(ctx: &mut Ctx)
where
    T: Num + Neg<Output = T> + Copy + Debug + 'static + Grid,
{
    let g = T::grid();
    let kind = ctx.choose(3);
    let mut l: Vec<T> = (0..N * N)
        .map(|k| {
            let (i, j) = (k / N, k % N);
            match kind {
                0 => if i == j { T::one() } else { T::zero() },
                1 => if j <= i { T::one() } else { T::zero() },
                _ => g[(i * i + 2 * j + i * j + 1) % g.len()],
            }
        })
        .collect();
    if kind == 2 {
        (0..N).for_each(|i| l[i * N + i] = l[i * N + i] + T::one());
    }
    let k = ctx.choose(N * N);
    l[k] = *ctx.pick(&g);
    normal::<T, N>(ctx, &l);
}
fn normal<T, const N: usize>(ctx: &mut Ctx, l: &[T])
where
    T: Num + Neg<Output = T> + Copy + Debug + 'static + Grid,
{
    let m: Matrix<T, N, N> = Matrix::from_array_of_arrays(std::array::from_fn(|i| std::array::from_fn(|j| l[i * N + j])));
    if m.det().is_zero() {
        return;
    }
    let t = Linear::from(m);
    let n = t.normal_transform().into_matrix();
    for i in 0..N {
        for j in 0..N {
            // (n e_i) . (m e_j)
            let s = (0..N).fold(T::zero(), |s, k| s + n[(k, i)] * m[(k, j)]);
            let want = if i == j { T::one() } else { T::zero() };
            same!(ctx, s, want, "normal matrix {:?} of {:?}: pairing of basis vectors {} and {}", n, m, i, j);
            ctx.ops(1);
        }
    }
    ctx.state(&format!("{:?}", l));
}
trait Grid: Sized {
    fn grid() -> Vec<Self>;
}
impl Grid for F2 {
    fn grid() -> Vec<Self> {
        F2::all()
    }
}
impl Grid for F3 {
    fn grid() -> Vec<Self> {
        F3::all()
    }
}
impl Grid for F5 {
    fn grid() -> Vec<Self> {
        F5::all()
    }
}

fn build(r: &mut Reg) {
    macro_rules! tr { ($($t:ty, $p:ty : $a:ty;)*) => { $(
        r.add(format!("{}/{}", stringify!($a), stringify!($p)).replace(' ', ""), directional::<$t, $p, $a>);
    )* } }
    type V<T, const N: usize> = Vector<T, N>;
    macro_rules! both { ($($t:ty),*) => { $( tr! {
        $t, V<$t, 1>: Shift<$t, 1>; $t, V<$t, 2>: Shift<$t, 2>; $t, V<$t, 3>: Shift<$t, 3>; $t, V<$t, 4>: Shift<$t, 4>;
        $t, V<$t, 1>: Scale<$t>; $t, V<$t, 2>: Scale<$t>; $t, V<$t, 3>: Scale<$t>; $t, V<$t, 4>: Scale<$t>;
        $t, V<$t, 1>: Linear<$t, 1>; $t, V<$t, 2>: Linear<$t, 2>; $t, V<$t, 3>: Linear<$t, 3>;
        $t, V<$t, 2>: Rotation2<$t>; $t, V<$t, 3>: Rotation3<$t>;
        $t, V<$t, 1>: Affine<$t, 1>; $t, V<$t, 2>: Affine<$t, 2>; $t, V<$t, 3>: Affine<$t, 3>;
        $t, V<$t, 2>: Chain<Linear<$t, 2>, Shift<$t, 2>, V<$t, 2>>; $t, V<$t, 3>: Chain<Linear<$t, 3>, Shift<$t, 3>, V<$t, 3>>;
        $t, V<$t, 2>: Chain<Shift<$t, 2>, Scale<$t>, V<$t, 2>>; $t, V<$t, 3>: Chain<Scale<$t>, Shift<$t, 3>, V<$t, 3>>;
        $t, V<$t, 2>: Chain<Shift<$t, 2>, Rotation2<$t>, V<$t, 2>>; $t, V<$t, 2>: Chain<Rotation2<$t>, Shift<$t, 2>, V<$t, 2>>;
        $t, V<$t, 3>: Chain<Shift<$t, 3>, Rotation3<$t>, V<$t, 3>>; $t, V<$t, 3>: Chain<Rotation3<$t>, Shift<$t, 3>, V<$t, 3>>;
        $t, V<$t, 5>: Linear<$t, 5>; $t, V<$t, 5>: Scale<$t>; $t, V<$t, 6>: Shift<$t, 6>; $t, V<$t, 5>: Affine<$t, 5>;
        $t, V<$t, 2>: Bend<$t>; $t, V<$t, 2>: Chain<Bend<$t>, Bend<$t>, V<$t, 2>>;
        $t, Complex<$t>: Moebius<Complex<$t>>; $t, Quaternion<$t>: Moebius<Complex<$t>>;
    } )* } }
    both!(f64, f32);
    tr! { f64, V<f64, 4>: Linear<f64, 4>; f64, V<f64, 6>: Linear<f64, 6>; f64, V<f64, 7>: Linear<f64, 7>; f64, V<f64, 7>: Scale<f64>; f64, V<f64, 9>: Shift<f64, 9>; }
    each_n!(r, "normal-matrix", normal_matrix<F5>, [1, 2]);
    each_n!(r, "normal-matrix", normal_matrix<F3>, [1, 2, 3]);
    each_n!(r, "normal-matrix", normal_matrix<F2>, [2, 3, 4]);
    each_n!(r, "normal-matrix, larger", normal_larger<F3>, [4, 5, 6, 7]);
    each_n!(r, "normal-matrix, larger", normal_larger<F5>, [4, 5]);
}

fn main() {
    mc::main(Check {
        prop: "C13",
        level: "model_checking",
        rule: "every execution = one invertible transformation (all matrices over a small integer grid), unit direction and \
               point; the transformed normal is tested against the images of a complete set of tangents; a state is a \
               distinct transformation, point, image direction and image normal, a transition one compared result",
        assumptions: &["tolerance 4000 epsilons; the exact part (normal matrices) runs over finite fields"],
        build,
    });
}
