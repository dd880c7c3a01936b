//! C12: directional derivatives are the true derivatives of the transformations.
use mc::scalars::{Dual, F2, F3, F5, F7};
use mc::*;
use num_traits::{Inv, Num, NumCast, One, Zero};
use std::fmt::Debug;
use std::marker::PhantomData;
use std::ops::Neg;
use vecmat::transform::{Affine, Chain, Linear, Moebius, Reorder, Rotation2, Rotation3, Scale, Shift};
use vecmat::{Complex, Matrix, Quaternion, Transform, Vector};

trait S: Num + NumCast + Neg<Output = Self> + Inv<Output = Self> + Copy + Debug + 'static {
    fn grid() -> Vec<Self>;
    fn units() -> Vec<Self>;
    /// Equal, or equal up to rounding.
    fn same(self, o: Self) -> bool;
}
macro_rules! finite { ($($t:ident)*) => { $( impl S for $t {
    fn grid() -> Vec<Self> { $t::all() }
    fn units() -> Vec<Self> { $t::all().into_iter().filter(|x| x.0 != 0).collect() }
    fn same(self, o: Self) -> bool { self == o }
} )* } }
finite!(F2 F3 F5 F7);
macro_rules! float { ($($t:ident)*) => { $( impl S for $t {
    fn grid() -> Vec<Self> { vec![0.0, 1.0, -2.0, 0.5] }
    fn units() -> Vec<Self> { vec![1.0, -2.0, 0.5] }
    fn same(self, o: Self) -> bool { mc::floats::close(self, o, 4096.0) }
} )* } }
float!(f64 f32);

type D<T> = Dual<T>;
fn c<T: S>(x: T) -> D<T> {
    Dual(x, T::zero())
}
fn tuples<T: Copy>(ctx: &mut Ctx, g: &[T], n: usize) -> Vec<T> {
    (0..n).map(|_| *ctx.pick(g)).collect()
}
/// Space of points.
trait Sp<T: S, U>: Sized + Copy + Debug {
    const DIM: usize;
    type Lift: Copy;
    fn of(l: &[T]) -> Self;
    fn list(&self) -> Vec<T>;
    fn lift(x: &[T], v: &[T]) -> Self::Lift;
    fn lifted(x: Self::Lift) -> Vec<D<T>>;
}
impl<T: S, const N: usize> Sp<T, ()> for Vector<T, N> {
    const DIM: usize = N;
    type Lift = Vector<D<T>, N>;
    fn of(l: &[T]) -> Self {
        Vector::from_array(std::array::from_fn(|i| l[i]))
    }
    fn list(&self) -> Vec<T> {
        self.into_array().to_vec()
    }
    fn lift(x: &[T], v: &[T]) -> Self::Lift {
        Vector::from_array(std::array::from_fn(|i| Dual(x[i], v[i])))
    }
    fn lifted(x: Self::Lift) -> Vec<D<T>> {
        x.into_array().to_vec()
    }
}
impl<T: S> Sp<T, ()> for Complex<T> {
    const DIM: usize = 2;
    type Lift = Complex<D<T>>;
    fn of(l: &[T]) -> Self {
        Complex::new(l[0], l[1])
    }
    fn list(&self) -> Vec<T> {
        self.into_array().to_vec()
    }
    fn lift(x: &[T], v: &[T]) -> Self::Lift {
        Complex::from_array(std::array::from_fn(|i| Dual(x[i], v[i])))
    }
    fn lifted(x: Self::Lift) -> Vec<D<T>> {
        x.into_array().to_vec()
    }
}
impl<T: S> Sp<T, ()> for Quaternion<T> {
    const DIM: usize = 4;
    type Lift = Quaternion<D<T>>;
    fn of(l: &[T]) -> Self {
        Quaternion::from_array([l[0], l[1], l[2], l[3]])
    }
    fn list(&self) -> Vec<T> {
        self.into_array().to_vec()
    }
    fn lift(x: &[T], v: &[T]) -> Self::Lift {
        Quaternion::from_array(std::array::from_fn(|i| Dual(x[i], v[i])))
    }
    fn lifted(x: Self::Lift) -> Vec<D<T>> {
        x.into_array().to_vec()
    }
}
/// A transformation that can be chosen from all of its kind and lifted to dual numbers.
trait Tr<T: S, P: Sp<T, ()>>: Transform<P> + Copy + Debug {
    type Lift: Transform<P::Lift>;
    fn choose(ctx: &mut Ctx) -> Self;
    fn lift(&self) -> Self::Lift;
    /// Whether the map is defined at the point.
    fn defined(&self, _x: &P) -> bool {
        true
    }
    /// Whether `f(y) - f(x)` is the derivative along `y - x`.
    const AFFINE: bool = true;
}
impl<T: S, const N: usize> Tr<T, Vector<T, N>> for Shift<T, N> {
    type Lift = Shift<D<T>, N>;
    fn choose(ctx: &mut Ctx) -> Self {
        let g = T::grid();
        Vector::of(&tuples(ctx, &g, N)).into()
    }
    fn lift(&self) -> Self::Lift {
        Vector::from_array(self.into_vector().into_array().map(c)).into()
    }
}
impl<T: S, const N: usize> Tr<T, Vector<T, N>> for Scale<T> {
    type Lift = Scale<D<T>>;
    fn choose(ctx: &mut Ctx) -> Self {
        (*ctx.pick(&T::units())).into()
    }
    fn lift(&self) -> Self::Lift {
        c(self.into_mag()).into()
    }
}
impl<T: S, const N: usize> Tr<T, Vector<T, N>> for Linear<T, N> {
    type Lift = Linear<D<T>, N>;
    fn choose(ctx: &mut Ctx) -> Self {
        let mut g = T::grid();
        if N > 3 {
            // one entry at a time (derivatives are linear in the entries), and a dense matrix
            let k = ctx.choose(N * N + 1);
            let f = |i: usize, j: usize| {
                if k == N * N { g[(i * i + 2 * j + 1) % g.len()] } else if k == i * N + j { g[g.len() - 1] } else { T::zero() }
            };
            return Matrix::from_array_of_arrays(std::array::from_fn(|i| std::array::from_fn(|j| f(i, j)))).into();
        }
        if N > 2 {
            g.truncate(2);
        }
        let l = tuples(ctx, &g, N * N);
        Matrix::from_array_of_arrays(std::array::from_fn(|i| std::array::from_fn(|j| l[i * N + j]))).into()
    }
    fn lift(&self) -> Self::Lift {
        Matrix::from_array_of_arrays(self.into_matrix().into_array_of_arrays().map(|r| r.map(c))).into()
    }
}
impl<T: S> Tr<T, Vector<T, 2>> for Rotation2<T> {
    type Lift = Rotation2<D<T>>;
    fn choose(ctx: &mut Ctx) -> Self {
        let g = T::grid();
        let u: Vec<(T, T)> = g.iter().flat_map(|a| g.iter().map(|b| (*a, *b))).filter(|(a, b)| *a * *a + *b * *b == T::one()).collect();
        let (a, b) = *ctx.pick(&u);
        Complex::new(a, b).into()
    }
    fn lift(&self) -> Self::Lift {
        Complex::from_array(self.into_complex().into_array().map(c)).into()
    }
}
impl<T: S> Tr<T, Vector<T, 3>> for Rotation3<T> {
    type Lift = Rotation3<D<T>>;
    fn choose(ctx: &mut Ctx) -> Self {
        let g = T::grid();
        let u: Vec<[T; 4]> = (0..g.len().pow(4))
            .map(|i| { let d = scalars::digits(i, g.len(), 4); std::array::from_fn(|k| g[d[k]]) })
            .filter(|q: &[T; 4]| q.iter().fold(T::zero(), |s, x| s + *x * *x) == T::one())
            .collect();
        Quaternion::from_array(*ctx.pick(&u)).into()
    }
    fn lift(&self) -> Self::Lift {
        Quaternion::from_array(self.into_quaternion().into_array().map(c)).into()
    }
}
impl<T: S, P: Sp<T, ()>, A: Tr<T, P>, B: Tr<T, P>> Tr<T, P> for Chain<A, B, P>
where
    Chain<A, B, P>: Transform<P>,
    Chain<A::Lift, B::Lift, P::Lift>: Transform<P::Lift>,
{
    type Lift = Chain<A::Lift, B::Lift, P::Lift>;
    fn choose(ctx: &mut Ctx) -> Self {
        let a = A::choose(ctx);
        Chain::new(a, B::choose(ctx))
    }
    fn lift(&self) -> Self::Lift {
        Chain::new(self.outer().lift(), self.inner().lift())
    }
    const AFFINE: bool = A::AFFINE && B::AFFINE;
}
/// A user's own transformations: taking powers (bijective, not linear) and multiplying by a nonzero number.
#[derive(Clone, Copy, Debug)]
struct Pow<T>(u32, PhantomData<T>);
#[derive(Clone, Copy, Debug)]
struct Mul<T>(T);
fn pow<T: Num + Copy>(x: T, e: u32) -> T {
    (0..e).fold(T::one(), |p, _| p * x)
}
fn times<T: Num + Copy>(x: T, e: u32) -> T {
    (0..e).fold(T::zero(), |p, _| p + x)
}
impl<T: Num + Copy> Transform<Vector<T, 1>> for Pow<T> {
    fn identity() -> Self {
        Pow(1, PhantomData)
    }
    fn inv(self) -> Self {
        self // the exponents below are their own inverses as maps of the field
    }
    fn apply(&self, x: Vector<T, 1>) -> Vector<T, 1> {
        x.map(|x| pow(x, self.0))
    }
    fn deriv(&self, x: Vector<T, 1>, d: Vector<T, 1>) -> Vector<T, 1> {
        Vector::from_array([times(pow(x[0], self.0 - 1) * d[0], self.0)])
    }
    fn chain(self, o: Self) -> Self {
        Pow(self.0 * o.0, PhantomData)
    }
}
impl<T: Num + Copy> Transform<Vector<T, 1>> for Mul<T> {
    fn identity() -> Self {
        Mul(T::one())
    }
    fn inv(self) -> Self {
        Mul(T::one() / self.0)
    }
    fn apply(&self, x: Vector<T, 1>) -> Vector<T, 1> {
        x.map(|x| self.0 * x)
    }
    fn deriv(&self, _: Vector<T, 1>, d: Vector<T, 1>) -> Vector<T, 1> {
        d.map(|d| self.0 * d)
    }
    fn chain(self, o: Self) -> Self {
        Mul(self.0 * o.0)
    }
}
impl<T: Num + Copy> Reorder<Mul<T>, Vector<T, 1>> for Pow<T> {
    fn reorder(self, m: Mul<T>) -> (Mul<T>, Self) {
        (Mul(pow(m.0, self.0)), self)
    }
}
impl<T: Num + Copy> Reorder<Pow<T>, Vector<T, 1>> for Mul<T> {
    fn reorder(self, p: Pow<T>) -> (Pow<T>, Self) {
        (p, Mul(pow(self.0, p.0)))
    }
}
impl<T: S> Tr<T, Vector<T, 1>> for Pow<T> {
    type Lift = Pow<D<T>>;
    fn choose(ctx: &mut Ctx) -> Self {
        let e = if T::grid().len() == 5 { [1, 3] } else { [1, 5] };
        Pow(*ctx.pick(&e), PhantomData)
    }
    fn lift(&self) -> Self::Lift {
        Pow(self.0, PhantomData)
    }
    const AFFINE: bool = false;
}
impl<T: S> Tr<T, Vector<T, 1>> for Mul<T> {
    type Lift = Mul<D<T>>;
    fn choose(ctx: &mut Ctx) -> Self {
        Mul(*ctx.pick(&T::units()))
    }
    fn lift(&self) -> Self::Lift {
        Mul(c(self.0))
    }
}
fn coefs<T: S>(ctx: &mut Ctx, wide: bool) -> [Complex<T>; 4] {
    let (o, z) = (T::one(), T::zero());
    let g: Vec<Complex<T>> = if wide {
        let g = T::grid();
        g.iter().flat_map(|a| g.iter().map(|b| Complex::new(*a, *b))).collect()
    } else {
        vec![Complex::new(z, z), Complex::new(o, z), Complex::new(z, o), Complex::new(-o, o + o)]
    };
    std::array::from_fn(|_| *ctx.pick(&g))
}
fn lift_moebius<T: S>(m: &Moebius<Complex<T>>) -> Moebius<Complex<D<T>>> {
    let l = |z: Complex<T>| Complex::from_array(z.into_array().map(c));
    Moebius::new(l(m.a()), l(m.b()), l(m.c()), l(m.d()))
}
impl<T: S> Tr<T, Complex<T>> for Moebius<Complex<T>> {
    type Lift = Moebius<Complex<D<T>>>;
    fn choose(ctx: &mut Ctx) -> Self {
        let wide = T::grid().len() <= 3 || ctx.thorough();
        let [a, b, e, d] = coefs(ctx, wide);
        Moebius::new(a, b, e, d)
    }
    fn lift(&self) -> Self::Lift {
        lift_moebius(self)
    }
    fn defined(&self, x: &Complex<T>) -> bool {
        !(self.c() * *x + self.d()).norm_sqr().is_zero()
    }
    const AFFINE: bool = false;
}
impl<T: S> Tr<T, Quaternion<T>> for Moebius<Complex<T>> {
    type Lift = Moebius<Complex<D<T>>>;
    fn choose(ctx: &mut Ctx) -> Self {
        let [a, b, e, d] = coefs(ctx, false);
        Moebius::new(a, b, e, d)
    }
    fn lift(&self) -> Self::Lift {
        lift_moebius(self)
    }
    fn defined(&self, x: &Quaternion<T>) -> bool {
        !(self.c() * *x + self.d()).norm_sqr().is_zero()
    }
    const AFFINE: bool = false;
}

fn derivative<T: S, P: Sp<T, ()>, A: Tr<T, P>>(ctx: &mut Ctx) {
    let t = A::choose(ctx);
    let mut g = T::grid();
    if P::DIM > 2 {
        g.truncate(3);
    }
    let x = tuples(ctx, &g, P::DIM);
    // every basis direction, both signs and sums of neighbours
    let k = ctx.choose(P::DIM * 3);
    let v: Vec<T> = (0..P::DIM)
        .map(|i| match k / P::DIM {
            0 if i == k % P::DIM => T::one(),
            1 if i == k % P::DIM => -T::one() - T::one(),
            2 => if i == k % P::DIM { T::one() } else if (i + 1) % P::DIM == k % P::DIM { -T::one() } else { T::one() + T::one() },
            _ => T::zero(),
        })
        .collect();
    let (p, d) = (P::of(&x), P::of(&v));
    if !t.defined(&p) {
        return;
    }
    ctx.note(|| format!("{:?} at {:?} along {:?}", t, x, v));
    let got = t.deriv(p, d).list();
    let image = P::lifted(t.lift().apply(P::lift(&x, &v)));
    let want: Vec<T> = image.iter().map(|y| y.1).collect();
    ensure!(ctx, got.iter().zip(&want).all(|(a, b)| a.same(*b)), "derivative of {:?} at {:?} along {:?}: got {:?}, expected {:?}", t, x, v, got, want);
    let here = t.apply(p).list();
    ensure!(ctx, here.iter().zip(&image).all(|(a, b)| a.same(b.0)), "image of {:?} under {:?}: {:?} and {:?}", x, t, here, image);
    if A::AFFINE {
        let y: Vec<T> = x.iter().zip(&v).map(|(a, b)| *a + *b).collect();
        let there = t.apply(P::of(&y)).list();
        let ok = (0..P::DIM).all(|i| got[i].same(there[i] - here[i]));
        ensure!(ctx, ok, "derivative of {:?} along {:?}: got {:?}, difference of images {:?} and {:?}", t, v, got, there, here);
    }
    // linear in the direction
    let w: Vec<T> = (0..P::DIM).map(|i| if i == (k + 1) % P::DIM { T::one() } else { T::zero() }).collect();
    let s: Vec<T> = v.iter().zip(&w).map(|(a, b)| *a * (T::one() + T::one()) + *b).collect();
    let (dw, ds) = (t.deriv(p, P::of(&w)).list(), t.deriv(p, P::of(&s)).list());
    let ok = (0..P::DIM).all(|i| ds[i].same(got[i] * (T::one() + T::one()) + dw[i]));
    ensure!(ctx, ok, "derivative of {:?} at {:?} is not linear: {:?}, {:?}, {:?}", t, x, got, dw, ds);
    ctx.ops(4);
    ctx.state(&format!("{:?}{:?}{:?}", t, x, got));
}
/// The complex derivative as a number, and both maps of one composition.
fn complex_number<T: S>(ctx: &mut Ctx) {
    let m = <Moebius<Complex<T>> as Tr<T, Complex<T>>>::choose(ctx);
    let g = T::grid();
    let x = Complex::new(*ctx.pick(&g), *ctx.pick(&g));
    let den = m.c() * x + m.d();
    if den.norm_sqr().is_zero() {
        return;
    }
    let want = (m.a() * m.d() - m.b() * m.c()) / (den * den);
    let got = m.deriv(x);
    let ok = got.re().same(want.re()) && got.im().same(want.im());
    ensure!(ctx, ok, "derivative of {:?} at {:?}: got {:?}, expected {:?}", m, x, got, want);
    ctx.ops(1);
    ctx.state(&format!("{:?}{:?}", m, x));
}
/// The chain rule for compositions within one type: inner point, then outer derivative.
fn chain_rule<T: S, P: Sp<T, ()>, A: Tr<T, P>>(ctx: &mut Ctx) {
    let (a, b) = (A::choose(ctx), A::choose(ctx));
    let mut g = T::grid();
    if P::DIM > 2 {
        g.truncate(2);
    }
    let x = P::of(&tuples(ctx, &g, P::DIM));
    let k = ctx.choose(P::DIM);
    let v = P::of(&(0..P::DIM).map(|i| if i == k { T::one() } else { T::zero() }).collect::<Vec<_>>());
    if !b.defined(&x) {
        return;
    }
    let y = b.apply(x);
    if !a.defined(&y) {
        return;
    }
    let want = a.deriv(y, b.deriv(x, v)).list();
    let got = a.chain(b).deriv(x, v).list();
    let ok = got.iter().zip(&want).all(|(a, b)| a.same(*b));
    ensure!(ctx, ok, "derivative of {:?} after {:?} at {:?} along {:?}: got {:?}, expected {:?}", a, b, x, v, got, want);
    ctx.ops(1);
    ctx.state(&format!("{:?}{:?}{:?}", a, b, x));
}
/// Moebius maps of floating-point quaternions against difference quotients.
fn quotients(ctx: &mut Ctx) {
    let [a, b, e, d] = coefs::<f64>(ctx, false);
    let m = Moebius::new(a, b, e, d);
    let g = [0.0, 1.0, -0.5];
    let x = Quaternion::from_array([*ctx.pick(&g), *ctx.pick(&g), 2.0, *ctx.pick(&g)]);
    let k = ctx.choose(4);
    let v = Quaternion::from_array(std::array::from_fn(|i| (i == k) as i32 as f64));
    let den = (m.c() * x + m.d()).norm_sqr();
    if den < 0.5 {
        return;
    }
    let h = 1e-5;
    let (p, n) = (m.apply(x + v * h), m.apply(x - v * h));
    let want = ((p - n) / (2.0 * h)).into_array();
    let got = Transform::deriv(&m, x, v).into_array();
    let ok = (0..4).all(|i| (got[i] - want[i]).abs() < 1e-6 * (1.0 + want[i].abs()));
    ensure!(ctx, ok, "derivative of {:?} at {:?} along {:?}: got {:?}, quotient {:?}", m, x, v, got, want);
    let inherent = m.deriv_dir(x, v).into_array();
    ensure!(ctx, (0..4).all(|i| (inherent[i] - got[i]).abs() < 1e-9), "deriv_dir and deriv of {:?} differ", m);
    ctx.ops(2);
    ctx.state(&(format!("{:?}{:?}{}", m, x, k)));
}

fn build(r: &mut Reg) {
    macro_rules! tr { ($($t:ty, $p:ty : $a:ty;)*) => { $(
        r.add(format!("derivative/{}/{}", stringify!($a), stringify!($p)).replace(' ', ""), derivative::<$t, $p, $a>);
    )* } }
    macro_rules! cr { ($($t:ty, $p:ty : $a:ty;)*) => { $(
        r.add(format!("chain-rule/{}/{}", stringify!($a), stringify!($p)).replace(' ', ""), chain_rule::<$t, $p, $a>);
    )* } }
    type V<T, const N: usize> = Vector<T, N>;
    tr! {
        F7, V<F7, 1>: Shift<F7, 1>; F3, V<F3, 2>: Shift<F3, 2>; F3, V<F3, 3>: Shift<F3, 3>; f64, V<f64, 2>: Shift<f64, 2>;
        F7, V<F7, 1>: Scale<F7>; F5, V<F5, 2>: Scale<F5>; F5, V<F5, 3>: Scale<F5>; F3, V<F3, 4>: Scale<F3>; f32, V<f32, 3>: Scale<f32>;
        F7, V<F7, 1>: Linear<F7, 1>; F3, V<F3, 2>: Linear<F3, 2>; F5, V<F5, 2>: Linear<F5, 2>; F3, V<F3, 3>: Linear<F3, 3>; f64, V<f64, 2>: Linear<f64, 2>;
        F3, V<F3, 2>: Rotation2<F3>; F7, V<F7, 2>: Rotation2<F7>; f64, V<f64, 2>: Rotation2<f64>;
        F3, V<F3, 3>: Rotation3<F3>; F5, V<F5, 3>: Rotation3<F5>; f64, V<f64, 3>: Rotation3<f64>;
        F3, V<F3, 2>: Affine<F3, 2>; F5, V<F5, 1>: Affine<F5, 1>; F2, V<F2, 3>: Affine<F2, 3>;
        F3, V<F3, 2>: Chain<Linear<F3, 2>, Shift<F3, 2>, V<F3, 2>>;
        F5, V<F5, 2>: Chain<Shift<F5, 2>, Scale<F5>, V<F5, 2>>; F5, V<F5, 2>: Chain<Scale<F5>, Shift<F5, 2>, V<F5, 2>>;
        F7, V<F7, 2>: Chain<Shift<F7, 2>, Rotation2<F7>, V<F7, 2>>; F7, V<F7, 2>: Chain<Rotation2<F7>, Shift<F7, 2>, V<F7, 2>>;
        F3, V<F3, 3>: Chain<Shift<F3, 3>, Rotation3<F3>, V<F3, 3>>; F3, V<F3, 3>: Chain<Rotation3<F3>, Shift<F3, 3>, V<F3, 3>>;
        F3, V<F3, 4>: Linear<F3, 4>; F2, V<F2, 5>: Linear<F2, 5>; F2, V<F2, 6>: Linear<F2, 6>; F2, V<F2, 7>: Linear<F2, 7>; F2, V<F2, 9>: Shift<F2, 9>; F2, V<F2, 4>: Affine<F2, 4>;
        F2, V<F2, 5>: Shift<F2, 5>; F3, V<F3, 5>: Scale<F3>;
        F7, V<F7, 1>: Pow<F7>; F5, V<F5, 1>: Mul<F5>;
        F5, V<F5, 1>: Chain<Pow<F5>, Mul<F5>, V<F5, 1>>; F5, V<F5, 1>: Chain<Mul<F5>, Pow<F5>, V<F5, 1>>;
        F7, V<F7, 1>: Chain<Pow<F7>, Mul<F7>, V<F7, 1>>; F7, V<F7, 1>: Chain<Mul<F7>, Pow<F7>, V<F7, 1>>;
        F3, Complex<F3>: Moebius<Complex<F3>>; F7, Complex<F7>: Moebius<Complex<F7>>;
        f64, Complex<f64>: Moebius<Complex<f64>>; f32, Complex<f32>: Moebius<Complex<f32>>;
        F3, Quaternion<F3>: Moebius<Complex<F3>>; F5, Quaternion<F5>: Moebius<Complex<F5>>; F7, Quaternion<F7>: Moebius<Complex<F7>>;
        f64, Quaternion<f64>: Moebius<Complex<f64>>; f32, Quaternion<f32>: Moebius<Complex<f32>>;
    }
    cr! {
        F3, V<F3, 2>: Shift<F3, 2>; F5, V<F5, 2>: Scale<F5>; F2, V<F2, 2>: Linear<F2, 2>; F3, V<F3, 2>: Linear<F3, 2>;
        F7, V<F7, 2>: Rotation2<F7>; F3, V<F3, 3>: Rotation3<F3>; F2, V<F2, 2>: Affine<F2, 2>;
        F5, V<F5, 1>: Chain<Scale<F5>, Shift<F5, 1>, V<F5, 1>>;
        F5, V<F5, 1>: Chain<Pow<F5>, Mul<F5>, V<F5, 1>>; F7, V<F7, 1>: Chain<Mul<F7>, Pow<F7>, V<F7, 1>>;
        F7, Complex<F7>: Moebius<Complex<F7>>; F3, Quaternion<F3>: Moebius<Complex<F3>>;
    }
    macro_rules! all { ($f:ident; $($t:ty),*) => { $( r.add(format!("{}<{}>", stringify!($f), stringify!($t)), $f::<$t>); )* } }
    all!(complex_number; F3, F7, f64, f32);
    r.add("quotients", quotients);
}

fn main() {
    mc::main(Check {
        prop: "C12",
        level: "model_checking",
        rule: "every execution = one transformation, point and direction over a finite field or a small float grid; the \
               reported derivative is compared with the infinitesimal part of applying the same transformation, lifted to \
               dual numbers, to the displaced point; a state is a distinct transformation, point and derivative, a \
               transition one compared derivative",
        assumptions: &[
            "evaluation over dual numbers gives the exact derivative of a rational map",
            "the linear maps of dimension 3 have entries 0 and 1; Moebius coefficients run over 0, 1, i and -1+2i except over the three-element field",
        ],
        build,
    });
}
