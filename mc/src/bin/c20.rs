//! C20: approximate equality holds exactly when every component is within epsilon.
use approx::AbsDiffEq;
use mc::floats::Fl;
use mc::*;
use num_traits::{Num, NumCast, One, ToPrimitive, Zero};
use std::fmt::Debug;
use std::ops::{Add, Div, Mul, Neg, Rem, Sub};
use vecmat::complex::Moebius;
use vecmat::transform::{Chain, Linear, Rotation2, Rotation3, Scale, Shift};
use vecmat::{Complex, Matrix, Quaternion, Transform, Vector};

/// A type with components in a fixed order.
trait X<T: Copy>: AbsDiffEq<Epsilon = T> + Sized {
    const LEN: usize;
    fn of(l: &[T]) -> Self;
}
trait E: AbsDiffEq<Epsilon = Self> + Num + NumCast + Neg<Output = Self> + PartialOrd + Copy + Debug + 'static {
    /// Values for exhaustive pairs, an epsilon list, and hashing.
    fn values() -> Vec<Self>;
    fn epsilons() -> Vec<Self>;
    fn key(self) -> u64;
}
impl<T: E, const N: usize> X<T> for Vector<T, N> {
    const LEN: usize = N;
    fn of(l: &[T]) -> Self {
        Vector::from_array(std::array::from_fn(|i| l[i]))
    }
}
impl<T: E, const M: usize, const N: usize> X<T> for Matrix<T, M, N> {
    const LEN: usize = M * N;
    fn of(l: &[T]) -> Self {
        Matrix::from_array_of_arrays(std::array::from_fn(|i| std::array::from_fn(|j| l[i * N + j])))
    }
}
impl<T: E> X<T> for Complex<T> {
    const LEN: usize = 2;
    fn of(l: &[T]) -> Self {
        Complex::new(l[0], l[1])
    }
}
impl<T: E> X<T> for Quaternion<T> {
    const LEN: usize = 4;
    fn of(l: &[T]) -> Self {
        Quaternion::new(l[0], l[1], l[2], l[3])
    }
}
impl<T: E> X<T> for Moebius<T> {
    const LEN: usize = 4;
    fn of(l: &[T]) -> Self {
        Moebius::new(l[0], l[1], l[2], l[3])
    }
}
impl<T: E, const N: usize> X<T> for Shift<T, N> {
    const LEN: usize = N;
    fn of(l: &[T]) -> Self {
        Shift::from(<Vector<T, N> as X<T>>::of(l))
    }
}
impl<T: E> X<T> for Scale<T> {
    const LEN: usize = 1;
    fn of(l: &[T]) -> Self {
        Scale::from_mag(l[0])
    }
}
impl<T: E, const N: usize> X<T> for Linear<T, N> {
    const LEN: usize = N * N;
    fn of(l: &[T]) -> Self {
        Linear::from_matrix(<Matrix<T, N, N> as X<T>>::of(l))
    }
}
impl<T: E> X<T> for Rotation2<T> {
    const LEN: usize = 2;
    fn of(l: &[T]) -> Self {
        Rotation2::from_complex(<Complex<T> as X<T>>::of(l))
    }
}
impl<T: E> X<T> for Rotation3<T> {
    const LEN: usize = 4;
    fn of(l: &[T]) -> Self {
        Rotation3::from_quaternion(<Quaternion<T> as X<T>>::of(l))
    }
}
/// A transformation of numbers, so that chains can be compared.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Number<T>(T);
impl<T: E> Transform<T> for Number<T> {
    fn identity() -> Self {
        unreachable!()
    }
    fn inv(self) -> Self {
        self
    }
    fn apply(&self, pos: T) -> T {
        pos
    }
    fn deriv(&self, _: T, dir: T) -> T {
        dir
    }
    fn chain(self, _: Self) -> Self {
        self
    }
}
impl<T: E> AbsDiffEq for Number<T> {
    type Epsilon = T;
    fn default_epsilon() -> T {
        T::default_epsilon()
    }
    fn abs_diff_eq(&self, o: &Self, e: T) -> bool {
        self.0.abs_diff_eq(&o.0, e)
    }
}
impl<T: E> X<T> for Chain<Number<T>, Number<T>, T> {
    const LEN: usize = 2;
    fn of(l: &[T]) -> Self {
        Chain::new(Number(l[0]), Number(l[1]))
    }
}

fn floats<T: Fl>() -> (Vec<T>, Vec<T>) {
    let l = T::lit;
    let (e, h) = (T::EPS, l(0.5));
    let values = vec![l(1.0), l(1.0) + e, l(1.0) - e, l(1.0) + e + e, l(1.5), l(1.5).up(), l(1.5).down(), l(0.5), l(-1.0), l(0.0), l(-0.0), e, -e, e.up(), l(1e30), T::nan(), T::infinity(), T::neg_infinity()];
    (values, vec![e, h, h.up(), l(0.0), l(2.0), l(1e-3), T::infinity(), l(-1.0), T::nan()])
}
impl E for f64 {
    fn values() -> Vec<f64> {
        floats().0
    }
    fn epsilons() -> Vec<f64> {
        floats().1
    }
    fn key(self) -> u64 {
        self.to_bits()
    }
}
impl E for f32 {
    fn values() -> Vec<f32> {
        floats().0
    }
    fn epsilons() -> Vec<f32> {
        floats().1
    }
    fn key(self) -> u64 {
        self.to_bits() as u64
    }
}
impl E for i32 {
    fn values() -> Vec<i32> {
        vec![0, 1, 2, 5, -1]
    }
    fn epsilons() -> Vec<i32> {
        vec![0, 1, 3]
    }
    fn key(self) -> u64 {
        self as u64
    }
}
/// Elements with an arbitrary, though reflexive and symmetric, notion of approximate equality.
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
struct Odd(u8);
// Arithmetic (modulo 5) is there only so that comparisons which use it still accept these elements.
macro_rules! arithmetic { ($($tr:ident $f:ident $e:expr;)*) => { $( impl $tr for Odd {
    type Output = Odd;
    fn $f(self, o: Odd) -> Odd { let f: fn(u8, u8) -> u8 = $e; Odd(f(self.0, o.0) % 5) }
} )* } }
arithmetic! { Add add |a, b| a + b; Sub sub |a, b| a + 5 - b; Mul mul |a, b| a * b; Div div |a, b| a / b.max(1); Rem rem |a, b| a % b.max(1); }
impl Neg for Odd {
    type Output = Odd;
    fn neg(self) -> Odd {
        Odd((5 - self.0) % 5)
    }
}
impl Zero for Odd {
    fn zero() -> Odd {
        Odd(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl One for Odd {
    fn one() -> Odd {
        Odd(1)
    }
}
impl Num for Odd {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Odd, ()> {
        Err(())
    }
}
impl ToPrimitive for Odd {
    fn to_i64(&self) -> Option<i64> {
        Some(self.0 as i64)
    }
    fn to_u64(&self) -> Option<u64> {
        Some(self.0 as u64)
    }
}
impl NumCast for Odd {
    fn from<T: ToPrimitive>(n: T) -> Option<Odd> {
        n.to_u8().map(|n| Odd(n % 5))
    }
}
impl AbsDiffEq for Odd {
    type Epsilon = Odd;
    fn default_epsilon() -> Odd {
        Odd(3)
    }
    fn abs_diff_eq(&self, o: &Odd, e: Odd) -> bool {
        let k = self.0.min(o.0) as u32 * 25 + self.0.max(o.0) as u32 * 5 + e.0 as u32;
        self.0 == o.0 || (k.wrapping_mul(2654435761) >> 13) % 3 != 0
    }
}
impl E for Odd {
    fn values() -> Vec<Odd> {
        (0..5).map(Odd).collect()
    }
    fn epsilons() -> Vec<Odd> {
        (0..5).map(Odd).collect()
    }
    fn key(self) -> u64 {
        self.0 as u64
    }
}
fn judge<T: E, C: X<T> + Debug>(ctx: &mut Ctx, a: &[T], b: &[T], eps: Option<T>) {
    ctx.note(|| format!("{a:?} and {b:?} with epsilon {eps:?}"));
    ctx.ops(6);
    ctx.state(&(a.iter().chain(b).map(|x| x.key()).collect::<Vec<_>>(), eps.map(|e| e.key())));
    let e = eps.unwrap_or(T::default_epsilon());
    let every = |a: &[T], b: &[T]| a.iter().zip(b).all(|(x, y)| x.abs_diff_eq(y, e));
    let (x, y) = (C::of(a), C::of(b));
    same!(ctx, C::default_epsilon().key(), T::default_epsilon().key(), "default epsilon");
    let (want, back) = (every(a, b), every(b, a));
    same!(ctx, x.abs_diff_eq(&y, e), want, "approximately equal");
    same!(ctx, x.abs_diff_ne(&y, e), !want, "not approximately equal");
    same!(ctx, y.abs_diff_eq(&x, e), back, "approximately equal the other way round");
    match eps {
        Some(e) => {
            same!(ctx, approx::abs_diff_eq!(x, y, epsilon = e), want, "approximately equal (macro)");
            same!(ctx, approx::abs_diff_ne!(x, y, epsilon = e), !want, "not approximately equal (macro)");
        }
        None => {
            same!(ctx, approx::abs_diff_eq!(x, y), want, "approximately equal (macro)");
            same!(ctx, approx::abs_diff_ne!(x, y), !want, "not approximately equal (macro)");
        }
    }
    // with itself, exactly as its elements are
    same!(ctx, x.abs_diff_eq(&C::of(a), e), every(a, a), "approximately equal to a copy of itself");
    same!(ctx, x.abs_diff_eq(&x, e), every(a, a), "approximately equal to itself");
}
fn eps<T: E>(ctx: &mut Ctx) -> Option<T> {
    let l = T::epsilons();
    let k = ctx.choose(l.len() + 1);
    (k > 0).then(|| l[k - 1])
}
/// All elements equal but for one or two places, which hold any two pairs of values.
fn deviate<T: E, C: X<T> + Debug>(ctx: &mut Ctx) {
    let e = eps::<T>(ctx);
    let v = T::values();
    let n = C::LEN;
    let small = [v[0], v[1], v[4 % v.len()]];
    let mut a: Vec<T> = (0..n).map(|i| small[i % 3]).collect();
    let mut b = a.clone();
    if n > 0 {
        let i = ctx.choose(n);
        a[i] = *ctx.pick(&v);
        b[i] = *ctx.pick(&v);
        // of many components, the second place is the next or the last one
        let j = if n <= 16 { i + ctx.choose(n - i) } else { *ctx.pick(&[i, (i + 1).min(n - 1), n - 1]) };
        if j > i {
            let w: &[T] = if ctx.thorough() { &v } else { &v[..3] };
            a[j] = *ctx.pick(w);
            b[j] = *ctx.pick(w);
        }
    }
    judge::<T, C>(ctx, &a, &b, e);
}
/// All pairs of lists over few values.
fn complete<T: E, C: X<T> + Debug>(ctx: &mut Ctx) {
    let e = eps::<T>(ctx);
    let v = T::values();
    let cap = if ctx.thorough() { 500_000f64 } else { 40_000f64 };
    let mut k = v.len();
    while k > 2 && (k as f64).powi(2 * C::LEN as i32) > cap {
        k -= 1;
    }
    let many = (k as f64).powi(2 * C::LEN as i32) > cap;
    if many {
        return;
    }
    let (mut a, mut b) = (vec![], vec![]);
    for _ in 0..C::LEN {
        a.push(*ctx.pick(&v[..k]));
        b.push(*ctx.pick(&v[..k]));
    }
    judge::<T, C>(ctx, &a, &b, e);
}
macro_rules! types {
    ($r:expr, $t:ident: $($x:ty),* $(,)?) => { $(
        $r.add(format!("{}: one or two components deviate", stringify!($x).replace(' ', "")), deviate::<$t, $x>);
        $r.add(format!("{}: all lists of few values", stringify!($x).replace(' ', "")), complete::<$t, $x>);
    )* }
}
macro_rules! element {
    ($r:expr, $($t:ident)*) => { $(
        types!($r, $t: Vector<$t, 0>, Vector<$t, 1>, Vector<$t, 2>, Vector<$t, 3>, Vector<$t, 4>, Vector<$t, 5>, Vector<$t, 8>, Vector<$t, 17>, Vector<$t, 33>, Vector<$t, 65>,
            Matrix<$t, 0, 2>, Matrix<$t, 1, 1>, Matrix<$t, 1, 2>, Matrix<$t, 2, 1>, Matrix<$t, 2, 2>, Matrix<$t, 2, 3>, Matrix<$t, 3, 2>, Matrix<$t, 3, 3>, Matrix<$t, 4, 4>, Matrix<$t, 5, 5>, Matrix<$t, 1, 9>, Matrix<$t, 9, 1>, Matrix<$t, 9, 8>, Matrix<$t, 11, 12>,
            Complex<$t>, Quaternion<$t>, Moebius<$t>, Shift<$t, 1>, Shift<$t, 2>, Shift<$t, 3>, Shift<$t, 4>, Scale<$t>,
            Linear<$t, 1>, Linear<$t, 2>, Linear<$t, 3>, Linear<$t, 4>, Shift<$t, 5>, Shift<$t, 9>, Linear<$t, 5>, Linear<$t, 7>, Rotation2<$t>, Rotation3<$t>, Chain<Number<$t>, Number<$t>, $t>);
    )* }
}
fn build(r: &mut Reg) {
    element!(r, Odd f64 f32 i32);
}
fn main() {
    mc::main(Check {
        prop: "C20",
        level: "model_checking",
        rule: "an execution is one pair of component lists (one or two deviating places with all pairs of values, or all lists over few values) and one epsilon or the default; the real relation is compared with the conjunction of the elements' own, for floats with specials, integers and elements with an arbitrary relation; states are distinct inputs",
        assumptions: &["the approx crate's relation of the elements themselves is taken as given"],
        build,
    });
}
