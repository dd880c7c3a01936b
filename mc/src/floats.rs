//! Float alphabets and comparisons.
use num_traits::{Float, FloatConst, NumCast};

pub trait Fl: Float + FloatConst + NumCast + std::fmt::Debug + std::fmt::Display + Default + Send + Sync + 'static
    + std::ops::AddAssign + std::ops::SubAssign + std::ops::MulAssign + std::ops::DivAssign + std::ops::RemAssign
{
    fn bits(self) -> u64;
    fn lit(x: f64) -> Self;
    fn f(self) -> f64;
    fn up(self) -> Self;
    fn down(self) -> Self;
    const NAME: &'static str;
    const EPS: Self;
}
impl Fl for f64 {
    fn bits(self) -> u64 {
        self.to_bits()
    }
    fn lit(x: f64) -> f64 {
        x
    }
    fn f(self) -> f64 {
        self
    }
    fn up(self) -> f64 {
        self.next_up()
    }
    fn down(self) -> f64 {
        self.next_down()
    }
    const NAME: &'static str = "f64";
    const EPS: f64 = f64::EPSILON;
}
impl Fl for f32 {
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
    fn lit(x: f64) -> f32 {
        x as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
    fn up(self) -> f32 {
        self.next_up()
    }
    fn down(self) -> f32 {
        self.next_down()
    }
    const NAME: &'static str = "f32";
    const EPS: f32 = f32::EPSILON;
}

/// Identical bits, all NaNs being one value.
pub fn same_bits<T: Fl>(a: T, b: T) -> bool {
    a.bits() == b.bits() || (a.is_nan() && b.is_nan())
}
/// Equal as numbers (signed zeros alike), all NaNs being one value.
pub fn same_num<T: Fl>(a: T, b: T) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
/// |a - b| <= tol * max(1, |a|, |b|) in units of epsilon, non-finite values must agree.
pub fn close<T: Fl>(a: T, b: T, ulps: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a.is_infinite() || b.is_infinite() {
        return a == b;
    }
    let (a, b) = (a.f(), b.f());
    (a - b).abs() <= ulps * T::EPS.f() * 1f64.max(a.abs()).max(b.abs())
}
/// Relative version of `close` (for tiny and huge results).
pub fn rel<T: Fl>(a: T, b: T, ulps: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a == b {
        return true;
    }
    if a.is_infinite() || b.is_infinite() {
        return false;
    }
    let (x, y) = (a.f(), b.f());
    (x - y).abs() <= ulps * T::EPS.f() * x.abs().max(y.abs()) + T::min_positive_value().f() * 4.0
}

/// Special and ordinary values.
pub fn special<T: Fl>() -> Vec<T> {
    let l = T::lit;
    vec![
        l(0.0), l(-0.0), l(1.0), l(-1.0), l(0.5), l(-0.5), l(0.5).down(), l(1.0).up(), l(1.5), l(2.5), l(-2.5),
        l(-1.5), l(3.0), l(-7.25), l(0.1), l(10.0), T::PI(), -T::PI(), T::FRAC_PI_2(), T::FRAC_PI_4(), T::E(),
        T::EPS, -T::EPS, T::min_positive_value(), T::min_positive_value() / l(8.0), T::max_value(),
        -T::max_value(), l(1e10), l(-1e-10), l(123456.789), T::infinity(), T::neg_infinity(), T::nan(),
    ]
}
/// A shorter alphabet for pairs and triples.
pub fn short<T: Fl>() -> Vec<T> {
    let l = T::lit;
    vec![
        l(0.0), l(-0.0), l(1.0), l(-1.0), l(0.5), l(-2.5), l(3.0), l(0.1), T::EPS, T::min_positive_value() / l(8.0),
        T::max_value(), l(-1e10), T::infinity(), T::neg_infinity(), T::nan(),
    ]
}
/// Finite ordinary values.
pub fn ordinary<T: Fl>() -> Vec<T> {
    let l = T::lit;
    vec![l(0.0), l(1.0), l(-1.0), l(0.5), l(-2.0), l(3.0), l(-0.25), l(1.7)]
}
