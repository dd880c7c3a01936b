//! C24: the answer of a call depends on its operands alone.
//!
//! Every execution is a process of its own, single-threaded unless it is about threads, so that what it finds can be
//! repeated: it walks through histories of calls and compares each answer with the one the same call gives as the
//! first call of a program.
use mc::*;
use num_traits::{Inv, Num, NumCast, One, ToPrimitive, Zero};
use rand::{Error, Rng, RngCore};
use std::cell::{Cell, RefCell};
use std::convert::TryFrom;
use std::fmt::Debug;
use std::io::{Read, Write};
use std::ops::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use vecmat::complex::Moebius;
use vecmat::distr::{Invertible, NonZero, Normal, Uniform, Unit};
use vecmat::matrix::{FlatIter, MatrixDistribution};
use vecmat::prelude::*;
use vecmat::transform::{Affine, Chain, Directional, Linear, Reorder, Rotation2, Rotation3, Scale, Shift};
use vecmat::vector::{GroupIter, VectorDistribution};
use vecmat::{Complex, Matrix, Quaternion, Vector};

// ------------------------------------------------------------------ points at which the environment can act

thread_local! { static HOOK: RefCell<Option<Box<dyn FnMut()>>> = const { RefCell::new(None) }; }
/// Called by every element operation, callback, iterator and generator that the library calls.
fn hook() {
    let h = HOOK.with(|h| h.borrow_mut().take());
    if let Some(mut f) = h {
        struct Back(Option<Box<dyn FnMut()>>);
        impl Drop for Back {
            fn drop(&mut self) {
                HOOK.with(|h| *h.borrow_mut() = self.0.take());
            }
        }
        // not re-entrant: what the hook itself calls does not reach it again
        let mut b = Back(None);
        f();
        b.0 = Some(f);
    }
}
fn with_hook<R>(f: Box<dyn FnMut()>, g: impl FnOnce() -> R) -> R {
    HOOK.with(|h| *h.borrow_mut() = Some(f));
    let r = catch_unwind(AssertUnwindSafe(g));
    HOOK.with(|h| *h.borrow_mut() = None);
    match r {
        Ok(x) => x,
        Err(e) => std::panic::resume_unwind(e),
    }
}

/// A number modulo 101 whose every operation passes through the hook.
#[derive(Debug)]
struct H(i64);
fn h(x: i64) -> H {
    H(x.rem_euclid(101))
}
impl Copy for H {}
impl Clone for H {
    fn clone(&self) -> H {
        *self
    }
}
macro_rules! ops { ($($t:ident $f:ident $ta:ident $fa:ident |$a:ident, $b:ident| $e:expr;)*) => { $(
    impl $t for H { type Output = H; fn $f(self, o: H) -> H { hook(); let ($a, $b) = (self.0, o.0); h($e) } }
    impl $ta for H { fn $fa(&mut self, o: H) { hook(); let ($a, $b) = (self.0, o.0); *self = h($e) } }
)* } }
fn invert(x: i64) -> i64 {
    assert!(x != 0, "division by zero");
    (1..101).find(|y| x * y % 101 == 1).unwrap()
}
ops! {
    Add add AddAssign add_assign |a, b| a + b;
    Sub sub SubAssign sub_assign |a, b| a - b;
    Mul mul MulAssign mul_assign |a, b| a * b;
    Div div DivAssign div_assign |a, b| a * invert(b);
    Rem rem RemAssign rem_assign |a, b| { assert!(b != 0); let _ = a; 0 };
}
impl Neg for H {
    type Output = H;
    fn neg(self) -> H {
        hook();
        h(-self.0)
    }
}
impl PartialEq for H {
    fn eq(&self, o: &H) -> bool {
        hook();
        self.0 == o.0
    }
}
impl PartialOrd for H {
    fn partial_cmp(&self, o: &H) -> Option<std::cmp::Ordering> {
        hook();
        self.0.partial_cmp(&o.0)
    }
}
impl Zero for H {
    fn zero() -> H {
        hook();
        H(0)
    }
    fn is_zero(&self) -> bool {
        hook();
        self.0 == 0
    }
}
impl One for H {
    fn one() -> H {
        hook();
        H(1)
    }
}
impl Num for H {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<H, ()> {
        Err(())
    }
}
impl Inv for H {
    type Output = H;
    fn inv(self) -> H {
        hook();
        h(invert(self.0))
    }
}
impl ToPrimitive for H {
    fn to_i64(&self) -> Option<i64> {
        Some(self.0)
    }
    fn to_u64(&self) -> Option<u64> {
        Some(self.0 as u64)
    }
}
impl NumCast for H {
    fn from<T: ToPrimitive>(n: T) -> Option<H> {
        hook();
        n.to_i64().map(h)
    }
}
impl Default for H {
    fn default() -> H {
        hook();
        H(7)
    }
}
impl std::fmt::Display for H {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        hook();
        write!(f, "{}", self.0)
    }
}
impl approx::AbsDiffEq for H {
    type Epsilon = H;
    fn default_epsilon() -> H {
        H(1)
    }
    fn abs_diff_eq(&self, o: &H, e: H) -> bool {
        hook();
        (self.0 - o.0).abs() <= e.0
    }
}
/// A generator with a fixed stream for every seed, counting its words.
struct Words(u64, u64);
impl RngCore for Words {
    fn next_u64(&mut self) -> u64 {
        hook();
        self.1 += 1;
        let mut z = (self.0 * 1000 + self.1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let w = self.next_u64().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(b);
        Ok(())
    }
}

// ------------------------------------------------------------------ the calls

struct Op {
    fam: &'static str,
    name: String,
    run: Box<dyn Fn() -> String + Send + Sync>,
}
impl Op {
    fn answer(&self) -> String {
        match catch_unwind(AssertUnwindSafe(|| (self.run)())) {
            Ok(s) => s,
            Err(_) => "panic".into(),
        }
    }
}
/// Flat operands that agree with each other in part: all but the last entry, all but the first, up to order, ...
fn flat(n: usize, k: usize) -> Vec<i32> {
    let mut v: Vec<i32> = (0..n as i32).map(|i| (i * i * 5 + i * 7 + 3) % 11 - 4).collect();
    match k {
        1 => v.iter_mut().last().into_iter().for_each(|x| *x += 2),
        2 => v.iter_mut().next().into_iter().for_each(|x| *x -= 3),
        3 => v.reverse(),
        4 => v.iter_mut().for_each(|x| *x = 0),
        5 => v.iter_mut().for_each(|x| *x = -*x),
        6 => v.iter_mut().enumerate().for_each(|(i, x)| *x = i as i32),
        _ => (),
    }
    v
}
const KS: usize = 7;
trait El: Copy + Debug + Send + Sync + 'static {
    fn el(x: i32) -> Self;
}
impl El for i32 {
    fn el(x: i32) -> i32 {
        x
    }
}
impl El for i64 {
    fn el(x: i32) -> i64 {
        x as i64
    }
}
impl El for u8 {
    fn el(x: i32) -> u8 {
        x.unsigned_abs() as u8
    }
}
impl El for f64 {
    fn el(x: i32) -> f64 {
        x as f64 * 0.37
    }
}
impl El for f32 {
    fn el(x: i32) -> f32 {
        x as f32 * 0.37
    }
}
impl El for H {
    fn el(x: i32) -> H {
        h(x as i64)
    }
}
fn v<T: El, const N: usize>(k: usize) -> Vector<T, N> {
    Vector::of(&flat(N, k).into_iter().map(T::el).collect::<Vec<_>>())
}
fn m<T: El, const M: usize, const N: usize>(k: usize) -> Matrix<T, M, N> {
    Matrix::of(&flat(M * N, k).into_iter().map(T::el).collect::<Vec<_>>())
}
fn c<T: El>(k: usize) -> Complex<T> {
    let f = flat(2, k);
    Complex::new(T::el(f[0]), T::el(f[1]))
}
fn q<T: El>(k: usize) -> Quaternion<T> {
    let f = flat(4, k);
    Quaternion::new(T::el(f[0]), T::el(f[1]), T::el(f[2]), T::el(f[3]))
}
use mc::cont::Cont;

/// Writes to a writer that fails when it has to take more than `n` bytes.
fn cut<T: std::fmt::Display + Debug>(n: usize, x: &T) -> (bool, String, bool, String) {
    struct W(usize, String);
    impl std::fmt::Write for W {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            if self.1.len() + s.len() > self.0 {
                return Err(std::fmt::Error);
            }
            self.1.push_str(s);
            Ok(())
        }
    }
    use std::fmt::Write;
    let (mut a, mut b) = (W(n, String::new()), W(n, String::new()));
    (write!(a, "{x}").is_ok(), a.1, write!(b, "{x:?}").is_ok(), b.1)
}

macro_rules! fam {
    ($r:ident, $name:expr, |$k:ident| $e:expr) => {
        for key in 0..KS {
            let fam: &'static str = $name;
            $r.push(Op { fam, name: format!("{fam}#{key}"), run: Box::new(move || { let $k = key; format!("{:?}", $e) }) });
        }
    };
}
macro_rules! numeric { ($r:ident, $t:ty, $n:literal) => {
    fam!($r, concat!("vector arithmetic ", stringify!($t), $n), |k| { let (a, b) = (v::<$t, $n>(k), v::<$t, $n>((k + 1) % KS)); (a + b, a - b, a * b, a * b.list()[0], a.dot(b), a.sum(), a.zip(b).map(|(x, y)| x - y).sum()) });
    fam!($r, concat!("vector division ", stringify!($t), $n), |k| { let (a, b) = (v::<$t, $n>((k + 1) % KS), v::<$t, $n>(k)); (a / b, a % b) });
    fam!($r, concat!("vector order ", stringify!($t), $n), |k| { let (a, b) = (v::<$t, $n>(k), v::<$t, $n>((k + 2) % KS)); (a.min(), a.max(), a.vlt(b), a.veq(b), a == b, a.vlt(b).any(), a.vge(b).all(), a.is_zero()) });
    fam!($r, concat!("vector walks ", stringify!($t), $n), |k| { let a = v::<$t, $n>(k); (a.map(|x| x + x), a.enumerate(), a.scan(k, |s, x| { *s += 1; (*s, x) }), a.fold(<$t>::el(0), |s, x| s + x), a.fold_first(|s, x| x - s), a.into_iter().collect::<Vec<_>>()) });
    fam!($r, concat!("vector from iterator ", stringify!($t), $n), |k| (Vector::<$t, $n>::try_from_iter(flat(k, 0).into_iter().map(<$t>::el)), Vector::<$t, $n>::try_from(&v::<$t, 9>(0).as_array()[..k]), Vector::<$t, $n>::fill(<$t>::el(k as i32))));
    fam!($r, concat!("vector text ", stringify!($t), $n), |k| format!("{} {:?} {:#?}", v::<$t, $n>(k), v::<$t, $n>(k), v::<$t, $n>(k)));
    fam!($r, concat!("vector sums ", stringify!($t), $n), |k| ((0..k).map(|i| v::<$t, $n>(i)).sum::<Vector<$t, $n>>(), (0..k.min(3)).map(|i| v::<$t, $n>(i + 1)).product::<Vector<$t, $n>>()));
    fam!($r, concat!("vector assigning ", stringify!($t), $n), |k| { let mut a = v::<$t, $n>(k); a += v((k + 1) % KS); a *= <$t>::el(2); a -= v(3); a });
} }
macro_rules! square { ($r:ident, $t:ty, $n:literal) => {
    fam!($r, concat!("determinant ", stringify!($t), $n), |k| m::<$t, $n, $n>(k).det());
    fam!($r, concat!("cofactors ", stringify!($t), $n), |k| { let a = m::<$t, $n, $n>(k); (a.cofactor(0, 0), a.cofactor($n - 1, 0), a.adj()) });
    fam!($r, concat!("inverse ", stringify!($t), $n), |k| { let a = m::<$t, $n, $n>(k); (Matrix::inv(&a), Inv::inv(a)) });
    fam!($r, concat!("square product ", stringify!($t), $n), |k| { let (a, b) = (m::<$t, $n, $n>(k), m::<$t, $n, $n>((k + 1) % KS)); (a.dot(b), a.dot(v::<$t, $n>(k)), v::<$t, $n>(k).dot(b), Matrix::<$t, $n, $n>::one(), Matrix::diagonal(v::<$t, $n>(k))) });
    fam!($r, concat!("linear map ", stringify!($t), $n), |k| { let a = Linear::from(m::<$t, $n, $n>(k)); (a.apply(v(1)), a.deriv(v(1), v(2)), a.chain(Linear::identity()), a) });
    fam!($r, concat!("affine map ", stringify!($t), $n), |k| { let a: Affine<$t, $n> = Chain::new(Shift::from(v::<$t, $n>(k)), Linear::from(m::<$t, $n, $n>(k))); let b: Affine<$t, $n> = Chain::new(Shift::from(v::<$t, $n>(1)), Linear::from(m::<$t, $n, $n>(5))); (a.apply(v(1)), a.chain(b), b.chain(a).shift(), a.linear()) });
    fam!($r, concat!("affine inverse ", stringify!($t), $n), |k| { let a: Affine<$t, $n> = Chain::new(Shift::from(v::<$t, $n>(k)), Linear::from(m::<$t, $n, $n>(k))); Transform::<Vector<$t, $n>>::inv(a) });
} }
macro_rules! shape { ($r:ident, $t:ty, $a:literal, $b:literal) => {
    fam!($r, concat!("matrix arithmetic ", stringify!($t), $a, "x", $b), |k| { let (a, b) = (m::<$t, $a, $b>(k), m::<$t, $a, $b>((k + 1) % KS)); (a + b, a - b, a * b, a * <$t>::el(3), a.sum(), a.veq(b), a == b, a.min(), a.max(), a.is_zero()) });
    fam!($r, concat!("matrix division ", stringify!($t), $a, "x", $b), |k| { let (a, b) = (m::<$t, $a, $b>((k + 1) % KS), m::<$t, $a, $b>(k)); (a / b, a % b) });
    fam!($r, concat!("matrix walks ", stringify!($t), $a, "x", $b), |k| { let a = m::<$t, $a, $b>(k); (a.transpose(), a.map(|x| x + x), a.scan(k, |s, x| { *s += 1; (*s, x) }), a.iter().copied().collect::<Vec<_>>(), a.row(0), a.col($b - 1), a[($a - 1, 0)]) });
    fam!($r, concat!("matrix from iterator ", stringify!($t), $a, "x", $b), |k| (Matrix::<$t, $a, $b>::try_from_iter(flat(k * 2, 0).into_iter().map(<$t>::el)), Matrix::<$t, $a, $b>::fill(<$t>::el(k as i32))));
    fam!($r, concat!("matrix text ", stringify!($t), $a, "x", $b), |k| format!("{} {:?}", m::<$t, $a, $b>(k), m::<$t, $a, $b>(k)));
    fam!($r, concat!("products ", stringify!($t), $a, "x", $b), |k| (v::<$t, $a>(k).outer(v::<$t, $b>((k + 1) % KS)), m::<$t, $a, $b>(k).dot(m::<$t, $b, $a>(2)), m::<$t, $a, $b>(k).dot(v::<$t, $b>(1)), v::<$t, $a>(2).dot(m::<$t, $a, $b>(k))));
    fam!($r, concat!("matrix sums ", stringify!($t), $a, "x", $b), |k| ((0..k).map(|i| m::<$t, $a, $b>(i)).sum::<Matrix<$t, $a, $b>>(), (0..k.min(3)).map(|i| m::<$t, $a, $b>(i + 1)).product::<Matrix<$t, $a, $b>>()));
} }
macro_rules! floats { ($r:ident, $t:ty) => {
    fam!($r, concat!("vector norms ", stringify!($t)), |k| { let a = v::<$t, 3>(k); (a.length(), a.square_length(), a.normalize(), a.norm_l1(), a.norm_l2(), a.norm_l_inf(), v::<$t, 2>(k).normalize(), m::<$t, 2, 3>(k).norm_l2()) });
    fam!($r, concat!("vector functions ", stringify!($t)), |k| { let a = v::<$t, 4>(k); ((a.sin(), a.cos(), a.exp(), a.abs(), a.floor(), a.sin_cos()), (a.atan2(<$t>::el(2)), a.powi(3), a.hypot(v::<$t, 4>(2)), a.clamp(<$t>::el(-1), <$t>::el(4)), a.vmin(v::<$t, 4>(3)))) });
    fam!($r, concat!("matrix functions ", stringify!($t)), |k| { let a = m::<$t, 2, 2>(k); (a.sin(), a.tanh(), a.abs(), a.powi(2), a.vmax(v::<$t, 2>(3)), a.mul_add(<$t>::el(2), v::<$t, 2>(1))) });
    fam!($r, concat!("complex functions ", stringify!($t)), |k| { let a = c::<$t>(k); ((a.norm(), a.arg(), a.to_polar(), a.normalize(), a.exp(), a.ln(), a.sqrt()), (a.cbrt(), a.sin(), a.atanh(), a.powi(3), a.powu(4), a.powf(<$t>::el(3)), a.powc(c(2)), Complex::<$t>::from_polar(<$t>::el(4), <$t>::el(k as i32)))) });
    fam!($r, concat!("further complex functions ", stringify!($t)), |k| { let a = c::<$t>(k); ((a.tan(), a.sinh(), a.cosh(), a.tanh(), a.asin(), a.acos(), a.atan()), (a.asinh(), a.acosh(), a.cos(), a.finv(), a.fdiv(c(2)), a.log(<$t>::el(3)), a.expf(<$t>::el(3)), a.norm_sqr()), (a.inv(), Inv::inv(a), Conj::conj(a), a.conj(), Normalize::normalize(a), a.into_matrix())) });
    fam!($r, concat!("further vector functions ", stringify!($t)), |k| { let a = v::<$t, 3>(k); let b = v::<$t, 3>(2); ((a.tan(), a.asin(), a.acos(), a.atan(), a.sinh(), a.cosh(), a.tanh()), (a.asinh(), a.acosh(), a.atanh(), a.ln(), a.log2(), a.log10(), a.exp2()), (a.sqrt(), a.cbrt(), a.exp_m1(), a.ln_1p(), a.ceil(), a.round(), a.trunc(), a.fract()), (a.signum(), a.recip(), a.powf(<$t>::el(2)), a.log(b), a.mul_add(b, <$t>::el(1)), a.abs_sub(b), a.vmax(b), Normalize::normalize(a))) });
    fam!($r, concat!("further matrix functions ", stringify!($t)), |k| { let a = m::<$t, 2, 2>(k); let b = m::<$t, 2, 2>(2); ((a.cos(), a.tan(), a.atan(), a.sinh(), a.exp(), a.ln(), a.sqrt()), (a.ceil(), a.round(), a.trunc(), a.fract(), a.signum(), a.recip()), (a.powf(b), a.atan2(b), a.hypot(<$t>::el(3)), a.log(b), a.clamp(<$t>::el(0), <$t>::el(3)), a.vmin(b), a.sin_cos())) });
    fam!($r, concat!("quaternions by trait ", stringify!($t)), |k| { let a = q::<$t>(k); (a.inv(), Conj::conj(a), a.conj(), Normalize::normalize(a), a.norm_sqr(), a.norm_l2(), a.dot(q(1)), a.into_matrix()) });
    fam!($r, concat!("moebius by itself ", stringify!($t)), |k| { let f = Moebius::new(c::<$t>(0), c(k), c(1), c(2)); (Moebius::inv(f), Moebius::chain(f, Moebius::new(c(2), c(1), c(0), c(k))), Moebius::apply(&f, c::<$t>(k)), Moebius::apply(&f, q::<$t>(k)), f.deriv_dir(q(k), q(1)), Moebius::<Complex<$t>>::identity()) });
    fam!($r, concat!("complex with reals ", stringify!($t)), |k| { let a = c::<$t>(k); (a * <$t>::el(3), <$t>::el(3) * a, <$t>::el(3) - a, <$t>::el(2) / a, a / <$t>::el(k as i32), a + <$t>::el(1)) });
    fam!($r, concat!("quaternions with others ", stringify!($t)), |k| { let (a, z) = (q::<$t>(k), c::<$t>(k)); (a * z, z * a, z + a, z - a, <$t>::el(2) * a, <$t>::el(2) / a, a / z, z / a) });
    fam!($r, concat!("quaternion norms ", stringify!($t)), |k| { let a = q::<$t>(k); (a.norm(), a.normalize(), Inv::inv(a), a.norm_l1(), a / q(2)) });
    fam!($r, concat!("plane rotations ", stringify!($t)), |k| { let a = Rotation2::<$t>::new(<$t>::el(k as i32 * 2 - 5)); (a.angle(), a.apply(v(k)), a.deriv(v(0), v(k)), a.chain(Rotation2::new(<$t>::el(1))), Transform::<Vector<$t, 2>>::inv(a), a.to_linear()) });
    fam!($r, concat!("space rotations ", stringify!($t)), |k| { let a = Rotation3::<$t>::new(v::<$t, 3>(1).normalize(), <$t>::el(k as i32 * 2 - 5)); ((a.angle(), a.axis(), a.apply(v(k)), a.deriv(v(0), v(k))), (a.chain(Rotation3::new(v::<$t, 3>(0).normalize(), <$t>::el(1))), Transform::<Vector<$t, 3>>::inv(a), a.to_linear(), a.apply_normal(v(0), v(k)))) });
    fam!($r, concat!("looking ", stringify!($t)), |k| { let d = v::<$t, 3>(k).normalize(); (Rotation3::<$t>::look_at_any(d), Linear::<$t, 3>::look_at_any(d), Linear::<$t, 3>::look_at(d, v::<$t, 3>(6).normalize())) });
    fam!($r, concat!("directions ", stringify!($t)), |k| { let l = Linear::from(m::<$t, 3, 3>(k)); (l.apply_dir(v(0), v(k)), l.apply_normal(v(0), v(k)), Scale::from(<$t>::el(k as i32 - 3)).apply_normal(v::<$t, 3>(0), v(1)), l.normal_transform()) });
    fam!($r, concat!("moebius ", stringify!($t)), |k| { let f = Moebius::new(c::<$t>(0), c(k), c(1), c(2)); ((Transform::<Complex<$t>>::apply(&f, c(k)), Moebius::deriv(&f, c(k)), Transform::<Complex<$t>>::inv(f), Moebius::det(&f)), (Normalize::normalize(f), Transform::<Quaternion<$t>>::apply(&f, q(k)), Transform::<Quaternion<$t>>::deriv(&f, q(k), q(1)), Transform::<Complex<$t>>::chain(f, Moebius::new(c(2), c(1), c(0), c(k))))) });
    fam!($r, concat!("shift and scale ", stringify!($t)), |k| { let (s, z) = (Shift::from(v::<$t, 3>(k)), Scale::from(<$t>::el(k as i32))); (s.apply(v(1)), s.chain(Shift::from(v(2))), Transform::<Vector<$t, 3>>::inv(s), Transform::<Vector<$t, 3>>::apply(&z, v(1)), s.reorder(Scale::from(<$t>::el(2)))) });
    fam!($r, concat!("reordering ", stringify!($t)), |k| { let s = Shift::from(v::<$t, 2>(k)); (s.reorder(Rotation2::new(<$t>::el(3))), s.reorder(Linear::from(m::<$t, 2, 2>(0))), Rotation2::<$t>::new(<$t>::el(3)).reorder(s)) });
    fam!($r, concat!("nearness ", stringify!($t)), |k| { use approx::AbsDiffEq; (v::<$t, 3>(k).abs_diff_eq(&v(1), <$t>::el(5)), m::<$t, 2, 2>(k).abs_diff_eq(&m(0), <$t>::el(5)), c::<$t>(k).abs_diff_eq(&c(0), <$t>::el(6)), (<$t>::EPSILON * k as $t).is_epsilon()) });
    fam!($r, concat!("normal numbers ", stringify!($t)), |k| { let mut w = Words(k as u64, 0); (w.sample::<$t, _>(Normal), w.sample::<$t, _>(Normal), w.sample::<$t, _>(Normal), w.1) });
    fam!($r, concat!("one normal number ", stringify!($t)), |k| { let mut w = Words(k as u64, 0); (w.sample::<$t, _>(Normal), w.1) });
    fam!($r, concat!("normal vectors ", stringify!($t)), |k| { let mut w = Words(k as u64, 0); (w.sample::<Vector<$t, 3>, _>(Normal), w.sample::<Matrix<$t, 2, 2>, _>(Normal), w.sample::<Shift<$t, 2>, _>(Normal), w.sample::<Affine<$t, 2>, _>(Normal), w.1) });
    fam!($r, concat!("unit samples ", stringify!($t)), |k| { let mut w = Words(k as u64, 0); (w.sample::<Vector<$t, 3>, _>(Unit), w.sample::<Complex<$t>, _>(Unit), w.sample::<Quaternion<$t>, _>(Unit), w.sample::<Vector<$t, 1>, _>(NonZero), w.1) });
    fam!($r, concat!("invertible samples ", stringify!($t)), |k| { let mut w = Words(k as u64, 0); (w.sample::<Matrix<$t, 3, 3>, _>(Invertible), w.sample::<Linear<$t, 2>, _>(Invertible), w.sample::<Moebius<$t>, _>(Invertible), w.1) });
    fam!($r, concat!("uniform rotations ", stringify!($t)), |k| { let mut w = Words(k as u64, 0); (w.sample::<Rotation2<$t>, _>(Uniform), w.sample::<Rotation3<$t>, _>(Uniform), w.1) });
    fam!($r, concat!("rotations by two things ", stringify!($t)), |k| { let (i, j) = (k / 3, k % 3); let (d, e) = (v::<$t, 3>(i).normalize(), v::<$t, 3>(j + 3 + (j > 0) as usize)); ((Rotation3::<$t>::new(d, <$t>::el(j as i32 * 3 - 2)), Linear::<$t, 3>::look_at(d, e), Complex::<$t>::from_polar(<$t>::el(i as i32 + 1), <$t>::el(j as i32)), c::<$t>(i).powf(<$t>::el(j as i32 + 1))), (c::<$t>(i).powi(j as i32), c::<$t>(i).log(<$t>::el(j as i32 + 2)), v::<$t, 2>(i).atan2(v::<$t, 2>(j)), v::<$t, 2>(i).powi(j as i32 + 1))) });
    fam!($r, concat!("acting with two things ", stringify!($t)), |k| { let (i, j) = (k / 3, k % 3); let (l, f, r, t) = (Linear::from(m::<$t, 3, 3>(i)), Moebius::new(c::<$t>(0), c(i), c(1), c(2)), Rotation3::<$t>::new(v(0), <$t>::el(i as i32 + 1)), Rotation2::<$t>::new(<$t>::el(i as i32 + 1))); ((l.apply(v(j)), l.apply_dir(v(0), v(j)), l.apply_normal(v(0), v(j)), Shift::from(v::<$t, 3>(i)).apply(v(j)), Scale::from(<$t>::el(i as i32 + 1)).apply(v::<$t, 2>(j))), (r.apply(v(j)), r.chain(Rotation3::new(v(j), <$t>::el(1))), t.apply(v(j)), Transform::<Complex<$t>>::apply(&f, c(j)), Transform::<Quaternion<$t>>::apply(&f, q(j)), Transform::<Quaternion<$t>>::deriv(&f, q(1), q(j)), Transform::<Quaternion<$t>>::deriv(&f, q(j), q(1)), Moebius::deriv(&f, c(j)))) });
    fam!($r, concat!("chains of two things ", stringify!($t)), |k| { let (i, j) = (k / 3, k % 3); let l = |i| Linear::from(m::<$t, 2, 2>(i)); let a = |i, j| -> Affine<$t, 2> { Chain::new(Shift::from(v::<$t, 2>(i)), l(j)) }; ((a(i, j), a(i, j).apply(v(1)), a(0, i).chain(a(0, j)), a(i, 0).chain(a(j, 0)), l(i).chain(l(j))), (l(i).reorder(Shift::from(v::<$t, 2>(j))), Shift::from(v::<$t, 2>(i)).reorder(Rotation2::<$t>::new(<$t>::el(j as i32))), a(i, j).apply_normal(v(0), v(1)), a(i, j).apply_dir(v(1), v(2)), Transform::<Vector<$t, 2>>::inv(a(i, j)))) });
    fam!($r, concat!("componentwise samples ", stringify!($t)), |k| { let mut w = Words(k as u64, 0); (w.sample::<Vector<$t, 3>, _>(&VectorDistribution::new(rand::distributions::Standard)), w.sample::<Matrix<$t, 2, 2>, _>(&MatrixDistribution::new(rand::distributions::Standard)), w.1) });
} }
macro_rules! numbers { ($r:ident, $t:ty) => {
    fam!($r, concat!("complex ", stringify!($t)), |k| { let (a, b) = (c::<$t>(k), c::<$t>((k + 1) % KS)); (a + b, a - b, a * b, -a, a.conj(), a.norm_sqr(), a.into_matrix(), a == b, a.dot(b), [a, b].iter().copied().product::<Complex<$t>>()) });
    fam!($r, concat!("two operands ", stringify!($t)), |k| { let (i, j) = (k / 3, k % 3); ((v::<$t, 3>(i).dot(v(j)), v::<$t, 3>(i) + v(j), v::<$t, 3>(i) * <$t>::el(j as i32), v::<$t, 3>(i).cross(v(j)), v::<$t, 2>(i).outer(v::<$t, 2>(j))), (m::<$t, 2, 2>(i).dot(v::<$t, 2>(j)), v::<$t, 2>(j).dot(m::<$t, 2, 2>(i)), m::<$t, 2, 2>(i).dot(m::<$t, 2, 2>(j)), m::<$t, 2, 2>(i) - m(j), m::<$t, 3, 3>(i).cofactor(j, 0), m::<$t, 3, 3>(i).cofactor(0, j)), (c::<$t>(i) * c(j), c::<$t>(i) + c(j), c::<$t>(i) == c(j), c::<$t>(i).dot(c(j)), q::<$t>(i) * q(j), q::<$t>(i) + q(j)), (v::<$t, 3>(i).vlt(v(j)), v::<$t, 3>(i) == v(j), m::<$t, 2, 2>(i) == m(j))) });
    fam!($r, concat!("complex division ", stringify!($t)), |k| c::<$t>(1) / c::<$t>(k));
    fam!($r, concat!("quaternion ", stringify!($t)), |k| { let (a, b) = (q::<$t>(k), q::<$t>((k + 1) % KS)); (a + b, a - b, a * b, -a, a.conj(), a.norm_sqr(), a.into_matrix(), a.dot(b), [a, b].iter().copied().product::<Quaternion<$t>>()) });
    fam!($r, concat!("quaternion division ", stringify!($t)), |k| q::<$t>(1) / q::<$t>(k));
    fam!($r, concat!("number text ", stringify!($t)), |k| format!("{} {:?} {} {:?}", c::<$t>(k), c::<$t>(k), q::<$t>(k), q::<$t>(k)));
    fam!($r, concat!("moebius over the line ", stringify!($t)), |k| { let f = Moebius::<$t>::new(<$t>::el(2), <$t>::el(k as i32), <$t>::el(-3), <$t>::el(5)); (f.apply(<$t>::el(7)), f.chain(Moebius::identity()), f.det()) });
    fam!($r, concat!("cross ", stringify!($t)), |k| (v::<$t, 2>(k).cross(v(1)), v::<$t, 3>(k).cross(v(1)), v::<$t, 4>(k).cross(v(1))));
} }

fn calls() -> &'static Vec<Op> {
    static C: OnceLock<Vec<Op>> = OnceLock::new();
    C.get_or_init(|| {
        let mut r = vec![];
        numeric!(r, i32, 2);
        numeric!(r, i32, 3);
        numeric!(r, f64, 3);
        numeric!(r, f64, 4);
        numeric!(r, f32, 3);
        square!(r, i32, 2);
        square!(r, i32, 3);
        square!(r, f64, 2);
        square!(r, f64, 3);
        square!(r, f64, 4);
        square!(r, f32, 3);
        shape!(r, i32, 2, 3);
        shape!(r, f64, 2, 2);
        shape!(r, f64, 3, 2);
        floats!(r, f64);
        floats!(r, f32);
        numbers!(r, i32);
        numbers!(r, f64);
        numbers!(r, f32);
        fam!(r, "bits", |k| { let (a, b) = (v::<i32, 4>(k), v::<i32, 4>(1)); (a & b, a | b, a ^ b, !a, m::<i32, 2, 2>(k) & m::<i32, 2, 2>(1)) });
        fam!(r, "floored division", |k| (v::<i32, 3>(k).div_floor(Vector::fill(3)), v::<i32, 3>(k).mod_floor(Vector::fill(-3)), m::<i32, 2, 2>(k).div_mod_floor(Matrix::fill(4))));
        fam!(r, "integer norms", |k| (v::<i32, 3>(k).norm_l1(), v::<i32, 3>(k).norm_l_inf(), v::<u8, 3>(k).norm_l1(), m::<i32, 2, 2>(k).norm_l1(), (k as i64 - 3).norm_l1(), c::<i32>(k).norm_l1()));
        fam!(r, "grouping", |k| GroupIter::<_, 3>::new(flat(k * 2, 6).into_iter()).map(|g| g.list()).collect::<Vec<_>>());
        fam!(r, "flattening", |k| FlatIter::new((0..k).map(|i| flat(i % 3, 6))).map(|x| x.take(20).collect::<Vec<_>>()));
        fam!(r, "indices", |k| (v::<i32, 3>(0)[k], Vector::<usize, 4>::indices(), Matrix::<(usize, usize), 2, 2>::indices()));
        fam!(r, "failing writers", |k| (cut(k * 3, &v::<i32, 3>(0)), cut(k * 4, &c::<i32>(0)), cut(k * 5, &q::<f64>(0))));
        fam!(r, "failing writers of matrices", |k| cut(k * 4 + 2, &m::<i32, 2, 2>(0)));
        fam!(r, "failing writers of nested matrices", |k| cut(k * 8 + 5, &Matrix::<Matrix<i32, 1, 2>, 2, 1>::fill(m(0))));
        fam!(r, "nested text", |k| format!("{} {:?}", Matrix::<Vector<i32, 2>, 1, 2>::fill(v(k)), Vector::<Matrix<i32, 2, 1>, 2>::fill(m(k))));
        fam!(r, "matrix indices", |k| m::<i32, 3, 2>(0)[(k / 2, k % 2)]);
        r
    })
}

/// Calls that pass through the hook while they run.
fn hosts() -> &'static Vec<Op> {
    static C: OnceLock<Vec<Op>> = OnceLock::new();
    C.get_or_init(|| {
        let mut r: Vec<Op> = vec![];
        macro_rules! host { ($name:literal, $e:expr) => { for key in [0usize, 1] { r.push(Op { fam: $name, name: format!("{}#{}", $name, key), run: Box::new(move || { let f: fn(usize) -> _ = $e; format!("{:?}", f(key)) }) }); } } }
        host!("init with a callback", |k| { let mut n = k; (Vector::<usize, 4>::init(|| { hook(); n += 1; n }), Matrix::<usize, 2, 2>::init(|| { hook(); n += 1; n })) });
        host!("map and zip", |k| v::<i32, 3>(k).zip(v::<i32, 3>(2)).map(|(a, b)| { hook(); a * b }));
        host!("matrix map", |k| m::<i32, 2, 3>(k).map(|a| { hook(); a * 2 }));
        host!("for_each", |k| { let mut l = vec![]; v::<i32, 3>(k).for_each(|x| { hook(); l.push(x) }); l });
        host!("fold and scan", |k| (v::<i32, 3>(k).fold(1, |a, x| { hook(); a * 3 + x }), v::<i32, 3>(k).fold_first(|a, x| { hook(); a * 3 + x }), v::<i32, 3>(k).scan(1, |a, x| { hook(); *a += x; *a })));
        host!("matrix scan", |k| m::<i32, 2, 2>(k).scan(1, |a, x| { hook(); *a += x; *a }));
        host!("from iterator", |k| Vector::<i32, 3>::try_from_iter(flat(4, k).into_iter().map(|x| { hook(); x })));
        host!("matrix from iterator", |k| Matrix::<i32, 2, 2>::try_from_iter(flat(5, k).into_iter().map(|x| { hook(); x })));
        host!("grouping", |k| GroupIter::<_, 2>::new(flat(5, k).into_iter().map(|x| { hook(); x })).map(|g| g.list()).collect::<Vec<_>>());
        host!("flattening", |k| FlatIter::new((0..3).map(|i| { hook(); flat(i + k, k) })).map(|x| x.collect::<Vec<_>>()));
        host!("consumption", |k| { let mut l = vec![]; for x in v::<i32, 3>(k) { hook(); l.push(x); } for x in &m::<i32, 2, 2>(k) { hook(); l.push(*x); } l });
        host!("arithmetic", |k| { let mut a = v::<H, 2>(k) + v::<H, 2>(2); a *= v::<H, 2>(1); -a });
        host!("matrix arithmetic", |k| (m::<H, 2, 2>(k) - m::<H, 2, 2>(2)) * h(3));
        host!("dot and sums", |k| (v::<H, 3>(k).dot(v(1)), v::<H, 3>(k).sum()));
        host!("outer", |k| v::<H, 2>(k).outer(v::<H, 2>(1)));
        host!("cross", |k| v::<H, 3>(k).cross(v(1)));
        host!("matrix product", |k| m::<H, 2, 2>(k).dot(m::<H, 2, 2>(1)));
        host!("matrix times vector", |k| (m::<H, 2, 2>(k).dot(v::<H, 2>(1)), v::<H, 2>(1).dot(m::<H, 2, 2>(k))));
        host!("determinant 2", |k| m::<H, 2, 2>(k).det());
        host!("determinant 3", |k| m::<H, 3, 3>(k).det());
        host!("cofactor", |k| m::<H, 3, 3>(k).cofactor(1, 2));
        host!("adjugate", |k| m::<H, 2, 2>(k).adj());
        host!("inverse", |k| m::<H, 2, 2>(k).inv());
        host!("identity", |k| (Matrix::<H, 2, 2>::one(), Matrix::diagonal(v::<H, 2>(k)), Vector::<H, 2>::zero(), Vector::<H, 2>::default()));
        host!("order", |k| (v::<H, 3>(k).min(), v::<H, 3>(k).max(), v::<H, 2>(k).vlt(v(1)), v::<H, 2>(k) == v(0), v::<H, 2>(4 * k).is_zero()));
        host!("complex", |k| (c::<H>(k) * c(2), c::<H>(k).norm_sqr()));
        host!("complex division", |k| c::<H>(k) / c(1));
        host!("quaternion", |k| q::<H>(k) * q(1));
        host!("quaternion inverse", |k| q::<H>(k).inv());
        host!("sequences", |k| ([v::<H, 2>(k), v(1), v(2)].iter().copied().sum::<Vector<H, 2>>(), [c::<H>(k), c(1)].iter().copied().product::<Complex<H>>()));
        host!("moebius", |k| Moebius::new(h(2), h(k as i64), h(3), h(5)).apply(h(7)));
        host!("moebius inverse", |k| Moebius::new(h(2), h(k as i64), h(3), h(5)).inv());
        host!("moebius over complex", |k| Transform::<Complex<H>>::deriv(&Moebius::new(c::<H>(0), c(k), c(1), c(2)), c(1), c(2)));
        host!("affine", |k| { let a: Affine<H, 2> = Chain::new(Shift::from(v::<H, 2>(k)), Linear::from(m::<H, 2, 2>(0))); a.apply(v(1)) });
        host!("affine chain", |k| { let a: Affine<H, 2> = Chain::new(Shift::from(v::<H, 2>(k)), Linear::from(m::<H, 2, 2>(0))); a.chain(a) });
        host!("affine inverse", |k| { let a: Affine<H, 2> = Chain::new(Shift::from(v::<H, 2>(k)), Linear::from(m::<H, 2, 2>(0))); Transform::<Vector<H, 2>>::inv(a) });
        host!("rotation", |k| Transform::<Vector<H, 3>>::apply(&Rotation3::from(q::<H>(k)), v(1)));
        host!("text", |k| format!("{} {} {} {}", v::<H, 2>(k), m::<H, 2, 2>(k), c::<H>(k), q::<H>(k)));
        host!("nearness", |k| { use approx::AbsDiffEq; (v::<H, 2>(k).abs_diff_eq(&v(0), h(3)), m::<H, 2, 2>(k).abs_diff_eq(&m(0), h(3))) });
        host!("normal samples", |k| { let mut w = Words(k as u64, 0); (w.sample::<f64, _>(Normal), w.sample::<Vector<f32, 2>, _>(Normal), w.1) });
        host!("unit samples", |k| { let mut w = Words(k as u64, 0); (w.sample::<Complex<f64>, _>(Unit), w.1) });
        host!("invertible samples", |k| { let mut w = Words(k as u64, 0); (w.sample::<Matrix<f64, 2, 2>, _>(Invertible), w.1) });
        host!("uniform rotations", |k| { let mut w = Words(k as u64, 0); (w.sample::<Rotation3<f64>, _>(Uniform), w.sample::<Rotation2<f64>, _>(Uniform), w.1) });
        host!("componentwise samples", |k| { let mut w = Words(k as u64, 0); (w.sample::<Matrix<f64, 2, 2>, _>(&MatrixDistribution::new(rand::distributions::Standard)), w.1) });
        r
    })
}
/// All calls: `0..calls` are plain, the rest pass through the hook.
fn call(i: usize) -> &'static Op {
    let n = calls().len();
    if i < n { &calls()[i] } else { &hosts()[i - n] }
}
fn total() -> usize {
    calls().len() + hosts().len()
}
fn points(h: &Op) -> usize {
    let n = std::rc::Rc::new(Cell::new(0));
    let m = n.clone();
    with_hook(Box::new(move || m.set(m.get() + 1)), || h.answer());
    n.get()
}

// ------------------------------------------------------------------ processes

/// What every call answers as the first call of a program.
fn first() -> &'static Vec<String> {
    static R: OnceLock<Vec<String>> = OnceLock::new();
    R.get_or_init(|| {
        let n = total();
        let next = std::sync::atomic::AtomicUsize::new(0);
        let out: Vec<Mutex<String>> = (0..n).map(|_| Mutex::new(String::new())).collect();
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= n {
                        break;
                    }
                    *out[i].lock().unwrap() = process(&["--first".into(), i.to_string()], "", || ()).unwrap_or_else(|e| e);
                });
            }
        });
        out.into_iter().map(|m| m.into_inner().unwrap()).collect()
    })
}
fn process(args: &[String], input: &str, alive: impl Fn()) -> Result<String, String> {
    let exe = std::env::current_exe().expect("exe");
    let mut p = Command::new(exe).args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn");
    let _ = p.stdin.take().unwrap().write_all(input.as_bytes());
    let mut nap = 1;
    while p.try_wait().expect("wait").is_none() {
        std::thread::sleep(std::time::Duration::from_millis(nap));
        nap = (nap * 2).min(20);
        alive();
    }
    let o = p.wait_with_output().expect("output");
    let t = String::from_utf8_lossy(&o.stdout).into_owned();
    if o.status.success() { Ok(t) } else { Err(format!("the program ends with {}: {}", o.status, t)) }
}
/// Runs the histories named by `args` in a process of their own: the last line is `ok <histories> <calls>` or `bad <message>`.
fn explore(ctx: &mut Ctx, what: String, args: &[String]) {
    let refs: Vec<String> = first().iter().map(|s| format!("{:016x}", hash_text(s))).collect();
    ctx.note(|| what.clone());
    let out = match process(args, &refs.join("\n"), || ctx.alive()) {
        Ok(s) => s,
        Err(e) => ctx.fail(format!("{what}: {e}")),
    };
    let last = out.lines().last().unwrap_or("");
    if let Some(b) = last.strip_prefix("bad ") {
        let (i, msg) = b.split_once(' ').unwrap();
        let i: usize = i.parse().unwrap();
        ctx.fail(format!("{msg}: as the first call of a program it gives {}", first()[i].chars().take(300).collect::<String>()));
    }
    let mut it = last.split(' ');
    if it.next() != Some("ok") {
        ctx.fail(format!("{what}: the program said {last:?}"));
    }
    let k: u64 = it.next().unwrap().parse().unwrap();
    let c: u64 = it.next().unwrap().parse().unwrap();
    for j in 0..k {
        ctx.state(&(&what, j));
    }
    ctx.ops(c);
}
fn hash_text(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325u64, |a, b| (a ^ b as u64).wrapping_mul(0x100_0000_01b3))
}
static BEAT: AtomicU64 = AtomicU64::new(0);
/// Ends the process when one of its calls does not return.
fn watch() {
    std::thread::spawn(|| {
        let (mut last, mut quiet) = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let b = BEAT.load(SeqCst);
            quiet = if b == last { quiet + 1 } else { 0 };
            last = b;
            if quiet > 30 {
                println!("a call does not return");
                std::process::exit(9);
            }
        }
    });
}
/// In the process: the recorded answers, and the comparison with them.
struct Judge {
    refs: Vec<u64>,
    calls: u64,
    histories: u64,
}
impl Judge {
    fn new() -> Judge {
        let mut s = String::new();
        std::io::stdin().read_to_string(&mut s).unwrap();
        Judge { refs: s.lines().map(|l| u64::from_str_radix(l, 16).unwrap()).collect(), calls: 0, histories: 0 }
    }
    fn check(&mut self, i: usize, got: &str, story: impl FnOnce() -> String) {
        self.calls += 1;
        BEAT.fetch_add(1, SeqCst);
        if hash_text(got) != self.refs[i] {
            println!("bad {i} {} gives {} {}", call(i).name, got.replace('\n', " ").chars().take(300).collect::<String>(), story());
            std::process::exit(0);
        }
    }
    fn done(self) {
        println!("ok {} {}", self.histories, self.calls);
        std::process::exit(0);
    }
}

// ------------------------------------------------------------------ the histories of one process

/// a b0 a b1 a b2 ...: every call directly before and directly after this one.
fn pairs(a: usize) {
    let mut j = Judge::new();
    for b in 0..total() {
        let x = call(a).answer();
        j.check(a, &x, || format!("after {}", call(if b == 0 { a } else { b - 1 }).name));
        let y = call(b).answer();
        j.check(b, &y, || format!("after {}", call(a).name));
        j.histories += 2;
    }
    j.done();
}
/// Every sequence of `depth` further calls of the same operation (with other operands, and with itself).
fn family(a: usize, depth: usize) {
    let mut j = Judge::new();
    let fam: Vec<usize> = (0..total()).filter(|&i| call(i).fam == call(a).fam).collect();
    let n = fam.len().pow(depth as u32);
    for s in 0..n {
        let x = call(a).answer();
        j.check(a, &x, || format!("in sequence {s}"));
        let mut t = s;
        let mut prev = vec![a];
        for _ in 0..depth {
            let b = fam[t % fam.len()];
            t /= fam.len();
            let y = call(b).answer();
            j.check(b, &y, || format!("after {}", prev.iter().map(|&i| call(i).name.clone()).collect::<Vec<_>>().join(", ")));
            prev.push(b);
        }
        j.histories += 1;
    }
    j.done();
}
/// Two calls of every operation.
fn some() -> Vec<usize> {
    (0..total()).filter(|&i| i < 2 || call(i).fam != call(i - 2).fam).collect()
}
/// Every two further calls, of any operation.
fn triples(a: usize) {
    let mut j = Judge::new();
    let s = some();
    for &b in &s {
        for &c in &s {
            for i in [a, b, c] {
                let x = call(i).answer();
                j.check(i, &x, || format!("in the history {}, {}, {}", call(a).name, call(b).name, call(c).name));
            }
            j.histories += 1;
        }
    }
    j.done();
}
/// The same call over and over.
fn repeat(a: usize, n: usize) {
    let mut j = Judge::new();
    for k in 0..n {
        let x = call(a).answer();
        j.check(a, &x, || format!("when called for the {}th time in a row", k + 1));
        j.histories += 1;
    }
    j.done();
}
/// Every other call inside each callback of this one.
fn nested(a: usize) {
    let mut j = Judge::new();
    let n = points(call(a));
    for b in 0..total() {
        for p in 0..n {
            let inner = std::rc::Rc::new(RefCell::new(String::new()));
            let (i2, k) = (inner.clone(), Cell::new(0));
            let x = with_hook(
                Box::new(move || {
                    if k.get() == p {
                        *i2.borrow_mut() = call(b).answer();
                    }
                    k.set(k.get() + 1);
                }),
                || call(a).answer(),
            );
            let y = inner.borrow().clone();
            j.check(b, &y, || format!("inside callback {p} of {}", call(a).name));
            j.check(a, &x, || format!("with {} inside its callback {p}", call(b).name));
            j.histories += 1;
        }
    }
    j.done();
}
/// Every call after this one was abandoned at each of its callbacks.
fn abandoned(a: usize) {
    let mut j = Judge::new();
    let n = points(call(a));
    for p in 0..n {
        for b in 0..total() {
            let k = Cell::new(0);
            let x = with_hook(
                Box::new(move || {
                    if k.get() == p {
                        std::panic::panic_any("abandon");
                    }
                    k.set(k.get() + 1);
                }),
                || call(a).answer(),
            );
            if x != "panic" {
                println!("bad {a} {} gives {x} although callback {p} panicked", call(a).name);
                std::process::exit(0);
            }
            let y = call(b).answer();
            j.check(b, &y, || format!("after {} was abandoned at callback {p}", call(a).name));
            j.histories += 1;
        }
        let x = call(a).answer();
        j.check(a, &x, || format!("after it was abandoned at callback {p}"));
    }
    j.done();
}

/// Two threads of which one runs at a time; where it may lose its turn is decided by `trail`.
struct Turn {
    running: usize,
    done: [bool; 2],
    left: usize,
    trail: Vec<(u8, u8)>,
    at: usize,
}
impl Turn {
    fn choose(&mut self, n: u8) -> u8 {
        if self.at == self.trail.len() {
            self.trail.push((0, n));
        }
        self.at += 1;
        self.trail[self.at - 1].0
    }
}
/// All interleavings of two calls at their callbacks with at most `bound` preemptions, either one first.
fn threads(a: usize, bound: usize) {
    let mut j = Judge::new();
    let base = calls().len();
    for b in base..total() {
        let mut trail: Vec<(u8, u8)> = vec![];
        loop {
            let t = Arc::new((Mutex::new(Turn { running: 0, done: [false; 2], left: bound, trail, at: 0 }), Condvar::new()));
            {
                let mut g = t.0.lock().unwrap();
                g.running = g.choose(2) as usize;
            }
            let out: Vec<String> = std::thread::scope(|s| {
                let hs: Vec<_> = [a, b]
                    .into_iter()
                    .enumerate()
                    .map(|(me, i)| {
                        let t = t.clone();
                        s.spawn(move || {
                            let wait = |t: &(Mutex<Turn>, Condvar)| {
                                let mut g = t.0.lock().unwrap();
                                while g.running != me {
                                    g = t.1.wait(g).unwrap();
                                }
                            };
                            wait(&t);
                            let u = t.clone();
                            let x = with_hook(
                                Box::new(move || {
                                    let mut g = u.0.lock().unwrap();
                                    if g.left > 0 && !g.done[1 - me] && g.choose(2) == 1 {
                                        g.left -= 1;
                                        g.running = 1 - me;
                                        u.1.notify_all();
                                        while g.running != me {
                                            g = u.1.wait(g).unwrap();
                                        }
                                    }
                                }),
                                || call(i).answer(),
                            );
                            let mut g = t.0.lock().unwrap();
                            g.done[me] = true;
                            g.running = 1 - me;
                            t.1.notify_all();
                            x
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            j.histories += 1;
            trail = std::mem::take(&mut t.0.lock().unwrap().trail);
            let story = |o: usize| format!("while another thread is inside {} (turns lost at {:?})", call(o).name, trail.iter().enumerate().filter(|(_, c)| c.0 > 0).map(|(i, _)| i).collect::<Vec<_>>());
            j.check(a, &out[0], || story(b));
            j.check(b, &out[1], || story(a));
            while trail.last().is_some_and(|c| c.0 + 1 >= c.1) {
                trail.pop();
            }
            match trail.last_mut() {
                Some(c) => c.0 += 1,
                None => break,
            }
        }
    }
    j.done();
}

// ------------------------------------------------------------------ values may move to and be shared with other threads

fn movable<T: Send + Sync>() {}
fn shareable() {
    fn both<T: Send + Sync + Copy>() {
        movable::<Vector<T, 3>>();
        movable::<Matrix<T, 2, 3>>();
        movable::<Complex<T>>();
        movable::<Quaternion<T>>();
        movable::<Moebius<T>>();
        movable::<Shift<T, 3>>();
        movable::<Scale<T>>();
        movable::<Linear<T, 3>>();
        movable::<Affine<T, 3>>();
        movable::<Rotation2<T>>();
        movable::<Rotation3<T>>();
        movable::<Chain<Scale<T>, Rotation3<T>, Vector<T, 3>>>();
        movable::<<Vector<T, 3> as IntoIterator>::IntoIter>();
        movable::<GroupIter<std::vec::IntoIter<T>, 3>>();
        movable::<FlatIter<std::vec::IntoIter<Vec<T>>, Vec<T>, std::vec::IntoIter<T>>>();
        movable::<VectorDistribution<rand::distributions::Standard, f64, 3>>();
        movable::<MatrixDistribution<rand::distributions::Standard, f64, 2, 2>>();
    }
    both::<f64>();
    both::<i8>();
    movable::<(Normal, NonZero, Unit, Uniform, Invertible)>();
}

/// Whether a type may move to, or be shared with, other threads.
struct Probe<T>(std::marker::PhantomData<T>);
trait May {
    const MAY: bool = false;
}
struct ToSend<T>(T);
struct ToShare<T>(T);
impl<T> May for Probe<ToSend<T>> {}
impl<T> May for Probe<ToShare<T>> {}
impl<T: Send> Probe<ToSend<T>> {
    const MAY: bool = true;
}
impl<T: Sync> Probe<ToShare<T>> {
    const MAY: bool = true;
}
/// Containers of elements that must stay in their thread (`Rc`), may move but not be shared (`Cell`), or be shared but
/// not move (the guard of a lock).
fn bound() -> Vec<(&'static str, bool, bool)> {
    let mut l = vec![];
    macro_rules! probe { ($send:literal $sync:literal $e:ty: $($t:ty),*) => { $(
        l.push((concat!(stringify!($t), " moves, elements ", stringify!($e)), Probe::<ToSend<$t>>::MAY, $send));
        l.push((concat!(stringify!($t), " is shared, elements ", stringify!($e)), Probe::<ToShare<$t>>::MAY, $sync));
    )* } }
    macro_rules! all { ($($send:literal $sync:literal $n:ident $t:ty;)*) => { $( {
        type $n = $t;
        probe!($send $sync $t: Vector<$n, 3>, Vector<$n, 1>, Matrix<$n, 2, 3>, Complex<$n>, Quaternion<$n>, Moebius<$n>, Shift<$n, 2>, Scale<$n>, Linear<$n, 2>, Rotation2<$n>, Rotation3<$n>, <Vector<$n, 3> as IntoIterator>::IntoIter, GroupIter<std::vec::IntoIter<$n>, 3>);
    } )* } }
    all! {
        false false R std::rc::Rc<i32>;
        true false C Cell<i32>;
        false true G std::sync::MutexGuard<'static, i32>;
        false false P *const f64;
        true true A std::sync::atomic::AtomicI32;
        true true S String;
    }
    l
}

fn build(r: &mut Reg) {
    shareable();
    r.add("moving and sharing", |ctx| {
        let l = bound();
        let &(what, is, must) = ctx.pick(&l);
        ctx.ops(1);
        ensure!(ctx, is == must, "{what}: {is}, must be {must}");
    });
    let thorough = r.thorough();
    let (n, base) = (total(), calls().len());
    r.add("alone", move |ctx| {
        let a = ctx.choose(n);
        ctx.ops(1);
        ensure!(ctx, !first()[a].starts_with("the program ends with"), "{}: {}", call(a).name, first()[a]);
    });
    r.add("pairs", move |ctx| {
        let a = ctx.choose(n);
        explore(ctx, format!("every call before and after {}", call(a).name), &["--pairs".into(), a.to_string()]);
    });
    r.add("family", move |ctx| {
        let a = ctx.choose(n);
        let d = if thorough { 5 } else { 3 };
        explore(ctx, format!("sequences of {d} more calls like {}", call(a).name), &["--family".into(), a.to_string(), d.to_string()]);
    });
    r.add("repeat", move |ctx| {
        let a = ctx.choose(n);
        // one build of the two goes far enough to wrap a counter of 16 bits
        let d = match (thorough, cfg!(debug_assertions)) {
            (true, _) => 200_000,
            (false, false) => 70_000,
            (false, true) => 5_000,
        };
        explore(ctx, format!("{} called {d} times in a row", call(a).name), &["--repeat".into(), a.to_string(), d.to_string()]);
    });
    r.add("nested", move |ctx| {
        let a = base + ctx.choose(n - base);
        explore(ctx, format!("every call inside the callbacks of {}", call(a).name), &["--nested".into(), a.to_string()]);
    });
    r.add("abandoned", move |ctx| {
        let a = base + ctx.choose(n - base);
        explore(ctx, format!("every call after {} was abandoned", call(a).name), &["--abandoned".into(), a.to_string()]);
    });
    r.add("threads", move |ctx| {
        let a = base + ctx.choose(n - base);
        let d = if thorough { 2 } else { 1 };
        explore(ctx, format!("{} and every other such call in two threads, up to {d} preemptions", call(a).name), &["--threads".into(), a.to_string(), d.to_string()]);
    });
    if thorough {
        r.add("triples", move |ctx| {
            let s = some();
            let a = *ctx.pick(&s);
            explore(ctx, format!("every two calls after {}", call(a).name), &["--triples".into(), a.to_string()]);
        });
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().is_some_and(|a| a.starts_with("--") && a != "--replay" && a != "--list" && a != "--filter") {
        std::panic::set_hook(Box::new(|_| ()));
        watch();
        let num = |k: usize| args[k].parse::<usize>().unwrap();
        match args[0].as_str() {
            "--first" => print!("{}", call(num(1)).answer()),
            "--pairs" => pairs(num(1)),
            "--family" => family(num(1), num(2)),
            "--triples" => triples(num(1)),
            "--repeat" => repeat(num(1), num(2)),
            "--nested" => nested(num(1)),
            "--abandoned" => abandoned(num(1)),
            "--threads" => threads(num(1), num(2)),
            x => panic!("{x}"),
        }
        return;
    }
    mc::main(Check {
        prop: "C24",
        level: "model_checking",
        rule: "calls of every part of the library with operands that agree in part: every ordered pair of calls, every short sequence of calls of one operation, long repetitions, every call inside every callback of every call that has some (callbacks, iterators, generators, operations of the elements), every call after one abandoned there by a panic, and all interleavings of two threads at these points up to a preemption bound; each history runs in a process of its own and every answer is compared with that of the same call as the first one of a program",
        assumptions: &["threads change turns only where the library calls out; the library itself uses no synchronization that could be preempted elsewhere"],
        build,
    });
}
