//! C06: comparisons, any/all, min/max, zero test and equality.
use mc::cont::Cont;
use mc::scalars::{Subset, F5};
use mc::*;
use num_traits::Zero;
use std::fmt::Debug;
use vecmat::transform::{Affine, Chain, Linear, Rotation2, Rotation3, Scale, Shift};
use vecmat::{complex::Moebius, Complex, Matrix, Quaternion, Vector};

trait Val: Copy + PartialOrd + Debug + 'static {
    /// A small complete alphabet.
    fn all() -> Vec<Self>;
    /// Identity, finer than equality.
    fn ident(&self) -> String {
        format!("{:?}", self)
    }
}
impl Val for Subset {
    fn all() -> Vec<Self> {
        (0..4).map(Subset).collect()
    }
}
/// The partial order with eight elements.
#[derive(Clone, Copy, PartialEq, PartialOrd, Debug)]
struct Cube(Subset);
impl Val for Cube {
    fn all() -> Vec<Self> {
        (0..8).map(|k| Cube(Subset(k))).collect()
    }
}
impl Val for f64 {
    fn all() -> Vec<Self> {
        vec![1.0, f64::NAN, -1.0, 0.0, -0.0, f64::INFINITY]
    }
}
impl Val for f32 {
    fn all() -> Vec<Self> {
        vec![f32::NAN, 0.0, -0.0, 1.0, f32::NEG_INFINITY]
    }
}
impl Val for i32 {
    fn all() -> Vec<Self> {
        vec![0, -1, 1, i32::MIN, i32::MAX]
    }
}
impl Val for u8 {
    fn all() -> Vec<Self> {
        vec![0, 1, 255]
    }
}
impl Val for i8 {
    fn all() -> Vec<Self> {
        (i8::MIN..=i8::MAX).collect()
    }
}
impl Val for bool {
    fn all() -> Vec<Self> {
        vec![false, true]
    }
}
/// The inherent comparison methods of both containers.
trait Cmp<T>: Copy + PartialEq {
    fn cmps(self, o: Self) -> [Vec<bool>; 6];
    fn lo(self) -> T;
    fn hi(self) -> T;
}
impl<T: Copy + PartialOrd, const N: usize> Cmp<T> for Vector<T, N> {
    fn cmps(self, o: Self) -> [Vec<bool>; 6] {
        [self.veq(o).list(), self.vne(o).list(), self.vlt(o).list(), self.vle(o).list(), self.vgt(o).list(), self.vge(o).list()]
    }
    fn lo(self) -> T {
        self.min()
    }
    fn hi(self) -> T {
        self.max()
    }
}
impl<T: Copy + PartialOrd, const M: usize, const N: usize> Cmp<T> for Matrix<T, M, N> {
    fn cmps(self, o: Self) -> [Vec<bool>; 6] {
        [self.veq(o).list(), self.vne(o).list(), self.vlt(o).list(), self.vle(o).list(), self.vgt(o).list(), self.vge(o).list()]
    }
    fn lo(self) -> T {
        self.min()
    }
    fn hi(self) -> T {
        self.max()
    }
}

/// All complete tuples while few, otherwise every one or two distinguished positions over a constant background.
fn tuple<T: Val>(ctx: &mut Ctx, n: usize, limit: usize) -> Vec<T> {
    let all = T::all();
    let mut size = 1usize;
    for _ in 0..n {
        size = size.saturating_mul(all.len());
    }
    if size <= limit {
        return (0..n).map(|_| *ctx.pick(&all)).collect();
    }
    let mut x = vec![*ctx.pick(&all); n];
    let p = ctx.choose(n);
    x[p] = *ctx.pick(&all);
    if all.len() <= 16 && n <= 40 {
        let q = ctx.choose(n);
        if q > p {
            x[q] = *ctx.pick(&all);
        }
    }
    x
}

fn compare<T: Val, C: Cont<T> + Cmp<T>>(ctx: &mut Ctx) {
    let lim = if ctx.thorough() { 2000 } else { 700 };
    let x = if C::LEN <= 40 { tuple::<T>(ctx, C::LEN, lim) } else { vec![*ctx.pick(&T::all()); C::LEN] };
    // second operand: a tuple of its own while small, else the first one changed at one position
    let y = if T::all().len().pow(C::LEN.min(8) as u32) <= lim {
        tuple::<T>(ctx, C::LEN, lim)
    } else {
        let mut y = x.clone();
        if C::LEN > 0 {
            let p = ctx.choose(C::LEN);
            y[p] = *ctx.pick(&T::all());
        }
        y
    };
    ctx.note(|| format!("{:?} and {:?}", x, y));
    let (c, d) = (C::of(&x), C::of(&y));
    let got = c.cmps(d);
    let f: [fn(&T, &T) -> bool; 6] =
        [|a, b| a == b, |a, b| a != b, |a, b| a < b, |a, b| a <= b, |a, b| a > b, |a, b| a >= b];
    for (k, n) in ["veq", "vne", "vlt", "vle", "vgt", "vge"].iter().enumerate() {
        let want: Vec<bool> = x.iter().zip(&y).map(|(a, b)| f[k](a, b)).collect();
        ensure!(ctx, got[k] == want, "{} of {:?} and {:?}: got {:?}, expected {:?}", n, x, y, got[k], want);
        ctx.state(&(k, &want));
    }
    let eq = x.iter().zip(&y).all(|(a, b)| a == b);
    ensure!(ctx, (c == d) == eq, "== of {:?} and {:?}: got {}", x, y, c == d);
    ensure!(ctx, (c != d) == !eq, "!= of {:?} and {:?}: got {}", x, y, c != d);
    let own = x.iter().all(|a| a == a);
    #[allow(clippy::eq_op)]
    {
        ensure!(ctx, (c == c) == own && (c != c) != own, "== and != of {:?} and itself: got {} and {}", x, c == c, c != c);
    }
    ctx.ops(10);
}
fn extremes<T: Val, C: Cont<T> + Cmp<T>>(ctx: &mut Ctx) {
    let x = tuple::<T>(ctx, C::LEN, if ctx.thorough() { 300_000 } else { 50_000 });
    ctx.note(|| format!("{:?}", x));
    let c = C::of(&x);
    let (lo, hi) = (c.lo(), c.hi());
    ctx.ops(2);
    ensure!(ctx, x.iter().any(|a| a.ident() == lo.ident()), "min of {:?} is {:?}, no element of it", x, lo);
    ensure!(ctx, x.iter().any(|a| a.ident() == hi.ident()), "max of {:?} is {:?}, no element of it", x, hi);
    for a in &x {
        ensure!(ctx, !(*a < lo), "min of {:?} is {:?}, but {:?} is smaller", x, lo, a);
        ensure!(ctx, !(*a > hi), "max of {:?} is {:?}, but {:?} is greater", x, hi, a);
    }
    ctx.state(&(lo.ident(), hi.ident(), format!("{:?}", x)));
}

trait AnyAll {
    fn some(self) -> bool;
    fn every(self) -> bool;
}
impl<const N: usize> AnyAll for Vector<bool, N> {
    fn some(self) -> bool {
        self.any()
    }
    fn every(self) -> bool {
        self.all()
    }
}
impl<const M: usize, const N: usize> AnyAll for Matrix<bool, M, N> {
    fn some(self) -> bool {
        self.any()
    }
    fn every(self) -> bool {
        self.all()
    }
}
fn any_all<T: Copy, C: Cont<bool> + AnyAll>(ctx: &mut Ctx) {
    let _: Option<T> = None;
    let x = tuple::<bool>(ctx, C::LEN, 1 << 14);
    let c = C::of(&x);
    same!(ctx, c.some(), x.iter().any(|b| *b), "any of {:?}", x);
    same!(ctx, c.every(), x.iter().all(|b| *b), "all of {:?}", x);
    ctx.ops(2);
    ctx.state(&x);
}
fn zero_test<T: Val + Zero, C: Cont<T> + Zero>(ctx: &mut Ctx) {
    let x = tuple::<T>(ctx, C::LEN, 5000);
    let c = C::of(&x);
    same!(ctx, c.is_zero(), x.iter().all(|a| a.is_zero()), "is_zero of {:?}", x);
    ctx.ops(1);
    ctx.state(&format!("{:?}", x));
    ensure!(ctx, C::zero().is_zero(), "zero() is not zero");
}
/// Elements that are containers or complex numbers themselves.
fn nested(ctx: &mut Ctx) {
    let k = [0, 1, -1];
    let x: Vec<Complex<i32>> = (0..2).map(|_| Complex::new(*ctx.pick(&k), *ctx.pick(&k))).collect();
    let y: Vec<Complex<i32>> = (0..2).map(|_| Complex::new(*ctx.pick(&k), *ctx.pick(&k))).collect();
    let (c, d) = (Vector::<_, 2>::of(&x), Vector::<_, 2>::of(&y));
    let eq: Vec<bool> = x.iter().zip(&y).map(|(a, b)| a.re() == b.re() && a.im() == b.im()).collect();
    same!(ctx, c.veq(d).list(), eq, "veq of complex elements");
    same!(ctx, c.vne(d).list(), eq.iter().map(|b| !b).collect::<Vec<_>>(), "vne of complex elements");
    same!(ctx, c == d, eq == [true, true], "equality of vectors of complex numbers");
    same!(ctx, c.is_zero(), x.iter().all(|a| a.re() == 0 && a.im() == 0), "is_zero of complex elements {:?}", x);
    let m = Matrix::<_, 1, 2>::of(&x);
    same!(ctx, m.is_zero(), c.is_zero(), "is_zero of a matrix of complex elements");
    let vv = Vector::<Vector<i32, 2>, 2>::from_array([Vector::from([x[0].re(), x[0].im()]), Vector::from([x[1].re(), x[1].im()])]);
    same!(ctx, vv.is_zero(), c.is_zero(), "is_zero of a vector of vectors");
    ctx.ops(6);
    ctx.state(&(format!("{:?}{:?}", x, y)));
}

/// Equality of numbers and transformations: that of their components, also as elements of a container and in pairs.
fn parts<T: Val, X: Copy + PartialEq>(ctx: &mut Ctx, n: usize, make: fn(&[T]) -> X) {
    let all = T::all();
    let x = if n <= 4 {
        tuple::<T>(ctx, n, 300)
    } else {
        let mut x = vec![*ctx.pick(&all); n];
        let p = ctx.choose(n);
        x[p] = *ctx.pick(&all);
        x
    };
    let mut y = x.clone();
    for _ in 0..if n <= 4 { 2 } else { 1 } {
        let p = ctx.choose(n);
        y[p] = *ctx.pick(&all);
    }
    ctx.note(|| format!("{:?} and {:?}", x, y));
    let (c, d) = (make(&x), make(&y));
    let eq = x.iter().zip(&y).all(|(a, b)| a == b);
    ensure!(ctx, (c == d) == eq, "== of {:?} and {:?}: got {}", x, y, c == d);
    ensure!(ctx, (c != d) == !eq, "!= of {:?} and {:?}: got {}", x, y, c != d);
    let own = x.iter().all(|a| a == a);
    let z = c;
    ensure!(ctx, (c == z) == own, "== of {:?} and its copy: got {}", x, c == z);
    #[allow(clippy::eq_op)]
    {
        ensure!(ctx, (c == c) == own && (c != c) != own, "== and != of {:?} and itself: got {} and {}", x, c == c, c != c);
    }
    ensure!(ctx, (Vector::from([c, c]) == Vector::from([z, d])) == (own && eq), "== of vectors with {:?} and {:?} in them", x, y);
    ctx.ops(4);
    ctx.state(&format!("{:?}{:?}", x, y));
}

impl Val for F5 {
    fn all() -> Vec<Self> {
        F5::all()
    }
}

fn build(r: &mut Reg) {
    each_c!(r, "compare", compare<Subset>, [V 1, V 2, V 3, V 4, V 5, V 6, V 8, V 17, M 1 1, M 1 2, M 2 1, M 2 2, M 2 3, M 3 2, M 3 3, M 4 4, M 5 3]);
    each_c!(r, "compare", compare<f64>, [V 0, V 1, V 2, V 3, V 4, V 5, V 7, V 8, V 9, V 16, V 17, V 33, M 0 2, M 2 0, M 1 1, M 1 3, M 3 1, M 2 2, M 2 3, M 3 4, M 4 4]);
    each_c!(r, "compare", compare<f32>, [V 1, V 2, V 3, V 4, M 2 2]);
    each_c!(r, "compare", compare<i32>, [V 1, V 2, V 3, V 4, V 8, V 65, V 129, M 2 2, M 3 3, M 5 5, M 9 8, M 11 17]);
    each_c!(r, "compare", compare<u8>, [V 1, V 2, V 3, V 4, V 16, M 2 2, M 2 3]);
    each_c!(r, "compare", compare<i8>, [V 1, V 2, M 1 1]);
    each_c!(r, "compare", compare<Cube>, [V 1, V 2, V 3, V 8, M 1 1, M 1 2, M 2 1, M 2 2, M 3 2]);
    each_c!(r, "extremes", extremes<Subset>, [V 1, V 2, V 3, V 4, V 5, V 6, V 7, V 8, V 16, V 17, V 33, M 1 1, M 1 2, M 2 1, M 2 2, M 2 3, M 3 2, M 3 3, M 3 4, M 4 3, M 4 4, M 1 5, M 5 1]);
    each_c!(r, "extremes", extremes<Cube>, [V 1, V 2, V 3, V 4, V 5, V 9, M 2 2, M 1 3, M 3 1, M 2 3, M 4 4]);
    each_c!(r, "extremes", extremes<f64>, [V 1, V 2, V 3, V 4, V 5, V 6, V 8, V 17, M 1 1, M 2 2, M 2 3, M 3 2, M 3 3, M 4 4]);
    each_c!(r, "extremes", extremes<f32>, [V 1, V 2, V 3, V 4, M 2 2]);
    each_c!(r, "extremes", extremes<i32>, [V 1, V 2, V 3, V 4, V 5, V 6, V 8, V 65, V 129, M 2 2, M 2 3, M 3 3, M 5 5, M 9 8, M 11 17]);
    each_c!(r, "extremes", extremes<i8>, [V 1, V 2, V 3]);
    each_c!(r, "extremes", extremes<u8>, [V 1, V 2, V 3, V 7, M 2 4]);
    each_c!(r, "any-all", any_all<bool>, [V 0, V 1, V 2, V 3, V 4, V 5, V 6, V 7, V 8, V 9, V 12, V 16, V 17, V 33, V 65, V 129, M 0 2, M 2 0, M 1 1, M 1 2, M 2 1, M 2 2, M 2 3, M 3 2, M 3 3, M 3 4, M 4 4, M 5 5, M 1 9, M 9 1, M 9 8, M 11 17]);
    each_c!(r, "zero-test", zero_test<f64>, [V 0, V 1, V 2, V 3, V 4, V 8, V 17, M 1 1, M 2 2, M 2 3, M 3 2, M 4 4, M 0 2, M 2 0]);
    each_c!(r, "zero-test", zero_test<f32>, [V 2, M 2 2]);
    each_c!(r, "zero-test", zero_test<i32>, [V 1, V 2, V 3, V 4, V 8, V 17, V 33, V 65, M 5 5, M 9 8, M 11 17, M 1 1, M 2 2, M 2 3, M 3 2, M 3 3, M 4 4]);
    each_c!(r, "zero-test", zero_test<u8>, [V 3, M 2 2]);
    each_c!(r, "zero-test", zero_test<F5>, [V 3, M 2 2]);
    r.add("nested", nested);
    macro_rules! p { ($t:ty, $n:literal, $name:literal, $f:expr) => { r.add(format!("parts<{}>/{}", stringify!($t), $name), |c: &mut Ctx| parts::<$t, _>(c, $n, $f)); } }
    macro_rules! all { ($t:ty) => {
        p!($t, 2, "complex", |l| Complex::new(l[0], l[1]));
        p!($t, 4, "quaternion", |l| Quaternion::new(l[0], l[1], l[2], l[3]));
        p!($t, 4, "moebius", |l| Moebius::new(l[0], l[1], l[2], l[3]));
        p!($t, 8, "moebius of complex", |l| Moebius::new(Complex::new(l[0], l[1]), Complex::new(l[2], l[3]), Complex::new(l[4], l[5]), Complex::new(l[6], l[7])));
        p!($t, 1, "shift 1", |l| Shift::from_vector(Vector::<$t, 1>::of(l)));
        p!($t, 3, "shift 3", |l| Shift::from_vector(Vector::<$t, 3>::of(l)));
        p!($t, 9, "shift 9", |l| Shift::from_vector(Vector::<$t, 9>::of(l)));
        p!($t, 1, "scale", |l| Scale::from_mag(l[0]));
        p!($t, 4, "linear 2", |l| Linear::from_matrix(Matrix::<$t, 2, 2>::of(l)));
        p!($t, 9, "linear 3", |l| Linear::from_matrix(Matrix::<$t, 3, 3>::of(l)));
        p!($t, 16, "linear 4", |l| Linear::from_matrix(Matrix::<$t, 4, 4>::of(l)));
        p!($t, 2, "rotation 2", |l| Rotation2::from_complex(Complex::new(l[0], l[1])));
        p!($t, 4, "rotation 3", |l| Rotation3::from_quaternion(Quaternion::new(l[0], l[1], l[2], l[3])));
        p!($t, 6, "affine 2", |l| -> Affine<$t, 2> { Chain::new(Shift::from_vector(Vector::of(&l[..2])), Linear::from_matrix(Matrix::of(&l[2..]))) });
        p!($t, 12, "affine 3", |l| -> Affine<$t, 3> { Chain::new(Shift::from_vector(Vector::of(&l[..3])), Linear::from_matrix(Matrix::of(&l[3..]))) });
        p!($t, 3, "scale after shift", |l| -> Chain<Scale<$t>, Shift<$t, 2>, Vector<$t, 2>> { Chain::new(Scale::from_mag(l[0]), Shift::from_vector(Vector::of(&l[1..]))) });
    } }
    all!(f64);
    all!(f32);
    all!(i32);
    all!(Subset);
}

fn main() {
    mc::main(Check {
        prop: "C06",
        level: "model_checking",
        rule: "every execution = one operand tuple (complete tuples while few enough, else every one or two \
               distinguished positions over every constant background) through all comparisons or extremes; a state \
               is a distinct operand tuple or answer, a transition one answer compared with the elements' own",
        assumptions: &["the element type's own comparisons are the oracle"],
        build,
    });
}
