//! C18: norms, lengths and normalization equal their definitions.
use mc::cont::Cont;
use mc::floats::Fl;
use mc::scalars::{F5, F7};
use mc::*;
use num_traits::{Num, NumCast};
use std::fmt::Debug;
use vecmat::prelude::{NormL1, NormL2, NormLInf, Normalize};
use vecmat::traits::Epsilon;
use vecmat::{Complex, Quaternion, Vector};

/// Primitive scalars: every value given, against the definition in wide integers.
macro_rules! int {
    ($r:expr, $($t:ident)*) => { $( {
        $r.add(format!("scalar {}", stringify!($t)), |ctx: &mut Ctx| {
            let bits = $t::BITS;
            let part = if bits <= 16 { ctx.choose(1 << (bits - 8)) as i128 } else { 0 };
            let all: Vec<$t> = if bits <= 16 {
                (0..256).map(|i| (part * 256 + i) as $t).collect()
            } else {
                let mut v = vec![$t::MIN, $t::MAX, 0];
                for k in 0..bits {
                    for d in [-2i128, -1, 0, 1, 2, 77] {
                        v.push(((1i128 << k) + d) as $t);
                        v.push((-(1i128 << k) + d) as $t);
                    }
                }
                v
            };
            ctx.note(|| format!("block {part}"));
            for x in all {
                let w = (x as i128).abs();
                ctx.state(&x);
                if w <= $t::MAX as i128 {
                    ctx.ops(3);
                    same!(ctx, x.norm_l1() as i128, w, "L1 norm of {x}");
                    same!(ctx, x.norm_l2() as i128, w, "L2 norm of {x}");
                    same!(ctx, x.norm_l_inf() as i128, w, "L-infinity norm of {x}");
                }
                if let Some(s) = w.checked_mul(w).filter(|s| *s <= $t::MAX as i128) {
                    ctx.ops(1);
                    same!(ctx, x.norm_l2_sqr() as i128, s, "squared L2 norm of {x}");
                }
            }
        });
    } )* }
}
macro_rules! float_scalar {
    ($r:expr, $t:ident, $u:ident, $sh:expr) => {
        $r.add(format!("scalar {}", stringify!($t)), |ctx: &mut Ctx| {
            // all sign and exponent patterns with all high mantissa bits, ends and ones of the rest (thorough: all f32)
            let full = ctx.thorough() && $u::BITS == 32;
            let hi = ctx.choose(1 << 12) as $u;
            let rest = $u::BITS - 12;
            let mut go = |low: $u| {
                let x = $t::from_bits((hi << rest) | low);
                let a = $t::from_bits(x.to_bits() & ($u::MAX >> 1));
                let ok = |g: $t, w: $t| g.to_bits() == w.to_bits() || g.is_nan() && w.is_nan();
                ensure!(ctx, ok(x.norm_l1(), a), "L1 norm of {x:?}");
                ensure!(ctx, ok(x.norm_l2(), a), "L2 norm of {x:?}");
                ensure!(ctx, ok(x.norm_l_inf(), a), "L-infinity norm of {x:?}");
                ensure!(ctx, ok(x.norm_l2_sqr(), x * x), "squared L2 norm of {x:?}");
                let e = a <= $t::EPSILON;
                ensure!(ctx, x.is_epsilon() == e, "{x:?} taken for {} epsilon", if e { "more than" } else { "within" });
            };
            if full {
                for low in 0..(1 << $sh) as $u { go(low); }
                ctx.ops(5 << 20);
            } else {
                for k in 0..rest.min(256) { go(1 << k); go((1 << k) - 1); go(($u::MAX >> 12) - (1 << k)); go(($u::MAX >> 12) >> k); }
                for k in 0..256 { go(k); go(k << (rest - 8)); }
                ctx.ops(5 * (rest as u64 * 4 + 512));
            }
            ctx.state(&hi);
        });
        $r.add(format!("scalar {} near epsilon", stringify!($t)), |ctx: &mut Ctx| {
            let l = [0.0, -0.0, $t::MIN_POSITIVE, $t::from_bits(1), $t::EPSILON, $t::EPSILON.next_up(), $t::EPSILON.next_down(), $t::EPSILON * 2.0, $t::EPSILON * 0.5, 1.0, $t::INFINITY, $t::NAN, $t::MAX];
            let x = *ctx.pick(&l) * if ctx.flag() { -1.0 } else { 1.0 };
            ctx.note(|| format!("{x:?}"));
            ctx.ops(1);
            ctx.state(&x.to_bits());
            same!(ctx, x.is_epsilon(), x.abs() <= $t::EPSILON, "{x:?} within epsilon");
        });
    };
}

/// A list of `n` elements: all tuples when short, otherwise one or two distinguished positions.
fn list<T: Copy>(ctx: &mut Ctx, n: usize, g: &[T]) -> Vec<T> {
    let full = g.len().checked_pow(n as u32).is_some_and(|k| k <= if ctx.thorough() { 600_000 } else { 40_000 });
    if full {
        return (0..n).map(|_| *ctx.pick(g)).collect();
    }
    let mut l = vec![*ctx.pick(&g[..2]); n];
    let i = ctx.choose(n);
    let j = ctx.choose(n - i) + i;
    l[i] = *ctx.pick(g);
    l[j] = *ctx.pick(g);
    l
}
fn note<T: Debug>(ctx: &mut Ctx, l: &[T]) {
    ctx.note(|| format!("{l:?}"));
}
trait Int: Num + Copy + Debug + PartialOrd + NumCast + NormL1<Output = Self> + NormLInf<Output = Self> + std::hash::Hash + 'static {
    fn set() -> Vec<Self>;
}
impl Int for i32 {
    fn set() -> Vec<i32> {
        vec![0, 1, -1, 2, -7, 100]
    }
}
impl Int for i8 {
    fn set() -> Vec<i8> {
        vec![0, 1, -1, 3, -5]
    }
}
impl Int for i64 {
    fn set() -> Vec<i64> {
        vec![1, 0, -2, 3_000_000_000, -4_000_000_000]
    }
}
impl Int for u8 {
    fn set() -> Vec<u8> {
        vec![0, 1, 2, 7]
    }
}
fn ints<T: Int, C: Cont<T> + NormL1<Output = T> + NormLInf<Output = T>>(ctx: &mut Ctx) {
    let l = list(ctx, C::LEN, &T::set());
    note(ctx, &l);
    ctx.state(&l);
    ctx.ops(2);
    let c = C::of(&l);
    let w: Vec<i128> = l.iter().map(|x| <i128 as NumCast>::from(*x).unwrap().abs()).collect();
    let s: i128 = w.iter().sum();
    same!(ctx, <i128 as NumCast>::from(c.norm_l1()).unwrap(), s, "L1 norm");
    if C::LEN > 0 {
        same!(ctx, <i128 as NumCast>::from(c.norm_l_inf()).unwrap(), *w.iter().max().unwrap(), "L-infinity norm");
    }
}
/// Sums of squares over exact scalars.
fn squares<T: Num + Copy + Debug + std::hash::Hash + 'static, const N: usize>(ctx: &mut Ctx, set: Vec<T>) {
    let l = list(ctx, N, &set);
    note(ctx, &l);
    ctx.state(&l);
    ctx.ops(1);
    let w = l.iter().fold(T::zero(), |s, x| s + *x * *x);
    let v = <Vector<T, N> as Cont<T>>::of(&l);
    same!(ctx, v.square_length(), w, "square length");
    if N == 2 {
        same!(ctx, Complex::new(l[0], l[1]).norm_sqr(), w, "squared norm of the complex number");
    }
    if N == 4 {
        same!(ctx, Quaternion::from_array([l[0], l[1], l[2], l[3]]).norm_sqr(), w, "squared norm of the quaternion");
    }
}

fn set<T: Fl>() -> Vec<T> {
    [0.0, 1.0, -1.0, 3.0, -0.25, -0.0, 4.0, 1e-3].map(T::lit).to_vec()
}
/// Equal within a few roundings.
fn near<T: Fl>(a: T, b: f64, n: usize) -> bool {
    let a = a.f();
    if !b.is_finite() {
        return a == b;
    }
    (a - b).abs() <= (4.0 + n as f64) * T::EPS.f() * b.abs()
}
struct Wanted {
    l1: f64,
    sqr: f64,
    l2: f64,
    inf: f64,
}
fn wanted<T: Fl>(l: &[T]) -> Wanted {
    let m = l.iter().map(|x| x.f().abs());
    let sqr: f64 = m.clone().map(|x| x * x).sum();
    Wanted { l1: m.clone().sum(), sqr, l2: sqr.sqrt(), inf: m.fold(0.0, f64::max) }
}
fn floats<T: Fl, C: Cont<T> + NormL1<Output = T> + NormL2<Output = T> + NormLInf<Output = T>>(ctx: &mut Ctx, g: &[T]) {
    let l = list(ctx, C::LEN, g);
    note(ctx, &l);
    ctx.state(&l.iter().map(|x| x.bits()).collect::<Vec<_>>());
    ctx.ops(4);
    let (c, w, n) = (C::of(&l), wanted(&l), C::LEN);
    ensure!(ctx, near(c.norm_l1(), w.l1, n), "L1 norm {:?}, not {}", c.norm_l1(), w.l1);
    ensure!(ctx, near(c.norm_l2_sqr(), w.sqr, n), "squared L2 norm {:?}, not {}", c.norm_l2_sqr(), w.sqr);
    ensure!(ctx, near(c.norm_l2(), w.l2, n), "L2 norm {:?}, not {}", c.norm_l2(), w.l2);
    if n > 0 {
        ensure!(ctx, c.norm_l_inf().f() == w.inf, "L-infinity norm {:?}, not {}", c.norm_l_inf(), w.inf);
    }
}
fn ordinary<T: Fl, C: Cont<T> + NormL1<Output = T> + NormL2<Output = T> + NormLInf<Output = T>>(ctx: &mut Ctx) {
    floats::<T, C>(ctx, &set())
}
fn extreme<T: Fl, C: Cont<T> + NormL1<Output = T> + NormL2<Output = T> + NormLInf<Output = T>>(ctx: &mut Ctx) {
    // finite squares, plus infinities
    let big = if T::EPS.f() < 1e-10 { 1e100 } else { 1e15 };
    floats::<T, C>(ctx, &[0.0, -1.0, big, 1.0 / big, f64::INFINITY, f64::NEG_INFINITY].map(T::lit))
}
/// Length and normalization of anything with components.
fn norms<T: Fl, X: Copy + Debug>(ctx: &mut Ctx, l: &[T], x: X, len: &[(&str, T)], sq: &[(&str, T)], l1: Option<T>, unit: &dyn Fn(X) -> Vec<(&'static str, Vec<T>)>) {
    let (w, n) = (wanted(l), l.len());
    ctx.ops((len.len() + sq.len() + 3) as u64);
    for (what, g) in len {
        ensure!(ctx, near(*g, w.l2, n), "{what} of {l:?} is {g:?}, not {}", w.l2);
    }
    for (what, g) in sq {
        ensure!(ctx, near(*g, w.sqr, n), "{what} of {l:?} is {g:?}, not {}", w.sqr);
    }
    if let Some(g) = l1 {
        ensure!(ctx, near(g, w.l1, n), "L1 norm of {l:?} is {g:?}, not {}", w.l1);
    }
    if w.l2 == 0.0 {
        return;
    }
    for (what, u) in unit(x) {
        let m: f64 = u.iter().map(|x| x.f() * x.f()).sum();
        ensure!(ctx, (m - 1.0).abs() <= (8.0 + n as f64) * T::EPS.f(), "{what} of {l:?} is {u:?} of squared length {m}");
        ensure!(ctx, u.iter().zip(l).all(|(a, b)| (a.f() - b.f() / w.l2).abs() <= (8.0 + n as f64) * T::EPS.f() * (b.f() / w.l2).abs()), "{what} of {l:?} is {u:?}, no positive multiple");
    }
}
fn vector<T: Fl, const N: usize>(ctx: &mut Ctx) {
    let l = list(ctx, N, &set::<T>());
    note(ctx, &l);
    ctx.state(&l.iter().map(|x| x.bits()).collect::<Vec<_>>());
    let v = <Vector<T, N> as Cont<T>>::of(&l);
    let f = |v: Vector<T, N>| vec![("normalized vector", v.normalize().list()), ("vector normalized by trait", Normalize::normalize(v).list())];
    norms(ctx, &l, v, &[("length", v.length()), ("L2 norm", v.norm_l2())], &[("square length", v.square_length()), ("squared norm", v.norm_l2_sqr())], None, &f);
}
/// The same for large and small elements, their squares being far from overflow.
fn vector_sizes<T: Fl, const N: usize>(ctx: &mut Ctx) {
    let wide = T::EPS.f() < 1e-10;
    let ks: &[f64] = if wide { &[1e-100, 1e-30, 1e-12, 1e-8, 1e-6, 1e3, 1e6, 1e8, 1e9, 1e12, 1e16, 1e20, 1e38, 1e100] } else { &[1e-15, 1e-10, 1e-6, 1e-4, 1e3, 1e6, 1e8, 1e10, 1e12, 1e15] };
    let k = *ctx.pick(ks);
    let g: Vec<T> = [0.0, 1.0, -3.0, 0.25].iter().map(|x| T::lit(x * k)).collect();
    let l = list(ctx, N, &g);
    note(ctx, &l);
    ctx.state(&l.iter().map(|x| x.bits()).collect::<Vec<_>>());
    let v = <Vector<T, N> as Cont<T>>::of(&l);
    let f = |v: Vector<T, N>| vec![("normalized vector", v.normalize().list()), ("vector normalized by trait", Normalize::normalize(v).list())];
    norms(ctx, &l, v, &[("length", v.length()), ("L2 norm", v.norm_l2())], &[("square length", v.square_length()), ("squared norm", v.norm_l2_sqr())], None, &f);
    if N == 2 {
        let z = Complex::new(l[0], l[1]);
        let f = |z: Complex<T>| vec![("normalized complex number", z.normalize().into_array().to_vec())];
        norms(ctx, &l, z, &[("norm", z.norm()), ("L2 norm", z.norm_l2())], &[("square norm", z.norm_sqr())], None, &f);
    }
    if N == 4 {
        let q = Quaternion::from_array([l[0], l[1], l[2], l[3]]);
        let f = |q: Quaternion<T>| vec![("normalized quaternion", q.normalize().into_array().to_vec())];
        norms(ctx, &l, q, &[("norm", q.norm()), ("L2 norm", q.norm_l2())], &[("square norm", q.norm_sqr())], None, &f);
    }
}
fn complex<T: Fl + NormL1<Output = T>>(ctx: &mut Ctx) {
    let g: Vec<T> = [0.0, 1.0, -1.0, 3.0, -0.25, -0.0, 4.0, 1e-3, -120.0, 7.5, 1e6, -1e-6, 2.0].map(T::lit).to_vec();
    let l = list(ctx, 2, &g);
    note(ctx, &l);
    ctx.state(&l.iter().map(|x| x.bits()).collect::<Vec<_>>());
    let z = Complex::new(l[0], l[1]);
    let f = |z: Complex<T>| vec![("normalized number", z.normalize().into_array().to_vec()), ("number normalized by trait", Normalize::normalize(z).into_array().to_vec())];
    norms(ctx, &l, z, &[("norm", z.norm()), ("L2 norm", z.norm_l2())], &[("squared norm", z.norm_sqr()), ("squared L2 norm", z.norm_l2_sqr())], Some(z.norm_l1()), &f);
}
fn quaternion<T: Fl + NormL1<Output = T>>(ctx: &mut Ctx) {
    let l = list(ctx, 4, &set::<T>());
    note(ctx, &l);
    ctx.state(&l.iter().map(|x| x.bits()).collect::<Vec<_>>());
    let q = Quaternion::from_array([l[0], l[1], l[2], l[3]]);
    let f = |q: Quaternion<T>| vec![("normalized number", q.normalize().into_array().to_vec()), ("number normalized by trait", Normalize::normalize(q).into_array().to_vec())];
    norms(ctx, &l, q, &[("norm", q.norm()), ("L2 norm", q.norm_l2())], &[("squared norm", q.norm_sqr()), ("squared L2 norm", q.norm_l2_sqr())], Some(q.norm_l1()), &f);
}

fn build(r: &mut Reg) {
    int!(r, u8 i8 u16 i16 u32 i32 u64 i64 usize isize);
    float_scalar!(r, f32, u32, 20);
    float_scalar!(r, f64, u64, 20);
    macro_rules! over { ($f:ident, $($t:ty),*) => { $(
        each_c!(r, stringify!($f), $f<$t>, [V 1, V 2, V 3, V 4, V 5, V 6, V 7, V 8, V 9, V 17, V 33, V 65, M 1 1, M 1 2, M 2 1, M 2 2, M 1 3, M 3 1, M 2 3, M 3 2, M 3 3, M 4 1, M 2 4, M 4 2, M 4 4, M 3 4, M 5 2, M 1 17]);
    )* } }
    over!(ints, i32, i8, i64, u8);
    each_c!(r, "ints", ints<i32>, [V 129, M 11 12]);
    each_c!(r, "ordinary", ordinary<f64>, [V 129, M 11 12]);
    each_c!(r, "extreme", extreme<f64>, [M 11 12]);
    over!(ordinary, f64, f32);
    over!(extreme, f64, f32);
    each_n!(r, "lengths, any magnitude f64", vector_sizes<f64>, [1, 2, 3, 4, 5, 8]);
    each_n!(r, "lengths, any magnitude f32", vector_sizes<f32>, [1, 2, 3, 4, 5, 8]);
    each_n!(r, "lengths f64", vector<f64>, [1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33, 65]);
    each_n!(r, "lengths f32", vector<f32>, [1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33, 65]);
    fn f5<const N: usize>(c: &mut Ctx) { squares::<F5, N>(c, F5::all()) }
    fn f7<const N: usize>(c: &mut Ctx) { squares::<F7, N>(c, F7::all()) }
    fn i<const N: usize>(c: &mut Ctx) { squares::<i64, N>(c, vec![0, 1, -3, 70000, -2]) }
    each_n!(r, "square length F5", f5, [1, 2, 3, 4, 5, 6, 9]);
    each_n!(r, "square length F7", f7, [1, 2, 3, 4, 5, 17]);
    each_n!(r, "square length i64", i, [1, 2, 3, 4, 5, 6, 8, 9]);
    r.add("complex f64", complex::<f64>);
    r.add("complex f32", complex::<f32>);
    r.add("quaternion f64", quaternion::<f64>);
    r.add("quaternion f32", quaternion::<f32>);
}
fn main() {
    mc::main(Check {
        prop: "C18",
        level: "model_checking",
        rule: "an execution is one list of components (every list of the alphabet for short ones, two distinguished positions for long ones) or one block of primitive values; the real norms are compared with the definition in wide integers, a finite field or f64; states are distinct lists",
        assumptions: &["sums and squares that overflow the element type are outside the domain", "rounding tolerance of a few epsilon per component for float sums"],
        build,
    });
}
