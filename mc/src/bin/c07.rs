//! C07: dot, outer, cross and matrix products equal their algebraic definitions.
use mc::scalars::{Nc, F2, F3};
use mc::*;
use num_traits::{One, Zero};
use std::fmt::Debug;
use std::ops::{Add, Mul, Sub};
use vecmat::prelude::{Dot, Outer};
use vecmat::{Matrix, Vector};

trait Ring: Copy + Debug + Add<Output = Self> + Mul<Output = Self> + Sub<Output = Self> + Zero + One + PartialEq + 'static {
    /// A small complete alphabet, zero first.
    fn grid() -> Vec<Self>;
    /// A value of its own for every position of either operand.
    fn letter(i: usize) -> Self;
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl Ring for F2 {
    fn grid() -> Vec<Self> {
        F2::all()
    }
    fn letter(_: usize) -> Self {
        F2::one()
    }
}
impl Ring for F3 {
    fn grid() -> Vec<Self> {
        F3::all()
    }
    fn letter(i: usize) -> Self {
        F3::new(1 + (i as i64 % 2))
    }
}
impl Ring for Nc {
    fn grid() -> Vec<Self> {
        vec![Nc::zero(), Nc::letter(1000), Nc::letter(1001)]
    }
    fn letter(i: usize) -> Self {
        Nc::letter(i as u32)
    }
}
impl Ring for i64 {
    fn grid() -> Vec<Self> {
        vec![0, 1, -1, 2]
    }
    fn letter(i: usize) -> Self {
        let p = [2, -3, 5, 7, -11, 13, 17, -19, 23, 29, 31, -37, 41, 43, -47, 53, 59, 61, -67, 71, 73, 79, -83, 89, 97];
        p[i % 25] + 100 * (i / 25) as i64
    }
}
/// Exact values, infinities and NaN: a product that skips or repeats a term shows.
impl Ring for f64 {
    fn grid() -> Vec<Self> {
        vec![0.0, 1.0, -2.0, f64::INFINITY, f64::NAN]
    }
    fn letter(i: usize) -> Self {
        <i64 as Ring>::letter(i) as f64
    }
    fn same(&self, o: &Self) -> bool {
        mc::floats::same_num(*self, *o)
    }
}
impl Ring for f32 {
    fn grid() -> Vec<Self> {
        vec![0.0, 1.0, -3.0, f32::NEG_INFINITY]
    }
    fn letter(i: usize) -> Self {
        (<i64 as Ring>::letter(i) % 60) as f32
    }
    fn same(&self, o: &Self) -> bool {
        mc::floats::same_num(*self, *o)
    }
}
/// A user's element type with an identity of its own: `Zero` is never needed for a non-empty sum.
fn total<T: Ring>(mut it: impl Iterator<Item = T>) -> T {
    let a = it.next().unwrap();
    it.fold(a, |x, y| x + y)
}
fn eq<T: Ring>(ctx: &mut Ctx, what: &str, x: &[T], y: &[T], got: Vec<T>, want: Vec<T>) {
    ctx.ops(want.len() as u64);
    ensure!(
        ctx,
        got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| a.same(b)),
        "{} of {:?} and {:?}: got {:?}, expected {:?}",
        what, x, y, got, want
    );
    ctx.state(&format!("{:?}", want));
}

/// Two operands of lengths `n` and `m`: every pair over the grid while few; otherwise every pair of
/// single entries (basis elements times every grid value) over zero, one and generic backgrounds.
fn operands<T: Ring>(ctx: &mut Ctx, n: usize, m: usize) -> (Vec<T>, Vec<T>) {
    let g = T::grid();
    let lim: usize = if ctx.thorough() { 1_000_000 } else { 20_000 };
    let mut size = 1usize;
    for _ in 0..n + m {
        size = size.saturating_mul(g.len());
    }
    let generic = |k: usize, off: usize| (0..k).map(|i| T::letter(i + off)).collect::<Vec<T>>();
    match ctx.choose(if size <= lim { 4 } else { 3 }) {
        // basis pairs with generic coefficients and generic elsewhere
        0 => {
            let (p, q) = (ctx.choose(n), ctx.choose(m));
            let mut x = vec![T::zero(); n];
            let mut y = vec![T::zero(); m];
            x[p] = T::letter(p);
            y[q] = T::letter(n + q);
            (x, y)
        }
        // generic everywhere but one entry of either
        1 => {
            let (mut x, mut y) = (generic(n, 0), generic(m, n));
            let (p, q) = (ctx.choose(n + 1), ctx.choose(m + 1));
            if p < n {
                x[p] = *ctx.pick(&g);
            }
            if q < m {
                y[q] = *ctx.pick(&g);
            }
            (x, y)
        }
        // a constant operand with one exception against a generic one, both ways
        2 => {
            let c = *ctx.pick(&g);
            let d = *ctx.pick(&g);
            if ctx.flag() {
                let mut x = vec![c; n];
                x[ctx.choose(n)] = d;
                (x, generic(m, n))
            } else {
                let mut y = vec![c; m];
                y[ctx.choose(m)] = d;
                (generic(n, 0), y)
            }
        }
        _ => {
            let x = (0..n).map(|_| *ctx.pick(&g)).collect();
            let y = (0..m).map(|_| *ctx.pick(&g)).collect();
            (x, y)
        }
    }
}
fn v<T: Copy, const N: usize>(l: &[T]) -> Vector<T, N> {
    Vector::from_array(std::array::from_fn(|i| l[i]))
}
fn m<T: Copy, const M: usize, const N: usize>(l: &[T]) -> Matrix<T, M, N> {
    Matrix::from_array_of_arrays(std::array::from_fn(|i| std::array::from_fn(|j| l[i * N + j])))
}
fn lv<T: Copy, const N: usize>(x: Vector<T, N>) -> Vec<T> {
    x.into_array().to_vec()
}
fn lm<T: Copy, const M: usize, const N: usize>(x: Matrix<T, M, N>) -> Vec<T> {
    x.into_array_of_arrays().iter().flatten().copied().collect()
}

fn dot<T: Ring, const N: usize>(ctx: &mut Ctx) {
    let (x, y) = operands::<T>(ctx, N, N);
    let got = v::<T, N>(&x).dot(v::<T, N>(&y));
    eq(ctx, "dot", &x, &y, vec![got], vec![total((0..N).map(|i| x[i] * y[i]))]);
}
fn shape<T: Ring, const M: usize, const N: usize>(ctx: &mut Ctx) {
    match ctx.choose(3) {
        0 => {
            let (x, y) = operands::<T>(ctx, M, N);
            let want = (0..M * N).map(|k| x[k / N] * y[k % N]).collect();
            eq(ctx, "outer", &x, &y, lm(v::<T, M>(&x).outer(v::<T, N>(&y))), want);
        }
        1 => {
            let (x, y) = operands::<T>(ctx, M * N, N);
            let want = (0..M).map(|i| total((0..N).map(|j| x[i * N + j] * y[j]))).collect();
            eq(ctx, "matrix-vector", &x, &y, lv(m::<T, M, N>(&x).dot(v::<T, N>(&y))), want);
        }
        _ => {
            let (x, y) = operands::<T>(ctx, M, M * N);
            let want = (0..N).map(|j| total((0..M).map(|i| x[i] * y[i * N + j]))).collect();
            eq(ctx, "vector-matrix", &x, &y, lv(v::<T, M>(&x).dot(m::<T, M, N>(&y))), want);
        }
    }
}
fn mm<T: Ring, const L: usize, const M: usize, const N: usize>(ctx: &mut Ctx) {
    let (x, y) = operands::<T>(ctx, L * M, M * N);
    let want = (0..L * N).map(|k| total((0..M).map(|q| x[k / N * M + q] * y[q * N + k % N]))).collect();
    eq(ctx, "matrix-matrix", &x, &y, lm(m::<T, L, M>(&x).dot(m::<T, M, N>(&y))), want);
}
fn cross2<T: Ring>(ctx: &mut Ctx) {
    let (x, y) = operands::<T>(ctx, 2, 2);
    let got = v::<T, 2>(&x).cross(v::<T, 2>(&y));
    eq(ctx, "cross", &x, &y, vec![got], vec![x[0] * y[1] - x[1] * y[0]]);
}
fn crossed<T: Ring>(x: &[T], y: &[T]) -> Vec<T> {
    (0..3).map(|i| x[(i + 1) % 3] * y[(i + 2) % 3] - x[(i + 2) % 3] * y[(i + 1) % 3]).collect()
}
fn cross3<T: Ring>(ctx: &mut Ctx) {
    let (x, y) = operands::<T>(ctx, 3, 3);
    eq(ctx, "cross", &x, &y, lv(v::<T, 3>(&x).cross(v::<T, 3>(&y))), crossed(&x, &y));
}
fn cross4<T: Ring>(ctx: &mut Ctx) {
    let (x, y) = operands::<T>(ctx, 4, 4);
    let mut want = crossed(&x, &y);
    want.push(T::zero());
    eq(ctx, "cross", &x, &y, lv(v::<T, 4>(&x).cross(v::<T, 4>(&y))), want);
}
/// Integer identities over every pair of small vectors: exact, no oracle but algebra itself.
fn identities(ctx: &mut Ctx) {
    let g: &[i64] = if ctx.thorough() { &[-2, -1, 0, 1, 2] } else { &[-1, 0, 2] };
    let x: Vec<i64> = (0..3).map(|_| *ctx.pick(g)).collect();
    let y: Vec<i64> = (0..3).map(|_| *ctx.pick(g)).collect();
    let (a, b) = (v::<i64, 3>(&x), v::<i64, 3>(&y));
    let c = a.cross(b);
    same!(ctx, a.dot(c), 0, "a . (a x b) for {:?} {:?}", x, y);
    same!(ctx, b.dot(c), 0, "b . (a x b) for {:?} {:?}", x, y);
    same!(ctx, lv(c), lv(-b.cross(a)), "antisymmetry for {:?} {:?}", x, y);
    same!(ctx, c.dot(c), a.dot(a) * b.dot(b) - a.dot(b) * a.dot(b), "Lagrange identity for {:?} {:?}", x, y);
    same!(ctx, lm(a.outer(b).transpose()), lm(b.outer(a)), "transposed outer product of {:?} {:?}", x, y);
    same!(ctx, lv(a.outer(b).dot(b)), lv(a * b.dot(b)), "outer product applied for {:?} {:?}", x, y);
    ctx.ops(6);
    ctx.state(&(x, y));
}
/// Products of numbers, complex numbers and quaternions through the same trait.
fn scalars(ctx: &mut Ctx) {
    macro_rules! p { ($($t:ty),*) => { $( {
        let g: [$t; 5] = [0 as $t, 1 as $t, 2 as $t, 3 as $t, 11 as $t];
        for a in g { for b in g { same!(ctx, Dot::dot(a, b), a * b, "dot of {} and {} ({})", a, b, stringify!($t)); } }
        ctx.ops(25);
    } )* } }
    p!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64);
    macro_rules! s { ($($t:ty),*) => { $( {
        let g: [$t; 3] = [-1 as $t, -2 as $t, 5 as $t];
        for a in g { for b in g { same!(ctx, Dot::dot(a, b), a * b, "dot of {} and {} ({})", a, b, stringify!($t)); } }
        ctx.ops(9);
    } )* } }
    s!(i8, i16, i32, i64, isize, f32, f64);
    ctx.state(&0);
}

macro_rules! lmn {
    ($r:expr, $t:ty, [$($l:literal)*], $m:tt, $n:tt) => { $( lmn!(@m $r, $t, $l, $m, $n); )* };
    (@m $r:expr, $t:ty, $l:literal, [$($m:literal)*], $n:tt) => { $( lmn!(@n $r, $t, $l, $m, $n); )* };
    (@n $r:expr, $t:ty, $l:literal, $m:literal, [$($n:literal)*]) => {
        $( $r.add(format!("matrix-matrix<{}>/{}x{}x{}", stringify!($t), $l, $m, $n), mm::<$t, $l, $m, $n>); )*
    };
}

fn build(r: &mut Reg) {
    each_n!(r, "dot", dot<F3>, [1, 2, 3, 4, 5, 6]);
    each_n!(r, "dot", dot<Nc>, [1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33, 65]);
    each_n!(r, "dot", dot<i64>, [1, 2, 3, 4, 5, 6, 8, 17]);
    each_n!(r, "dot", dot<f64>, [1, 2, 3, 4, 5, 8]);
    each_n!(r, "dot", dot<f32>, [1, 2, 3, 4, 5]);
    each_mn!(r, "shape", shape<Nc>, [1 x 1, 1 x 2, 1 x 3, 1 x 4, 2 x 1, 2 x 2, 2 x 3, 2 x 4, 3 x 1, 3 x 2, 3 x 3, 3 x 4, 4 x 1, 4 x 2, 4 x 3, 4 x 4, 5 x 2, 2 x 5, 5 x 5, 1 x 9, 9 x 1, 6 x 3, 6 x 6, 8 x 8, 9 x 8, 1 x 17, 17 x 1, 3 x 17, 17 x 3, 11 x 12]);
    each_mn!(r, "shape", shape<F2>, [1 x 1, 1 x 2, 2 x 1, 2 x 2, 2 x 3, 3 x 2, 3 x 3, 1 x 5, 5 x 1, 4 x 2, 2 x 4]);
    each_mn!(r, "shape", shape<F3>, [1 x 1, 1 x 2, 2 x 1, 2 x 2, 2 x 3, 3 x 2]);
    each_mn!(r, "shape", shape<f64>, [1 x 1, 1 x 2, 2 x 1, 2 x 2, 2 x 3, 3 x 2, 3 x 3, 4 x 4, 3 x 4, 4 x 3]);
    each_mn!(r, "shape", shape<f32>, [2 x 2, 3 x 3, 4 x 4]);
    each_mn!(r, "shape", shape<i64>, [2 x 2, 2 x 3, 3 x 2, 3 x 3, 4 x 4]);
    lmn!(r, Nc, [1 2 3 4], [1 2 3 4], [1 2 3 4]);
    lmn!(r, Nc, [5], [2 5], [3 5]);
    lmn!(r, Nc, [1 7], [6], [1 2]);
    lmn!(r, Nc, [6], [6], [6]);
    lmn!(r, Nc, [8], [9], [8]);
    lmn!(r, Nc, [2], [17], [2]);
    lmn!(r, F2, [1 2 3], [1 2 3], [1 2 3]);
    lmn!(r, F3, [1 2], [1 2], [1 2]);
    lmn!(r, f64, [1 2 3], [1 2 3], [1 2 3]);
    lmn!(r, f64, [4], [4], [4]);
    lmn!(r, f32, [2 3 4], [2 3 4], [2]);
    lmn!(r, i64, [2 3 4], [3], [2 4]);
    macro_rules! crosses { ($($t:ty),*) => { $(
        r.add(format!("cross2<{}>", stringify!($t)), cross2::<$t>);
        r.add(format!("cross3<{}>", stringify!($t)), cross3::<$t>);
        r.add(format!("cross4<{}>", stringify!($t)), cross4::<$t>);
    )* } }
    crosses!(F2, F3, Nc, i64, f64, f32);
    r.add("identities", identities);
    r.add("scalars", scalars);
}

fn main() {
    mc::main(Check {
        prop: "C07",
        level: "model_checking",
        rule: "every execution = one pair of operands of one shape (all pairs over the grid while few, otherwise all \
               pairs of single entries over zero, constant and generic backgrounds) multiplied by the library and by \
               the definition; a state is a distinct product, a transition one compared entry",
        assumptions: &[
            "sums are compared over associative elements (finite fields, a non-commutative ring, exactly represented floats), so the order of summation is free",
        ],
        build,
    });
}
