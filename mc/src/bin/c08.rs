//! C08: determinant, cofactors, adjugate and inverse.
use mc::scalars::{F2, F3, F5, F7, F11};
use mc::*;
use num_traits::{Inv, Num, One, Zero};
use std::fmt::Debug;
use std::ops::Neg;
use vecmat::{Complex, Matrix, Vector};

trait Ring: Num + Neg<Output = Self> + Copy + Debug + 'static {
    fn grid() -> Vec<Self>;
    fn letter(i: usize) -> Self;
}
macro_rules! field_ring { ($($t:ident)*) => { $( impl Ring for $t {
    fn grid() -> Vec<Self> { $t::all() }
    fn letter(i: usize) -> Self { $t::new(1 + (i * i + 3 * i) as i64) }
} )* } }
field_ring!(F2 F3 F5 F7 F11);
const PRIMES: [i64; 12] = [2, -3, 5, 7, -11, 13, 1, -2, 3, -5, 4, -1];
impl Ring for i64 {
    fn grid() -> Vec<Self> {
        vec![0, 1, -1, 2, -2]
    }
    fn letter(i: usize) -> Self {
        PRIMES[i * 5 % 12] + (i / 12) as i64
    }
}
impl Ring for i32 {
    fn grid() -> Vec<Self> {
        vec![0, 1, -1]
    }
    fn letter(i: usize) -> Self {
        <i64 as Ring>::letter(i) as i32
    }
}
/// Small integers: every intermediate result is exact.
impl Ring for f64 {
    fn grid() -> Vec<Self> {
        vec![0.0, 1.0, -1.0]
    }
    fn letter(i: usize) -> Self {
        <i64 as Ring>::letter(i) as f64
    }
}
impl Ring for f32 {
    fn grid() -> Vec<Self> {
        vec![0.0, 1.0, 2.0]
    }
    fn letter(i: usize) -> Self {
        ((i * 7) % 5) as f32 - 2.0
    }
}
impl Ring for Complex<F3> {
    fn grid() -> Vec<Self> {
        (0..9).map(|k| Complex::new(F3::new(k / 3), F3::new(k))).collect()
    }
    fn letter(i: usize) -> Self {
        Complex::new(F3::letter(i), F3::letter(i + 1))
    }
}
impl Ring for Complex<i64> {
    fn grid() -> Vec<Self> {
        (0..9).map(|k| Complex::new(k / 3 - 1, k % 3 - 1)).collect()
    }
    fn letter(i: usize) -> Self {
        Complex::new(i64::letter(i), i64::letter(i + 1))
    }
}

/// The signed sum over permutations, as Heap-free recursion over rows and a column mask.
fn leibniz<T: Ring>(a: &[T], n: usize, rows: &[usize], cols: &[usize]) -> T {
    let k = rows.len();
    if k == 0 {
        return T::one();
    }
    // by increasing number of rows: minors of the last rows for every set of columns
    let mut m = vec![T::zero(); 1 << k];
    m[0] = T::one();
    for set in 1usize..1 << k {
        let r = rows[k - set.count_ones() as usize];
        let (mut s, mut pos) = (T::zero(), 0);
        for (b, c) in cols.iter().enumerate() {
            if set >> b & 1 == 1 {
                let t = a[r * n + c] * m[set & !(1 << b)];
                s = if pos % 2 == 0 { s + t } else { s - t };
                pos += 1;
            }
        }
        m[set] = s;
    }
    m[(1 << k) - 1]
}
fn minor<T: Ring>(a: &[T], n: usize, i: usize, j: usize) -> T {
    let rows: Vec<usize> = (0..n).filter(|r| *r != i).collect();
    let cols: Vec<usize> = (0..n).filter(|c| *c != j).collect();
    let d = leibniz(a, n, &rows, &cols);
    if (i + j) % 2 == 0 { d } else { -d }
}

fn mat<T: Copy, const N: usize>(l: &[T]) -> Matrix<T, N, N> {
    Matrix::from_array_of_arrays(std::array::from_fn(|i| std::array::from_fn(|j| l[i * N + j])))
}
fn list<T: Copy, const N: usize>(m: Matrix<T, N, N>) -> Vec<T> {
    m.into_array_of_arrays().iter().flatten().copied().collect()
}
fn mul<T: Ring>(a: &[T], b: &[T], n: usize) -> Vec<T> {
    (0..n * n).map(|k| (0..n).fold(T::zero(), |s, q| s + a[k / n * n + q] * b[q * n + k % n])).collect()
}
fn diag<T: Ring>(d: T, n: usize) -> Vec<T> {
    (0..n * n).map(|k| if k / n == k % n { d } else { T::zero() }).collect()
}

/// Everything about one matrix. `inverse`: division is exact in T whenever the determinant is not zero.
fn laws<T: Ring, const N: usize>(ctx: &mut Ctx, a: &[T], inverse: bool) {
    ctx.note(|| format!("matrix {:?}", a));
    let m = mat::<T, N>(a);
    let all: Vec<usize> = (0..N).collect();
    let det = leibniz(a, N, &all, &all);
    same!(ctx, m.det(), det, "determinant of {:?}", a);
    let mut adj = vec![T::zero(); N * N];
    for i in 0..N {
        for j in 0..N {
            let c = minor(a, N, i, j);
            same!(ctx, m.cofactor(i, j), c, "cofactor ({}, {}) of {:?}", i, j, a);
            adj[j * N + i] = c;
        }
    }
    let got = list(m.adj());
    same!(ctx, got, adj, "adjugate of {:?}", a);
    same!(ctx, mul(a, &got, N), diag(det, N), "matrix times adjugate of {:?}", a);
    same!(ctx, mul(&got, a, N), diag(det, N), "adjugate times matrix of {:?}", a);
    ctx.ops(4 + (N * N) as u64);
    if inverse && !det.is_zero() {
        let inv = list(Matrix::inv(&m));
        same!(ctx, mul(a, &inv, N), diag(T::one(), N), "matrix times inverse {:?} of {:?}", inv, a);
        same!(ctx, mul(&inv, a, N), diag(T::one(), N), "inverse {:?} times matrix {:?}", inv, a);
        let tr = list(Inv::inv(m));
        same!(ctx, tr, inv, "both inverses of {:?}", a);
        ctx.ops(3);
    }
    same!(ctx, list(m), a.to_vec(), "the matrix itself afterwards");
    ctx.state(&format!("{:?}{:?}", det, adj));
}

fn full<T: Ring, const N: usize>(ctx: &mut Ctx, inverse: bool) {
    let g = T::grid();
    let a: Vec<T> = (0..N * N).map(|_| *ctx.pick(&g)).collect();
    laws::<T, N>(ctx, &a, inverse);
}
fn full_field<T: Ring, const N: usize>(ctx: &mut Ctx) {
    full::<T, N>(ctx, true)
}
fn full_ring<T: Ring, const N: usize>(ctx: &mut Ctx) {
    full::<T, N>(ctx, false)
}
/// Every permutation matrix with entries of its own, with nothing or one entry changed elsewhere.
fn permutations<T: Ring, const N: usize>(ctx: &mut Ctx) {
    permuted::<T, N>(ctx, false)
}
fn permutations_field<T: Ring, const N: usize>(ctx: &mut Ctx) {
    permuted::<T, N>(ctx, true)
}
fn permuted<T: Ring, const N: usize>(ctx: &mut Ctx, inverse: bool) {
    let mut left: Vec<usize> = (0..N).collect();
    let mut a = vec![T::zero(); N * N];
    for i in 0..N {
        let j = left.remove(ctx.choose(left.len()));
        a[i * N + j] = T::letter(i * N + j);
    }
    let p = ctx.choose(if N <= 5 { N * N + 1 } else { 2 });
    if p > 0 {
        let q = if N <= 5 { p - 1 } else { N * N - 1 };
        a[q] = a[q] + T::one();
    }
    laws::<T, N>(ctx, &a, inverse);
}
/// Structured matrices with every pair of changed entries.
fn changed<T: Ring, const N: usize>(ctx: &mut Ctx) {
    altered::<T, N>(ctx, false)
}
fn changed_field<T: Ring, const N: usize>(ctx: &mut Ctx) {
    altered::<T, N>(ctx, true)
}
fn altered<T: Ring, const N: usize>(ctx: &mut Ctx, inverse: bool) {
    let g = T::grid();
    let kind = ctx.choose(7);
    let mut a: Vec<T> = (0..N * N)
        .map(|k| {
            let (i, j) = (k / N, k % N);
            match kind {
                0 => T::letter(k),
                1 if i == j => T::one(),
                2 => T::one(),
                3 if i <= j => T::letter(k),
                4 if i >= j => T::letter(k),
                5 if i + j == N - 1 => T::letter(i),
                6 if (i + 2 * j) % 3 != 0 => T::letter(k + 1),
                _ => T::zero(),
            }
        })
        .collect();
    let p = ctx.choose(N * N);
    a[p] = g[ctx.choose(g.len().min(3))];
    let q = if N <= 5 || ctx.thorough() { ctx.choose(N * N) } else { p };
    if q > p {
        a[q] = g[1];
    }
    laws::<T, N>(ctx, &a, inverse);
}
fn corners<const N: usize>(ctx: &mut Ctx) {
    let m = Matrix::<i64, N, N>::init_with_indices_or(|k| <i64 as Ring>::letter(k));
    for i in 0..N + 2 {
        for j in 0..N + 2 {
            let out = i >= N || j >= N;
            let r = attempt(|| m.cofactor(i, j));
            same!(ctx, r.panicked(), out, "cofactor ({}, {}) of a {}x{} matrix panicking", i, j, N, N);
        }
    }
    for (i, j) in [(usize::MAX, 0), (0, usize::MAX), (usize::MAX, usize::MAX), (1 << 32, 0), (0, 1 << 32)] {
        let r = attempt(|| m.cofactor(i, j));
        ensure!(ctx, r.panicked(), "cofactor ({}, {}) of a {}x{} matrix did not panic", i, j, N, N);
    }
    // identity and diagonal
    let one = Matrix::<i64, N, N>::one();
    same!(ctx, list(one), diag(1, N), "identity");
    same!(ctx, list(Matrix::<F5, N, N>::one()), diag(F5::one(), N), "identity over a field");
    ensure!(ctx, one.is_one(), "is_one of the identity");
    for p in 0..N * N {
        let mut l = diag(1i64, N);
        l[p] += 1;
        ensure!(ctx, !mat::<i64, N>(&l).is_one(), "is_one of {:?}", l);
        let mut s = mat::<i64, N>(&l);
        s.set_one();
        same!(ctx, list(s), diag(1, N), "set_one");
    }
    let d: Vec<i64> = (0..N).map(|i| i as i64 * 3 + 2).collect();
    let want: Vec<i64> = (0..N * N).map(|k| if k / N == k % N { d[k / N] } else { 0 }).collect();
    let got = Matrix::<i64, N, N>::diagonal(Vector::from_array(std::array::from_fn(|i| d[i])));
    same!(ctx, list(got), want, "diagonal of {:?}", d);
    same!(ctx, got.det(), d.iter().product::<i64>(), "determinant of the diagonal matrix");
    // elements that own memory
    let names = Matrix::<Own, N, N>::diagonal(Vector::from_array(std::array::from_fn(|i| Own(Some(format!("d{}", i))))));
    let texts: Vec<Option<String>> = names.into_array_of_arrays().into_iter().flatten().map(|o| o.0).collect();
    let want: Vec<Option<String>> = (0..N * N).map(|k| if k / N == k % N { Some(format!("d{}", k / N)) } else { None }).collect();
    same!(ctx, texts, want, "diagonal of owning elements");
    ctx.ops((N * N + 20) as u64);
    ctx.state(&N);
}
struct Own(Option<String>);
impl std::ops::Add for Own {
    type Output = Own;
    fn add(self, o: Own) -> Own {
        Own(self.0.or(o.0))
    }
}
impl Zero for Own {
    fn zero() -> Own {
        Own(None)
    }
    fn is_zero(&self) -> bool {
        self.0.is_none()
    }
}
trait InitOr<T> {
    fn init_with_indices_or(f: impl Fn(usize) -> T) -> Self;
}
impl<T: Copy, const N: usize> InitOr<T> for Matrix<T, N, N> {
    fn init_with_indices_or(f: impl Fn(usize) -> T) -> Self {
        let l: Vec<T> = (0..N * N).map(f).collect();
        mat(&l)
    }
}
/// Real matrices whose determinant is a power of two: the float inverse is exact.
fn floats<const N: usize>(ctx: &mut Ctx) {
    let g = [0.0, 1.0, -1.0, 2.0];
    let g = if N < 3 { &g[..] } else { &g[..3] };
    let a: Vec<f64> = (0..N * N).map(|_| *ctx.pick(g)).collect();
    let all: Vec<usize> = (0..N).collect();
    let det = leibniz(&a, N, &all, &all);
    let pow2 = det != 0.0 && (det.abs() as u64).is_power_of_two();
    laws::<f64, N>(ctx, &a, pow2);
    if det != 0.0 {
        let inv = list(Matrix::inv(&mat::<f64, N>(&a)));
        let id = mul(&a, &inv, N);
        let f: Vec<f32> = a.iter().map(|x| *x as f32).collect();
        let inv32 = list(Matrix::inv(&mat::<f32, N>(&f)));
        let id32 = mul(&f, &inv32, N);
        for k in 0..N * N {
            let w = if k / N == k % N { 1.0 } else { 0.0 };
            ensure!(ctx, (id[k] - w).abs() < 1e-12, "matrix times inverse of {:?} is {:?}", a, id);
            ensure!(ctx, (id32[k] as f64 - w).abs() < 1e-4, "matrix times f32 inverse of {:?} is {:?}", a, id32);
        }
        ctx.ops(2);
    }
}
/// Inverses of larger matrices of floats: well-conditioned ones with one or two changed entries.
fn floats_larger<const N: usize>(ctx: &mut Ctx) {
    let kind = ctx.choose(3);
    let mut a: Vec<f64> = (0..N * N)
        .map(|k| {
            let (i, j) = (k / N, k % N);
            let low = [0.0, 1.0, -0.5, 0.25][(i * 3 + j * 5 + i * j) % 4];
            match kind {
                0 => if i == j { 8.0 } else { low },
                1 => if i + j == N - 1 { -6.0 } else { low / 2.0 },
                _ => if (i + 1) % N == j { 5.0 } else if j <= i { low / 2.0 } else { 0.0 },
            }
        })
        .collect();
    let p = ctx.choose(N * N);
    a[p] += *ctx.pick(&[0.0, 1.0, -1.75]);
    let q = ctx.choose(N * N);
    a[q] -= 0.5;
    let all: Vec<usize> = (0..N).collect();
    let det = leibniz(&a, N, &all, &all);
    ctx.note(|| format!("matrix {a:?}"));
    if det.abs() < 1.0 {
        return;
    }
    let m = mat::<f64, N>(&a);
    for inv in [Matrix::inv(&m), Inv::inv(m)] {
        let inv = list(inv);
        let (l, r) = (mul(&a, &inv, N), mul(&inv, &a, N));
        for k in 0..N * N {
            let w = if k / N == k % N { 1.0 } else { 0.0 };
            ensure!(ctx, (l[k] - w).abs() < 1e-10 && (r[k] - w).abs() < 1e-10, "inverse of {:?} is {:?}", a, inv);
        }
        ctx.ops(2);
    }
    ctx.state(&a.iter().map(|x| x.to_bits()).collect::<Vec<_>>());
}
/// det(A B) = det A det B on every pair.
fn multiplicative<const N: usize>(ctx: &mut Ctx) {
    let g: &[i64] = if N == 2 { &[-1, 0, 1, 2] } else { &[0, 1] };
    let a: Vec<i64> = (0..N * N).map(|_| *ctx.pick(g)).collect();
    let b: Vec<i64> = (0..N * N).map(|_| *ctx.pick(g)).collect();
    let (x, y) = (mat::<i64, N>(&a), mat::<i64, N>(&b));
    let p = mat::<i64, N>(&mul(&a, &b, N));
    same!(ctx, p.det(), x.det() * y.det(), "det of the product of {:?} and {:?}", a, b);
    ctx.ops(1);
    ctx.state(&(a, b));
}

fn build(r: &mut Reg) {
    each_n!(r, "full", full_field<F11>, [0, 1]);
    each_n!(r, "full", full_field<F2>, [0, 1, 2, 3, 4]);
    each_n!(r, "full", full_field<F3>, [1, 2, 3]);
    each_n!(r, "full", full_field<F5>, [1, 2]);
    each_n!(r, "full", full_field<F7>, [1, 2]);
    each_n!(r, "full", full_field<Complex<F3>>, [1, 2]);
    each_n!(r, "full", full_ring<i64>, [1, 2]);
    each_n!(r, "full", full_ring<i32>, [1, 2, 3]);
    each_n!(r, "full", full_ring<Complex<i64>>, [1, 2]);
    if r.thorough() {
        each_n!(r, "full", full_field<F5>, [3]);
        each_n!(r, "full", full_field<F3>, [4]);
        each_n!(r, "full", full_ring<i64>, [3]);
    }
    each_n!(r, "permutations", permutations<i64>, [1, 2, 3, 4, 5, 6]);
    if r.thorough() {
        each_n!(r, "permutations", permutations<i64>, [7]);
    }
    each_n!(r, "changed", changed<i64>, [1, 2, 3, 4, 5, 6]);
    each_n!(r, "changed", changed_field<F3>, [3, 4, 5, 6, 7]);
    each_n!(r, "changed", changed_field<F11>, [3, 4, 5, 6]);
    each_n!(r, "permutations", permutations_field<F11>, [3, 4, 5, 6]);
    each_n!(r, "floats", floats_larger, [4, 5, 6]);
    each_n!(r, "changed", changed<f32>, [4]);
    each_n!(r, "changed", changed<Complex<i64>>, [3, 4]);
    each_n!(r, "changed", changed<i64>, [7]);
    each_n!(r, "corners", corners, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9]);
    each_n!(r, "floats", floats, [1, 2, 3]);
    each_n!(r, "multiplicative", multiplicative, [2, 3]);
}

fn main() {
    mc::main(Check {
        prop: "C08",
        level: "model_checking",
        rule: "every execution = one square matrix: all matrices over the finite fields and grids for small sizes, all \
               permutation matrices and all one- and two-entry changes of structured ones for larger sizes; a state is a \
               distinct pair of determinant and adjugate, a transition one compared result",
        assumptions: &["oracle: determinants of row suffixes over all column sets, computed by the explorer"],
        build,
    });
}
