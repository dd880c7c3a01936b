//! C17: random sampling meets its contract for every generator output.
use mc::floats::{same_bits, Fl};
use mc::*;
use num_traits::NumCast;
use rand::distributions::uniform::SampleUniform;
use rand::distributions::{Distribution, Uniform as Ranged};
use rand::{Error, Rng, RngCore};
use std::cell::Cell;
use std::fmt::Debug;
use vecmat::complex::Moebius;
use vecmat::distr::{Invertible, NonZero, Normal, Uniform, Unit};
use vecmat::matrix::MatrixDistribution;
use vecmat::transform::{Affine, Linear, Rotation2, Rotation3, Scale, Shift};
use vecmat::vector::VectorDistribution;
use vecmat::{Complex, Matrix, Quaternion, Vector};

/// The environment: a list of words, then a benign stream; more than `HORIZON` words count as never ending.
#[derive(Clone)]
struct Words {
    list: Vec<u64>,
    used: usize,
}
const HORIZON: usize = 20_000;
struct Endless;
impl Words {
    fn new(list: Vec<u64>) -> Self {
        Words { list, used: 0 }
    }
}
impl RngCore for Words {
    fn next_u64(&mut self) -> u64 {
        let i = self.used;
        self.used += 1;
        if self.used > HORIZON {
            std::panic::panic_any(Endless);
        }
        self.list.get(i).copied().unwrap_or_else(|| {
            let mut z = (i as u64 + 17).wrapping_mul(0x9E37_79B9_7F4A_7C15);
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            z ^ (z >> 31)
        })
    }
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let w = self.next_u64().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(b);
        Ok(())
    }
}

trait Fx: Fl + NumCast + SampleUniform {
    /// Bits of a word that reach the number in [0, 1).
    const BITS: u32;
}
impl Fx for f64 {
    const BITS: u32 = 52;
}
impl Fx for f32 {
    const BITS: u32 = 23;
}
/// Samples, turning an endless draw into a violation.
fn draw<X, D: Distribution<X>>(ctx: &mut Ctx, d: &D, w: &mut Words) -> X {
    ctx.ops(1);
    let k = w.used;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.sample(w)));
    match r {
        Ok(x) => x,
        Err(e) if e.is::<Endless>() => ctx.fail(format!("sampling does not end although the generator offers acceptable words (drew {})", w.used - k)),
        Err(e) => std::panic::resume_unwind(e),
    }
}
/// Words of boundary cases, as the fraction of [0,1) they stand for.
fn fractions<T: Fx>() -> Vec<u64> {
    let one = 1u64 << (64 - T::BITS);
    let mut v = vec![0, one, 2 * one, u64::MAX, u64::MAX - one, 1 << 63, (1 << 63) - one, (1 << 63) + one, 1 << 62, 3 << 62, 0x5555_5555_5555_5555, 0xAAAA_AAAA_AAAA_AAAA, 1, u64::MAX >> 1];
    for k in 1..T::BITS {
        v.push(one << k);
        v.push((1u64 << 63).wrapping_add(one << k));
        v.push((1u64 << 63).wrapping_sub(one << k));
        v.push(0u64.wrapping_sub(one << k));
    }
    v.sort();
    v.dedup();
    v
}
/// Word pairs for one normal number: exact zeros, values down to and around epsilon, ordinary and extreme ones.
fn elements<T: Fx>(n: usize) -> Vec<[u64; 2]> {
    let one = 1u64 << (64 - T::BITS);
    let half = 1u64 << 63;
    let mut v = vec![[0, 0], [half, one << 50.min(T::BITS - 3)], [u64::MAX, 0], [u64::MAX, u64::MAX], [half, half], [0, half], [one, half]];
    // smallest radius times a cosine of falling size: crosses epsilon
    for k in 0..T::BITS - 1 {
        if k % 3 == 0 || k > T::BITS - 8 {
            v.push([one, half + (one << k)]);
        }
    }
    v.push([one, 3 << 61]);
    v.push([3 << 61, 7 << 60]);
    v.push([one << 1, half - (one << 4)]);
    v.truncate(n);
    v
}

fn scalar<T: Fx>(ctx: &mut Ctx)
where
    Normal: Distribution<T> + Distribution<Scale<T>>,
{
    let f = fractions::<T>();
    let l = vec![*ctx.pick(&f), *ctx.pick(&f)];
    ctx.note(|| format!("words {l:x?}"));
    let mut w = Words::new(l.clone());
    let x: T = draw(ctx, &Normal, &mut w);
    ctx.state(&x.bits());
    ensure!(ctx, x.is_finite(), "normal number {x:?}");
    ensure!(ctx, x.f().abs() < 40.0, "normal number {x:?} out of any reach");
    let mut w = Words::new(l.clone());
    let s: Scale<T> = draw(ctx, &Normal, &mut w);
    ensure!(ctx, same_bits(s.into_mag(), x), "scaling drawn from the same words is {s:?}, not {x:?}");
}
/// All words of a grid: the numbers are spread as a standard normal distribution.
fn shape<T: Fx>(ctx: &mut Ctx)
where
    Normal: Distribution<T>,
{
    let n = 512u64;
    let (mut s, mut in1, mut in2) = ([0f64; 5], 0u32, 0u32);
    for i in 0..n {
        for j in 0..n {
            let mid = |k: u64| (2 * k + 1) << (63 - 9);
            let mut w = Words::new(vec![mid(i), mid(j)]);
            let x: T = draw(ctx, &Normal, &mut w);
            let x = x.f();
            for (p, a) in s.iter_mut().enumerate() {
                *a += x.powi(p as i32);
            }
            in1 += (x.abs() < 1.0) as u32;
            in2 += (x.abs() < 2.0) as u32;
        }
    }
    let m: Vec<f64> = s.iter().map(|x| x / (n * n) as f64).collect();
    ctx.state(&n);
    let (p1, p2) = (in1 as f64 / s[0], in2 as f64 / s[0]);
    ensure!(ctx, m[1].abs() < 0.02 && m[3].abs() < 0.1, "not symmetric: moments {m:?}");
    ensure!(ctx, (m[2] - 1.0).abs() < 0.05 && (m[4] - 3.0).abs() < 0.3, "moments {m:?} are not those of a standard normal distribution");
    ensure!(ctx, (p1 - 0.6827).abs() < 0.01 && (p2 - 0.9545).abs() < 0.01, "shares within one and two deviations are {p1} and {p2}");
}
/// Words spread geometrically towards both ends, with their shares: large numbers occur as often as they should.
fn tails<T: Fx>(ctx: &mut Ctx)
where
    Normal: Distribution<T>,
{
    let deep = T::BITS as i32 - 1;
    let mut pts: Vec<(u64, f64)> = vec![];
    for k in 1..=deep + 1 {
        // words in [2^-(k+1), 2^-k), the last stratum goes down to zero
        let (lo, hi) = (if k > deep { 0.0 } else { 0.5f64.powi(k + 1) }, 0.5f64.powi(k));
        let n = if k > deep { 1 } else { 1usize << (deep + 1 - k).min(if k < 4 { 6 } else { 3 }) };
        for j in 0..n {
            let f = lo + (hi - lo) * (j as f64 + 0.5) / n as f64;
            let w = (f * 2f64.powi(64)) as u64;
            pts.push((w, (hi - lo) / n as f64));
            pts.push((!w, (hi - lo) / n as f64));
        }
    }
    let beyond: &[(f64, f64)] = &[(1.0, 3.173105e-1), (2.0, 4.550026e-2), (3.0, 2.699796e-3), (4.0, 6.334248e-5), (5.0, 5.733031e-7), (6.0, 1.973175e-9), (7.0, 2.559625e-12)];
    let beyond = if T::BITS > 30 { beyond } else { &beyond[..4] };
    let mut up = vec![0f64; beyond.len()];
    let mut down = up.clone();
    for &(a, p) in &pts {
        for &(b, q) in &pts {
            let mut w = Words::new(vec![a, b]);
            let x: T = draw(ctx, &Normal, &mut w);
            if w.used != 2 {
                return; // not a function of two words: the grid says nothing about it
            }
            for (i, &(t, _)) in beyond.iter().enumerate() {
                up[i] += if x.f() > t { p * q } else { 0.0 };
                down[i] += if x.f() < -t { p * q } else { 0.0 };
            }
        }
    }
    ctx.state(&pts.len());
    for (i, &(t, p)) in beyond.iter().enumerate() {
        ctx.note(|| format!("beyond {t}: {:e} and {:e} of {:e}", up[i], down[i], p / 2.0));
        let near = |x: f64| (x / (p / 2.0) - 1.0).abs() < 0.12;
        ensure!(ctx, near(up[i]) && near(down[i]), "numbers beyond {t} and -{t} have shares {:e} and {:e}, those of a normal distribution {:e}", up[i], down[i], p / 2.0);
    }
}

/// Draws that count.
struct Count(Cell<u32>);
impl Distribution<u32> for Count {
    fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> u32 {
        let k = self.0.get();
        self.0.set(k + 1);
        k
    }
}
fn per_vector<const N: usize>(ctx: &mut Ctx) {
    let d = VectorDistribution::<_, u32, N>::new(Count(Cell::new(0)));
    let mut w = Words::new(vec![]);
    for round in 0..3u32 {
        let v: Vector<u32, N> = draw(ctx, &d, &mut w);
        same!(ctx, v.into_array().to_vec(), (0..N as u32).map(|i| i + round * N as u32).collect::<Vec<_>>(), "draws in order");
    }
    same!(ctx, d.inner.0.get(), 3 * N as u32, "number of inner draws");
    let l: Vec<u64> = (0..N as u64).map(|i| (i * 37 + 11) << 52).collect();
    let mut a = Words::new(l.clone());
    let x: Vector<f64, N> = draw(ctx, &VectorDistribution::new(Ranged::new(-2.0, 5.0)), &mut a);
    let mut b = Words::new(l);
    let y: Vec<f64> = (0..N).map(|_| Ranged::new(-2.0, 5.0).sample(&mut b)).collect();
    same!(ctx, x.into_array().to_vec(), y, "components drawn from a range");
    same!(ctx, a.used, b.used, "words drawn");
    ctx.state(&N);
}
fn per_matrix<const M: usize, const N: usize>(ctx: &mut Ctx) {
    let d = MatrixDistribution::<_, u32, M, N>::new(Count(Cell::new(0)));
    let mut w = Words::new(vec![]);
    for round in 0..3u32 {
        let m: Matrix<u32, M, N> = draw(ctx, &d, &mut w);
        let k = (M * N) as u32;
        let want: Vec<u32> = (0..k).map(|i| i + round * k).collect();
        same!(ctx, m.into_array_of_arrays().concat(), want, "draws in row-major order");
    }
    same!(ctx, d.inner.0.get(), (3 * M * N) as u32, "number of inner draws");
    ctx.state(&(M, N));
}

/// A sampled type and its components in order.
trait Parts<T: Fx>: Copy + Debug + 'static {
    const LEN: usize;
    fn parts(&self) -> Vec<T>;
}
impl<T: Fx, const N: usize> Parts<T> for Vector<T, N> {
    const LEN: usize = N;
    fn parts(&self) -> Vec<T> {
        self.into_array().to_vec()
    }
}
impl<T: Fx, const M: usize, const N: usize> Parts<T> for Matrix<T, M, N> {
    const LEN: usize = M * N;
    fn parts(&self) -> Vec<T> {
        self.into_array_of_arrays().concat()
    }
}
impl<T: Fx> Parts<T> for Complex<T> {
    const LEN: usize = 2;
    fn parts(&self) -> Vec<T> {
        self.into_array().to_vec()
    }
}
impl<T: Fx> Parts<T> for Quaternion<T> {
    const LEN: usize = 4;
    fn parts(&self) -> Vec<T> {
        self.into_array().to_vec()
    }
}
impl<T: Fx, const N: usize> Parts<T> for Shift<T, N> {
    const LEN: usize = N;
    fn parts(&self) -> Vec<T> {
        self.into_vector().parts()
    }
}
impl<T: Fx, const N: usize> Parts<T> for Linear<T, N> {
    const LEN: usize = N * N;
    fn parts(&self) -> Vec<T> {
        self.into_matrix().parts()
    }
}
impl<T: Fx, const M: usize, const N: usize> Parts<T> for Matrix<Complex<T>, M, N> {
    const LEN: usize = 2 * M * N;
    fn parts(&self) -> Vec<T> {
        self.into_array_of_arrays().concat().iter().flat_map(|z| z.parts()).collect()
    }
}
impl<T: Fx, P: Copy + Debug + 'static> Parts<T> for Moebius<P>
where
    Matrix<P, 2, 2>: Parts<T>,
{
    const LEN: usize = <Matrix<P, 2, 2> as Parts<T>>::LEN;
    fn parts(&self) -> Vec<T> {
        self.into_matrix().parts()
    }
}

/// Chooses words for `n` normal numbers in a row; thinner alphabets for longer rows.
fn words<T: Fx>(ctx: &mut Ctx, n: usize) -> Vec<u64> {
    let k = match (n, ctx.thorough()) {
        (0..=3, _) => 60,
        (4, false) => 20,
        (4, true) => 50,
        (5, false) => 9,
        (5, true) => 20,
        (6, false) => 6,
        (6, true) => 10,
        (7..=8, false) => 4,
        (7..=8, true) => 6,
        (_, false) => 2,
        _ => 3,
    };
    let e = elements::<T>(60);
    // thin out evenly but keep the zero pair first and an ordinary one second
    let e: Vec<[u64; 2]> = if k >= e.len() { e } else {
        let rest = &e[2..];
        let m = k - 2;
        let mut v = vec![e[0], e[1]];
        v.extend((0..m).map(|i| rest[(i * rest.len() + rest.len() / 2) / m]));
        v
    };
    let free = n.min(10);
    let mut l = Vec::new();
    for _ in 0..free {
        l.extend(*ctx.pick(&e));
    }
    for i in free..n {
        l.extend(e[i % e.len()]);
    }
    l
}
/// Normal: every component is the next number drawn, in order; all finite.
fn normal<T: Fx, X: Parts<T>>(ctx: &mut Ctx)
where
    Normal: Distribution<T> + Distribution<X>,
{
    let l = words::<T>(ctx, X::LEN);
    ctx.note(|| format!("words {l:x?}"));
    let (mut a, mut b) = (Words::new(l.clone()), Words::new(l));
    let x: X = draw(ctx, &Normal, &mut a);
    let want: Vec<T> = (0..X::LEN).map(|_| draw(ctx, &Normal, &mut b)).collect();
    let got = x.parts();
    ctx.state(&got.iter().map(|x| x.bits()).collect::<Vec<_>>());
    ensure!(ctx, got.iter().all(|x| x.is_finite()), "components {got:?}");
    ensure!(ctx, got.len() == want.len() && got.iter().zip(&want).all(|(x, y)| same_bits(*x, *y)), "components {got:?}, the numbers drawn are {want:?}");
    same!(ctx, a.used, b.used, "words drawn");
}
fn norm<T: Fx>(v: &[T]) -> f64 {
    v.iter().map(|x| x.f() * x.f()).sum::<f64>().sqrt()
}
/// Draws of rows of normal numbers until one satisfies `good`; nothing if a row is too close to call.
fn first<T: Fx>(ctx: &mut Ctx, w: &mut Words, n: usize, good: &dyn Fn(&[T]) -> Option<bool>) -> Option<(Vec<T>, usize)>
where
    Normal: Distribution<T>,
{
    for round in 0.. {
        let v: Vec<T> = (0..n).map(|_| draw(ctx, &Normal, w)).collect();
        if good(&v)? {
            return Some((v, round));
        }
    }
    None
}
fn long<T: Fx>(v: &[T]) -> Option<bool> {
    let (n, e) = (norm(v), T::EPS.f());
    ((n - e).abs() > 1e-3 * e).then_some(n > e)
}
/// Choose how often the chosen row is repeated before the benign stream.
fn repeated(ctx: &mut Ctx, l: Vec<u64>) -> Vec<u64> {
    let k = *ctx.pick(&[1usize, 2, 7]);
    l.repeat(k)
}
fn nonzero<T: Fx, X: Parts<T>>(ctx: &mut Ctx)
where
    Normal: Distribution<T>,
    NonZero: Distribution<X>,
{
    let l = words::<T>(ctx, X::LEN);
    let l = repeated(ctx, l);
    ctx.note(|| format!("words {l:x?}"));
    let (mut a, mut b) = (Words::new(l.clone()), Words::new(l));
    let x: X = draw(ctx, &NonZero, &mut a);
    let got = x.parts();
    let n = norm(&got);
    ctx.state(&got.iter().map(|x| x.bits()).collect::<Vec<_>>());
    ensure!(ctx, got.iter().all(|x| x.is_finite()) && n > T::EPS.f() * 0.999, "sample {got:?} with norm {n:e}");
    if let Some((v, r)) = first::<T>(ctx, &mut b, X::LEN, &long::<T>) {
        ensure!(ctx, got.iter().zip(&v).all(|(x, y)| same_bits(*x, *y)), "sample {got:?}, the first acceptable draw (number {r}) is {v:?}");
        same!(ctx, a.used, b.used, "words drawn");
    }
}
fn unit<T: Fx, X: Parts<T>>(ctx: &mut Ctx)
where
    Normal: Distribution<T>,
    Unit: Distribution<X>,
{
    let l = words::<T>(ctx, X::LEN);
    let l = repeated(ctx, l);
    ctx.note(|| format!("words {l:x?}"));
    let (mut a, mut b) = (Words::new(l.clone()), Words::new(l));
    let x: X = draw(ctx, &Unit, &mut a);
    let got = x.parts();
    ctx.state(&got.iter().map(|x| x.bits()).collect::<Vec<_>>());
    let n = norm(&got);
    ensure!(ctx, (n - 1.0).abs() <= 8.0 * T::EPS.f(), "sample {got:?} of length {n}");
    if let Some((v, r)) = first::<T>(ctx, &mut b, X::LEN, &long::<T>) {
        let m = norm(&v);
        let ok = got.iter().zip(&v).all(|(x, y)| (x.f() - y.f() / m).abs() <= 8.0 * T::EPS.f());
        ensure!(ctx, ok, "sample {got:?}, the first acceptable draw (number {r}) has the direction of {v:?}");
        same!(ctx, a.used, b.used, "words drawn");
    }
}
/// All words of a grid: unit vectors have no preferred side or axis.
fn round<T: Fx, X: Parts<T>>(ctx: &mut Ctx)
where
    Unit: Distribution<X>,
{
    let k: u64 = [0, 64, 16, 8][X::LEN];
    let n = k.pow(2 * X::LEN as u32);
    let mut s = vec![0f64; X::LEN];
    let mut q = vec![0f64; X::LEN * X::LEN];
    for i in 0..n {
        let l = scalars::digits(i as usize, k as usize, 2 * X::LEN).into_iter().map(|d| (u64::MAX / (2 * k)) * (2 * d as u64 + 1)).collect();
        let x: X = draw(ctx, &Unit, &mut Words::new(l));
        let p = x.parts();
        for a in 0..X::LEN {
            s[a] += p[a].f() / n as f64;
            for b in 0..X::LEN {
                q[a * X::LEN + b] += p[a].f() * p[b].f() / n as f64;
            }
        }
    }
    ctx.state(&X::LEN);
    for a in 0..X::LEN {
        ensure!(ctx, s[a].abs() < 0.02, "unit vectors lean to one side: mean {s:?}");
        for b in 0..X::LEN {
            let w = if a == b { 1.0 / X::LEN as f64 } else { 0.0 };
            ensure!(ctx, (q[a * X::LEN + b] - w).abs() < 0.02, "unit vectors prefer an axis: {q:?}");
        }
    }
}

fn det(a: &[f64], n: usize) -> f64 {
    if n == 0 {
        return 1.0;
    }
    (0..n)
        .map(|j| {
            let m: Vec<f64> = (1..n).flat_map(|i| (0..n).filter(move |k| *k != j).map(move |k| a[i * n + k])).collect();
            (if j % 2 == 0 { 1.0 } else { -1.0 }) * a[j] * det(&m, n - 1)
        })
        .sum()
}
/// Rows of words for an n by n matrix: the matrix is chosen row by row so that rows can vanish or repeat.
fn matrix_words<T: Fx>(ctx: &mut Ctx, n: usize) -> Vec<u64> {
    if n <= 2 {
        return words::<T>(ctx, n * n);
    }
    let e = elements::<T>(60);
    let last = e.len() - 2;
    let mk = |f: &dyn Fn(usize) -> [u64; 2]| -> Vec<u64> { (0..n).flat_map(|j| f(j)).collect() };
    let rows: Vec<Vec<u64>> = vec![
        mk(&|_| e[0]),
        mk(&|_| e[1]),
        mk(&|j| if j == 0 { e[1] } else { e[0] }),
        mk(&|j| [e[last], e[1], e[2], e[4]][j % 4]),
        mk(&|j| [e[3], e[last], e[5], e[1]][j % 4]),
        mk(&|j| if j == 1 { e[last] } else { e[6] }),
        mk(&|j| if j + 1 == n { e[last] } else { e[5] }),
        mk(&|j| if j % 2 == 0 { e[8] } else { e[3] }),
    ];
    let rows = if n == 4 && !ctx.thorough() { rows[..7].to_vec() } else { rows };
    (0..n).flat_map(|_| ctx.pick(&rows).clone()).collect()
}
/// Acceptable, not acceptable or too close to call by rounding.
fn regular<T: Fx>(v: &[T], n: usize) -> Option<bool> {
    let f: Vec<f64> = v.iter().map(|x| x.f()).collect();
    let d = det(&f, n).abs();
    let size: f64 = (0..n).map(|i| f[i * n..(i + 1) * n].iter().map(|x| x.abs()).sum::<f64>()).product();
    let slack = 16.0 * T::EPS.f() * size + 1e-3 * T::EPS.f();
    ((d - T::EPS.f()).abs() > slack).then_some(d > T::EPS.f())
}
fn invertible<T: Fx, X: Parts<T>, const N: usize>(ctx: &mut Ctx)
where
    Normal: Distribution<T>,
    Invertible: Distribution<X>,
{
    let l = matrix_words::<T>(ctx, N);
    let l = repeated(ctx, l);
    ctx.note(|| format!("words {l:x?}"));
    let (mut a, mut b) = (Words::new(l.clone()), Words::new(l));
    let x: X = draw(ctx, &Invertible, &mut a);
    let got = x.parts();
    ctx.state(&got.iter().map(|x| x.bits()).collect::<Vec<_>>());
    ensure!(ctx, got.iter().all(|x| x.is_finite()), "sample {got:?}");
    ensure!(ctx, regular(&got, N) != Some(false), "sample {got:?} is singular");
    if let Some((v, r)) = first::<T>(ctx, &mut b, N * N, &|v| regular(v, N)) {
        ensure!(ctx, got.iter().zip(&v).all(|(x, y)| same_bits(*x, *y)), "sample {got:?}, the first acceptable draw (number {r}) is {v:?}");
        same!(ctx, a.used, b.used, "words drawn");
    }
}
fn complex_moebius<T: Fx>(ctx: &mut Ctx)
where
    Normal: Distribution<T>,
    Invertible: Distribution<Moebius<Complex<T>>> + Distribution<Matrix<Complex<T>, 2, 2>>,
{
    let l = words::<T>(ctx, 8);
    let l = repeated(ctx, l);
    ctx.note(|| format!("words {l:x?}"));
    let good = |v: &[T]| -> Option<bool> {
        let f: Vec<f64> = v.iter().map(|x| x.f()).collect();
        let m = |a: usize, b: usize| [f[a] * f[b] - f[a + 1] * f[b + 1], f[a] * f[b + 1] + f[a + 1] * f[b]];
        let (p, q) = (m(0, 6), m(2, 4));
        let d = [p[0] - q[0], p[1] - q[1]];
        // any usual magnitude of the determinant
        let (lo, hi) = (d[0].abs().max(d[1].abs()), d[0].abs() + d[1].abs());
        let size = 16.0 * T::EPS.f() * f.iter().map(|x| 1.0 + x.abs()).product::<f64>();
        if lo > T::EPS.f() + size {
            Some(true)
        } else if hi + size < T::EPS.f() || f.iter().all(|x| *x == 0.0) {
            Some(false)
        } else {
            None
        }
    };
    for form in 0..2 {
        let (mut a, mut b) = (Words::new(l.clone()), Words::new(l.clone()));
        let got = if form == 0 {
            let x: Moebius<Complex<T>> = draw(ctx, &Invertible, &mut a);
            x.parts()
        } else {
            let x: Matrix<Complex<T>, 2, 2> = draw(ctx, &Invertible, &mut a);
            x.parts()
        };
        ctx.state(&got.iter().map(|x| x.bits()).collect::<Vec<_>>());
        ensure!(ctx, got.iter().all(|x| x.is_finite()), "sample {got:?}");
        ensure!(ctx, good(&got) != Some(false), "sample {got:?} is singular");
        if let Some((v, r)) = first::<T>(ctx, &mut b, 8, &good) {
            ensure!(ctx, got.iter().zip(&v).all(|(x, y)| same_bits(*x, *y)), "sample {got:?}, the first acceptable draw (number {r}) is {v:?}");
            same!(ctx, a.used, b.used, "words drawn");
        }
    }
}
fn affine<T: Fx, const N: usize>(ctx: &mut Ctx)
where
    Normal: Distribution<T> + Distribution<Affine<T, N>>,
    Invertible: Distribution<Affine<T, N>>,
{
    // the word rows appear as shift first or as linear part first
    let mut l = matrix_words::<T>(ctx, N);
    let s = elements::<T>(60)[1..1 + N].concat();
    if ctx.flag() {
        l.splice(0..0, s);
    } else {
        l.extend(s);
    }
    let l = repeated(ctx, l);
    ctx.note(|| format!("words {l:x?}"));
    let mut a = Words::new(l.clone());
    let x: Affine<T, N> = draw(ctx, &Invertible, &mut a);
    let (m, p) = (x.linear().parts(), x.shift().parts());
    ctx.state(&m.iter().chain(&p).map(|x| x.bits()).collect::<Vec<_>>());
    ensure!(ctx, m.iter().chain(&p).all(|x| x.is_finite()), "sample {x:?}");
    ensure!(ctx, regular(&m, N) != Some(false), "linear part {m:?} is singular");
    let (mut a, mut b) = (Words::new(l.clone()), Words::new(l));
    let x: Affine<T, N> = draw(ctx, &Normal, &mut a);
    let mut got: Vec<u64> = x.linear().parts().iter().chain(&x.shift().parts()).map(|x| x.bits()).collect();
    let mut want: Vec<u64> = (0..N * N + N).map(|_| { let y: T = draw(ctx, &Normal, &mut b); y.bits() }).collect();
    got.sort();
    want.sort();
    same!(ctx, got, want, "numbers in the map against those drawn");
    same!(ctx, a.used, b.used, "words drawn");
}
fn turn2<T: Fx>(ctx: &mut Ctx)
where
    Uniform: Distribution<Rotation2<T>>,
{
    let f = fractions::<T>();
    let l = vec![*ctx.pick(&f)];
    ctx.note(|| format!("words {l:x?}"));
    let r: Rotation2<T> = draw(ctx, &Uniform, &mut Words::new(l.clone()));
    let z = r.into_complex();
    ctx.state(&(z.re().bits(), z.im().bits()));
    let n = norm(&[z.re(), z.im()]);
    ensure!(ctx, (n - 1.0).abs() <= 8.0 * T::EPS.f(), "rotation {r:?} is not proper");
}
/// Every part of the circle is reached equally.
fn circle<T: Fx>(ctx: &mut Ctx)
where
    Uniform: Distribution<Rotation2<T>>,
{
    let n = 1 << 14;
    let mut parts = [0u32; 16];
    for i in 0..n as u64 {
        let r: Rotation2<T> = draw(ctx, &Uniform, &mut Words::new(vec![((2 * i + 1) << 49)]));
        let a = r.angle().f().rem_euclid(std::f64::consts::TAU) / std::f64::consts::TAU;
        parts[((a * 16.0) as usize).min(15)] += 1;
    }
    ctx.state(&parts);
    ensure!(ctx, parts.iter().all(|c| (*c as i32 - n / 16).abs() <= 16), "rotations by sixteenths of the circle: {parts:?} of {n}");
}
fn turn3<T: Fx>(ctx: &mut Ctx)
where
    Uniform: Distribution<Rotation3<T>>,
{
    // eight words for a quaternion, or six for an axis and one for the angle, or the angle first
    let kind = ctx.choose(3);
    let mut l = words::<T>(ctx, if kind == 0 { 4 } else { 3 });
    if kind > 0 {
        let a = *ctx.pick(&[0, 1 << 63, u64::MAX, 3 << 61, 1 << (64 - T::BITS)]);
        l.insert(if kind == 1 { 0 } else { l.len() }, a);
    }
    ctx.note(|| format!("words {l:x?}"));
    let r: Rotation3<T> = draw(ctx, &Uniform, &mut Words::new(l));
    let q = r.into_quaternion().into_array();
    ctx.state(&q.map(|x| x.bits()));
    let n = norm(&q);
    ensure!(ctx, (n - 1.0).abs() <= 16.0 * T::EPS.f(), "rotation {r:?} is not proper");
}
/// Rotations of space are spread evenly: over a grid for the first eight words, the axis is as often in every octant,
/// half the angle has the density of a sine squared, and the quaternion parts have the moments of the unit sphere.
/// (A rotation and its quaternion's negative are the same.)
fn sphere<T: Fx>(ctx: &mut Ctx)
where
    Uniform: Distribution<Rotation3<T>>,
{
    // even, and no multiple of a quarter circle: neither half nor whole circles favour a side
    let k: u64 = 8;
    let n = k.pow(8);
    let (mut oct, mut sin, mut m, mut m4) = ([0u32; 8], [0u32; 8], [[0f64; 4]; 4], [0f64; 4]);
    for i in 0..n {
        if i % 4096 == 0 {
            ctx.alive();
        }
        let l = scalars::digits(i as usize, k as usize, 8).into_iter().map(|d| (u64::MAX / (2 * k)) * (2 * d as u64 + 1)).collect();
        let r: Rotation3<T> = draw(ctx, &Uniform, &mut Words::new(l));
        let mut q = r.into_quaternion().into_array().map(|x| x.f());
        if q[0] < 0.0 {
            q = q.map(|x| -x);
        }
        let s = norm(&q[1..]);
        let o = (1..4).fold(0, |o, j| 2 * o + (q[j] > 0.0) as usize);
        // positions with an axis on the border between octants count for neither side
        if (1..4).all(|j| q[j].abs() > 1e-6) {
            oct[o] += 1;
        }
        let half = s.atan2(q[0]) / std::f64::consts::FRAC_PI_2;
        sin[((half * 8.0) as usize).min(7)] += 1;
        for j in 0..4 {
            for h in 0..4 {
                m[j][h] += q[j] * q[h] / n as f64;
            }
            m4[j] += q[j].powi(4) / n as f64;
        }
    }
    ctx.state(&(oct, sin));
    let all: f64 = oct.iter().map(|c| *c as f64).sum();
    ensure!(ctx, all > 0.5 * n as f64 && oct.iter().all(|c| (*c as f64 / all - 0.125).abs() < 0.02), "rotation axes by octant: {oct:?} of {n}");
    let even = |j: usize, h: usize| if j == h { 0.25 } else { 0.0 };
    let ok = (0..4).all(|j| (0..4).all(|h| (m[j][h] - even(j, h)).abs() < if j.min(h) == 0 && j != h { 0.05 } else { 0.03 }));
    ensure!(ctx, ok, "mean products of the quaternion parts, evenly a quarter of the identity: {m:?}");
    ensure!(ctx, m4.iter().all(|x| (x - 0.125).abs() < 0.03), "mean fourth powers of the quaternion parts, evenly an eighth: {m4:?}");
    let below = |x: f64| x - (x * std::f64::consts::PI).sin() / std::f64::consts::PI;
    let want: Vec<f64> = (0..8).map(|i| below((i + 1) as f64 / 8.0) - below(i as f64 / 8.0)).collect();
    ensure!(ctx, sin.iter().zip(&want).all(|(c, w)| (*c as f64 / n as f64 - w).abs() < 0.09), "rotations by eighths of a half turn: {sin:?} of {n}, evenly {want:?}");
}
/// Many unacceptable draws in a row are all redrawn.
fn rejected<T: Fx>(ctx: &mut Ctx)
where
    Normal: Distribution<T>,
    NonZero: Distribution<Vector<T, 3>> + Distribution<Complex<T>> + Distribution<Quaternion<T>>,
    Unit: Distribution<Vector<T, 3>> + Distribution<Complex<T>> + Distribution<Quaternion<T>>,
    Invertible: Distribution<Matrix<T, 3, 3>> + Distribution<Linear<T, 2>> + Distribution<Moebius<T>>,
{
    let k = *ctx.pick(&[0usize, 1, 2, 3, 4, 5, 8, 16, 64, 200]);
    let which = ctx.choose(9);
    let ones = ctx.flag();
    ctx.note(|| format!("{k} rows of zeros, distribution {which}, then words of {}", if ones { "ones" } else { "the benign stream" }));
    let (n, m) = ([3, 2, 4, 3, 2, 4, 9, 4, 4][which], which);
    let mut l = vec![0; 2 * n * k];
    if ones && m < 6 {
        l.extend(vec![u64::MAX; 2 * n]);
    }
    let mut w = Words::new(l.clone());
    let got: Vec<T> = match m {
        0 => { let x: Vector<T, 3> = draw(ctx, &NonZero, &mut w); x.parts() }
        1 => { let x: Complex<T> = draw(ctx, &NonZero, &mut w); x.parts() }
        2 => { let x: Quaternion<T> = draw(ctx, &NonZero, &mut w); x.parts() }
        3 => { let x: Vector<T, 3> = draw(ctx, &Unit, &mut w); x.parts() }
        4 => { let x: Complex<T> = draw(ctx, &Unit, &mut w); x.parts() }
        5 => { let x: Quaternion<T> = draw(ctx, &Unit, &mut w); x.parts() }
        6 => { let x: Matrix<T, 3, 3> = draw(ctx, &Invertible, &mut w); x.parts() }
        7 => { let x: Linear<T, 2> = draw(ctx, &Invertible, &mut w); x.parts() }
        _ => { let x: Moebius<T> = draw(ctx, &Invertible, &mut w); x.parts() }
    };
    ctx.state(&got.iter().map(|x| x.bits()).collect::<Vec<_>>());
    same!(ctx, w.used, 2 * n * (k + 1), "words drawn");
    let mut b = Words::new(l);
    b.used = 2 * n * k;
    let v: Vec<T> = (0..n).map(|_| draw(ctx, &Normal, &mut b)).collect();
    let s = if (3..6).contains(&m) { norm(&v) } else { 1.0 };
    let ok = got.iter().zip(&v).all(|(x, y)| (x.f() - y.f() / s).abs() <= 8.0 * T::EPS.f() * y.f().abs().max(1.0));
    ensure!(ctx, ok, "sample {got:?} after {k} rejections, the acceptable draw is {v:?}");
}

macro_rules! all {
    ($r:expr, $T:ident) => {{
        let t = stringify!($T);
        let r: &mut Reg = $r;
        r.add(format!("{t} normal number and scaling"), scalar::<$T>);
        r.add(format!("{t} normal numbers: all words of a grid"), shape::<$T>);
        r.add(format!("{t} normal numbers: large ones"), tails::<$T>);
        macro_rules! go { ($f:ident, $what:expr, $x:ty) => { r.add(format!("{t} {} {}", $what, stringify!($x).replace(' ', "")), $f::<$T, $x>) } }
        go!(normal, "normal", Vector<$T, 1>);
        go!(normal, "normal", Vector<$T, 2>);
        go!(normal, "normal", Vector<$T, 3>);
        go!(normal, "normal", Vector<$T, 4>);
        go!(normal, "normal", Vector<$T, 7>);
        go!(normal, "normal", Vector<$T, 0>);
        go!(normal, "normal", Matrix<$T, 2, 2>);
        go!(normal, "normal", Matrix<$T, 2, 3>);
        go!(normal, "normal", Matrix<$T, 3, 2>);
        go!(normal, "normal", Matrix<$T, 1, 4>);
        go!(normal, "normal", Matrix<$T, 3, 3>);
        go!(normal, "normal", Matrix<$T, 0, 2>);
        go!(normal, "normal", Complex<$T>);
        go!(normal, "normal", Quaternion<$T>);
        go!(normal, "normal", Shift<$T, 2>);
        go!(normal, "normal", Shift<$T, 3>);
        go!(normal, "normal", Linear<$T, 2>);
        go!(normal, "normal", Linear<$T, 3>);
        go!(normal, "normal", Matrix<Complex<$T>, 2, 2>);
        go!(nonzero, "nonzero", Vector<$T, 1>);
        go!(nonzero, "nonzero", Vector<$T, 2>);
        go!(nonzero, "nonzero", Vector<$T, 3>);
        go!(nonzero, "nonzero", Vector<$T, 4>);
        go!(nonzero, "nonzero", Vector<$T, 5>);
        go!(nonzero, "nonzero", Complex<$T>);
        go!(nonzero, "nonzero", Quaternion<$T>);
        go!(unit, "unit", Vector<$T, 1>);
        go!(unit, "unit", Vector<$T, 2>);
        go!(unit, "unit", Vector<$T, 3>);
        go!(unit, "unit", Vector<$T, 4>);
        go!(unit, "unit", Vector<$T, 5>);
        go!(unit, "unit", Complex<$T>);
        go!(unit, "unit", Quaternion<$T>);
        go!(round, "unit vectors: all words of a grid", Vector<$T, 1>);
        go!(round, "unit vectors: all words of a grid", Vector<$T, 2>);
        go!(round, "unit vectors: all words of a grid", Complex<$T>);
        if r.thorough() {
            go!(round, "unit vectors: all words of a grid", Vector<$T, 3>);
        }
        r.add(format!("{t} invertible matrix 1x1"), invertible::<$T, Matrix<$T, 1, 1>, 1>);
        r.add(format!("{t} invertible matrix 2x2"), invertible::<$T, Matrix<$T, 2, 2>, 2>);
        r.add(format!("{t} invertible matrix 3x3"), invertible::<$T, Matrix<$T, 3, 3>, 3>);
        r.add(format!("{t} invertible matrix 4x4"), invertible::<$T, Matrix<$T, 4, 4>, 4>);
        r.add(format!("{t} invertible linear 2"), invertible::<$T, Linear<$T, 2>, 2>);
        r.add(format!("{t} invertible linear 3"), invertible::<$T, Linear<$T, 3>, 3>);
        r.add(format!("{t} invertible Moebius map"), invertible::<$T, Moebius<$T>, 2>);
        r.add(format!("{t} invertible complex maps"), complex_moebius::<$T>);
        r.add(format!("{t} affine 1"), affine::<$T, 1>);
        r.add(format!("{t} affine 2"), affine::<$T, 2>);
        r.add(format!("{t} affine 3"), affine::<$T, 3>);
        r.add(format!("{t} uniform rotation of the plane"), turn2::<$T>);
        r.add(format!("{t} uniform rotation of the plane: the circle"), circle::<$T>);
        r.add(format!("{t} uniform rotation of space"), turn3::<$T>);
        r.add(format!("{t} uniform rotation of space: the sphere"), sphere::<$T>);
        r.add(format!("{t} many rejected draws"), rejected::<$T>);
    }};
}
fn build(r: &mut Reg) {
    each_n!(r, "per-component vector", per_vector, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33, 65]);
    each_mn!(r, "per-component matrix", per_matrix, [0 x 0, 0 x 3, 3 x 0, 1 x 1, 1 x 4, 4 x 1, 2 x 2, 2 x 3, 3 x 2, 3 x 3, 4 x 4, 2 x 5, 5 x 2, 9 x 8, 11 x 12]);
    all!(r, f64);
    all!(r, f32);
}
fn main() {
    mc::main(Check {
        prop: "C17",
        level: "model_checking",
        rule: "an execution is one assignment of words to the first draws of the generator (the environment's answers), followed by a benign stream; the real sampler runs on it and is compared with drawing component by component and redrawing until acceptable; states are distinct samples",
        assumptions: &["the generator's words beyond the chosen prefix are a fixed benign stream", "20000 words count as endless", "cases within rounding of the epsilon threshold may go either way"],
        build,
    });
}
