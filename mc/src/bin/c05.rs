//! C05: math functions act element by element; arguments broadcast along the right axis.
use mc::cont::Cont;
use mc::floats::*;
use mc::*;
use num_traits::Float;
use vecmat::{traits::Broadcast, Matrix, Vector};

/// Values for functions of one argument.
fn dense<T: Fl>(thorough: bool) -> Vec<T> {
    let mut v = special::<T>();
    for k in -40..=40 {
        v.push(T::lit(k as f64 / 8.0));
    }
    for e in [-300, -100, -38, -20, -8, -3, 3, 8, 20, 38, 100, 300] {
        v.push(T::lit(10f64.powi(e)));
        v.push(-T::lit(10f64.powi(e)));
    }
    for e in [22, 23, 24, 31, 51, 52, 53, 62, 63, 64] {
        let x = T::lit(2f64.powi(e));
        for y in [x, x.up(), x.down(), x - T::lit(0.5), -x, -(x.down())] {
            v.push(y);
        }
    }
    for x in [0.49999999, 0.99999999, 88.0, 89.0, 709.0, 710.0, 745.5, 6.2831853, 1e5 + 0.5] {
        v.push(T::lit(x));
        v.push(-T::lit(x));
    }
    if thorough {
        for k in 1..2000 {
            v.push(T::lit(k as f64 * 0.0137));
            v.push(-T::lit(k as f64 * 0.0137));
        }
    }
    v
}
/// Element `i` of an operand in rotation `k`: over all `k` every position sees every value.
fn rot<T: Copy>(vals: &[T], k: usize, step: usize, n: usize) -> Vec<T> {
    (0..n).map(|i| vals[(k + i * step) % vals.len()]).collect()
}
fn judge<T: Fl>(ctx: &mut Ctx, what: &str, x: &[T], got: &[T], want: &[T], exact: bool) {
    ctx.ops(1);
    for i in 0..want.len() {
        let ok = if exact { same_bits(got[i], want[i]) } else { same_num(got[i], want[i]) };
        ensure!(ctx, ok, "{} at position {} (element {:?}): got {:?}, expected {:?}", what, i, x[i], got[i], want[i]);
    }
}

macro_rules! table {
    ($C:ty, $T:ty; $($f:ident)*) => {
        vec![$( (stringify!($f), <$T as Float>::$f as fn($T) -> $T, <$C>::$f as fn($C) -> $C) ),*]
    };
}
macro_rules! unary_fn {
    ($ctx:ident, $C:ty, $T:ty) => {{
        let vals = dense::<$T>($ctx.thorough());
        let k = $ctx.choose(vals.len());
        let x = rot(&vals, k, 1, <$C as Cont<$T>>::LEN);
        let c = <$C>::of(&x);
        $ctx.note(|| format!("{:?}", x));
        let t: Vec<(&str, fn($T) -> $T, fn($C) -> $C)> = table!($C, $T;
            abs signum cbrt sqrt acos asin atan cosh sinh tan tanh log2 exp ln sin cos asinh acosh atanh floor ceil
            round trunc fract recip exp2 log10 exp_m1 ln_1p);
        for (name, f, g) in t {
            let want: Vec<$T> = x.iter().map(|a| f(*a)).collect();
            judge($ctx, name, &x, &g(c).list(), &want, true);
            if let Some(w) = want.first() {
                $ctx.state(&(name, w.bits()));
            }
        }
        let (s, co) = c.sin_cos();
        let ws: Vec<$T> = x.iter().map(|a| Float::sin_cos(*a).0).collect();
        let wc: Vec<$T> = x.iter().map(|a| Float::sin_cos(*a).1).collect();
        judge($ctx, "sin_cos (sine)", &x, &s.list(), &ws, true);
        judge($ctx, "sin_cos (cosine)", &x, &co.list(), &wc, true);
    }};
}
/// A float by its bits.
trait Bits: Fl {
    /// The floats with the given 16 highest bits: a few (quick) or, for f32, all of them.
    fn block(high: u32, all: bool) -> Vec<Self>;
}
impl Bits for f32 {
    fn block(high: u32, all: bool) -> Vec<f32> {
        if all { (0..=0xffff).map(|l| f32::from_bits(high << 16 | l)).collect() } else { [0, 1, 0x5a3c, 0x8000, 0xffff].map(|l| f32::from_bits(high << 16 | l)).to_vec() }
    }
}
impl Bits for f64 {
    fn block(high: u32, all: bool) -> Vec<f64> {
        let h = (high as u64) << 48;
        let mut v = [0, 1, 0x5a3c_9876_1234, 0x8000_0000_0000, 0xffff_ffff_ffff].map(|l| f64::from_bits(h | l)).to_vec();
        if all {
            v.extend((0..4096).map(|l| f64::from_bits(h | l << 36 | l ^ 0xfff)));
        }
        v
    }
}
const UNARY: usize = 29;
/// One function over every sign, exponent and high mantissa part (thoroughly: over every f32).
fn sweep<T: Bits>(ctx: &mut Ctx) {
    type V<T> = Vector<T, 8>;
    let (k, high) = (ctx.choose(UNARY), ctx.choose(0x10000));
    let t: Vec<(&str, fn(T) -> T, fn(V<T>) -> V<T>)> = table!(V<T>, T;
        abs signum cbrt sqrt acos asin atan cosh sinh tan tanh log2 exp ln sin cos asinh acosh atanh floor ceil
        round trunc fract recip exp2 log10 exp_m1 ln_1p);
    let (name, f, g) = t[k];
    // the whole of f32 in the build without debug assertions only
    let vals = T::block(high as u32, ctx.thorough() && !cfg!(debug_assertions));
    for c in vals.chunks(8) {
        let x: Vec<T> = (0..8).map(|i| c[i % c.len()]).collect();
        let want: Vec<T> = x.iter().map(|a| f(*a)).collect();
        judge(ctx, name, &x, &g(V::of(&x)).list(), &want, true);
    }
    if high % 64 == 0 {
        ctx.state(&(k, f(vals[0]).bits()));
    }
}
fn v_unary<T: Fl, const N: usize>(ctx: &mut Ctx) {
    unary_fn!(ctx, Vector<T, N>, T)
}
fn m_unary<T: Fl, const M: usize, const N: usize>(ctx: &mut Ctx) {
    unary_fn!(ctx, Matrix<T, M, N>, T)
}

fn v_binary<T: Fl, const N: usize>(ctx: &mut Ctx) {
    let vals = special::<T>();
    let x = rot(&vals, ctx.choose(vals.len()), 1, N);
    let y = rot(&vals, ctx.choose(vals.len()), 7, N);
    let c = Vector::<T, N>::of(&x);
    ctx.note(|| format!("{:?} with {:?}", x, y));
    bin_kind(ctx, &x, &|f| f.v(c, Vector::of(&y)), &y, "with a vector");
    let s = y.first().copied().unwrap_or(T::one());
    bin_kind(ctx, &x, &|f| f.v(c, s), &vec![s; N], "with a scalar");
}
fn m_binary<T: Fl, const M: usize, const N: usize>(ctx: &mut Ctx) {
    let vals = special::<T>();
    let x = rot(&vals, ctx.choose(vals.len()), 1, M * N);
    let y = rot(&vals, ctx.choose(vals.len()), 7, M * N);
    let c = Matrix::<T, M, N>::of(&x);
    ctx.note(|| format!("{:?} with {:?}", x, y));
    bin_kind(ctx, &x, &|f| f.m(c, Matrix::of(&y)), &y, "with a matrix");
    let s = y.first().copied().unwrap_or(T::one());
    bin_kind(ctx, &x, &|f| f.m(c, s), &vec![s; M * N], "with a scalar");
    let row = if M == 0 { vec![T::one(); N] } else { y[..N].to_vec() };
    let full: Vec<T> = (0..M * N).map(|k| row[k % N]).collect();
    bin_kind(ctx, &x, &|f| f.m(c, Vector::<T, N>::of(&row)), &full, "with a vector per row");
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Bin {
    AbsSub,
    Min,
    Max,
    Atan2,
    Hypot,
    Powf,
    Log,
}
const BINS: [Bin; 7] = [Bin::AbsSub, Bin::Min, Bin::Max, Bin::Atan2, Bin::Hypot, Bin::Powf, Bin::Log];
impl Bin {
    #[allow(deprecated)]
    fn scalar<T: Fl>(self, a: T, b: T) -> T {
        match self {
            Bin::AbsSub => Float::abs_sub(a, b),
            Bin::Min => Float::min(a, b),
            Bin::Max => Float::max(a, b),
            Bin::Atan2 => Float::atan2(a, b),
            Bin::Hypot => Float::hypot(a, b),
            Bin::Powf => Float::powf(a, b),
            Bin::Log => Float::log(a, b),
        }
    }
    fn v<T: Fl, const N: usize, B: Broadcast<Vector<T, N>>>(self, c: Vector<T, N>, y: B) -> Vec<T> {
        match self {
            Bin::AbsSub => c.abs_sub(y),
            Bin::Min => c.vmin(y),
            Bin::Max => c.vmax(y),
            Bin::Atan2 => c.atan2(y),
            Bin::Hypot => c.hypot(y),
            Bin::Powf => c.powf(y),
            Bin::Log => c.log(y),
        }
        .list()
    }
    fn m<T: Fl, const M: usize, const N: usize, B: Broadcast<Matrix<T, M, N>>>(self, c: Matrix<T, M, N>, y: B) -> Vec<T> {
        match self {
            Bin::AbsSub => c.abs_sub(y),
            Bin::Min => c.vmin(y),
            Bin::Max => c.vmax(y),
            Bin::Atan2 => c.atan2(y),
            Bin::Hypot => c.hypot(y),
            Bin::Powf => c.powf(y),
            Bin::Log => c.log(y),
        }
        .list()
    }
}
fn bin_kind<T: Fl>(ctx: &mut Ctx, x: &[T], run: &dyn Fn(Bin) -> Vec<T>, full: &[T], kind: &str) {
    for f in BINS {
        let want: Vec<T> = x.iter().zip(full).map(|(a, b)| f.scalar(*a, *b)).collect();
        let exact = !matches!(f, Bin::AbsSub | Bin::Min | Bin::Max);
        judge(ctx, &format!("{:?} {}", f, kind), x, &run(f), &want, exact);
        if let Some(w) = want.first() {
            ctx.state(&(f as u8, kind, w.bits()));
        }
    }
}

const POWERS: [i32; 14] = [0, 1, -1, 2, -2, 3, -3, 4, 7, -10, 63, 1000, i32::MAX, i32::MIN];
fn v_powi<T: Fl, const N: usize>(ctx: &mut Ctx) {
    let vals = special::<T>();
    let x = rot(&vals, ctx.choose(vals.len()), 1, N);
    let p = rot(&POWERS, ctx.choose(POWERS.len()), 5, N);
    let c = Vector::<T, N>::of(&x);
    let w: Vec<T> = x.iter().zip(&p).map(|(a, b)| Float::powi(*a, *b)).collect();
    judge(ctx, "powi with a vector", &x, &c.powi(Vector::of(&p)).list(), &w, true);
    let s = p.first().copied().unwrap_or(1);
    let w: Vec<T> = x.iter().map(|a| Float::powi(*a, s)).collect();
    judge(ctx, "powi with a scalar", &x, &c.powi(s).list(), &w, true);
    ctx.state(&w.first().map(|w| w.bits()));
}
fn m_powi<T: Fl, const M: usize, const N: usize>(ctx: &mut Ctx) {
    let vals = special::<T>();
    let x = rot(&vals, ctx.choose(vals.len()), 1, M * N);
    let p = rot(&POWERS, ctx.choose(POWERS.len()), 5, (M * N).max(N).max(1));
    let c = Matrix::<T, M, N>::of(&x);
    let w: Vec<T> = x.iter().zip(&p).map(|(a, b)| Float::powi(*a, *b)).collect();
    judge(ctx, "powi with a matrix", &x, &c.powi(Matrix::of(&p[..M * N])).list(), &w, true);
    let s = p[0];
    let w: Vec<T> = x.iter().map(|a| Float::powi(*a, s)).collect();
    judge(ctx, "powi with a scalar", &x, &c.powi(s).list(), &w, true);
    let row = Vector::<i32, N>::of(&p[..N]);
    let w: Vec<T> = x.iter().enumerate().map(|(k, a)| Float::powi(*a, p[k % N])).collect();
    judge(ctx, "powi with a vector per row", &x, &c.powi(row).list(), &w, true);
    ctx.state(&w.first().map(|w| w.bits()));
}

/// The value limited from below by `a` and from above by `b`; crossed bounds leave either bound.
fn clamp_ok<T: Fl>(s: T, a: T, b: T, got: T) -> bool {
    if a > b {
        return got == a || got == b;
    }
    same_num(got, Float::min(Float::max(s, a), b))
}
fn ternary<T: Fl>(
    ctx: &mut Ctx, x: &[T], a: &[T], b: &[T], clamp: Vec<T>, fma: Vec<T>, kind: &str,
) {
    ctx.ops(2);
    for i in 0..x.len() {
        ensure!(ctx, clamp_ok(x[i], a[i], b[i], clamp[i]), "clamp {} at {}: {:?} between {:?} and {:?} gave {:?}",
                kind, i, x[i], a[i], b[i], clamp[i]);
        let w = Float::mul_add(x[i], a[i], b[i]);
        ensure!(ctx, same_bits(fma[i], w), "mul_add {} at {}: {:?} * {:?} + {:?} gave {:?}, expected {:?}",
                kind, i, x[i], a[i], b[i], fma[i], w);
    }
    if let Some(x) = clamp.first() {
        ctx.state(&(kind, x.bits(), fma[0].bits()));
    }
}
fn v_ternary<T: Fl, const N: usize>(ctx: &mut Ctx) {
    let vals = short::<T>();
    let x = rot(&vals, ctx.choose(vals.len()), 1, N);
    let a = rot(&vals, ctx.choose(vals.len()), 2, N);
    let b = rot(&vals, ctx.choose(vals.len()), 4, N);
    let c = Vector::<T, N>::of(&x);
    let (va, vb) = (Vector::<T, N>::of(&a), Vector::<T, N>::of(&b));
    let (sa, sb) = (vals[(a.len() * 3) % vals.len()], *b.first().unwrap_or(&T::one()));
    let sa = *a.last().unwrap_or(&sa);
    let (fa, fb) = (vec![sa; N], vec![sb; N]);
    ctx.note(|| format!("{:?} with {:?} and {:?}", x, a, b));
    ternary(ctx, &x, &a, &b, c.clamp(va, vb).list(), c.mul_add(va, vb).list(), "vector, vector");
    ternary(ctx, &x, &fa, &b, c.clamp(sa, vb).list(), c.mul_add(sa, vb).list(), "scalar, vector");
    ternary(ctx, &x, &a, &fb, c.clamp(va, sb).list(), c.mul_add(va, sb).list(), "vector, scalar");
    ternary(ctx, &x, &fa, &fb, c.clamp(sa, sb).list(), c.mul_add(sa, sb).list(), "scalar, scalar");
}
fn m_ternary<T: Fl, const M: usize, const N: usize>(ctx: &mut Ctx) {
    let vals = short::<T>();
    let n = M * N;
    let x = rot(&vals, ctx.choose(vals.len()), 1, n);
    let a = rot(&vals, ctx.choose(vals.len()), 2, n.max(N).max(1));
    let b = rot(&vals, ctx.choose(vals.len()), 4, n.max(N).max(1));
    let c = Matrix::<T, M, N>::of(&x);
    let (ma, mb) = (Matrix::<T, M, N>::of(&a[..n]), Matrix::<T, M, N>::of(&b[..n]));
    let (va, vb) = (Vector::<T, N>::of(&a[..N]), Vector::<T, N>::of(&b[..N]));
    let (sa, sb) = (a[n.max(1) - 1], b[0]);
    let (ra, rb): (Vec<T>, Vec<T>) = (0..n).map(|k| (a[k % N], b[k % N])).unzip();
    let (fa, fb) = (vec![sa; n], vec![sb; n]);
    ctx.note(|| format!("{:?} with {:?} and {:?}", x, a, b));
    macro_rules! go {
        ($pa:expr, $la:expr, $pb:expr, $lb:expr, $k:literal) => {
            ternary(ctx, &x, $la, $lb, c.clamp($pa, $pb).list(), c.mul_add($pa, $pb).list(), $k)
        };
    }
    go!(ma, &a, mb, &b, "matrix, matrix");
    go!(ma, &a, vb, &rb, "matrix, row");
    go!(ma, &a, sb, &fb, "matrix, scalar");
    go!(va, &ra, mb, &b, "row, matrix");
    go!(va, &ra, vb, &rb, "row, row");
    go!(va, &ra, sb, &fb, "row, scalar");
    go!(sa, &fa, mb, &b, "scalar, matrix");
    go!(sa, &fa, vb, &rb, "scalar, row");
    go!(sa, &fa, sb, &fb, "scalar, scalar");
}

/// Broadcasting itself, with labels.
fn broadcast<const M: usize, const N: usize>(ctx: &mut Ctx) {
    let row: Vec<u32> = (0..N as u32).map(|k| 50 + k).collect();
    let m: Matrix<u32, M, N> = Broadcast::broadcast(Vector::<u32, N>::of(&row));
    same!(ctx, m.list(), (0..M).flat_map(|_| row.clone()).collect::<Vec<_>>(), "row broadcast");
    let m: Matrix<u32, M, N> = Broadcast::broadcast(9u32);
    same!(ctx, m.list(), vec![9u32; M * N], "scalar broadcast to a matrix");
    let l: Vec<u32> = (0..(M * N) as u32).collect();
    let m: Matrix<u32, M, N> = Broadcast::broadcast(Matrix::<u32, M, N>::of(&l));
    same!(ctx, m.list(), l, "matrix broadcast");
    let v: Vector<u32, N> = Broadcast::broadcast(4u32);
    same!(ctx, v.list(), vec![4u32; N], "scalar broadcast to a vector");
    let v: Vector<u32, N> = Broadcast::broadcast(Vector::<u32, N>::of(&row));
    same!(ctx, v.list(), row, "vector broadcast");
    ctx.ops(5);
    ctx.state(&(M, N));
}

fn build(r: &mut Reg) {
    each_n!(r, "unary", v_unary<f64>, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33, 65, 129]);
    each_n!(r, "unary", v_unary<f32>, [1, 2, 3, 4, 8]);
    r.add("sweep<f32>", sweep::<f32>);
    r.add("sweep<f64>", sweep::<f64>);
    each_mn!(r, "m-unary", m_unary<f64>, [1 x 1, 1 x 2, 2 x 1, 2 x 2, 1 x 3, 3 x 1, 2 x 3, 3 x 2, 3 x 3, 3 x 4, 4 x 3, 4 x 4, 0 x 2, 2 x 0, 5 x 5, 9 x 8, 17 x 11]);
    each_mn!(r, "m-unary", m_unary<f32>, [1 x 1, 2 x 2, 3 x 2]);
    each_n!(r, "binary", v_binary<f64>, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 33, 65, 129]);
    each_n!(r, "binary", v_binary<f32>, [1, 2, 3, 4, 8]);
    each_mn!(r, "m-binary", m_binary<f64>, [1 x 1, 1 x 2, 2 x 1, 2 x 2, 1 x 3, 3 x 1, 2 x 3, 3 x 2, 3 x 3, 3 x 4, 4 x 3, 4 x 4, 5 x 5, 9 x 8, 17 x 11, 0 x 2, 2 x 0]);
    each_mn!(r, "m-binary", m_binary<f32>, [1 x 1, 2 x 2, 2 x 3, 3 x 2]);
    each_n!(r, "powi", v_powi<f64>, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33, 65]);
    each_n!(r, "powi", v_powi<f32>, [1, 2, 3, 4]);
    each_mn!(r, "m-powi", m_powi<f64>, [1 x 1, 1 x 2, 2 x 1, 2 x 2, 1 x 3, 3 x 1, 2 x 3, 3 x 2, 3 x 3, 3 x 4, 4 x 3, 4 x 4, 5 x 5, 0 x 2, 2 x 0, 9 x 8]);
    each_mn!(r, "m-powi", m_powi<f32>, [2 x 2, 2 x 3]);
    each_n!(r, "ternary", v_ternary<f64>, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33, 65]);
    each_n!(r, "ternary", v_ternary<f32>, [1, 2, 3, 4]);
    each_mn!(r, "m-ternary", m_ternary<f64>, [1 x 1, 1 x 2, 2 x 1, 2 x 2, 1 x 3, 3 x 1, 2 x 3, 3 x 2, 3 x 3, 3 x 4, 4 x 3, 4 x 4, 5 x 5, 0 x 2, 2 x 0, 9 x 8]);
    each_mn!(r, "m-ternary", m_ternary<f32>, [2 x 2, 2 x 3, 3 x 2]);
    each_mn!(r, "broadcast", broadcast, [
        1 x 1, 1 x 2, 2 x 1, 2 x 2, 2 x 3, 3 x 2, 3 x 3, 3 x 4, 4 x 3, 4 x 4, 5 x 5, 1 x 9, 9 x 1, 0 x 2, 2 x 0, 6 x 6, 9 x 8, 8 x 9, 11 x 17
    ]);
}

fn main() {
    mc::main(Check {
        prop: "C05",
        level: "model_checking",
        rule: "every execution = one rotation of each operand alphabet (over all rotations every position sees every \
               value, and every pair or triple of values meets) through every function and broadcast kind; a state is \
               a distinct (function, first result) per scenario, a transition one function application compared with \
               the element type's function",
        assumptions: &[
            "the element type's own function is the oracle, bit for bit (signed zeros alike for min, max, clamp, abs_sub)",
            "all NaNs count as one value",
        ],
        build,
    });
}
