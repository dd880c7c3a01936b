//! C21: summing or multiplying a sequence folds it left to right from the identity.
use mc::scalars::*;
use mc::*;
use num_traits::{One, Zero};
use std::cell::Cell;
use std::fmt::Debug;
use std::iter::{Product, Sum};
use std::ops::{Add, Mul};
use vecmat::{Complex, Matrix, Quaternion, Vector};

thread_local!(static LIVE: Cell<i64> = Cell::new(0));

/// Free monoid: `+` and `*` both append, the identity is the empty word, so two results agree
/// exactly when they agree for every associative operation with identity. Owned, counted.
#[derive(Debug, PartialEq)]
struct Word(Vec<u16>);
impl Word {
    fn new(v: Vec<u16>) -> Self {
        LIVE.with(|l| l.set(l.get() + 1));
        Word(v)
    }
}
impl Drop for Word {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}
fn cat(mut a: Word, b: Word) -> Word {
    a.0.extend_from_slice(&b.0);
    a
}
impl Add for Word {
    type Output = Word;
    fn add(self, o: Word) -> Word {
        cat(self, o)
    }
}
impl Mul for Word {
    type Output = Word;
    fn mul(self, o: Word) -> Word {
        cat(self, o)
    }
}
impl Zero for Word {
    fn zero() -> Word {
        Word::new(vec![])
    }
    fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
}
impl One for Word {
    fn one() -> Word {
        Word::new(vec![])
    }
}

/// Source that reports each poll; ends (returns nothing) at `end` once and would go on after it.
struct Source<'a, T> {
    items: Vec<Option<T>>,
    at: usize,
    end: usize,
    taken: &'a Cell<usize>,
    hint: (usize, Option<usize>),
}
impl<'a, T> Iterator for Source<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.at == self.end {
            self.end = usize::MAX;
            return None;
        }
        let r = self.items.get_mut(self.at)?.take();
        self.at += 1;
        self.taken.set(self.taken.get() + 1);
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

/// Runs one sum/product over `items`, of which only the first `end` may be used.
fn run<T: Debug + Sum + Product>(ctx: &mut Ctx, items: Vec<T>, end: usize, product: bool) -> T {
    let n = items.len();
    let taken = Cell::new(0);
    // every legal size hint must do
    let hint = match ctx.choose(3) {
        0 => (end, Some(end)),
        1 => (0, None),
        _ => (0, Some(n + 3)),
    };
    let mut src = Source { items: items.into_iter().map(Some).collect(), at: 0, end, taken: &taken, hint };
    let by_ref = ctx.flag();
    let r = match (by_ref, product) {
        (true, false) => src.by_ref().sum::<T>(),
        (true, true) => src.by_ref().product::<T>(),
        (false, false) => src.sum::<T>(),
        (false, true) => src.product::<T>(),
    };
    ctx.ops(end as u64 + 1);
    same!(ctx, taken.get(), end, "items taken from a source of {} that ends after {}", n, end);
    r
}

// ------------------------------------------------------------------ containers of words

trait Words: Sum + Product + Debug {
    const LEN: usize;
    fn of(l: Vec<Word>) -> Self;
    fn list(self) -> Vec<Word>;
}
impl<const N: usize> Words for Vector<Word, N> {
    const LEN: usize = N;
    fn of(l: Vec<Word>) -> Self {
        let mut i = l.into_iter();
        Vector::from_array(std::array::from_fn(|_| i.next().unwrap()))
    }
    fn list(self) -> Vec<Word> {
        self.into_array().into_iter().collect()
    }
}
impl<const M: usize, const N: usize> Words for Matrix<Word, M, N> {
    const LEN: usize = M * N;
    fn of(l: Vec<Word>) -> Self {
        let mut i = l.into_iter();
        Matrix::from_array_of_arrays(std::array::from_fn(|_| std::array::from_fn(|_| i.next().unwrap())))
    }
    fn list(self) -> Vec<Word> {
        self.into_array_of_arrays().into_iter().flatten().collect()
    }
}
/// All lengths, all end points, all placements of identity items, both folds.
fn words<C: Words>(ctx: &mut Ctx) {
    let live = LIVE.with(|l| l.get());
    let max = if ctx.thorough() { 7 } else { 5 };
    let n = ctx.choose(max + 1);
    let end = ctx.choose(n + 1);
    let product = ctx.flag();
    // each item: distinct letters everywhere, all identities, or a letter at one position only
    let mut want = vec![Vec::new(); C::LEN];
    let mut items = Vec::new();
    for k in 0..n {
        let kind = ctx.choose(3);
        let l: Vec<Vec<u16>> = (0..C::LEN)
            .map(|p| match kind {
                0 => vec![(k * 256 + p) as u16],
                1 => vec![],
                _ if p == k % C::LEN.max(1) => vec![(k * 256 + p) as u16],
                _ => vec![],
            })
            .collect();
        if k < end {
            for p in 0..C::LEN {
                want[p].extend_from_slice(&l[p]);
            }
        }
        items.push(C::of(l.into_iter().map(Word::new).collect()));
    }
    ctx.note(|| format!("{} items, end {}, product {}", n, end, product));
    let got = run(ctx, items, end, product).list();
    same!(ctx, got.iter().map(|w| w.0.clone()).collect::<Vec<_>>(), want, "fold of {} items ending after {} (product: {})", n, end, product);
    ctx.state(&got.iter().map(|w| w.0.clone()).collect::<Vec<_>>());
    drop(got);
    same!(ctx, LIVE.with(|l| l.get()), live, "elements alive after the fold");
}

// ------------------------------------------------------------------ numbers

/// Complete sequences over an alphabet, against plain folding of component lists.
fn seq<T, S: Copy + Debug + PartialEq>(
    ctx: &mut Ctx,
    alphabet: &[S],
    max: usize,
    make: impl Fn(S) -> T,
    list: impl Fn(T) -> S,
    zero: S,
    one: S,
    add: impl Fn(S, S) -> S,
    mul: impl Fn(S, S) -> S,
) where
    T: Sum + Product + Debug,
    S: std::hash::Hash,
{
    let n = ctx.choose(max + 1);
    let items: Vec<S> = (0..n).map(|_| *ctx.pick(alphabet)).collect();
    let product = ctx.flag();
    let mut want = if product { one } else { zero };
    for &x in &items {
        want = if product { mul(want, x) } else { add(want, x) };
    }
    let it = items.iter().map(|&x| make(x));
    let got = list(if product { it.product::<T>() } else { it.sum::<T>() });
    ctx.ops(n as u64 + 1);
    ctx.state(&got);
    same!(ctx, got, want, "{} of {:?}", if product { "product" } else { "sum" }, items);
}

fn cmul<S: Copy + Add<Output = S> + Mul<Output = S> + std::ops::Sub<Output = S>>(a: [S; 2], b: [S; 2]) -> [S; 2] {
    [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]]
}
fn qmul<S: Copy + Add<Output = S> + Mul<Output = S> + std::ops::Sub<Output = S>>(a: [S; 4], b: [S; 4]) -> [S; 4] {
    [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ]
}
fn complex_field(ctx: &mut Ctx) {
    let all: Vec<[F3; 2]> = F3::all().into_iter().flat_map(|a| F3::all().into_iter().map(move |b| [a, b])).collect();
    let max = if ctx.thorough() { 6 } else { 5 };
    seq(ctx, &all, max, |s| Complex::new(s[0], s[1]), |c| [c.re(), c.im()], [F3::new(0); 2], [F3::new(1), F3::new(0)], |a, b| [a[0] + b[0], a[1] + b[1]], cmul);
}
fn complex_int(ctx: &mut Ctx) {
    let all: Vec<[i64; 2]> = (-2..=2).flat_map(|a| (-2..=2).map(move |b| [a, b])).collect();
    let max = if ctx.thorough() { 5 } else { 3 };
    seq(ctx, &all, max, |s| Complex::new(s[0], s[1]), |c| [c.re(), c.im()], [0; 2], [1, 0], |a, b| [a[0] + b[0], a[1] + b[1]], cmul);
}
fn qadd<S: Copy + Add<Output = S>>(a: [S; 4], b: [S; 4]) -> [S; 4] {
    std::array::from_fn(|i| a[i] + b[i])
}
fn qlist<S>(q: Quaternion<S>) -> [S; 4] {
    let (w, x, y, z) = q.into();
    [w, x, y, z]
}
fn quaternion_units(ctx: &mut Ctx) {
    let mut all = Vec::new();
    for i in 0..4 {
        for s in [1i64, -1] {
            let mut u = [0; 4];
            u[i] = s;
            all.push(u);
        }
    }
    all.push([1, 2, 3, 5]);
    all.push([-2, 1, -1, 3]);
    all.push([0; 4]);
    let max = if ctx.thorough() { 6 } else { 4 };
    seq(ctx, &all, max, |s| Quaternion::new(s[0], s[1], s[2], s[3]), qlist, [0; 4], [1, 0, 0, 0], qadd, qmul);
}
fn quaternion_field(ctx: &mut Ctx) {
    let all: Vec<[F3; 4]> = (0..81).map(|i| { let d = digits(i, 3, 4); std::array::from_fn(|k| Fp(d[k] as u32)) }).collect();
    let max = if ctx.thorough() { 4 } else { 3 };
    let o = F3::new(0);
    seq(ctx, &all, max, |s| Quaternion::new(s[0], s[1], s[2], s[3]), qlist, [o; 4], [F3::new(1), o, o, o], qadd, qmul);
}
/// Integers and a non-commuting ring inside vectors and matrices: products stay elementwise.
fn vector_nc<const N: usize>(ctx: &mut Ctx) {
    let all: Vec<[Nc; N]> = (0..5u32).map(|k| std::array::from_fn(|p| Nc::letter(k * 16 + p as u32))).chain([[Nc::zero(); N], [Nc::one(); N]]).collect();
    let max = if ctx.thorough() { 6 } else { 4 };
    seq(ctx, &all, max, Vector::from_array, |v| v.into_array(), [Nc::zero(); N], [Nc::one(); N], |a, b| std::array::from_fn(|i| a[i] + b[i]), |a, b| std::array::from_fn(|i| a[i] * b[i]));
}
fn matrix_nc<const M: usize, const N: usize>(ctx: &mut Ctx) {
    type A<const M: usize, const N: usize> = [[Nc; N]; M];
    let f = |k: u32| -> A<M, N> { std::array::from_fn(|i| std::array::from_fn(|j| Nc::letter(k * 64 + (i * 8 + j) as u32))) };
    let all: Vec<A<M, N>> = (0..4).map(f).chain([[[Nc::zero(); N]; M], [[Nc::one(); N]; M]]).collect();
    let max = if ctx.thorough() { 6 } else { 4 };
    seq(
        ctx, &all, max, Matrix::from_array_of_arrays, |v| v.into_array_of_arrays(),
        [[Nc::zero(); N]; M], [[Nc::one(); N]; M],
        |a, b| std::array::from_fn(|i| std::array::from_fn(|j| a[i][j] + b[i][j])),
        |a, b| std::array::from_fn(|i| std::array::from_fn(|j| a[i][j] * b[i][j])),
    );
}
/// Floats do not associate: the sequence order decides the rounding.
fn float(ctx: &mut Ctx) {
    const A: [f64; 8] = [1.0, 1e16, -1e16, 0.1, 3.0, 1e300, 1e-300, -7.5];
    let max = if ctx.thorough() { 6 } else { 5 };
    let n = ctx.choose(max + 1);
    let xs: Vec<f64> = (0..n).map(|_| *ctx.pick(&A)).collect();
    let (mut s, mut p) = (0.0, 1.0);
    for &x in &xs {
        s += x;
        p *= x;
    }
    let ok = |a: f64, b: f64| a == b || (a.is_nan() && b.is_nan());
    let v = || xs.iter().map(|&x| Vector::<f64, 2>::from([x, x]));
    let m = || xs.iter().map(|&x| Matrix::<f64, 2, 1>::from([[x], [x]]));
    let (vs, vp): (Vector<f64, 2>, Vector<f64, 2>) = (v().sum(), v().product());
    let (ms, mp): (Matrix<f64, 2, 1>, Matrix<f64, 2, 1>) = (m().sum(), m().product());
    ctx.ops(4);
    ctx.state(&(s.to_bits(), p.to_bits()));
    for i in 0..2 {
        ensure!(ctx, ok(vs[i], s) && ok(ms[(i, 0)], s), "sum of {:?}: {} and {}, in order it is {}", xs, vs[i], ms[(i, 0)], s);
        ensure!(ctx, ok(vp[i], p) && ok(mp[(i, 0)], p), "product of {:?}: {} and {}, in order it is {}", xs, vp[i], mp[(i, 0)], p);
    }
    let q: Quaternion<f64> = xs.iter().map(|&x| Quaternion::new(x, 0.0, x, 0.0)).sum();
    let c: Complex<f64> = xs.iter().map(|&x| Complex::new(x, -x)).sum();
    ensure!(ctx, ok(q.w(), s) && ok(q.y(), s) && ok(c.re(), s) && ok(c.im(), -s), "sum of {:?} as numbers: {:?}, {:?}", xs, q, c);
}

/// Long sequences of distinct items.
fn length(ctx: &mut Ctx, most: usize) -> usize {
    let mut l: Vec<usize> = (0..130).collect();
    l.extend([200, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4097, 10_000, 65_535, 65_536, 65_537, 70_000]);
    l.retain(|n| *n <= most);
    *ctx.pick(&l)
}
fn long<C: Words>(ctx: &mut Ctx) {
    let n = length(ctx, 4097);
    let product = ctx.flag();
    let items: Vec<C> = (0..n).map(|k| C::of((0..C::LEN).map(|p| Word::new(vec![(k * 16 + p) as u16])).collect())).collect();
    let got = run(ctx, items, n, product).list();
    for (p, w) in got.iter().enumerate() {
        same!(ctx, w.0, (0..n).map(|k| (k * 16 + p) as u16).collect::<Vec<_>>(), "element {} of a fold of {} items", p, n);
    }
}
fn long_numbers(ctx: &mut Ctx) {
    let n = length(ctx, 70_000);
    let a = ctx.pick(&[[1i64, 2, 3, 4], [0, 1, 0, 0], [-1, 0, 0, 1]]).map(|x| x);
    let (z, o) = (Fp::new(0), Fp::new(1));
    // no divisors of zero: every item leaves its mark on a product
    let xs: Vec<[Fp<101>; 4]> = (0..n as i64)
        .map(|k| {
            let mut x = a.map(|x| Fp::new(x * (k % 7 + 1) + k));
            let sq = |x: &[Fp<101>]| x.iter().fold(z, |s, x| s + *x * *x);
            while x.contains(&z) || sq(&x) == z || sq(&x[..2]) == z {
                for (i, y) in x.iter_mut().enumerate() {
                    *y = *y + Fp::new(1 + i as i64 * i as i64);
                }
            }
            x
        })
        .collect();
    let (qs, qp) = xs.iter().fold(([z; 4], [o, z, z, z]), |(s, p), &x| (qadd(s, x), qmul(p, x)));
    let (cs, cp) = xs.iter().fold(([z; 2], [o, z]), |(s, p), &x| ([s[0] + x[0], s[1] + x[1]], cmul(p, [x[0], x[1]])));
    let q = |x: &[Fp<101>; 4]| Quaternion::new(x[0], x[1], x[2], x[3]);
    let c = |x: &[Fp<101>; 4]| Complex::new(x[0], x[1]);
    ctx.ops(4 * n as u64);
    let (vs, vp) = xs.iter().fold(([z; 4], [o; 4]), |(s, p), x| (qadd(s, *x), std::array::from_fn(|i| p[i] * x[i])));
    let v = |x: &[Fp<101>; 4]| Vector::from_array(*x);
    let m = |x: &[Fp<101>; 4]| Matrix::from_array_of_arrays([[x[0], x[1]], [x[2], x[3]]]);
    let (s, p): (Vector<_, 4>, Vector<_, 4>) = (xs.iter().map(v).sum(), xs.iter().map(v).product());
    same!(ctx, (s.into_array(), p.into_array()), (vs, vp), "sum and product of {} vectors", n);
    let (s, p): (Matrix<_, 2, 2>, Matrix<_, 2, 2>) = (xs.iter().map(m).sum(), xs.iter().map(m).product());
    let flat = |m: Matrix<Fp<101>, 2, 2>| [m[(0, 0)], m[(0, 1)], m[(1, 0)], m[(1, 1)]];
    same!(ctx, (flat(s), flat(p)), (vs, vp), "sum and product of {} matrices", n);
    same!(ctx, qlist(xs.iter().map(q).sum()), qs, "sum of {} quaternions", n);
    same!(ctx, qlist(xs.iter().map(q).product()), qp, "product of {} quaternions", n);
    let (s, p): (Complex<_>, Complex<_>) = (xs.iter().map(c).sum(), xs.iter().map(c).product());
    same!(ctx, [s.re(), s.im()], cs, "sum of {} complex numbers", n);
    same!(ctx, [p.re(), p.im()], cp, "product of {} complex numbers", n);
}

fn build(r: &mut Reg) {
    r.add("long/V3", long::<Vector<Word, 3>>);
    r.add("long/M2x2", long::<Matrix<Word, 2, 2>>);
    r.add("long/numbers", long_numbers);
    r.add("words/V0", words::<Vector<Word, 0>>);
    r.add("words/V1", words::<Vector<Word, 1>>);
    r.add("words/V2", words::<Vector<Word, 2>>);
    r.add("words/V3", words::<Vector<Word, 3>>);
    r.add("words/V4", words::<Vector<Word, 4>>);
    r.add("words/V5", words::<Vector<Word, 5>>);
    r.add("words/V6", words::<Vector<Word, 6>>);
    r.add("words/V7", words::<Vector<Word, 7>>);
    r.add("words/V8", words::<Vector<Word, 8>>);
    r.add("words/V16", words::<Vector<Word, 16>>);
    r.add("words/V9", words::<Vector<Word, 9>>);
    r.add("words/V17", words::<Vector<Word, 17>>);
    r.add("words/V33", words::<Vector<Word, 33>>);
    r.add("words/V65", words::<Vector<Word, 65>>);
    macro_rules! m { ($($a:literal $b:literal),*) => { $( r.add(format!("words/M{}x{}", $a, $b), words::<Matrix<Word, $a, $b>>); )* } }
    m!(0 0, 0 2, 2 0, 1 1, 1 2, 2 1, 2 2, 1 3, 3 1, 2 3, 3 2, 3 3, 3 4, 4 3, 4 4, 1 9, 9 1, 5 5, 9 8, 11 12);
    r.add("complex/F3", complex_field);
    r.add("complex/int", complex_int);
    r.add("quaternion/units", quaternion_units);
    r.add("quaternion/F3", quaternion_field);
    each_n!(r, "vector-nc", vector_nc, [1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33]);
    each_mn!(r, "matrix-nc", matrix_nc, [1 x 1, 1 x 2, 2 x 1, 2 x 2, 1 x 3, 3 x 1, 2 x 3, 3 x 2, 3 x 3, 3 x 4, 4 x 3, 4 x 4, 5 x 5]);
    r.add("float", float);
}
fn main() {
    mc::main(Check {
        prop: "C21",
        level: "model_checking",
        rule: "every sequence up to the length bound over complete alphabets (free-monoid words with every placement of identity items and every early end of the source, non-commuting ring elements, field and integer complex numbers and quaternions, floats), summed and multiplied by the crate and compared with folding the components in order",
        assumptions: &["element addition and multiplication are associative with the stated identity, except for floats, where left-to-right order is required"],
        build,
    });
}
