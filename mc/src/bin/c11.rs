//! C11: every transformation type is a group and acting respects composition.
use mc::scalars::{F11, F2, F3, F5, F7};
use mc::*;
use num_traits::{Inv, Num};
use std::fmt::Debug;
use std::ops::Neg;
use vecmat::transform::{Affine, Chain, Linear, Moebius, Reorder, Rotation2, Rotation3, Scale, Shift};
use vecmat::{Complex, Matrix, Quaternion, Transform, Vector};

pub trait F: Num + Neg<Output = Self> + Inv<Output = Self> + Copy + Debug + 'static {
    /// Points have coordinates in here: the whole field, or a few exactly represented values.
    fn coords() -> Vec<Self>;
    /// Elements of the groups have coefficients in here.
    fn coefs() -> Vec<Self>;
    /// The units used as magnitudes.
    fn units() -> Vec<Self> {
        Self::coefs().into_iter().filter(|x| !x.is_zero()).collect()
    }
    const FINITE: bool;
    /// Division exact: the inverse of this determinant can be checked exactly.
    fn unit(d: Self) -> bool;
    /// Exactly half, if the element has one.
    fn half() -> Option<Self>;
}
macro_rules! finite { ($($t:ident)*) => { $( impl F for $t {
    fn coords() -> Vec<Self> { $t::all() }
    fn coefs() -> Vec<Self> { $t::all() }
    const FINITE: bool = true;
    fn unit(d: Self) -> bool { d.0 != 0 }
    fn half() -> Option<Self> { None }
} )* } }
finite!(F2 F3 F5 F7 F11);
macro_rules! float { ($($t:ident)*) => { $( impl F for $t {
    fn coords() -> Vec<Self> { vec![0.0, 1.0, -2.0, 3.0] }
    fn coefs() -> Vec<Self> { vec![0.0, 1.0, -1.0] }
    fn units() -> Vec<Self> { vec![1.0, -1.0, 2.0, -0.5, 4.0] }
    const FINITE: bool = false;
    fn unit(d: Self) -> bool { d.abs() == 1.0 || d.abs() == 2.0 }
    fn half() -> Option<Self> { Some(0.5) }
} )* } }
float!(f64 f32);

fn tuples<T: Copy, const N: usize>(g: &[T]) -> Vec<[T; N]> {
    let n = g.len().pow(N as u32);
    (0..n).map(|i| { let d = scalars::digits(i, g.len(), N); std::array::from_fn(|k| g[d[k]]) }).collect()
}

/// A transformation type with all its elements and a reference action.
pub trait G<P: Copy>: Transform<P> + Copy + Debug + 'static {
    fn all() -> Vec<Self>;
    /// The definition of the action; nothing where it is undefined.
    fn act(&self, x: P) -> Option<P>;
    fn gens() -> Vec<Self> {
        let a = Self::all();
        let n = a.len();
        [n / 3, n / 2 + 1, n - 1].iter().map(|i| a[(*i).min(n - 1)]).collect()
    }
}
pub trait Pt: Copy + PartialEq + Debug + 'static {
    fn all() -> Vec<Self>;
    fn finite() -> bool;
}
impl<T: F, const N: usize> Pt for Vector<T, N> {
    fn all() -> Vec<Self> {
        tuples::<T, N>(&T::coords()).into_iter().map(Vector::from_array).collect()
    }
    fn finite() -> bool {
        T::FINITE
    }
}
impl<T: F> Pt for Complex<T> {
    fn all() -> Vec<Self> {
        tuples::<T, 2>(&T::coords()).into_iter().map(Complex::from_array).collect()
    }
    fn finite() -> bool {
        T::FINITE
    }
}
impl<T: F> Pt for Quaternion<T> {
    fn all() -> Vec<Self> {
        tuples::<T, 4>(&T::coords()).into_iter().map(Quaternion::from_array).collect()
    }
    fn finite() -> bool {
        false
    }
}

impl<T: F, const N: usize> G<Vector<T, N>> for Shift<T, N> {
    fn all() -> Vec<Self> {
        if N > 4 {
            // one coordinate at a time, and all of them differently
            let g = T::coefs();
            let one = (0..N).flat_map(|i| g[1..].iter().map(move |x| (i, *x)));
            let mut v: Vec<[T; N]> = one.map(|(i, x)| std::array::from_fn(|k| if k == i { x } else { T::zero() })).collect();
            v.push([T::zero(); N]);
            v.push(std::array::from_fn(|k| g[(k + 1) % g.len()]));
            return v.into_iter().map(|a| Vector::from_array(a).into()).collect();
        }
        tuples::<T, N>(&T::coefs()).into_iter().map(|a| Vector::from_array(a).into()).collect()
    }
    fn act(&self, x: Vector<T, N>) -> Option<Vector<T, N>> {
        let p = self.into_vector();
        Some(Vector::from_array(std::array::from_fn(|i| x[i] + p[i])))
    }
}
impl<T: F, const N: usize> G<Vector<T, N>> for Scale<T> {
    fn all() -> Vec<Self> {
        T::units().into_iter().map(Scale::from_mag).collect()
    }
    fn act(&self, x: Vector<T, N>) -> Option<Vector<T, N>> {
        Some(Vector::from_array(std::array::from_fn(|i| x[i] * self.into_mag())))
    }
}
fn det<T: F, const N: usize>(a: [[T; N]; N]) -> T {
    fn go<T: F>(a: &[Vec<T>]) -> T {
        if a.is_empty() {
            return T::one();
        }
        let mut s = T::zero();
        for j in 0..a.len() {
            let m: Vec<Vec<T>> = a[1..].iter().map(|r| r.iter().enumerate().filter(|(k, _)| *k != j).map(|(_, x)| *x).collect()).collect();
            let t = a[0][j] * go(&m);
            s = if j % 2 == 0 { s + t } else { s - t };
        }
        s
    }
    go(&a.iter().map(|r| r.to_vec()).collect::<Vec<_>>())
}
/// Invertible matrices of larger dimensions: elementary ones (which generate all others), a cycle, triangular and
/// dense ones.
fn structured<T: F, const N: usize>() -> Vec<[[T; N]; N]> {
    let (z, o) = (T::zero(), T::one());
    let id: [[T; N]; N] = std::array::from_fn(|i| std::array::from_fn(|j| if i == j { o } else { z }));
    let mut v = vec![id];
    for i in 0..N {
        for j in 0..N {
            for x in T::coefs().into_iter().filter(|x| !x.is_zero()) {
                let mut a = id;
                a[i][j] = x;
                v.push(a);
            }
            if i < j {
                let mut a = id;
                a.swap(i, j);
                v.push(a);
            }
        }
    }
    v.push(std::array::from_fn(|i| std::array::from_fn(|j| if (i + 1) % N == j { o } else { z })));
    let low: [[T; N]; N] = std::array::from_fn(|i| std::array::from_fn(|j| if j <= i { o } else { z }));
    let up: [[T; N]; N] = std::array::from_fn(|i| std::array::from_fn(|j| if j < i { z } else if (i + j) % 3 == 1 { z } else { o }));
    v.push(low);
    v.push(up);
    v.push(std::array::from_fn(|i| std::array::from_fn(|j| (0..N).fold(z, |s, k| s + low[i][k] * up[k][j]))));
    v.push(std::array::from_fn(|i| std::array::from_fn(|j| (0..N).fold(z, |s, k| s + up[i][k] * low[k][j]))));
    v.retain(|a| T::unit(det(*a)));
    v
}
impl<T: F, const N: usize> G<Vector<T, N>> for Linear<T, N> {
    fn all() -> Vec<Self> {
        if N > 3 {
            return structured::<T, N>().into_iter().map(|a| Matrix::from_array_of_arrays(a).into()).collect();
        }
        let n = T::coefs().len().pow((N * N) as u32);
        let mut v = Vec::new();
        for i in 0..n {
            let c = T::coefs();
            let d = scalars::digits(i, c.len(), N * N);
            let a: [[T; N]; N] = std::array::from_fn(|i| std::array::from_fn(|j| c[d[i * N + j]]));
            if T::unit(det(a)) {
                v.push(Matrix::from_array_of_arrays(a).into());
            }
        }
        v
    }
    fn act(&self, x: Vector<T, N>) -> Option<Vector<T, N>> {
        let m = self.into_matrix();
        Some(Vector::from_array(std::array::from_fn(|i| (0..N).fold(T::zero(), |s, j| s + m[(i, j)] * x[j]))))
    }
}
impl<T: F> G<Vector<T, 2>> for Rotation2<T> {
    fn all() -> Vec<Self> {
        tuples::<T, 2>(&T::coefs())
            .into_iter()
            .filter(|[a, b]| *a * *a + *b * *b == T::one())
            .map(|a| Complex::from_array(a).into())
            .collect()
    }
    fn act(&self, x: Vector<T, 2>) -> Option<Vector<T, 2>> {
        let c = self.into_complex();
        Some(Vector::from_array([c.re() * x[0] - c.im() * x[1], c.im() * x[0] + c.re() * x[1]]))
    }
}
impl<T: F> G<Vector<T, 3>> for Rotation3<T> {
    fn all() -> Vec<Self> {
        let mut v = tuples::<T, 4>(&T::coefs());
        if let Some(h) = T::half() {
            v.extend(tuples::<T, 4>(&[h, -h]));
        }
        v.into_iter()
            .filter(|q| q.iter().fold(T::zero(), |s, x| s + *x * *x) == T::one())
            .map(|a| Quaternion::from_array(a).into())
            .collect()
    }
    fn act(&self, x: Vector<T, 3>) -> Option<Vector<T, 3>> {
        // the rotation matrix of a unit quaternion
        let q = self.into_quaternion();
        let (w, a) = (q.w(), [q.x(), q.y(), q.z()]);
        let two = T::one() + T::one();
        let dot = a[0] * x[0] + a[1] * x[1] + a[2] * x[2];
        let n = a[0] * a[0] + a[1] * a[1] + a[2] * a[2];
        Some(Vector::from_array(std::array::from_fn(|i| {
            let (j, k) = ((i + 1) % 3, (i + 2) % 3);
            (w * w - n) * x[i] + two * dot * a[i] + two * w * (a[j] * x[k] - a[k] * x[j])
        })))
    }
}
impl<P: Pt, A: G<P>, B: G<P>> G<P> for Chain<A, B, P>
where
    Chain<A, B, P>: Transform<P>,
{
    fn all() -> Vec<Self> {
        let b = B::all();
        A::all().into_iter().flat_map(|x| b.iter().map(move |y| Chain::new(x, *y))).collect()
    }
    fn act(&self, x: P) -> Option<P> {
        self.outer().act(self.inner().act(x)?)
    }
    fn gens() -> Vec<Self> {
        let (a, b) = (A::gens(), B::gens());
        a.iter().zip(&b).map(|(x, y)| Chain::new(*x, *y)).collect()
    }
}
/// Points, and two subgroups of their permutations which together make up all of them: swapping an element of one
/// with an element of the other changes both.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Spot(u8);
impl Pt for Spot {
    fn all() -> Vec<Self> {
        (0..4).map(Spot).collect()
    }
    fn finite() -> bool {
        true
    }
}
type Perm = [u8; 4];
fn after(a: Perm, b: Perm) -> Perm {
    b.map(|i| a[i as usize])
}
fn undo(a: Perm) -> Perm {
    std::array::from_fn(|i| a.iter().position(|x| *x as usize == i).unwrap() as u8)
}
macro_rules! perms { ($t:ident, $other:ident, $all:expr) => {
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct $t(Perm);
    impl Transform<Spot> for $t {
        fn identity() -> Self {
            $t([0, 1, 2, 3])
        }
        fn inv(self) -> Self {
            $t(undo(self.0))
        }
        fn apply(&self, x: Spot) -> Spot {
            Spot(self.0[x.0 as usize])
        }
        fn deriv(&self, _x: Spot, d: Spot) -> Spot {
            d
        }
        fn chain(self, o: Self) -> Self {
            $t(after(self.0, o.0))
        }
    }
    impl G<Spot> for $t {
        fn all() -> Vec<Self> {
            let l: Vec<Perm> = $all;
            l.into_iter().map($t).collect()
        }
        fn act(&self, x: Spot) -> Option<Spot> {
            Some(Spot(self.0[x.0 as usize]))
        }
    }
    impl Reorder<$other, Spot> for $t {
        fn reorder(self, o: $other) -> ($other, $t) {
            let m = after(self.0, o.0);
            for a in $other::all() {
                for b in $t::all() {
                    if after(a.0, b.0) == m {
                        return (a, b);
                    }
                }
            }
            unreachable!()
        }
    }
} }
perms!(Three, Turn, vec![[0, 1, 2, 3], [0, 2, 1, 3], [1, 0, 2, 3], [1, 2, 0, 3], [2, 0, 1, 3], [2, 1, 0, 3]]);
perms!(Turn, Three, (0..4).map(|k| [0, 1, 2, 3].map(|i| (i + k) % 4)).collect());

fn cmul<T: F>(a: [T; 2], b: [T; 2]) -> [T; 2] {
    [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]]
}
/// Coefficients with a determinant other than zero; the whole group over three elements, a set of
/// generators and their products in larger ones.
fn moebius<T: F>() -> Vec<Moebius<Complex<T>>> {
    let o = T::one();
    let z = T::zero();
    let g: Vec<[T; 2]> = vec![[z, z], [o, z], [z, o], [o, o], [-o, o]];
    tuples::<[T; 2], 4>(&g)
        .into_iter()
        .filter(|[a, b, c, d]| {
            let (p, q) = (cmul(*a, *d), cmul(*b, *c));
            let e = [p[0] - q[0], p[1] - q[1]];
            T::unit(e[0] * e[0] + e[1] * e[1])
        })
        .map(|m| {
            let [a, b, c, d] = m.map(Complex::from_array);
            Moebius::new(a, b, c, d)
        })
        .collect()
}
impl<T: F> G<Complex<T>> for Moebius<Complex<T>> {
    fn all() -> Vec<Self> {
        moebius::<T>()
    }
    fn act(&self, x: Complex<T>) -> Option<Complex<T>> {
        let [[a, b], [c, d]] = self.into_array().map(|r| r.map(|z| [z.re(), z.im()]));
        let x = [x.re(), x.im()];
        let add = |p: [T; 2], q: [T; 2]| [p[0] + q[0], p[1] + q[1]];
        let (u, v) = (add(cmul(a, x), b), add(cmul(c, x), d));
        let n = v[0] * v[0] + v[1] * v[1];
        if n.is_zero() {
            return None;
        }
        let r = cmul(u, [v[0] / n, -v[1] / n]);
        Some(Complex::from_array(r))
    }
}
fn hmul<T: F>(a: [T; 4], b: [T; 4]) -> [T; 4] {
    [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ]
}
impl<T: F + num_traits::NumCast> G<Quaternion<T>> for Moebius<Complex<T>> {
    fn all() -> Vec<Self> {
        moebius::<T>()
    }
    fn act(&self, x: Quaternion<T>) -> Option<Quaternion<T>> {
        let z = T::zero();
        let [[a, b], [c, d]] = self.into_array().map(|r| r.map(|p| [p.re(), p.im(), z, z]));
        let x = x.into_array();
        let add = |p: [T; 4], q: [T; 4]| -> [T; 4] { std::array::from_fn(|i| p[i] + q[i]) };
        let (u, v) = (add(hmul(a, x), b), add(hmul(c, x), d));
        let n = v.iter().fold(z, |s, y| s + *y * *y);
        if n.is_zero() {
            return None;
        }
        let i = [v[0] / n, -v[1] / n, -v[2] / n, -v[3] / n];
        Some(Quaternion::from_array(hmul(u, i)))
    }
}

thread_local! {
    static TABLES: std::cell::RefCell<std::collections::HashMap<(std::any::TypeId, u8), &'static dyn std::any::Any>> = Default::default();
}
/// Computed once per thread.
fn table<K: 'static, X: 'static>(k: u8, f: impl FnOnce() -> Vec<X>) -> &'static [X] {
    let key = (std::any::TypeId::of::<K>(), k);
    if let Some(t) = TABLES.with(|t| t.borrow().get(&key).copied()) {
        return t.downcast_ref::<Vec<X>>().unwrap();
    }
    let v: &'static Vec<X> = Box::leak(Box::new(f()));
    TABLES.with(|t| t.borrow_mut().insert(key, v));
    v
}
fn elements<P: Pt, A: G<P>>() -> &'static [A] {
    table::<(P, A), A>(0, A::all)
}
fn points<P: Pt>() -> &'static [P] {
    table::<P, P>(1, P::all)
}
fn generators<P: Pt, A: G<P>>() -> &'static [A] {
    table::<(P, A), A>(2, A::gens)
}
/// The library's answer where the reference has one. A library panic is a violation like any other.
fn agree<P: Pt, A: G<P>>(ctx: &mut Ctx, what: &str, t: &A, x: P, want: Option<P>) {
    if let Some(w) = want {
        ctx.ops(1);
        let got = t.apply(x);
        ensure!(ctx, got == w, "{} at {:?}: got {:?}, expected {:?} (transformation {:?})", what, x, got, w, t);
    }
}
/// Identity, composition and inverse on every pair of elements and every point.
fn pairs<P: Pt, A: G<P>>(ctx: &mut Ctx) {
    let (all, pts) = (elements::<P, A>(), points::<P>());
    let a = *ctx.pick(all);
    let cap = if ctx.thorough() { 2000 } else { 60 };
    let second = table::<(P, A), A>(3, || {
        let step = (all.len() / cap).max(1);
        if all.len() <= cap { all.to_vec() } else { all.iter().copied().step_by(step).chain(A::gens()).collect() }
    });
    let b = *ctx.pick(second);
    ctx.note(|| format!("a = {:?}, b = {:?}", a, b));
    let (ab, ai) = (a.chain(b), a.inv());
    let (id, aia, aai) = (A::identity(), ai.chain(a), a.chain(ai));
    let (l, r) = (a.chain(id), id.chain(a));
    for x in pts.iter().copied() {
        let bx = b.act(x);
        let ax = a.act(x);
        agree(ctx, "applying", &a, x, ax);
        agree(ctx, "identity", &id, x, Some(x));
        agree(ctx, "composition", &ab, x, bx.and_then(|y| a.act(y)));
        if let Some(y) = ax {
            agree(ctx, "inverse of the image", &ai, y, Some(x));
            agree(ctx, "inverse composed with it", &aia, x, Some(x));
        }
        agree(ctx, "composition with the identity on the right", &l, x, ax);
        agree(ctx, "composition with the identity on the left", &r, x, ax);
        if let Some(y) = ai.act(x) {
            if a.act(y).is_some() {
                agree(ctx, "image of the inverse", &a, y, Some(x));
                agree(ctx, "composed with its inverse", &aai, x, Some(x));
            }
        }
    }
    ctx.state(&format!("{:?}{:?}", a, b));
}
/// Associativity on every triple (of generators where the group is large).
fn triples<P: Pt, A: G<P>>(ctx: &mut Ctx) {
    let cap = if ctx.thorough() { 150 } else { 50 };
    let all = table::<(P, A), A>(4, || {
        let all = elements::<P, A>();
        let step = all.len() / 16 + 1;
        if all.len() <= cap { all.to_vec() } else { all.iter().copied().step_by(step).chain(A::gens()).collect() }
    });
    let (a, b, c) = (*ctx.pick(all), *ctx.pick(all), *ctx.pick(all));
    ctx.note(|| format!("{:?}, {:?}, {:?}", a, b, c));
    let (l, r) = (a.chain(b).chain(c), a.chain(b.chain(c)));
    for x in points::<P>().iter().copied() {
        let want = c.act(x).and_then(|y| b.act(y)).and_then(|y| a.act(y));
        agree(ctx, "(a b) c", &l, x, want);
        agree(ctx, "a (b c)", &r, x, want);
    }
    ctx.state(&format!("{:?}{:?}{:?}", a, b, c));
}
/// Every history of compositions on either side and inversions, against a word of reference maps
/// whose inverses are found by searching all points.
fn histories<P: Pt, A: G<P>>(ctx: &mut Ctx) {
    let gens = generators::<P, A>();
    let pts = points::<P>();
    let depth = if ctx.thorough() { 6 } else { 4 };
    let mut t = *ctx.pick(gens);
    // (element, inverted), outermost first
    let mut word: Vec<(A, bool)> = vec![(t, false)];
    for _ in 0..depth {
        match ctx.choose(2 + 2 * gens.len()) {
            0 => break,
            1 => {
                ctx.note(|| "inverse".into());
                t = t.inv();
                word.reverse();
                for w in word.iter_mut() {
                    w.1 = !w.1;
                }
            }
            k => {
                let g = gens[(k - 2) / 2];
                if k % 2 == 0 {
                    ctx.note(|| format!("compose with {:?} inside", g));
                    t = t.chain(g);
                    word.push((g, false));
                } else {
                    ctx.note(|| format!("compose with {:?} outside", g));
                    t = g.chain(t);
                    word.insert(0, (g, false));
                }
            }
        }
    }
    for x in pts {
        let mut y = Some(*x);
        for (g, inverted) in word.iter().rev() {
            y = y.and_then(|p| {
                if *inverted {
                    // unique where it exists: the reference maps are injective where defined
                    pts.iter().copied().find(|z| g.act(*z) == Some(p))
                } else {
                    g.act(p)
                }
            });
        }
        agree(ctx, "the history's map", &t, *x, y);
    }
    ctx.state(&format!("{:?}", t));
}
/// Swapping the order of two transformations keeps their combined effect.
fn reorder<P: Pt, A: G<P> + Reorder<B, P>, B: G<P>>(ctx: &mut Ctx) {
    let (a, b) = (*ctx.pick(elements::<P, A>()), *ctx.pick(elements::<P, B>()));
    let (b1, a1) = a.reorder(b);
    ctx.note(|| format!("a = {:?}, b = {:?}, swapped {:?}, {:?}", a, b, b1, a1));
    for x in points::<P>().iter().copied() {
        let want = b.act(x).and_then(|y| a.act(y));
        if let Some(w) = want {
            let got = b1.apply(a1.apply(x));
            same!(ctx, got, w, "swapped pair of {:?} and {:?} at {:?}", a, b, x);
            ctx.ops(1);
        }
    }
    ctx.state(&format!("{:?}{:?}", a, b));
}
/// The parts of a chain and the conversions of each type keep their place.
fn parts(ctx: &mut Ctx) {
    let k: i64 = *ctx.pick(&[-2, 0, 5]);
    let (s, l) = (Shift::from_vector(Vector::from([k, k + 1])), Linear::from_matrix(Matrix::from([[k, 2], [3, k + 4]])));
    let c: Affine<i64, 2> = Chain::new(s, l);
    let d: Affine<i64, 2> = (s, l).into();
    same!(ctx, c, d, "chain from a pair");
    same!(ctx, (*c.outer(), *c.inner()), (s, l), "parts");
    same!(ctx, (c.shift(), c.linear()), (s, l), "shift and linear");
    same!(ctx, c.split(), (s, l), "split");
    let p: (Shift<i64, 2>, Linear<i64, 2>) = c.into();
    same!(ctx, p, (s, l), "into a pair");
    let mut e = c;
    let (s2, l2) = (Shift::from(Vector::from([9, 8])), Linear::from(Matrix::from([[1, 2], [3, 4]])));
    *e.outer_mut() = s2;
    same!(ctx, e.split(), (s2, l), "writing the outer part");
    *e.inner_mut() = l2;
    same!(ctx, e.split(), (s2, l2), "writing the inner part");
    same!(ctx, s.into_vector().into_array(), [k, k + 1], "shift vector");
    same!(ctx, <Vector<i64, 2>>::from(s).into_array(), [k, k + 1], "shift into vector");
    same!(ctx, l.into_matrix().into_array_of_arrays(), [[k, 2], [3, k + 4]], "linear matrix");
    same!(ctx, <Matrix<i64, 2, 2>>::from(l).into_array_of_arrays(), [[k, 2], [3, k + 4]], "linear into matrix");
    same!(ctx, Scale::from_mag(k).into_mag(), k, "magnitude");
    same!(ctx, Scale::from(k).into_mag(), k, "magnitude");
    let z = Complex::new(k, 3);
    same!(ctx, Rotation2::from_complex(z).into_complex().into_array(), [k, 3], "complex number of a rotation");
    same!(ctx, Complex::from(Rotation2::from(z)).into_array(), [k, 3], "complex number of a rotation");
    let q = Quaternion::new(k, 1, 2, 3);
    same!(ctx, Rotation3::from_quaternion(q).into_quaternion().into_array(), [k, 1, 2, 3], "quaternion of a rotation");
    same!(ctx, Quaternion::from(Rotation3::from(q)).into_array(), [k, 1, 2, 3], "quaternion of a rotation");
    ctx.ops(17);
    ctx.state(&k);
}

fn build(r: &mut Reg) {
    macro_rules! group { ($($p:ty : $g:ty),* $(,)?) => { $( {
        let n = stringify!($g).replace(' ', "");
        let p = stringify!($p).replace(' ', "");
        r.add(format!("pairs/{}/{}", n, p), pairs::<$p, $g>);
        r.add(format!("triples/{}/{}", n, p), triples::<$p, $g>);
        if <$p as Pt>::finite() {
            r.add(format!("histories/{}/{}", n, p), histories::<$p, $g>);
        }
    } )* } }
    type V<T, const N: usize> = Vector<T, N>;
    group! {
        V<F5, 1>: Shift<F5, 1>, V<F5, 2>: Shift<F5, 2>, V<F3, 3>: Shift<F3, 3>, V<F2, 4>: Shift<F2, 4>,
        V<F7, 1>: Scale<F7>, V<F5, 2>: Scale<F5>, V<F3, 3>: Scale<F3>,
        V<F7, 1>: Linear<F7, 1>, V<F2, 2>: Linear<F2, 2>, V<F3, 2>: Linear<F3, 2>, V<F2, 3>: Linear<F2, 3>, V<F5, 2>: Linear<F5, 2>,
        V<F3, 2>: Rotation2<F3>, V<F5, 2>: Rotation2<F5>, V<F7, 2>: Rotation2<F7>, V<F11, 2>: Rotation2<F11>,
        V<F3, 3>: Rotation3<F3>, V<F5, 3>: Rotation3<F5>,
        V<F2, 2>: Affine<F2, 2>, V<F3, 2>: Affine<F3, 2>, V<F5, 1>: Affine<F5, 1>, V<F2, 3>: Affine<F2, 3>,
        V<F2, 2>: Chain<Linear<F2, 2>, Shift<F2, 2>, V<F2, 2>>, V<F3, 2>: Chain<Linear<F3, 2>, Shift<F3, 2>, V<F3, 2>>,
        V<F5, 1>: Chain<Shift<F5, 1>, Scale<F5>, V<F5, 1>>, V<F5, 2>: Chain<Shift<F5, 2>, Scale<F5>, V<F5, 2>>,
        V<F5, 1>: Chain<Scale<F5>, Shift<F5, 1>, V<F5, 1>>, V<F5, 2>: Chain<Scale<F5>, Shift<F5, 2>, V<F5, 2>>,
        V<F3, 2>: Chain<Shift<F3, 2>, Rotation2<F3>, V<F3, 2>>, V<F7, 2>: Chain<Shift<F7, 2>, Rotation2<F7>, V<F7, 2>>,
        V<F3, 2>: Chain<Rotation2<F3>, Shift<F3, 2>, V<F3, 2>>, V<F7, 2>: Chain<Rotation2<F7>, Shift<F7, 2>, V<F7, 2>>,
        V<F3, 3>: Chain<Shift<F3, 3>, Rotation3<F3>, V<F3, 3>>, V<F3, 3>: Chain<Rotation3<F3>, Shift<F3, 3>, V<F3, 3>>,
        Complex<F3>: Moebius<Complex<F3>>, Complex<F7>: Moebius<Complex<F7>>,
        Quaternion<F3>: Moebius<Complex<F3>>,
        V<F3, 5>: Shift<F3, 5>, V<F2, 7>: Shift<F2, 7>, V<F3, 4>: Scale<F3>, V<F3, 6>: Scale<F3>,
        V<F3, 4>: Linear<F3, 4>, V<F2, 5>: Linear<F2, 5>, V<F2, 6>: Linear<F2, 6>, V<F2, 7>: Linear<F2, 7>, V<F2, 9>: Shift<F2, 9>, V<F3, 7>: Scale<F3>,
        V<F2, 4>: Affine<F2, 4>, V<F2, 5>: Affine<F2, 5>, V<F2, 7>: Affine<F2, 7>,
        V<F2, 4>: Chain<Linear<F2, 4>, Shift<F2, 4>, V<F2, 4>>, V<F3, 5>: Chain<Scale<F3>, Shift<F3, 5>, V<F3, 5>>,
        // swapping changes both parts
        Spot: Chain<Three, Turn, Spot>, Spot: Chain<Turn, Three, Spot>,
        // exactly represented floats
        V<f64, 2>: Shift<f64, 2>, V<f64, 3>: Shift<f64, 3>, V<f64, 2>: Scale<f64>, V<f32, 3>: Scale<f32>,
        V<f64, 2>: Linear<f64, 2>, V<f32, 2>: Linear<f32, 2>,
        V<f64, 2>: Rotation2<f64>, V<f32, 2>: Rotation2<f32>, V<f64, 3>: Rotation3<f64>, V<f32, 3>: Rotation3<f32>,
        V<f64, 2>: Affine<f64, 2>, V<f64, 2>: Chain<Shift<f64, 2>, Scale<f64>, V<f64, 2>>,
        V<f64, 2>: Chain<Rotation2<f64>, Shift<f64, 2>, V<f64, 2>>, V<f64, 3>: Chain<Shift<f64, 3>, Rotation3<f64>, V<f64, 3>>,
    }
    macro_rules! swap { ($($p:ty : $a:ty, $b:ty;)*) => { $(
        r.add(format!("reorder/{}/{}", stringify!($a), stringify!($b)).replace(' ', ""), reorder::<$p, $a, $b>);
        r.add(format!("reorder/{}/{}", stringify!($b), stringify!($a)).replace(' ', ""), reorder::<$p, $b, $a>);
    )* } }
    swap! {
        V<F5, 1>: Shift<F5, 1>, Scale<F5>;
        V<F5, 2>: Shift<F5, 2>, Scale<F5>;
        V<F3, 2>: Shift<F3, 2>, Linear<F3, 2>;
        V<F2, 3>: Shift<F2, 3>, Linear<F2, 3>;
        V<F3, 4>: Shift<F3, 4>, Linear<F3, 4>;
        V<F2, 6>: Shift<F2, 6>, Linear<F2, 6>;
        V<F2, 7>: Shift<F2, 7>, Linear<F2, 7>;
        V<F3, 5>: Shift<F3, 5>, Scale<F3>;
        V<F7, 2>: Shift<F7, 2>, Rotation2<F7>;
        V<F3, 3>: Shift<F3, 3>, Rotation3<F3>;
        V<F5, 3>: Shift<F5, 3>, Rotation3<F5>;
        V<f64, 2>: Shift<f64, 2>, Scale<f64>;
        V<f64, 2>: Shift<f64, 2>, Linear<f64, 2>;
        V<f64, 2>: Shift<f64, 2>, Rotation2<f64>;
        V<f64, 3>: Shift<f64, 3>, Rotation3<f64>;
    }
    r.add("parts", parts);
}

fn main() {
    mc::main(Check {
        prop: "C11",
        level: "model_checking",
        rule: "every execution = one pair, triple or operation history over the complete group of one transformation type \
               over a finite field (or exactly represented floats), applied to every point of the space; a state is a \
               distinct tuple of transformations, a transition one image compared with the reference map",
        assumptions: &[
            "the reference inverse is found by searching all points of the finite space",
            "groups with more than 60 elements (2000 thoroughly): the second element of a pair runs over an evenly spaced subset",
            "Moebius coefficients run over 0, 1, i, 1+i and -1+i",
        ],
        build,
    });
}
