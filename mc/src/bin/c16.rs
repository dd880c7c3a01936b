//! C16: Moebius maps: coefficients, composition, inverse and determinant are consistent.
use mc::floats::Fl;
use mc::scalars::{F2, F3, F5, F7};
use mc::*;
use num_traits::{Num, Zero};
use std::fmt::Debug;
use std::ops::{Add, Div, Mul, Neg};
use std::sync::Arc;
use vecmat::complex::Moebius;
use vecmat::matrix::Matrix2x2;
use vecmat::traits::Normalize;
use vecmat::{Complex, Quaternion};

/// A scalar of the reference arithmetic.
trait F: Num + Neg<Output = Self> + Copy + Debug + Send + Sync + 'static {
    fn same(a: &[Self; 4], b: &[Self; 4], slack: f64) -> bool;
    /// Safely invertible.
    fn big(self) -> bool;
    fn int(x: i32) -> Self;
}
macro_rules! finite { ($($t:ident)*) => { $( impl F for $t {
    fn same(a: &[Self; 4], b: &[Self; 4], _: f64) -> bool { a == b }
    fn big(self) -> bool { !self.is_zero() }
    fn int(x: i32) -> Self { $t::new(x as i64) }
} )* } }
finite!(F2 F3 F5 F7);
macro_rules! float { ($($t:ident)*) => { $( impl F for $t {
    fn same(a: &[Self; 4], b: &[Self; 4], slack: f64) -> bool {
        let s = a.iter().chain(b).fold(1.0f64, |m, x| m.max(x.f().abs()));
        (0..4).all(|i| (a[i].f() - b[i].f()).abs() <= 64.0 * <$t as Fl>::EPS.f() * s * slack)
    }
    fn big(self) -> bool { self.abs() > 0.05 }
    fn int(x: i32) -> Self { x as $t }
} )* } }
float!(f64 f32);

/// Reference arithmetic: everything is a quaternion.
type H<T> = [T; 4];
fn mul<T: F>(a: H<T>, b: H<T>) -> H<T> {
    [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ]
}
fn add<T: F>(a: H<T>, b: H<T>) -> H<T> {
    std::array::from_fn(|i| a[i] + b[i])
}
fn neg<T: F>(a: H<T>) -> H<T> {
    a.map(|x| T::zero() - x)
}
fn norm<T: F>(a: H<T>) -> T {
    a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3]
}
fn recip<T: F>(a: H<T>) -> Option<H<T>> {
    let n = norm(a);
    if !n.big() {
        return None;
    }
    Some([a[0] / n, (T::zero() - a[1]) / n, (T::zero() - a[2]) / n, (T::zero() - a[3]) / n])
}
fn map<T: F>(m: &[H<T>; 4], x: H<T>) -> Option<H<T>> {
    Some(mul(add(mul(m[0], x), m[1]), recip(add(mul(m[2], x), m[3]))?))
}

/// A coefficient or point type embedded in the quaternions.
trait E<T: F>: Copy + Debug + 'static {
    fn of(a: H<T>) -> Self;
    fn h(self) -> H<T>;
}
macro_rules! real { ($($t:ident)*) => { $( impl E<$t> for $t {
    fn of(a: H<$t>) -> Self { a[0] }
    fn h(self) -> H<$t> { let mut r = [<$t as Zero>::zero(); 4]; r[0] = self; r }
} )* } }
real!(F2 F3 F5 F7 f64 f32);
impl<T: F> E<T> for Complex<T> {
    fn of(a: H<T>) -> Self {
        Complex::new(a[0], a[1])
    }
    fn h(self) -> H<T> {
        [self.re(), self.im(), T::zero(), T::zero()]
    }
}
impl<T: F> E<T> for Quaternion<T> {
    fn of(a: H<T>) -> Self {
        Quaternion::from_array(a)
    }
    fn h(self) -> H<T> {
        self.into_array()
    }
}

/// One map in all its aspects on all points. `commute`: the coefficients commute with each other.
fn one<T: F, C, U>(ctx: &mut Ctx, coefs: &[H<T>], points: &[H<T>], scales: &[H<T>])
where
    C: E<T> + Num + Neg<Output = C> + Mul<U, Output = U> + Copy + PartialEq,
    U: E<T> + Add<C, Output = U> + Div<Output = U> + Copy,
{
    let k: [H<T>; 4] = std::array::from_fn(|_| *ctx.pick(coefs));
    ctx.note(|| format!("coefficients {k:?}"));
    let m = Moebius::new(C::of(k[0]), C::of(k[1]), C::of(k[2]), C::of(k[3]));
    let det = add(mul(k[0], k[3]), neg(mul(k[1], k[2])));
    ensure!(ctx, T::same(&m.det().h(), &det, 1.0), "determinant {:?}, not {det:?}", m.det());
    let regular = norm(det).big();
    // Only a common factor that commutes with the points leaves the map unchanged.
    let commutes = |s: &H<T>| points.iter().all(|x| T::same(&mul(*s, *x), &mul(*x, *s), 1.0));
    let factor_ok = regular && commutes(&det);
    let inv = regular.then(|| m.inv());
    let unit = regular.then(|| m.normalize());
    ensure!(ctx, scales.iter().all(commutes), "harness: scale does not commute");
    let scaled: Vec<_> = scales.iter().map(|s| Moebius::new(C::of(mul(k[0], *s)), C::of(mul(k[1], *s)), C::of(mul(k[2], *s)), C::of(mul(k[3], *s)))).collect();
    if let Some(u) = unit {
        let one = { let mut o = [T::zero(); 4]; o[0] = T::one(); o };
        let d = u.det().h();
        ctx.ops(2);
        if !T::same(&d, &one, 8.0) {
            // The recorded defect is: all coefficients divided by the determinant itself.
            let r = recip(det).unwrap();
            let rec = [u.a(), u.b(), u.c(), u.d()].iter().zip(&k).all(|(x, y)| T::same(&x.h(), &mul(*y, r), 8.0));
            let msg = format!("normalized {k:?} has determinant {d:?}");
            if rec {
                ctx.fail_known("normalize-divides-by-det", msg);
            } else {
                ctx.fail(msg);
            }
        }
    }
    for x in points {
        let Some(y) = map(&k, *x) else { continue };
        let p = U::of(*x);
        let g = m.apply(p).h();
        ctx.ops(1);
        ensure!(ctx, T::same(&g, &y, 4.0), "maps {p:?} to {g:?}, not {y:?}");
        ctx.state(&format!("{y:?}"));
        for (s, l) in scaled.iter().zip(scales) {
            let h = s.apply(p).h();
            ctx.ops(1);
            ensure!(ctx, T::same(&h, &g, 16.0), "scaled by {l:?} maps {p:?} to {h:?}, not {g:?}");
        }
        if let (Some(u), true) = (unit, factor_ok) {
            let h = u.apply(p).h();
            ctx.ops(1);
            ensure!(ctx, T::same(&h, &g, 16.0), "normalized map takes {p:?} to {h:?}, not {g:?}");
        }
        if let Some(i) = inv {
            // the inverse takes the image back to the point ...
            if norm(add(mul(neg(k[2]), y), k[0])).big() {
                let b = i.apply(U::of(y)).h();
                ctx.ops(1);
                ensure!(ctx, T::same(&b, x, 256.0), "the inverse map takes the image {y:?} of {x:?} to {b:?}");
            }
            // ... and is the inverse on the other side too
            if let Some(z) = map(&[k[3], neg(k[1]), neg(k[2]), k[0]].map(|c| mul(c, recip(det).unwrap())), *x) {
                let z2 = i.apply(p).h();
                ctx.ops(1);
                ensure!(ctx, T::same(&z2, &z, 256.0), "the inverse map takes {x:?} to {z2:?}, not {z:?}");
            }
        }
    }
}
/// Two maps, composed. `comm`: coefficients commute, so determinants multiply.
fn two<T: F, C, U>(ctx: &mut Ctx, coefs: &[H<T>], points: &[H<T>], comm: &bool)
where
    C: E<T> + Num + Neg<Output = C> + Mul<U, Output = U> + Copy + PartialEq,
    U: E<T> + Add<C, Output = U> + Div<Output = U> + Copy,
{
    let k: [H<T>; 4] = std::array::from_fn(|_| *ctx.pick(coefs));
    let l: [H<T>; 4] = std::array::from_fn(|_| *ctx.pick(coefs));
    ctx.note(|| format!("coefficients {k:?} after {l:?}"));
    let of = |k: &[H<T>; 4]| Moebius::new(C::of(k[0]), C::of(k[1]), C::of(k[2]), C::of(k[3]));
    let (m, n) = (of(&k), of(&l));
    let c = m.chain(n);
    ctx.ops(3);
    let want: [H<T>; 4] = std::array::from_fn(|i| {
        let (r, s) = (i / 2, i % 2);
        add(mul(k[2 * r], l[s]), mul(k[2 * r + 1], l[2 + s]))
    });
    let got = [c.a().h(), c.b().h(), c.c().h(), c.d().h()];
    ensure!(ctx, (0..4).all(|i| T::same(&got[i], &want[i], 4.0)), "composition has coefficients {got:?}, not {want:?}");
    if *comm {
        let d = mul(m.det().h(), n.det().h());
        ensure!(ctx, T::same(&c.det().h(), &d, 16.0), "determinant of the composition {:?}, not {d:?}", c.det());
    }
    ctx.state(&format!("{got:?}"));
    for x in points {
        let Some(y) = map(&l, *x) else { continue };
        let Some(z) = map(&k, y) else { continue };
        if !norm(add(mul(want[2], *x), want[3])).big() {
            continue;
        }
        ctx.ops(2);
        let p = U::of(*x);
        let a = c.apply(p).h();
        ensure!(ctx, T::same(&a, &z, 256.0), "composition takes {x:?} to {a:?}, not {z:?}");
        let b = m.apply(n.apply(p)).h();
        ensure!(ctx, T::same(&b, &z, 256.0), "one after the other takes {x:?} to {b:?}, not {z:?}");
    }
    let id = Moebius::<C>::identity();
    let o: [H<T>; 4] = [C::one(), C::zero(), C::zero(), C::one()].map(|x| x.h());
    ensure!(ctx, [id.a().h(), id.b().h(), id.c().h(), id.d().h()] == o, "identity is {id:?}");
    ensure!(ctx, m.chain(id) == m && id.chain(m) == m, "composition with the identity changes {m:?}");
}

/// Inverse of maps with quaternion coefficients which do not commute: a recorded defect for these inputs.
fn quaternion_inverse(ctx: &mut Ctx) {
    let q = |a: f64, b: f64, c: f64, d: f64| Quaternion::new(a, b, c, d);
    let (o, z, i, j, k) = (q(1., 0., 0., 0.), q(0., 0., 0., 0.), q(0., 1., 0., 0.), q(0., 0., 1., 0.), q(0., 0., 0., 1.));
    let list = [("i-j-1-k", [i, j, o, k]), ("i-1-0-j", [i, o, z, j]), ("1-i-j-0", [o, i, j, z])];
    let (key, m) = *ctx.pick(&list);
    ctx.note(|| format!("coefficients {m:?}"));
    let mo = Moebius::new(m[0], m[1], m[2], m[3]);
    let inv = mo.inv();
    ctx.ops(3);
    for x in [q(1., 2., -1., 3.), q(0.5, 0., 2., -1.)] {
        let Some(y) = map(&m.map(|a| a.h()), x.h()) else { continue };
        let b = inv.apply(Quaternion::from_array(y)).h();
        if !f64::same(&b, &x.h(), 256.0) {
            ctx.fail_known(&format!("quaternion-inverse-{key}"), format!("the inverse of the map {m:?} takes the image of {x:?} to {b:?}"));
        }
    }
}

/// Every way to build, read and write the four coefficients.
fn layout(ctx: &mut Ctx) {
    let s = |i: usize| format!("e{i}");
    let arr = || [[s(0), s(1)], [s(2), s(3)]];
    let matrix = || Matrix2x2::from_array_of_arrays(arr());
    let built: Moebius<String> = match ctx.choose(6) {
        0 => Moebius::new(s(0), s(1), s(2), s(3)),
        1 => Moebius::from_matrix(matrix()),
        2 => Moebius::from_array(arr()),
        3 => Moebius::from_tuple((s(0), s(1), s(2), s(3))),
        4 => Moebius::from(matrix()),
        _ => Moebius::from(arr()),
    };
    let mut want = [s(0), s(1), s(2), s(3)];
    let mut m = built;
    for step in 0..2 {
        // write one coefficient (or none) through one path
        let (p, w) = (ctx.choose(4), ctx.choose(6));
        if w < 5 {
            let new = format!("w{step}{p}");
            want[p] = new.clone();
            let (i, j) = (p / 2, p % 2);
            match w {
                0 => *[Moebius::a_mut, Moebius::b_mut, Moebius::c_mut, Moebius::d_mut][p](&mut m) = new,
                1 => m.as_mut_matrix()[(i, j)] = new,
                2 => m.as_mut_array_of_arrays()[i][j] = new,
                3 => {
                    let r: &mut Matrix2x2<String> = (&mut m).into();
                    r[(i, j)] = new;
                }
                _ => {
                    let r: &mut [[String; 2]; 2] = (&mut m).into();
                    r[i][j] = new;
                }
            }
            ctx.ops(1);
        }
    }
    ctx.note(|| format!("{want:?}"));
    ctx.state(&want);
    ctx.ops(1);
    let got: [String; 4] = match ctx.choose(11) {
        0 => [m.a_ref(), m.b_ref(), m.c_ref(), m.d_ref()].map(|x| x.clone()),
        1 => {
            let a = m.as_matrix();
            [(0, 0), (0, 1), (1, 0), (1, 1)].map(|k| a[k].clone())
        }
        2 => {
            let a = m.as_array_of_arrays();
            [&a[0][0], &a[0][1], &a[1][0], &a[1][1]].map(|x| x.clone())
        }
        3 => {
            let a: &Matrix2x2<String> = (&m).into();
            [(0, 0), (0, 1), (1, 0), (1, 1)].map(|k| a[k].clone())
        }
        4 => {
            let a: &[[String; 2]; 2] = (&m).into();
            [&a[0][0], &a[0][1], &a[1][0], &a[1][1]].map(|x| x.clone())
        }
        5 => {
            let [[a, b], [c, d]] = m.into_array();
            [a, b, c, d]
        }
        6 => {
            let (a, b, c, d) = m.into_tuple();
            [a, b, c, d]
        }
        7 => {
            let [[a, b], [c, d]] = m.into_matrix().into_array_of_arrays();
            [a, b, c, d]
        }
        8 => {
            let a: Matrix2x2<String> = m.into();
            let [[a, b], [c, d]] = a.into_array_of_arrays();
            [a, b, c, d]
        }
        9 => {
            let a: [[String; 2]; 2] = m.into();
            let [[a, b], [c, d]] = a;
            [a, b, c, d]
        }
        _ => {
            let n: Vec<u32> = want.iter().map(|x| x.bytes().fold(0, |h, b| h * 31 + b as u32)).collect();
            let r = Moebius::new(n[0], n[1], n[2], n[3]);
            same!(ctx, [r.a(), r.b(), r.c(), r.d()].to_vec(), n, "coefficients by value");
            same!(ctx, m.clone(), m, "clone");
            ensure!(ctx, !(0..4).any(|k| {
                let mut o = m.clone();
                o.as_mut_array_of_arrays()[k / 2][k % 2].push('x');
                o == m
            }), "a map equals one with another coefficient");
            want.clone()
        }
    };
    same!(ctx, got, want, "coefficients");
}

fn span<T: F>(g: &[T], dims: &[usize]) -> Vec<H<T>> {
    (0..g.len().pow(dims.len() as u32))
        .map(|i| {
            let d = scalars::digits(i, g.len(), dims.len());
            let mut h = [T::zero(); 4];
            for (k, v) in dims.iter().zip(d) {
                h[*k] = g[v];
            }
            h
        })
        .collect()
}
fn nonzero<T: F>(v: &[H<T>]) -> Vec<H<T>> {
    v.iter().copied().filter(|h| norm(*h).big()).collect()
}
macro_rules! add {
    ($r:expr, $f:ident, $t:ty, $c:ty, $u:ty, $name:expr, $k:expr, $p:expr, $x:expr) => {{
        let (k, p, x) = (Arc::new($k), Arc::new($p), $x);
        $r.add(format!("{} ({})", $name, std::any::type_name::<$t>().rsplit("::").next().unwrap()), move |c: &mut Ctx| $f::<$t, $c, $u>(c, &k, &p, &x));
    }};
}
macro_rules! fields {
    ($r:expr, $($t:ident)*) => { $( {
        let all = <$t>::all();
        let re = span(&all, &[0]);
        add!($r, one, $t, $t, $t, "real maps", re.clone(), re.clone(), nonzero(&re));
        if all.len() <= 3 || $r.thorough() && all.len() <= 5 {
            add!($r, two, $t, $t, $t, "real compositions", re.clone(), re.clone(), true);
        }
    } )* };
}
fn floats<T: F + Fl + E<T>>(r: &mut Reg)
where
    T: Mul<T, Output = T> + Mul<Complex<T>, Output = Complex<T>> + Mul<Quaternion<T>, Output = Quaternion<T>>,
{
    let th = r.thorough();
    let g: Vec<T> = [0.0, 1.0, -2.0, 0.5, 3.0].iter().map(|x| T::lit(*x)).collect();
    let s: Vec<T> = [0.0, 1.0, -2.0].iter().map(|x| T::lit(*x)).collect();
    let b: Vec<T> = [0.0, 1.0].iter().map(|x| T::lit(*x)).collect();
    let sc = |l: &[[i32; 4]]| -> Vec<H<T>> { l.iter().map(|a| a.map(T::int)).collect() };
    let real = sc(&[[2, 0, 0, 0], [-3, 0, 0, 0]]);
    add!(r, one, T, T, T, "real maps", span(&g, &[0]), span(&g, &[0]), real.clone());
    add!(r, one, T, T, Complex<T>, "real maps on complex points", span(&s, &[0]), span(&g, &[0, 1]), real.clone());
    add!(r, one, T, T, Quaternion<T>, "real maps on quaternion points", span(&s, &[0]), span(&s, &[0, 1, 2, 3]), real.clone());
    add!(r, two, T, T, T, "real compositions", span(&s, &[0]), span(&g, &[0]), true);
    add!(r, two, T, T, Complex<T>, "real compositions on complex points", span(&s, &[0]), span(&s, &[0, 1]), true);
    let cs = sc(&[[0, 2, 0, 0], [-1, 1, 0, 0]]);
    let cg = if th { span(&s, &[0, 1]) } else { sc(&[[0, 0, 0, 0], [1, 0, 0, 0], [0, 1, 0, 0], [-2, 1, 0, 0], [1, -3, 0, 0]]) };
    add!(r, one, T, Complex<T>, Complex<T>, "complex maps", cg.clone(), span(&g, &[0, 1]), cs.clone());
    add!(r, one, T, Complex<T>, Quaternion<T>, "complex maps on quaternion points", cg.clone(), span(&s, &[0, 1, 2, 3]).into_iter().step_by(5).collect::<Vec<_>>(), real.clone());
    let c3 = sc(&[[0, 0, 0, 0], [1, 1, 0, 0], [0, -2, 0, 0]]);
    add!(r, two, T, Complex<T>, Complex<T>, "complex compositions", c3.clone(), span(&s, &[0, 1]), true);
    add!(r, two, T, Complex<T>, Quaternion<T>, "complex compositions on quaternion points", c3, span(&b, &[0, 1, 2, 3]), true);
    // quaternion coefficients which commute: several planes through the real axis
    let pl = |u: [i32; 3]| -> Vec<H<T>> {
        [(0, 0), (1, 0), (0, 1), (2, -1), (-1, 3)].iter().map(|(a, b)| [T::int(*a), T::int(b * u[0]), T::int(b * u[1]), T::int(b * u[2])]).collect()
    };
    let pts = span(&s, &[0, 1, 2, 3]).into_iter().step_by(7).collect::<Vec<_>>();
    for u in [[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, -1, 1]] {
        let scale = sc(&[[-2, 0, 0, 0], [3, 0, 0, 0]]);
        add!(r, one, T, Quaternion<T>, Quaternion<T>, format!("quaternion maps in plane {u:?}"), pl(u), pts.clone(), scale);
    }
    let mixed = sc(&[[0, 0, 0, 0], [1, 0, 0, 0], [0, 1, 0, 0], [0, 1, -1, 2]]);
    let mixed = if th { mixed } else { mixed[1..].to_vec() };
    add!(r, two, T, Quaternion<T>, Quaternion<T>, "quaternion compositions", mixed, pts, false);
}
/// Maps with arbitrary quaternion coefficients: definition only.
fn act<T: F + Fl>(ctx: &mut Ctx) {
    let k: [H<T>; 4] = {
        let g: [[i32; 4]; 7] = [[0, 0, 0, 0], [1, 0, 0, 0], [0, 1, 0, 0], [0, 0, -1, 0], [0, 0, 0, 2], [1, 1, -1, 0], [-2, 0, 1, 3]];
        std::array::from_fn(|_| ctx.pick(&g).map(T::int))
    };
    ctx.note(|| format!("coefficients {k:?}"));
    let q = k.map(Quaternion::from_array);
    let m = Moebius::new(q[0], q[1], q[2], q[3]);
    for x in [[0, 0, 0, 0], [1, 0, 0, 0], [0, 1, 2, 0], [1, -1, 1, 2], [-2, 0, 3, 1]] {
        let x = x.map(T::int);
        let Some(y) = map(&k, x) else { continue };
        let g = m.apply(Quaternion::from_array(x)).h();
        ctx.ops(1);
        ctx.state(&format!("{y:?}"));
        ensure!(ctx, T::same(&g, &y, 4.0), "maps {x:?} to {g:?}, not {y:?}");
        let l = T::lit(-3.0);
        let s = Moebius::new(q[0] * l, q[1] * l, q[2] * l, q[3] * l).apply(Quaternion::from_array(x)).h();
        ensure!(ctx, T::same(&s, &y, 16.0), "scaled map takes {x:?} to {s:?}, not {y:?}");
    }
}
fn build(r: &mut Reg) {
    r.add("coefficients: build, write, read", layout);
    r.add("inverse of quaternion maps", quaternion_inverse);
    fields!(r, F2 F3 F5 F7);
    // the field of 9 elements (and of 49), acting on itself and on quaternions over the prime field
    let c9 = span(&F3::all(), &[0, 1]);
    add!(r, one, F3, Complex<F3>, Complex<F3>, "complex maps", c9.clone(), c9.clone(), nonzero(&c9));
    add!(r, one, F3, Complex<F3>, Quaternion<F3>, "complex maps on quaternion points", c9.clone(), span(&F3::all(), &[0, 1, 2, 3]), vec![span(&[F3::new(2)], &[0])[0]]);
    let few = vec![c9[0], c9[1], c9[5], c9[7]];
    add!(r, two, F3, Complex<F3>, Complex<F3>, "complex compositions", few, c9.clone(), true);
    let c49 = span(&F7::all(), &[0, 1]);
    let step = if r.thorough() { 3 } else { 6 };
    add!(r, one, F7, Complex<F7>, Complex<F7>, "complex maps", c49.iter().copied().step_by(step).collect::<Vec<_>>(), c49.clone(), vec![c49[10], c49[30]]);
    let q3 = span(&F3::all(), &[0, 1, 2, 3]);
    let pl = vec![c9[0], c9[1], c9[2], c9[3], c9[4], c9[7]];
    add!(r, one, F3, Quaternion<F3>, Quaternion<F3>, "quaternion maps in the complex plane", pl, q3.clone(), vec![span(&[F3::new(2)], &[0])[0]]);
    let mix: Vec<H<F3>> = [5, 1, 27, 10].iter().map(|i| q3[*i]).collect();
    let m3 = if r.thorough() { mix } else { mix[..3].to_vec() };
    add!(r, two, F3, Quaternion<F3>, Quaternion<F3>, "quaternion compositions", m3, q3.clone(), false);
    r.add("quaternion maps with any coefficients (f64)", act::<f64>);
    r.add("quaternion maps with any coefficients (f32)", act::<f32>);
    floats_f64(r);
    floats_f32(r);
}
fn floats_f64(r: &mut Reg) {
    floats::<f64>(r)
}
fn floats_f32(r: &mut Reg) {
    floats::<f32>(r)
}
fn main() {
    mc::main(Check {
        prop: "C16",
        level: "model_checking",
        rule: "an execution is one coefficient quadruple (or pair of quadruples, or one build/write/read history of the coefficients); all points of the alphabet are mapped by the real code and by quaternion reference arithmetic (exactly over finite fields); states are distinct images or composed coefficients",
        assumptions: &["points where a denominator vanishes (or nearly so for floats) are outside the domain", "determinant, inverse and normalization are judged where the coefficients commute"],
        build,
    });
}
