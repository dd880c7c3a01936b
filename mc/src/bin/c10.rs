//! C10: quaternion arithmetic obeys Hamilton's rules in every operand form.
use mc::floats::*;
use mc::scalars::{F11, F3, F5, F7};
use mc::*;
use num_traits::{Inv, Num, One, Zero};
use std::fmt::Debug;
use std::ops::{Add, Div, Mul, Neg, Sub};
use vecmat::prelude::{Conj, Dot, NormL2, Normalize};
use vecmat::{Complex, Matrix, Quaternion, Vector};

type Q<T> = [T; 4];
fn q<T>(a: Q<T>) -> Quaternion<T> {
    let [w, x, y, z] = a;
    Quaternion::new(w, x, y, z)
}
fn l<T: Copy>(a: Quaternion<T>) -> Q<T> {
    [a.w(), a.x(), a.y(), a.z()]
}
/// Hamilton's table: `e_i e_j = sign e_k`.
const TABLE: [[(usize, bool); 4]; 4] = [
    [(0, false), (1, false), (2, false), (3, false)],
    [(1, false), (0, true), (3, false), (2, true)],
    [(2, false), (3, true), (0, true), (1, false)],
    [(3, false), (2, false), (1, true), (0, true)],
];
fn ham<T: Num + Copy>(a: Q<T>, b: Q<T>) -> Q<T> {
    let mut r = [T::zero(); 4];
    for i in 0..4 {
        for j in 0..4 {
            let (k, neg) = TABLE[i][j];
            let p = a[i] * b[j];
            r[k] = if neg { r[k] - p } else { r[k] + p };
        }
    }
    r
}
fn each<T: Copy>(a: Q<T>, f: impl Fn(T) -> T) -> Q<T> {
    a.map(f)
}
fn sqr<T: Num + Copy>(a: Q<T>) -> T {
    a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3]
}

trait Ring: Num + Neg<Output = Self> + Copy + Debug + std::ops::AddAssign + std::ops::SubAssign + 'static {
    fn grid() -> Vec<Self>;
    const FIELD: bool;
}
macro_rules! rings { ($($t:ident $g:expr, $f:expr;)*) => { $( impl Ring for $t {
    fn grid() -> Vec<Self> { $g }
    const FIELD: bool = $f;
} )* } }
rings! {
    F3 F3::all(), true;
    F5 F5::all(), true;
    F7 F7::all(), true;
    F11 vec![F11::new(0), F11::new(1), F11::new(4), F11::new(7)], true;
    i32 vec![0, 1, -1, 2], false;
    i64 vec![0, 1, -2, 3], false;
    f64 vec![0.0, 1.0, -2.0, 0.5], false;
    f32 vec![0.0, 1.0, -2.0, 0.5], false;
}
fn pick<T: Ring>(ctx: &mut Ctx) -> Q<T> {
    let g = T::grid();
    [*ctx.pick(&g), *ctx.pick(&g), *ctx.pick(&g), *ctx.pick(&g)]
}

/// All operand forms on one pair; the complex and real operands are the leading parts of `b`.
fn forms<T: Ring>(ctx: &mut Ctx) {
    let (a, b) = (pick::<T>(ctx), pick::<T>(ctx));
    forms_on(ctx, a, b);
}
fn forms_on<T: Ring>(ctx: &mut Ctx, a: Q<T>, b: Q<T>) {
    ctx.note(|| format!("a = {:?}, b = {:?}", a, b));
    let o = T::zero();
    let (x, y, z, s) = (q(a), q(b), Complex::new(b[0], b[1]), b[0]);
    let (bc, bs) = ([b[0], b[1], o, o], [b[0], o, o, o]);
    macro_rules! op {
        ($n:expr, $got:expr, $want:expr) => {{
            let (g, w) = (l($got), $want);
            ensure!(ctx, g == w, "{} of {:?} and {:?}: got {:?}, expected {:?}", $n, a, b, g, w);
            ctx.ops(1);
        }};
    }
    macro_rules! assign {
        ($n:expr, $o:tt, $r:expr, $want:expr) => {{
            let mut u = x;
            u $o $r;
            op!($n, u, $want);
        }};
    }
    let add = |a: Q<T>, b: Q<T>| -> Q<T> { std::array::from_fn(|i| a[i] + b[i]) };
    let sub = |a: Q<T>, b: Q<T>| -> Q<T> { std::array::from_fn(|i| a[i] - b[i]) };
    op!("sum", x + y, add(a, b));
    op!("sum with complex", x + z, add(a, bc));
    op!("sum with real", x + s, add(a, bs));
    assign!("sum, assigning", +=, y, add(a, b));
    assign!("sum with complex, assigning", +=, z, add(a, bc));
    assign!("sum with real, assigning", +=, s, add(a, bs));
    op!("difference", x - y, sub(a, b));
    op!("difference with complex", x - z, sub(a, bc));
    op!("difference with real", x - s, sub(a, bs));
    assign!("difference, assigning", -=, y, sub(a, b));
    assign!("difference with complex, assigning", -=, z, sub(a, bc));
    assign!("difference with real, assigning", -=, s, sub(a, bs));
    op!("product", x * y, ham(a, b));
    op!("product with complex", x * z, ham(a, bc));
    op!("product of complex", z * x, ham(bc, a));
    op!("product with real", x * s, ham(a, bs));
    assign!("product, assigning", *=, y, ham(a, b));
    assign!("product with complex, assigning", *=, z, ham(a, bc));
    assign!("product with real, assigning", *=, s, ham(a, bs));
    op!("negation", -x, each(a, |v| -v));
    let conj = [a[0], -a[1], -a[2], -a[3]];
    op!("conjugate", x.conj(), conj);
    op!("conjugate (trait)", Conj::conj(x), conj);
    same!(ctx, x.norm_sqr(), sqr(a), "square norm of {:?}", a);
    same!(ctx, x.dot(y), a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3], "dot product of {:?} and {:?}", a, b);
    same!(ctx, x == y, a == b, "equality of {:?} and {:?}", a, b);
    same!(ctx, x.is_zero(), a.iter().all(|v| v.is_zero()), "is_zero of {:?}", a);
    same!(ctx, x.is_one(), a == [T::one(), o, o, o], "is_one of {:?}", a);
    let m: Matrix<T, 4, 4> = x.into_matrix();
    let v = m.dot(Vector::from_array(b)).into_array();
    same!(ctx, v, ham(a, b), "matrix of {:?} applied to {:?}", a, b);
    let (w, v3) = x.into_scalar_and_vector3();
    same!(ctx, (w, v3.into_array()), (a[0], [a[1], a[2], a[3]]), "scalar and vector of {:?}", a);
    same!(ctx, x.xyz().into_array(), [a[1], a[2], a[3]], "xyz of {:?}", a);
    ctx.ops(8);
    if T::FIELD {
        // dividing undoes multiplying
        let one = [T::one(), o, o, o];
        if !sqr(b).is_zero() {
            let i = l(y.inv());
            same!(ctx, ham(i, b), one, "inverse {:?} of {:?} times it", i, b);
            same!(ctx, ham(b, i), one, "{:?} times its inverse {:?}", b, i);
            op!("quotient", x / y, ham(a, i));
            assign!("quotient, assigning", /=, y, ham(a, i));
            let lead = Complex::new(a[0], a[1]);
            op!("quotient of complex", lead / y, ham([a[0], a[1], o, o], i));
            ctx.ops(2);
        }
        let n2 = b[0] * b[0] + b[1] * b[1];
        if !n2.is_zero() {
            let i = [b[0] / n2, -b[1] / n2, o, o];
            op!("quotient by complex", x / z, ham(a, i));
            assign!("quotient by complex, assigning", /=, z, ham(a, i));
        }
        if !s.is_zero() {
            op!("quotient by real", x / s, each(a, |v| v / s));
            assign!("quotient by real, assigning", /=, s, each(a, |v| v / s));
        }
    }
    ctx.state(&format!("{:?}{:?}", a, b));
}
/// Associativity, distributivity and the norm on every triple.
fn triples<T: Ring>(ctx: &mut Ctx) {
    let (a, b, c) = (pick::<T>(ctx), pick::<T>(ctx), pick::<T>(ctx));
    let (x, y, z) = (q(a), q(b), q(c));
    let p = x * y;
    same!(ctx, l(p * z), l(x * (y * z)), "associativity for {:?} {:?} {:?}", a, b, c);
    same!(ctx, l(x * (y + z)), l(p + x * z), "distributivity for {:?} {:?} {:?}", a, b, c);
    same!(ctx, l(p.conj()), l(y.conj() * x.conj()), "conjugate of the product of {:?} {:?}", a, b);
    same!(ctx, p.norm_sqr(), x.norm_sqr() * y.norm_sqr(), "norm of the product of {:?} {:?}", a, b);
    ctx.ops(4);
    ctx.state(&format!("{:?}", l(p * z)));
}
fn units(ctx: &mut Ctx) {
    // basis elements by name
    let e: [Quaternion<i32>; 4] = [Quaternion::one(), Quaternion::i(), Quaternion::j(), Quaternion::k()];
    for (i, u) in e.iter().enumerate() {
        same!(ctx, l(*u), std::array::from_fn(|k| (k == i) as i32), "basis element {}", i);
    }
    same!(ctx, l(Quaternion::<i32>::zero()), [0; 4], "zero");
    same!(ctx, l(Quaternion::<i32>::default()), [0; 4], "default");
    // the 24 Hurwitz units form a group, exactly
    let mut all: Vec<Q<f64>> = Vec::new();
    for k in 0..4 {
        for s in [1.0, -1.0] {
            all.push(std::array::from_fn(|i| if i == k { s } else { 0.0 }));
        }
    }
    for m in 0..16 {
        all.push(std::array::from_fn(|i| if m >> i & 1 == 1 { 0.5 } else { -0.5 }));
    }
    let (a, b) = (*ctx.pick(&all), *ctx.pick(&all));
    let p = l(q(a) * q(b));
    same!(ctx, p, ham(a, b), "product of {:?} and {:?}", a, b);
    ensure!(ctx, all.contains(&p), "product of {:?} and {:?} is {:?}, no unit", a, b, p);
    same!(ctx, l(q(a).inv()), l(q(a).conj()), "inverse of {:?}", a);
    same!(ctx, l(Inv::inv(q(a))), l(q(a).conj()), "inverse (trait) of {:?}", a);
    same!(ctx, l(q(a) / q(b)), ham(a, l(q(b).conj())), "quotient of {:?} and {:?}", a, b);
    same!(ctx, q(a).norm(), 1.0, "norm of {:?}", a);
    same!(ctx, l(q(a).normalize()), a, "{:?} normalized", a);
    let f = a.map(|v| v as f32);
    let g = b.map(|v| v as f32);
    same!(ctx, l(q(f) * q(g)), ham(f, g), "product of {:?} and {:?}", f, g);
    same!(ctx, l(q(f).inv()), l(q(f).conj()), "inverse of {:?}", f);
    ctx.ops(10);
    ctx.state(&format!("{:?}{:?}", a, b));
}
/// Forms with a real or complex operand on the left, divisions and norms over floats.
fn floats<T: Fl>(ctx: &mut Ctx)
where
    T: Add<Quaternion<T>, Output = Quaternion<T>> + Sub<Quaternion<T>, Output = Quaternion<T>>
        + Mul<Quaternion<T>, Output = Quaternion<T>> + Div<Quaternion<T>, Output = Quaternion<T>>,
    Complex<T>: Add<Quaternion<T>, Output = Quaternion<T>> + Sub<Quaternion<T>, Output = Quaternion<T>>
        + Div<Quaternion<T>, Output = Quaternion<T>>,
{
    let g: Vec<T> = [0.0, 1.0, -2.0, 0.75].iter().map(|v| T::lit(*v)).collect();
    let a: Q<T> = [*ctx.pick(&g), *ctx.pick(&g), *ctx.pick(&g), *ctx.pick(&g)];
    let b: P2<T> = [*ctx.pick(&g), *ctx.pick(&g)];
    let o = T::zero();
    let (x, z, s) = (q(a), Complex::new(b[0], b[1]), b[0]);
    ctx.note(|| format!("a = {:?}, b = {:?}", a, b));
    let full = [b[0], b[1], o, o];
    let neg = each(a, |v| -v);
    let plus = |p: Q<T>, r: Q<T>| -> Q<T> { std::array::from_fn(|i| p[i] + r[i]) };
    same!(ctx, l(s + x), plus(a, [s, o, o, o]), "{:?} + {:?}", s, a);
    same!(ctx, l(s - x), plus(neg, [s, o, o, o]), "{:?} - {:?}", s, a);
    same!(ctx, l(s * x), each(a, |v| v * s), "{:?} * {:?}", s, a);
    same!(ctx, l(z + x), plus(a, full), "{:?} + {:?}", b, a);
    same!(ctx, l(z - x), plus(neg, full), "{:?} - {:?}", b, a);
    ctx.ops(5);
    let near = |p: Q<T>, r: Q<T>| (0..4).all(|i| close(p[i], r[i], 64.0));
    let one = [T::one(), o, o, o];
    if a != [o; 4] {
        let i = l(x.inv());
        ensure!(ctx, near(ham(i, a), one) && near(ham(a, i), one), "inverse of {:?} is {:?}", a, i);
        let i = l(Inv::inv(x));
        ensure!(ctx, near(ham(i, a), one) && near(ham(a, i), one), "inverse (trait) of {:?} is {:?}", a, i);
        let d = l(s / x);
        ensure!(ctx, near(ham(d, a), [s, o, o, o]), "{:?} / {:?} is {:?}", s, a, d);
        let d = l(z / x);
        ensure!(ctx, near(ham(d, a), full), "{:?} / {:?} is {:?}", b, a, d);
        let d = l(q(full) / x);
        ensure!(ctx, near(ham(d, a), full), "{:?} / {:?} is {:?}", full, a, d);
        let n = sqr(a).f().sqrt();
        ensure!(ctx, (x.norm().f() - n).abs() < n * T::EPS.f() * 8.0, "norm of {:?} is {:?}", a, x.norm());
        ensure!(ctx, (x.norm_l2().f() - n).abs() < n * T::EPS.f() * 8.0, "norm_l2 of {:?} is {:?}", a, x.norm_l2());
        same!(ctx, x.norm_l2_sqr(), sqr(a), "norm_l2_sqr of {:?}", a);
        let want = a.map(|v| T::lit(v.f() / n));
        ensure!(ctx, near(l(x.normalize()), want), "{:?} normalized is {:?}", a, l(x.normalize()));
        ensure!(ctx, near(l(Normalize::normalize(x)), want), "{:?} normalized is {:?}", a, l(Normalize::normalize(x)));
        ctx.ops(9);
    }
    if b != [o; 2] {
        let d = l(x / z);
        ensure!(ctx, near(ham(d, full), a), "{:?} / {:?} is {:?}", a, b, d);
        let mut u = x;
        u /= z;
        ensure!(ctx, near(ham(l(u), full), a), "{:?} /= {:?} is {:?}", a, b, l(u));
        ctx.ops(2);
    }
    if s != o {
        let want = each(a, |v| v / s);
        ensure!(ctx, near(l(x / s), want), "{:?} / {:?} is {:?}", a, s, l(x / s));
        let mut u = x;
        u /= s;
        ensure!(ctx, near(l(u), want), "{:?} /= {:?} is {:?}", a, s, l(u));
        ctx.ops(2);
    }
    ctx.state(&format!("{:?}{:?}", a, b));
}
type P2<T> = [T; 2];
/// The matrix form as a map of matrices.
fn matrices(ctx: &mut Ctx) {
    let (a, b) = (pick::<i32>(ctx), pick::<i32>(ctx));
    let (x, y) = (q(a).into_matrix(), q(b).into_matrix());
    same!(ctx, x.dot(y).into_array_of_arrays(), (q(a) * q(b)).into_matrix().into_array_of_arrays(), "matrix of the product of {:?} and {:?}", a, b);
    if b == [0; 4] {
        same!(ctx, x.transpose().into_array_of_arrays(), q(a).conj().into_matrix().into_array_of_arrays(), "matrix of the conjugate of {:?}", a);
        same!(ctx, x.det(), sqr(a) * sqr(a), "determinant of the matrix of {:?}", a);
        ctx.ops(2);
    }
    ctx.ops(1);
    ctx.state(&(a, b));
}
/// Each conversion keeps the components in place, also for elements that own memory.
fn layout(ctx: &mut Ctx) {
    let s = |k: usize| format!("part{}", k);
    let v3 = || Vector::from_array([s(1), s(2), s(3)]);
    let from = ctx.choose(9);
    let z: Quaternion<String> = match from {
        0 => Quaternion::new(s(0), s(1), s(2), s(3)),
        1 => Quaternion::from_vector(Vector::from_array([s(0), s(1), s(2), s(3)])),
        2 => Quaternion::from_array([s(0), s(1), s(2), s(3)]),
        3 => Quaternion::from_tuple((s(0), s(1), s(2), s(3))),
        4 => Quaternion::from_scalar_and_vector3(s(0), v3()),
        5 => Vector::from_array([s(0), s(1), s(2), s(3)]).into(),
        6 => (s(0), v3()).into(),
        7 => [s(0), s(1), s(2), s(3)].into(),
        _ => (s(0), s(1), s(2), s(3)).into(),
    };
    let to = ctx.choose(13);
    ctx.note(|| format!("built by way {}, taken apart by way {}", from, to));
    let tup = |(a, b, c, d): (String, String, String, String)| [a, b, c, d];
    let sv = |(a, v): (String, Vector<String, 3>)| {
        let [b, c, d] = v.into_array();
        [a, b, c, d]
    };
    let got: [String; 4] = match to {
        0 => z.into_vector().into_array(),
        1 => z.into_array(),
        2 => tup(z.into_tuple()),
        3 => sv(z.into_scalar_and_vector3()),
        4 => <Vector<String, 4>>::from(z).into_array(),
        5 => z.into(),
        6 => tup(z.into()),
        7 => sv(z.into()),
        8 => [z.w_ref().clone(), z.x_ref().clone(), z.y_ref().clone(), z.z_ref().clone()],
        k => {
            let mut z = z;
            let k = k - 9;
            let slot = match k {
                0 => z.w_mut(),
                1 => z.x_mut(),
                2 => z.y_mut(),
                _ => z.z_mut(),
            };
            let old = std::mem::replace(slot, s(7));
            let want: [String; 4] = std::array::from_fn(|i| if i == k { s(7) } else { s(i) });
            same!(ctx, z.clone().into_array(), want, "writing component {}", k);
            let mut a = z.into_array();
            a[k] = old;
            a
        }
    };
    same!(ctx, got, [s(0), s(1), s(2), s(3)], "parts built by way {} and taken by way {}", from, to);
    let k = Quaternion::new(3, 4, 5, 6);
    same!(ctx, (l(k), k.xyz().into_array()), ([3, 4, 5, 6], [4, 5, 6]), "components");
    ctx.ops(2);
    ctx.state(&(from, to));
}

fn build(r: &mut Reg) {
    macro_rules! all { ($f:ident; $($t:ty),*) => { $( r.add(format!("{}<{}>", stringify!($f), stringify!($t)), $f::<$t>); )* } }
    all!(forms; F3, F5, F11, i32, i64, f64, f32);
    if r.thorough() {
        all!(forms; F7);
    }
    all!(triples; F3, i32);
    r.add("units", units);
    r.add("matrices", matrices);
    r.add("layout", layout);
    all!(floats; f64, f32);
}

fn main() {
    mc::main(Check {
        prop: "C10",
        level: "model_checking",
        rule: "every execution = one operand pair or triple of complete finite-field quaternion algebras, integer grids or \
               the 24 Hurwitz units in every operand form; a state is a distinct operand tuple or product, a transition \
               one compared result",
        assumptions: &["oracle: Hamilton's multiplication table of the four basis elements, extended bilinearly"],
        build,
    });
}
