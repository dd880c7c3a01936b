//! C09: complex arithmetic is a field and its functions are the complex functions.
use mc::floats::*;
use mc::scalars::{F11, F3, F7};
use mc::*;
use num_complex::Complex as Nc;
use num_traits::{Inv, Num, One, Zero};
use std::fmt::Debug;
use std::ops::Neg;
use vecmat::prelude::{Conj, Dot, NormL2, Normalize};
use vecmat::{Complex, Matrix, Vector};

type P<T> = (T, T);
fn c<T>(p: P<T>) -> Complex<T> {
    Complex::new(p.0, p.1)
}
fn t<T: Copy>(z: Complex<T>) -> P<T> {
    (z.re(), z.im())
}
// the definition
fn mul<T: Num + Copy>(a: P<T>, b: P<T>) -> P<T> {
    (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0)
}

trait Ring: Num + Neg<Output = Self> + Copy + Debug + std::ops::AddAssign + std::ops::SubAssign + 'static {
    fn grid() -> Vec<Self>;
}
impl Ring for F3 {
    fn grid() -> Vec<Self> {
        F3::all()
    }
}
impl Ring for F7 {
    fn grid() -> Vec<Self> {
        F7::all()
    }
}
impl Ring for F11 {
    fn grid() -> Vec<Self> {
        F11::all()
    }
}
impl Ring for i32 {
    fn grid() -> Vec<Self> {
        vec![-3, -1, 0, 1, 2, 5]
    }
}
impl Ring for i64 {
    fn grid() -> Vec<Self> {
        vec![-2, -1, 0, 1, 2]
    }
}
impl Ring for f64 {
    fn grid() -> Vec<Self> {
        vec![-2.0, -0.5, 0.0, 1.0, 3.0]
    }
}
impl Ring for f32 {
    fn grid() -> Vec<Self> {
        vec![-2.0, -0.5, 0.0, 1.0, 3.0]
    }
}

fn pick<T: Ring>(ctx: &mut Ctx) -> P<T> {
    let g = T::grid();
    (*ctx.pick(&g), *ctx.pick(&g))
}
/// Ring operations in every operand form on every pair of complex numbers and every scalar.
fn ring<T: Ring>(ctx: &mut Ctx) {
    let (a, b) = (pick::<T>(ctx), pick::<T>(ctx));
    let s = b.0;
    ctx.note(|| format!("a = {:?}, b = {:?}", a, b));
    let (x, y) = (c(a), c(b));
    macro_rules! op {
        ($n:expr, $got:expr, $want:expr) => {{
            same!(ctx, t($got), $want, "{} of {:?} and {:?}", $n, a, b);
            ctx.ops(1);
        }};
    }
    macro_rules! assign {
        ($n:expr, $o:tt, $r:expr, $want:expr) => {{
            let mut z = x;
            z $o $r;
            op!($n, z, $want);
        }};
    }
    op!("sum", x + y, (a.0 + b.0, a.1 + b.1));
    op!("difference", x - y, (a.0 - b.0, a.1 - b.1));
    op!("product", x * y, mul(a, b));
    op!("sum with a scalar", x + s, (a.0 + s, a.1));
    op!("difference with a scalar", x - s, (a.0 - s, a.1));
    op!("product with a scalar", x * s, (a.0 * s, a.1 * s));
    assign!("sum, assigning", +=, y, (a.0 + b.0, a.1 + b.1));
    assign!("difference, assigning", -=, y, (a.0 - b.0, a.1 - b.1));
    assign!("product, assigning", *=, y, mul(a, b));
    assign!("sum with a scalar, assigning", +=, s, (a.0 + s, a.1));
    assign!("difference with a scalar, assigning", -=, s, (a.0 - s, a.1));
    assign!("product with a scalar, assigning", *=, s, (a.0 * s, a.1 * s));
    op!("negation", -x, (-a.0, -a.1));
    op!("conjugate", x.conj(), (a.0, -a.1));
    op!("conjugate (trait)", Conj::conj(x), (a.0, -a.1));
    if !s.is_zero() {
        op!("quotient by a scalar", x / s, (a.0 / s, a.1 / s));
        assign!("quotient by a scalar, assigning", /=, s, (a.0 / s, a.1 / s));
    }
    same!(ctx, x.norm_sqr(), a.0 * a.0 + a.1 * a.1, "square norm of {:?}", a);
    same!(ctx, x.dot(y), a.0 * b.0 + a.1 * b.1, "dot product of {:?} and {:?}", a, b);
    same!(ctx, x == y, a.0 == b.0 && a.1 == b.1, "equality of {:?} and {:?}", a, b);
    same!(ctx, x.is_zero(), a.0.is_zero() && a.1.is_zero(), "is_zero of {:?}", a);
    same!(ctx, x.is_one(), a.0.is_one() && a.1.is_zero(), "is_one of {:?}", a);
    let m = x.into_matrix().into_array_of_arrays();
    same!(ctx, m, [[a.0, -a.1], [a.1, a.0]], "matrix of {:?}", a);
    let v = x.into_matrix().dot(y.into_vector());
    same!(ctx, (v[0], v[1]), mul(a, b), "matrix of {:?} applied to {:?}", a, b);
    same!(ctx, t(Complex::<T>::zero()), (T::zero(), T::zero()), "zero");
    same!(ctx, t(Complex::<T>::one()), (T::one(), T::zero()), "one");
    same!(ctx, t(Complex::<T>::i()), (T::zero(), T::one()), "i");
    ctx.ops(11);
    ctx.state(&format!("{:?}{:?}", a, b));
}
/// Division, inversion and powers over fields in which -1 is no square.
fn field<T: Ring>(ctx: &mut Ctx) {
    let (a, b) = (pick::<T>(ctx), pick::<T>(ctx));
    let (x, y) = (c(a), c(b));
    ctx.note(|| format!("a = {:?}, b = {:?}", a, b));
    if b == (T::zero(), T::zero()) {
        return;
    }
    let one = (T::one(), T::zero());
    let inv = t(y.inv());
    same!(ctx, mul(inv, b), one, "inverse {:?} of {:?} times it", inv, b);
    let q = t(x / y);
    same!(ctx, mul(q, b), a, "quotient {:?} of {:?} and {:?} times the divisor", q, a, b);
    let mut z = x;
    z /= y;
    same!(ctx, t(z), q, "assigning quotient of {:?} and {:?}", a, b);
    let f = t(x.into_num().into());
    same!(ctx, f, a, "there and back");
    ctx.ops(4);
    ctx.state(&format!("{:?}{:?}", a, b));
}
fn powers<T: Ring>(ctx: &mut Ctx) {
    let a = pick::<T>(ctx);
    let x = c(a);
    let zero = (T::zero(), T::zero());
    let power = |mut b: P<T>, mut e: u64| {
        let mut r = (T::one(), T::zero());
        while e > 0 {
            if e % 2 == 1 {
                r = mul(r, b);
            }
            b = mul(b, b);
            e /= 2;
        }
        r
    };
    for e in [0u32, 1, 2, 3, 4, 5, 7, 8, 12, 48, 1000, 1 << 31, u32::MAX] {
        same!(ctx, t(x.powu(e)), power(a, e as u64), "{:?} to the power {}", a, e);
        ctx.ops(1);
    }
    for e in [0i32, 1, 2, 3, 5, 8, 31, i32::MAX] {
        same!(ctx, t(x.powi(e)), power(a, e as u64), "{:?} to the power {}", a, e);
        ctx.ops(1);
        if a != zero && e > 0 {
            let inv = t(x.powi(-e));
            same!(ctx, mul(inv, power(a, e as u64)), (T::one(), T::zero()), "{:?} to the power -{} undone", a, e);
            ctx.ops(1);
        }
    }
    if a != zero {
        let inv = t(x.powi(i32::MIN));
        same!(ctx, mul(inv, power(a, 1 << 31)), (T::one(), T::zero()), "{:?} to the power -2^31 undone", a);
    }
    ctx.state(&format!("{:?}", a));
}
/// Associativity and distributivity on every triple.
fn triples<T: Ring>(ctx: &mut Ctx) {
    let (a, b, d) = (pick::<T>(ctx), pick::<T>(ctx), pick::<T>(ctx));
    let (x, y, z) = (c(a), c(b), c(d));
    same!(ctx, t((x * y) * z), t(x * (y * z)), "associativity for {:?} {:?} {:?}", a, b, d);
    same!(ctx, t(x * (y + z)), t(x * y + x * z), "distributivity for {:?} {:?} {:?}", a, b, d);
    same!(ctx, t(x * y), t(y * x), "commutativity for {:?} {:?}", a, b);
    same!(ctx, t((x * y).conj()), t(x.conj() * y.conj()), "conjugate of the product of {:?} {:?}", a, b);
    same!(ctx, (x * y).norm_sqr(), x.norm_sqr() * y.norm_sqr(), "norm of the product of {:?} {:?}", a, b);
    ctx.ops(5);
    ctx.state(&format!("{:?}{:?}{:?}", a, b, d));
}
/// Real operands on the left, both float types.
fn reals<T: Fl>(ctx: &mut Ctx)
where
    T: std::ops::Add<Complex<T>, Output = Complex<T>> + std::ops::Sub<Complex<T>, Output = Complex<T>>
        + std::ops::Mul<Complex<T>, Output = Complex<T>> + std::ops::Div<Complex<T>, Output = Complex<T>>,
{
    let g: Vec<T> = [0.0, -1.0, 0.5, 3.0, -2.25, 8.0].iter().map(|x| T::lit(*x)).collect();
    let (s, a) = (*ctx.pick(&g), (*ctx.pick(&g), *ctx.pick(&g)));
    let x = c(a);
    ctx.note(|| format!("s = {:?}, a = {:?}", s, a));
    same!(ctx, t(s + x), (s + a.0, a.1), "{:?} + {:?}", s, a);
    same!(ctx, t(s - x), (s - a.0, -a.1), "{:?} - {:?}", s, a);
    same!(ctx, t(s * x), (s * a.0, s * a.1), "{:?} * {:?}", s, a);
    ctx.ops(3);
    if !x.is_zero() {
        let q = t(s / x);
        let back = mul(q, a);
        ensure!(ctx, close(back.0, s, 16.0) && close(back.1, T::zero(), 64.0), "{:?} / {:?} is {:?}, times the divisor {:?}", s, a, q, back);
        let i = t(x.inv());
        let j = t(Inv::inv(x));
        let back = mul(i, a);
        ensure!(ctx, close(back.0, T::one(), 8.0) && close(back.1, T::zero(), 8.0), "inverse of {:?} is {:?}", a, i);
        let back = mul(j, a);
        ensure!(ctx, close(back.0, T::one(), 8.0) && close(back.1, T::zero(), 8.0), "inverse (trait) of {:?} is {:?}", a, j);
        let b = (s, g[1]);
        let q = t(c(b) / x);
        let back = mul(q, a);
        ensure!(ctx, close(back.0, b.0, 32.0) && close(back.1, b.1, 32.0), "{:?} / {:?} is {:?}", b, a, q);
        let q = t(c(b).fdiv(x));
        let back = mul(q, a);
        ensure!(ctx, close(back.0, b.0, 32.0) && close(back.1, b.1, 32.0), "fdiv of {:?} and {:?} is {:?}", b, a, q);
        let q = t(x.finv());
        let back = mul(q, a);
        ensure!(ctx, close(back.0, T::one(), 8.0) && close(back.1, T::zero(), 8.0), "finv of {:?} is {:?}", a, q);
        ctx.ops(6);
    }
    ctx.state(&(s.bits(), a.0.bits(), a.1.bits()));
}
/// Each conversion keeps the parts in place, also for elements that own memory.
fn layout(ctx: &mut Ctx) {
    let s = |k: usize| format!("part{}", k);
    let mk = |k: usize| -> Complex<String> {
        match k {
            0 => Complex::new(s(0), s(1)),
            1 => Complex::from_vector(Vector::from_array([s(0), s(1)])),
            2 => Complex::from_array([s(0), s(1)]),
            3 => Complex::from_tuple((s(0), s(1))),
            4 => Complex::from_num(Nc { re: s(0), im: s(1) }),
            5 => Vector::from_array([s(0), s(1)]).into(),
            6 => [s(0), s(1)].into(),
            7 => (s(0), s(1)).into(),
            _ => Nc { re: s(0), im: s(1) }.into(),
        }
    };
    let from = ctx.choose(9);
    let z = mk(from);
    let to = ctx.choose(11);
    ctx.note(|| format!("built by way {}, taken apart by way {}", from, to));
    let got: [String; 2] = match to {
        0 => z.into_vector().into_array(),
        1 => z.into_array(),
        2 => {
            let (a, b) = z.into_tuple();
            [a, b]
        }
        3 => {
            let n = z.into_num();
            [n.re, n.im]
        }
        4 => <Vector<String, 2>>::from(z).into_array(),
        5 => z.into(),
        6 => {
            let (a, b) = z.into();
            [a, b]
        }
        7 => {
            let n: Nc<String> = z.into();
            [n.re, n.im]
        }
        8 => [z.re_ref().clone(), z.im_ref().clone()],
        9 => {
            let mut z = z;
            let a = std::mem::replace(z.re_mut(), s(7));
            same!(ctx, z.clone().into_array(), [s(7), s(1)], "writing the real part");
            [a, z.im_ref().clone()]
        }
        _ => {
            let mut z = z;
            let b = std::mem::replace(z.im_mut(), s(7));
            same!(ctx, z.clone().into_array(), [s(0), s(7)], "writing the imaginary part");
            [z.re_ref().clone(), b]
        }
    };
    same!(ctx, got, [s(0), s(1)], "parts built by way {} and taken by way {}", from, to);
    let k = Complex::new(3, 4);
    same!(ctx, (k.re(), k.im()), (3, 4), "re and im");
    same!(ctx, Complex::<i32>::default().into_array(), [0, 0], "default");
    ctx.ops(1);
    ctx.state(&(from, to));
}
/// Remainder: the dividend minus the divisor times the quotient rounded towards zero.
fn remainder(ctx: &mut Ctx) {
    let g: Vec<i64> = if ctx.thorough() { (-7..=7).collect() } else { vec![-7, -3, -2, -1, 0, 1, 2, 5] };
    let a = (*ctx.pick(&g), *ctx.pick(&g));
    let b = (*ctx.pick(&g), *ctx.pick(&g));
    if b == (0, 0) {
        return;
    }
    let n = b.0 * b.0 + b.1 * b.1;
    let q = ((a.0 * b.0 + a.1 * b.1) / n, (a.1 * b.0 - a.0 * b.1) / n);
    let p = mul(q, b);
    same!(ctx, t(c(a) % c(b)), (a.0 - p.0, a.1 - p.1), "{:?} % {:?}", a, b);
    // small integers are exact in floating point unless the true quotient is next to an integer
    let f = |p: P<i64>| c((p.0 as f64, p.1 as f64));
    let exact = |x: i64| n & (n - 1) == 0 || x % n != 0;
    if exact(a.0 * b.0 + a.1 * b.1) && exact(a.1 * b.0 - a.0 * b.1) {
        same!(ctx, t(f(a) % f(b)), ((a.0 - p.0) as f64, (a.1 - p.1) as f64), "{:?} % {:?} as floats", a, b);
    }
    ctx.ops(2);
    ctx.state(&(a, b));
}
/// Every short text is read as num-complex, the format's reference, reads it.
fn parse(ctx: &mut Ctx) {
    let alphabet = ['1', '-', 'i', '+', '0', 'j', '.', 'f', ' '];
    let n = ctx.choose(if ctx.thorough() { 7 } else { 5 });
    let text: String = (0..n).map(|_| *ctx.pick(&alphabet)).collect();
    let radix = *ctx.pick(&[10u32, 16, 2]);
    let got = <Complex<i32> as Num>::from_str_radix(&text, radix);
    let want = Nc::<i32>::from_str_radix(&text, radix);
    same!(ctx, got.is_ok(), want.is_ok(), "reading {:?} with radix {}", text, radix);
    if let (Ok(g), Ok(w)) = (&got, &want) {
        same!(ctx, (g.re(), g.im()), (w.re, w.im), "reading {:?} with radix {}", text, radix);
    }
    if let (Err(g), Err(w)) = (&got, &want) {
        same!(ctx, format!("{:?}", g), format!("{:?}", w), "error of reading {:?}", text);
    }
    if radix == 10 {
        let got = <Complex<f64> as Num>::from_str_radix(&text, 10);
        let want = Nc::<f64>::from_str_radix(&text, 10);
        same!(ctx, got.is_ok(), want.is_ok(), "reading {:?} as floats", text);
        if let (Ok(g), Ok(w)) = (&got, &want) {
            ensure!(ctx, same_num(g.re(), w.re) && same_num(g.im(), w.im), "reading {:?} as floats", text);
        }
    }
    ctx.ops(2);
    ctx.state(&(text, radix));
}
/// What is written as "a+bi" is read back.
fn written(ctx: &mut Ctx) {
    let g: Vec<i32> = vec![-12, -1, 0, 1, 9, i32::MAX, -i32::MAX];
    let (a, b) = (*ctx.pick(&g), *ctx.pick(&g));
    for text in [format!("{}{:+}i", a, b), format!("{}{:+}j", a, b), format!("{:+}i{:+}", b, a)] {
        match <Complex<i32> as Num>::from_str_radix(&text, 10) {
            Ok(z) => same!(ctx, t(z), (a, b), "reading {:?}", text),
            Err(_) => ctx.fail(format!("{:?} was not read", text)),
        }
        ctx.ops(1);
    }
    ctx.state(&(a, b));
}

fn lattice<T: Fl>(thorough: bool) -> Vec<T> {
    let mut v: Vec<T> = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 0.125, -0.125, 3.0, -3.5, 1e-3, -1e-3].iter().map(|x| T::lit(*x)).collect();
    v.extend([T::FRAC_PI_2(), -T::FRAC_PI_2(), T::FRAC_PI_4(), -T::PI()]);
    // the other side of the branch cuts, tiny and large magnitudes
    v.extend([-0.0, 1e-10, -1e-10, 30.0, -1e10].map(T::lit));
    if thorough {
        for k in 1..40 {
            v.push(T::lit(k as f64 * 0.17));
            v.push(T::lit(k as f64 * -0.173));
        }
        v.extend([T::EPS, -T::EPS, T::lit(1.0).down(), T::lit(-1.0).up()]);
    }
    v
}
/// Distance of two complex numbers relative to their size, in epsilons.
fn near<T: Fl>(a: P<T>, b: P<f64>, eps: f64) -> bool {
    let (x, y) = (a.0.f(), a.1.f());
    if [x, y, b.0, b.1].iter().any(|v| !v.is_finite()) {
        let k = |v: f64| if v.is_nan() { 2 } else { v.is_infinite() as i32 };
        return k(x) == k(b.0) && k(y) == k(b.1) || [b.0, b.1].iter().any(|v| v.abs() > 1e30);
    }
    let d = (x - b.0).hypot(y - b.1);
    d <= eps * T::EPS.f() * 1f64.max(b.0.hypot(b.1)).max(1.0)
}
/// The same relative to the size of the expected number alone.
fn near_rel<T: Fl>(a: P<T>, b: P<f64>, eps: f64) -> bool {
    let d = (a.0.f() - b.0).hypot(a.1.f() - b.1);
    near(a, b, eps) && (!d.is_finite() || d <= eps * T::EPS.f() * b.0.hypot(b.1) + 8.0 * T::min_positive_value().f())
}
/// Norm, argument and polar form.
fn polar<T: Fl>(ctx: &mut Ctx) {
    let g = lattice::<T>(ctx.thorough());
    let a = (*ctx.pick(&g), *ctx.pick(&g));
    let x = c(a);
    let (re, im) = (a.0.f(), a.1.f());
    let (r, th) = (re.hypot(im), im.atan2(re));
    ensure!(ctx, (x.norm().f() - r).abs() <= 4.0 * T::EPS.f() * r, "norm of {:?} is {:?}", a, x.norm());
    ensure!(ctx, close(x.norm_l2(), x.norm(), 1.0) && close(x.norm_l2_sqr(), x.norm_sqr(), 1.0), "norm traits of {:?}", a);
    if r > 0.0 {
        // atan2 tells both sides of the cut apart, and stays exact for arguments next to zero
        ensure!(ctx, rel(x.arg(), T::lit(th), 8.0), "argument of {:?} is {:?}", a, x.arg());
    }
    let (p, q) = x.to_polar();
    ensure!(ctx, close(p, x.norm(), 4.0) && (r == 0.0 || rel(q, x.arg(), 4.0)), "polar form of {:?} is {:?}", a, (p, q));
    let back = t(Complex::from_polar(p, q));
    ensure!(ctx, near_rel(back, (re, im), 16.0), "{:?} came back from polar form as {:?}", a, back);
    let fp = t(Complex::from_polar(a.0, a.1));
    ensure!(ctx, near_rel(fp, (re * im.cos(), re * im.sin()), 16.0), "from_polar of {:?} is {:?}", a, fp);
    if r > 0.0 {
        let u = t(x.normalize());
        ensure!(ctx, near(u, (re / r, im / r), 8.0), "{:?} normalized is {:?}", a, u);
        let u = t(Normalize::normalize(x));
        ensure!(ctx, near(u, (re / r, im / r), 8.0), "{:?} normalized is {:?}", a, u);
    }
    ctx.ops(7);
    ctx.state(&(a.0.bits(), a.1.bits()));
}
/// Transcendental functions: by their definition in double precision, and by the reference
/// implementation in the same precision also on the branch cuts.
fn functions<T: Fl>(ctx: &mut Ctx) {
    let g = lattice::<T>(ctx.thorough());
    let a = (*ctx.pick(&g), *ctx.pick(&g));
    let x = c(a);
    let n = Nc::new(a.0, a.1);
    ctx.note(|| format!("z = {:?}", a));
    let fs: [(&str, fn(Complex<T>) -> Complex<T>, fn(Nc<T>) -> Nc<T>); 17] = [
        ("exp", Complex::exp, |z| z.exp()), ("ln", Complex::ln, |z| z.ln()), ("sqrt", Complex::sqrt, |z| z.sqrt()),
        ("cbrt", Complex::cbrt, |z| z.cbrt()), ("sin", Complex::sin, |z| z.sin()), ("cos", Complex::cos, |z| z.cos()),
        ("tan", Complex::tan, |z| z.tan()), ("asin", Complex::asin, |z| z.asin()), ("acos", Complex::acos, |z| z.acos()),
        ("atan", Complex::atan, |z| z.atan()), ("sinh", Complex::sinh, |z| z.sinh()), ("cosh", Complex::cosh, |z| z.cosh()),
        ("tanh", Complex::tanh, |z| z.tanh()), ("asinh", Complex::asinh, |z| z.asinh()), ("acosh", Complex::acosh, |z| z.acosh()),
        ("atanh", Complex::atanh, |z| z.atanh()), ("finv", Complex::finv, |z| z.finv()),
    ];
    for (name, f, w) in fs {
        let (got, want) = (t(f(x)), w(n));
        let fits = if matches!(name, "exp" | "sqrt" | "cbrt" | "finv") { near_rel } else { near };
        ensure!(ctx, fits(got, (want.re.f(), want.im.f()), 64.0), "{} of {:?}: got {:?}, expected {:?}", name, a, got, want);
        ctx.ops(1);
        ctx.state(&(name, want.re.f().to_bits(), want.im.f().to_bits()));
    }
    // definitions
    let (re, im) = (a.0.f(), a.1.f());
    let z = Nc::new(re, im);
    let i = Nc::new(0.0, 1.0);
    let e = |z: Nc<f64>| Nc::new(z.re.exp() * z.im.cos(), z.re.exp() * z.im.sin());
    let def = |k: &str, got: Complex<T>, want: Nc<f64>, ctx: &mut Ctx| {
        if !(want.re.is_finite() && want.im.is_finite()) {
            return;
        }
        ensure!(ctx, near(t(got), (want.re, want.im), 512.0), "{} of {:?}: got {:?}, by definition {:?}", k, a, t(got), want);
    };
    def("exp", x.exp(), e(z), ctx);
    def("sin", x.sin(), (e(i * z) - e(-i * z)) / (i * 2.0), ctx);
    def("cos", x.cos(), (e(i * z) + e(-i * z)) / 2.0, ctx);
    def("sinh", x.sinh(), (e(z) - e(-z)) / 2.0, ctx);
    def("cosh", x.cosh(), (e(z) + e(-z)) / 2.0, ctx);
    let r = re.hypot(im);
    if r > 0.0 {
        let l = Nc::new(r.ln(), im.atan2(re));
        def("ln", x.ln(), l, ctx);
        let root = |k: f64| Nc::new(r.powf(1.0 / k) * (l.im / k).cos(), r.powf(1.0 / k) * (l.im / k).sin());
        def("sqrt", x.sqrt(), root(2.0), ctx);
        def("cbrt", x.cbrt(), root(3.0), ctx);
    }
    ctx.ops(8);
}
/// Powers and logarithms with two arguments.
fn two<T: Fl>(ctx: &mut Ctx) {
    let g: Vec<T> = [0.5, 1.0, -1.0, 2.0, -0.75, 0.0, 3.0, -0.0].iter().map(|x| T::lit(*x)).collect();
    let a = (*ctx.pick(&g), *ctx.pick(&g));
    let b = (*ctx.pick(&g), *ctx.pick(&g));
    let (x, n, y, k) = (c(a), Nc::new(a.0, a.1), c(b), Nc::new(b.0, b.1));
    let d = |k: &str, got: Complex<T>, want: Nc<T>, ctx: &mut Ctx| {
        ensure!(ctx, near(t(got), (want.re.f(), want.im.f()), 128.0), "{} of {:?} and {:?}: got {:?}, expected {:?}", k, a, b, t(got), want);
        ctx.ops(1);
    };
    d("powf", x.powf(b.0), n.powf(b.0), ctx);
    d("powc", x.powc(y), n.powc(k), ctx);
    if b.0 > T::zero() && b.0 != T::one() {
        d("log", x.log(b.0), n.log(b.0), ctx);
        d("expf", x.expf(b.0), n.expf(b.0), ctx);
    }
    if !x.is_zero() {
        d("fdiv", y.fdiv(x), k.fdiv(n), ctx);
        let nz = |p: P<T>| Nc::new(p.0.f(), p.1.f());
        let (z, w) = (nz(a), nz(b));
        let l = Nc::new(z.re.hypot(z.im).ln(), z.im.atan2(z.re));
        let e = |z: Nc<f64>| (z.re.exp() * z.im.cos(), z.re.exp() * z.im.sin());
        ensure!(ctx, near(t(x.powc(y)), e(l * w), 4096.0), "{:?} to the power {:?} is {:?}", a, b, t(x.powc(y)));
        ensure!(ctx, near(t(x.powf(b.0)), e(l * w.re), 4096.0), "{:?} to the power {:?} is {:?}", a, b.0, t(x.powf(b.0)));
        if b.0 > T::zero() && b.0 != T::one() {
            let q = l / w.re.ln();
            ensure!(ctx, near(t(x.log(b.0)), (q.re, q.im), 512.0), "logarithm of {:?} to base {:?} is {:?}", a, b.0, t(x.log(b.0)));
            ensure!(ctx, near(t(x.expf(b.0)), e(z * w.re.ln()), 4096.0), "{:?} to the power {:?} is {:?}", b.0, a, t(x.expf(b.0)));
        }
        // whole powers
        for k in -4..=6i32 {
            let (want, got) = (e(l * k as f64), t(x.powi(k)));
            ensure!(ctx, near(got, want, 4096.0), "{:?} to the power {} is {:?}", a, k, got);
            if k >= 0 {
                ensure!(ctx, near(t(x.powu(k as u32)), want, 4096.0), "{:?} to the power {} is {:?}", a, k, t(x.powu(k as u32)));
            }
            ctx.ops(1);
        }
    }
    ctx.state(&(a.0.bits(), a.1.bits(), b.0.bits(), b.1.bits()));
}
/// Reciprocal, quotient and functions of numbers of any magnitude.
fn sizes<T: Fl>(ctx: &mut Ctx) {
    let wide = T::EPS.f() < 1e-10;
    let ks: &[i32] = if wide { &[40, -40, 300, -300, 520, -520, 700, -700, 1000, -1000] } else { &[10, -10, 40, -40, 64, -64, 100, -100, 120, -120] };
    let g = [0.0, 1.0, -1.0, 0.75, -1.5, 0.0625];
    let a: (f64, f64) = (*ctx.pick(&g), *ctx.pick(&g));
    let b: (f64, f64) = (*ctx.pick(&g), *ctx.pick(&g));
    let k = *ctx.pick(ks);
    if a == (0.0, 0.0) {
        return;
    }
    // exact: powers of two
    let s = 2f64.powi(k);
    let x = c((T::lit(a.0 * s), T::lit(a.1 * s)));
    let y = c((T::lit(b.0 * s), T::lit(b.1 * s)));
    ctx.note(|| format!("{:?} times 2 to the power {}, {:?}", a, k, b));
    let q = |a: (f64, f64), b: (f64, f64)| {
        let n = b.0 * b.0 + b.1 * b.1;
        ((a.0 * b.0 + a.1 * b.1) / n, (a.1 * b.0 - a.0 * b.1) / n)
    };
    let fits = |got: Complex<T>, want: (f64, f64), scale: f64| {
        let d = (got.re().f() / scale - want.0).hypot(got.im().f() / scale - want.1);
        d <= 64.0 * T::EPS.f() * want.0.hypot(want.1)
    };
    let got = x.finv();
    ensure!(ctx, fits(got, q((1.0, 0.0), a), 1.0 / s), "finv of {:?} is {:?}", t(x), t(got));
    let got = y.fdiv(x);
    ensure!(ctx, fits(got, q(b, a), 1.0), "{:?} fdiv {:?} is {:?}", t(y), t(x), t(got));
    let (r, th) = (a.0.hypot(a.1), a.1.atan2(a.0));
    ensure!(ctx, rel(x.arg(), T::lit(th), 8.0), "argument of {:?} is {:?}", t(x), x.arg());
    let l = (r.ln() + k as f64 * std::f64::consts::LN_2, th);
    ensure!(ctx, fits(x.ln(), l, 1.0), "ln of {:?} is {:?}", t(x), t(x.ln()));
    let w = (r.sqrt() * (th / 2.0).cos(), r.sqrt() * (th / 2.0).sin());
    ensure!(ctx, fits(x.sqrt(), w, 2f64.powi(k / 2)), "sqrt of {:?} is {:?}", t(x), t(x.sqrt()));
    ctx.ops(5);
    ctx.state(&(a.0.to_bits(), a.1.to_bits(), b.0.to_bits(), b.1.to_bits(), k));
}
/// The matrix form as a map of matrices.
fn matrices(ctx: &mut Ctx) {
    let (a, b) = (pick::<i64>(ctx), pick::<i64>(ctx));
    let (x, y): (Matrix<i64, 2, 2>, Matrix<i64, 2, 2>) = (c(a).into_matrix(), c(b).into_matrix());
    same!(ctx, x.dot(y).into_array_of_arrays(), (c(a) * c(b)).into_matrix().into_array_of_arrays(), "matrix of the product of {:?} and {:?}", a, b);
    same!(ctx, x.transpose().into_array_of_arrays(), c(a).conj().into_matrix().into_array_of_arrays(), "matrix of the conjugate of {:?}", a);
    same!(ctx, x.det(), c(a).norm_sqr(), "determinant of the matrix of {:?}", a);
    ctx.ops(3);
    ctx.state(&(a, b));
}

/// A real number is its own conjugate, and conjugates as a complex number without imaginary part.
fn real_conj<T: Fl + Conj>(ctx: &mut Ctx) {
    let x = *ctx.pick(&special::<T>());
    ctx.note(|| format!("conjugate of {x:?}"));
    ensure!(ctx, same_bits(x.conj(), x) && same_bits(-((-x).conj()), x), "conjugate of the real number {x:?}: {:?}", x.conj());
    ctx.ops(2);
    ctx.state(&x.bits());
}

fn build(r: &mut Reg) {
    macro_rules! all { ($f:ident; $($t:ty),*) => { $( r.add(format!("{}<{}>", stringify!($f), stringify!($t)), $f::<$t>); )* } }
    all!(ring; F3, F7, F11, i32, i64, f64, f32);
    all!(field; F3, F7, F11);
    all!(powers; F3, F7, F11);
    all!(triples; F3, i64);
    if r.thorough() {
        all!(triples; F7);
    }
    all!(reals; f64, f32);
    all!(sizes; f64, f32);
    r.add("layout", layout);
    r.add("remainder", remainder);
    r.add("parse", parse);
    r.add("written", written);
    r.add("matrices", matrices);
    all!(polar; f64, f32);
    all!(functions; f64, f32);
    all!(two; f64, f32);
    all!(real_conj; f64, f32);
}

fn main() {
    mc::main(Check {
        prop: "C09",
        level: "model_checking",
        rule: "every execution = one operand tuple: complete finite fields (3, 7, 11, where -1 is no square) and integer \
               grids for the exact laws, a lattice over all quadrants, axes and branch cuts for the functions, all texts \
               up to the length bound for parsing; a state is a distinct operand tuple or result, a transition one \
               compared result",
        assumptions: &[
            "num-complex is the reference for the text format and for values on branch cuts; elsewhere functions are also compared with their definition in double precision",
            "float results are compared within tolerances of a few to a few thousand epsilons",
        ],
        build,
    });
}
