// The same calls for both float types: included by float.rs with F and NAME set.
use crate::*;
use vecmat::complex::Moebius;
use vecmat::prelude::*;
use vecmat::transform::*;
use vecmat::{Complex, Matrix, Quaternion, Vector};
const ALL: [F; 22] = [
    0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 1.5, 2.5, -2.5, 3.3, -3.7, 0.1, -0.25, 7.0, 1e-3, -1e-6, 1e3, -1e5, 1e9,
    F::NAN, F::INFINITY, F::NEG_INFINITY,
];
const SOME: [F; 9] = [0.3, -0.7, 1.0, -1.25, 2.0, -3.5, 0.0, 1e-4, 12.0];

const MORE: [F; 24] = [
    0.2, -0.9, 1.25, -1.75, 3.0, -4.0, 5.5, 6.283185, -9.75, 11.0, 17.3, -31.4, 1e-2, -1e-4, 1e-5, 0.33333, -0.6667, 0.99999, -1.00001, 99.5,
    -250.25, 1e4, 5e-3, -2e2,
];
fn all(thorough: bool) -> Vec<F> {
    ALL.into_iter().chain(if thorough { MORE.to_vec() } else { vec![] }).collect()
}
fn some(thorough: bool) -> Vec<F> {
    SOME.into_iter().chain(if thorough { MORE.to_vec() } else { vec![] }).collect()
}
fn elementwise(o: &mut Out) {
    macro_rules! one { ($c:literal: $($f:ident)*) => { $( for x in all(o.thorough) {
        // outside its domain the math library's own answer is not ours to compare
        if stringify!($f) == "acosh" && x < -1.0 { continue; }
        o.put($c, "core", &format!("{} vector {} {:?}", NAME, stringify!($f), x), || format!("{:?}", Vector::<F, 2>::from([x, 0.75]).$f()));
        o.put($c, "core", &format!("{} matrix {} {:?}", NAME, stringify!($f), x), || format!("{:?}", Matrix::<F, 2, 1>::from([[0.75], [x]]).$f()));
    } )* } }
    one!("E": abs signum sqrt floor ceil round trunc fract recip);
    one!("A": cbrt acos asin atan cosh sinh tan tanh log2 exp ln sin cos asinh acosh atanh exp2 log10 sin_cos exp_m1 ln_1p);
    macro_rules! two { ($c:literal: $($f:ident)*) => { $( for x in all(o.thorough) { for y in all(o.thorough) {
        o.put($c, "core", &format!("{} vector {} {:?} {:?}", NAME, stringify!($f), x, y), || format!("{:?}", (Vector::<F, 2>::from([x, 0.75]).$f(Vector::from([y, 0.5])), Vector::<F, 2>::from([x, 0.75]).$f(y))));
        o.put($c, "core", &format!("{} matrix {} {:?} {:?}", NAME, stringify!($f), x, y), || format!("{:?}", (Matrix::<F, 1, 2>::from([[x, 0.75]]).$f(Matrix::from([[y, 0.5]])), Matrix::<F, 1, 2>::from([[x, 0.75]]).$f(y), Matrix::<F, 1, 2>::from([[x, 0.75]]).$f(Vector::from([y, 0.5])))));
    } } )* } }
    two!("E": abs_sub);
    two!("M": vmin vmax);
    two!("A": atan2 hypot powf log);
    for x in all(o.thorough) { for k in [-3, -1, 0, 1, 2, 5] {
        a!(o, (Vector::<F, 2>::from([x, 0.75]).powi(Vector::from([k, 2])), Vector::<F, 2>::from([x, 0.75]).powi(k), Matrix::<F, 1, 2>::from([[x, 0.75]]).powi(k)), "{NAME} powi {x:?} {k}");
    } }
    for x in some(o.thorough) { for y in some(o.thorough) { for z in some(o.thorough) {
        a!(o, (Vector::<F, 2>::from([x, 0.75]).mul_add(Vector::from([y, 0.5]), z), Matrix::<F, 1, 2>::from([[x, 0.75]]).mul_add(y, Vector::from([z, 2.0]))), "{NAME} mul_add {x:?} {y:?} {z:?}");
        if y <= z { e!(o, (Vector::<F, 2>::from([x, 0.75]).clamp(y, z), Matrix::<F, 1, 2>::from([[x, 0.75]]).clamp(y, Vector::from([z, 2.0 + z]))), "{NAME} clamp {x:?} {y:?} {z:?}"); }
    } } }
    for x in all(o.thorough) { for y in all(o.thorough) {
        let (v, w) = (Vector::<F, 3>::from([x, y, 1.5]), Vector::<F, 3>::from([y, 2.0, x]));
        e!(o, (v + w, v - w, v * w, v / w, v % w, -v, v * y, v / y, 2.0 * v), "{NAME} vector ops {x:?} {y:?}");
        e!(o, (v.sum(), v.dot(w), v.cross(w), v.norm_l1(), v.norm_l2_sqr(), v.square_length()), "{NAME} vector sums {x:?} {y:?}");
        o.put("M", "core", &format!("{NAME} vector extrema {x:?} {y:?}"), || format!("{:?}", (v.min(), v.max(), v.norm_l_inf(), v.vlt(w), v.veq(v), v == w)));
        a!(o, (v.norm_l2(), v.length()), "{NAME} length {x:?} {y:?}");
        a!(o, v.normalize(), "{NAME} normalize {x:?} {y:?}");
        o.put("E", "core", &format!("{NAME} vector text {x:?} {y:?}"), || format!("{} {:?} {:.2} {:8.1}", v, w, v, w));
    } }
    for x in all(o.thorough) {
        e!(o, (x.norm_l1(), x.norm_l2(), x.norm_l2_sqr(), x.norm_l_inf(), x.is_epsilon(), (x * F::EPSILON).is_epsilon(), x.dot(2.0)), "{NAME} scalar norms {x:?}");
    }
}
fn complex(o: &mut Out) {
    for x in some(o.thorough) { for y in some(o.thorough) {
        let z = Complex::<F>::new(x, y);
        let t = format!("{NAME} complex {x:?} {y:?}");
        e!(o, (z.norm_sqr(), z.norm_l1(), z.norm_l2_sqr(), z.conj(), z * z, z + 1.5, z / 0.5, -z, 2.0 - z, 3.0 * z), "{t} ops");
        a!(o, (z.norm(), z.norm_l2(), z.arg(), z.to_polar()), "{t} polar");
        a!(o, Complex::<F>::from_polar(x.abs(), y), "{t} from polar");
        a!(o, (z.inv(), z.normalize(), z.powi(3), z.powi(-2), z.powu(4), z.finv()), "{t} powers");
        macro_rules! f { ($($f:ident)*) => { $( if x.abs().max(y.abs()) < 20.0 { a!(o, z.$f(), "{t} {}", stringify!($f)); } )* } }
        // (far out, the inverse functions cancel and amplify the math library's rounding)
        f!(exp ln sqrt cbrt sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh);
        for w in [0.5, -1.5, 2.0] {
            a!(o, (z.powf(w), z.expf(w.abs()), z.log(w.abs())), "{t} powf {w:?}");
            let u = Complex::new(w, 0.25);
            a!(o, (z.powc(u), z / u, z.fdiv(u), w / z), "{t} with complex {w:?}");
        }
        for w in [0.5, -1.5] {
            let q = Quaternion::<F>::new(x, y, w, 1.25);
            let r = Quaternion::<F>::new(0.5, w, x, -1.0);
            e!(o, (q * r, q + r, q - r, q.norm_sqr(), q.norm_l1(), q.norm_l2_sqr(), q * z, z * q, q * w, q / w, q.conj(), q.into_matrix()), "{t} quaternion {w:?}");
            a!(o, (q.norm(), q.norm_l2(), q.normalize(), q.inv(), q / r, q / u_(x), u_(y) / q, w / q), "{t} quaternion division {w:?}");
        }
    } }
}
fn u_(x: F) -> Complex<F> { Complex::new(x + 0.25, -1.0) }
fn transforms(o: &mut Out) {
    let pts = [[1.0, 2.0, -0.5], [0.0, 0.0, 1.0], [-3.0, 0.25, 4.0]].map(Vector::<F, 3>::from);
    for (i, m) in [[[1.0, 2.0, 0.0], [0.0, 1.0, -1.0], [2.0, 0.0, 1.0]], [[0.5, 0.0, 0.0], [0.0, -2.0, 0.0], [0.0, 1.0, 4.0]], [[1.0, 2.0, 3.0], [4.0, 5.0, 6.0], [7.0, 8.0, 10.0]]].into_iter().enumerate() {
        let m = Matrix::<F, 3, 3>::from(m);
        a!(o, (m.det(), m.inv(), m.adj(), m.norm_l2(), m.normalize_(), m.norm_l_inf(), m.norm_l1()), "{NAME} matrix {i}");
        let l = Linear::from_matrix(m);
        let af: Affine3<F> = Chain::new(Shift::from(pts[0]), l);
        for (j, p) in pts.iter().enumerate() {
            let n = Vector::<F, 3>::from([0.0, 0.6, -0.8]);
            a!(o, (l.apply(*p), l.deriv(*p, n), l.apply_dir(*p, n), l.apply_normal(*p, n), l.inv().apply(*p)), "{NAME} linear {i} {j}");
            a!(o, (af.apply(*p), af.deriv(*p, n), af.apply_dir(*p, n), af.apply_normal(*p, n), af.inv().apply(*p), af.chain(af).apply(*p)), "{NAME} affine {i} {j}");
            let s = Scale::from_mag(-1.5 as F);
            a!(o, (s.apply(*p), s.deriv(*p, n), s.apply_dir(*p, n), s.apply_normal(*p, n), Transform::<Vector<F, 3>>::inv(s).apply(*p)), "{NAME} scale {i} {j}");
            let ch = Chain::<Shift<F, 3>, Scale<F>, Vector<F, 3>>::new(Shift::from(pts[1]), s);
            a!(o, (ch.apply(*p), ch.inv().apply(*p), ch.chain(ch).apply(*p)), "{NAME} scaling chain {i} {j}");
        }
    }
    for k in -8..9 {
        let an = k as F * 0.7853981633974483;
        let r = Rotation2::<F>::new(an);
        a!(o, (r.apply(Vector::from([1.0, 2.0])), r.to_linear(), r.inv().apply(Vector::from([1.0, 2.0])), r.into_complex(), r.chain(r).into_complex()), "{NAME} rotation2 {k}");
        a!(o, Rotation2::<F>::new(an * 0.9).angle(), "{NAME} rotation2 angle {k}");
        for (j, ax) in [[1.0, 0.0, 0.0], [0.0, 0.6, 0.8], [0.0, 0.0, -1.0]].into_iter().enumerate() {
            let r = Rotation3::<F>::new(ax.into(), an);
            a!(o, (r.apply(pts[0]), r.to_linear(), r.inv().apply(pts[1]), r.into_quaternion(), r.chain(r).apply(pts[2])), "{NAME} rotation3 {k} {j}");
            let q = Rotation3::<F>::new(ax.into(), an * 0.9 + 0.3);
            a!(o, (q.axis(), q.angle()), "{NAME} rotation3 axis {k} {j}");
            a!(o, (r.apply_dir(pts[0], ax.into()), r.apply_normal(pts[0], ax.into()), r.deriv(pts[0], pts[1])), "{NAME} rotation3 directions {k} {j}");
        }
    }
    for x in [-1.0, -0.48, 0.0, 0.36, 1.0] { for y in [-0.64, 0.0, 0.6, 1.0] { for z in [-0.6, 0.0, 0.8, 1.0, -1.0] {
        let d = Vector::<F, 3>::from([x, y, z]);
        if d.square_length() == 0.0 { continue; }
        let d = d.normalize();
        a!(o, (Linear::<F, 3>::look_at_any(d), Rotation3::<F>::look_at_any(d).to_linear(), Linear::<F, 3>::look_at(d, Vector::from([0.1, 0.9, 0.3]))), "{NAME} look at {x:?} {y:?} {z:?}");
    } } }
    for a in [0.5, -1.0] { for b in [0.0, 2.0] { for c in [0.0, 1.5] { for d in [1.0, -0.5] {
        let m = Moebius::new(Complex::<F>::new(a, 1.0), Complex::new(b, 0.0), Complex::new(c, -1.0), Complex::new(d, 0.5));
        let p = Complex::<F>::new(0.7, -0.3);
        let q = Quaternion::<F>::new(0.7, -0.3, 0.5, 1.0);
        let v = Quaternion::<F>::new(0.1, 0.2, -0.5, 0.0);
        let t = format!("{NAME} moebius {a:?} {b:?} {c:?} {d:?}");
        a!(o, (m.det(), vecmat::complex::Moebius::apply(&m, p), vecmat::complex::Moebius::deriv(&m, p), vecmat::complex::Moebius::apply(&m, q), m.deriv_dir(q, v)), "{t}");
        a!(o, (vecmat::complex::Moebius::inv(m).into_array(), m.normalize().into_array(), vecmat::complex::Moebius::chain(m, m).into_array(), Moebius::<F>::identity().into_array()), "{t} maps");
    } } } }
}
trait N_ { fn normalize_(self) -> Self; }
impl N_ for Matrix<F, 3, 3> { fn normalize_(self) -> Self { self / self.norm_l2() } }
#[cfg(feature = "approx")]
fn approx(o: &mut Out) {
    use approx::AbsDiffEq;
    for x in all(o.thorough) { for y in all(o.thorough) {
        let t = format!("{NAME} {x:?} {y:?}");
        macro_rules! q { ($($n:literal $a:expr, $b:expr;)*) => { $( o.put("E", "approx", &format!("approx {} {}", $n, t), || { let (a, b) = ($a, $b); format!("{:?}", (a.abs_diff_eq(&b, 0.5), a.abs_diff_ne(&b, 0.5), a.abs_diff_eq(&b, 0.0), approx::abs_diff_eq!(a, b))) }); )* } }
        q! {
            "vector" Vector::<F, 2>::from([1.0, x]), Vector::<F, 2>::from([1.0, y]);
            "matrix" Matrix::<F, 2, 1>::from([[1.0], [x]]), Matrix::<F, 2, 1>::from([[1.0], [y]]);
            "complex" Complex::<F>::new(1.0, x), Complex::<F>::new(1.0, y);
            "quaternion" Quaternion::<F>::new(1.0, 0.0, 0.0, x), Quaternion::<F>::new(1.0, 0.0, 0.0, y);
            "moebius" Moebius::<F>::new(1.0, 0.0, 0.0, x), Moebius::<F>::new(1.0, 0.0, 0.0, y);
            "shift" Shift::from(Vector::<F, 2>::from([1.0, x])), Shift::from(Vector::<F, 2>::from([1.0, y]));
            "scale" Scale::from_mag(x), Scale::from_mag(y);
            "linear" Linear::from_matrix(Matrix::<F, 2, 2>::from([[1.0, 0.0], [x, 0.0]])), Linear::from_matrix(Matrix::<F, 2, 2>::from([[1.0, 0.0], [y, 0.0]]));
            "rotation2" Rotation2::from_complex(Complex::<F>::new(1.0, x)), Rotation2::from_complex(Complex::<F>::new(1.0, y));
            "rotation3" Rotation3::from_quaternion(Quaternion::<F>::new(1.0, 0.0, x, 0.0)), Rotation3::from_quaternion(Quaternion::<F>::new(1.0, 0.0, y, 0.0));
        }
    } }
}
pub fn run(o: &mut Out) {
    elementwise(o);
    complex(o);
    transforms(o);
    #[cfg(feature = "approx")]
    approx(o);
}
