//! C14: rotations preserve lengths and agree in angle, axis and matrix form.
use mc::floats::Fl;
use mc::scalars::{F2, F3, F5, F7};
use mc::*;
use num_traits::{Num, NumCast};
use std::fmt::Debug;
use std::ops::Neg;
use vecmat::transform::{Directional, Linear, Rotation2, Rotation3};
use vecmat::{Complex, Matrix, Quaternion, Transform, Vector};

fn angles<T: Fl>(th: bool) -> Vec<T> {
    let mut v = Vec::new();
    let (n, turns) = if th { (48, 6) } else { (24, 3) };
    for k in -(n * turns)..=(n * turns) {
        v.push(T::lit(k as f64 * 2.0 * std::f64::consts::PI / n as f64));
    }
    for k in -4..=8 {
        let q = T::FRAC_PI_2() * T::lit(k as f64);
        v.extend([q, q.up(), q.down()]);
    }
    for t in [1.0, 0.1, 1e-2, 1e-4, 1e-6, 1.25, 3.0, 5.5] {
        v.extend([T::lit(t), T::lit(-t), T::PI() - T::lit(t), T::PI() + T::lit(t), T::TAU() - T::lit(t)]);
    }
    v
}
fn some_angles<T: Fl>() -> Vec<T> {
    let mut v: Vec<T> = (-12..=12).map(|k| T::lit(k as f64 * std::f64::consts::PI / 4.0)).collect();
    v.extend([0.3, -2.0, 7.0].map(T::lit));
    v
}
fn axes<T: Fl>() -> Vec<[T; 3]> {
    let mut v = Vec::new();
    for i in 0..27 {
        let d = scalars::digits(i, 3, 3);
        v.push([d[0] as f64 - 1.0, d[1] as f64 - 1.0, d[2] as f64 - 1.0]);
    }
    v.extend([[1.0, 2.0, 3.0], [-3.0, 0.5, 1.0], [0.0, 3.0, -4.0], [1e-3, 1.0, 0.0], [5.0, -1e-3, 2e-3], [-0.2, -0.3, 9.0]]);
    v.into_iter()
        .filter(|a| a.iter().any(|x| *x != 0.0))
        .map(|a| {
            let n = a.iter().map(|x| x * x).sum::<f64>().sqrt();
            a.map(|x| T::lit(x / n))
        })
        .collect()
}
fn near(a: f64, b: f64, scale: f64, tol: f64) -> bool {
    a.is_finite() && b.is_finite() && (a - b).abs() <= tol * scale.max(1.0)
}
fn nears(a: &[f64], b: &[f64], tol: f64) -> bool {
    let s = a.iter().chain(b).fold(0.0f64, |m, x| m.max(x.abs()));
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| near(*x, *y, s, tol))
}
fn l2<T: Fl, const N: usize>(v: Vector<T, N>) -> Vec<f64> {
    v.into_array().iter().map(|x| x.f()).collect()
}
fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
/// Rotation about a unit axis by the right-hand rule, row by row.
fn rodrigues(n: [f64; 3], a: f64) -> [[f64; 3]; 3] {
    let (s, c) = a.sin_cos();
    let k = [[0.0, -n[2], n[1]], [n[2], 0.0, -n[0]], [-n[1], n[0], 0.0]];
    std::array::from_fn(|i| std::array::from_fn(|j| (i == j) as i32 as f64 * c + s * k[i][j] + (1.0 - c) * n[i] * n[j]))
}
fn mat<T: Fl, const N: usize>(l: Linear<T, N>) -> [[f64; N]; N] {
    let m = l.into_matrix();
    std::array::from_fn(|i| std::array::from_fn(|j| m[(i, j)].f()))
}
fn mv<const N: usize>(m: &[[f64; N]; N], v: &[f64]) -> Vec<f64> {
    m.iter().map(|r| dot(r, v)).collect()
}
fn flat<const N: usize>(m: &[[f64; N]; N]) -> Vec<f64> {
    m.iter().flatten().copied().collect()
}
fn det3(m: &[[f64; 3]; 3]) -> f64 {
    m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
        + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])
}
fn orthogonal<const N: usize>(ctx: &Ctx, m: &[[f64; N]; N], tol: f64) {
    for i in 0..N {
        for j in 0..N {
            let want = (i == j) as i32 as f64;
            ensure!(ctx, near(dot(&m[i], &m[j]), want, 1.0, tol), "rows {i} and {j} of {m:?} are not orthonormal");
        }
    }
}

fn vec2<T: Fl>(ctx: &mut Ctx) -> Vector<T, 2> {
    let g = [0.0, 1.0, -3.0, 0.75];
    Vector::from_array(std::array::from_fn(|_| T::lit(*ctx.pick(&g))))
}
fn vec3<T: Fl>(ctx: &mut Ctx) -> Vector<T, 3> {
    let g: &[f64] = if ctx.thorough() { &[0.0, 1.0, -3.0, 0.75] } else { &[0.0, 1.0, -2.5] };
    Vector::from_array(std::array::from_fn(|_| T::lit(*ctx.pick(g))))
}

fn turn2<T: Fl>(ctx: &mut Ctx) {
    let a = *ctx.pick(&angles::<T>(ctx.thorough()));
    let (x, y) = (vec2::<T>(ctx), vec2::<T>(ctx));
    ctx.note(|| format!("angle {a:?} on {x:?} and {y:?}"));
    let tol = 24.0 * T::EPS.f();
    let r = Rotation2::new(a);
    let (s, c) = a.f().sin_cos();
    let want = |v: &[f64]| vec![c * v[0] - s * v[1], s * v[0] + c * v[1]];
    let (lx, ly) = (l2(x), l2(y));
    let (px, py) = (l2(r.apply(x)), l2(r.apply(y)));
    ctx.ops(8);
    ctx.state(&(x.into_array().map(|v| v.bits()), a.bits()));
    ensure!(ctx, nears(&px, &want(&lx), tol), "turned {lx:?} by {a:?} into {px:?}, not {:?}", want(&lx));
    let sc = dot(&lx, &lx).max(dot(&ly, &ly));
    ensure!(ctx, near(dot(&px, &py), dot(&lx, &ly), sc, 2.0 * tol), "dot product not kept");
    ensure!(ctx, near(px[0] * py[1] - px[1] * py[0], lx[0] * ly[1] - lx[1] * ly[0], sc, 2.0 * tol), "oriented area not kept");
    ensure!(ctx, nears(&l2(r.deriv(y, x)), &px, tol), "deriv is not the rotation");
    ensure!(ctx, nears(&l2(r.apply_dir(y, x)), &px, tol), "direction not rotated");
    ensure!(ctx, nears(&l2(r.apply_normal(y, x)), &px, tol), "normal not rotated");
    let m = r.to_linear();
    ensure!(ctx, nears(&l2(m.apply(x)), &px, tol), "matrix form acts differently");
    let i = r.inv();
    ensure!(ctx, nears(&l2(i.apply(r.apply(x))), &lx, 2.0 * tol), "inverse does not turn back");
    ensure!(ctx, nears(&l2(i.apply(x)), &[c * lx[0] + s * lx[1], c * lx[1] - s * lx[0]], tol), "inverse turns by another angle");
}
fn form2<T: Fl>(ctx: &mut Ctx) {
    let a = *ctx.pick(&angles::<T>(ctx.thorough()));
    ctx.note(|| format!("angle {a:?}"));
    let tol = 24.0 * T::EPS.f();
    let r = Rotation2::new(a);
    let b = r.angle();
    ctx.ops(5);
    ctx.state(&b.bits());
    let d = (b.f() - a.f()).sin().abs() + (1.0 - (b.f() - a.f()).cos());
    let scale = a.f().abs().max(4.0);
    ensure!(ctx, d <= tol * scale, "angle {a:?} reported as {b:?}");
    let m = mat(r.to_linear());
    orthogonal(ctx, &m, tol);
    let det = m[0][0] * m[1][1] - m[0][1] * m[1][0];
    ensure!(ctx, near(det, 1.0, 1.0, tol), "determinant {det}");
    let (s, c) = a.f().sin_cos();
    ensure!(ctx, nears(&flat(&m), &[c, -s, s, c], tol), "matrix form {m:?} of angle {a:?}");
    let z = r.into_complex();
    ensure!(ctx, nears(&[z.re().f(), z.im().f()], &[c, s], tol), "complex form {z:?}");
    let z2: Complex<T> = r.into();
    ensure!(ctx, z2 == z && Rotation2::from_complex(z) == r && Rotation2::from(z) == r, "conversion through complex number");
    ensure!(ctx, near(r.inv().angle().f().sin(), -s, 1.0, tol), "angle of the inverse");
}
fn sum2<T: Fl>(ctx: &mut Ctx) {
    let g = some_angles::<T>();
    let n = if ctx.thorough() { 3 } else { 2 };
    let all = angles::<T>(false);
    let mut l = vec![*ctx.pick(&all)];
    for _ in 1..n {
        l.push(*ctx.pick(&g));
    }
    ctx.note(|| format!("angles {l:?}"));
    let tol = 48.0 * T::EPS.f();
    let r = l.iter().fold(<Rotation2<T> as Transform<Vector<T, 2>>>::identity(), |r, a| r.chain(Rotation2::new(*a)));
    ctx.ops(n as u64);
    let t: f64 = l.iter().map(|a| a.f()).sum();
    let z = r.into_complex();
    ctx.state(&(z.re().bits(), z.im().bits()));
    ensure!(ctx, nears(&[z.re().f(), z.im().f()], &[t.cos(), t.sin()], tol), "chained angles {l:?} give {z:?}");
    let m = mat(r.to_linear());
    ensure!(ctx, nears(&flat(&m), &[t.cos(), -t.sin(), t.sin(), t.cos()], tol), "matrix form of the chain");
    let back = r.chain(r.inv());
    ensure!(ctx, nears(&l2(back.apply(Vector::from_array([T::one(), T::lit(2.0)]))), &[1.0, 2.0], tol), "chain with the inverse is not the identity");
}
/// The matrix form over any field: acts as the complex number does.
fn field2<F: Num + Neg<Output = F> + Copy + Debug + 'static>(ctx: &mut Ctx, all: Vec<F>) {
    let [a, b, x, y]: [F; 4] = std::array::from_fn(|_| *ctx.pick(&all));
    ctx.note(|| format!("{a:?} {b:?} on {x:?} {y:?}"));
    let r = Rotation2::from_complex(Complex::new(a, b));
    let v = Vector::from_array([x, y]);
    let want = [a * x - b * y, b * x + a * y];
    ctx.ops(3);
    same!(ctx, r.apply(v).into_array(), want, "rotation of {v:?}");
    let m = r.to_linear();
    let m = m.into_matrix();
    same!(ctx, [m[(0, 0)], m[(0, 1)], m[(1, 0)], m[(1, 1)]], [a, F::zero() - b, b, a], "matrix form");
    same!(ctx, m.dot_vec(v), want, "matrix form on {v:?}");
}
trait DotVec<F> {
    fn dot_vec(&self, v: Vector<F, 2>) -> [F; 2];
}
impl<F: Num + Copy> DotVec<F> for Matrix<F, 2, 2> {
    fn dot_vec(&self, v: Vector<F, 2>) -> [F; 2] {
        use vecmat::traits::Dot;
        self.dot(v).into_array()
    }
}

fn rot3<T: Fl + NumCast>(ctx: &mut Ctx, a: T) -> ([f64; 3], Rotation3<T>, [[f64; 3]; 3]) {
    let n = *ctx.pick(&axes::<T>());
    let r = Rotation3::new(Vector::from_array(n), a);
    let nf = n.map(|x| x.f());
    (nf, r, rodrigues(nf, a.f()))
}
fn turn3<T: Fl + NumCast>(ctx: &mut Ctx) {
    let all = if ctx.thorough() { angles::<T>(false) } else { some_angles::<T>() };
    let a = *ctx.pick(&all);
    let (n, r, w) = rot3(ctx, a);
    let (x, y) = (vec3::<T>(ctx), Vector::from_array([T::lit(0.5), T::lit(-2.0), T::lit(1.0)]));
    ctx.note(|| format!("axis {n:?} angle {a:?} on {x:?}"));
    let tol = 64.0 * T::EPS.f();
    let (lx, ly) = (l2(x), l2(y));
    let (px, py) = (l2(r.apply(x)), l2(r.apply(y)));
    ctx.ops(8);
    ctx.state(&(x.into_array().map(|v| v.bits()), a.bits(), n.map(|x| x.to_bits())));
    ensure!(ctx, nears(&px, &mv(&w, &lx), tol), "turned {lx:?} into {px:?}, not {:?}", mv(&w, &lx));
    let sc = dot(&lx, &lx).max(dot(&ly, &ly));
    ensure!(ctx, near(dot(&px, &py), dot(&lx, &ly), sc, 2.0 * tol), "dot product not kept");
    ensure!(ctx, near(dot(&px, &px), dot(&lx, &lx), sc, 2.0 * tol), "length not kept");
    ensure!(ctx, nears(&l2(r.deriv(y, x)), &px, tol), "deriv is not the rotation");
    ensure!(ctx, nears(&l2(r.apply_dir(y, x)), &px, tol), "direction not rotated");
    ensure!(ctx, nears(&l2(r.apply_normal(y, x)), &px, tol), "normal not rotated");
    ensure!(ctx, nears(&l2(r.to_linear().apply(x)), &px, tol), "matrix form acts differently");
    let i = r.inv();
    ensure!(ctx, nears(&l2(i.apply(r.apply(x))), &lx, 2.0 * tol), "inverse does not turn back");
    ensure!(ctx, nears(&l2(i.apply(x)), &mv(&rodrigues(n, -a.f()), &lx), tol), "inverse turns by another angle");
}
fn form3<T: Fl + NumCast>(ctx: &mut Ctx) {
    let a = *ctx.pick(&angles::<T>(ctx.thorough()));
    let (n, r, w) = rot3(ctx, a);
    ctx.note(|| format!("axis {n:?} angle {a:?}"));
    let tol = 64.0 * T::EPS.f();
    let m = mat(r.to_linear());
    ctx.ops(5);
    orthogonal(ctx, &m, tol);
    ensure!(ctx, near(det3(&m), 1.0, 1.0, tol), "determinant {}", det3(&m));
    ensure!(ctx, nears(&flat(&m), &flat(&w), tol), "matrix form {m:?}, not {w:?}");
    let (b, ax) = (r.angle(), r.axis());
    ctx.state(&(b.bits(), ax.into_array().map(|x| x.bits())));
    let q = r.into_quaternion();
    let s = [q.x(), q.y(), q.z()].iter().map(|x| x.f() * x.f()).sum::<f64>();
    // Without any turn every axis would do.
    let slack = tol * a.f().abs().max(4.0);
    if s > 0.0 {
        let ax: [f64; 3] = ax.into_array().map(|x| x.f());
        ensure!(ctx, near(dot(&ax, &ax), 1.0, 1.0, tol), "axis {ax:?} is not a unit vector");
        ensure!(ctx, nears(&flat(&rodrigues(ax, b.f())), &flat(&w), slack), "reported as axis {ax:?} angle {b:?}");
        // The axis itself is recovered whenever there is a definite turn.
        if s > 1e-4 {
            let p = dot(&ax, &n).abs();
            ensure!(ctx, near(p, 1.0, 1.0, slack), "axis {ax:?} is not along {n:?}");
        }
    } else {
        ensure!(ctx, near((b.f() / 2.0).sin(), 0.0, 1.0, slack), "angle {b:?} reported for no turn");
    }
    let q2: Quaternion<T> = r.into();
    ensure!(ctx, q2 == q && Rotation3::from_quaternion(q) == r && Rotation3::from(q) == r, "conversion through quaternion");
    ensure!(ctx, nears(&l2(r.apply(Vector::from_array(n.map(T::lit)))), &n, tol), "the axis does not stay");
}
fn sum3<T: Fl + NumCast>(ctx: &mut Ctx) {
    let g = some_angles::<T>();
    let (a, b) = (*ctx.pick(&g), *ctx.pick(&g));
    let k = ctx.choose(axes::<T>().len());
    let n = axes::<T>()[k];
    ctx.note(|| format!("angles {a:?} {b:?} about {n:?}"));
    let tol = 96.0 * T::EPS.f();
    let v = Vector::from_array(n);
    let r = Rotation3::new(v, a).chain(Rotation3::new(v, b));
    ctx.ops(3);
    let m = mat(r.to_linear());
    ctx.state(&flat(&m).iter().map(|x| x.to_bits()).collect::<Vec<_>>());
    let w = rodrigues(n.map(|x| x.f()), a.f() + b.f());
    ensure!(ctx, nears(&flat(&m), &flat(&w), tol), "chained angles give {m:?}, not {w:?}");
}
fn pair3<T: Fl + NumCast>(ctx: &mut Ctx) {
    let g: Vec<T> = [0.0, 0.7, 1.5707963267948966, 3.0, -2.0, 4.0].map(T::lit).to_vec();
    let (a, b) = (*ctx.pick(&g), *ctx.pick(&g));
    let (n, r, w) = rot3(ctx, a);
    let (k, q, u) = rot3(ctx, b);
    ctx.note(|| format!("about {n:?} by {a:?}, then before it about {k:?} by {b:?}"));
    let tol = 96.0 * T::EPS.f();
    let c = r.chain(q);
    ctx.ops(4);
    let p: [[f64; 3]; 3] = std::array::from_fn(|i| std::array::from_fn(|j| (0..3).map(|l| w[i][l] * u[l][j]).sum()));
    let m = mat(c.to_linear());
    ctx.state(&flat(&m).iter().map(|x| x.to_bits()).collect::<Vec<_>>());
    ensure!(ctx, nears(&flat(&m), &flat(&p), tol), "composition has matrix {m:?}, not {p:?}");
    ensure!(ctx, nears(&flat(&mat(r.to_linear().chain(q.to_linear()))), &flat(&p), tol), "composed matrices");
    let x = Vector::from_array([1.0, -2.0, 0.5].map(T::lit));
    ensure!(ctx, nears(&l2(c.apply(x)), &mv(&p, &[1.0, -2.0, 0.5]), tol), "composition acts differently");
    // angle and axis of the composition describe it
    let (al, ax) = (c.angle(), c.axis());
    let h = c.into_quaternion();
    if [h.x(), h.y(), h.z()].iter().map(|x| x.f() * x.f()).sum::<f64>() > 1e-4 {
        ensure!(ctx, nears(&flat(&rodrigues(ax.into_array().map(|x| x.f()), al.f())), &flat(&p), tol), "composition reported as {ax:?} {al:?}");
    }
}
/// The 24 exactly representable unit quaternions: all is exact, and a group of 12 rotations is generated.
fn exact3<T: Fl + NumCast>(ctx: &mut Ctx) {
    let mut all: Vec<[f64; 4]> = (0..16).map(|m| std::array::from_fn(|i| if m >> i & 1 == 1 { 0.5 } else { -0.5 })).collect();
    for k in 0..4 {
        all.push(std::array::from_fn(|i| (i == k) as i32 as f64));
        all.push(std::array::from_fn(|i| -((i == k) as i32 as f64)));
    }
    let a = *ctx.pick(&all);
    let b = *ctx.pick(&all);
    ctx.note(|| format!("unit quaternions {a:?} {b:?}"));
    let (r, q) = (Rotation3::from(Quaternion::from_array(a.map(T::lit))), Rotation3::from(Quaternion::from_array(b.map(T::lit))));
    let m = mat(r.to_linear());
    let perm = |m: &[[f64; 3]; 3]| {
        (0..3).all(|i| (0..3).filter(|j| m[i][*j].abs() == 1.0).count() == 1 && (0..3).filter(|j| m[i][*j] == 0.0).count() == 2)
    };
    ctx.ops(4);
    ensure!(ctx, perm(&m) && det3(&m) == 1.0, "{m:?} is no exact rotation of the axes");
    let x = [1.0, 2.0, -3.0];
    same!(ctx, l2(r.apply(Vector::from_array(x.map(T::lit)))), mv(&m, &x), "action");
    // definition by conjugation
    let c = r.chain(q);
    let p = mat(c.to_linear());
    let k = mat(q.to_linear());
    let w: [[f64; 3]; 3] = std::array::from_fn(|i| std::array::from_fn(|j| (0..3).map(|l| m[i][l] * k[l][j]).sum()));
    same!(ctx, p, w, "composition");
    ctx.state(&format!("{p:?}"));
    let quat = c.into_quaternion().into_array().map(|x| x.f());
    ensure!(ctx, all.iter().any(|z| *z == quat), "composition left the group: {quat:?}");
    let i = mat(r.inv().to_linear());
    let t: [[f64; 3]; 3] = std::array::from_fn(|i| std::array::from_fn(|j| m[j][i]));
    same!(ctx, i, t, "inverse");
    // the quaternion turns the way its angle and axis say
    let (al, ax) = (r.angle(), r.axis());
    if a[0].abs() != 1.0 {
        let w = rodrigues(ax.into_array().map(|x| x.f()), al.f());
        ensure!(ctx, nears(&flat(&w), &flat(&m), 64.0 * T::EPS.f()), "angle {al:?} axis {ax:?} for {a:?}");
    }
}

fn all<T: Fl + NumCast>(r: &mut Reg) {
    let t = T::NAME;
    r.add(format!("{t} plane: points"), turn2::<T>);
    r.add(format!("{t} plane: angle, matrix and complex form"), form2::<T>);
    r.add(format!("{t} plane: chained angles add"), sum2::<T>);
    r.add(format!("{t} space: points"), turn3::<T>);
    r.add(format!("{t} space: angle, axis, matrix and quaternion form"), form3::<T>);
    r.add(format!("{t} space: angles about one axis add"), sum3::<T>);
    r.add(format!("{t} space: composition about two axes"), pair3::<T>);
    r.add(format!("{t} space: exact rotations of the axes"), exact3::<T>);
}
fn build(r: &mut Reg) {
    r.add("F2 plane: matrix form", |c| field2(c, F2::all()));
    r.add("F3 plane: matrix form", |c| field2(c, F3::all()));
    r.add("F5 plane: matrix form", |c| field2(c, F5::all()));
    r.add("F7 plane: matrix form", |c| field2(c, F7::all()));
    all::<f64>(r);
    all::<f32>(r);
}
fn main() {
    mc::main(Check {
        prop: "C14",
        level: "model_checking",
        rule: "an execution is one choice of angle(s), axis and vectors from the lattice; the real rotation is compared with Rodrigues' formula evaluated in f64 (exactly for the axis rotations and finite fields); states are distinct resulting rotations",
        assumptions: &["rounding tolerance of at most 96 epsilon for float lattices", "angles and axes outside the lattice are not visited"],
        build,
    });
}
