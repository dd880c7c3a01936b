//! C15: look-at constructions always produce a rotation towards the direction.
use mc::floats::Fl;
use mc::*;
use num_traits::NumCast;
use vecmat::transform::{Directional, Linear, Rotation3};
use vecmat::{Transform, Vector};

fn unit<T: Fl>(a: [f64; 3]) -> [T; 3] {
    let n = a.iter().map(|x| x * x).sum::<f64>().sqrt();
    a.map(|x| T::lit(x / n))
}
/// Directions: a grid on the cube projected on the sphere; bands around the poles, the equator and the
/// heights where constructions may switch, each with the neighbouring floats; signed zeros.
fn dirs<T: Fl>(th: bool) -> Vec<[T; 3]> {
    let mut v: Vec<[T; 3]> = Vec::new();
    let n: i32 = if th { 16 } else { 6 };
    for i in -n..=n {
        for j in -n..=n {
            for k in -n..=n {
                if i.abs().max(j.abs()).max(k.abs()) == n {
                    v.push(unit([i as f64, j as f64, k as f64]));
                }
            }
        }
    }
    let tiny = [1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-12, 1e-16, 1e-20];
    let mut heights = vec![0.0, -0.0];
    for t in tiny {
        heights.extend([t, 1.0 - t]);
    }
    for t in [0.5, 0.25, 0.75, 1.0, 0.9, 0.99, 0.1, std::f64::consts::FRAC_1_SQRT_2, 0.8660254037844386, 1.0 / 3.0, 2.0 / 3.0] {
        heights.push(t);
    }
    let az = if th { 48 } else { 16 };
    for h in heights {
        for s in [1.0, -1.0] {
            let c = T::lit(s * h);
            for z in [c, c.up(), c.down()] {
                if z.f().abs() > 1.0 {
                    continue;
                }
                let rho = (1.0 - z.f() * z.f()).max(0.0).sqrt();
                for k in 0..az {
                    let (sn, cs) = (k as f64 * 2.0 * std::f64::consts::PI / az as f64).sin_cos();
                    for p in 0..3 {
                        // the band around every axis, not only z
                        let mut d = [T::lit(rho * cs), T::lit(rho * sn), z];
                        d.rotate_right(p);
                        v.push(d);
                    }
                }
            }
        }
    }
    // the axes themselves with every sign of the zeros
    for p in 0..3 {
        for s in 0..8 {
            let sg = |b: usize| if s >> b & 1 == 1 { -1.0 } else { 1.0 };
            let mut d = [T::lit(0.0 * sg(0)), T::lit(0.0 * sg(1)), T::lit(sg(2))];
            d.rotate_right(p);
            v.push(d);
        }
    }
    v
}
fn dot(a: &[f64; 3], b: &[f64; 3]) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn cross(a: &[f64; 3], b: &[f64; 3]) -> [f64; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn close3(a: &[f64; 3], b: &[f64; 3], tol: f64) -> bool {
    (0..3).all(|i| (a[i] - b[i]).abs() <= tol)
}
fn out<T: Fl>(v: Vector<T, 3>) -> [f64; 3] {
    v.into_array().map(|x| x.f())
}
fn basis<T: Fl>(k: usize) -> Vector<T, 3> {
    Vector::from_array(std::array::from_fn(|i| if i == k { T::one() } else { T::zero() }))
}
/// A proper rotation taking -z to d; returns the images of the axes.
fn proper<T: Fl, R: Transform<Vector<T, 3>>>(ctx: &mut Ctx, r: &R, d: [T; 3], tol: f64) -> [[f64; 3]; 3] {
    let b: [[f64; 3]; 3] = std::array::from_fn(|k| out(r.apply(basis(k))));
    ctx.ops(4);
    ensure!(ctx, b.iter().flatten().all(|x| x.is_finite()), "not finite for {d:?}: {b:?}");
    for i in 0..3 {
        for j in 0..3 {
            let w = (i == j) as i32 as f64;
            ensure!(ctx, (dot(&b[i], &b[j]) - w).abs() <= tol, "images of the axes are not orthonormal for {d:?}: {b:?}");
        }
    }
    let det = dot(&b[0], &cross(&b[1], &b[2]));
    ensure!(ctx, (det - 1.0).abs() <= 2.0 * tol, "determinant {det} for {d:?}");
    let f = out(r.apply(-basis::<T>(2)));
    ensure!(ctx, close3(&f, &d.map(|x| x.f()), tol), "-z goes to {f:?}, not {d:?}");
    // a rotation is linear: an oblique vector agrees with the images of the axes
    let o = out(r.apply(Vector::from_array([T::lit(0.5), T::lit(-1.5), T::lit(2.0)])));
    let w: [f64; 3] = std::array::from_fn(|i| 0.5 * b[0][i] - 1.5 * b[1][i] + 2.0 * b[2][i]);
    ensure!(ctx, close3(&o, &w, 4.0 * tol), "acts as no linear map: {o:?}, {w:?}");
    b
}
fn any_linear<T: Fl + NumCast>(ctx: &mut Ctx, d: [T; 3]) {
    ctx.note(|| format!("direction {d:?}"));
    let tol = 64.0 * T::EPS.f();
    let l = Linear::look_at_any(Vector::from_array(d));
    let b = proper(ctx, &l, d, tol);
    ctx.state(&b.map(|r| r.map(|x| x.to_bits())));
    let back = out(l.inv().apply(Vector::from_array(d)));
    ensure!(ctx, close3(&back, &[0.0, 0.0, -1.0], 4.0 * tol), "the inverse takes {d:?} to {back:?}");
}
fn any_rotation<T: Fl + NumCast>(ctx: &mut Ctx, d: [T; 3]) {
    ctx.note(|| format!("direction {d:?}"));
    let tol = 64.0 * T::EPS.f();
    let l = Rotation3::look_at_any(Vector::from_array(d));
    let b = proper(ctx, &l, d, tol);
    ctx.state(&b.map(|r| r.map(|x| x.to_bits())));
    let back = out(l.inv().apply(Vector::from_array(d)));
    ensure!(ctx, close3(&back, &[0.0, 0.0, -1.0], tol), "the inverse takes {d:?} to {back:?}");
    let q = l.into_quaternion();
    let n: f64 = q.into_array().iter().map(|x| x.f() * x.f()).sum();
    ensure!(ctx, (n - 1.0).abs() <= tol, "not a unit quaternion for {d:?}: {q:?}");
    let m = l.to_linear();
    let c = proper(ctx, &m, d, tol);
    ensure!(ctx, (0..3).all(|i| close3(&b[i], &c[i], 2.0 * tol)), "matrix form differs for {d:?}");
    let f = out(l.apply_dir(basis(0), -basis::<T>(2)));
    ensure!(ctx, close3(&f, &d.map(|x| x.f()), tol), "direction -z goes to {f:?}, not {d:?}");
}
fn ups<T: Fl>(th: bool) -> Vec<[T; 3]> {
    let mut v = Vec::new();
    for i in 1..27 {
        let c = scalars::digits(i, 3, 3);
        let s = |k: usize| [0.0, 1.0, -1.0][c[k]];
        v.push([s(0), s(1), s(2)]);
    }
    v.extend([[0.0, 0.6, 0.8], [-0.48, 0.64, 0.6], [3.0, 0.0, -4.0], [0.01, 0.0, 0.02], [100.0, -20.0, 7.0], [0.0, 1.0, 1e-3]]);
    if th {
        for i in 0..343 {
            let c = scalars::digits(i, 7, 3);
            let u = [c[0] as f64 - 3.0, c[1] as f64 - 2.5, c[2] as f64 - 3.2];
            v.push(u);
        }
    }
    v.into_iter().map(|a| a.map(T::lit)).collect()
}
fn with_up<T: Fl>(ctx: &mut Ctx, d: [T; 3], ups: &[[T; 3]]) {
    let u = *ctx.pick(ups);
    ctx.note(|| format!("direction {d:?} up {u:?}"));
    let (df, uf) = (d.map(|x| x.f()), u.map(|x| x.f()));
    let x = cross(&df, &uf);
    let sin = (dot(&x, &x) / dot(&uf, &uf)).sqrt();
    if sin < 1e-3 {
        return;
    }
    let tol = 64.0 * T::EPS.f() / sin;
    let l = Linear::look_at(Vector::from_array(d), Vector::from_array(u));
    let b = proper(ctx, &l, d, tol);
    ctx.state(&b.map(|r| r.map(|x| x.to_bits())));
    let un = dot(&uf, &uf).sqrt();
    // x is perpendicular to both; y is in the plane of direction and up, on the side of up
    ensure!(ctx, dot(&b[0], &df).abs() <= tol && dot(&b[0], &uf).abs() <= tol * un, "x goes to {:?}, not across {d:?} and {u:?}", b[0]);
    ensure!(ctx, dot(&b[1], &df).abs() <= tol, "y goes to {:?}, not across {d:?}", b[1]);
    ensure!(ctx, (dot(&b[1], &uf) / un - sin).abs() <= tol, "y goes to {:?}, not towards {u:?}", b[1]);
    let inv = l.inv();
    let ui = out(inv.apply(Vector::from_array(u)));
    ensure!(ctx, ui[0].abs() <= 8.0 * tol * un && ui[1] > 0.0, "up seen from the new frame is {ui:?}");
}
fn all<T: Fl + NumCast>(r: &mut Reg) {
    let th = r.thorough();
    let ds = std::sync::Arc::new(dirs::<T>(th));
    let us = std::sync::Arc::new(ups::<T>(th));
    let t = T::NAME;
    let d = ds.clone();
    r.add(format!("{t} any rotation, linear form"), move |c| { let x = *c.pick(&d); any_linear(c, x) });
    let d = ds.clone();
    r.add(format!("{t} any rotation, quaternion form"), move |c| { let x = *c.pick(&d); any_rotation(c, x) });
    let d = ds.clone();
    r.add(format!("{t} with up vector"), move |c| { let x = *c.pick(&d); with_up(c, x, &us) });
}
fn build(r: &mut Reg) {
    all::<f64>(r);
    all::<f32>(r);
}
fn main() {
    mc::main(Check {
        prop: "C15",
        level: "model_checking",
        rule: "an execution is one choice of unit direction (and up vector) from a lattice holding the poles, the equator, all axes, the heights where the constructions switch and their neighbouring floats; states are distinct resulting rotations",
        assumptions: &["directions are unit vectors up to rounding of their element type", "up vectors make an angle of at least 0.001 with the direction"],
        build,
    });
}
