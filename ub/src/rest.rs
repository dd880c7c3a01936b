//! Complex numbers, quaternions, Moebius matrices, transformations, distributions and
//! approximate comparison: safe operations that must not touch foreign memory either.
use crate::el::*;
use crate::hist::Own;
use crate::*;
use approx::AbsDiffEq;
use rand::{distributions::Distribution, RngCore};
use vecmat::complex::Moebius;
use vecmat::distr::{Invertible, NonZero, Normal, Uniform, Unit};
use vecmat::prelude::*;
use vecmat::transform::*;
use vecmat::{Complex, Matrix, Quaternion, Vector};

fn look<'a, E: El>(cx: &mut Cx, it: impl IntoIterator<Item = &'a E>) {
    for e in it {
        let k = e.key();
        if k == u32::MAX {
            cx.fail("an element does not read back (garbage, misplaced or torn)");
        }
        cx.mix(k as u64 + 1);
    }
}
fn e<E: El>(k: u32) -> E {
    E::make(k)
}

/// Views, conversions and component writes of the two- and four-component types; two
/// operations in a row.
pub fn parts<E: Own>(cx: &mut Cx) {
    let mut c = Complex::<E>::new(e(1), e(2));
    for _ in 0..2 {
        cx.ops += 1;
        let op = cx.choose(9);
        cx.mix(op as u64 + 100);
        c = match op {
            0 => Complex::from(c.into_vector()),
            1 => Complex::from(c.into_array()),
            2 => Complex::from(c.into_tuple()),
            3 => Complex::from(c.into_num()),
            4 => {
                *c.re_mut() = e(7);
                c
            }
            5 => {
                *c.im_mut() = e(8);
                c
            }
            6 => c.clone(),
            7 => {
                let a: [E; 2] = c.into();
                let v: Vector<E, 2> = a.into();
                v.into()
            }
            _ => {
                cx.mix(format!("{:?}", c).len() as u64);
                c
            }
        };
        look(cx, [c.re_ref(), c.im_ref()]);
    }
}
pub fn quads<E: Own>(cx: &mut Cx) {
    let mut q = Quaternion::<E>::new(e(1), e(2), e(3), e(4));
    for _ in 0..2 {
        cx.ops += 1;
        let op = cx.choose(8);
        cx.mix(op as u64 + 200);
        q = match op {
            0 => Quaternion::from(q.into_vector()),
            1 => Quaternion::from(q.into_array()),
            2 => Quaternion::from(q.into_tuple()),
            3 => {
                let (w, v) = q.into_scalar_and_vector3();
                Quaternion::from_scalar_and_vector3(w, v)
            }
            4 => {
                *q.w_mut() = e(5);
                *q.z_mut() = e(6);
                q
            }
            5 => {
                *q.x_mut() = e(9);
                *q.y_mut() = e(10);
                q
            }
            6 => q.clone(),
            _ => {
                cx.mix(format!("{:?}", q).len() as u64);
                q
            }
        };
        look(cx, [q.w_ref(), q.x_ref(), q.y_ref(), q.z_ref()]);
    }
}
pub fn moebius<E: Own>(cx: &mut Cx) {
    let mut m = Moebius::<E>::new(e(1), e(2), e(3), e(4));
    for _ in 0..2 {
        cx.ops += 1;
        let op = cx.choose(10);
        cx.mix(op as u64 + 300);
        m = match op {
            0 => Moebius::from(m.into_matrix()),
            1 => Moebius::from(m.into_array()),
            2 => Moebius::from_tuple(m.into_tuple()),
            3 => {
                m.as_mut_array_of_arrays()[1][0] = e(12);
                m
            }
            4 => {
                m.as_mut_matrix()[(0, 1)] = e(13);
                m
            }
            5 => {
                *m.a_mut() = e(14);
                *m.d_mut() = e(15);
                m
            }
            6 => {
                *m.b_mut() = e(16);
                *m.c_mut() = e(17);
                m
            }
            7 => {
                let x: &mut [[E; 2]; 2] = (&mut m).into();
                x[0][0] = e(18);
                let y: &mut Matrix<E, 2, 2> = (&mut m).into();
                y[(1, 1)] = e(19);
                m
            }
            8 => {
                let x: &[[E; 2]; 2] = (&m).into();
                let y: &Matrix<E, 2, 2> = (&m).into();
                let (z, w) = (m.as_matrix(), m.as_array_of_arrays());
                look(cx, x.iter().flatten());
                look(cx, y.iter().chain(z.iter()));
                look(cx, w.iter().flatten());
                m
            }
            _ => m.clone(),
        };
        look(cx, [m.a_ref(), m.b_ref(), m.c_ref(), m.d_ref()]);
    }
}

const F: [f64; 6] = [0.0, 1.0, -2.5, 1e200, f64::INFINITY, f64::NAN];
/// Arithmetic and functions of complex numbers and quaternions over all small tables of parts.
pub fn complex(cx: &mut Cx) {
    let (a, b) = (F[cx.choose(6)], F[cx.choose(6)]);
    let op = cx.choose(10);
    cx.ops += 8;
    let x = Complex::new(a, b);
    let y = Complex::new(b, 1.0);
    let q = Quaternion::new(a, 1.0, b, -1.0);
    let r = Quaternion::new(1.0, b, 2.0, a);
    let f = match op {
        0 => {
            let mut z = x + y - x * y;
            z += y;
            z -= 1.0;
            z *= x;
            z *= 2.0;
            z.into_array().to_vec()
        }
        1 => {
            let mut z = x / y;
            z /= y;
            z /= 2.0;
            (z + x.inv() + y.normalize() + x.conj()).into_array().to_vec()
        }
        2 => vec![x.norm(), x.norm_sqr(), x.arg(), x.dot(y), x.norm_l1(), x.norm_l2()],
        3 => {
            let z = x.exp() + x.ln() + x.sqrt() + x.cbrt() + x.sin() + x.cos() + x.tan();
            let w = x.asin() + x.acos() + x.atan() + x.sinh() + x.cosh() + x.tanh();
            let _ = (z, w, x.asinh() + x.acosh() + x.atanh(), x.powf(b), x.powc(y), x.log(2.0), x.expf(2.0));
            vec![]
        }
        4 => [x.powu(3), x.powi(-2), x.finv(), x.fdiv(y), x % y].iter().flat_map(|z| z.into_array()).collect(),
        5 => {
            let mut z = q + r - q * r;
            z += q;
            z -= y;
            z *= y;
            z /= 2.0;
            (z * y + y * z).into_array().to_vec()
        }
        6 => {
            let mut z = q / r;
            z /= y;
            z /= r;
            (z + q.inv() + q.conj() + y / q + q.normalize()).into_array().to_vec()
        }
        7 => vec![q.norm(), q.norm_sqr(), q.dot(r), q.norm_l1(), q.norm_l2()],
        8 => {
            let s = format!("{} {:?} {} {:?}", x, x, q, q);
            let t = format!("{:.1} {:>9} {:+}", x, x, q);
            vec![s.len() as f64, t.len() as f64]
        }
        _ => {
            let m = Moebius::new(x, y, y, x * 2.0);
            let p = m.apply(y);
            let s = Transform::<Complex<f64>>::inv(m).apply(p);
            let k = m.chain(m).apply(q);
            let z = [m.deriv(y), p, s, m.det()];
            let w = m.deriv_dir(q, r);
            let t: Complex<f64> = [x, y].into_iter().sum::<Complex<f64>>() + [x, y].into_iter().product::<Complex<f64>>();
            let u: Quaternion<f64> = [q, r].into_iter().sum::<Quaternion<f64>>() + [q, r].into_iter().product::<Quaternion<f64>>();
            z.iter().flat_map(|z| z.into_array()).chain(k.into_array()).chain(w.into_array()).chain(t.into_array()).chain(u.into_array()).collect()
        }
    };
    for v in f {
        cx.mix(v.is_nan() as u64 + 2 * (v > 0.0) as u64);
    }
}

/// Each transformation: every method of it, then conversions and chains with the others.
pub fn transforms(cx: &mut Cx) {
    let (a, b) = (F[cx.choose(4)], F[cx.choose(4)]);
    let op = cx.choose(10);
    cx.ops += 8;
    let v = Vector::from([a, b, 1.0]);
    let w = Vector::from([1.0, -1.0, b]);
    let (v2, w2) = (Vector::from([a, b]), Vector::from([1.0, b]));
    fn all<X: Copy, T: Directional<X> + Copy>(t: T, x: X, y: X) -> [X; 5] {
        let i = T::identity();
        [t.apply(x), t.deriv(x, y), t.inv().apply(x), t.chain(i).apply_dir(x, y), t.apply_normal(x, y)]
    }
    let m3 = Matrix::<f64, 3, 3>::from([[1.0, a, 0.0], [0.0, 2.0, b], [1.0, 0.0, -1.0]]);
    let m2 = Matrix::<f64, 2, 2>::from([[1.0, a], [b, 2.0]]);
    let r3 = Rotation3::new(Vector::from([0.0, 0.6, 0.8]), a);
    let out: Vec<f64> = match op {
        0 => all(Shift::from(w), v, w).iter().flat_map(|x| x.into_array()).collect(),
        1 => all(Linear::from(m3), v, w).iter().flat_map(|x| x.into_array()).collect(),
        2 => all(Linear::from(m2), v2, w2).iter().flat_map(|x| x.into_array()).collect(),
        3 => all(Scale::from(2.0), v, w).iter().flat_map(|x| x.into_array()).collect(),
        4 => all(Rotation2::new(b), v2, w2).iter().flat_map(|x| x.into_array()).collect(),
        5 => all(r3, v, w).iter().flat_map(|x| x.into_array()).collect(),
        6 => all(Affine::new(Shift::from(w), Linear::from(m3)), v, w).iter().flat_map(|x| x.into_array()).collect(),
        7 => {
            let l = Linear::<f64, 3>::look_at(Vector::from([a, 1.0, 2.0]), w);
            let k = Linear::<f64, 3>::look_at_any(Vector::from([0.0, 1.0, 2.0]));
            let q = Rotation3::<f64>::look_at_any(Vector::from([0.6, 0.0, 0.8]));
            let t = r3.to_linear().chain(q.to_linear());
            l.chain(k).chain(t).into_matrix().into_iter().chain(Rotation2::new(a).to_linear().into_matrix()).chain(r3.axis()).chain([r3.angle(), Rotation2::new(b).angle()]).collect()
        }
        8 => {
            let mut c = Chain::<_, _, Vector<f64, 3>>::new(Shift::from(v), r3);
            *c.outer_mut() = Shift::from(w);
            *c.inner_mut() = r3.inv();
            let (x, y) = (c.inner().apply(v), c.outer().apply(v));
            let (s, r) = c.split();
            let d: Chain<Rotation3<f64>, Shift<f64, 3>, Vector<f64, 3>> = s.reorder(r).into();
            (d.apply(v) + x + y).into_array().to_vec()
        }
        _ => {
            let e = 1e-3;
            let s = [
                Linear::from(m3).abs_diff_eq(&Linear::from(m3), e),
                Shift::from(v).abs_diff_eq(&Shift::from(w), e),
                r3.abs_diff_eq(&Rotation3::identity(), e),
                Rotation2::new(a).abs_diff_eq(&Rotation2::new(b), e),
                Scale::from(a).abs_diff_eq(&Scale::from(b), e),
                m3.abs_diff_eq(&m3, e),
                v.abs_diff_eq(&w, e),
                Complex::new(a, b).abs_diff_eq(&Complex::new(b, a), e),
                Quaternion::new(a, b, a, b).abs_diff_eq(&Quaternion::new(b, a, b, a), e),
            ];
            s.iter().map(|x| *x as u8 as f64).collect()
        }
    };
    for v in out {
        cx.mix(v.is_nan() as u64 + 2 * (v > 0.0) as u64);
    }
}

/// A script of words, then a fixed sequence; may panic at one draw.
struct Words {
    script: Vec<u64>,
    k: u64,
    boom: usize,
}
impl RngCore for Words {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        if self.boom == 0 {
            resume_unwind(Box::new(Injected));
        }
        self.boom = self.boom.wrapping_sub(1);
        let i = self.k as usize;
        self.k += 1;
        if i < self.script.len() { self.script[i] } else { self.k.wrapping_mul(0x9e37_79b9_7f4a_7c15) }
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let w = self.next_u64().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
/// Every distribution with every script of two extreme words and a generator that fails at every
/// draw of the first six (or never).
pub fn sampling(cx: &mut Cx) {
    const W: [u64; 4] = [0, u64::MAX, 1 << 63, 0x1234_5678_9abc_def0];
    let op = cx.choose(9);
    let script = vec![W[cx.choose(4)], W[cx.choose(4)]];
    let boom = [usize::MAX, 0, 1, 2, 3, 5][cx.choose(6)];
    let mut g = Words { script, k: 0, boom };
    let g = &mut g;
    cx.ops += 3;
    let r = caught(move || -> Vec<f64> {
        match op {
            0 => { let v: Vector<f64, 3> = Normal.sample(g); v.into_array().to_vec() }
            1 => { let v: Matrix<f32, 2, 3> = Normal.sample(g); v.into_iter().map(|x| x as f64).collect() }
            2 => { let v: Vector<f64, 2> = Unit.sample(g); let w: Vector<f32, 2> = NonZero.sample(g); v.into_iter().chain(w.map(|x| x as f64)).collect() }
            3 => { let v: Matrix<f64, 2, 2> = Invertible.sample(g); v.into_iter().collect() }
            4 => { let v: Complex<f64> = Unit.sample(g); let w: Complex<f64> = Normal.sample(g); (v + w).into_array().to_vec() }
            5 => { let v: Quaternion<f64> = Unit.sample(g); let w: Quaternion<f64> = NonZero.sample(g); (v + w).into_array().to_vec() }
            6 => { let v: Rotation2<f64> = Uniform.sample(g); let w: Rotation3<f64> = Uniform.sample(g); vec![v.angle(), w.angle()] }
            7 => {
                let v: Affine<f64, 2> = Invertible.sample(g);
                let s: Scale<f64> = Normal.sample(g);
                v.apply(Vector::from([s.into_mag(), 1.0])).into_array().to_vec()
            }
            _ => { let v: Moebius<Complex<f64>> = Invertible.sample(g); v.det().into_array().to_vec() }
        }
    });
    match r {
        Ok(v) => v.iter().for_each(|x| cx.mix(x.is_nan() as u64 + 2 * (*x > 0.0) as u64)),
        Err(true) => cx.mix(9),
        Err(false) => cx.fail("sampling panics"),
    }
}

pub fn register(l: &mut List) {
    l.push(("complex".into(), complex, 6));
    l.push(("sampling".into(), sampling, 9));
    l.push(("transforms".into(), transforms, 4));
    l.push(("moebius<Bx>".into(), moebius::<Bx>, 1));
    l.push(("parts<Bx>/2".into(), parts::<Bx>, 1));
    l.push(("parts<Pad>/2".into(), parts::<Pad>, 1));
    l.push(("parts<u8>/2".into(), parts::<u8>, 1));
    l.push(("parts<Bx>/4".into(), quads::<Bx>, 1));
    l.push(("parts<Pad>/4".into(), quads::<Pad>, 1));
    l.push(("parts<u8>/4".into(), quads::<u8>, 1));
}
