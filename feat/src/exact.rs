//! Structure, integers and formatting.
use crate::*;
use std::convert::TryFrom;
use vecmat::matrix::FlatIter;
use vecmat::prelude::*;
use vecmat::transform::{Linear, Shift};
use vecmat::vector::GroupIter;
use vecmat::{Complex, Matrix, Quaternion, Vector};


fn ivec<const N: usize>(k: i32) -> Vector<i32, N> {
    Vector::<usize, N>::indices().map(|i| (i as i32 * 5 + k * 3) % 13 - 6)
}
fn imat<const M: usize, const N: usize>(k: i32) -> Matrix<i32, M, N> {
    Matrix::<(usize, usize), M, N>::indices().map(|(i, j)| (i as i32 * 7 + j as i32 * 5 + k * 3) % 13 - 6)
}
fn nz<const N: usize>(v: Vector<i32, N>) -> Vector<i32, N> {
    v.map(|x| if x == 0 { 4 } else { x })
}
fn vectors<const N: usize>(o: &mut Out) {
    for k in 0..9 {
        for l in 0..9 {
            let (v, w) = (ivec::<N>(k), ivec::<N>(l));
            let t = format!("V{} {} {}", N, k, l);
            e!(o, (v + w, v - w, v * w, v / nz(w), v % nz(w), -v), "vector ops {t}");
            e!(o, (v * 3, v / 3, v % 3, 3 * v), "vector scalar ops {t}");
            e!(o, (v & w, v | w, v ^ w, !v), "vector bit ops {t}");
            e!(o, (v.div_floor(nz(w)), v.mod_floor(nz(w)), v.div_mod_floor(nz(w))), "vector floor ops {t}");
            e!(o, { let mut a = v; a += w; a *= w; a -= v; a /= nz(w); a %= nz(v); a *= 3; a /= 2; a %= 5; a &= v; a |= w; a ^= v; a }, "vector assigning ops {t}");
            e!(o, (v.veq(w), v.vne(w), v.vlt(w), v.vle(w), v.vgt(w), v.vge(w)), "vector comparisons {t}");
            e!(o, (v.vlt(w).any(), v.vlt(w).all(), v == w, v != w, v.is_zero()), "vector predicates {t}");
            e!(o, (v.sum(), v.dot(w), v.norm_l1()), "vector sums {t}");
            e!(o, (v.min(), v.max(), v.norm_l_inf()), "vector extrema {t}");
            e!(o, v.zip(w).enumerate().unzip(), "vector zip {t}");
            e!(o, (v.scan(l, |s, x| { *s += x; *s }), v.fold(l, |s, x| s * 3 + x)), "vector scan {t}");
            e!(o, w.fold_first(|a, b| a * 2 - b), "vector fold_first {t}");
            e!(o, Vector::<i32, N>::try_from(&[k, l, 3, 4, 5][..(l as usize).min(5)]), "vector from slice {t}");
            e!(o, Vector::<i32, N>::try_from_iter((0..l).map(|x| x + k)), "vector from iterator {t}");
            e!(o, GroupIter::<_, N>::new(0..(if N == 0 { 0 } else { l })).take(9).collect::<Vec<_>>(), "vector groups {t}");
            e!(o, ([v, w, v].into_iter().sum::<Vector<i32, N>>(), [v, w].into_iter().product::<Vector<i32, N>>()), "vector folds {t}");
            e!(o, v.outer(w), "outer {t}");
            o.put("E", "core", &format!("vector text {t}"), || format!("{} {:?} {:#?} {:>4} {:+}", v, v, w, v, w));
            e!(o, (Vector::<i32, N>::default(), Vector::<i32, N>::zero(), Vector::<i32, N>::fill(k)), "vector constants {t}");
        }
    }
    for i in 0..N + 2 {
        e!(o, ivec::<N>(1)[i], "vector index V{N} {i}");
    }
}
fn matrices<const M: usize, const N: usize>(o: &mut Out) {
    for k in 0..9 {
        for l in [0, 4, 8] {
            let (v, w) = (imat::<M, N>(k), imat::<M, N>(l));
            let n = w.map(|x| if x == 0 { 4 } else { x });
            let t = format!("M{}x{} {} {}", M, N, k, l);
            e!(o, (v + w, v - w, v * w, v / n, v % n, -v), "matrix ops {t}");
            e!(o, (v * 3, v / 3, v % 3), "matrix scalar ops {t}");
            e!(o, (v & w, v | w, v ^ w, !v), "matrix bit ops {t}");
            e!(o, (v.div_floor(n), v.mod_floor(n), v.div_mod_floor(n)), "matrix floor ops {t}");
            e!(o, { let mut a = v; a += w; a *= w; a -= v; a /= n; a %= n; a *= 3; a /= 2; a %= 5; a &= v; a |= w; a ^= v; a }, "matrix assigning ops {t}");
            e!(o, (v.veq(w), v.vne(w), v.vlt(w), v.vle(w), v.vgt(w), v.vge(w)), "matrix comparisons {t}");
            e!(o, (v.vlt(w).any(), v.vlt(w).all(), v == w, v != w, v.is_zero()), "matrix predicates {t}");
            e!(o, (v.sum(), v.norm_l1()), "matrix sums {t}");
            e!(o, (v.min(), v.max(), v.norm_l_inf()), "matrix extrema {t}");
            e!(o, v.zip(w).unzip(), "matrix zip {t}");
            e!(o, (v.scan(l, |s, x| { *s += x; *s }), v.fold(l, |s, x| s * 3 + x)), "matrix scan {t}");
            e!(o, w.fold_first(|a, b| a * 2 - b), "matrix fold_first {t}");
            e!(o, Matrix::<i32, M, N>::try_from(&(0..(M * N) as i32 + l - 4).collect::<Vec<i32>>()[..]), "matrix from slice {t}");
            e!(o, Matrix::<i32, M, N>::try_from_iter((0..(M * N) as i32 + l - 4).map(|x| x + k)), "matrix from iterator {t}");
            e!(o, (v.into_iter().collect::<Vec<_>>(), v.iter().take(k as usize).collect::<Vec<_>>()), "matrix iteration {t}");
            e!(o, FlatIter::new(vec![vec![k], vec![], vec![l, k]].into_iter()).map(|i| i.collect::<Vec<_>>()), "flattening {t}");
            e!(o, v.transpose(), "transpose {t}");
            e!(o, (v.dot(ivec::<N>(l)), ivec::<M>(l).dot(v), v.dot(w.transpose())), "matrix products {t}");
            e!(o, ([v, w, v].into_iter().sum::<Matrix<i32, M, N>>(), [v, w].into_iter().product::<Matrix<i32, M, N>>()), "matrix folds {t}");
            o.put("E", "core", &format!("matrix text {t}"), || format!("{} {:?} {:#?} {:>4} {:+}", v, v, w, v, w));
            e!(o, (Matrix::<i32, M, N>::default(), Matrix::<i32, M, N>::zero(), Matrix::<i32, M, N>::fill(k)), "matrix constants {t}");
            e!(o, (v.into_array_of_arrays(), v.into_array_of_vectors(), v.as_array_of_arrays().len()), "matrix views {t}");
        }
    }
    for i in 0..M + 1 {
        e!(o, imat::<M, N>(2).row(i), "row M{M}x{N} {i}");
        for j in 0..N + 1 {
            e!(o, imat::<M, N>(2)[(i, j)], "matrix index M{M}x{N} {i} {j}");
        }
    }
    for j in 0..N + 1 {
        e!(o, imat::<M, N>(2).col(j), "col M{M}x{N} {j}");
    }
}
fn square<const N: usize>(o: &mut Out) {
    for k in 0..13 {
        let m = imat::<N, N>(k);
        e!(o, (m.det(), m.adj()), "det {N} {k}");
        e!(o, m.inv(), "inverse {N} {k}");
        e!(o, num_traits::Inv::inv(m), "inverse by trait {N} {k}");
        for i in 0..N + 1 {
            for j in 0..N + 1 {
                e!(o, m.cofactor(i, j), "cofactor {N} {k} {i} {j}");
            }
        }
        e!(o, (Matrix::<i32, N, N>::one(), Matrix::diagonal(ivec::<N>(k)), m.is_one()), "identity {N} {k}");
        e!(o, Linear::from_matrix(m).apply(ivec::<N>(k + 1)), "linear apply {N} {k}");
        e!(o, Linear::from_matrix(m).chain(Linear::from_matrix(imat(k + 2))), "linear chain {N} {k}");
        e!(o, (Shift::from(ivec::<N>(k)).chain(ivec::<N>(2).into()), Shift::from(ivec::<N>(k)).inv()), "shift {N} {k}");
    }
}
fn numbers(o: &mut Out) {
    let g = [-2i32, 0, 1, 3];
    for &a in &g { for &b in &g { for &c in &g { for &d in &g {
        let (x, y) = (Complex::new(a, b), Complex::new(c, d));
        let t = format!("{a} {b} {c} {d}");
        e!(o, (x + y, x - y, x * y, -x, x.conj(), x + c, x - c, x * c, x == y, x.is_zero(), x.is_one()), "complex ops {t}");
        e!(o, { let mut z = x; z += y; z -= c; z *= y; z *= d; z += a; z }, "complex assigning ops {t}");
        e!(o, (x.norm_sqr(), x.norm_l1(), x.dot(y), x.into_matrix(), x.powu(3)), "complex norms {t}");
        e!(o, x / c, "complex by real {t}");
        o.put("E", "core", &format!("complex text {t}"), || format!("{} {:?}", x, y));
        let (p, q) = (Quaternion::new(a, b, c, d), Quaternion::new(b, d, a, c + 1));
        e!(o, (p + q, p - q, p * q, -p, p.conj(), p + c, p - c, p * c, p + y, p - y, p * y, y * p), "quaternion ops {t}");
        e!(o, { let mut z = p; z += q; z -= y; z *= q; z *= y; z *= d; z += a; z += y; z -= b; z }, "quaternion assigning ops {t}");
        e!(o, (p.norm_sqr(), p.norm_l1(), p.dot(q), p.into_matrix(), p.is_zero(), p == q), "quaternion norms {t}");
        e!(o, ([x, y, x].into_iter().sum::<Complex<i32>>(), [x, y, x].into_iter().product::<Complex<i32>>()), "complex folds {t}");
        e!(o, ([p, q, p].into_iter().sum::<Quaternion<i32>>(), [p, q, p].into_iter().product::<Quaternion<i32>>()), "quaternion folds {t}");
        o.put("E", "core", &format!("quaternion text {t}"), || format!("{} {:?}", p, q));
        let (u, v) = (Vector::from([a, b, c, d]), Vector::from([d, a, b, c]));
        e!(o, (u.cross(v), Vector::from([a, b, c]).cross(Vector::from([d, a, b])), Vector::from([a, b]).cross(Vector::from([c, d]))), "cross {t}");
        e!(o, (u.x(), u.y(), u.z(), u.w(), u.into_tuple()), "components {t}");
    } } } }
    for s in ["1+2i", "3", "-i", "x", "1-2i", "2i+1", "", "+i"] {
        e!(o, <Complex<i32> as num_traits::Num>::from_str_radix(s, 10).is_ok(), "complex parse {s}");
    }
    macro_rules! prim { ($($t:ty)*) => { $( for x in [<$t>::MIN, 0, 1, 7, <$t>::MAX] {
        e!(o, x.norm_l1(), "{} l1 {}", stringify!($t), x);
        e!(o, (x.norm_l2(), x.norm_l_inf()), "{} norms {}", stringify!($t), x);
        e!(o, x.norm_l2_sqr(), "{} square {}", stringify!($t), x);
        e!(o, x.dot(3), "{} dot {}", stringify!($t), x);
    } )* } }
    prim!(i8 i16 i32 i64 isize u8 u16 u32 u64 usize);
}
/// Every placement of zeros and ones.
fn patterns<const N: usize>(o: &mut Out) {
    for b in 0..1usize << N {
        let v = Vector::<usize, N>::indices().map(|i| (b >> i & 1) as i32);
        let w = v.map(|x| x != 0);
        e!(o, (v.is_zero(), v == Vector::fill(1), v == Vector::zero(), w.any(), w.all(), v.sum(), v.min(), v.max(), v.dot(v), v.norm_l1(), v.norm_l_inf()), "pattern V{N} {b}");
        e!(o, (v.vlt(v * 2), v.veq(Vector::zero()), v.fold_first(|a, b| a * 2 + b), Vector::<i32, N>::try_from_iter(v.into_iter().filter(|x| *x == 1))), "pattern walk V{N} {b}");
    }
}
fn patterns2<const M: usize, const N: usize>(o: &mut Out) {
    for b in 0..1usize << (M * N) {
        let v = Matrix::<(usize, usize), M, N>::indices().map(|(i, j)| (b >> (i * N + j) & 1) as i32);
        let w = v.map(|x| x != 0);
        e!(o, (v.is_zero(), v == Matrix::fill(1), v == Matrix::zero(), w.any(), w.all(), v.sum(), v.min(), v.max(), v.norm_l1(), v.norm_l_inf(), v.dot(v.transpose())), "pattern M{M}x{N} {b}");
    }
}
fn patterns3<const N: usize>(o: &mut Out) {
    for b in 0..1usize << (N * N) {
        let v = Matrix::<(usize, usize), N, N>::indices().map(|(i, j)| (b >> (i * N + j) & 1) as i32);
        e!(o, (v.is_one(), v.det(), v.adj()), "pattern square {N} {b}");
        e!(o, (v.map(|x| x * 2 + 1)).inv(), "pattern inverse {N} {b}");
    }
}
pub fn run(o: &mut Out) {
    patterns::<1>(o);
    patterns::<2>(o);
    patterns::<3>(o);
    patterns::<4>(o);
    patterns::<5>(o);
    patterns::<6>(o);
    patterns::<8>(o);
    patterns2::<1, 5>(o);
    patterns2::<2, 2>(o);
    patterns2::<2, 3>(o);
    patterns2::<3, 3>(o);
    patterns2::<5, 1>(o);
    patterns3::<1>(o);
    patterns3::<2>(o);
    patterns3::<3>(o);
    vectors::<5>(o);
    vectors::<6>(o);
    vectors::<9>(o);
    matrices::<1, 5>(o);
    matrices::<5, 2>(o);
    vectors::<0>(o);
    vectors::<1>(o);
    vectors::<2>(o);
    vectors::<3>(o);
    vectors::<4>(o);
    vectors::<7>(o);
    matrices::<0, 2>(o);
    matrices::<1, 1>(o);
    matrices::<2, 2>(o);
    matrices::<2, 3>(o);
    matrices::<3, 2>(o);
    matrices::<4, 4>(o);
    square::<1>(o);
    square::<2>(o);
    square::<3>(o);
    square::<4>(o);
    numbers(o);
}
