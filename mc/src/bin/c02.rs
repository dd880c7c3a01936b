//! C02: one row-major layout behind every constructor, accessor, view, iterator and conversion.
//!
//! Elements are labels, and the operations are parametric in the element type, so an operation
//! is determined by where each label ends up.
use mc::*;
use std::cell::RefCell;
use std::convert::TryFrom;
use vecmat::matrix::FlatIter;
use vecmat::vector::GroupIter;
use vecmat::{Matrix, Vector};

trait Lab: Copy + PartialEq + std::fmt::Debug + Default + 'static {
    fn lab(i: usize) -> Self;
}
impl Lab for u8 {
    fn lab(i: usize) -> u8 {
        i as u8
    }
}
impl Lab for u32 {
    fn lab(i: usize) -> u32 {
        i as u32 ^ 0x5a5a_0000
    }
}
impl Lab for u128 {
    fn lab(i: usize) -> u128 {
        (i as u128) << 100 | i as u128
    }
}
/// Three bytes: size is no power of two.
impl Lab for [u8; 3] {
    fn lab(i: usize) -> [u8; 3] {
        [i as u8, 7, !(i as u8)]
    }
}
type Odd = [u8; 3];
/// Several cache lines; every part of it tells where it belongs.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Long([u16; 101]);
impl Lab for Long {
    fn lab(i: usize) -> Long {
        Long(std::array::from_fn(|k| (i * 257 + k) as u16))
    }
}
impl Default for Long {
    fn default() -> Long {
        Long([0xffff; 101])
    }
}

fn labels<L: Lab>(n: usize) -> Vec<L> {
    (0..n).map(L::lab).collect()
}

// ------------------------------------------------------------------ vectors

type VB<L, const N: usize> = (&'static str, fn(&[L; N]) -> Vector<L, N>);
fn vbuilders<L: Lab, const N: usize>() -> Vec<VB<L, N>> {
    vec![
        ("from_array", |a| Vector::from_array(*a)),
        ("From<[T;N]>", |a| Vector::from(*a)),
        ("From<&[T;N]>", |a| Vector::from(a)),
        ("TryFrom<&[T]>", |a| Vector::try_from(&a[..]).unwrap()),
        ("try_from_iter", |a| Vector::try_from_iter(a.iter().copied()).unwrap()),
        ("try_from_iter of a longer source", |a| {
            Vector::try_from_iter(a.iter().copied().chain(a.iter().copied()).chain([L::lab(99)])).unwrap()
        }),
        ("init", |a| {
            let mut i = 0;
            Vector::init(|| {
                i += 1;
                a[i - 1]
            })
        }),
        ("indices.map", |a| Vector::<usize, N>::indices().map(|i| a[i])),
        ("default + index_mut", |a| {
            let mut v = Vector::<L, N>::default();
            for i in (0..N).rev() {
                v[i] = a[i];
            }
            v
        }),
        ("new + iter_mut", |a| {
            let mut v = Vector::<L, N>::new();
            for (x, y) in v.iter_mut().zip(a) {
                *x = *y;
            }
            v
        }),
        ("fill + &mut into_iter", |a| {
            let mut v = Vector::<L, N>::fill(L::lab(77));
            let mut i = 0;
            for x in &mut v {
                assert_eq!(*x, L::lab(77));
                *x = a[i];
                i += 1;
            }
            v
        }),
        ("uninit + assume_init", |a| {
            let mut v = Vector::<L, N>::uninit();
            for i in 0..N {
                v[i] = std::mem::MaybeUninit::new(a[i]);
            }
            unsafe { v.assume_init() }
        }),
        ("group iterator", |a| {
            let l: Vec<L> = a.iter().copied().collect();
            GroupIter::<_, N>::new(l.into_iter()).next().unwrap()
        }),
        ("clone", |a| Vector::from_array(*a).clone()),
        ("scan", |a| Vector::<u8, N>::fill(0).scan(0, |s: &mut usize, _| { *s += 1; a[*s - 1] })),
    ]
}
type VW<L, const N: usize> = (&'static str, fn(&mut Vector<L, N>, usize, L));
fn vwriters<L: Lab, const N: usize>() -> Vec<VW<L, N>> {
    vec![
        ("v[i] = x", |v, i, x| v[i] = x),
        ("iter_mut().nth(i)", |v, i, x| *v.iter_mut().nth(i).unwrap() = x),
        ("(&mut v).into_iter().nth(i)", |v, i, x| *v.into_iter().nth(i).unwrap() = x),
        ("iter_mut().rev()", |v, i, x| *v.iter_mut().rev().nth(N - 1 - i).unwrap() = x),
        ("as_mut_array", |v, i, x| v.as_mut_array()[i] = x),
        ("AsMut", |v, i, x| {
            let a: &mut [L; N] = v.as_mut();
            a[i] = x
        }),
        ("From<&mut Vector>", |v, i, x| {
            let a: &mut [L; N] = v.into();
            a[i] = x
        }),
        ("as_mut_ptr", |v, i, x| unsafe { *v.as_mut_ptr().add(i) = x }),
        ("get_unchecked_mut", |v, i, x| unsafe { *v.get_unchecked_mut(i) = x }),
        ("map with counter", |v, i, x| {
            let mut k = 0;
            *v = v.map(|y| {
                k += 1;
                if k - 1 == i { x } else { y }
            })
        }),
        ("enumerate + map", |v, i, x| *v = v.enumerate().map(|(k, y)| if k == i { x } else { y })),
    ]
}
type VR<L, const N: usize> = (&'static str, fn(Vector<L, N>) -> Vec<L>);
fn vreaders<L: Lab, const N: usize>() -> Vec<VR<L, N>> {
    vec![
        ("v[i]", |v| (0..N).map(|i| v[i]).collect()),
        ("iter", |v| v.iter().copied().collect()),
        ("iter().rev()", |v| {
            let mut l: Vec<L> = v.iter().rev().copied().collect();
            l.reverse();
            l
        }),
        ("&v into_iter", |v| (&v).into_iter().copied().collect()),
        ("&mut v into_iter", |mut v| (&mut v).into_iter().map(|x| *x).collect()),
        ("iter_mut", |mut v| v.iter_mut().map(|x| *x).collect()),
        ("into_iter", |v| v.into_iter().collect()),
        ("into_iter().rev()", |v| {
            let mut l: Vec<L> = v.into_iter().rev().collect();
            l.reverse();
            l
        }),
        ("as_array", |v| v.as_array().to_vec()),
        ("as_mut_array", |mut v| v.as_mut_array().to_vec()),
        ("AsRef", |v| {
            let a: &[L; N] = v.as_ref();
            a.to_vec()
        }),
        ("AsMut", |mut v| {
            let a: &mut [L; N] = v.as_mut();
            a.to_vec()
        }),
        ("From<&Vector>", |v| {
            let a: &[L; N] = (&v).into();
            a.to_vec()
        }),
        ("From<&mut Vector>", |mut v| {
            let a: &mut [L; N] = (&mut v).into();
            a.to_vec()
        }),
        ("into_array", |v| v.into_array().to_vec()),
        ("From<Vector>", |v| {
            let a: [L; N] = v.into();
            a.to_vec()
        }),
        ("as_ptr", |v| (0..N).map(|i| unsafe { *v.as_ptr().add(i) }).collect()),
        ("as_mut_ptr", |mut v| {
            let p = v.as_mut_ptr();
            (0..N).map(|i| unsafe { *p.add(i) }).collect()
        }),
        ("get_unchecked", |v| (0..N).map(|i| unsafe { *v.get_unchecked(i) }).collect()),
        ("get_unchecked_mut", |mut v| (0..N).map(|i| unsafe { *v.get_unchecked_mut(i) }).collect()),
        ("for_each", |v| {
            let mut l = vec![];
            v.for_each(|x| l.push(x));
            l
        }),
        ("map calls", |v| {
            let mut l = vec![];
            let _ = v.map(|x| l.push(x));
            l
        }),
        ("map result", |v| v.map(|x| (x, x)).into_iter().map(|p| p.1).collect()),
        ("zip left", |v| v.zip(Vector::<u8, N>::fill(0)).into_iter().map(|p| p.0).collect()),
        ("zip right", |v| Vector::<u16, N>::fill(0).zip(v).into_iter().map(|p| p.1).collect()),
        ("enumerate", |v| {
            let mut l: Vec<(usize, L)> = v.enumerate().into_iter().collect();
            for (k, x) in l.iter().enumerate() {
                assert_eq!(x.0, k, "enumerate at position {}", k);
            }
            l.drain(..).map(|x| x.1).collect()
        }),
        ("unzip left", |v| v.map(|x| (x, 1u8)).unzip().0.into_iter().collect()),
        ("unzip right", |v| v.map(|x| ([0u8; 5], x)).unzip().1.into_iter().collect()),
        ("fold", |v| v.fold(vec![], |mut l: Vec<L>, x| { l.push(x); l })),
        ("fold_first", |v| {
            if N == 0 {
                return vec![];
            }
            let log: RefCell<Vec<L>> = RefCell::new(vec![]);
            let first: RefCell<bool> = RefCell::new(true);
            let last = v.fold_first(|a, b| {
                if *first.borrow() {
                    log.borrow_mut().push(a);
                    *first.borrow_mut() = false;
                } else {
                    assert_eq!(log.borrow().last(), Some(&a), "fold_first passes the accumulator on the left");
                }
                log.borrow_mut().push(b);
                b
            });
            let mut l = log.into_inner();
            if N == 1 {
                l.push(last);
            }
            assert_eq!(l.last(), Some(&last));
            l
        }),
        ("scan result", |v| v.scan((), |_, x| x).into_iter().collect()),
        ("scan calls", |v| {
            let mut l = vec![];
            let _ = v.scan(0usize, |k, x| { *k += 1; l.push((*k, x)) });
            l.into_iter().enumerate().map(|(i, (k, x))| { assert_eq!(k, i + 1); x }).collect()
        }),
        ("copy", |v| {
            let w = v;
            w.into_array().to_vec()
        }),
    ]
}

/// All positions of a small container; of a large one the ends and the neighbours of powers of two.
fn positions(n: usize) -> Vec<usize> {
    if n <= 96 {
        return (0..n).collect();
    }
    let mut l: Vec<usize> = [0, 1, 31, 32, 63, 64, 127, 128, 255, 256, 257, n / 2, n - 2, n - 1].into_iter().filter(|i| *i < n).collect();
    l.sort();
    l.dedup();
    l
}
fn fresh<L: Lab>(n: usize) -> L {
    L::lab(if n <= 200 { 200 } else { 99_999 })
}
fn vector_paths<L: Lab, const N: usize>(ctx: &mut Ctx) {
    let want0 = labels::<L>(N);
    let arr: [L; N] = std::array::from_fn(L::lab);
    let bs = vbuilders::<L, N>();
    let ws = vwriters::<L, N>();
    let rs = vreaders::<L, N>();
    let b = ctx.choose(bs.len());
    // one write through every mutable path at every position (or none)
    let at = positions(N);
    let k = ctx.choose(ws.len() * at.len() + 1);
    ctx.note(|| format!("built by {}", bs[b].0));
    let mut want = want0.clone();
    let mut v = (bs[b].1)(&arr);
    let mut how = "";
    if k > 0 {
        let (w, i) = ((k - 1) / at.len(), at[(k - 1) % at.len()]);
        ctx.note(|| format!("{} with i = {}", ws[w].0, i));
        (ws[w].1)(&mut v, i, fresh(N));
        want[i] = fresh(N);
        how = ws[w].0;
    }
    ctx.state(&format!("{:?}", want));
    for (rn, r) in &rs {
        let got = r(v);
        ctx.ops(1);
        ensure!(ctx, got == want, "{} -> {} -> {}: got {:?}, expected {:?}", bs[b].0, how, rn, got, want);
    }
}

/// Two writes through two paths, every pair of positions.
fn vector_two_writes<const N: usize>(ctx: &mut Ctx) {
    let ws = vwriters::<u32, N>();
    let rs = vreaders::<u32, N>();
    let mut v = Vector::<u32, N>::from_array(std::array::from_fn(u32::lab));
    let mut want = labels::<u32>(N);
    for k in 0..2 {
        let w = ctx.choose(ws.len());
        let i = ctx.choose(N);
        (ws[w].1)(&mut v, i, u32::lab(200 + k));
        want[i] = u32::lab(200 + k);
        ctx.note(|| format!("{} at {}", ws[w].0, i));
    }
    let (rn, r) = ctx.pick(&rs);
    ctx.ops(3);
    ctx.state(&want);
    same!(ctx, r(v), want, "{}", rn);
}

const FAR: [usize; 7] =
    [64, 255, 256, 65536, 1 << 32, usize::MAX / 2 + 1, usize::MAX];
fn outside(ctx: &mut Ctx, n: usize, other: usize) -> usize {
    let near = [n, n + 1, n + 2, 2 * n + 1, n * other.max(1), n + other + 1];
    let k = ctx.choose(near.len() + FAR.len());
    let i = if k < near.len() { near[k] } else { FAR[k - near.len()] };
    i.max(n)
}
fn vector_bounds<L: Lab, const N: usize>(ctx: &mut Ctx) {
    let mut v = Vector::<L, N>::from_array(std::array::from_fn(L::lab));
    let i = outside(ctx, N, N);
    let how = ctx.choose(4);
    ctx.note(|| format!("index {} way {}", i, how));
    let o = attempt(|| match how {
        0 => v[i],
        1 => {
            v[i] = L::lab(200);
            L::lab(0)
        }
        2 => {
            let r = &mut v[i];
            *r = L::lab(201);
            L::lab(0)
        }
        _ => *std::ops::Index::index(&v, i),
    });
    ctx.ops(1);
    ensure!(ctx, o.panicked(), "index {} of a vector of dimension {}: no panic, got {:?}", i, N, o);
    same!(ctx, v.into_array().to_vec(), labels::<L>(N), "contents after a failed access");
    ctx.state(&(N, i));
}

/// All references point into the same storage at consecutive element positions.
fn vector_addresses<L: Lab, const N: usize>(ctx: &mut Ctx) {
    let mut v = Vector::<L, N>::from_array(std::array::from_fn(L::lab));
    let base = &v as *const _ as usize;
    let sz = std::mem::size_of::<L>();
    same!(ctx, std::mem::size_of::<Vector<L, N>>(), sz * N, "size");
    same!(ctx, v.as_ptr() as usize, base, "as_ptr");
    same!(ctx, v.as_mut_ptr() as usize, base, "as_mut_ptr");
    same!(ctx, v.as_array().as_ptr() as usize, base, "as_array");
    for i in 0..N {
        same!(ctx, &v[i] as *const _ as usize, base + i * sz, "&v[{}]", i);
        same!(ctx, v.iter().nth(i).unwrap() as *const _ as usize, base + i * sz, "iter {}", i);
        same!(ctx, v.iter_mut().nth(i).unwrap() as *mut _ as usize, base + i * sz, "iter_mut {}", i);
        same!(ctx, unsafe { v.get_unchecked(i) } as *const _ as usize, base + i * sz, "get_unchecked {}", i);
    }
    same!(ctx, v.iter().len(), N, "length of iter");
    same!(ctx, v.into_iter().len(), N, "length of into_iter");
    ctx.ops(4 * N as u64 + 6);
    ctx.state(&N);
}

macro_rules! spec {
    ($f:ident, $n:literal, [$(($i:literal, $g:ident, $r:ident, $m:ident)),*], $tt:ty, ($($x:ident),*)) => {
        fn $f(ctx: &mut Ctx) {
            let a: [u32; $n] = std::array::from_fn(u32::lab);
            let via = ctx.choose(3);
            let mut v: Vector<u32, $n> = match via {
                0 => Vector::from_array(a),
                1 => {
                    let [$($x),*] = a;
                    Vector::<u32, $n>::from_tuple(($($x),*))
                }
                _ => {
                    let [$($x),*] = a;
                    Vector::<u32, $n>::from(($($x),*))
                }
            };
            let w = ctx.choose($n + 1);
            let mut want = a;
            if w < $n {
                want[w] = 999;
                $( if w == $i { *v.$m() = 999; } )*
            }
            ctx.note(|| format!("constructor {} write {}", via, w));
            same!(ctx, v.into_array(), want, "array after writing through component {}", w);
            $(
                same!(ctx, v.$g(), want[$i], "{}", stringify!($g));
                same!(ctx, *v.$r(), want[$i], "{}", stringify!($r));
                same!(ctx, *v.$m(), want[$i], "{}", stringify!($m));
                same!(ctx, v.$r() as *const u32, &v[$i] as *const u32, "{} address", stringify!($r));
            )*
            let t = v.into_tuple();
            let ($($x),*) = t;
            same!(ctx, [$($x),*], want, "into_tuple");
            let t: $tt = v.into();
            let ($($x),*) = t;
            same!(ctx, [$($x),*], want, "From<Vector> for tuple");
            ctx.ops(4 * $n + 3);
            ctx.state(&(w, via));
        }
    };
}
spec!(spec2, 2, [(0, x, x_ref, x_mut), (1, y, y_ref, y_mut)], (u32, u32), (p, q));
spec!(spec3, 3, [(0, x, x_ref, x_mut), (1, y, y_ref, y_mut), (2, z, z_ref, z_mut)], (u32, u32, u32), (p, q, r));
spec!(spec4, 4, [(0, x, x_ref, x_mut), (1, y, y_ref, y_mut), (2, z, z_ref, z_mut), (3, w, w_ref, w_mut)],
      (u32, u32, u32, u32), (p, q, r, s));

// ------------------------------------------------------------------ matrices

type MB<L, const M: usize, const N: usize> = (&'static str, fn(&[[L; N]; M]) -> Matrix<L, M, N>);
fn mbuilders<L: Lab, const M: usize, const N: usize>() -> Vec<MB<L, M, N>> {
    fn flat<L: Lab, const M: usize, const N: usize>(a: &[[L; N]; M]) -> Vec<L> {
        a.iter().flat_map(|r| r.iter().copied()).collect()
    }
    fn rows<L: Lab, const M: usize, const N: usize>(a: &[[L; N]; M]) -> [Vector<L, N>; M] {
        std::array::from_fn(|i| Vector::from_array(a[i]))
    }
    vec![
        ("from_array_of_arrays", |a| Matrix::from_array_of_arrays(*a)),
        ("from_array_of_vectors", |a| Matrix::from_array_of_vectors(rows(a))),
        ("from_vector_of_vectors", |a| Matrix::from_vector_of_vectors(Vector::from_array(rows(a)))),
        ("From<[[T;N];M]>", |a| Matrix::from(*a)),
        ("From<[Vector;M]>", |a| Matrix::from(rows(a))),
        ("From<Vector<Vector>>", |a| Matrix::from(Vector::from_array(rows(a)))),
        ("From<&[[T;N];M]>", |a| Matrix::from(a)),
        ("From<&[Vector;M]>", |a| Matrix::from(&rows(a))),
        ("From<&Vector<Vector>>", |a| Matrix::from(&Vector::from_array(rows(a)))),
        ("TryFrom<&[T]>", |a| Matrix::try_from(&flat(a)[..]).unwrap()),
        ("TryFrom<&[Vector]>", |a| Matrix::try_from(&rows(a)[..]).unwrap()),
        ("try_from_iter", |a| Matrix::try_from_iter(flat(a).into_iter()).unwrap()),
        ("try_from_iter of a longer source", |a| {
            Matrix::try_from_iter(flat(a).into_iter().chain((0..40).map(|_| L::lab(99)))).unwrap()
        }),
        ("try_from_iter_of_vectors", |a| Matrix::try_from_iter_of_vectors(rows(a).iter().copied()).unwrap()),
        ("init", |a| {
            let l = flat(a);
            let mut i = 0;
            Matrix::init(|| {
                i += 1;
                l[i - 1]
            })
        }),
        ("indices.map", |a| Matrix::<(usize, usize), M, N>::indices().map(|(i, j)| a[i][j])),
        ("default + index_mut", |a| {
            let mut m = Matrix::<L, M, N>::default();
            for j in 0..N {
                for i in 0..M {
                    m[(i, j)] = a[i][j];
                }
            }
            m
        }),
        ("new + iter_mut", |a| {
            let mut m = Matrix::<L, M, N>::new();
            for (x, y) in m.iter_mut().zip(flat(a)) {
                *x = y;
            }
            m
        }),
        ("fill + &mut into_iter", |a| {
            let mut m = Matrix::<L, M, N>::fill(L::lab(77));
            for (x, y) in (&mut m).into_iter().zip(flat(a)) {
                assert_eq!(*x, L::lab(77));
                *x = y;
            }
            m
        }),
        ("fill_ref + row_mut", |a| {
            let mut m = Matrix::<L, M, N>::fill_ref(&L::lab(77));
            for i in 0..M {
                *m.row_mut(i) = Vector::from_array(a[i]);
            }
            m
        }),
        ("uninit + assume_init", |a| {
            let mut m = Matrix::<L, M, N>::uninit();
            for i in 0..M {
                for j in 0..N {
                    m[(i, j)] = std::mem::MaybeUninit::new(a[i][j]);
                }
            }
            unsafe { m.assume_init() }
        }),
        ("transpose of the transposed data", |a| {
            let t: [[L; M]; N] = std::array::from_fn(|j| std::array::from_fn(|i| a[i][j]));
            Matrix::from(t).transpose()
        }),
        ("clone", |a| Matrix::from(a).clone()),
        ("scan", |a| {
            let l = flat(a);
            Matrix::<u8, M, N>::fill(0).scan(0, |s: &mut usize, _| { *s += 1; l[*s - 1] })
        }),
    ]
}
type MW<L, const M: usize, const N: usize> = (&'static str, fn(&mut Matrix<L, M, N>, usize, usize, L));
fn mwriters<L: Lab, const M: usize, const N: usize>() -> Vec<MW<L, M, N>> {
    vec![
        ("m[(i,j)] = x", |m, i, j, x| m[(i, j)] = x),
        ("iter_mut", |m, i, j, x| *m.iter_mut().nth(i * N + j).unwrap() = x),
        ("&mut into_iter", |m, i, j, x| *m.into_iter().nth(i * N + j).unwrap() = x),
        ("row_mut", |m, i, j, x| m.row_mut(i)[j] = x),
        ("as_mut_vector_of_vectors", |m, i, j, x| m.as_mut_vector_of_vectors()[i][j] = x),
        ("as_mut_array_of_vectors", |m, i, j, x| m.as_mut_array_of_vectors()[i][j] = x),
        ("as_mut_array_of_arrays", |m, i, j, x| m.as_mut_array_of_arrays()[i][j] = x),
        ("AsMut", |m, i, j, x| {
            let v: &mut Vector<Vector<L, N>, M> = m.as_mut();
            v[i][j] = x
        }),
        ("From<&mut Matrix> vectors", |m, i, j, x| {
            let v: &mut Vector<Vector<L, N>, M> = m.into();
            v[i][j] = x
        }),
        ("From<&mut Matrix> arrays", |m, i, j, x| {
            let v: &mut [[L; N]; M] = m.into();
            v[i][j] = x
        }),
        ("as_mut_ptr", |m, i, j, x| unsafe { *m.as_mut_ptr().add(i * N + j) = x }),
        ("get_unchecked_mut", |m, i, j, x| unsafe { *m.get_unchecked_mut(i, j) = x }),
        ("map with counter", |m, i, j, x| {
            let mut k = 0;
            *m = m.map(|y| {
                k += 1;
                if k - 1 == i * N + j { x } else { y }
            })
        }),
        ("transpose, write, transpose", |m, i, j, x| {
            let mut t = m.transpose();
            t[(j, i)] = x;
            *m = t.transpose()
        }),
    ]
}
type MR<L, const M: usize, const N: usize> = (&'static str, fn(Matrix<L, M, N>) -> Vec<L>);
fn mreaders<L: Lab, const M: usize, const N: usize>() -> Vec<MR<L, M, N>> {
    fn vv<L: Lab, const M: usize, const N: usize>(v: &Vector<Vector<L, N>, M>) -> Vec<L> {
        v.as_array().iter().flat_map(|r| r.as_array().iter().copied()).collect()
    }
    fn pos<const N: usize>() -> impl Fn(usize) -> (usize, usize) {
        |k| (k / N, k % N)
    }
    vec![
        ("m[(i,j)]", |m| (0..M * N).map(|k| m[pos::<N>()(k)]).collect()),
        ("iter", |m| m.iter().copied().collect()),
        ("iter_mut", |mut m| m.iter_mut().map(|x| *x).collect()),
        ("&m into_iter", |m| (&m).into_iter().copied().collect()),
        ("&mut m into_iter", |mut m| (&mut m).into_iter().map(|x| *x).collect()),
        ("into_iter", |m| m.into_iter().collect()),
        ("row", |m| (0..M).flat_map(|i| m.row(i).into_array()).collect()),
        ("row_ref", |m| (0..M).flat_map(|i| m.row_ref(i).into_array()).collect()),
        ("row_mut", |mut m| (0..M).flat_map(|i| m.row_mut(i).into_array()).collect()),
        ("col", |m| {
            let cols: Vec<[L; M]> = (0..N).map(|j| m.col(j).into_array()).collect();
            (0..M * N).map(|k| cols[k % N][k / N]).collect()
        }),
        ("as_vector_of_vectors", |m| vv(m.as_vector_of_vectors())),
        ("as_mut_vector_of_vectors", |mut m| vv(m.as_mut_vector_of_vectors())),
        ("as_array_of_vectors", |m| m.as_array_of_vectors().iter().flat_map(|r| r.into_array()).collect()),
        ("as_mut_array_of_vectors", |mut m| m.as_mut_array_of_vectors().iter().flat_map(|r| r.into_array()).collect()),
        ("as_array_of_arrays", |m| m.as_array_of_arrays().iter().flatten().copied().collect()),
        ("as_mut_array_of_arrays", |mut m| m.as_mut_array_of_arrays().iter().flatten().copied().collect()),
        ("AsRef", |m| {
            let v: &Vector<Vector<L, N>, M> = m.as_ref();
            vv(v)
        }),
        ("AsMut", |mut m| {
            let v: &mut Vector<Vector<L, N>, M> = m.as_mut();
            vv(v)
        }),
        ("From<&Matrix> vectors", |m| {
            let v: &Vector<Vector<L, N>, M> = (&m).into();
            vv(v)
        }),
        ("From<&mut Matrix> vectors", |mut m| {
            let v: &mut Vector<Vector<L, N>, M> = (&mut m).into();
            vv(v)
        }),
        ("From<&Matrix> arrays", |m| {
            let v: &[[L; N]; M] = (&m).into();
            v.iter().flatten().copied().collect()
        }),
        ("From<&mut Matrix> arrays", |mut m| {
            let v: &mut [[L; N]; M] = (&mut m).into();
            v.iter().flatten().copied().collect()
        }),
        ("into_vector_of_vectors", |m| vv(&m.into_vector_of_vectors())),
        ("into_array_of_vectors", |m| m.into_array_of_vectors().iter().flat_map(|r| r.into_array()).collect()),
        ("into_array_of_arrays", |m| m.into_array_of_arrays().iter().flatten().copied().collect()),
        ("From<Matrix> vectors", |m| {
            let v: Vector<Vector<L, N>, M> = m.into();
            vv(&v)
        }),
        ("From<Matrix> array of vectors", |m| {
            let v: [Vector<L, N>; M] = m.into();
            v.iter().flat_map(|r| r.into_array()).collect()
        }),
        ("From<Matrix> arrays", |m| {
            let v: [[L; N]; M] = m.into();
            v.iter().flatten().copied().collect()
        }),
        ("as_ptr", |m| (0..M * N).map(|k| unsafe { *m.as_ptr().add(k) }).collect()),
        ("as_mut_ptr", |mut m| {
            let p = m.as_mut_ptr();
            (0..M * N).map(|k| unsafe { *p.add(k) }).collect()
        }),
        ("get_unchecked", |m| (0..M * N).map(|k| unsafe { *m.get_unchecked(k / N, k % N) }).collect()),
        ("get_unchecked_mut", |mut m| (0..M * N).map(|k| unsafe { *m.get_unchecked_mut(k / N, k % N) }).collect()),
        ("transpose index", |m| {
            let t = m.transpose();
            (0..M * N).map(|k| t[(k % N, k / N)]).collect()
        }),
        ("transpose cols", |m| {
            let t = m.transpose();
            (0..M).flat_map(|i| t.col(i).into_array()).collect()
        }),
        ("for_each", |m| {
            let mut l = vec![];
            m.for_each(|x| l.push(x));
            l
        }),
        ("map calls", |m| {
            let mut l = vec![];
            let _ = m.map(|x| l.push(x));
            l
        }),
        ("map result", |m| m.map(|x| (x, x)).into_iter().map(|p| p.0).collect()),
        ("zip left", |m| m.zip(Matrix::<u8, M, N>::fill(0)).into_iter().map(|p| p.0).collect()),
        ("zip right", |m| Matrix::<u16, M, N>::fill(0).zip(m).into_iter().map(|p| p.1).collect()),
        ("zip with indices", |m| {
            let mut l: Vec<Option<L>> = vec![None; M * N];
            for ((i, j), x) in Matrix::indices().zip(m) {
                assert!(l[i * N + j].replace(x).is_none());
            }
            l.into_iter().map(|x| x.unwrap()).collect()
        }),
        ("unzip left", |m| m.map(|x| (x, 1u8)).unzip().0.into_iter().collect()),
        ("unzip right", |m| m.map(|x| ([0u8; 5], x)).unzip().1.into_iter().collect()),
        ("fold", |m| m.fold(vec![], |mut l: Vec<L>, x| { l.push(x); l })),
        ("fold_first", |m| {
            if M * N == 0 {
                return vec![];
            }
            let mut l = vec![];
            let mut first = true;
            let last = m.fold_first(|a, b| {
                if first {
                    l.push(a);
                    first = false;
                } else {
                    assert_eq!(l.last(), Some(&a), "fold_first passes the accumulator on the left");
                }
                l.push(b);
                b
            });
            if M * N == 1 {
                l.push(last);
            }
            assert_eq!(l.last(), Some(&last));
            l
        }),
        ("scan result", |m| m.scan((), |_, x| x).into_iter().collect()),
        ("scan calls", |m| {
            let mut l = vec![];
            let _ = m.scan(0usize, |k, x| { *k += 1; l.push((*k, x)) });
            l.into_iter().enumerate().map(|(i, (k, x))| { assert_eq!(k, i + 1, "scan state"); x }).collect()
        }),
        ("FlatIter over rows", |m| match FlatIter::new(m.into_array_of_arrays().into_iter()) {
            Some(f) => f.collect(),
            None => vec![],
        }),
    ]
}

fn matrix_paths<L: Lab, const M: usize, const N: usize>(ctx: &mut Ctx) {
    let mut want = labels::<L>(M * N);
    let arr: [[L; N]; M] = std::array::from_fn(|i| std::array::from_fn(|j| L::lab(i * N + j)));
    let bs = mbuilders::<L, M, N>();
    let ws = mwriters::<L, M, N>();
    let rs = mreaders::<L, M, N>();
    let b = ctx.choose(bs.len());
    let at = positions(M * N);
    let k = ctx.choose(ws.len() * at.len() + 1);
    ctx.note(|| format!("built by {}", bs[b].0));
    let mut m = (bs[b].1)(&arr);
    let mut how = "";
    if k > 0 {
        let (w, p) = ((k - 1) / at.len(), at[(k - 1) % at.len()]);
        ctx.note(|| format!("{} at ({},{})", ws[w].0, p / N, p % N));
        (ws[w].1)(&mut m, p / N, p % N, fresh(M * N));
        want[p] = fresh(M * N);
        how = ws[w].0;
    }
    ctx.state(&format!("{:?}", want));
    for (rn, r) in &rs {
        let got = r(m);
        ctx.ops(1);
        ensure!(ctx, got == want, "{} -> {} -> {}: got {:?}, expected {:?}", bs[b].0, how, rn, got, want);
    }
}

fn matrix_bounds<L: Lab, const M: usize, const N: usize>(ctx: &mut Ctx) {
    let mut m = Matrix::<L, M, N>::init({
        let mut k = 0;
        move || {
            k += 1;
            L::lab(k - 1)
        }
    });
    let what = ctx.choose(3);
    let (i, j) = match what {
        0 => (outside(ctx, M, N), ctx.choose(N.max(1))),
        1 => (ctx.choose(M.max(1)), outside(ctx, N, M)),
        _ => (outside(ctx, M, N), outside(ctx, N, M)),
    };
    let how = ctx.choose(7);
    ctx.note(|| format!("({}, {}) way {}", i, j, how));
    if how == 6 && (M == 0 || j < N) || (3..6).contains(&how) && i < M {
        return;
    }
    let o = attempt(|| match how {
        0 => format!("{:?}", m[(i, j)]),
        1 => {
            m[(i, j)] = L::lab(200);
            String::new()
        }
        2 => {
            let r = &mut m[(i, j)];
            *r = L::lab(201);
            String::new()
        }
        3 => format!("{:?}", m.row(i).into_array().to_vec()),
        4 => format!("{:?}", m.row_ref(i).into_array().to_vec()),
        5 => {
            *m.row_mut(i) = Vector::fill(L::lab(202));
            String::new()
        }
        _ => format!("{:?}", m.col(j).into_array().to_vec()),
    });
    ctx.ops(1);
    ensure!(ctx, o.panicked(), "access {} at ({}, {}) of a {}x{} matrix: no panic, got {:?}", how, i, j, M, N, o);
    same!(ctx, m.into_iter().collect::<Vec<_>>(), labels::<L>(M * N), "contents after a failed access");
    ctx.state(&(i, j));
}

fn matrix_addresses<L: Lab, const M: usize, const N: usize>(ctx: &mut Ctx) {
    let mut m = Matrix::<L, M, N>::fill(L::lab(1));
    let base = &m as *const _ as usize;
    let sz = std::mem::size_of::<L>();
    same!(ctx, std::mem::size_of::<Matrix<L, M, N>>(), sz * M * N, "size");
    same!(ctx, m.as_ptr() as usize, base, "as_ptr");
    same!(ctx, m.as_mut_ptr() as usize, base, "as_mut_ptr");
    for i in 0..M {
        same!(ctx, m.row_ref(i) as *const _ as usize, base + i * N * sz, "row_ref {}", i);
        same!(ctx, &m.as_array_of_arrays()[i] as *const _ as usize, base + i * N * sz, "as_array_of_arrays {}", i);
        for j in 0..N {
            let a = base + (i * N + j) * sz;
            same!(ctx, &m[(i, j)] as *const _ as usize, a, "&m[({}, {})]", i, j);
            same!(ctx, m.iter().nth(i * N + j).unwrap() as *const _ as usize, a, "iter ({}, {})", i, j);
            same!(ctx, m.iter_mut().nth(i * N + j).unwrap() as *mut _ as usize, a, "iter_mut ({}, {})", i, j);
            same!(ctx, unsafe { m.get_unchecked(i, j) } as *const _ as usize, a, "get_unchecked ({}, {})", i, j);
        }
    }
    ctx.ops(4 * (M * N) as u64);
    ctx.state(&(M, N));
}

/// All rows and columns of mutable iteration may be held at once and do not overlap.
fn held<const M: usize, const N: usize>(ctx: &mut Ctx) {
    let mut m = Matrix::<u32, M, N>::init({
        let mut k = 0;
        move || {
            k += 1;
            k - 1
        }
    });
    let n = M * N;
    let (a, b) = (ctx.choose(n), ctx.choose(n));
    let via = ctx.choose(2);
    {
        let mut rs: Vec<&mut u32> = if via == 0 { m.iter_mut().collect() } else { (&mut m).into_iter().collect() };
        same!(ctx, rs.len(), n, "number of references");
        let (x, y) = (*rs[a], *rs[b]);
        *rs[a] = y;
        *rs[b] = x;
    }
    let mut want: Vec<u32> = (0..n as u32).collect();
    want.swap(a, b);
    same!(ctx, m.iter().copied().collect::<Vec<_>>(), want, "after exchanging {} and {}", a, b);
    ctx.ops(1);
    ctx.state(&want);
}

fn index_tables<const M: usize, const N: usize>(ctx: &mut Ctx) {
    let m = Matrix::<(usize, usize), M, N>::indices();
    for i in 0..M {
        for j in 0..N {
            same!(ctx, m[(i, j)], (i, j), "Matrix::indices at ({}, {})", i, j);
        }
    }
    let v = Vector::<usize, N>::indices();
    for i in 0..N {
        same!(ctx, v[i], i, "Vector::indices at {}", i);
    }
    ctx.ops((M * N + N) as u64);
    ctx.state(&(M, N));
}

// ------------------------------------------------------------------ histories

fn step<const M: usize, const N: usize>(
    ctx: &mut Ctx, mut m: Matrix<u32, M, N>, want: &mut Vec<u32>, op: usize, fresh: u32,
) -> Matrix<u32, M, N> {
    match op {
        0 => Matrix::from(m.into_array_of_arrays()),
        1 => Matrix::try_from_iter(m.into_iter()).unwrap(),
        2 => {
            let (a, b) = Matrix::<(usize, usize), M, N>::indices().zip(m).unzip();
            for (k, p) in a.into_iter().enumerate() {
                same!(ctx, p, (k / N, k % N), "indices through zip and unzip");
            }
            b
        }
        3 => {
            // reverse the rows through the array view
            m.as_mut_array_of_arrays().reverse();
            for i in 0..M / 2 {
                for j in 0..N {
                    want.swap(i * N + j, (M - 1 - i) * N + j);
                }
            }
            m
        }
        4 => {
            // rotate every row by one through row_mut
            for i in 0..M {
                m.row_mut(i).as_mut_array().rotate_left(1);
                want[i * N..(i + 1) * N].rotate_left(1);
            }
            m
        }
        5 => {
            let i = ctx.choose(M);
            let j = ctx.choose(N);
            m[(i, j)] = fresh;
            want[i * N + j] = fresh;
            m
        }
        6 => {
            let l: Vec<u32> = m.iter().copied().collect();
            for (x, y) in m.iter_mut().zip(l.iter().rev()) {
                *x = *y;
            }
            want.reverse();
            m
        }
        _ => {
            let cols: Vec<Vector<u32, M>> = (0..N).map(|j| m.col(j)).collect();
            Matrix::<u32, N, M>::try_from_iter_of_vectors(cols.into_iter()).unwrap().transpose()
        }
    }
}
fn history<const M: usize, const N: usize>(ctx: &mut Ctx) {
    enum E<const M: usize, const N: usize> {
        A(Matrix<u32, M, N>),
        B(Matrix<u32, N, M>),
    }
    let depth = if ctx.thorough() { 5 } else { 4 };
    let mut want: Vec<u32> = (0..(M * N) as u32).collect();
    let mut m = E::A(Matrix::<u32, M, N>::try_from_iter(want.iter().copied()).unwrap());
    for d in 0..depth {
        let op = ctx.choose(9);
        ctx.note(|| format!("operation {}", op));
        let fresh = 100 + d as u32;
        m = match (m, op) {
            (E::A(x), 8) => {
                want = (0..M * N).map(|k| want[(k % M) * N + k / M]).collect();
                E::B(x.transpose())
            }
            (E::B(x), 8) => {
                want = (0..M * N).map(|k| want[(k % N) * M + k / N]).collect();
                E::A(x.transpose())
            }
            (E::A(x), _) => E::A(step(ctx, x, &mut want, op, fresh)),
            (E::B(x), _) => E::B(step(ctx, x, &mut want, op, fresh)),
        };
        ctx.ops(1);
        let got: Vec<u32> = match &m {
            E::A(x) => (0..M * N).map(|k| x[(k / N, k % N)]).collect(),
            E::B(x) => (0..M * N).map(|k| x[(k / M, k % M)]).collect(),
        };
        same!(ctx, got, want, "after step {} (operation {})", d, op);
        ctx.state(&want);
    }
}

fn build(r: &mut Reg) {
    each_n!(r, "vector", vector_paths<u32>, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 65, 129, 257, 300]);
    each_n!(r, "vector", vector_paths<u8>, [1, 2, 3, 4, 7, 8, 16, 17, 64]);
    each_n!(r, "vector", vector_paths<Odd>, [0, 1, 2, 3, 4, 5, 6]);
    each_n!(r, "vector", vector_paths<u128>, [1, 2, 3, 4, 5]);
    each_n!(r, "vector", vector_paths<Long>, [0, 1, 2, 3, 4, 5, 9]);
    each_n!(r, "two-writes", vector_two_writes, [1, 2, 3, 4, 5, 6]);
    each_n!(r, "vector-bounds", vector_bounds<u32>, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 32, 64, 255, 256, 257]);
    each_n!(r, "vector-bounds", vector_bounds<u8>, [1, 3, 4, 8, 16]);
    each_n!(r, "vector-addresses", vector_addresses<u32>, [0, 1, 2, 3, 4, 5, 8, 17]);
    each_n!(r, "vector-addresses", vector_addresses<Odd>, [0, 1, 2, 3, 4, 5, 8, 17]);
    each_n!(r, "vector-addresses", vector_addresses<Long>, [1, 2, 3, 4]);
    r.add("components/2", spec2);
    r.add("components/3", spec3);
    r.add("components/4", spec4);
    each_mn!(r, "matrix", matrix_paths<u32>, [
        0 x 0, 0 x 1, 0 x 3, 1 x 0, 3 x 0, 1 x 1, 1 x 2, 1 x 3, 1 x 4, 1 x 5, 2 x 1, 2 x 2, 2 x 3, 2 x 4, 2 x 5,
        3 x 1, 3 x 2, 3 x 3, 3 x 4, 3 x 5, 4 x 1, 4 x 2, 4 x 3, 4 x 4, 4 x 5, 5 x 1, 5 x 2, 5 x 3, 5 x 4, 5 x 5,
        6 x 6, 1 x 9, 9 x 1, 2 x 7, 7 x 2, 8 x 3, 3 x 8, 1 x 17, 17 x 1,
        1 x 65, 65 x 1, 9 x 8, 8 x 17, 16 x 17, 2 x 130, 130 x 2, 1 x 257, 257 x 1
    ]);
    each_mn!(r, "matrix", matrix_paths<Odd>, [1 x 1, 2 x 3, 3 x 2, 3 x 3, 4 x 4, 0 x 2, 2 x 0, 5 x 2]);
    each_mn!(r, "matrix", matrix_paths<u8>, [2 x 3, 3 x 3, 4 x 4, 8 x 2]);
    each_mn!(r, "matrix", matrix_paths<u128>, [2 x 3, 3 x 2, 3 x 3]);
    each_mn!(r, "matrix", matrix_paths<Long>, [1 x 1, 2 x 3, 3 x 2, 4 x 4, 2 x 0]);
    each_mn!(r, "matrix-bounds", matrix_bounds<u32>, [
        0 x 0, 0 x 2, 2 x 0, 1 x 1, 1 x 2, 2 x 1, 2 x 2, 2 x 3, 3 x 2, 3 x 3, 3 x 5, 5 x 3, 4 x 4, 1 x 8, 8 x 1, 8 x 8, 16 x 16
    ]);
    each_mn!(r, "matrix-bounds", matrix_bounds<u8>, [2 x 3, 3 x 2, 4 x 4]);
    each_mn!(r, "matrix-addresses", matrix_addresses<u32>, [1 x 1, 2 x 3, 3 x 2, 4 x 4, 0 x 3, 3 x 0, 5 x 2]);
    each_mn!(r, "matrix-addresses", matrix_addresses<Odd>, [1 x 1, 2 x 3, 3 x 2, 4 x 4, 0 x 3, 3 x 0, 5 x 2]);
    each_mn!(r, "matrix-addresses", matrix_addresses<Long>, [2 x 3, 3 x 2]);
    each_mn!(r, "held", held, [1 x 1, 1 x 3, 3 x 1, 2 x 2, 2 x 3, 3 x 2, 3 x 3, 4 x 4, 5 x 3]);
    each_mn!(r, "indices", index_tables, [
        0 x 0, 0 x 1, 1 x 0, 1 x 1, 1 x 2, 2 x 1, 2 x 2, 2 x 3, 3 x 2, 3 x 3, 3 x 4, 4 x 3, 4 x 4, 5 x 2, 2 x 5,
        5 x 5, 6 x 3, 3 x 6, 7 x 7, 1 x 33, 33 x 1, 16 x 16, 10 x 20, 100 x 3
    ]);
    each_mn!(r, "history", history, [1 x 2, 2 x 2, 2 x 3, 3 x 2, 3 x 3, 1 x 4]);
}

fn main() {
    mc::main(Check {
        prop: "C02",
        level: "model_checking",
        rule: "every execution = one constructor x one mutable access path x one position, then every read path; \
               plus every out-of-range index x access, every exchange of two held references, every history of \
               conversions. A state is a distinct arrangement of labels per scenario (all are non-trivial: labels \
               are pairwise distinct); a transition is one read, write or conversion compared with the flat list model.",
        assumptions: &[
            "operations are parametric in the element type, so distinct labels determine them (checked for five element sizes)",
            "dimensions are bounded by the listed ones",
        ],
        build,
    });
}
