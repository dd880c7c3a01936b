//! Histories: a container of owned elements and sequences of safe operations on it.
use crate::el::*;
use crate::*;
use std::convert::TryFrom;
use std::fmt::Debug;
use vecmat::matrix::FlatIter;
use vecmat::vector::GroupIter;
use vecmat::{Matrix, Vector};

fn want<E: El>(k: u32) -> u32 {
    if E::NAMED { k & 0xff } else { 0 }
}
fn arr<E: El, const N: usize>(from: u32) -> [E; N] {
    let mut k = from;
    [(); N].map(|_| {
        k += 1;
        E::make((k - 1) & 0xff)
    })
}
fn arr2<E: El, const M: usize, const N: usize>(from: u32) -> [[E; N]; M] {
    let mut k = from;
    [(); M].map(|_| {
        k += N as u32;
        arr(k - N as u32)
    })
}
/// Elements `from..from+len`, then nothing; panics instead of yielding element `boom`.
struct Src<E> {
    k: u32,
    left: usize,
    boom: usize,
    _e: std::marker::PhantomData<E>,
}
fn src<E: El>(k: u32, left: usize, boom: usize) -> Src<E> {
    Src { k, left, boom, _e: std::marker::PhantomData }
}
impl<E: El> Iterator for Src<E> {
    type Item = E;
    fn next(&mut self) -> Option<E> {
        fuse(&mut self.boom);
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        self.k += 1;
        Some(E::make((self.k - 1) & 0xff))
    }
}
fn fuse(boom: &mut usize) {
    if *boom == 0 {
        resume_unwind(Box::new(Injected));
    }
    *boom = boom.wrapping_sub(1);
}
const NEVER: usize = usize::MAX;
/// A fault position in `0..n`, or none.
fn fault(cx: &mut Cx, n: usize) -> usize {
    let k = cx.choose(n + 1);
    if k < n { k } else { NEVER }
}
/// The value, or `None` after the injected panic; any other panic is reported.
fn run<R>(cx: &mut Cx, what: &str, f: impl FnOnce() -> R) -> Option<R> {
    cx.ops += 1;
    match caught(f) {
        Ok(x) => Some(x),
        Err(true) => None,
        Err(false) => cx.fail(&format!("{} panics", what)),
    }
}
fn read<'a, E: El>(cx: &mut Cx, it: impl Iterator<Item = &'a E>) {
    for e in it {
        let k = e.key();
        if k == u32::MAX {
            cx.fail("an element does not read back (garbage, misplaced or torn)");
        }
        cx.mix(k as u64 + 1);
    }
}

/// What all owned element types offer.
pub trait Own: El + Clone + Debug + PartialEq + Default {}
impl<T: El + Clone + Debug + PartialEq + Default> Own for T {}

// ------------------------------------------------------------------ vectors

/// Operations after which a history may go on.
const FIRST: usize = 14;
const VOPS: usize = 22;
fn vop<E: Own, const N: usize>(cx: &mut Cx, mut v: Vector<E, N>, last: bool) -> Option<Vector<E, N>> {
    let op = cx.choose(if last { VOPS } else { FIRST });
    cx.mix(op as u64 + 1000);
    Some(match op {
        0 => {
            let mut b = fault(cx, N);
            let mut k = 0;
            run(cx, "init", || Vector::<E, N>::init(|| { fuse(&mut b); k += 1; E::make(k) }))?
        }
        1 => {
            let len = cx.choose(N + 2);
            let b = fault(cx, len.min(N) + 1);
            let mut s = src::<E>(3, len, b);
            let r = run(cx, "try_from_iter", || Vector::<E, N>::try_from_iter(&mut s))?;
            cx.mix(r.is_some() as u64);
            if r.is_some() != (len >= N) {
                cx.fail("try_from_iter success");
            }
            r?
        }
        2 => {
            let mut b = fault(cx, N);
            run(cx, "map", || v.map(|x| { fuse(&mut b); x }))?
        }
        3 => {
            // partially consumed owning iterator from both ends
            let front = cx.choose(N + 1);
            let back = cx.choose(N - front + 1);
            let mut it = v.into_iter();
            let mut keep = Vec::new();
            for _ in 0..front {
                keep.extend(it.next());
            }
            for _ in 0..back {
                keep.extend(it.next_back());
            }
            cx.ops += (front + back) as u64;
            read(cx, keep.iter());
            if cx.choose(2) == 0 {
                drop(it);
                read(cx, keep.iter());
                return None;
            }
            keep.extend(it);
            run(cx, "try_from_iter", || Vector::<E, N>::try_from_iter(keep.into_iter()))??
        }
        4 => {
            let w = Vector::<E, N>::from_array(arr(40));
            let (a, b) = run(cx, "zip/unzip", || v.zip(w).unzip())?;
            read(cx, a.iter());
            read(cx, b.iter());
            if cx.choose(2) == 0 { a } else { b }
        }
        5 => run(cx, "enumerate", || v.enumerate().unzip())?.1,
        6 => {
            let mut b = fault(cx, N);
            let w = run(cx, "scan", || v.scan(0u32, |s, x| { fuse(&mut b); *s += 1; x }))?;
            w
        }
        7 => {
            let a: [E; N] = v.into_array();
            read(cx, a.iter());
            a.into()
        }
        8 => {
            for x in v.iter_mut() {
                *x = E::make(7);
            }
            if N > 0 {
                let i = cx.choose(N);
                v[i] = E::make(8);
                v.as_mut_array()[N - 1 - i] = E::make(9);
                std::mem::swap(&mut v.as_mut()[0], &mut E::make(10));
            }
            v
        }
        9 => {
            let w = v.clone();
            if w != v {
                cx.fail("clone differs");
            }
            drop(v);
            w
        }
        10 => {
            if N > 0 {
                let i = cx.choose(N);
                let j = cx.choose(N);
                v.as_mut_array().swap(i, j);
                if i != j {
                    let (a, b) = v.as_mut().split_at_mut(i.max(j));
                    std::mem::swap(&mut a[i.min(j)], &mut b[0]);
                }
            }
            v
        }
        11 => {
            // two shared views and one exclusive one after them
            let p: &[E; N] = (&v).into();
            let q = v.as_array();
            read(cx, p.iter());
            read(cx, q.iter());
            let m: &mut [E; N] = (&mut v).into();
            if N > 0 {
                m[N - 1] = E::make(11);
            }
            for x in &mut v {
                *x = E::make(x.key().wrapping_add(1) & 0xff);
            }
            v
        }
        12 => {
            // nested: vectors as elements
            let vv = Vector::<Vector<E, N>, 2>::from_array([v, Vector::from_array(arr(60))]);
            let [a, b] = vv.into_array();
            read(cx, a.iter());
            drop(a);
            b
        }
        13 => Vector::default(),
        14 => {
            // out of range: both directions of access panic and touch nothing
            let i = [N, N + 1, usize::MAX][cx.choose(3)];
            let r = caught(|| v[i].key());
            let w = caught(|| v[i] = E::make(1));
            if r.is_ok() || w.is_ok() {
                cx.fail("index out of range is accepted");
            }
            v
        }
        15 => {
            let mut b = fault(cx, N);
            run(cx, "for_each", || v.for_each(|x| { fuse(&mut b); x.key(); }));
            return None;
        }
        16 => {
            let mut b = fault(cx, N);
            let s = run(cx, "fold", || v.fold(0u32, |s, x| { fuse(&mut b); s + x.key() }))?;
            cx.mix(s as u64);
            return None;
        }
        17 => {
            let mut b = fault(cx, N.saturating_sub(1));
            cx.ops += 1;
            let r = caught(|| v.fold_first(|x, y| { fuse(&mut b); if x.key() % 2 == 0 { x } else { y } }));
            match r {
                Ok(x) => read(cx, std::iter::once(&x)),
                Err(true) => {}
                Err(false) if N == 0 => {}
                Err(false) => cx.fail("fold_first panics"),
            }
            return None;
        }
        18 => {
            let s = run(cx, "format", || format!("{:?}", v))?;
            cx.mix(s.len() as u64);
            v
        }
        19 => {
            // map to another size and alignment, then back
            let w = run(cx, "map", || v.map(|x| (x, 5u128)))?;
            let (a, b) = w.unzip();
            cx.mix(b.iter().map(|x| *x as u64).sum());
            a
        }
        20 => {
            let mut b = fault(cx, 2 * N);
            let g = cx.choose(2 * N + 2);
            let mut s = src::<E>(0, g, NEVER);
            let mut out = Vec::new();
            let mut gi = GroupIter::<_, N>::new(&mut s);
            for _ in 0..2 {
                match caught(|| { fuse(&mut b); gi.next() }) {
                    Ok(Some(x)) => out.push(x),
                    Ok(None) => break,
                    Err(true) => break,
                    Err(false) => cx.fail("grouping panics"),
                }
            }
            for x in &out {
                read(cx, x.iter());
            }
            v
        }
        _ => {
            let p = v.as_ptr();
            let q = v.iter().as_slice().as_ptr();
            if p != q {
                cx.fail("as_ptr is not the first element");
            }
            // the pointers of the safe API, used within their documented range
            for i in 0..N {
                let k = unsafe { (*v.as_ptr().add(i)).key() };
                let g = unsafe { v.get_unchecked(i).key() };
                if k != g {
                    cx.fail("pointer and reference disagree");
                }
                unsafe { *v.as_mut_ptr().add(i) = E::make(20) };
                unsafe { *v.get_unchecked_mut(i) = E::make(21 + i as u32) };
            }
            v
        }
    })
}
fn vector<E: Own, const N: usize, const D: usize>(cx: &mut Cx) {
    let z = ZD.with(|c| c.get());
    let depth = D;
    let mut v = Some(Vector::<E, N>::from_array(arr(1)));
    for d in 0..depth {
        let Some(x) = v else { break };
        v = vop(cx, x, d + 1 == depth);
        if let Some(x) = &v {
            read(cx, x.iter());
        }
    }
    drop(v);
    if ZD.with(|c| c.get()) < z {
        cx.fail("more zero-sized elements dropped than made");
    }
}

// ------------------------------------------------------------------ matrices

const MOPS: usize = 24;
fn mop<E: Own, const M: usize, const N: usize>(cx: &mut Cx, mut m: Matrix<E, M, N>, last: bool) -> Option<Matrix<E, M, N>> {
    let op = cx.choose(if last { MOPS } else { FIRST });
    cx.mix(op as u64 + 1000);
    Some(match op {
        0 => {
            let t = run(cx, "transpose", || m.transpose())?;
            read(cx, t.iter());
            for i in 0..M {
                for j in 0..N {
                    let _ = t[(j, i)].key();
                }
            }
            match cx.choose(3) {
                0 => return None,
                1 => run(cx, "transpose", || t.transpose())?,
                _ => {
                    // consume the transposed matrix part-way
                    let k = cx.choose(M * N + 1);
                    let mut it = t.into_iter();
                    for _ in 0..k {
                        if it.next().is_none() {
                            cx.fail("owning iteration ends early");
                        }
                    }
                    return None;
                }
            }
        }
        1 => {
            let len = cx.choose(M * N + 2);
            let b = fault(cx, len.min(M * N) + 1);
            let mut s = src::<E>(3, len, b);
            let r = run(cx, "try_from_iter", || Matrix::<E, M, N>::try_from_iter(&mut s))?;
            r?
        }
        2 => {
            let mut b = fault(cx, M * N);
            let mut k = 0;
            run(cx, "init", || Matrix::<E, M, N>::init(|| { fuse(&mut b); k += 1; E::make(k) }))?
        }
        3 => {
            let mut b = fault(cx, M * N);
            run(cx, "map", || m.map(|x| { fuse(&mut b); x }))?
        }
        4 => {
            let k = cx.choose(M * N + 2);
            let mut keep = Vec::new();
            let mut it = m.into_iter();
            for _ in 0..k {
                keep.extend(it.next());
            }
            if cx.choose(2) == 0 {
                drop(it);
                read(cx, keep.iter());
                return None;
            }
            keep.extend(it);
            read(cx, keep.iter());
            run(cx, "try_from_iter", || Matrix::<E, M, N>::try_from_iter(keep.into_iter()))??
        }
        5 => {
            let w = Matrix::<E, M, N>::from_array_of_arrays(arr2(40));
            let (a, b) = run(cx, "zip/unzip", || m.zip(w).unzip())?;
            read(cx, a.iter());
            read(cx, b.iter());
            if cx.choose(2) == 0 { a } else { b }
        }
        6 => {
            // every view, written through every exclusive view
            read(cx, m.as_array_of_arrays().iter().flatten());
            read(cx, m.as_vector_of_vectors().iter().flat_map(|r| r.iter()));
            read(cx, m.as_array_of_vectors().iter().flat_map(|r| r.iter()));
            let which = cx.choose(6);
            for i in 0..M {
                for j in 0..N {
                    let x = E::make((i * 16 + j) as u32 & 0xff);
                    match which {
                        0 => m.as_mut_array_of_arrays()[i][j] = x,
                        1 => m.as_mut_vector_of_vectors()[i][j] = x,
                        2 => m.as_mut_array_of_vectors()[i][j] = x,
                        3 => m[(i, j)] = x,
                        4 => m.row_mut(i)[j] = x,
                        _ => {
                            let a: &mut [[E; N]; M] = (&mut m).into();
                            a[i][j] = x;
                        }
                    }
                }
            }
            read(cx, m.as_array_of_arrays().iter().flatten());
            m
        }
        7 => {
            let k = cx.choose(M * N + 1);
            for x in m.iter_mut().take(k) {
                *x = E::make(x.key().wrapping_add(1) & 0xff);
            }
            // all exclusive references alive at once
            let mut all: Vec<&mut E> = m.iter_mut().collect();
            if all.len() != M * N {
                cx.fail("exclusive iteration length");
            }
            for x in all.iter_mut() {
                **x = E::make(5);
            }
            if let Some((f, r)) = all.split_first_mut() {
                for y in r {
                    std::mem::swap(*f, *y);
                }
            }
            m
        }
        8 => {
            let a = run(cx, "into_array_of_arrays", || m.into_array_of_arrays())?;
            read(cx, a.iter().flatten());
            if cx.choose(2) == 0 { a.into() } else { Matrix::from_array_of_vectors(a.map(Vector::from)) }
        }
        9 => {
            let a = run(cx, "into_array_of_vectors", || m.into_array_of_vectors())?;
            Matrix::from_vector_of_vectors(Vector::from_array(a))
        }
        10 => {
            let mut b = fault(cx, M * N);
            run(cx, "scan", || m.scan(0u32, |s, x| { fuse(&mut b); *s += 1; x }))?
        }
        11 => {
            let w = m.clone();
            if w != m {
                cx.fail("clone differs");
            }
            drop(m);
            w
        }
        12 => {
            let len = cx.choose(M + 2);
            let mut b = fault(cx, len.min(M) + 1);
            let mut k = 0;
            let rows = (0..len).map(|_| { fuse(&mut b); k += 1; Vector::<E, N>::from_array(arr(k)) });
            run(cx, "try_from_iter_of_vectors", || Matrix::<E, M, N>::try_from_iter_of_vectors(rows))??
        }
        13 => Matrix::default(),
        14 => {
            let bad = [(M, 0), (0, N), (M, N), (usize::MAX, 0), (0, usize::MAX)][cx.choose(5)];
            let r = caught(|| m[bad].key());
            let w = caught(|| m[bad] = E::make(1));
            let q = caught(|| m.row_ref(M).iter().count());
            let s = caught(|| m.row_mut(M).iter().count());
            if r.is_ok() || w.is_ok() || q.is_ok() || s.is_ok() {
                cx.fail("index out of range is accepted");
            }
            m
        }
        15 => {
            let mut b = fault(cx, M * N);
            run(cx, "for_each", || m.for_each(|x| { fuse(&mut b); x.key(); }));
            return None;
        }
        16 => {
            let s = run(cx, "fold", || m.fold(0u32, |s, x| s + x.key()))?;
            cx.mix(s as u64);
            return None;
        }
        17 => {
            cx.ops += 1;
            let mut b = fault(cx, (M * N).saturating_sub(1));
            match caught(|| m.fold_first(|x, y| { fuse(&mut b); if x.key() % 2 == 0 { x } else { y } })) {
                Ok(x) => read(cx, std::iter::once(&x)),
                Err(true) => {}
                Err(false) if M * N == 0 => {}
                Err(false) => cx.fail("fold_first panics"),
            }
            return None;
        }
        18 => {
            let s = run(cx, "format", || format!("{:?}", m))?;
            cx.mix(s.len() as u64);
            m
        }
        19 => {
            let w = run(cx, "map", || m.map(|x| (5u128, x)))?;
            let (a, b) = w.unzip();
            cx.mix(a.iter().map(|x| *x as u64).sum());
            b.transpose().transpose()
        }
        20 => {
            let k = cx.choose(M + 1);
            let rows: Vec<Vector<E, N>> = m.into_array_of_vectors().into_iter().take(k).collect();
            let n = cx.choose(k * N + 2);
            if let Some(mut f) = FlatIter::new(rows.into_iter()) {
                let mut keep = Vec::new();
                for _ in 0..n {
                    keep.extend(f.next());
                }
                drop(f);
                read(cx, keep.iter());
            }
            return None;
        }
        21 => {
            // shared references of all kinds alive at once
            let a: Vec<&E> = m.iter().collect();
            let b: Vec<&E> = (&m).into_iter().collect();
            let c: Vec<&E> = (0..M).flat_map(|i| m.row_ref(i).iter()).collect();
            for ((x, y), z) in a.iter().zip(&b).zip(&c) {
                if !std::ptr::eq(*x, *y) || !std::ptr::eq(*x, *z) || x.key() != y.key() {
                    cx.fail("views disagree");
                }
            }
            read(cx, a.into_iter());
            m
        }
        22 => {
            for i in 0..M {
                for j in 0..N {
                    let k = unsafe { (*m.as_ptr().add(i * N + j)).key() };
                    let g = unsafe { m.get_unchecked(i, j).key() };
                    if k != g || g != m[(i, j)].key() {
                        cx.fail("pointer and reference disagree");
                    }
                    unsafe { *m.as_mut_ptr().add(i * N + j) = E::make(20) };
                    unsafe { *m.get_unchecked_mut(i, j) = E::make(21 + (i * N + j) as u32) };
                }
            }
            m
        }
        _ => {
            // swap rows through the exclusive views
            if M > 0 {
                let i = cx.choose(M);
                m.as_mut_array_of_arrays().swap(0, i);
                m.as_mut_array_of_vectors().swap(i, M - 1);
                for (x, y) in m.row_mut(0).iter_mut().zip(arr::<E, N>(90)) {
                    *x = y;
                }
            }
            m
        }
    })
}
fn matrix<E: Own, const M: usize, const N: usize, const D: usize>(cx: &mut Cx) {
    let z = ZD.with(|c| c.get());
    let depth = D;
    let mut m = Some(Matrix::<E, M, N>::from_array_of_arrays(arr2(1)));
    for d in 0..depth {
        let Some(x) = m else { break };
        m = mop(cx, x, d + 1 == depth);
        if let Some(x) = &m {
            read(cx, x.iter());
        }
    }
    drop(m);
    if ZD.with(|c| c.get()) < z {
        cx.fail("more zero-sized elements dropped than made");
    }
}

// ------------------------------------------------------------------ copyable elements

pub trait Cp: El + Copy + Debug + PartialEq {}
impl<T: El + Copy + Debug + PartialEq> Cp for T {}
fn copies<E: Cp, const M: usize, const N: usize>(cx: &mut Cx) {
    let l: Vec<E> = (0..(M * N + 2) as u32).map(E::make).collect();
    let m = Matrix::<E, M, N>::from_array_of_arrays(arr2(0));
    let op = cx.choose(8);
    cx.ops += 1;
    match op {
        0 => {
            let n = cx.choose(M * N + 3);
            if let Ok(x) = Matrix::<E, M, N>::try_from(&l[..n]) {
                read(cx, x.iter());
            } else if n == M * N {
                cx.fail("slice of the right length refused");
            }
        }
        1 => {
            let n = cx.choose(N + 3);
            let ok = Vector::<E, N>::try_from(&l[..n.min(l.len())]).map(|x| read(cx, x.iter())).is_ok();
            if ok != (n.min(l.len()) == N) {
                cx.fail("slice length");
            }
        }
        2 => {
            for i in 0..M {
                read(cx, m.row(i).iter());
            }
            for j in 0..N {
                read(cx, m.col(j).iter());
            }
            if caught(|| m.row(M)).is_ok() || (M > 0 && caught(|| m.col(N)).is_ok()) {
                cx.fail("row or column out of range is accepted");
            }
        }
        3 => {
            let f = Matrix::<E, M, N>::fill(E::make(3));
            read(cx, f.iter());
            read(cx, Matrix::<E, M, N>::fill_ref(&E::make(4)).iter());
            read(cx, Vector::<E, N>::fill(E::make(4)).iter());
        }
        4 => {
            let a: [[E; N]; M] = m.into();
            read(cx, Matrix::from(&a).iter());
            let b: [Vector<E, N>; M] = m.into();
            read(cx, Matrix::from(&b).iter());
            let c: Vector<Vector<E, N>, M> = m.into();
            read(cx, Matrix::from(&c).iter());
            let n = cx.choose(M + 2).min(M + 1);
            let mut s: Vec<Vector<E, N>> = b.to_vec();
            s.push(Vector::fill(E::make(9)));
            if Matrix::<E, M, N>::try_from(&s[..n]).map(|x| read(cx, x.iter())).is_ok() != (n == M) {
                cx.fail("slice of rows length");
            }
        }
        5 => {
            let (a, b) = (m, m);
            read(cx, a.transpose().transpose().iter());
            read(cx, b.transpose().iter());
        }
        6 => {
            let x = Matrix::<(usize, usize), M, N>::indices();
            for (k, (i, j)) in x.iter().enumerate() {
                if i * N + j != k {
                    cx.fail("index table");
                }
            }
            let y = Vector::<usize, N>::indices();
            cx.mix(y.iter().sum::<usize>() as u64);
        }
        _ => {
            let mut w = m;
            let mut v = Vector::<E, N>::fill(E::make(1));
            for (i, x) in w.iter_mut().enumerate() {
                *x = E::make(i as u32);
            }
            if M > 0 {
                v = *w.row_ref(M - 1);
                *w.row_mut(0) = v;
            }
            read(cx, w.iter());
            read(cx, v.iter());
        }
    }
}
macro_rules! named {
    ($f:ident, $n:literal, $(($r:ident $m:ident $c:ident $i:literal))*) => {
        fn $f<E: Own + Copy>(cx: &mut Cx) {
            let mut v = Vector::<E, $n>::from_array(arr(1));
            $(
                let _ = v.$c().key();
                let k = v.$r().key();
                if k != want::<E>($i + 1) { cx.fail(concat!(stringify!($r), " is another element")); }
                *v.$m() = E::make(30 + $i);
            )*
            read(cx, v.iter());
            // whole histories of component writes
            for _ in 0..2 {
                match cx.choose($n) {
                    $( $i => { let p = v.$m(); *p = E::make(50); let q = v.$r(); let _ = q.key(); } )*
                    _ => unreachable!(),
                }
                cx.ops += 1;
                read(cx, v.iter());
            }
        }
    };
}
named!(named2, 2, (x_ref x_mut x 0)(y_ref y_mut y 1));
named!(named3, 3, (x_ref x_mut x 0)(y_ref y_mut y 1)(z_ref z_mut z 2));
named!(named4, 4, (x_ref x_mut x 0)(y_ref y_mut y 1)(z_ref z_mut z 2)(w_ref w_mut w 3));

/// Element operations that panic part-way through arithmetic on owned elements.
#[derive(Debug, PartialEq, Clone)]
struct Num(Box<u32>);
thread_local!(static BOOM: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) });
fn tick() {
    BOOM.with(|b| {
        let k = b.get();
        if k == 0 {
            b.set(NEVER);
            resume_unwind(Box::new(Injected));
        }
        b.set(k.wrapping_sub(1));
    })
}
impl std::ops::Add for Num {
    type Output = Num;
    fn add(self, o: Num) -> Num {
        tick();
        Num(Box::new(*self.0 + *o.0))
    }
}
impl std::ops::Mul for Num {
    type Output = Num;
    fn mul(self, o: Num) -> Num {
        tick();
        Num(Box::new(self.0.wrapping_mul(*o.0)))
    }
}
impl std::ops::Neg for Num {
    type Output = Num;
    fn neg(self) -> Num {
        tick();
        self
    }
}
impl std::ops::AddAssign for Num {
    fn add_assign(&mut self, o: Num) {
        tick();
        *self.0 += *o.0;
    }
}
fn arith<const M: usize, const N: usize>(cx: &mut Cx) {
    let mk = || Matrix::<Num, M, N>::from_array_of_arrays(arr2::<Bx, M, N>(1).map(|r| r.map(Num)));
    let vk = || Vector::<Num, N>::from_array(arr::<Bx, N>(1).map(Num));
    let op = cx.choose(6);
    let boom = fault(cx, if op == 4 { 2 * N } else { M * N });
    BOOM.with(|b| b.set(boom));
    let (mut m, mut v) = (mk(), vk());
    let (m2, v2) = (mk(), vk());
    let r = match op {
        0 => run(cx, "add", move || { let _ = m + m2; let _ = v + v2; }),
        1 => run(cx, "neg", move || { let _ = -m; let _ = -v; }),
        2 => run(cx, "add_assign", || { m += m2; v += v2; }).map(|_| { drop(m); drop(v); }),
        3 => run(cx, "scalar mul via map", move || { let _ = m.map(|x| x * Num(Box::new(2))); }),
        4 => run(cx, "dot", move || { use vecmat::traits::Dot; let _ = if N > 0 { Some(v.dot(v2)) } else { None }; }),
        _ => run(cx, "fold", move || { let _ = v.zip(v2).fold(Num(Box::new(0)), |a, (x, y)| a + x * y); }),
    };
    cx.mix(r.is_some() as u64);
    BOOM.with(|b| b.set(NEVER));
}

/// The rest of the numeric API, once per dimension: none of it may touch foreign memory either.
fn numeric<const M: usize, const N: usize>(cx: &mut Cx) {
    use vecmat::traits::Outer;
    use vecmat::traits::Dot;
    let op = cx.choose(10);
    cx.ops += 1;
    let v = Vector::<i32, N>::from_array(arr::<u8, N>(1).map(|x| x as i32 - 2));
    let w = Vector::<i32, M>::from_array(arr::<u8, M>(1).map(|x| x as i32 - 1));
    let m = Matrix::<i32, M, N>::from_array_of_arrays(arr2::<u8, M, N>(1).map(|r| r.map(|x| x as i32 - 3)));
    let seen = |cx: &mut Cx, it: &mut dyn Iterator<Item = i32>| {
        for x in it {
            cx.mix(x as u64);
        }
    };
    match op {
        0 => seen(cx, &mut (v + v * 2 - -v).into_iter()),
        1 => {
            let mut a = m;
            a += m;
            a -= m * 2;
            a *= 3;
            a = a & m | !m;
            seen(cx, &mut a.into_iter())
        }
        2 => seen(cx, &mut [v.min(), v.max(), m.min(), m.max(), v.dot(v)].into_iter()),
        3 => seen(cx, &mut m.dot(v).into_iter()),
        4 => seen(cx, &mut w.dot(m).into_iter()),
        5 => seen(cx, &mut m.dot(m.transpose()).into_iter()),
        6 => seen(cx, &mut w.outer(v).into_iter()),
        7 => {
            let a = m.veq(m).all() && m.vlt(m + Matrix::fill(1)).any();
            seen(cx, &mut [a as i32, (v == v) as i32, v.vle(v).all() as i32].into_iter())
        }
        8 => {
            let s = format!("{:?} {} {:?} {}", v, v, m, m);
            cx.mix(s.len() as u64)
        }
        _ => {
            let a: Vector<i32, N> = [v, v, v].into_iter().sum();
            let b: Matrix<i32, M, N> = [m, m].into_iter().product();
            seen(cx, &mut a.into_iter());
            seen(cx, &mut b.into_iter())
        }
    }
}
fn square<const N: usize>(cx: &mut Cx) {
    use vecmat::traits::Dot;
    let k = cx.choose(3);
    let m = Matrix::<f64, N, N>::from_array_of_arrays(arr2::<u8, N, N>(1).map(|r| r.map(|x| ((x as usize * (7 + k)) % 11) as f64)));
    cx.ops += 3;
    cx.mix(m.det().to_bits());
    let c = m.cofactor(cx.choose(N), cx.choose(N));
    cx.mix(c.to_bits());
    for x in m.inv().dot(m).into_iter().chain(m.adj()).chain(m.inv().transpose()) {
        cx.mix((x * 16.0).round() as i64 as u64);
    }
}

pub fn register(l: &mut List, thorough: bool) {
    macro_rules! v { ($t:ty: $($n:literal ^ $d:literal),*) => { $( l.push((format!("vector<{}>/{}^{}", stringify!($t), $n, $d), vector::<$t, $n, $d>, if $d > 1 { FIRST } else { 1 })); )* } }
    macro_rules! m { ($t:ty: $($a:literal x $b:literal ^ $d:literal),*) => { $( l.push((format!("matrix<{}>/{}x{}^{}", stringify!($t), $a, $b, $d), matrix::<$t, $a, $b, $d>, if $d > 1 { FIRST } else { 1 })); )* } }
    macro_rules! c { ($t:ty: $($a:literal x $b:literal),*) => { $( l.push((format!("copies<{}>/{}x{}", stringify!($t), $a, $b), copies::<$t, $a, $b>, 1)); )* } }
    macro_rules! a { ($($a:literal x $b:literal),*) => { $( l.push((format!("arith/{}x{}", $a, $b), arith::<$a, $b>, 1)); )* } }
    macro_rules! d { ($($t:ty),*) => { $(
        l.push((format!("named<{}>/2", stringify!($t)), named2::<$t>, 1));
        l.push((format!("named<{}>/3", stringify!($t)), named3::<$t>, 1));
        l.push((format!("named<{}>/4", stringify!($t)), named4::<$t>, 1));
    )* } }
    // the longest first, so that the workers end together
    if thorough {
        v!(Bx: 1 ^ 3, 2 ^ 3, 3 ^ 2, 4 ^ 2, 0 ^ 2, 8 ^ 1);
        v!(Al: 1 ^ 2, 2 ^ 2, 3 ^ 1);
        v!(Pad: 2 ^ 2, 3 ^ 1);
        v!(Zd: 1 ^ 2, 2 ^ 2, 0 ^ 2, 3 ^ 1);
        v!(u64: 2 ^ 2, 1 ^ 2, 3 ^ 1, 8 ^ 1);
        m!(Bx: 1 x 2 ^ 2, 2 x 2 ^ 2, 2 x 3 ^ 2, 3 x 2 ^ 2, 1 x 1 ^ 2, 0 x 2 ^ 2, 2 x 0 ^ 2, 4 x 4 ^ 1, 5 x 2 ^ 1);
        m!(Pad: 2 x 1 ^ 2, 2 x 4 ^ 1, 4 x 2 ^ 1);
        m!(u64: 2 x 2 ^ 1, 5 x 2 ^ 1, 1 x 5 ^ 1);
        m!(u8: 2 x 1 ^ 2, 1 x 2 ^ 2);
        m!(Al: 2 x 2 ^ 1, 1 x 4 ^ 1);
        m!(Zd: 1 x 1 ^ 2, 2 x 2 ^ 1, 4 x 4 ^ 1, 2 x 0 ^ 2);
        c!(u128: 2 x 3, 4 x 4);
        c!(u16: 5 x 5, 1 x 8);
        a!(3 x 3, 1 x 5, 4 x 2);
    }
    v!(Bx: 2 ^ 2);
    m!(Bx: 2 x 1 ^ 2);
    v!(Bx: 5 ^ 1, 4 ^ 1, 3 ^ 1, 1 ^ 1, 0 ^ 1);
    m!(Bx: 3 x 3 ^ 1, 2 x 3 ^ 1, 3 x 2 ^ 1, 2 x 2 ^ 1, 1 x 2 ^ 1, 1 x 1 ^ 1, 0 x 0 ^ 1, 0 x 2 ^ 1, 2 x 0 ^ 1, 1 x 3 ^ 1, 3 x 1 ^ 1);
    v!(u8: 5 ^ 1, 2 ^ 1);
    v!(Al: 4 ^ 1, 1 ^ 1);
    v!(Zd: 5 ^ 1, 2 ^ 1, 0 ^ 1);
    v!(Pad: 4 ^ 1);
    v!(Big: 3 ^ 1, 1 ^ 1);
    m!(Big: 2 x 3 ^ 1, 2 x 1 ^ 1);
    m!(u8: 4 x 3 ^ 1, 2 x 3 ^ 1, 3 x 2 ^ 1, 2 x 1 ^ 1);
    m!(Al: 2 x 3 ^ 1, 3 x 1 ^ 1);
    m!(Zd: 2 x 3 ^ 1, 3 x 2 ^ 1, 0 x 2 ^ 1, 1 x 1 ^ 1);
    m!(Pad: 3 x 2 ^ 1, 2 x 2 ^ 1);
    c!(u8: 2 x 3, 3 x 2, 0 x 0, 1 x 1);
    c!(u64: 2 x 2, 0 x 3, 3 x 0, 3 x 3);
    c!(NonZero: 2 x 3, 1 x 4);
    c!(Za: 2 x 2, 3 x 1);
    d!(u8, u64, Za, u128);
    a!(1 x 1, 2 x 2, 2 x 3, 3 x 2, 0 x 2);
    macro_rules! u { ($($a:literal x $b:literal),*) => { $( l.push((format!("numeric/{}x{}", $a, $b), numeric::<$a, $b>, 1)); )* } }
    u!(1 x 1, 2 x 3, 3 x 2, 4 x 4);
    l.push(("square/1".into(), square::<1>, 1));
    l.push(("square/2".into(), square::<2>, 1));
    l.push(("square/3".into(), square::<3>, 1));
}
type NonZero = std::num::NonZeroU32;
