//! C01: every element is moved or dropped exactly once, on every path.
use mc::tok::{self, *};
use mc::*;
use std::collections::VecDeque;
use vecmat::matrix::FlatIter;
use vecmat::vector::GroupIter;
use vecmat::{Complex, Matrix, Quaternion, Vector};

fn arr<E: Elem, const N: usize>() -> [E; N] {
    std::array::from_fn(|_| E::make())
}
fn vec_<E: Elem, const N: usize>() -> Vector<E, N> {
    Vector::from_array(arr())
}
fn mat<E: Elem, const M: usize, const N: usize>() -> Matrix<E, M, N> {
    Matrix::from_array_of_arrays(std::array::from_fn(|_| arr()))
}
fn vids<E: Elem, const N: usize>(v: &Vector<E, N>) -> Vec<u32> {
    v.as_array().iter().map(|e| e.id()).collect()
}
fn mids<E: Elem, const M: usize, const N: usize>(m: &Matrix<E, M, N>) -> Vec<u32> {
    m.as_vector_of_vectors().as_array().iter().flat_map(|r| vids(r)).collect()
}
fn seq<E: Elem>(from: usize, n: usize) -> Vec<u32> {
    (from..from + n).map(|i| if E::NAMED { i as u32 } else { 0 }).collect()
}
/// Which of `n + 1` faults: a panic at tick 0..n, or none.
fn fault(ctx: &mut Ctx, n: usize) -> bool {
    let k = ctx.choose(n + 1);
    if k < n {
        ctx.note(|| format!("panic injected at element operation {}", k));
        tok::arm(k as i64);
        true
    } else {
        false
    }
}
/// Runs `f`; a panic other than the injected one is a violation.
fn guarded<R>(ctx: &mut Ctx, armed: bool, what: &str, f: impl FnOnce() -> R) -> Option<R> {
    let r = attempt(f);
    tok::disarm();
    ctx.ops(1);
    match r {
        Outcome::Value(x) => Some(x),
        Outcome::Injected => {
            ensure!(ctx, armed, "{}: injected panic without fault", what);
            None
        }
        Outcome::Panicked(m) => ctx.fail(format!("{}: {}", what, m)),
    }
}

/// A source iterator: `len` elements, an optional gap after `gap` elements, a panic by `tick`,
/// and one of several (possibly wrong) size hints.
struct Src<E> {
    left: usize,
    gap: Option<usize>,
    hint: usize,
    pulled: std::rc::Rc<std::cell::Cell<usize>>,
    _e: std::marker::PhantomData<E>,
}
impl<E: Elem> Iterator for Src<E> {
    type Item = E;
    fn next(&mut self) -> Option<E> {
        tok::tick();
        if self.gap == Some(0) {
            self.gap = None;
            return None;
        }
        if let Some(g) = &mut self.gap {
            *g -= 1;
        }
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        self.pulled.set(self.pulled.get() + 1);
        Some(E::make())
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.hint {
            0 => (0, None),
            1 => (self.left, Some(self.left)),
            2 => (self.left + 3, Some(self.left + 5)),
            _ => (0, Some(0)),
        }
    }
}

const VOPS: usize = 25;
fn vector_op<E: Own, const N: usize>(ctx: &mut Ctx) {
    let op = ctx.choose(VOPS);
    let mut leak = false;
    match op {
        0 => {
            leak = fault(ctx, N);
            if let Some(v) = guarded(ctx, leak, "init", || {
                Vector::<E, N>::init(|| {
                    tok::tick();
                    E::make()
                })
            }) {
                same!(ctx, vids(&v), seq::<E>(0, N), "init order");
                same!(ctx, tok::live(), N as i64, "live elements after init");
            }
        }
        1 => {
            let v = guarded(ctx, false, "default", || {
                if N % 2 == 0 { Vector::<E, N>::default() } else { Vector::<E, N>::new() }
            })
            .unwrap();
            same!(ctx, vids(&v), seq::<E>(0, N), "default order");
            same!(ctx, tok::live(), N as i64, "live elements after default");
        }
        2 => {
            let len = ctx.choose(N + 3);
            let hint = ctx.choose(4);
            let gap = ctx.choose(len + 2);
            let gap = if gap > len { None } else { Some(gap) };
            leak = fault(ctx, N.min(len + 1));
            ctx.note(|| format!("try_from_iter: source of {} elements, hint {}, gap {:?}", len, hint, gap));
            let pulled = std::rc::Rc::new(std::cell::Cell::new(0));
            let mut src = Src::<E> { left: len, gap, hint, pulled: pulled.clone(), _e: Default::default() };
            let avail = gap.map_or(len, |g| g.min(len));
            let r = guarded(ctx, leak, "try_from_iter", || Vector::<E, N>::try_from_iter(&mut src));
            if let Some(r) = r {
                match &r {
                    Some(v) => {
                        ensure!(ctx, avail >= N, "try_from_iter built {} elements from {}", N, avail);
                        same!(ctx, vids(v), seq::<E>(0, N), "try_from_iter order");
                        same!(ctx, tok::live(), N as i64, "live elements after try_from_iter");
                    }
                    None => {
                        ensure!(ctx, avail < N, "try_from_iter failed with {} of {} elements", avail, N);
                        same!(ctx, tok::live(), 0, "elements kept after a failed try_from_iter");
                    }
                }
            } else {
                leak = true;
            }
        }
        3 => {
            let mode = ctx.choose(3);
            leak = fault(ctx, N);
            let v = vec_::<E, N>();
            let when = ctx.flag();
            if mode == 0 {
                let r = guarded(ctx, leak, "map", || {
                    v.map(|e| {
                        if when {
                            tok::tick();
                        }
                        let e = e;
                        if !when {
                            tok::tick();
                        }
                        e
                    })
                });
                if let Some(r) = r {
                    same!(ctx, vids(&r), seq::<E>(0, N), "map keeps elements in place");
                }
            } else if mode == 1 {
                let r = guarded(ctx, leak, "map to fresh", || {
                    v.map(|_e| {
                        let n = E::make();
                        tok::tick();
                        n
                    })
                });
                if let Some(r) = r {
                    same!(ctx, vids(&r), seq::<E>(N, N), "map result order");
                    same!(ctx, tok::live(), N as i64, "live after map");
                }
            } else {
                let r = guarded(ctx, leak, "map to copy", || {
                    v.map(|e| {
                        tok::tick();
                        e.id()
                    })
                });
                if let Some(r) = r {
                    same!(ctx, r.into_array().to_vec(), seq::<E>(0, N), "map result order");
                    same!(ctx, tok::live(), 0, "live after map to copies");
                }
            }
        }
        4 => {
            let (a, b) = (vec_::<E, N>(), vec_::<E, N>());
            let z = guarded(ctx, false, "zip", || a.zip(b)).unwrap();
            same!(ctx, tok::live(), 2 * N as i64, "live after zip");
            let (l, r): (Vec<u32>, Vec<u32>) = z.as_array().iter().map(|(x, y)| (x.id(), y.id())).unzip();
            same!(ctx, l, seq::<E>(0, N), "zip left");
            same!(ctx, r, seq::<E>(N, N), "zip right");
            if ctx.flag() {
                let (a, b) = guarded(ctx, false, "unzip", || z.unzip()).unwrap();
                same!(ctx, vids(&a), seq::<E>(0, N), "unzip left");
                same!(ctx, vids(&b), seq::<E>(N, N), "unzip right");
                same!(ctx, tok::live(), 2 * N as i64, "live after unzip");
                if ctx.flag() {
                    drop(a);
                    same!(ctx, tok::live(), N as i64, "live after dropping the left half");
                }
            }
        }
        5 => {
            let z = vec_::<E, N>().zip(Vector::<u64, N>::fill(7));
            let (a, b) = guarded(ctx, false, "unzip", || z.unzip()).unwrap();
            same!(ctx, vids(&a), seq::<E>(0, N), "unzip left");
            same!(ctx, b.into_array(), [7u64; N], "unzip right");
        }
        6 => {
            let v = vec_::<E, N>();
            let r = guarded(ctx, false, "enumerate", || v.enumerate()).unwrap();
            same!(
                ctx,
                r.as_array().iter().map(|(i, e)| (*i, e.id())).collect::<Vec<_>>(),
                (0..N).zip(seq::<E>(0, N)).collect::<Vec<_>>(),
                "enumerate"
            );
            same!(ctx, tok::live(), N as i64, "live after enumerate");
        }
        7 => {
            leak = fault(ctx, N);
            let v = vec_::<E, N>();
            let mut seen = vec![];
            let r = guarded(ctx, leak, "for_each", || {
                v.for_each(|e| {
                    tok::tick();
                    seen.push(e.id());
                })
            });
            if r.is_some() {
                same!(ctx, seen, seq::<E>(0, N), "for_each order");
                same!(ctx, tok::live(), 0, "live after for_each");
            }
        }
        8 => {
            leak = fault(ctx, N);
            let v = vec_::<E, N>();
            let r = guarded(ctx, leak, "fold", || {
                v.fold(Vec::new(), |mut s: Vec<E>, e| {
                    tok::tick();
                    s.push(e);
                    s
                })
            });
            if let Some(r) = r {
                same!(ctx, r.iter().map(|e| e.id()).collect::<Vec<_>>(), seq::<E>(0, N), "fold order");
                same!(ctx, tok::live(), N as i64, "live after fold");
            }
        }
        9 => {
            if N == 0 {
                return;
            }
            leak = fault(ctx, N - 1);
            let keep = ctx.flag();
            let v = vec_::<E, N>();
            let r = guarded(ctx, leak, "fold_first", || {
                v.fold_first(|x, y| {
                    tok::tick();
                    if keep { x } else { y }
                })
            });
            if let Some(r) = r {
                same!(ctx, r.id(), if E::NAMED && !keep { N as u32 - 1 } else { 0 }, "fold_first element");
                same!(ctx, tok::live(), 1, "live after fold_first");
            }
        }
        10 => {
            leak = fault(ctx, N);
            let v = vec_::<E, N>();
            let r = guarded(ctx, leak, "scan", || {
                v.scan(Vec::new(), |s: &mut Vec<u32>, e| {
                    tok::tick();
                    s.push(e.id());
                    e
                })
            });
            if let Some(r) = r {
                same!(ctx, vids(&r), seq::<E>(0, N), "scan order");
                same!(ctx, tok::live(), N as i64, "live after scan");
            }
        }
        11 => {
            let take = ctx.choose(N + 2);
            let v = vec_::<E, N>();
            let mut it = v.into_iter();
            let mut got: Vec<E> = vec![];
            for _ in 0..take {
                got.extend(guarded(ctx, false, "into_iter next", || it.next()).unwrap());
            }
            same!(ctx, got.iter().map(|e| e.id()).collect::<Vec<_>>(), seq::<E>(0, take.min(N)), "into_iter order");
            same!(ctx, tok::live(), N as i64, "live while iterating");
            drop(it);
            same!(ctx, tok::live(), take.min(N) as i64, "live after dropping the iterator");
        }
        12 => {
            let v = vec_::<E, N>();
            let a = guarded(ctx, false, "into_array", || if N % 2 == 0 { v.into_array() } else { <[E; N]>::from(v) }).unwrap();
            same!(ctx, tok::live(), N as i64, "live after into_array");
            let v = Vector::from(a);
            same!(ctx, vids(&v), seq::<E>(0, N), "array round trip");
        }
        13 => {
            leak = fault(ctx, N);
            let v = vec_::<E, N>();
            let r = guarded(ctx, leak, "clone", || v.clone());
            if let Some(w) = r {
                same!(ctx, vids(&w), seq::<E>(N, N), "clone order");
                same!(ctx, tok::live(), 2 * N as i64, "live after clone");
                drop(v);
                same!(ctx, tok::live(), N as i64, "live after dropping the original");
            }
        }
        14 => {
            if N == 0 {
                return;
            }
            let i = ctx.choose(N);
            let how = ctx.choose(4);
            let mut v = vec_::<E, N>();
            let n = E::make();
            guarded(ctx, false, "assign element", || match how {
                0 => v[i] = n,
                1 => v.as_mut_array()[i] = n,
                2 => *v.iter_mut().nth(i).unwrap() = n,
                _ => {
                    let a: &mut [E; N] = (&mut v).into();
                    a[i] = n
                }
            });
            let mut want = seq::<E>(0, N);
            want[i] = if E::NAMED { N as u32 } else { 0 };
            same!(ctx, vids(&v), want, "after assigning element {}", i);
            same!(ctx, tok::live(), N as i64, "live after assigning");
        }
        15 => {
            leak = fault(ctx, N);
            let v = vec_::<E, N>();
            let r = guarded(ctx, leak, "neg", || -v);
            if let Some(r) = r {
                same!(ctx, vids(&r), seq::<E>(0, N), "neg order");
                same!(ctx, tok::live(), N as i64, "live after neg");
            }
        }
        16 => {
            leak = fault(ctx, N);
            let (v, w) = (vec_::<E, N>(), vec_::<E, N>());
            let r = guarded(ctx, leak, "add", || v + w);
            if let Some(r) = r {
                same!(ctx, vids(&r), seq::<E>(2 * N, N), "add order");
                same!(ctx, tok::live(), N as i64, "live after add");
            }
        }
        17 => {
            leak = fault(ctx, N);
            let (mut v, w) = (vec_::<E, N>(), vec_::<E, N>());
            let r = guarded(ctx, leak, "add assign", || v += w);
            if r.is_some() {
                same!(ctx, vids(&v), seq::<E>(2 * N, N), "add assign order");
                same!(ctx, tok::live(), N as i64, "live after add assign");
            }
        }
        18 => {
            if N == 0 {
                return;
            }
            let which = ctx.choose(3);
            leak = fault(ctx, N - 1);
            let v = vec_::<E, N>();
            let r = guarded(ctx, leak, "reduce", || match which {
                0 => v.sum(),
                1 => v.min(),
                _ => v.max(),
            });
            if r.is_some() {
                same!(ctx, tok::live(), 1, "live after reducing to one element");
            }
        }
        19 => {
            leak = fault(ctx, N);
            let r = guarded(ctx, leak, "zero", || <Vector<E, N> as num_traits::Zero>::zero());
            if let Some(r) = r {
                same!(ctx, vids(&r), seq::<E>(0, N), "zero order");
                let _ = guarded(ctx, false, "is_zero", || num_traits::Zero::is_zero(&r));
                same!(ctx, tok::live(), N as i64, "live after is_zero");
            }
        }
        20 => {
            let (v, w) = (vec_::<E, N>(), vec_::<E, N>());
            let which = ctx.choose(4);
            guarded(ctx, false, "compare", || match which {
                0 => v.veq(w),
                1 => v.vlt(w),
                2 => v.vge(w),
                _ => v.vne(w),
            });
            same!(ctx, tok::live(), 0, "live after comparing");
        }
        21 => {
            let len = ctx.choose(2 * N + 3);
            leak = fault(ctx, len + 1);
            let items = guarded(ctx, leak, "sum of sequence", || {
                (0..len.min(3))
                    .map(|_| {
                        tok::tick();
                        vec_::<E, N>()
                    })
                    .sum::<Vector<E, N>>()
            });
            if let Some(v) = items {
                same!(ctx, tok::live(), N as i64, "live after summing a sequence");
                drop(v);
            } else {
                leak = true;
            }
        }
        22 => {
            // grouping with partial consumption
            let len = ctx.choose(3 * N + 3);
            let pulls = ctx.choose(5);
            if N == 0 {
                let mut g = GroupIter::<_, 0>::new((0..len).map(|_| E::make()));
                for _ in 0..pulls {
                    let x = guarded(ctx, false, "group", || g.next()).unwrap();
                    ensure!(ctx, x.is_some(), "group of no elements");
                }
                same!(ctx, tok::live(), 0, "groups of no elements take none");
                return;
            }
            leak = fault(ctx, len + 1);
            let mut made = vec![];
            let mut g = GroupIter::<_, N>::new((0..len).map(|_| {
                tok::tick();
                E::make()
            }));
            let mut ended = false;
            for k in 0..pulls {
                let r = guarded(ctx, leak, "group", || g.next());
                match r {
                    None => break,
                    Some(None) => ended = true,
                    Some(Some(v)) => {
                        ensure!(ctx, !ended, "group after the end");
                        same!(ctx, vids(&v), seq::<E>(k * N, N), "group {}", k);
                        made.push(v);
                    }
                }
            }
            if !leak {
                same!(ctx, made.len(), pulls.min(len / N), "complete groups");
                same!(ctx, tok::live(), (made.len() * N) as i64, "live after grouping");
            }
        }
        23 => {
            let v = vec_::<E, N>();
            let k = ctx.choose(N + 1);
            let mut n = 0;
            for x in &v {
                if n == k {
                    break;
                }
                n += 1;
                same!(ctx, x.id(), if E::NAMED { n as u32 - 1 } else { 0 }, "iter");
            }
            same!(ctx, tok::live(), N as i64, "live after borrowing iteration");
            let b: Box<Vector<E, N>> = Box::new(v);
            let o = Some(*b);
            drop(o);
            same!(ctx, tok::live(), 0, "live after dropping");
        }
        _ => {
            // uninitialised storage filled by hand, as the documentation of `uninit` allows
            let mut u = Vector::<E, N>::uninit();
            for s in u.iter_mut() {
                *s = std::mem::MaybeUninit::new(E::make());
            }
            let v = guarded(ctx, false, "assume_init", || unsafe { u.assume_init() }).unwrap();
            same!(ctx, vids(&v), seq::<E>(0, N), "assume_init order");
            same!(ctx, tok::live(), N as i64, "live after assume_init");
            drop(v);
            let u = Vector::<E, N>::uninit();
            drop(u);
        }
    }
    ctx.state(&(op, tok::made(), tok::live(), leak));
    tok::settle(ctx, leak, "at the end");
}

const MOPS: usize = 20;
fn matrix_op<E: Own, const M: usize, const N: usize>(ctx: &mut Ctx) {
    let op = ctx.choose(MOPS);
    let mut leak = false;
    let k = M * N;
    match op {
        0 => {
            leak = fault(ctx, k);
            if let Some(m) = guarded(ctx, leak, "init", || {
                Matrix::<E, M, N>::init(|| {
                    tok::tick();
                    E::make()
                })
            }) {
                same!(ctx, mids(&m), seq::<E>(0, k), "init order");
                same!(ctx, tok::live(), k as i64, "live after init");
            }
        }
        1 => {
            let m = mat::<E, M, N>();
            let t = guarded(ctx, false, "transpose", || m.transpose()).unwrap();
            same!(ctx, tok::live(), k as i64, "live after transpose");
            let want: Vec<u32> =
                (0..N).flat_map(|j| (0..M).map(move |i| if E::NAMED { (i * N + j) as u32 } else { 0 })).collect();
            same!(ctx, mids(&t), want, "transpose");
            if ctx.flag() {
                let b = guarded(ctx, false, "transpose", || t.transpose()).unwrap();
                same!(ctx, mids(&b), seq::<E>(0, k), "transpose twice");
                same!(ctx, tok::live(), k as i64, "live after transposing twice");
            }
        }
        2 => {
            let m = mat::<E, M, N>();
            let a = guarded(ctx, false, "into_array_of_arrays", || m.into_array_of_arrays()).unwrap();
            let m = guarded(ctx, false, "from_array_of_arrays", || Matrix::from_array_of_arrays(a)).unwrap();
            let a = guarded(ctx, false, "into_array_of_vectors", || m.into_array_of_vectors()).unwrap();
            let m = guarded(ctx, false, "from_array_of_vectors", || Matrix::from_array_of_vectors(a)).unwrap();
            let a = guarded(ctx, false, "into_vector_of_vectors", || m.into_vector_of_vectors()).unwrap();
            let m = guarded(ctx, false, "from_vector_of_vectors", || Matrix::from_vector_of_vectors(a)).unwrap();
            let a: [[E; N]; M] = m.into();
            let m: Matrix<E, M, N> = a.into();
            let a: [Vector<E, N>; M] = m.into();
            let m: Matrix<E, M, N> = a.into();
            let a: Vector<Vector<E, N>, M> = m.into();
            let m: Matrix<E, M, N> = a.into();
            same!(ctx, mids(&m), seq::<E>(0, k), "conversions");
            same!(ctx, tok::live(), k as i64, "live after conversions");
        }
        3 => {
            let take = ctx.choose(k + 2);
            let m = mat::<E, M, N>();
            let mut it = m.into_iter();
            let mut got: Vec<E> = vec![];
            for _ in 0..take {
                got.extend(guarded(ctx, false, "into_iter next", || it.next()).unwrap());
            }
            same!(ctx, got.iter().map(|e| e.id()).collect::<Vec<_>>(), seq::<E>(0, take.min(k)), "into_iter order");
            same!(ctx, tok::live(), k as i64, "live while iterating");
            drop(it);
            same!(ctx, tok::live(), take.min(k) as i64, "live after dropping the iterator");
        }
        4 => {
            let len = ctx.choose(k + 3);
            leak = fault(ctx, k.min(len + 1));
            let pulled = std::rc::Rc::new(std::cell::Cell::new(0));
            let hint = ctx.choose(4);
            let mut src = Src::<E> { left: len, gap: None, hint, pulled: pulled.clone(), _e: Default::default() };
            let r = guarded(ctx, leak, "try_from_iter", || Matrix::<E, M, N>::try_from_iter(&mut src));
            match r {
                Some(Some(m)) => {
                    ensure!(ctx, len >= k, "built from too few elements");
                    same!(ctx, mids(&m), seq::<E>(0, k), "try_from_iter order");
                    same!(ctx, tok::live(), k as i64, "live after try_from_iter");
                }
                Some(None) => {
                    ensure!(ctx, len < k, "failed with enough elements");
                    same!(ctx, tok::live(), 0, "elements kept after failure");
                }
                None => {}
            }
        }
        5 => {
            let len = ctx.choose(M + 3);
            leak = fault(ctx, M.min(len + 1));
            let r = guarded(ctx, leak, "try_from_iter_of_vectors", || {
                Matrix::<E, M, N>::try_from_iter_of_vectors((0..len).map(|_| {
                    tok::tick();
                    vec_::<E, N>()
                }))
            });
            match r {
                Some(Some(m)) => {
                    ensure!(ctx, len >= M, "built from too few rows");
                    same!(ctx, mids(&m), seq::<E>(0, k), "try_from_iter_of_vectors order");
                    same!(ctx, tok::live(), k as i64, "live after try_from_iter_of_vectors");
                }
                Some(None) => {
                    ensure!(ctx, len < M, "failed with enough rows");
                    same!(ctx, tok::live(), 0, "rows kept after failure");
                }
                None => {}
            }
        }
        6 => {
            leak = fault(ctx, k);
            let mode = ctx.flag();
            let m = mat::<E, M, N>();
            let r = guarded(ctx, leak, "map", || {
                m.map(|e| {
                    tok::tick();
                    if mode { e } else { E::make() }
                })
            });
            if let Some(r) = r {
                same!(ctx, mids(&r), seq::<E>(if mode { 0 } else { k }, k), "map order");
                same!(ctx, tok::live(), k as i64, "live after map");
            }
        }
        7 => {
            let (a, b) = (mat::<E, M, N>(), mat::<E, M, N>());
            let z = guarded(ctx, false, "zip", || a.zip(b)).unwrap();
            same!(ctx, tok::live(), 2 * k as i64, "live after zip");
            let (a, b) = guarded(ctx, false, "unzip", || z.unzip()).unwrap();
            same!(ctx, mids(&a), seq::<E>(0, k), "unzip left");
            same!(ctx, mids(&b), seq::<E>(k, k), "unzip right");
            same!(ctx, tok::live(), 2 * k as i64, "live after unzip");
        }
        8 => {
            leak = fault(ctx, k);
            let m = mat::<E, M, N>();
            let mut seen = vec![];
            let r = guarded(ctx, leak, "for_each", || {
                m.for_each(|e| {
                    tok::tick();
                    seen.push(e.id())
                })
            });
            if r.is_some() {
                same!(ctx, seen, seq::<E>(0, k), "for_each order");
                same!(ctx, tok::live(), 0, "live after for_each");
            }
        }
        9 => {
            leak = fault(ctx, k);
            let m = mat::<E, M, N>();
            let r = guarded(ctx, leak, "fold", || {
                m.fold(Vec::new(), |mut s: Vec<E>, e| {
                    tok::tick();
                    s.push(e);
                    s
                })
            });
            if let Some(r) = r {
                same!(ctx, r.iter().map(|e| e.id()).collect::<Vec<_>>(), seq::<E>(0, k), "fold order");
            }
        }
        10 => {
            if k == 0 {
                return;
            }
            leak = fault(ctx, k - 1);
            let keep = ctx.flag();
            let m = mat::<E, M, N>();
            let r = guarded(ctx, leak, "fold_first", || {
                m.fold_first(|x, y| {
                    tok::tick();
                    if keep { x } else { y }
                })
            });
            if let Some(r) = r {
                same!(ctx, r.id(), if E::NAMED && !keep { k as u32 - 1 } else { 0 }, "fold_first element");
                same!(ctx, tok::live(), 1, "live after fold_first");
            }
        }
        11 => {
            leak = fault(ctx, k);
            let m = mat::<E, M, N>();
            let r = guarded(ctx, leak, "scan", || {
                m.scan(0usize, |s, e| {
                    tok::tick();
                    *s += 1;
                    e
                })
            });
            if let Some(r) = r {
                same!(ctx, mids(&r), seq::<E>(0, k), "scan order");
                same!(ctx, tok::live(), k as i64, "live after scan");
            }
        }
        12 => {
            leak = fault(ctx, k);
            let m = mat::<E, M, N>();
            if let Some(w) = guarded(ctx, leak, "clone", || m.clone()) {
                same!(ctx, mids(&w), seq::<E>(k, k), "clone order");
                same!(ctx, tok::live(), 2 * k as i64, "live after clone");
            }
        }
        13 => {
            if k == 0 {
                return;
            }
            let (i, j) = (ctx.choose(M), ctx.choose(N));
            let how = ctx.choose(5);
            let mut m = mat::<E, M, N>();
            let n = E::make();
            guarded(ctx, false, "assign element", || match how {
                0 => m[(i, j)] = n,
                1 => m.row_mut(i)[j] = n,
                2 => m.as_mut_array_of_arrays()[i][j] = n,
                3 => *m.iter_mut().nth(i * N + j).unwrap() = n,
                _ => m.as_mut_array_of_vectors()[i][j] = n,
            });
            let mut want = seq::<E>(0, k);
            want[i * N + j] = if E::NAMED { k as u32 } else { 0 };
            same!(ctx, mids(&m), want, "after assigning element ({}, {})", i, j);
            same!(ctx, tok::live(), k as i64, "live after assigning");
        }
        14 => {
            leak = fault(ctx, k);
            let (a, b) = (mat::<E, M, N>(), mat::<E, M, N>());
            let r = guarded(ctx, leak, "add", || a + b);
            if let Some(r) = r {
                same!(ctx, mids(&r), seq::<E>(2 * k, k), "add order");
                same!(ctx, tok::live(), k as i64, "live after add");
            }
        }
        15 => {
            leak = fault(ctx, k);
            let (mut a, b) = (mat::<E, M, N>(), mat::<E, M, N>());
            let r = guarded(ctx, leak, "add assign", || a += b);
            if r.is_some() {
                same!(ctx, mids(&a), seq::<E>(2 * k, k), "add assign order");
                same!(ctx, tok::live(), k as i64, "live after add assign");
            }
        }
        16 => {
            if k == 0 {
                return;
            }
            let which = ctx.choose(3);
            leak = fault(ctx, k - 1);
            let m = mat::<E, M, N>();
            let r = guarded(ctx, leak, "reduce", || match which {
                0 => m.sum(),
                1 => m.min(),
                _ => m.max(),
            });
            if r.is_some() {
                same!(ctx, tok::live(), 1, "live after reducing to one element");
            }
        }
        17 => {
            leak = fault(ctx, k);
            if let Some(z) = guarded(ctx, leak, "zero", || <Matrix<E, M, N> as num_traits::Zero>::zero()) {
                guarded(ctx, false, "is_zero", || num_traits::Zero::is_zero(&z));
                same!(ctx, tok::live(), k as i64, "live after zero");
                let n = guarded(ctx, false, "neg", || -z).unwrap();
                same!(ctx, mids(&n), seq::<E>(0, k), "neg order");
            }
        }
        18 => {
            let (a, b) = (mat::<E, M, N>(), mat::<E, M, N>());
            let which = ctx.choose(2);
            guarded(ctx, false, "compare", || if which == 0 { a.veq(b) } else { a.vle(b) });
            same!(ctx, tok::live(), 0, "live after comparing");
        }
        _ => {
            let mut u = Matrix::<E, M, N>::uninit();
            for s in u.iter_mut() {
                *s = std::mem::MaybeUninit::new(E::make());
            }
            let v = guarded(ctx, false, "assume_init", || unsafe { u.assume_init() }).unwrap();
            same!(ctx, mids(&v), seq::<E>(0, k), "assume_init order");
            same!(ctx, tok::live(), k as i64, "live after assume_init");
        }
    }
    ctx.state(&(op, tok::made(), tok::live(), leak));
    tok::settle(ctx, leak, "at the end");
}

/// Flattening nested sequences of owned elements, with partial consumption and faults.
fn flat<E: Own>(ctx: &mut Ctx) {
    let n = ctx.choose(4);
    let lens: Vec<usize> = (0..n).map(|_| ctx.choose(3)).collect();
    let total: usize = lens.iter().sum();
    let pulls = ctx.choose(total + 2);
    let leak = fault(ctx, n + 1);
    ctx.note(|| format!("flatten {:?}, {} pulls", lens, pulls));
    let ls = lens.clone();
    let it = guarded(ctx, leak, "flatten", || {
        FlatIter::new(ls.into_iter().map(|l| {
            tok::tick();
            (0..l).map(|_| E::make()).collect::<VecDeque<E>>()
        }))
    });
    let mut got: Vec<E> = vec![];
    if let Some(Some(mut it)) = it {
        if leak {
            tok::arm(1);
        }
        for _ in 0..pulls {
            match guarded(ctx, leak, "flatten next", || it.next()) {
                Some(x) => got.extend(x),
                None => break,
            }
        }
        if !leak {
            same!(ctx, got.len(), pulls.min(total), "number of flattened elements");
        }
    }
    ctx.state(&(lens, pulls, leak, got.len()));
    drop(got);
    tok::settle(ctx, leak, "at the end");
}

/// Numbers, tuples and other fixed-size holders.
fn holders<E: Own>(ctx: &mut Ctx) {
    let op = ctx.choose(8);
    match op {
        0 => {
            let c = Complex::new(E::make(), E::make());
            let (a, b) = guarded(ctx, false, "complex tuple", || c.into_tuple()).unwrap();
            let c = Complex::from_tuple((a, b));
            let v = c.into_vector();
            let c = Complex::from_vector(v);
            let a = c.into_array();
            same!(ctx, a.iter().map(|e| e.id()).collect::<Vec<_>>(), seq::<E>(0, 2), "complex conversions");
        }
        1 => {
            let c = Complex::from_array(arr::<E, 2>());
            let n = guarded(ctx, false, "into_num", || c.into_num()).unwrap();
            let c: Complex<E> = n.into();
            same!(ctx, (c.re_ref().id(), c.im_ref().id()), (seq::<E>(0, 2)[0], seq::<E>(0, 2)[1]), "num conversions");
        }
        2 => {
            let q = Quaternion::new(E::make(), E::make(), E::make(), E::make());
            let (w, v) = guarded(ctx, false, "scalar and vector", || q.into_scalar_and_vector3()).unwrap();
            let q = Quaternion::from_scalar_and_vector3(w, v);
            let t = q.into_tuple();
            let q = Quaternion::from_tuple(t);
            let v = q.into_vector();
            let q = Quaternion::from_vector(v);
            same!(ctx, q.into_array().iter().map(|e| e.id()).collect::<Vec<_>>(), seq::<E>(0, 4), "quaternion conversions");
        }
        3 => {
            let t = guarded(ctx, false, "tuple 2", || vec_::<E, 2>().into_tuple()).unwrap();
            same!(ctx, vids(&Vector::from(t)), seq::<E>(0, 2), "tuple 2");
        }
        4 => {
            let t = guarded(ctx, false, "tuple 3", || vec_::<E, 3>().into_tuple()).unwrap();
            same!(ctx, vids(&Vector::from(t)), seq::<E>(0, 3), "tuple 3");
        }
        5 => {
            let t = guarded(ctx, false, "tuple 4", || vec_::<E, 4>().into_tuple()).unwrap();
            same!(ctx, vids(&Vector::from(t)), seq::<E>(0, 4), "tuple 4");
        }
        6 => {
            use vecmat::complex::Moebius;
            let m = Moebius::new(E::make(), E::make(), E::make(), E::make());
            let t = guarded(ctx, false, "moebius tuple", || m.into_tuple()).unwrap();
            let m = Moebius::from_tuple(t);
            let a = m.into_array();
            let m = Moebius::from_array(a);
            let m = Moebius::from_matrix(m.into_matrix());
            same!(ctx, mids(&m.into_matrix()), seq::<E>(0, 4), "moebius conversions");
        }
        _ => {
            use vecmat::transform::{Chain, Linear, Shift};
            let c: Chain<Shift<E, 2>, Linear<E, 2>, Vector<E, 2>> =
                Chain::new(Shift::from_vector(vec_()), Linear::from_matrix(mat()));
            let (s, l) = guarded(ctx, false, "split", || c.split()).unwrap();
            same!(ctx, vids(&s.into_vector()), seq::<E>(0, 2), "chain outer");
            same!(ctx, mids(&l.into_matrix()), seq::<E>(2, 4), "chain inner");
        }
    }
    ctx.ops(4);
    ctx.state(&(op, tok::made()));
    tok::settle(ctx, false, "at the end");
}

/// All histories of operations over one vector and one square matrix against a model that is a
/// plain list of element names.
fn history<E: Own, const N: usize>(ctx: &mut Ctx) {
    let depth = if ctx.thorough() { 5 } else { 4 };
    let mut v = vec_::<E, N>();
    let mut mv: Vec<u32> = seq::<E>(0, N);
    let mut m = mat::<E, N, N>();
    let mut mm: Vec<u32> = seq::<E>(N, N * N);
    let name = |k: usize| if E::NAMED { k as u32 } else { 0 };
    for _ in 0..depth {
        let op = ctx.choose(12);
        ctx.note(|| format!("operation {}", op));
        ctx.ops(1);
        match op {
            0 => {
                let (a, b): (Vector<E, N>, Vector<usize, N>) = v.zip(Vector::indices()).unzip();
                v = a;
                same!(ctx, b.into_array().to_vec(), (0..N).collect::<Vec<_>>(), "indices");
            }
            1 => {
                m = m.transpose();
                mm = (0..N * N).map(|k| mm[(k % N) * N + k / N]).collect();
            }
            2 => {
                let l: Vec<E> = v.into_iter().collect();
                v = Vector::try_from_iter(l.into_iter().rev()).unwrap();
                mv.reverse();
            }
            3 => {
                let l: VecDeque<E> = m.into_iter().collect();
                m = Matrix::try_from_iter(l.into_iter()).unwrap();
            }
            4 => {
                // exchange a row with the vector
                let r = (N > 1) as usize;
                std::mem::swap(m.row_mut(r), &mut v);
                for j in 0..N {
                    std::mem::swap(&mut mm[r * N + j], &mut mv[j]);
                }
            }
            5 => {
                let base = tok::made();
                v[N - 1] = E::make();
                mv[N - 1] = name(base);
            }
            6 => {
                let base = tok::made();
                m[(N - 1, 0)] = E::make();
                mm[(N - 1) * N] = name(base);
            }
            7 => {
                let base = tok::made();
                m = m.map(|e| {
                    if e.id() % 2 == 0 { e } else { E::make() }
                });
                let mut k = base;
                for x in mm.iter_mut() {
                    if *x % 2 != 0 {
                        *x = name(k);
                        k += 1;
                    }
                }
            }
            8 => {
                v = v.enumerate().map(|(_, e)| e);
            }
            9 => {
                let base = tok::made();
                v = v.clone();
                mv = (0..N).map(|i| name(base + i)).collect();
            }
            10 => {
                // a failing construction in between must not disturb anything
                let short = Vector::<E, N>::try_from_iter((0..N - 1).map(|_| E::make()));
                ensure!(ctx, short.is_none(), "short source accepted");
            }
            _ => {
                let rows = m.into_array_of_vectors();
                m = Matrix::from(rows);
                let (a, b) = m.zip(Matrix::<u8, N, N>::fill(1)).unzip();
                m = a;
                ensure!(ctx, b.into_iter().all(|x| x == 1), "unzip");
            }
        }
        same!(ctx, vids(&v), mv, "vector contents");
        same!(ctx, mids(&m), mm, "matrix contents");
        same!(ctx, tok::live(), (N + N * N) as i64, "live elements");
        ctx.state(&(&mv, &mm));
    }
    drop(v);
    drop(m);
    tok::settle(ctx, false, "at the end");
}

/// Cloning into an existing container: its old elements are dropped once, the source keeps its own.
fn overwrite<E: Own, const M: usize, const N: usize>(ctx: &mut Ctx) {
    tok::reset();
    let flat = ctx.flag();
    let k = if flat { N } else { M * N };
    let leak = fault(ctx, k);
    if flat {
        let (v, mut w) = (vec_::<E, N>(), vec_::<E, N>());
        if guarded(ctx, leak, "clone_from", || w.clone_from(&v)).is_some() {
            same!(ctx, vids(&w), seq::<E>(2 * k, k), "clone_from order");
            same!(ctx, tok::live(), 2 * k as i64, "live after clone_from");
        }
        same!(ctx, vids(&v), seq::<E>(0, k), "clone_from leaves its source alone");
    } else {
        let (v, mut w) = (mat::<E, M, N>(), mat::<E, M, N>());
        if guarded(ctx, leak, "clone_from", || w.clone_from(&v)).is_some() {
            same!(ctx, mids(&w), seq::<E>(2 * k, k), "clone_from order");
            same!(ctx, tok::live(), 2 * k as i64, "live after clone_from");
        }
        same!(ctx, mids(&v), seq::<E>(0, k), "clone_from leaves its source alone");
    }
    tok::settle(ctx, leak, "clone_from");
}

fn build(r: &mut Reg) {
    each_n!(r, "vector", vector_op<Tok>, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 65]);
    each_n!(r, "vector", vector_op<Boxed>, [0, 1, 2, 3, 4, 5, 8, 16]);
    each_n!(r, "vector", vector_op<Wide>, [1, 2, 3, 4, 7]);
    each_n!(r, "vector", vector_op<Huge>, [0, 1, 2, 3, 5, 9]);
    each_n!(r, "vector", vector_op<Tiny>, [0, 1, 2, 3, 5, 8]);
    each_n!(r, "vector", vector_op<Zst>, [0, 1, 2, 3, 4, 8, 17]);
    each_mn!(r, "matrix", matrix_op<Tok>, [
        0 x 0, 0 x 1, 1 x 0, 0 x 3, 3 x 0, 1 x 1, 1 x 2, 2 x 1, 2 x 2, 1 x 3, 3 x 1, 2 x 3, 3 x 2, 3 x 3, 1 x 4, 4 x 1,
        2 x 4, 4 x 2, 3 x 4, 4 x 3, 4 x 4, 5 x 2, 2 x 5, 5 x 5, 1 x 16, 16 x 1, 2 x 9, 8 x 3, 9 x 8, 1 x 33, 33 x 1, 11 x 12
    ]);
    each_mn!(r, "matrix", matrix_op<Boxed>, [0 x 2, 1 x 1, 2 x 3, 3 x 2, 3 x 3, 4 x 4, 5 x 3]);
    each_mn!(r, "matrix", matrix_op<Wide>, [2 x 3, 3 x 1]);
    each_mn!(r, "matrix", matrix_op<Huge>, [0 x 2, 1 x 1, 2 x 3, 3 x 2, 1 x 5, 4 x 4]);
    each_mn!(r, "matrix", matrix_op<Tiny>, [2 x 0, 1 x 1, 2 x 3, 3 x 2, 5 x 1]);
    each_mn!(r, "matrix", matrix_op<Zst>, [0 x 3, 3 x 0, 2 x 2, 3 x 4]);
    r.add("flat<Tok>", flat::<Tok>);
    r.add("flat<Boxed>", flat::<Boxed>);
    r.add("flat<Tiny>", flat::<Tiny>);
    r.add("flat<Huge>", flat::<Huge>);
    r.add("flat<Zst>", flat::<Zst>);
    r.add("holders<Tok>", holders::<Tok>);
    r.add("holders<Boxed>", holders::<Boxed>);
    r.add("holders<Wide>", holders::<Wide>);
    r.add("holders<Tiny>", holders::<Tiny>);
    r.add("holders<Huge>", holders::<Huge>);
    r.add("holders<Zst>", holders::<Zst>);
    each_n!(r, "history", history<Tok>, [1, 2, 3, 4]);
    each_n!(r, "history", history<Boxed>, [2, 3]);
    each_n!(r, "history", history<Tiny>, [2]);
    each_n!(r, "history", history<Huge>, [2]);
    each_n!(r, "history", history<Zst>, [2]);
    each_mn!(r, "overwrite", overwrite<Tok>, [0 x 0, 1 x 1, 2 x 3, 3 x 2, 4 x 4]);
    each_mn!(r, "overwrite", overwrite<Boxed>, [1 x 1, 2 x 3]);
    each_mn!(r, "overwrite", overwrite<Huge>, [1 x 1, 2 x 3]);
    each_mn!(r, "overwrite", overwrite<Zst>, [2 x 2]);
}

fn main() {
    mc::main(Check {
        prop: "C01",
        level: "model_checking",
        rule: "one execution per choice sequence: element type x dimension x operation x source length x size hint x consumption point x position of one injected panic; histories of depth 4 (thorough 5) over 12 operations compared with a list model after each step",
        assumptions: &[
            "element type is generic in the library, so drop-counting elements stand for all of them (types of 0, 8 and 64 bytes, heap-allocated ones and ones with alignment 32 are enumerated)",
            "at most one injected panic per execution",
        ],
        build,
    });
}
