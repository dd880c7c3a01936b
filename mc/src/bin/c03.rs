//! C03: construction from iterators and slices, grouping, flattening.
use mc::*;
use std::cell::RefCell;
use std::convert::TryFrom;
use std::rc::Rc;
use vecmat::matrix::FlatIter;
use vecmat::vector::GroupIter;
use vecmat::{Matrix, Vector};

/// A scripted source: bit `true` = the next element, `false` = returns nothing once and then goes on.
/// After the script it returns nothing for ever. `taken` counts delivered elements.
struct Script {
    bits: Vec<bool>,
    pos: usize,
    taken: u32,
    hint: usize,
}
#[derive(Clone)]
struct Source(Rc<RefCell<Script>>);
impl Source {
    fn new(bits: Vec<bool>, hint: usize) -> Self {
        Source(Rc::new(RefCell::new(Script { bits, pos: 0, taken: 0, hint })))
    }
    fn plain(n: usize) -> Self {
        Source::new(vec![true; n], 0)
    }
    fn taken(&self) -> u32 {
        self.0.borrow().taken
    }
}
impl Iterator for Source {
    type Item = u32;
    fn next(&mut self) -> Option<u32> {
        let mut s = self.0.borrow_mut();
        let p = s.pos;
        if p >= s.bits.len() {
            return None;
        }
        s.pos += 1;
        if s.bits[p] {
            s.taken += 1;
            Some(s.taken - 1)
        } else {
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let s = self.0.borrow();
        let left = s.bits.len().saturating_sub(s.pos);
        match s.hint {
            0 => (0, None),
            1 => (0, Some(left)),
            // wrong hints must not matter for safe code
            2 => (left + 3, Some(left + 3)),
            3 => (0, Some(0)),
            _ => (usize::MAX, None),
        }
    }
}
/// The model: what `n` requests in a row give, stopping at the first nothing.
struct Model {
    bits: Vec<bool>,
    pos: usize,
    taken: u32,
}
impl Model {
    fn next(&mut self) -> Option<u32> {
        let b = self.bits.get(self.pos).copied();
        if b.is_some() {
            self.pos += 1;
        }
        if b == Some(true) {
            self.taken += 1;
            Some(self.taken - 1)
        } else {
            None
        }
    }
    fn group(&mut self, n: usize) -> Option<Vec<u32>> {
        let mut v = vec![];
        for _ in 0..n {
            v.push(self.next()?);
        }
        Some(v)
    }
}
fn script(ctx: &mut Ctx, max: usize, gaps: bool) -> Vec<bool> {
    let n = ctx.choose(max + 1);
    if !gaps {
        return vec![true; n];
    }
    (0..n).map(|_| ctx.choose(2) == 0).collect()
}
fn list<const N: usize>(v: Vector<u32, N>) -> Vec<u32> {
    v.into_array().to_vec()
}
fn mlist<const M: usize, const N: usize>(m: Matrix<u32, M, N>) -> Vec<u32> {
    m.into_array_of_arrays().iter().flatten().copied().collect()
}

fn vector_from<const N: usize>(ctx: &mut Ctx) {
    let gaps = ctx.flag();
    let bits = script(ctx, if gaps { (N + 2).min(if ctx.thorough() { 12 } else { 8 }) } else { N + 3 }, gaps);
    let hint = ctx.choose(5);
    let how = ctx.choose(4);
    ctx.note(|| format!("source {:?} hint {} way {}", bits, hint, how));
    let mut md = Model { bits: bits.clone(), pos: 0, taken: 0 };
    let want = md.group(N);
    let mut s = Source::new(bits, hint);
    let got: Option<Vector<u32, N>> = match how {
        0 => Vector::try_from_iter(&mut s),
        1 => Vector::try_from_iter(s.by_ref()),
        2 => Vector::try_from_iter(s.clone()),
        _ => Vector::try_from_iter(Box::new(s.clone()) as Box<dyn Iterator<Item = u32>>),
    };
    ctx.ops(1);
    same!(ctx, got.map(list), want, "Vector<_, {}>::try_from_iter", N);
    same!(ctx, s.taken(), md.taken, "elements taken from the source for dimension {}", N);
    ctx.state(&(want, md.taken));
}
/// Standard iterators (trusted lengths, specialised adaptors) as sources.
fn vector_from_std<const N: usize>(ctx: &mut Ctx) {
    let len = ctx.choose(N + 4);
    let l: Vec<u32> = (0..len as u32).collect();
    let kind = ctx.choose(9);
    let mut rest: Option<Vec<u32>> = None;
    let got: Option<Vector<u32, N>> = match kind {
        0 => {
            let mut it = l.iter().copied();
            let g = Vector::try_from_iter(&mut it);
            rest = Some(it.collect());
            g
        }
        1 => {
            let mut it = l.clone().into_iter();
            let g = Vector::try_from_iter(&mut it);
            rest = Some(it.collect());
            g
        }
        2 => {
            let mut it = 0..len as u32;
            let g = Vector::try_from_iter(&mut it);
            rest = Some(it.collect());
            g
        }
        3 => Vector::try_from_iter(l.iter().map(|x| *x)),
        4 => Vector::try_from_iter(l.iter().copied().zip(l.iter()).map(|(a, _)| a)),
        5 => Vector::try_from_iter(l.chunks(2).flatten().copied()),
        6 => Vector::try_from_iter(l.iter().copied().take(len)),
        7 => {
            let mut it = l.iter().copied().peekable();
            let g = Vector::try_from_iter(&mut it);
            rest = Some(it.collect());
            g
        }
        _ => Vector::try_from_iter(l.iter().copied().filter(|_| true)),
    };
    let want = if len >= N { Some(l[..N].to_vec()) } else { None };
    same!(ctx, got.map(list), want, "try_from_iter from {} elements (kind {})", len, kind);
    if let Some(r) = rest {
        let left = if len >= N { l[N..].to_vec() } else { vec![] };
        same!(ctx, r, left, "what is left of the source (kind {})", kind);
    }
    ctx.ops(1);
    ctx.state(&(len, kind));
}
fn matrix_from<const M: usize, const N: usize>(ctx: &mut Ctx) {
    let gaps = ctx.flag();
    let bits = script(ctx, if gaps { (M * N + 2).min(if ctx.thorough() { 12 } else { 8 }) } else { M * N + 3 }, gaps);
    let hint = ctx.choose(5);
    ctx.note(|| format!("source {:?} hint {}", bits, hint));
    let mut md = Model { bits: bits.clone(), pos: 0, taken: 0 };
    let want = md.group(M * N);
    let mut s = Source::new(bits, hint);
    let got = Matrix::<u32, M, N>::try_from_iter(&mut s);
    same!(ctx, got.map(mlist), want, "Matrix<_, {}, {}>::try_from_iter", M, N);
    same!(ctx, s.taken(), md.taken, "elements taken for a {}x{} matrix", M, N);
    ctx.ops(1);
    ctx.state(&(want, md.taken));
}
fn matrix_from_rows<const M: usize, const N: usize>(ctx: &mut Ctx) {
    let gaps = ctx.flag();
    let bits = script(ctx, if gaps { (M + 2).min(8) } else { M + 3 }, gaps);
    let hint = ctx.choose(5);
    let mut md = Model { bits: bits.clone(), pos: 0, taken: 0 };
    let row = |k: u32| -> [u32; N] { std::array::from_fn(|j| k * N as u32 + j as u32) };
    let want = md.group(M).map(|l| l.into_iter().flat_map(row).collect::<Vec<_>>());
    let s = Source::new(bits, hint);
    let got = Matrix::<u32, M, N>::try_from_iter_of_vectors(s.clone().map(|k| Vector::from_array(row(k))));
    same!(ctx, got.map(mlist), want, "Matrix<_, {}, {}>::try_from_iter_of_vectors", M, N);
    same!(ctx, s.taken(), md.taken, "rows taken for a {}x{} matrix", M, N);
    ctx.ops(1);
    ctx.state(&(want, md.taken));
}
fn vector_slice<const N: usize>(ctx: &mut Ctx) {
    let len = ctx.choose(2 * N + 3);
    let l: Vec<u32> = (0..len as u32).collect();
    let want = if len == N { Ok(l.clone()) } else { Err(()) };
    let got: Result<Vector<u32, N>, ()> = if ctx.flag() { Vector::try_from(&l[..]) } else { (&l[..]).try_into() };
    same!(ctx, got.map(list), want, "Vector<_, {}> from a slice of {}", N, len);
    ctx.ops(1);
    ctx.state(&(N, len));
}
fn matrix_slice<const M: usize, const N: usize>(ctx: &mut Ctx) {
    let len = ctx.choose(M * N + M + N + 3);
    let l: Vec<u32> = (0..len as u32).collect();
    let want = if len == M * N { Ok(l.clone()) } else { Err(()) };
    let got = Matrix::<u32, M, N>::try_from(&l[..]).map(mlist);
    same!(ctx, got, want, "Matrix<_, {}, {}> from a slice of {}", M, N, len);
    let k = ctx.choose(2 * M + 3);
    let rows: Vec<Vector<u32, N>> =
        (0..k).map(|i| Vector::from_array(std::array::from_fn(|j| (i * N + j) as u32))).collect();
    let want = if k == M { Ok((0..(M * N) as u32).collect::<Vec<_>>()) } else { Err(()) };
    let got = Matrix::<u32, M, N>::try_from(&rows[..]).map(mlist);
    same!(ctx, got, want, "Matrix<_, {}, {}> from a slice of {} rows", M, N, k);
    ctx.ops(2);
    ctx.state(&(len, k));
}

fn group<const N: usize>(ctx: &mut Ctx) {
    let gaps = ctx.flag();
    let bits = script(ctx, if gaps { if ctx.thorough() { 13 } else { 9 } } else { 3 * N + 3 }, gaps);
    let hint = ctx.choose(4);
    ctx.note(|| format!("source {:?} hint {}", bits, hint));
    let mut md = Model { bits: bits.clone(), pos: 0, taken: 0 };
    let s = Source::new(bits.clone(), hint);
    let mut g = GroupIter::<_, N>::new(s.clone());
    same!(ctx, s.taken(), 0, "elements taken before the first request");
    let calls = if N == 0 { 5 } else { bits.len() / N + bits.len() + 2 };
    for k in 0..calls {
        let want = md.group(N);
        let got = g.next().map(list);
        ctx.ops(1);
        same!(ctx, got, want, "group {} of {}", k, N);
        same!(ctx, s.taken(), md.taken, "elements taken after group {} of {}", k, N);
        ctx.state(&(want, md.taken, k));
    }
}
/// Groups through every way to drive an iterator.
fn group_drive<const N: usize>(ctx: &mut Ctx) {
    let len = ctx.choose(4 * N + 3);
    let l: Vec<u32> = (0..len as u32).collect();
    let want: Vec<Vec<u32>> = l.chunks_exact(N).map(|c| c.to_vec()).collect();
    let mut g = GroupIter::<_, N>::new(l.iter().copied());
    let skip = ctx.choose(want.len() + 1);
    for k in 0..skip {
        same!(ctx, g.next().map(list), Some(want[k].clone()), "group {}", k);
    }
    let rest = &want[skip..];
    let (lo, hi) = g.size_hint();
    ensure!(ctx, lo <= rest.len() && hi.map_or(true, |h| h >= rest.len()),
            "size hint {:?} with {} groups left", (lo, hi), rest.len());
    match ctx.choose(6) {
        0 => same!(ctx, g.map(list).collect::<Vec<_>>(), rest.to_vec(), "collect"),
        1 => same!(ctx, g.count(), rest.len(), "count"),
        2 => same!(ctx, g.last().map(list), rest.last().cloned(), "last"),
        3 => {
            let n = ctx.choose(rest.len() + 1);
            same!(ctx, g.nth(n).map(list), rest.get(n).cloned(), "nth({})", n);
            same!(ctx, g.next().map(list), rest.get(n + 1).cloned(), "after nth({})", n);
        }
        4 => {
            let f = g.fold(vec![], |mut a: Vec<Vec<u32>>, v| {
                a.push(list(v));
                a
            });
            same!(ctx, f, rest.to_vec(), "fold");
        }
        _ => {
            for w in rest {
                same!(ctx, g.next().map(list), Some(w.clone()), "next");
            }
            for _ in 0..3 {
                same!(ctx, g.next().map(list), None, "after the end");
            }
        }
    }
    ctx.ops(1);
    ctx.state(&(len, skip));
}

fn drive_flat<I: Iterator<Item = u32>>(ctx: &mut Ctx, mut f: I, want: &[u32], what: &str) {
    let skip = ctx.choose(want.len() + 1);
    for k in 0..skip {
        same!(ctx, f.next(), Some(want[k]), "{}: element {}", what, k);
    }
    let rest = &want[skip..];
    let (lo, hi) = f.size_hint();
    ensure!(ctx, lo <= rest.len() && hi.map_or(true, |h| h >= rest.len()),
            "{}: size hint {:?} with {} elements left", what, (lo, hi), rest.len());
    match ctx.choose(7) {
        0 => same!(ctx, f.collect::<Vec<_>>(), rest.to_vec(), "{}: collect", what),
        1 => same!(ctx, f.count(), rest.len(), "{}: count", what),
        2 => same!(ctx, f.last(), rest.last().copied(), "{}: last", what),
        3 => {
            let n = ctx.choose(rest.len() + 1);
            same!(ctx, f.nth(n), rest.get(n).copied(), "{}: nth({})", what, n);
            same!(ctx, f.next(), rest.get(n + 1).copied(), "{}: after nth({})", what, n);
        }
        4 => {
            let l = f.fold(vec![], |mut a, x| {
                a.push(x);
                a
            });
            same!(ctx, l, rest.to_vec(), "{}: fold", what);
        }
        5 => {
            // stop part-way through try_fold / find and go on
            if let Some(x) = rest.get(rest.len() / 2).copied() {
                same!(ctx, f.find(|y| *y == x), Some(x), "{}: find", what);
                same!(ctx, f.collect::<Vec<_>>(), rest[rest.len() / 2 + 1..].to_vec(), "{}: after find", what);
            }
        }
        _ => {
            for w in rest {
                same!(ctx, f.next(), Some(*w), "{}: next", what);
            }
            for _ in 0..3 {
                same!(ctx, f.next(), None, "{}: after the end", what);
            }
        }
    }
    ctx.ops(1);
}
fn flat(ctx: &mut Ctx) {
    let deep = ctx.thorough();
    let outer = ctx.choose(if deep { 7 } else { 6 });
    let mut seqs: Vec<Vec<u32>> = vec![];
    let mut k = 0;
    for _ in 0..outer {
        let n = ctx.choose(if outer <= 4 { 4 } else { 3 });
        seqs.push((k..k + n as u32).collect());
        k += n as u32;
    }
    let want: Vec<u32> = (0..k).collect();
    ctx.note(|| format!("{:?}", seqs));
    ctx.state(&seqs);
    macro_rules! go {
        ($it:expr, $e:expr) => {
            match FlatIter::new($it) {
                None => ensure!(ctx, outer == 0, "FlatIter::new of {} sequences is None", outer),
                Some(f) => {
                    ensure!(ctx, outer > 0, "FlatIter::new of no sequences is Some");
                    let g: fn(_) -> u32 = $e;
                    drive_flat(ctx, f.map(g), &want, "FlatIter")
                }
            }
        };
    }
    match ctx.choose(3) {
        0 => go!(seqs.clone().into_iter(), |x| x),
        1 => go!(seqs.iter(), |x: &u32| *x),
        _ => go!(seqs.iter().map(|s| s.iter().copied().filter(|_| true)), |x| x),
    }
}
fn matrix_iters<const M: usize, const N: usize>(ctx: &mut Ctx) {
    let want: Vec<u32> = (0..(M * N) as u32).collect();
    let mut m = Matrix::<u32, M, N>::init({
        let mut k = 0;
        move || {
            k += 1;
            k - 1
        }
    });
    match ctx.choose(5) {
        0 => drive_flat(ctx, m.into_iter(), &want, "into_iter"),
        1 => drive_flat(ctx, (&m).into_iter().copied(), &want, "&m"),
        2 => drive_flat(ctx, (&mut m).into_iter().map(|x| *x), &want, "&mut m"),
        3 => drive_flat(ctx, m.iter().copied(), &want, "iter"),
        _ => drive_flat(ctx, m.iter_mut().map(|x| *x), &want, "iter_mut"),
    }
    ctx.state(&(M, N));
}
/// Round trips: flatten then group, group then flatten.
fn round_trip<const N: usize>(ctx: &mut Ctx) {
    let len = ctx.choose(4 * N + 2);
    let l: Vec<u32> = (0..len as u32).collect();
    let whole = len / N * N;
    let got: Vec<u32> = match FlatIter::new(GroupIter::<_, N>::new(l.iter().copied())) {
        Some(f) => f.collect(),
        None => vec![],
    };
    same!(ctx, got, l[..whole].to_vec(), "flattened groups of {}", N);
    let cut = ctx.choose(len + 1);
    let parts = [l[..cut].to_vec(), vec![], l[cut..].to_vec()];
    let f = FlatIter::new(parts.into_iter()).unwrap();
    let got: Vec<u32> = GroupIter::<_, N>::new(f).flat_map(list).collect();
    same!(ctx, got, l[..whole].to_vec(), "grouped parts cut at {}", cut);
    ctx.ops(2);
    ctx.state(&(len, cut));
}

/// Several consumers take turns on one source.
fn consumers(ctx: &mut Ctx) {
    let gaps = ctx.flag();
    let bits = if gaps {
        // one or two interruptions anywhere in ten elements
        let mut b = vec![true; 10];
        let p = ctx.choose(11);
        b.insert(p, false);
        if ctx.flag() {
            let q = ctx.choose(12);
            b.insert(q, false);
        }
        b
    } else {
        vec![true; ctx.choose(14)]
    };
    let mut md = Model { bits: bits.clone(), pos: 0, taken: 0 };
    let mut s = Source::new(bits, 0);
    let mut g2 = GroupIter::<_, 2>::new(s.clone());
    for _ in 0..if ctx.thorough() { 5 } else { 4 } {
        let (got, want) = match ctx.choose(7) {
            0 => (Iterator::next(&mut s).map(|x| vec![x]), md.next().map(|x| vec![x])),
            1 => (Vector::<u32, 1>::try_from_iter(&mut s).map(list), md.group(1)),
            2 => (Vector::<u32, 3>::try_from_iter(&mut s).map(list), md.group(3)),
            3 => (g2.next().map(list), md.group(2)),
            4 => (Matrix::<u32, 2, 2>::try_from_iter(&mut s).map(mlist), md.group(4)),
            5 => (Vector::<u32, 0>::try_from_iter(&mut s).map(list), md.group(0)),
            _ => (Matrix::<u32, 1, 3>::try_from_iter(&mut s).map(mlist), md.group(3)),
        };
        ctx.ops(1);
        same!(ctx, got, want, "consumer result");
        same!(ctx, s.taken(), md.taken, "elements taken from the shared source");
        ctx.state(&(&want, md.pos));
    }
    let left: Vec<u32> = std::iter::from_fn(|| Iterator::next(&mut s)).collect();
    let want: Vec<u32> = std::iter::from_fn(|| md.next()).collect();
    same!(ctx, left, want, "rest of the shared source");
    let _ = Source::plain(0);
}

/// Sequences far longer than any of the other scenarios.
fn long(ctx: &mut Ctx) {
    let sizes = [100, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4097, 65_534, 65_535, 65_536, 65_537, 70_001];
    let n = *ctx.pick(&sizes);
    let kind = ctx.choose(9);
    ctx.note(|| format!("kind {kind}, length {n}"));
    ctx.state(&(n, kind));
    ctx.ops(n as u64);
    let l: Vec<u32> = (0..n as u32).collect();
    fn groups<const N: usize>(ctx: &mut Ctx, l: &[u32]) {
        let mut s = l.iter().copied();
        let got: Vec<u32> = GroupIter::<_, N>::new(s.by_ref()).flat_map(list).collect();
        same!(ctx, got, l[..l.len() / N * N].to_vec(), "groups of {} from {} elements", N, l.len());
    }
    match kind {
        0 => groups::<1>(ctx, &l),
        1 => groups::<2>(ctx, &l),
        2 => groups::<3>(ctx, &l),
        3 => groups::<17>(ctx, &l),
        4 | 5 => {
            // many short sequences, all of one element or some of them empty
            let mut at = 0;
            let parts: Vec<Vec<u32>> = (0..n)
                .map(|k| {
                    let len = if kind == 4 { 1 } else { [0, 2, 1, 0, 0, 3][k % 6] };
                    at += len as u32;
                    (at - len as u32..at).collect()
                })
                .collect();
            let want: Vec<u32> = (0..at).collect();
            let got: Vec<u32> = FlatIter::new(parts.into_iter()).unwrap().collect();
            same!(ctx, got, want, "{} sequences flattened", n);
        }
        6 => {
            // nothing but empty sequences before the last
            let parts = (0..n).map(|k| if k + 1 == n { vec![7u32, 8] } else { vec![] });
            let got: Vec<u32> = FlatIter::new(parts).unwrap().collect();
            same!(ctx, got, vec![7, 8], "{} sequences flattened of which only the last has elements", n);
        }
        7 => {
            let parts = [l.clone(), vec![], vec![1, 2]];
            let got: Vec<u32> = FlatIter::new(parts.into_iter()).unwrap().collect();
            same!(ctx, got, l.iter().copied().chain([1, 2]).collect::<Vec<_>>(), "a sequence of {} elements flattened", n);
        }
        _ => {
            // a long source takes part in building one value after another
            let mut s = l.iter().copied();
            let mut at = 0;
            while let Some(v) = Vector::<u32, 3>::try_from_iter(&mut s) {
                same!(ctx, list(v), l[at..at + 3].to_vec(), "vector built from elements {} of {}", at, n);
                at += 3;
                match Matrix::<u32, 2, 1>::try_from_iter(&mut s) {
                    Some(m) => same!(ctx, mlist(m), l[at..at + 2].to_vec(), "matrix built from elements {} of {}", at, n),
                    None => break,
                }
                at += 2;
            }
            ensure!(ctx, n - at < 3, "{} of {} elements were not taken", n - at, n);
        }
    }
}
fn build(r: &mut Reg) {
    r.add("long", long);
    each_n!(r, "vector-from-iter", vector_from, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 32, 33, 65]);
    each_n!(r, "vector-from-std", vector_from_std, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 32, 65, 257]);
    each_mn!(r, "matrix-from-iter", matrix_from, [
        0 x 0, 0 x 1, 0 x 3, 1 x 0, 3 x 0, 1 x 1, 1 x 2, 1 x 3, 2 x 1, 3 x 1, 2 x 2, 2 x 3, 3 x 2, 3 x 3, 2 x 4, 4 x 2,
        3 x 4, 4 x 3, 4 x 4, 5 x 5, 1 x 9, 9 x 1, 6 x 6, 9 x 8, 1 x 33, 33 x 1
    ]);
    each_mn!(r, "matrix-from-rows", matrix_from_rows, [
        0 x 0, 0 x 3, 3 x 0, 1 x 1, 1 x 3, 3 x 1, 2 x 2, 2 x 3, 3 x 2, 3 x 3, 4 x 3, 3 x 4, 4 x 4, 5 x 2, 8 x 3
    ]);
    each_n!(r, "vector-from-slice", vector_slice, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 33, 65, 129, 256, 257]);
    each_mn!(r, "matrix-from-slice", matrix_slice, [
        0 x 0, 0 x 1, 0 x 3, 1 x 0, 3 x 0, 1 x 1, 1 x 2, 1 x 3, 2 x 1, 3 x 1, 2 x 2, 2 x 3, 3 x 2, 3 x 3, 2 x 4, 4 x 2,
        4 x 4, 5 x 3, 3 x 5, 8 x 8, 9 x 8, 16 x 16, 1 x 65, 65 x 1
    ]);
    each_n!(r, "group", group, [0, 1, 2, 3, 4, 5, 8, 16, 33]);
    each_n!(r, "group-drive", group_drive, [1, 2, 3, 4, 5, 8]);
    r.add("flatten", flat);
    each_mn!(r, "matrix-iterators", matrix_iters, [
        0 x 0, 0 x 1, 0 x 3, 1 x 0, 3 x 0, 1 x 1, 1 x 4, 4 x 1, 2 x 2, 2 x 3, 3 x 2, 3 x 3, 4 x 4, 5 x 2, 2 x 5, 5 x 5, 6 x 6, 8 x 8
    ]);
    each_n!(r, "round-trip", round_trip, [1, 2, 3, 4, 5]);
    r.add("consumers", consumers);
}

fn main() {
    mc::main(Check {
        prop: "C03",
        level: "model_checking",
        rule: "every execution = one scripted source (length, interruptions, size hint) x one consumer sequence; \
               a state is a distinct (result, source position) pair, a transition one construction or iterator step \
               compared with the list model",
        assumptions: &["dimensions and source lengths are bounded by the listed ones"],
        build,
    });
}
