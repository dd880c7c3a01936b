//! C04: arithmetic, bitwise, negation and floored-division operators act element by element.
use mc::cont::*;
use mc::floats::{same_bits, special, Fl};
use mc::scalars::{Dual, Sym, F3, F5};
use mc::*;
use num_integer::Integer;
use num_traits::Zero;
use std::cell::Cell;
use std::fmt::Debug;
use std::ops::*;
use vecmat::{Matrix, Vector};

trait El: Copy + Debug + 'static {
    fn same(a: &Self, b: &Self) -> bool;
    /// Alphabet of operand values.
    fn values(thorough: bool) -> Vec<Self>;
    /// Operands on which nothing overflows, different at neighbouring positions.
    fn benign(k: usize) -> (Self, Self);
}
macro_rules! el_int {
    ($($t:ident)*) => { $(
        impl El for $t {
            fn same(a: &$t, b: &$t) -> bool { a == b }
            fn values(_: bool) -> Vec<$t> {
                let mut v: Vec<$t> = vec![];
                if std::mem::size_of::<$t>() == 1 {
                    return ($t::MIN..=$t::MAX).collect();
                }
                for k in 0..9 {
                    v.push(k as $t);
                    v.push(($t::MIN).wrapping_add(k as $t));
                    v.push(($t::MAX).wrapping_sub(k as $t));
                    v.push((0 as $t).wrapping_sub(k as $t));
                }
                for s in [7u32, 8, 15, 16, 31, 32, 63, 64] {
                    if s < std::mem::size_of::<$t>() as u32 * 8 {
                        let x = (1 as $t) << s;
                        v.push(x);
                        v.push(x.wrapping_sub(1));
                        v.push(x.wrapping_add(1));
                        v.push(x.wrapping_neg());
                    }
                }
                v.push(1000 as i32 as $t);
                v.push(-1000i32 as $t);
                v.sort();
                v.dedup();
                v
            }
            fn benign(k: usize) -> ($t, $t) { ((3 + k % 5) as $t, (1 + k % 3) as $t) }
        }
    )* };
}
el_int!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize);
macro_rules! el_float {
    ($($t:ident)*) => { $(
        impl El for $t {
            fn same(a: &$t, b: &$t) -> bool { same_bits(*a, *b) }
            fn values(_: bool) -> Vec<$t> { special::<$t>() }
            fn benign(k: usize) -> ($t, $t) { (1.5 + k as $t, 0.75 - k as $t) }
        }
    )* };
}
el_float!(f32 f64);
macro_rules! el_exact {
    ($($t:ty, $v:expr, $b:expr;)*) => { $(
        impl El for $t {
            fn same(a: &$t, b: &$t) -> bool { a == b }
            fn values(_: bool) -> Vec<$t> { $v }
            fn benign(k: usize) -> ($t, $t) { let f: fn(usize) -> ($t, $t) = $b; f(k) }
        }
    )* };
}
el_exact! {
    F5, F5::all(), |k| (F5::new(k as i64), F5::new(1 + (k % 4) as i64));
    bool, vec![false, true], |k| (k % 2 == 0, k % 3 == 0);
    Dual<F3>, F3::all().into_iter().flat_map(|a| F3::all().into_iter().map(move |b| Dual(a, b))).collect(),
        |k| (Dual(F3::new(k as i64), F3::new(k as i64 / 3)), Dual(F3::new(1), F3::new(k as i64)));
    Sym, vec![Sym(900), Sym(901)], |k| (Sym(1000 + k as u64), Sym(2000 + k as u64));
}

#[repr(C)]
struct Guarded<C> {
    before: [u64; 4],
    c: C,
    after: [u64; 4],
}
const G: u64 = 0x1122_3344_5566_7788;
/// Runs an assigning form on a target surrounded by guard words.
fn assigned<C: Copy>(ctx: &Ctx, c: C, f: impl FnOnce(&mut C)) -> Outcome<C> {
    let mut g = Guarded { before: [G; 4], c, after: [G; 4] };
    let o = attempt(|| f(&mut g.c));
    ensure!(ctx, g.before == [G; 4] && g.after == [G; 4], "assigning form wrote outside its target");
    match o {
        Outcome::Value(()) => Outcome::Value(g.c),
        Outcome::Injected => Outcome::Injected,
        Outcome::Panicked(m) => Outcome::Panicked(m),
    }
}
fn judge<T: El, C: Cont<T>>(ctx: &mut Ctx, what: &str, got: Outcome<C>, want: Vec<Outcome<T>>) {
    ctx.ops(1);
    let bad = want.iter().any(|w| !matches!(w, Outcome::Value(_)));
    match got {
        Outcome::Value(g) => {
            ensure!(ctx, !bad, "{}: gave {:?} although the element operation panics: {:?}", what, g.list(), want);
            for (i, (x, y)) in g.list().iter().zip(&want).enumerate() {
                if let Outcome::Value(y) = y {
                    ensure!(ctx, T::same(x, y), "{}: at position {} got {:?}, expected {:?}", what, i, x, y);
                }
            }
        }
        Outcome::Injected => unreachable!(),
        Outcome::Panicked(m) => ensure!(ctx, bad, "{}: {} although every element operation succeeds", what, m),
    }
}
fn short_state<T: El>(ctx: &mut Ctx, what: &str, want: &[Outcome<T>], p: usize) {
    if let Some(Outcome::Value(x)) = want.get(p) {
        ctx.state(&format!("{}{:?}", what, x));
    } else {
        ctx.state(&what);
    }
}
/// Operand lists: benign everywhere, the pair (a, b) at one chosen position.
fn operands<T: El, C: Cont<T>>(ctx: &mut Ctx) -> (Vec<T>, Vec<T>, usize) {
    let (mut x, mut y): (Vec<T>, Vec<T>) = (0..C::LEN).map(T::benign).unzip();
    if C::LEN == 0 {
        return (x, y, 0);
    }
    let vals = T::values(ctx.thorough());
    // large complete alphabets at few positions, small ones at every position
    let p = if vals.len() > 100 && C::LEN > 3 { C::LEN - 1 } else { ctx.choose(C::LEN) };
    x[p] = *ctx.pick(&vals);
    y[p] = *ctx.pick(&vals);
    ctx.note(|| format!("{:?} and {:?} at position {} of {}", x[p], y[p], p, C::LEN));
    (x, y, p)
}
fn elementwise<T: El>(x: &[T], y: &[T], f: fn(T, T) -> T) -> Vec<Outcome<T>> {
    x.iter().zip(y).map(|(a, b)| attempt(|| f(*a, *b))).collect()
}

trait Arith: Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Div<Output = Self> + Rem<Output = Self>
    + AddAssign + SubAssign + MulAssign + DivAssign + RemAssign + Copy {}
impl<T> Arith for T where T: Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Div<Output = T> + Rem<Output = T>
    + AddAssign + SubAssign + MulAssign + DivAssign + RemAssign + Copy {}
trait ByScalar<T>: Mul<T, Output = Self> + Div<T, Output = Self> + Rem<T, Output = Self>
    + MulAssign<T> + DivAssign<T> + RemAssign<T> {}
impl<T, C> ByScalar<T> for C where C: Mul<T, Output = C> + Div<T, Output = C> + Rem<T, Output = C>
    + MulAssign<T> + DivAssign<T> + RemAssign<T> {}

/// Every arithmetic operator in value, assigning, scalar and scalar-assigning form.
fn arith<T: El + Arith, C: Cont<T> + Arith + ByScalar<T>>(ctx: &mut Ctx) {
    let (x, y, p) = operands::<T, C>(ctx);
    let (c, d) = (C::of(&x), C::of(&y));
    macro_rules! op {
        ($n:literal, $o:tt, $a:tt, $f:expr) => {{
            let w = elementwise(&x, &y, $f);
            // the assigning element operation may differ from the value one
            let wa: Vec<Outcome<T>> = x.iter().zip(&y).map(|(a, b)| attempt(|| { let mut z = *a; z $a *b; z })).collect();
            short_state(ctx, $n, &w, p);
            judge(ctx, concat!("x ", $n, " y"), attempt(|| c $o d), w);
            let o = assigned(ctx, c, |t| *t $a d);
            judge(ctx, concat!("x ", $n, "= y"), o, wa);
        }};
    }
    macro_rules! by {
        ($n:literal, $o:tt, $a:tt, $f:expr) => {{
            let f: fn(T, T) -> T = $f;
            let s = if C::LEN > 0 { y[p] } else { T::benign(0).1 };
            let w: Vec<_> = x.iter().map(|a| attempt(|| f(*a, s))).collect();
            let wa: Vec<_> = x.iter().map(|a| attempt(|| { let mut z = *a; z $a s; z })).collect();
            judge(ctx, concat!("x ", $n, " scalar"), attempt(|| c $o s), w);
            let o = assigned(ctx, c, |t| *t $a s);
            judge(ctx, concat!("x ", $n, "= scalar"), o, wa);
        }};
    }
    op!("+", +, +=, |a, b| a + b);
    op!("-", -, -=, |a, b| a - b);
    op!("*", *, *=, |a, b| a * b);
    op!("/", /, /=, |a, b| a / b);
    op!("%", %, %=, |a, b| a % b);
    by!("*", *, *=, |a, b| a * b);
    by!("/", /, /=, |a, b| a / b);
    by!("%", %, %=, |a, b| a % b);
    // the operands themselves are untouched
    ensure!(ctx, c.list().iter().zip(&x).all(|(a, b)| T::same(a, b)), "left operand changed");
    ensure!(ctx, d.list().iter().zip(&y).all(|(a, b)| T::same(a, b)), "right operand changed");
}
fn negate<T: El + Neg<Output = T>, C: Cont<T> + Neg<Output = C>>(ctx: &mut Ctx) {
    let (x, _, p) = operands1::<T, C>(ctx);
    let w: Vec<_> = x.iter().map(|a| attempt(|| -*a)).collect();
    short_state(ctx, "-", &w, p);
    judge(ctx, "-x", attempt(|| -C::of(&x)), w);
}
fn complement<T: El + Not<Output = T>, C: Cont<T> + Not<Output = C>>(ctx: &mut Ctx) {
    let (x, _, p) = operands1::<T, C>(ctx);
    let w: Vec<_> = x.iter().map(|a| attempt(|| !*a)).collect();
    short_state(ctx, "!", &w, p);
    judge(ctx, "!x", attempt(|| !C::of(&x)), w);
}
fn operands1<T: El, C: Cont<T>>(ctx: &mut Ctx) -> (Vec<T>, (), usize) {
    let mut x: Vec<T> = (0..C::LEN).map(|k| T::benign(k).0).collect();
    if C::LEN == 0 {
        return (x, (), 0);
    }
    let p = ctx.choose(C::LEN);
    x[p] = *ctx.pick(&T::values(ctx.thorough()));
    ctx.note(|| format!("{:?} at position {}", x[p], p));
    (x, (), p)
}
trait Bits: BitAnd<Output = Self> + BitOr<Output = Self> + BitXor<Output = Self> + BitAndAssign + BitOrAssign
    + BitXorAssign + Copy {}
impl<T> Bits for T where T: BitAnd<Output = T> + BitOr<Output = T> + BitXor<Output = T> + BitAndAssign + BitOrAssign
    + BitXorAssign + Copy {}
fn bitwise<T: El + Bits, C: Cont<T> + Bits>(ctx: &mut Ctx) {
    let (x, y, p) = operands::<T, C>(ctx);
    let (c, d) = (C::of(&x), C::of(&y));
    macro_rules! op {
        ($n:literal, $o:tt, $a:tt) => {{
            let w = elementwise(&x, &y, |a, b| a $o b);
            short_state(ctx, $n, &w, p);
            judge(ctx, concat!("x ", $n, " y"), attempt(|| c $o d), w.clone());
            let o = assigned(ctx, c, |t| *t $a d);
            judge(ctx, concat!("x ", $n, "= y"), o, w);
        }};
    }
    op!("&", &, &=);
    op!("|", |, |=);
    op!("^", ^, ^=);
}
/// Floored division is an inherent method of both containers.
trait Floor: Sized {
    fn df(self, o: Self) -> Self;
    fn mf(self, o: Self) -> Self;
    fn dmf(self, o: Self) -> (Self, Self);
}
impl<T: Integer, const N: usize> Floor for Vector<T, N> {
    fn df(self, o: Self) -> Self {
        self.div_floor(o)
    }
    fn mf(self, o: Self) -> Self {
        self.mod_floor(o)
    }
    fn dmf(self, o: Self) -> (Self, Self) {
        self.div_mod_floor(o)
    }
}
impl<T: Integer, const M: usize, const N: usize> Floor for Matrix<T, M, N> {
    fn df(self, o: Self) -> Self {
        self.div_floor(o)
    }
    fn mf(self, o: Self) -> Self {
        self.mod_floor(o)
    }
    fn dmf(self, o: Self) -> (Self, Self) {
        self.div_mod_floor(o)
    }
}
/// The mathematical definition for types that fit in i128.
fn floor_spec(a: i128, b: i128) -> (i128, i128) {
    let (q, r) = (a.wrapping_div(b), a.wrapping_rem(b));
    if r != 0 && (r < 0) != (b < 0) {
        (q - 1, r + b)
    } else {
        (q, r)
    }
}
fn floored<T: El + Integer + Into<i128>, C: Cont<T> + Floor>(ctx: &mut Ctx) {
    let (x, y, p) = operands::<T, C>(ctx);
    let (c, d) = (C::of(&x), C::of(&y));
    let wq = elementwise(&x, &y, |a, b| Integer::div_floor(&a, &b));
    let wr = elementwise(&x, &y, |a, b| Integer::mod_floor(&a, &b));
    short_state(ctx, "div_floor", &wq, p);
    for k in 0..C::LEN {
        // the element type's own answer is the floored one (oracle cross-check)
        if let (Outcome::Value(q), Outcome::Value(r)) = (&wq[k], &wr[k]) {
            same!(ctx, ((*q).into(), (*r).into()), floor_spec(x[k].into(), y[k].into()), "oracle at {}", k);
        }
    }
    judge(ctx, "div_floor", attempt(|| c.df(d)), wq.clone());
    judge(ctx, "mod_floor", attempt(|| c.mf(d)), wr.clone());
    let both: Vec<Outcome<(T, T)>> =
        x.iter().zip(&y).map(|(a, b)| attempt(|| Integer::div_mod_floor(a, b))).collect();
    match attempt(|| c.dmf(d)) {
        Outcome::Value((q, r)) => {
            ctx.ops(1);
            let (q, r) = (q.list(), r.list());
            for k in 0..C::LEN {
                match &both[k] {
                    Outcome::Value(w) => ensure!(ctx, q[k] == w.0 && r[k] == w.1,
                        "div_mod_floor at {}: got {:?}, expected {:?}", k, (q[k], r[k]), w),
                    o => ctx.fail(format!("div_mod_floor at {}: element operation gives {:?}", k, o)),
                }
            }
        }
        Outcome::Injected => unreachable!(),
        Outcome::Panicked(m) => ensure!(ctx, both.iter().any(|w| w.panicked()), "div_mod_floor: {} but elements succeed", m),
    }
}
/// `scalar * vector`
fn reversed<T: El + Mul<Vector<T, N>, Output = Vector<T, N>> + Mul<Output = T>, const N: usize>(ctx: &mut Ctx) {
    let mut x: Vec<T> = (0..N).map(|k| T::benign(k).0).collect();
    let vals = T::values(ctx.thorough());
    let s = *ctx.pick(&vals);
    if N > 0 {
        let p = ctx.choose(N);
        x[p] = *ctx.pick(&vals);
    }
    let w: Vec<_> = x.iter().map(|a| attempt(|| s * *a)).collect();
    short_state(ctx, "rev", &w, 0);
    judge(ctx, "scalar * x", attempt(|| s * Vector::<T, N>::of(&x)), w);
}
/// All complete operand tuples of a small alphabet (not only one distinguished position).
fn tuples<T: El + Arith, C: Cont<T> + Arith>(ctx: &mut Ctx) {
    let all = T::values(false);
    let x: Vec<T> = (0..C::LEN).map(|_| *ctx.pick(&all)).collect();
    let y: Vec<T> = (0..C::LEN).map(|_| *ctx.pick(&all)).collect();
    let (c, d) = (C::of(&x), C::of(&y));
    macro_rules! op {
        ($n:literal, $o:tt, $a:tt) => {{
            let w = elementwise(&x, &y, |a, b| a $o b);
            judge(ctx, $n, attempt(|| c $o d), w.clone());
            let o = assigned(ctx, c, |t| *t $a d);
            judge(ctx, concat!($n, "="), o, w);
        }};
    }
    op!("+", +, +=);
    op!("-", -, -=);
    op!("*", *, *=);
    op!("/", /, /=);
    op!("%", %, %=);
    ctx.state(&format!("{:?}{:?}", x, y));
}

// ------------------------------------------------------------------ one application per position

thread_local! { static CALLS: Cell<u32> = Cell::new(0); }
#[derive(Clone, Copy, Debug, PartialEq, Default)]
struct Counted(u32);
macro_rules! counted {
    ($($tr:ident $f:ident $atr:ident $af:ident;)*) => { $(
        impl $tr for Counted { type Output = Counted; fn $f(self, o: Counted) -> Counted {
            CALLS.with(|c| c.set(c.get() + 1)); Counted(self.0 * 100 + o.0) } }
        impl $atr for Counted { fn $af(&mut self, o: Counted) {
            CALLS.with(|c| c.set(c.get() + 1)); *self = Counted(self.0 * 100 + o.0) } }
    )* };
}
counted! {
    Add add AddAssign add_assign; Sub sub SubAssign sub_assign; Mul mul MulAssign mul_assign;
    Div div DivAssign div_assign; Rem rem RemAssign rem_assign;
}
impl Zero for Counted {
    fn zero() -> Self {
        Counted(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
fn once<T: Copy, C: Cont<Counted> + Arith + ByScalar<Counted>>(ctx: &mut Ctx) {
    let _: Option<T> = None;
    let x: Vec<Counted> = (0..C::LEN).map(|k| Counted(k as u32)).collect();
    let (c, s) = (C::of(&x), Counted(7));
    let form = ctx.choose(16);
    CALLS.with(|c| c.set(0));
    let mut t = c;
    match form {
        0 => drop(c + c),
        1 => drop(c - c),
        2 => drop(c * c),
        3 => drop(c / c),
        4 => drop(c % c),
        5 => t += c,
        6 => t -= c,
        7 => t *= c,
        8 => t /= c,
        9 => t %= c,
        10 => drop(c * s),
        11 => drop(c / s),
        12 => drop(c % s),
        13 => t *= s,
        14 => t /= s,
        _ => t %= s,
    }
    ctx.ops(1);
    same!(ctx, CALLS.with(|c| c.get()) as usize, C::LEN, "element operations of form {}", form);
    ctx.state(&form);
}
fn zero<T: El + Zero, C: Cont<T> + Zero>(ctx: &mut Ctx) {
    ensure!(ctx, C::zero().list().iter().all(|x| T::same(x, &T::zero())), "zero() is {:?}", C::zero().list());
    ctx.ops(1);
    ctx.state(&C::LEN);
}
/// x op= y followed by further operations: results only depend on the values.
fn history<T: El + Arith, C: Cont<T> + Arith + ByScalar<T>>(ctx: &mut Ctx) {
    let (x, y): (Vec<T>, Vec<T>) = (0..C::LEN).map(T::benign).unzip();
    let mut want = x.clone();
    let d = C::of(&y);
    let mut c = C::of(&x);
    for _ in 0..if ctx.thorough() { 4 } else { 3 } {
        let op = ctx.choose(16);
        let s = T::benign(1).1;
        let before = c;
        let f: fn(T, T) -> T = match op {
            0 | 5 => |a, b| a + b,
            1 | 6 => |a, b| a - b,
            2 | 7 | 10 | 13 => |a, b| a * b,
            3 | 8 | 11 | 14 => |a, b| a / b,
            _ => |a, b| a % b,
        };
        match op {
            0 => c = c + d,
            1 => c = c - d,
            2 => c = c * d,
            3 => c = c / d,
            4 => c = c % d,
            5 => c += d,
            6 => c -= d,
            7 => c *= d,
            8 => c /= d,
            9 => c %= d,
            10 => c = c * s,
            11 => c = c / s,
            12 => c = c % s,
            13 => c *= s,
            14 => c /= s,
            _ => c %= s,
        }
        for k in 0..C::LEN {
            want[k] = if op < 10 { f(want[k], y[k]) } else { f(want[k], s) };
        }
        ctx.ops(1);
        ensure!(ctx, c.list().iter().zip(&want).all(|(a, b)| T::same(a, b)),
                "operation {} on {:?}: got {:?}, expected {:?}", op, before.list(), c.list(), want);
        ctx.state(&format!("{:?}", want));
    }
}

macro_rules! all_dims {
    ($r:expr, $n:expr, $f:ident<$t:ty>) => {
        each_c!($r, $n, $f<$t>, [
            V 0, V 1, V 2, V 3, V 4, V 5, V 6, V 7, V 8, V 9, V 12, V 15, V 16, V 17, V 24, V 31, V 32, V 33, V 65, V 129,
            M 0 2, M 2 0, M 1 1, M 1 2, M 2 1, M 2 2, M 2 3, M 3 2, M 3 3, M 3 4, M 4 3, M 4 4, M 5 5, M 1 5, M 5 1,
            M 2 5, M 5 2, M 1 9, M 9 1, M 6 7, M 9 8, M 1 33, M 33 1, M 11 17
        ]);
    };
}
macro_rules! some_dims {
    ($r:expr, $n:expr, $f:ident<$t:ty>) => {
        each_c!($r, $n, $f<$t>, [V 1, V 2, V 3, V 4, V 7, V 8, V 16, M 1 1, M 2 3, M 3 2, M 4 4]);
    };
}
macro_rules! few_dims {
    ($r:expr, $n:expr, $f:ident<$t:ty>) => {
        each_c!($r, $n, $f<$t>, [V 1, V 3, V 4, V 8, M 2 2, M 3 2]);
    };
}

fn build(r: &mut Reg) {
    all_dims!(r, "arith", arith<Sym>);
    all_dims!(r, "bitwise", bitwise<Sym>);
    all_dims!(r, "neg", negate<Sym>);
    all_dims!(r, "not", complement<Sym>);
    some_dims!(r, "arith", arith<f64>);
    some_dims!(r, "arith", arith<f32>);
    some_dims!(r, "arith", arith<i32>);
    few_dims!(r, "arith", arith<i64>);
    few_dims!(r, "arith", arith<u32>);
    few_dims!(r, "arith", arith<F5>);
    each_c!(r, "arith", arith<i8>, [V 1, V 2, V 4, M 1 2]);
    each_c!(r, "arith", arith<u8>, [V 1, V 3, V 16, M 2 1]);
    each_c!(r, "arith", arith<i16>, [V 2, V 8, M 2 2]);
    each_c!(r, "arith", arith<u16>, [V 3]);
    each_c!(r, "arith", arith<u64>, [V 2, M 2 2]);
    each_c!(r, "arith", arith<i128>, [V 2, M 2 2]);
    each_c!(r, "arith", arith<usize>, [V 3]);
    each_c!(r, "arith", arith<isize>, [V 2]);
    each_c!(r, "arith", arith<Dual<F3>>, [V 1, V 2, M 2 2]);
    some_dims!(r, "neg", negate<f64>);
    few_dims!(r, "neg", negate<f32>);
    few_dims!(r, "neg", negate<i32>);
    few_dims!(r, "neg", negate<i8>);
    few_dims!(r, "bitwise", bitwise<bool>);
    few_dims!(r, "bitwise", bitwise<u32>);
    each_c!(r, "bitwise", bitwise<u8>, [V 1, V 2, M 2 2]);
    each_c!(r, "bitwise", bitwise<i64>, [V 2, V 4, M 2 2]);
    few_dims!(r, "not", complement<bool>);
    few_dims!(r, "not", complement<u8>);
    few_dims!(r, "not", complement<i32>);
    some_dims!(r, "floored", floored<i32>);
    few_dims!(r, "floored", floored<i64>);
    each_c!(r, "floored", floored<i8>, [V 1, V 2, V 4, M 2 1]);
    each_c!(r, "floored", floored<u8>, [V 1, M 1 2]);
    few_dims!(r, "floored", floored<u32>);
    each_c!(r, "floored", floored<i16>, [V 3, M 2 2]);
    each_n!(r, "reversed", reversed<f64>, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17]);
    each_n!(r, "reversed", reversed<f32>, [1, 2, 3, 4, 8]);
    each_n!(r, "reversed", reversed<i8>, [1, 2, 3]);
    each_n!(r, "reversed", reversed<u8>, [1, 2, 4]);
    each_n!(r, "reversed", reversed<i16>, [1, 2, 3]);
    each_n!(r, "reversed", reversed<u16>, [1, 2, 3]);
    each_n!(r, "reversed", reversed<i32>, [1, 2, 3, 4, 8]);
    each_n!(r, "reversed", reversed<u32>, [1, 2, 3]);
    each_n!(r, "reversed", reversed<i64>, [1, 2, 3]);
    each_n!(r, "reversed", reversed<u64>, [1, 2, 3]);
    each_c!(r, "tuples", tuples<F5>, [V 1, V 2, M 1 2, M 2 1]);
    each_c!(r, "tuples", tuples<Sym>, [V 3, V 5, M 2 2, M 1 5, M 3 2]);
    all_dims!(r, "once", once<Counted>);
    few_dims!(r, "zero", zero<f64>);
    few_dims!(r, "zero", zero<i32>);
    few_dims!(r, "zero", zero<F5>);
    each_c!(r, "history", history<Sym>, [V 1, V 2, V 3, V 4, V 8, M 1 1, M 2 2, M 2 3, M 3 2, M 4 4]);
    each_c!(r, "history", history<f64>, [V 2, V 4, M 2 3]);
    let _ = f64::lit(0.0);
}

fn main() {
    mc::main(Check {
        prop: "C04",
        level: "model_checking",
        rule: "every execution = one operand pair of the alphabet at one position (benign operands elsewhere) through \
               every operator form, or one operator history on uninterpreted elements; a state is a distinct \
               (operator, element result) per scenario, a transition one operator application compared with the \
               element type's own results (panics included)",
        assumptions: &[
            "the element type's own operators are the oracle",
            "uninterpreted elements hash their terms to 64 bits",
            "all NaNs count as one value",
        ],
        build,
    });
}
