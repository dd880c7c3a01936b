//! C19: formatting shows every element once in order and reports write errors.
use mc::*;
use std::fmt::{Debug, Display, Error, Formatter, Result as FmtResult, Write};
use vecmat::{Complex, Matrix, Quaternion, Vector};

/// An element with two different texts, each unlike anything else; it may fail or write in pieces.
#[derive(Clone, Copy)]
struct Mark {
    id: usize,
    fail: u8,
    pieces: bool,
}
impl Mark {
    fn new(id: usize) -> Self {
        Mark { id, fail: 0, pieces: false }
    }
    fn text(id: usize, debug: bool) -> String {
        if debug { format!("<<{id}>>") } else { format!("[[{id}]]") }
    }
    fn put(&self, f: &mut Formatter, debug: bool) -> FmtResult {
        if self.fail == 1 {
            return Err(Error);
        }
        let t = Mark::text(self.id, debug);
        if self.pieces || self.fail == 2 {
            let k = t.len() / 2;
            f.write_str(&t[..k])?;
            if self.fail == 2 {
                return Err(Error);
            }
            f.write_str(&t[k..])
        } else {
            f.write_str(&t)
        }
    }
}
impl Debug for Mark {
    fn fmt(&self, f: &mut Formatter) -> FmtResult {
        self.put(f, true)
    }
}
impl Display for Mark {
    fn fmt(&self, f: &mut Formatter) -> FmtResult {
        self.put(f, false)
    }
}

/// Sink which fails at one point.
struct Sink {
    got: String,
    /// Fail in this write call.
    call: usize,
    /// Fail on reaching this many bytes (after taking those that fit).
    room: usize,
    /// Keep failing, or take everything again after one failure.
    stays: bool,
    calls: usize,
    failed: bool,
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> FmtResult {
        if self.failed {
            if self.stays {
                return Err(Error);
            }
            self.got.push_str(s);
            return Ok(());
        }
        let c = self.calls;
        self.calls += 1;
        if c == self.call {
            self.failed = true;
            return Err(Error);
        }
        if self.got.len() + s.len() > self.room {
            let k = self.room - self.got.len();
            self.got.push_str(&s[..k]);
            self.failed = true;
            return Err(Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

/// Something holding elements in order.
trait Form: 'static {
    type Of<T>;
    const LEN: usize;
    fn of<T>(l: Vec<T>) -> Self::Of<T>;
    /// Name and dimensions that the text must show ahead of the elements.
    fn name() -> Vec<String>;
    fn debug<T: Debug>(x: &Self::Of<T>) -> &dyn Debug;
    fn display<T: Display>(x: &Self::Of<T>) -> &dyn Display;
}
fn arr<T, const N: usize>(l: Vec<T>) -> [T; N] {
    l.try_into().ok().unwrap()
}
struct Ve<const N: usize>;
impl<const N: usize> Form for Ve<N> {
    type Of<T> = Vector<T, N>;
    const LEN: usize = N;
    fn of<T>(l: Vec<T>) -> Vector<T, N> {
        Vector::from_array(arr(l))
    }
    fn name() -> Vec<String> {
        vec!["Vector".into(), N.to_string()]
    }
    fn debug<T: Debug>(x: &Vector<T, N>) -> &dyn Debug {
        x
    }
    fn display<T: Display>(x: &Vector<T, N>) -> &dyn Display {
        x
    }
}
struct Ma<const M: usize, const N: usize>;
impl<const M: usize, const N: usize> Form for Ma<M, N> {
    type Of<T> = Matrix<T, M, N>;
    const LEN: usize = M * N;
    fn of<T>(l: Vec<T>) -> Matrix<T, M, N> {
        let mut i = l.into_iter();
        Matrix::from_array_of_arrays(std::array::from_fn(|_| std::array::from_fn(|_| i.next().unwrap())))
    }
    fn name() -> Vec<String> {
        vec!["Matrix".into(), M.to_string(), N.to_string()]
    }
    fn debug<T: Debug>(x: &Matrix<T, M, N>) -> &dyn Debug {
        x
    }
    fn display<T: Display>(x: &Matrix<T, M, N>) -> &dyn Display {
        x
    }
}
struct Co;
impl Form for Co {
    type Of<T> = Complex<T>;
    const LEN: usize = 2;
    fn of<T>(l: Vec<T>) -> Complex<T> {
        Complex::from_array(arr(l))
    }
    fn name() -> Vec<String> {
        vec!["Complex".into()]
    }
    fn debug<T: Debug>(x: &Complex<T>) -> &dyn Debug {
        x
    }
    fn display<T: Display>(x: &Complex<T>) -> &dyn Display {
        x
    }
}
struct Qu;
impl Form for Qu {
    type Of<T> = Quaternion<T>;
    const LEN: usize = 4;
    fn of<T>(l: Vec<T>) -> Quaternion<T> {
        Quaternion::from_array(arr(l))
    }
    fn name() -> Vec<String> {
        vec!["Quaternion".into()]
    }
    fn debug<T: Debug>(x: &Quaternion<T>) -> &dyn Debug {
        x
    }
    fn display<T: Display>(x: &Quaternion<T>) -> &dyn Display {
        x
    }
}
fn put<W: Write, F: Form, T: Debug + Display>(w: &mut W, x: &F::Of<T>, debug: bool, style: usize) -> FmtResult {
    match (debug, style) {
        (true, 0) => write!(w, "{:?}", F::debug(x)),
        (true, 1) => write!(w, "{:#?}", F::debug(x)),
        (true, _) => write!(w, "{:>12.3?}", F::debug(x)),
        (false, 0) => write!(w, "{}", F::display(x)),
        (false, 1) => write!(w, "{:#}", F::display(x)),
        (false, _) => write!(w, "{:<+12.3}", F::display(x)),
    }
}
fn marks<F: Form>() -> F::Of<Mark> {
    F::of((0..F::LEN).map(Mark::new).collect())
}
fn full<F: Form>(debug: bool, style: usize) -> String {
    let mut s = String::new();
    put::<_, F, _>(&mut s, &marks::<F>(), debug, style).expect("formatting into a string failed");
    s
}
/// Every element once, in order, in its own form, behind the name and the dimensions.
fn content<F: Form>(ctx: &mut Ctx) {
    let debug = ctx.flag();
    let style = ctx.choose(3);
    ctx.note(|| format!("debug {debug}, style {style}"));
    ctx.ops(1);
    let t = full::<F>(debug, style);
    ctx.state(&t);
    let mut at = 0;
    let mut last = None;
    for k in 0..F::LEN {
        let m = Mark::text(k, debug);
        let Some(p) = t[at..].find(&m) else { ctx.fail(format!("element {k} is missing or out of order in {t:?}")) };
        let gap = &t[at..at + p];
        if k == 0 {
            last = Some(gap.to_string());
        } else {
            ensure!(ctx, !gap.is_empty() && !gap.contains(char::is_alphanumeric), "between elements {} and {k}: {gap:?} in {t:?}", k - 1);
        }
        at += p + m.len();
    }
    let other = if debug { "[[" } else { "<<" };
    same!(ctx, t.matches(if debug { "<<" } else { "[[" }).count(), F::LEN, "number of elements shown in {t:?}");
    ensure!(ctx, !t.contains(other), "element in the other form in {t:?}");
    ensure!(ctx, !t[at..].contains(char::is_alphanumeric) || F::LEN == 0, "something behind the last element in {t:?}");
    // outside the elements (whose own brackets pair up) every bracket is closed by its kind
    let mut open = Vec::new();
    for b in t.chars() {
        match b {
            '(' | '[' | '{' => open.push(b),
            ')' | ']' | '}' => {
                let p = open.pop();
                ensure!(ctx, matches!((p, b), (Some('('), ')') | (Some('['), ']') | (Some('{'), '}')), "unbalanced brackets in {t:?}");
            }
            _ => {}
        }
    }
    ensure!(ctx, open.is_empty(), "unbalanced brackets in {t:?}");
    let head = last.unwrap_or(t.clone());
    let mut h = &head[..];
    for n in F::name() {
        let Some(p) = h.find(&n) else { ctx.fail(format!("{n} is not named in {t:?}")) };
        h = &h[p + n.len()..];
    }
    let words: Vec<&str> = head.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).collect();
    let dims: Vec<String> = F::name()[1..].to_vec();
    same!(ctx, words, dims.iter().map(|s| s.as_str()).collect::<Vec<_>>(), "numbers ahead of the elements in {t:?}");
}
/// Elements with real texts stand exactly where the marks stand.
fn texts<F: Form>(ctx: &mut Ctx) {
    let debug = ctx.flag();
    let kind = ctx.choose(6);
    let shift = ctx.choose(5);
    ctx.note(|| format!("debug {debug}, elements of kind {kind} from {shift}"));
    ctx.ops(1);
    fn run<F: Form, T: Debug + Display + Clone>(l: &[T], shift: usize, debug: bool) -> (String, Vec<String>) {
        let v: Vec<T> = (0..F::LEN).map(|i| l[(i + shift) % l.len()].clone()).collect();
        let w = v.iter().map(|x| if debug { format!("{x:?}") } else { format!("{x}") }).collect();
        let x = F::of(v);
        let mut s = String::new();
        put::<_, F, _>(&mut s, &x, debug, 0).expect("formatting into a string failed");
        (s, w)
    }
    let (got, parts) = match kind {
        0 => run::<F, i32>(&[0, -1, i32::MIN, 77, i32::MAX], shift, debug),
        1 => run::<F, f64>(&[0.0, -0.5, 1e21, f64::NAN, f64::NEG_INFINITY], shift, debug),
        2 => run::<F, String>(&["".into(), "a\n\"b".into(), "x, y".into(), "(".into(), "é∞".into()], shift, debug),
        3 => run::<F, char>(&['a', '\n', ')', ',', '{'], shift, debug),
        4 => run::<F, Vector<i32, 2>>(&[Vector::from([1, 2]), Vector::from([-3, 4]), Vector::from([0, 0])], shift, debug),
        _ => run::<F, Complex<u8>>(&[Complex::new(1, 2), Complex::new(0, 9), Complex::new(200, 1)], shift, debug),
    };
    let mut want = String::new();
    let t = full::<F>(debug, 0);
    let mut at = 0;
    for (k, p) in parts.iter().enumerate() {
        let m = Mark::text(k, debug);
        let Some(q) = t[at..].find(&m) else { return };
        want.push_str(&t[at..at + q]);
        want.push_str(p);
        at += q + m.len();
    }
    want.push_str(&t[at..]);
    ctx.state(&want);
    same!(ctx, got, want, "text");
    // through a reference and twice in a row nothing changes
    let mut again = String::new();
    let x = marks::<F>();
    for _ in 0..2 {
        put::<_, F, _>(&mut again, &x, debug, 0).unwrap();
    }
    same!(ctx, again, t.repeat(2), "formatted twice in a row");
}
/// The sink fails in every possible write call, or at every byte.
fn sink<F: Form>(ctx: &mut Ctx) {
    let debug = ctx.flag();
    let style = ctx.choose(2);
    let pieces = ctx.flag();
    let stays = ctx.flag();
    let t = full::<F>(debug, style);
    let x = F::of((0..F::LEN).map(|i| Mark { pieces, ..Mark::new(i) }).collect());
    let run = |call: usize, room: usize| {
        let mut s = Sink { got: String::new(), call, room, stays, calls: 0, failed: false };
        let r = attempt(|| put::<_, F, _>(&mut s, &x, debug, style));
        (r.value(), s)
    };
    let (r, s) = run(usize::MAX, usize::MAX);
    ensure!(ctx, r == Some(Ok(())) && s.got == t, "text with elements written in pieces: {:?}, not {t:?}", s.got);
    let by_call = ctx.flag();
    let at = ctx.choose(if by_call { s.calls } else { t.len() });
    ctx.note(|| format!("debug {debug}, pieces {pieces}, sink fails {} {at}, {}", if by_call { "in call" } else { "at byte" }, if stays { "for good" } else { "once" }));
    let (r, s) = if by_call { run(at, usize::MAX) } else { run(usize::MAX, at) };
    ctx.ops(2);
    ctx.state(&s.got);
    match r {
        None => ctx.fail("formatting panicked when the sink failed".into()),
        Some(Ok(())) => ctx.fail(format!("the sink failed, but formatting succeeded with {:?}", s.got)),
        Some(Err(_)) => {}
    }
    ensure!(ctx, t.starts_with(&s.got), "written {:?}, which is no prefix of {t:?}", s.got);
}
/// One element fails, before writing anything or half-way.
fn element<F: Form>(ctx: &mut Ctx) {
    if F::LEN == 0 {
        return;
    }
    let debug = ctx.flag();
    let style = ctx.choose(2);
    let k = ctx.choose(F::LEN);
    let fail = 1 + ctx.choose(2) as u8;
    ctx.note(|| format!("debug {debug}, element {k} fails ({fail})"));
    let t = full::<F>(debug, style);
    let x = F::of((0..F::LEN).map(|i| Mark { fail: if i == k { fail } else { 0 }, ..Mark::new(i) }).collect());
    let mut got = String::new();
    ctx.ops(1);
    let r = attempt(|| put::<_, F, _>(&mut got, &x, debug, style));
    ctx.state(&got);
    match r.value() {
        None => ctx.fail(format!("formatting panicked when element {k} failed")),
        Some(Ok(())) => ctx.fail(format!("element {k} failed, but formatting succeeded with {got:?}")),
        Some(Err(_)) => {}
    }
    ensure!(ctx, t.starts_with(&got), "written {got:?}, which is no prefix of {t:?}");
}
fn all<F: Form>(r: &mut Reg, name: &str) {
    r.add(format!("{name}: content"), content::<F>);
    r.add(format!("{name}: element texts"), texts::<F>);
    r.add(format!("{name}: failing sink"), sink::<F>);
    r.add(format!("{name}: failing element"), element::<F>);
}
fn build(r: &mut Reg) {
    macro_rules! v { ($($n:literal)*) => { $( all::<Ve<$n>>(r, concat!("vector ", $n)); )* } }
    v!(0 1 2 3 4 5 6 7 8 9 10 11 12 16 17 33 65 129 257);
    macro_rules! m { ($($a:literal x $b:literal)*) => { $( all::<Ma<$a, $b>>(r, concat!("matrix ", $a, "x", $b)); )* } }
    m!(0 x 0 0 x 1 1 x 0 0 x 3 3 x 0 1 x 1 1 x 2 2 x 1 1 x 3 3 x 1 2 x 2 2 x 3 3 x 2 3 x 3 1 x 4 4 x 1 2 x 4 4 x 2 3 x 4 4 x 3 4 x 4 5 x 2 2 x 5 1 x 11 11 x 1 12 x 2 5 x 5 6 x 6 9 x 8 3 x 17 17 x 3 11 x 12);
    all::<Co>(r, "complex");
    all::<Qu>(r, "quaternion");
}
fn main() {
    mc::main(Check {
        prop: "C19",
        level: "model_checking",
        rule: "an execution is one choice of type, dimensions, form, element texts and fault: the write call or byte at which the sink fails (for good or once), or the element that fails; states are distinct texts written",
        assumptions: &["width and precision options are only required to keep all elements in order", "separators between elements are free of letters and digits"],
        build,
    });
}
