//! C22: histories of safe operations, executed under an interpreter that reports undefined
//! behaviour. A small stateless explorer (depth first over `choose` answers) without any
//! dependency, so that as much as possible of the interpreter's time goes to vecmat.
mod el;
mod hist;
mod rest;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

pub struct Cx {
    pre: Vec<u8>,
    trail: Vec<(u8, u8)>,
    pub thorough: bool,
    pub ops: u64,
    pub states: Vec<u64>,
    pub hash: u64,
}
impl Cx {
    pub fn choose(&mut self, n: usize) -> usize {
        let d = self.trail.len();
        let v = if d < self.pre.len() { self.pre[d] } else { 0 };
        assert!((v as usize) < n && n < 256, "machinery: choice {} of {}", v, n);
        self.trail.push((v, n as u8));
        v as usize
    }
    pub fn mix(&mut self, x: u64) {
        self.hash = (self.hash.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    pub fn fail(&self, m: &str) -> ! {
        resume_unwind(Box::new(Fail(m.to_string())))
    }
}
pub struct Fail(pub String);
pub struct Injected;
/// Runs `f`; `None` if the injected panic came out or (where `may_panic`) any panic.
pub fn caught<R>(f: impl FnOnce() -> R) -> Result<R, bool> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if e.is::<Fail>() {
            resume_unwind(e)
        }
        e.is::<Injected>()
    })
}
pub type Body = fn(&mut Cx);
/// Name, body, number of first choices that are separate units of work (1: not split).
pub type List = Vec<(String, Body, usize)>;

fn say(s: &str) {
    use std::io::Write;
    let o = std::io::stdout();
    let mut o = o.lock();
    let _ = o.write_all(s.as_bytes());
    let _ = o.flush();
}

/// Everything below `start[..base]`, beginning at `start`.
fn explore(name: &str, body: Body, thorough: bool, start: &[u8], base: usize, only: bool, verbose: bool) -> bool {
    let mut cx = Cx { pre: start.to_vec(), trail: Vec::new(), thorough, ops: 0, states: Vec::new(), hash: 0 };
    let mut n = 0u64;
    loop {
        if verbose || n % 64 == 0 {
            // where an abort is to be looked for
            say(&format!("AT {} {}\n", name, cx.pre.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")));
        }
        cx.trail.clear();
        cx.hash = 0;
        let r = catch_unwind(AssertUnwindSafe(|| body(&mut cx)));
        n += 1;
        if let Err(e) = r {
            let m = match e.downcast::<Fail>() {
                Ok(f) => f.0,
                Err(_) => "unexpected panic".to_string(),
            };
            say(&format!(
                "BAD {} {} {}\n",
                name,
                cx.trail.iter().map(|c| c.0.to_string()).collect::<Vec<_>>().join(","),
                m
            ));
            return false;
        }
        if let Err(i) = cx.states.binary_search(&cx.hash) {
            let h = cx.hash;
            cx.states.insert(i, h);
        }
        if only {
            break;
        }
        while let Some(&(v, k)) = cx.trail.last() {
            if v + 1 < k {
                break;
            }
            cx.trail.pop();
        }
        if cx.trail.len() <= base {
            break;
        }
        let (v, _) = cx.trail.pop().unwrap();
        cx.pre.clear();
        for t in &cx.trail {
            cx.pre.push(t.0);
        }
        cx.pre.push(v + 1);
    }
    say(&format!("DONE {} {} {} {}\n", name, n, cx.ops, cx.states.len()));
    true
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let thorough = args[0] == "thorough";
    let mut list = List::new();
    rest::register(&mut list);
    hist::register(&mut list, thorough);
    match args[1].as_str() {
        "list" => {
            for (n, _, _) in &list {
                println!("{}", n);
            }
        }
        // run claim-dir: takes scenarios nobody else has claimed
        "run" => {
            std::panic::set_hook(Box::new(|_| {}));
            for (i, (n, b, w)) in list.iter().enumerate() {
                for k in 0..*w {
                    let p = format!("{}/{}-{}", args[2], i, k);
                    if std::fs::OpenOptions::new().write(true).create_new(true).open(p).is_ok() {
                        let (start, base): (&[u8], _) = if *w > 1 { (&[k as u8], 1) } else { (&[], 0) };
                        if !explore(n, *b, thorough, start, base, false, false) {
                            std::process::exit(1);
                        }
                    }
                }
            }
        }
        // from scenario choices: continue there, naming every execution; at: only that one
        m => {
            std::panic::set_hook(Box::new(|_| {}));
            let start: Vec<u8> = args[3].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            let (n, b, _) = list.iter().find(|x| x.0 == args[2]).expect("scenario");
            if !explore(n, *b, thorough, &start, 0, m == "at", true) {
                std::process::exit(1);
            }
        }
    }
}
