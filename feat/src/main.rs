//! C23: writes the results of the common API over a fixed alphabet, one line per call.
//! `E` lines must be the same in every build that has them, `A` lines up to the accuracy of the
//! math library. A line starts with its class, the feature the call itself belongs to, and a label.
mod float;
mod exact;
#[cfg(feature = "rand")]
mod random;

use std::io::Write;
pub struct Out {
    w: std::io::BufWriter<std::io::Stdout>,
    only: Option<String>,
    pub thorough: bool,
}
impl Out {
    pub fn put(&mut self, class: &str, feature: &str, label: &str, v: impl FnOnce() -> String) {
        if let Some(o) = &self.only {
            if o != label {
                return;
            }
        }
        // a panic is a result, too
        let s = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(v)) {
            Ok(s) => s,
            Err(_) => "panic".into(),
        };
        let _ = writeln!(self.w, "{} {} {} : {}", class, feature, label, s.replace('\n', " "));
    }
}
#[macro_export]
macro_rules! e {
    ($o:expr, $v:expr, $($l:tt)+) => { $o.put("E", "core", &format!($($l)+), || format!("{:?}", $v)) };
}
#[macro_export]
macro_rules! a {
    ($o:expr, $v:expr, $($l:tt)+) => { $o.put("A", "core", &format!($($l)+), || format!("{:?}", $v)) };
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let thorough = std::env::args().nth(1).as_deref() == Some("thorough");
    let only = std::env::args().nth(2);
    let mut o = Out { w: std::io::BufWriter::new(std::io::stdout()), only, thorough };
    exact::run(&mut o);
    float::f64_::run(&mut o);
    float::f32_::run(&mut o);
    #[cfg(feature = "rand")]
    random::run(&mut o);
    let _ = o.w.flush();
}
