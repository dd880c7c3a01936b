//! Sampling from a fixed word stream.
use crate::*;
use rand::distributions::Distribution;
use rand::{Error, RngCore};
use vecmat::complex::Moebius;
use vecmat::distr::*;
use vecmat::transform::*;
use vecmat::{Complex, Matrix, Quaternion, Vector};

struct Words {
    s: u64,
    n: usize,
    first: Vec<u64>,
}
impl RngCore for Words {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        let k = self.n;
        self.n += 1;
        if k < self.first.len() {
            return self.first[k];
        }
        self.s = self.s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        self.s ^ (self.s >> 29)
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        for c in b {
            *c = self.next_u64() as u8;
        }
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(b);
        Ok(())
    }
}
fn sample<T: std::fmt::Debug>(o: &mut Out, name: &str, d: impl Distribution<T>) {
    let w = [0u64, 1, u64::MAX, 1 << 63, 0x4000_0000_0000_0000, 0x1234_5678_9abc_def0];
    for &a in &w {
        for &b in &w {
            for s in 0..3 {
                let mut g = Words { s, n: 0, first: vec![a, b] };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| format!("{:?}", d.sample(&mut g))));
                let n = g.n;
                o.put("A", "rand", &format!("sample {} {:x} {:x} {}", name, a, b, s), || format!("{} after {} words", r.unwrap_or("panic".into()), n));
            }
        }
    }
}
pub fn run(o: &mut Out) {
    macro_rules! f { ($($t:ident)*) => { $(
        let n = stringify!($t);
        sample::<$t>(o, &format!("{n} normal"), Normal);
        sample::<Vector<$t, 3>>(o, &format!("{n} normal vector"), Normal);
        sample::<Vector<$t, 2>>(o, &format!("{n} non-zero vector"), NonZero);
        sample::<Vector<$t, 3>>(o, &format!("{n} unit vector"), Unit);
        sample::<Matrix<$t, 2, 3>>(o, &format!("{n} normal matrix"), Normal);
        sample::<Matrix<$t, 2, 2>>(o, &format!("{n} invertible matrix"), Invertible);
        sample::<Complex<$t>>(o, &format!("{n} normal complex"), Normal);
        sample::<Complex<$t>>(o, &format!("{n} non-zero complex"), NonZero);
        sample::<Complex<$t>>(o, &format!("{n} unit complex"), Unit);
        sample::<Quaternion<$t>>(o, &format!("{n} normal quaternion"), Normal);
        sample::<Quaternion<$t>>(o, &format!("{n} non-zero quaternion"), NonZero);
        sample::<Quaternion<$t>>(o, &format!("{n} unit quaternion"), Unit);
        for k in 0..40u64 {
            o.put("A", "rand", &format!("sample {n} moebius {k}"), || { let m: Moebius<$t> = Invertible.sample(&mut Words { s: k, n: 0, first: vec![] }); format!("{:?}", m.into_array()) });
        }
        sample::<Shift<$t, 2>>(o, &format!("{n} shift"), Normal);
        sample::<Scale<$t>>(o, &format!("{n} scale"), Normal);
        sample::<Linear<$t, 2>>(o, &format!("{n} linear"), Normal);
        sample::<Linear<$t, 2>>(o, &format!("{n} invertible linear"), Invertible);
        sample::<Affine<$t, 2>>(o, &format!("{n} affine"), Normal);
        sample::<Affine<$t, 2>>(o, &format!("{n} invertible affine"), Invertible);
        sample::<Rotation2<$t>>(o, &format!("{n} rotation2"), Uniform);
        sample::<Rotation3<$t>>(o, &format!("{n} rotation3"), Uniform);
    )* } }
    f!(f64 f32);
    sample::<Vector<u8, 3>>(o, "bytes", vecmat::vector::VectorDistribution::<_, u8, 3>::new(rand::distributions::Standard));
    sample::<Matrix<u16, 2, 2>>(o, "words", vecmat::matrix::MatrixDistribution::<_, u16, 2, 2>::new(rand::distributions::Standard));
}
