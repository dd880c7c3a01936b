//! Exact and symbolic scalars for which whole algebraic structures can be enumerated.
use num_traits::{Inv, Num, NumCast, One, ToPrimitive, Zero};
use std::ops::*;

// ------------------------------------------------------------------ finite fields

/// Prime field. Division by zero panics.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default, PartialOrd)]
pub struct Fp<const P: u32>(pub u32);
pub type F2 = Fp<2>;
pub type F3 = Fp<3>;
pub type F5 = Fp<5>;
pub type F7 = Fp<7>;
pub type F11 = Fp<11>;

impl<const P: u32> Fp<P> {
    pub fn new(x: i64) -> Self {
        Fp(x.rem_euclid(P as i64) as u32)
    }
    pub fn all() -> Vec<Self> {
        (0..P).map(Fp).collect()
    }
    pub fn pow(self, mut e: u32) -> Self {
        let (mut b, mut r) = (self, Fp(1 % P));
        while e > 0 {
            if e & 1 == 1 {
                r = r * b;
            }
            b = b * b;
            e >>= 1;
        }
        r
    }
    pub fn recip(self) -> Self {
        if self.0 == 0 {
            panic!("division by zero in the field");
        }
        self.pow(P - 2)
    }
}
impl<const P: u32> Add for Fp<P> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Fp((self.0 + o.0) % P)
    }
}
impl<const P: u32> Sub for Fp<P> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        Fp((self.0 + P - o.0) % P)
    }
}
impl<const P: u32> Mul for Fp<P> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        Fp(self.0 * o.0 % P)
    }
}
impl<const P: u32> Div for Fp<P> {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        self * if P == 2 && o.0 == 1 { o } else { o.recip() }
    }
}
impl<const P: u32> Rem for Fp<P> {
    type Output = Self;
    fn rem(self, o: Self) -> Self {
        assert!(o.0 != 0, "remainder by zero in the field");
        Fp(0)
    }
}
impl<const P: u32> Neg for Fp<P> {
    type Output = Self;
    fn neg(self) -> Self {
        Fp((P - self.0) % P)
    }
}
macro_rules! assign_ops {
    ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> AddAssign for $t { fn add_assign(&mut self, o: Self) { *self = *self + o; } }
        impl<$($g)*> SubAssign for $t { fn sub_assign(&mut self, o: Self) { *self = *self - o; } }
        impl<$($g)*> MulAssign for $t { fn mul_assign(&mut self, o: Self) { *self = *self * o; } }
        impl<$($g)*> DivAssign for $t { fn div_assign(&mut self, o: Self) { *self = *self / o; } }
        impl<$($g)*> RemAssign for $t { fn rem_assign(&mut self, o: Self) { *self = *self % o; } }
    };
}
assign_ops!([const P: u32] Fp<P>);
impl<const P: u32> Zero for Fp<P> {
    fn zero() -> Self {
        Fp(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl<const P: u32> One for Fp<P> {
    fn one() -> Self {
        Fp(1 % P)
    }
}
impl<const P: u32> Num for Fp<P> {
    type FromStrRadixErr = std::num::ParseIntError;
    fn from_str_radix(s: &str, r: u32) -> Result<Self, Self::FromStrRadixErr> {
        i64::from_str_radix(s, r).map(Self::new)
    }
}
impl<const P: u32> Inv for Fp<P> {
    type Output = Self;
    fn inv(self) -> Self {
        if P == 2 {
            assert!(self.0 == 1, "division by zero in the field");
            self
        } else {
            self.recip()
        }
    }
}
impl<const P: u32> ToPrimitive for Fp<P> {
    fn to_i64(&self) -> Option<i64> {
        Some(self.0 as i64)
    }
    fn to_u64(&self) -> Option<u64> {
        Some(self.0 as u64)
    }
}
impl<const P: u32> NumCast for Fp<P> {
    fn from<T: ToPrimitive>(n: T) -> Option<Self> {
        let f = n.to_f64()?;
        if f.fract() != 0.0 {
            let h = f * 2.0;
            if h.fract() != 0.0 || P == 2 {
                return None;
            }
            return Some(Self::new(h as i64) / Self::new(2));
        }
        Some(Self::new(f as i64))
    }
}
impl<const P: u32> std::fmt::Display for Fp<P> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}

// ------------------------------------------------------------------ dual numbers

/// `a + b eps` with `eps^2 = 0`: evaluating a map on it gives its exact derivative.
#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct Dual<F>(pub F, pub F);
impl<F: Num + Copy + Neg<Output = F>> Add for Dual<F> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Dual(self.0 + o.0, self.1 + o.1)
    }
}
impl<F: Num + Copy + Neg<Output = F>> Sub for Dual<F> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        Dual(self.0 - o.0, self.1 - o.1)
    }
}
impl<F: Num + Copy + Neg<Output = F>> Mul for Dual<F> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        Dual(self.0 * o.0, self.0 * o.1 + self.1 * o.0)
    }
}
impl<F: Num + Copy + Neg<Output = F>> Div for Dual<F> {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        let q = self.0 / o.0;
        Dual(q, (self.1 - q * o.1) / o.0)
    }
}
impl<F: Num + Copy + Neg<Output = F>> Rem for Dual<F> {
    type Output = Self;
    fn rem(self, _: Self) -> Self {
        Dual(F::zero(), F::zero())
    }
}
impl<F: Num + Copy + Neg<Output = F>> Neg for Dual<F> {
    type Output = Self;
    fn neg(self) -> Self {
        Dual(-self.0, -self.1)
    }
}
impl<F: Num + Copy + Neg<Output = F>> Zero for Dual<F> {
    fn zero() -> Self {
        Dual(F::zero(), F::zero())
    }
    fn is_zero(&self) -> bool {
        self.0.is_zero() && self.1.is_zero()
    }
}
impl<F: Num + Copy + Neg<Output = F>> One for Dual<F> {
    fn one() -> Self {
        Dual(F::one(), F::zero())
    }
}
impl<F: Num + Copy + Neg<Output = F>> Num for Dual<F> {
    type FromStrRadixErr = F::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<Self, Self::FromStrRadixErr> {
        F::from_str_radix(s, r).map(|x| Dual(x, F::zero()))
    }
}
impl<F: Num + Copy + Neg<Output = F>> Inv for Dual<F> {
    type Output = Self;
    fn inv(self) -> Self {
        Self::one() / self
    }
}
impl<F: ToPrimitive> ToPrimitive for Dual<F> {
    fn to_i64(&self) -> Option<i64> {
        self.0.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.0.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        self.0.to_f64()
    }
}
impl<F: NumCast + Num> NumCast for Dual<F> {
    fn from<T: ToPrimitive>(n: T) -> Option<Self> {
        <F as NumCast>::from(n).map(|x| Dual(x, F::zero()))
    }
}

impl<F: Num + Copy + Neg<Output = F>> AddAssign for Dual<F> { fn add_assign(&mut self, o: Self) { *self = *self + o; } }
impl<F: Num + Copy + Neg<Output = F>> SubAssign for Dual<F> { fn sub_assign(&mut self, o: Self) { *self = *self - o; } }
impl<F: Num + Copy + Neg<Output = F>> MulAssign for Dual<F> { fn mul_assign(&mut self, o: Self) { *self = *self * o; } }
impl<F: Num + Copy + Neg<Output = F>> DivAssign for Dual<F> { fn div_assign(&mut self, o: Self) { *self = *self / o; } }
impl<F: Num + Copy + Neg<Output = F>> RemAssign for Dual<F> { fn rem_assign(&mut self, o: Self) { *self = *self % o; } }

// ------------------------------------------------------------------ uninterpreted operations

/// Element on which every operation is an uninterpreted (injective up to hashing) function of
/// its operands in order: equality of results means equality of the terms that were built.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default, PartialOrd)]
pub struct Sym(pub u64);
pub fn term(op: u64, a: u64, b: u64) -> u64 {
    let mut z = (op.wrapping_mul(0x9e37_79b9_7f4a_7c15))
        ^ a.wrapping_mul(0xff51_afd7_ed55_8ccd).rotate_left(17)
        ^ b.wrapping_mul(0xc4ce_b9fe_1a85_ec53).rotate_left(41);
    z = (z ^ (z >> 32)).wrapping_mul(0xd6e8_feb8_6659_fd93);
    z = (z ^ (z >> 32)).wrapping_mul(0xd6e8_feb8_6659_fd93);
    z ^ (z >> 32)
}
macro_rules! sym_op {
    ($($tr:ident $f:ident $atr:ident $af:ident $c:literal;)*) => { $(
        impl $tr for Sym { type Output = Sym; fn $f(self, o: Sym) -> Sym { Sym(term($c, self.0, o.0)) } }
        impl $atr for Sym { fn $af(&mut self, o: Sym) { *self = Sym(term($c, self.0, o.0)); } }
    )* };
}
sym_op! {
    Add add AddAssign add_assign 1;
    Sub sub SubAssign sub_assign 2;
    Mul mul MulAssign mul_assign 3;
    Div div DivAssign div_assign 4;
    Rem rem RemAssign rem_assign 5;
    BitAnd bitand BitAndAssign bitand_assign 6;
    BitOr bitor BitOrAssign bitor_assign 7;
    BitXor bitxor BitXorAssign bitxor_assign 8;
}
impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        Sym(term(9, self.0, 0))
    }
}
impl Not for Sym {
    type Output = Sym;
    fn not(self) -> Sym {
        Sym(term(10, self.0, 0))
    }
}

// ------------------------------------------------------------------ a non-commutative ring

/// 2x2 matrices over Z/2^32: associative, distributive, not commutative.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub struct Nc(pub [u32; 4]);
impl Nc {
    /// A fixed "generic" element for each label.
    pub fn letter(i: u32) -> Nc {
        let g = |k: u64| term(77, i as u64, k) as u32;
        Nc([g(0), g(1), g(2), g(3)])
    }
}
impl Add for Nc {
    type Output = Nc;
    fn add(self, o: Nc) -> Nc {
        let mut r = [0; 4];
        for i in 0..4 {
            r[i] = self.0[i].wrapping_add(o.0[i]);
        }
        Nc(r)
    }
}
impl Sub for Nc {
    type Output = Nc;
    fn sub(self, o: Nc) -> Nc {
        let mut r = [0; 4];
        for i in 0..4 {
            r[i] = self.0[i].wrapping_sub(o.0[i]);
        }
        Nc(r)
    }
}
impl Neg for Nc {
    type Output = Nc;
    fn neg(self) -> Nc {
        Nc([0; 4]) - self
    }
}
impl Mul for Nc {
    type Output = Nc;
    fn mul(self, o: Nc) -> Nc {
        let (a, b) = (self.0, o.0);
        let m = |x: u32, y: u32| x.wrapping_mul(y);
        Nc([
            m(a[0], b[0]).wrapping_add(m(a[1], b[2])),
            m(a[0], b[1]).wrapping_add(m(a[1], b[3])),
            m(a[2], b[0]).wrapping_add(m(a[3], b[2])),
            m(a[2], b[1]).wrapping_add(m(a[3], b[3])),
        ])
    }
}
impl Zero for Nc {
    fn zero() -> Nc {
        Nc([0; 4])
    }
    fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
}
impl One for Nc {
    fn one() -> Nc {
        Nc([1, 0, 0, 1])
    }
}

// ------------------------------------------------------------------ a partial order

/// Subsets ordered by inclusion: a genuinely partial order.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Subset(pub u8);
impl PartialOrd for Subset {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        use std::cmp::Ordering::*;
        if self.0 == o.0 {
            Some(Equal)
        } else if self.0 & o.0 == self.0 {
            Some(Less)
        } else if self.0 & o.0 == o.0 {
            Some(Greater)
        } else {
            None
        }
    }
}

// ------------------------------------------------------------------ helpers

/// The `i`-th tuple of length `n` over an alphabet of `k` values.
pub fn digits(mut i: usize, k: usize, n: usize) -> Vec<usize> {
    let mut v = vec![0; n];
    for d in v.iter_mut() {
        *d = i % k;
        i /= k;
    }
    v
}
