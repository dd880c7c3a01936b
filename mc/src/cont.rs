//! Vectors and matrices seen as flat lists in row-major order (through their array views only).
use vecmat::{Matrix, Vector};

pub trait Cont<T: Copy>: Copy {
    const LEN: usize;
    fn of(l: &[T]) -> Self;
    fn list(&self) -> Vec<T>;
}
impl<T: Copy, const N: usize> Cont<T> for Vector<T, N> {
    const LEN: usize = N;
    fn of(l: &[T]) -> Self {
        assert_eq!(l.len(), N);
        Vector::from_array(std::array::from_fn(|i| l[i]))
    }
    fn list(&self) -> Vec<T> {
        self.as_array().to_vec()
    }
}
impl<T: Copy, const M: usize, const N: usize> Cont<T> for Matrix<T, M, N> {
    const LEN: usize = M * N;
    fn of(l: &[T]) -> Self {
        assert_eq!(l.len(), M * N);
        Matrix::from_array_of_arrays(std::array::from_fn(|i| std::array::from_fn(|j| l[i * N + j])))
    }
    fn list(&self) -> Vec<T> {
        self.into_array_of_arrays().iter().flatten().copied().collect()
    }
}

pub mod kinds {
    pub type V<T, const N: usize> = vecmat::Vector<T, N>;
    pub type M<T, const A: usize, const B: usize> = vecmat::Matrix<T, A, B>;
}

/// `each_c!(reg, "name", func<Type>, [V 1, V 2, M 2 3])` registers `func::<Type, Vector<Type, 1>>` and so on.
#[macro_export]
macro_rules! each_c {
    ($r:expr, $name:expr, $f:ident<$t:ty>, [$($k:ident $($n:literal)+),* $(,)?]) => {
        $( $r.add(
            format!("{}<{}>/{}{}", $name, stringify!($t), stringify!($k), stringify!($($n)x+).replace(' ', "")),
            $f::<$t, $crate::cont::kinds::$k<$t, $($n),+>>,
        ); )*
    };
}
