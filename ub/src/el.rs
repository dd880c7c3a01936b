//! Element types of different size, alignment, validity and destructors.
use std::cell::Cell;
use std::num::NonZeroU32;

pub trait El: Sized + 'static {
    const NAMED: bool = true;
    fn make(k: u32) -> Self;
    /// Reads the whole element.
    fn key(&self) -> u32;
}
macro_rules! int {
    ($($t:ty)*) => { $( impl El for $t {
        fn make(k: u32) -> Self { k as $t }
        fn key(&self) -> u32 { *self as u32 }
    } )* };
}
int!(u8 u16 u64 u128);
impl El for NonZeroU32 {
    fn make(k: u32) -> Self {
        NonZeroU32::new(k + 1).unwrap()
    }
    fn key(&self) -> u32 {
        self.get() - 1
    }
}
pub type Bx = Box<u32>;
impl El for Bx {
    fn make(k: u32) -> Self {
        Box::new(k)
    }
    fn key(&self) -> u32 {
        **self
    }
}
/// Padding between the fields.
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Pad(u8, Box<u32>, u16);
impl El for Pad {
    fn make(k: u32) -> Self {
        Pad(k as u8, Box::new(k), k as u16)
    }
    fn key(&self) -> u32 {
        if self.0 as u32 == *self.1 && self.2 as u32 == *self.1 { *self.1 } else { u32::MAX }
    }
}
/// Many cache lines.
#[derive(Clone, PartialEq, Debug)]
pub struct Big([u16; 150], Box<u32>);
impl El for Big {
    fn make(k: u32) -> Self {
        Big([k as u16; 150], Box::new(k))
    }
    fn key(&self) -> u32 {
        if self.0[0] as u32 == *self.1 && self.0[149] as u32 == *self.1 { *self.1 } else { u32::MAX }
    }
}
impl Default for Big {
    fn default() -> Self {
        Big::make(0)
    }
}
#[derive(Clone, PartialEq, Debug, Default)]
#[repr(align(64))]
pub struct Al(Option<Box<u16>>);
impl El for Al {
    fn make(k: u32) -> Self {
        Al(if k == 0 { None } else { Some(Box::new(k as u16)) })
    }
    fn key(&self) -> u32 {
        if (self as *const _ as usize) % 64 != 0 {
            return u32::MAX;
        }
        self.0.as_ref().map_or(0, |b| **b as u32)
    }
}
/// Zero-sized with destructor.
#[derive(PartialEq, Debug)]
pub struct Zd;
thread_local!(pub static ZD: Cell<i64> = const { Cell::new(0) });
impl El for Zd {
    const NAMED: bool = false;
    fn make(_: u32) -> Self {
        ZD.with(|c| c.set(c.get() + 1));
        Zd
    }
    fn key(&self) -> u32 {
        0
    }
}
impl Clone for Zd {
    fn clone(&self) -> Self {
        Zd::make(0)
    }
}
impl Default for Zd {
    fn default() -> Self {
        Zd::make(0)
    }
}
impl Drop for Zd {
    fn drop(&mut self) {
        ZD.with(|c| c.set(c.get() - 1));
    }
}
/// Zero-sized, over-aligned, without destructor.
#[derive(Clone, Copy, PartialEq, Debug, Default)]
#[repr(align(16))]
pub struct Za;
impl El for Za {
    const NAMED: bool = false;
    fn make(_: u32) -> Self {
        Za
    }
    fn key(&self) -> u32 {
        if (self as *const _ as usize) % 16 == 0 { 0 } else { u32::MAX }
    }
}
