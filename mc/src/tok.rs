//! Owned elements with a ledger: each must be dropped exactly once.
use crate::{ensure, Ctx};
use std::cell::RefCell;

#[derive(Default)]
pub struct Ledger {
    drops: Vec<u8>,
    zst_made: u64,
    zst_dropped: u64,
    errors: Vec<String>,
}
thread_local! {
    static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
}
fn with<R>(f: impl FnOnce(&mut Ledger) -> R) -> R {
    LEDGER.with(|l| f(&mut l.borrow_mut()))
}
pub fn reset() {
    disarm();
    with(|l| {
        l.drops.clear();
        l.zst_made = 0;
        l.zst_dropped = 0;
        l.errors.clear();
    })
}
pub fn made() -> usize {
    with(|l| l.drops.len())
}
pub fn drops_of(id: u32) -> u8 {
    with(|l| l.drops.get(id as usize).copied().unwrap_or(255))
}
/// Number of elements made and not yet dropped.
pub fn live() -> i64 {
    with(|l| l.drops.iter().filter(|d| **d == 0).count() as i64 + l.zst_made as i64 - l.zst_dropped as i64)
}
fn new_id() -> u32 {
    with(|l| {
        l.drops.push(0);
        l.drops.len() as u32 - 1
    })
}
fn drop_id(id: u32, ok: bool) {
    with(|l| {
        if !ok {
            l.errors.push(format!("drop of something that is no live element (id field {:#x})", id));
            return;
        }
        match l.drops.get_mut(id as usize) {
            None => l.errors.push(format!("drop of an element that was never made (id {})", id)),
            Some(d) => {
                *d = d.saturating_add(1);
                if *d > 1 {
                    l.errors.push(format!("element {} dropped {} times", id, *d));
                }
            }
        }
    })
}
/// No element was dropped twice, and (unless `leak_ok`) every element was dropped.
pub fn settle(ctx: &Ctx, leak_ok: bool, what: &str) {
    let (errs, leaked, zm, zd) = with(|l| {
        (
            l.errors.clone(),
            l.drops.iter().enumerate().filter(|(_, d)| **d == 0).map(|(i, _)| i).collect::<Vec<_>>(),
            l.zst_made,
            l.zst_dropped,
        )
    });
    ensure!(ctx, errs.is_empty(), "{}: {:?}", what, errs);
    ensure!(ctx, zd <= zm, "{}: {} zero-sized elements made but {} dropped", what, zm, zd);
    if !leak_ok {
        ensure!(ctx, leaked.is_empty(), "{}: elements {:?} were never dropped", what, leaked);
        ensure!(ctx, zd == zm, "{}: {} zero-sized elements made but {} dropped", what, zm, zd);
    }
}

/// An owned element.
pub trait Elem: Sized + 'static {
    const NAMED: bool;
    fn make() -> Self;
    fn id(&self) -> u32;
}

const LIVE: u32 = 0x6c69_7665;
const DEAD: u32 = 0xdead_dead;

#[derive(Debug, PartialEq)]
pub struct Tok {
    magic: u32,
    id: u32,
}
impl Elem for Tok {
    const NAMED: bool = true;
    fn make() -> Self {
        Tok { magic: LIVE, id: new_id() }
    }
    fn id(&self) -> u32 {
        if self.magic == LIVE {
            self.id
        } else {
            u32::MAX
        }
    }
}
impl Default for Tok {
    fn default() -> Self {
        Tok::make()
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        drop_id(self.id, self.magic == LIVE);
        unsafe { std::ptr::write_volatile(&mut self.magic, DEAD) };
    }
}

/// Heap-allocated element: real double frees are visible to the allocator and to Miri.
#[derive(Debug, PartialEq)]
pub struct Boxed(Box<Tok>);
impl Elem for Boxed {
    const NAMED: bool = true;
    fn make() -> Self {
        Boxed(Box::new(Tok::make()))
    }
    fn id(&self) -> u32 {
        self.0.id()
    }
}
impl Default for Boxed {
    fn default() -> Self {
        Boxed::make()
    }
}

/// Over-aligned, large element.
#[derive(Debug, PartialEq)]
#[repr(align(32))]
pub struct Wide {
    pad: [u64; 5],
    t: Tok,
}
impl Elem for Wide {
    const NAMED: bool = true;
    fn make() -> Self {
        let t = Tok::make();
        Wide { pad: [t.id as u64; 5], t }
    }
    fn id(&self) -> u32 {
        if self.pad == [self.t.id as u64; 5] && (self as *const _ as usize) % 32 == 0 {
            self.t.id()
        } else {
            u32::MAX
        }
    }
}
impl Default for Wide {
    fn default() -> Self {
        Wide::make()
    }
}

/// One-byte element with a destructor.
#[derive(Debug, PartialEq)]
pub struct Tiny(u8);
impl Elem for Tiny {
    const NAMED: bool = true;
    fn make() -> Self {
        let id = new_id();
        assert!(id < 255, "too many one-byte elements");
        Tiny(id as u8)
    }
    fn id(&self) -> u32 {
        self.0 as u32
    }
}
impl Default for Tiny {
    fn default() -> Self {
        Tiny::make()
    }
}
impl Drop for Tiny {
    fn drop(&mut self) {
        drop_id(self.0 as u32, self.0 != 255);
        unsafe { std::ptr::write_volatile(&mut self.0, 255) };
    }
}

/// Element of many cache lines and of odd length.
#[derive(Debug, PartialEq)]
pub struct Huge {
    t: Tok,
    pad: [u32; 259],
}
impl Elem for Huge {
    const NAMED: bool = true;
    fn make() -> Self {
        let t = Tok::make();
        Huge { pad: [!t.id; 259], t }
    }
    fn id(&self) -> u32 {
        if self.pad.iter().all(|p| *p == !self.t.id) { self.t.id() } else { u32::MAX }
    }
}
impl Default for Huge {
    fn default() -> Self {
        Huge::make()
    }
}

/// Zero-sized element with a destructor.
#[derive(Debug, PartialEq)]
pub struct Zst;
impl Elem for Zst {
    const NAMED: bool = false;
    fn make() -> Self {
        with(|l| l.zst_made += 1);
        Zst
    }
    fn id(&self) -> u32 {
        0
    }
}
impl Default for Zst {
    fn default() -> Self {
        Zst::make()
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        with(|l| l.zst_dropped += 1);
    }
}

// ------------------------------------------------------------------ injected panics

thread_local! {
    static FUSE: std::cell::Cell<i64> = std::cell::Cell::new(-1);
}
/// The `k`-th following `tick` panics (negative: none does).
pub fn arm(k: i64) {
    FUSE.with(|f| f.set(k))
}
pub fn disarm() {
    arm(-1)
}
pub fn tick() {
    FUSE.with(|f| {
        let k = f.get();
        if k == 0 {
            f.set(-1);
            crate::inject();
        }
        if k > 0 {
            f.set(k - 1);
        }
    })
}
macro_rules! ticking {
    ($t:ty) => {
        impl Clone for $t {
            fn clone(&self) -> Self {
                tick();
                <$t as Elem>::make()
            }
        }
        impl std::ops::Add for $t {
            type Output = $t;
            fn add(self, _o: $t) -> $t {
                tick();
                <$t as Elem>::make()
            }
        }
        impl std::ops::Neg for $t {
            type Output = $t;
            fn neg(self) -> $t {
                tick();
                self
            }
        }
        impl std::ops::AddAssign for $t {
            fn add_assign(&mut self, _o: $t) {
                tick();
                *self = <$t as Elem>::make();
            }
        }
        impl num_traits::Zero for $t {
            fn zero() -> Self {
                tick();
                <$t as Elem>::make()
            }
            fn is_zero(&self) -> bool {
                tick();
                self.id() != u32::MAX
            }
        }
        impl PartialOrd for $t {
            fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
                tick();
                self.id().partial_cmp(&o.id())
            }
        }
    };
}
ticking!(Tok);
ticking!(Boxed);
ticking!(Wide);
ticking!(Zst);
ticking!(Tiny);
ticking!(Huge);
/// Everything an element of the ownership checks can do.
pub trait Own:
    Elem + Clone + Default + PartialEq + PartialOrd + std::fmt::Debug + num_traits::Zero
    + std::ops::Neg<Output = Self> + std::ops::AddAssign
{
}
impl<T> Own for T where
    T: Elem + Clone + Default + PartialEq + PartialOrd + std::fmt::Debug + num_traits::Zero
        + std::ops::Neg<Output = T> + std::ops::AddAssign
{
}
