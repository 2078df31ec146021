//! Element payloads and the ledger of values with destructors.
use crate::alloc::host;
use crate::explore::{choose_dev, record_c, CONTENT, TOK, TOKLEAK};
use std::cell::{Cell, RefCell};

#[derive(Clone, Copy, PartialEq, Debug)]
enum S {
    Live,
    Dead,
}
struct Ledger {
    st: Vec<(S, u64)>,
    small: Vec<(S, u64)>,
    zst: [(i64, u64); 2], // (live, total born)
    live: i64,
    clones: u64,
    drops: u64,
    births: u64,
}
thread_local! {
    static L: RefCell<Ledger> = RefCell::new(Ledger { st: vec![], small: vec![], zst: [(0,0);2], live: 0, clones: 0, drops: 0, births: 0 });
    static FAULTS: Cell<u32> = const { Cell::new(0) };
    static CLOCK: Cell<u64> = const { Cell::new(0) };
}
pub const F_MK: u32 = 1;
pub const F_CLONE: u32 = 2;
pub const F_DROP: u32 = 4;
pub const F_FN: u32 = 8;
pub const F_ITER: u32 = 16;

pub fn reset() {
    L.with(|l| {
        let mut l = l.borrow_mut();
        l.st.clear();
        l.small.clear();
        l.zst = [(0, 0); 2];
        l.live = 0;
        l.clones = 0;
        l.drops = 0;
        l.births = 0;
    });
    FAULTS.with(|f| f.set(0));
    CLOCK.with(|c| c.set(0));
    DEFAULTS.with(|d| d.set(0));
}
/// Which callbacks may panic from now on (each is a deviation choice point).
pub fn arm(mask: u32) -> u32 {
    FAULTS.with(|f| f.replace(mask))
}
pub fn armed() -> u32 {
    FAULTS.with(|f| f.get())
}
pub fn live() -> i64 {
    L.with(|l| l.borrow().live)
}
pub fn clones() -> u64 {
    L.with(|l| l.borrow().clones)
}
pub fn births() -> u64 {
    L.with(|l| l.borrow().births)
}
pub fn drops() -> u64 {
    L.with(|l| l.borrow().drops)
}
pub fn end_check() {
    let n = live();
    if n != 0 {
        record_c(TOKLEAK, || format!("{} value(s) with a destructor were never destroyed", n));
    }
}
pub struct Injected;
/// A user callback of class `bit`: may panic by explorer's choice.
pub fn fault_point(bit: u32) {
    if FAULTS.with(|f| f.get()) & bit == 0 || std::thread::panicking() {
        return;
    }
    let p = host(|| choose_dev(2)) == 1;
    if p {
        crate::explore::log(|| format!("<user code panics, class {}>", bit));
        crate::alloc::host(|| std::panic::panic_any(Injected));
    }
}
fn born(x: u64) -> u32 {
    host(|| L.with(|l| {
        let mut l = l.borrow_mut();
        l.st.push((S::Live, x));
        l.live += 1;
        l.births += 1;
        (l.st.len() - 1) as u32
    }))
}
fn peek(id: u32) -> u64 {
    L.with(|l| match l.borrow().st.get(id as usize) {
        Some((S::Live, x)) => *x,
        Some((S::Dead, _)) => {
            record_c(CONTENT | TOK, || format!("value #{} read after it was destroyed", id));
            u64::MAX
        }
        None => {
            record_c(CONTENT | TOK, || format!("garbage read where a value should be (id {:#x})", id));
            u64::MAX
        }
    })
}
fn die(id: u32) {
    L.with(|l| {
        let mut l = l.borrow_mut();
        match l.st.get_mut(id as usize) {
            Some(e @ (S::Live, _)) => {
                e.0 = S::Dead;
                l.live -= 1;
                l.drops += 1;
            }
            Some((S::Dead, _)) => record_c(TOK, || format!("value #{} destroyed twice", id)),
            None => record_c(TOK, || format!("destructor run on memory that never held a value (id {:#x})", id)),
        }
    })
}
fn sborn(x: u64) -> u8 {
    host(|| L.with(|l| {
        let mut l = l.borrow_mut();
        l.small.push((S::Live, x));
        l.live += 1;
        l.births += 1;
        if l.small.len() > 200 {
            eprintln!("ENGINE ERROR: too many one-byte tokens");
            std::process::exit(2);
        }
        l.small.len() as u8
    }))
}
fn speek(id: u8) -> u64 {
    L.with(|l| match l.borrow().small.get((id as usize).wrapping_sub(1)) {
        Some((S::Live, x)) => *x,
        Some((S::Dead, _)) => {
            record_c(CONTENT | TOK, || format!("value t{} read after it was destroyed", id));
            u64::MAX
        }
        None => {
            record_c(CONTENT | TOK, || format!("garbage read where a value should be (byte {:#x})", id));
            u64::MAX
        }
    })
}
fn sdie(id: u8) {
    L.with(|l| {
        let mut l = l.borrow_mut();
        match l.small.get_mut((id as usize).wrapping_sub(1)) {
            Some(e @ (S::Live, _)) => {
                e.0 = S::Dead;
                l.live -= 1;
                l.drops += 1;
            }
            Some((S::Dead, _)) => record_c(TOK, || format!("value t{} destroyed twice", id)),
            None => record_c(TOK, || format!("destructor run on memory that never held a value (byte {:#x})", id)),
        }
    })
}
fn zborn(k: usize) {
    L.with(|l| {
        let mut l = l.borrow_mut();
        l.zst[k].0 += 1;
        l.zst[k].1 += 1;
        l.live += 1;
        l.births += 1;
    })
}
fn zdie(k: usize) {
    L.with(|l| {
        let mut l = l.borrow_mut();
        l.zst[k].0 -= 1;
        l.live -= 1;
        l.drops += 1;
        if l.zst[k].0 < 0 {
            record_c(TOK, || "zero-size value destroyed more often than created".into());
        }
    })
}

/// An element payload. `mk(x)` builds a value that reads back as `x & MASK`.
pub trait Pay: Sized + 'static + Clone {
    const NAME: &'static str;
    const MASK: u64;
    /// has a destructor we account for
    const TOK: bool;
    fn mk(x: u64) -> Self;
    fn val(&self) -> u64;
    type CopyInit<'a>: varlen::array_init::ArrayInitializer<Self>;
    fn copy_init<'a>(s: &'a [Self]) -> Self::CopyInit<'a>;
    /// read through possibly-aliased memory without materializing ownership
    fn align_ok(&self) -> bool {
        (self as *const Self as usize) % std::mem::align_of::<Self>() == 0
    }
}
macro_rules! pay_copy {
    ($t:ty, $n:expr, $mask:expr, |$x:ident| $mk:expr, |$s:ident| $val:expr) => {
        impl Pay for $t {
            const NAME: &'static str = $n;
            const MASK: u64 = $mask;
            const TOK: bool = false;
            #[inline]
            fn mk($x: u64) -> Self {
                $mk
            }
            #[inline]
            fn val(&self) -> u64 {
                let $s = self;
                $val
            }
            type CopyInit<'a> = varlen::array_init::CopyFrom<'a, $t>;
            fn copy_init<'a>(s: &'a [Self]) -> Self::CopyInit<'a> {
                varlen::array_init::CopyFrom(s)
            }
        }
    };
}
pay_copy!(u8, "u8", 0xff, |x| x as u8, |s| *s as u64);
pay_copy!(u16, "u16", 0xffff, |x| x as u16, |s| *s as u64);
pay_copy!(u32, "u32", 0xffff_ffff, |x| x as u32, |s| *s as u64);
pay_copy!(u64, "u64", u64::MAX, |x| x, |s| *s);
pay_copy!([u8; 3], "[u8;3]", 0xff_ffff, |x| [x as u8, (x >> 8) as u8, (x >> 16) as u8], |s| s[0] as u64 | (s[1] as u64) << 8 | (s[2] as u64) << 16);
pay_copy!((), "()", 0, |_x| (), |_s| 0);
#[derive(Clone, Copy, Default)]
#[repr(C, align(16))]
pub struct A16(pub u64);
pay_copy!(A16, "A16", u64::MAX, |x| A16(x), |s| s.0);
#[derive(Clone, Copy, Default)]
#[repr(C, align(64))]
pub struct A64(pub u32);
pay_copy!(A64, "A64", 0xffff_ffff, |x| A64(x as u32), |s| s.0 as u64);
/// alignments that do not fit a byte, a page, 16 bits
#[derive(Clone, Copy, Default)]
#[repr(C, align(256))]
pub struct A256(pub u16);
pay_copy!(A256, "A256", 0xffff, |x| A256(x as u16), |s| s.0 as u64);
#[derive(Clone, Copy, Default)]
#[repr(C, align(4096))]
pub struct A4096(pub u8);
pay_copy!(A4096, "A4096", 0xff, |x| A4096(x as u8), |s| s.0 as u64);
#[derive(Clone, Copy, Default)]
#[repr(C, align(65536))]
pub struct A65536(pub u64);
pay_copy!(A65536, "A65536", u64::MAX, |x| A65536(x), |s| s.0);
pub const CK_MASK: u64 = 0x7fff_ffff_ffff_ffff;
/// Bitwise copyable, but its Clone is counted.
#[derive(Debug, Default)]
pub struct CK(u64);
impl Clone for CK {
    #[allow(clippy::non_canonical_clone_impl)]
    fn clone(&self) -> CK {
        fault_point(F_CLONE);
        L.with(|l| l.borrow_mut().clones += 1);
        CK(self.0)
    }
}
impl Copy for CK {}
pay_copy!(CK, "CK", CK_MASK, |x| CK(x & CK_MASK), |s| s.0);
/// Nothing at all, bitwise copyable, no destructor; its Clone and its Default are counted.
#[derive(Debug)]
pub struct CZ;
impl Clone for CZ {
    #[allow(clippy::non_canonical_clone_impl)]
    fn clone(&self) -> CZ {
        fault_point(F_CLONE);
        L.with(|l| l.borrow_mut().clones += 1);
        CZ
    }
}
impl Copy for CZ {}
impl Default for CZ {
    fn default() -> CZ {
        DEFAULTS.with(|d| d.set(d.get() + 1));
        CZ
    }
}
pay_copy!(CZ, "CZ", 0, |_x| CZ, |_s| 0);
/// Every Default is a different value, the first bytes of which are zero.
#[derive(Debug, Clone, Copy)]
pub struct DV(u64);
impl Default for DV {
    fn default() -> DV {
        DEFAULTS.with(|d| {
            d.set(d.get() + 1);
            DV(dv(d.get() - 1))
        })
    }
}
fn dv(k: u64) -> u64 {
    u64::from_be_bytes((0x0000_5a00 + k * 0x101 + 1).to_be_bytes()).swap_bytes()
}
pay_copy!(DV, "DV", u64::MAX, |x| DV(x), |s| s.0);
/// Every Default is the same value, neither zero nor all bytes alike.
#[derive(Debug, Clone, Copy)]
pub struct DF([u8; 3]);
impl Default for DF {
    fn default() -> DF {
        DEFAULTS.with(|d| d.set(d.get() + 1));
        DF([0, 0xff, 7])
    }
}
pay_copy!(DF, "DF", 0xff_ffff, |x| DF([x as u8, (x >> 8) as u8, (x >> 16) as u8]), |s| s.0[0] as u64 | (s.0[1] as u64) << 8 | (s.0[2] as u64) << 16);
thread_local! {
    static DEFAULTS: Cell<u64> = const { Cell::new(0) };
}
/// calls of the Default of the last three types
pub fn defaults() -> u64 {
    DEFAULTS.with(|d| d.get())
}
/// what the k-th of these calls made, for the type of this name
pub fn default_val(name: &str, k: u64) -> u64 {
    match name {
        "DV" => dv(k),
        "DF" => 0x07_ff00,
        _ => 0,
    }
}
pub fn counts_defaults(name: &str) -> bool {
    matches!(name, "CZ" | "DV" | "DF")
}
/// zero size, alignment 8
pub type Z8 = [u64; 0];
pay_copy!([u64; 0], "[u64;0]", 0, |_x| [], |_s| 0);

macro_rules! pay_tok {
    ($t:ident, $n:expr, $mk:expr, $peek:expr, $die:expr, $mask:expr) => {
        impl Pay for $t {
            const NAME: &'static str = $n;
            const MASK: u64 = $mask;
            const TOK: bool = true;
            fn mk(x: u64) -> Self {
                fault_point(F_MK);
                ($mk)(x)
            }
            fn val(&self) -> u64 {
                ($peek)(self)
            }
            type CopyInit<'a> = varlen::array_init::CloneFrom<'a, $t>;
            fn copy_init<'a>(s: &'a [Self]) -> Self::CopyInit<'a> {
                varlen::array_init::CloneFrom(s)
            }
        }
        impl Clone for $t {
            fn clone(&self) -> Self {
                fault_point(F_CLONE);
                L.with(|l| l.borrow_mut().clones += 1);
                let x: u64 = ($peek)(self);
                ($mk)(x)
            }
        }
        impl Drop for $t {
            fn drop(&mut self) {
                ($die)(self);
                fault_point(F_DROP);
            }
        }
        impl Default for $t {
            fn default() -> Self {
                fault_point(F_FN);
                ($mk)(0)
            }
        }
    };
}
fn p64(a: u32, b: u32, what: &str) -> u64 {
    if a != !b {
        record_c(CONTENT | TOK, || format!("corrupted value in {}", what));
    }
    peek(a)
}
/// 8 bytes, align 4
pub struct T8(u32, u32);
pay_tok!(T8, "T8", |x| { let i = born(x); T8(i, !i) }, |s: &T8| p64(s.0, s.1, "T8"), |s: &T8| { p64(s.0, s.1, "T8"); die(s.0) }, u64::MAX);
/// 1 byte
pub struct T1(u8);
pay_tok!(T1, "T1", |x| T1(sborn(x)), |s: &T1| speek(s.0), |s: &T1| sdie(s.0), u64::MAX);
/// 2 bytes, align 2
pub struct T2(u16);
pay_tok!(T2, "T2", |x| T2(born(x) as u16), |s: &T2| peek(s.0 as u32), |s: &T2| die(s.0 as u32), u64::MAX);
/// 12 bytes, align 4
pub struct T12(u32, u32, u32);
pay_tok!(T12, "T12", |x| { let i = born(x); T12(i, !i, i ^ 0x5555) }, |s: &T12| p64(s.0, s.1, "T12"), |s: &T12| { p64(s.0, s.1, "T12"); p64(s.2 ^ 0x5555, s.1, "T12 tail"); die(s.0) }, u64::MAX);
/// 16 bytes, align 16
#[repr(C, align(16))]
pub struct T16(u32, u32);
pay_tok!(T16, "T16", |x| { let i = born(x); T16(i, !i) }, |s: &T16| p64(s.0, s.1, "T16"), |s: &T16| die(s.0), u64::MAX);
/// 64 bytes, align 64
#[repr(C, align(64))]
pub struct T64(u32, u32);
pay_tok!(T64, "T64", |x| { let i = born(x); T64(i, !i) }, |s: &T64| p64(s.0, s.1, "T64"), |s: &T64| die(s.0), u64::MAX);
/// 0 bytes, with destructor
pub struct TZ(());
pay_tok!(TZ, "TZ", |_x| { zborn(0); TZ(()) }, |_s: &TZ| 0, |_s: &TZ| zdie(0), 0);
/// 0 bytes, align 16, with destructor
#[repr(C, align(16))]
pub struct TZ16(());
pay_tok!(TZ16, "TZ16", |_x| { zborn(1); TZ16(()) }, |_s: &TZ16| 0, |_s: &TZ16| zdie(1), 0);

/// a value that controls lengths and owns something: destroyed once, like any other field
#[derive(Clone)]
pub struct CT {
    pub n: u16,
    t: T8,
}
impl CT {
    pub fn mk(x: u64) -> CT {
        CT { n: x as u16, t: T8::mk(x & 0xffff) }
    }
    pub fn val(&self) -> u64 {
        let x = self.t.val();
        if x != self.n as u64 {
            record_c(CONTENT | TOK, || format!("corrupted controller: {} and {}", self.n, x));
        }
        self.n as u64
    }
}
