//! Uniform view of variable-length types: how to build, read, change and lay out each of them.
//! The content of any object is a list of leaves (in declaration order, nested fields flattened),
//! each a list of cells.
use crate::alloc::{host, lib};
use crate::explore::H;
use crate::tok::{fault_point, Pay, F_FN, F_ITER};
use std::cell::RefCell;
use std::mem::MaybeUninit;
use std::pin::Pin;
use std::ptr::NonNull;
use varlen::array::SizedInit;
use varlen::array_init::{ArrayInitializer, CloneFrom, FillSequentially, FromIterPrefix, MoveFrom};
use varlen::prelude::{tup2, tup3, tup4, tup5, Array, ArrayLen, Str, Tup2, Tup3, Tup4, Tup5};
use varlen::{FixedLen, Initializer, Owned, VBox, VClone, VarLen};

pub type Val = Vec<Vec<u64>>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    /// exactly one cell
    Fixed(u64),
    /// any number of cells up to the length type's maximum
    Arr(u64, usize),
    /// bytes of a UTF-8 string
    Str(usize),
    /// a layout-controlling field (one cell); its "length" in a list of lengths is its value
    Ctl,
    /// an array whose length is given by controllers
    Dep(u64),
}
impl Kind {
    pub fn mask(self) -> u64 {
        match self {
            Kind::Fixed(m) | Kind::Arr(m, _) | Kind::Dep(m) => m,
            Kind::Str(_) => 0xff,
            Kind::Ctl => u64::MAX,
        }
    }
}

/// Things that must outlive initializers: an arena, source objects and slices.
pub struct Env {
    pub bump: bumpalo::Bump,
    deferred: RefCell<Vec<Box<dyn FnOnce()>>>,
    guards: RefCell<Vec<(*const u8, usize)>>,
    /// live tokens owned by the environment
    pub tok: std::cell::Cell<i64>,
}
impl Env {
    pub fn new() -> Env {
        host(|| Env { bump: bumpalo::Bump::new(), deferred: RefCell::new(vec![]), guards: RefCell::new(vec![]), tok: Default::default() })
    }
    pub fn defer(&self, f: impl FnOnce() + 'static) {
        host(|| self.deferred.borrow_mut().push(Box::new(f)));
    }
    /// A slice of payload values that lives as long as the environment.
    pub fn slice<P: Pay>(&self, v: &[u64]) -> &[P] {
        host(|| {
            let b0 = crate::tok::live();
            let b: Box<[P]> = v.iter().map(|&x| P::mk(x)).collect();
            self.tok.set(self.tok.get() + crate::tok::live() - b0);
            let p = Box::into_raw(b);
            self.defer(move || drop(unsafe { Box::from_raw(p) }));
            unsafe { &*p }
        })
    }
    pub fn raw<T: 'static>(&self, v: T) -> &T {
        host(|| {
            let p = Box::into_raw(Box::new(v));
            self.defer(move || drop(unsafe { Box::from_raw(p) }));
            unsafe { &*p }
        })
    }
    /// A boxed object, kept alive until the environment goes.
    pub fn keep<T: VarLen + 'static>(&self, b: VBox<T>) -> &T {
        let p = unsafe { b.into_raw() };
        self.defer(move || lib(|| drop(unsafe { VBox::from_raw(p) })));
        unsafe { &*p }
    }
    pub fn guard(&self) {
        host(|| {
            let s = self.bump.alloc_slice_fill_copy(24, 0x77u8);
            self.guards.borrow_mut().push((s.as_ptr(), s.len()));
        })
    }
    pub fn check_guards(&self) {
        for &(p, n) in self.guards.borrow().iter() {
            let s = unsafe { std::slice::from_raw_parts(p, n) };
            if s.iter().any(|&b| b != 0x77) {
                crate::explore::record_c(crate::explore::MEM, || "write outside an arena object's storage".into());
            }
        }
    }
    pub fn finish(&self) {
        self.check_guards();
        loop {
            let f = self.deferred.borrow_mut().pop();
            match f {
                Some(f) => host(f),
                None => break,
            }
        }
    }
}
impl Drop for Env {
    fn drop(&mut self) {
        self.finish();
    }
}

pub type Ch<'c> = &'c mut dyn FnMut(usize) -> usize;

pub trait Subj: VarLen + Sized + 'static {
    type Direct<'e>: Initializer<Self>;
    type Clo<'e>: Initializer<Self>;
    fn name() -> String;
    fn kinds(out: &mut Vec<Kind>);
    /// which leaves hold values with destructors
    fn toks(out: &mut Vec<bool>);
    fn leaves() -> usize {
        let mut v = vec![];
        Self::kinds(&mut v);
        v.len()
    }
    /// All valid vectors of leaf lengths with lengths from `ls`.
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut ks = vec![];
        Self::kinds(&mut ks);
        let mut out = vec![vec![]];
        for k in ks {
            let opts: Vec<usize> = match k {
                Kind::Fixed(_) => vec![1],
                Kind::Arr(_, m) | Kind::Str(m) => ls.iter().copied().filter(|&l| l <= m).collect(),
                Kind::Ctl | Kind::Dep(_) => unreachable!(),
            };
            out = out.into_iter().flat_map(|p: Vec<usize>| opts.iter().map(move |&o| { let mut q = p.clone(); q.push(o); q })).collect();
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val {
        let mut ks = vec![];
        Self::kinds(&mut ks);
        ks.iter().zip(lens).enumerate().map(|(l, (k, &n))| match k {
            Kind::Str(_) => str_bytes(n, seed.wrapping_add(l as u64)).into_iter().map(|b| b as u64).collect(),
            Kind::Ctl => vec![n as u64],
            k => (0..n).map(|j| cell(seed, l, j) & k.mask()).collect(),
        }).collect()
    }
    fn r_align() -> usize;
    /// Reference layout: appends (offset, bytes) of each leaf, returns the size. `base` is the offset of
    /// this object in the outermost one.
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize;
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e>;
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>>;
    fn read(&self, out: &mut Val);
    /// (address, bytes) of each leaf
    fn parts(&self, out: &mut Vec<(usize, usize)>);
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64);
    /// All leaves mutably at once; every cell replaced by f(leaf, index, old).
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64);
}

pub fn cell(seed: u64, leaf: usize, j: usize) -> u64 {
    let mut h = H::new(seed);
    h.u(leaf as u64 * 1000 + j as u64);
    h.get()
}
/// n bytes of valid UTF-8 determined by seed.
pub fn str_bytes(n: usize, seed: u64) -> Vec<u8> {
    let mut s = String::new();
    let mut i = seed;
    while s.len() < n {
        let c = match (i % 4, n - s.len()) {
            (1, r) if r >= 2 => 'é',
            (2, r) if r >= 3 => '字',
            (3, r) if r >= 4 => '🦀',
            (k, _) => (b'a' + ((i + k) % 26) as u8) as char,
        };
        s.push(c);
        i = i.wrapping_mul(3).wrapping_add(1);
    }
    s.into_bytes()
}
pub fn up(x: usize, a: usize) -> usize {
    (x + a - 1) / a * a
}

pub fn read<T: Subj>(t: &T) -> Val {
    host(|| {
        let mut v = vec![];
        t.read(&mut v);
        v
    })
}
pub fn r_size<T: Subj>(lens: &[usize]) -> usize {
    host(|| T::r_layout(lens, 0, &mut vec![]))
}
pub fn lens_of<T: Subj>(v: &Val) -> Vec<usize> {
    let mut ks = vec![];
    T::kinds(&mut ks);
    v.iter().zip(ks).map(|(l, k)| if let Kind::Ctl = k { l[0] as usize } else { l.len() }).collect()
}
/// Number of values with destructors in an object with this content.
pub fn tokens<T: Subj>(v: &Val) -> i64 {
    let mut m = vec![];
    T::toks(&mut m);
    v.iter().zip(m).map(|(l, t)| if t { l.len() as i64 } else { 0 }).sum()
}

/// Number of ways to hand over an object.
pub const ROUTES: usize = 4;
pub enum AnyInit<'e, T: Subj> {
    Direct(T::Direct<'e>),
    Boxed(VBox<T>),
    Owned(Owned<'e, T>),
    Cloned(T::Clo<'e>),
}
unsafe impl<'e, T: Subj> Initializer<T> for AnyInit<'e, T> {
    fn calculate_layout_cautious(&self) -> Option<T::Layout> {
        match self {
            AnyInit::Direct(i) => i.calculate_layout_cautious(),
            AnyInit::Boxed(i) => i.calculate_layout_cautious(),
            AnyInit::Owned(i) => i.calculate_layout_cautious(),
            AnyInit::Cloned(i) => i.calculate_layout_cautious(),
        }
    }
    unsafe fn initialize(self, dst: NonNull<T>, layout: T::Layout) {
        match self {
            AnyInit::Direct(i) => i.initialize(dst, layout),
            AnyInit::Boxed(i) => i.initialize(dst, layout),
            AnyInit::Owned(i) => i.initialize(dst, layout),
            AnyInit::Cloned(i) => i.initialize(dst, layout),
        }
    }
}
pub fn any<'e, T: Subj>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> AnyInit<'e, T> {
    let r = ch(ROUTES);
    any_route(r, v, ch, env)
}
pub fn any_route<'e, T: Subj>(r: usize, v: &[Vec<u64>], ch: Ch, env: &'e Env) -> AnyInit<'e, T> {
    host(|| match r {
        1 => {
            let d = T::direct(v, ch, env);
            AnyInit::Boxed(lib(|| VBox::new(d)))
        }
        2 => {
            let d = T::direct(v, ch, env);
            env.guard();
            let o = AnyInit::Owned(lib(|| Owned::new_in(d, &env.bump)));
            env.guard();
            o
        }
        3 => {
            let d = T::direct(v, ch, env);
            let b = lib(|| VBox::new(d));
            let src = env.keep(b);
            env.tok.set(env.tok.get() + tokens::<T>(&v.to_vec()));
            match src.clo() {
                Some(c) => AnyInit::Cloned(c),
                None => AnyInit::Direct(T::direct(v, ch, env)),
            }
        }
        _ => AnyInit::Direct(T::direct(v, ch, env)),
    })
}

// ---------------------------------------------------------------- fixed

impl<P: Pay> Subj for FixedLen<P> {
    type Direct<'e> = FixedLen<P>;
    type Clo<'e> = <FixedLen<P> as VClone<'e>>::Cloner;
    fn name() -> String {
        format!("Fixed<{}>", P::NAME)
    }
    fn kinds(out: &mut Vec<Kind>) {
        out.push(Kind::Fixed(P::MASK));
    }
    fn toks(out: &mut Vec<bool>) {
        out.push(P::TOK);
    }
    fn r_align() -> usize {
        std::mem::align_of::<P>()
    }
    fn r_layout(_: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize {
        out.push((base, std::mem::size_of::<P>()));
        std::mem::size_of::<P>()
    }
    fn direct<'e>(v: &[Vec<u64>], _: Ch, _: &'e Env) -> Self::Direct<'e> {
        FixedLen(P::mk(v[0][0]))
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> {
        Some(self.vclone())
    }
    fn read(&self, out: &mut Val) {
        out.push(vec![self.0.val()]);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) {
        out.push((&self.0 as *const P as usize, std::mem::size_of::<P>()));
    }
    fn set(self: Pin<&mut Self>, _: usize, _: usize, x: u64) {
        let p = host(|| P::mk(x));
        unsafe { self.get_unchecked_mut().0 = p };
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) {
        let me = unsafe { self.get_unchecked_mut() };
        let x = f(base, 0, me.0.val());
        me.0 = host(|| P::mk(x));
    }
}

// ---------------------------------------------------------------- arrays

/// Calls `f(i)` in order and logs the order.
pub struct FillFn<P> {
    vals: Vec<u64>,
    _p: std::marker::PhantomData<P>,
}
pub struct IterFn<P> {
    vals: std::vec::IntoIter<u64>,
    _p: std::marker::PhantomData<P>,
}
impl<P: Pay> Iterator for IterFn<P> {
    type Item = P;
    fn next(&mut self) -> Option<P> {
        fault_point(F_ITER);
        let x = self.vals.next()?;
        Some(host(|| P::mk(x)))
    }
}
pub enum ArrInit<'e, P: Pay> {
    Fill(FillFn<P>),
    Iter(IterFn<P>),
    Clone(&'e [P]),
    Copy(P::CopyInit<'e>),
    M0(MoveFrom<P, 0>),
    M1(MoveFrom<P, 1>),
    M2(MoveFrom<P, 2>),
    M3(MoveFrom<P, 3>),
    M4(MoveFrom<P, 4>),
}
unsafe impl<'e, P: Pay> ArrayInitializer<P> for ArrInit<'e, P> {
    fn initialize(self, dst: &mut [MaybeUninit<P>]) {
        match self {
            ArrInit::Fill(f) => {
                let mut next = 0;
                FillSequentially(|i: usize| {
                    if i != next {
                        crate::explore::record_c(crate::explore::CALLS, || format!("fill function called with index {} instead of {}", i, next));
                    }
                    next += 1;
                    fault_point(F_FN);
                    host(|| P::mk(f.vals.get(i).copied().unwrap_or(0)))
                }).initialize(dst)
            }
            ArrInit::Iter(i) => FromIterPrefix(i).initialize(dst),
            ArrInit::Clone(s) => CloneFrom(s).initialize(dst),
            ArrInit::Copy(c) => c.initialize(dst),
            ArrInit::M0(m) => m.initialize(dst),
            ArrInit::M1(m) => m.initialize(dst),
            ArrInit::M2(m) => m.initialize(dst),
            ArrInit::M3(m) => m.initialize(dst),
            ArrInit::M4(m) => m.initialize(dst),
        }
    }
}
pub const ARR_ROUTES: usize = 5;
pub fn arr_init<'e, P: Pay>(v: &[u64], ch: Ch, env: &'e Env) -> ArrInit<'e, P> {
    let r = ch(ARR_ROUTES);
    arr_route(r, v, env)
}
pub fn arr_route<'e, P: Pay>(r: usize, v: &[u64], env: &'e Env) -> ArrInit<'e, P> {
    host(|| match r {
        1 => ArrInit::Iter(IterFn { vals: v.to_vec().into_iter(), _p: Default::default() }),
        2 => ArrInit::Clone(env.slice(v)),
        3 => ArrInit::Copy(P::copy_init(env.slice(v))),
        4 if v.len() <= 4 => {
            let m = |i: usize| P::mk(v[i]);
            match v.len() {
                0 => ArrInit::M0(MoveFrom([])),
                1 => ArrInit::M1(MoveFrom([m(0)])),
                2 => ArrInit::M2(MoveFrom([m(0), m(1)])),
                3 => ArrInit::M3(MoveFrom([m(0), m(1), m(2)])),
                _ => ArrInit::M4(MoveFrom([m(0), m(1), m(2), m(3)])),
            }
        }
        _ => ArrInit::Fill(FillFn { vals: v.to_vec(), _p: Default::default() }),
    })
}

pub trait LenN: ArrayLen {
    const N: &'static str;
    const MAX: usize;
}
impl LenN for u8 {
    const N: &'static str = "u8";
    const MAX: usize = 255;
}
impl LenN for u16 {
    const N: &'static str = "u16";
    const MAX: usize = 65535;
}
impl LenN for u32 {
    const N: &'static str = "u32";
    const MAX: usize = u32::MAX as usize;
}
impl LenN for u64 {
    const N: &'static str = "u64";
    const MAX: usize = usize::MAX;
}
impl LenN for usize {
    const N: &'static str = "usize";
    const MAX: usize = usize::MAX;
}

impl<P: Pay, L: LenN> Subj for Array<P, L> {
    type Direct<'e> = SizedInit<ArrInit<'e, P>, L>;
    type Clo<'e> = <Array<P, L> as VClone<'e>>::Cloner;
    fn name() -> String {
        format!("Array<{},{}>", P::NAME, L::N)
    }
    fn kinds(out: &mut Vec<Kind>) {
        out.push(Kind::Arr(P::MASK, L::MAX));
    }
    fn toks(out: &mut Vec<bool>) {
        out.push(P::TOK);
    }
    fn r_align() -> usize {
        std::mem::align_of::<P>().max(std::mem::align_of::<L>())
    }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize {
        let off = up(std::mem::size_of::<L>(), std::mem::align_of::<P>());
        let n = lens[0] * std::mem::size_of::<P>();
        out.push((base + off, n));
        off + n
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> {
        SizedInit(L::from_usize(v[0].len()).unwrap(), arr_init(&v[0], ch, env))
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> {
        Some(self.vclone())
    }
    fn read(&self, out: &mut Val) {
        let n = self.len_short().as_usize();
        let s: &[P] = &self[..];
        if s.len() != n {
            crate::explore::record_c(crate::explore::CONTENT, || format!("array reports length {} but has {} elements", n, s.len()));
        }
        if s.len() > 1 << 25 {
            crate::fail!("array length {} is absurd", s.len());
        }
        out.push(s.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) {
        let s: &[P] = &self[..];
        out.push((s.as_ptr() as usize, std::mem::size_of_val(s)));
    }
    fn set(self: Pin<&mut Self>, _: usize, idx: usize, x: u64) {
        let p = host(|| P::mk(x));
        self.mut_slice()[idx] = p;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) {
        for (i, p) in self.mut_slice().iter_mut().enumerate() {
            let x = f(base, i, p.val());
            *p = host(|| P::mk(x));
        }
    }
}

// ---------------------------------------------------------------- strings

/// Names an initializer of unnameable type.
pub struct DynInit<'e, T: VarLen>(Box<dyn DynI<T> + 'e>);
trait DynI<T: VarLen> {
    fn lay(&self) -> Option<T::Layout>;
    unsafe fn go(self: Box<Self>, dst: NonNull<T>, layout: T::Layout);
}
impl<T: VarLen, I: Initializer<T>> DynI<T> for I {
    fn lay(&self) -> Option<T::Layout> {
        self.calculate_layout_cautious()
    }
    unsafe fn go(self: Box<Self>, dst: NonNull<T>, layout: T::Layout) {
        (*self).initialize(dst, layout)
    }
}
impl<'e, T: VarLen> DynInit<'e, T> {
    pub fn new(i: impl Initializer<T> + 'e) -> Self {
        host(|| DynInit(Box::new(i)))
    }
}
unsafe impl<'e, T: VarLen> Initializer<T> for DynInit<'e, T> {
    fn calculate_layout_cautious(&self) -> Option<T::Layout> {
        self.0.lay()
    }
    unsafe fn initialize(self, dst: NonNull<T>, layout: T::Layout) {
        self.0.go(dst, layout)
    }
}

impl<L: LenN> Subj for Str<L> {
    type Direct<'e> = DynInit<'e, Str<L>>;
    type Clo<'e> = <Str<L> as VClone<'e>>::Cloner;
    fn name() -> String {
        format!("Str<{}>", L::N)
    }
    fn kinds(out: &mut Vec<Kind>) {
        out.push(Kind::Str(L::MAX));
    }
    fn toks(out: &mut Vec<bool>) {
        out.push(false);
    }
    fn r_align() -> usize {
        std::mem::align_of::<L>()
    }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize {
        out.push((base + std::mem::size_of::<L>(), lens[0]));
        std::mem::size_of::<L>() + lens[0]
    }
    fn direct<'e>(v: &[Vec<u64>], _: Ch, env: &'e Env) -> Self::Direct<'e> {
        let s: String = String::from_utf8(v[0].iter().map(|&b| b as u8).collect()).unwrap();
        let s: &'e str = env.raw(s);
        match Str::<L>::try_copy(s) {
            Some(i) => DynInit::new(i),
            None => crate::fail!("string of {} bytes refused by Str<{}>", s.len(), L::N),
        }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> {
        Some(self.vclone())
    }
    fn read(&self, out: &mut Val) {
        let s: &str = self;
        if s.len() > 1 << 25 {
            crate::fail!("string length {} is absurd", s.len());
        }
        if std::str::from_utf8(s.as_bytes()).is_err() {
            crate::explore::record_c(crate::explore::UTF8, || format!("string is not valid UTF-8: {:?}", s.as_bytes()));
        }
        out.push(s.bytes().map(|b| b as u64).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) {
        let s: &str = self;
        out.push((s.as_ptr() as usize, s.len()));
    }
    fn set(self: Pin<&mut Self>, _: usize, _: usize, x: u64) {
        // the only safe per-string mutation that keeps validity: change ASCII case
        let m = self.mut_slice();
        if x & 1 == 0 { m.make_ascii_uppercase() } else { m.make_ascii_lowercase() }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) {
        let m = unsafe { self.mut_slice().as_bytes_mut() };
        for (i, b) in m.iter_mut().enumerate() {
            let x = f(base, i, *b as u64);
            if b.is_ascii() {
                *b = x as u8 & 0x7f;
            }
        }
    }
}
/// What `set_all` does to the model.
pub fn model_set_all<T: Subj>(v: &mut Val, f: &mut dyn FnMut(usize, usize, u64) -> u64) {
    let mut ks = vec![];
    T::kinds(&mut ks);
    for (l, k) in ks.iter().enumerate() {
        for (i, c) in v[l].iter_mut().enumerate() {
            if let Kind::Ctl = k {
                continue;
            }
            let x = f(l, i, *c);
            match k {
                Kind::Str(_) => if *c < 128 { *c = x & 0x7f },
                k => *c = x & k.mask(),
            }
        }
    }
}
/// What `set` does to the model.
pub fn model_set<T: Subj>(v: &mut Val, leaf: usize, idx: usize, x: u64) {
    let mut ks = vec![];
    T::kinds(&mut ks);
    match ks[leaf] {
        Kind::Str(_) => {
            for b in v[leaf].iter_mut() {
                let c = *b as u8;
                *b = if x & 1 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } as u64;
            }
        }
        Kind::Ctl => {}
        k => v[leaf][idx] = x & k.mask(),
    }
}

// ---------------------------------------------------------------- tuples

macro_rules! subj_tuple {
    ($Tup:ident, $m:ident, $n:expr, [$($A:ident $t:ident $i:tt),*]) => {
        impl<$($A: Subj + for<'a> VClone<'a>),*> Subj for $Tup<$($A),*> {
            type Direct<'e> = $m::Init<$(AnyInit<'e, $A>),*>;
            type Clo<'e> = <Self as VClone<'e>>::Cloner;
            fn name() -> String {
                let v: Vec<String> = vec![$($A::name()),*];
                format!("({})", v.join(","))
            }
            fn kinds(out: &mut Vec<Kind>) {
                $( $A::kinds(out); )*
            }
            fn toks(out: &mut Vec<bool>) {
                $( $A::toks(out); )*
            }
            fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
                let mut out: Vec<Vec<usize>> = vec![vec![]];
                $(
                    let s = $A::shapes(ls);
                    out = out.into_iter().flat_map(|p| s.iter().map(move |q| { let mut r = p.clone(); r.extend_from_slice(q); r }).collect::<Vec<_>>()).collect();
                )*
                out
            }
            fn make(lens: &[usize], seed: u64) -> Val {
                let mut out = vec![];
                let mut at = 0;
                $(
                    let k = $A::leaves();
                    out.extend($A::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1)));
                    at += k;
                )*
                let _ = at;
                out
            }
            fn r_align() -> usize {
                let mut a = 1;
                $( a = a.max($A::r_align()); )*
                a
            }
            fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize {
                let mut size = 0;
                let mut at = 0;
                $(
                    let k = $A::leaves();
                    size = up(size, $A::r_align());
                    size += $A::r_layout(&lens[at..at + k], base + size, out);
                    at += k;
                )*
                let _ = at;
                size
            }
            fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> {
                let mut at = 0;
                $(
                    let k = $A::leaves();
                    let $t = any::<$A>(&v[at..at + k], ch, env);
                    at += k;
                )*
                let _ = at;
                $m::Init($($t),*)
            }
            fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> {
                Some(self.vclone())
            }
            fn read(&self, out: &mut Val) {
                let r = self.refs();
                $( r.$i.read(out); )*
            }
            fn parts(&self, out: &mut Vec<(usize, usize)>) {
                let r = self.refs();
                $( r.$i.parts(out); )*
            }
            fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) {
                let m = self.muts();
                let mut at = 0;
                $(
                    let k = $A::leaves();
                    if leaf >= at && leaf < at + k {
                        return $A::set(m.$i, leaf - at, idx, x);
                    }
                    at += k;
                )*
                let _ = at;
            }
            fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) {
                let m = self.muts();
                let mut at = base;
                $(
                    $A::set_all(m.$i, at, f);
                    at += $A::leaves();
                )*
                let _ = at;
            }
        }
    };
}
subj_tuple!(Tup2, tup2, 2, [A a 0, B b 1]);
subj_tuple!(Tup3, tup3, 3, [A a 0, B b 1, C c 2]);
subj_tuple!(Tup4, tup4, 4, [A a 0, B b 1, C c 2, D d 3]);
subj_tuple!(Tup5, tup5, 5, [A a 0, B b 1, C c 2, D d 3, E e 4]);


/// Structs with layout-controlling fields.
pub trait Ctl: Subj {
    const NCTL: usize;
    fn ctl_types() -> Vec<&'static str>;
    /// leaf index of each controller
    fn ctl_leaves() -> Vec<usize>;
    /// part lengths of an object with these controllers, and `l` for free parts
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize>;
    /// the declared length expressions
    fn arr_lens(c: &[usize]) -> Vec<usize>;
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool;
    fn ctl_direct(&self) -> Vec<u64>;
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64>;
}
