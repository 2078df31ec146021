//! Newtype wrappers around every kind of inner type, as subjects.
use crate::subj::*;
use std::pin::Pin;
use varlen::prelude::*;
use varlen::{define_varlen_newtype, VClone};

define_varlen_newtype! {
    #[repr(transparent)]
    pub struct W<(T: VarLen)>(pub T);
    with signature: impl<(T: VarLen)> W<(T)> { _ }
    with init: pub struct WInit<_>(pub _);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}
impl<'a, T: VClone<'a>> VClone<'a> for W<T> {
    type Cloner = WInit<T::Cloner>;
    fn vclone(&'a self) -> Self::Cloner {
        WInit(self.inner().vclone())
    }
}
macro_rules! subj_newtype {
    ([$($g:tt)*] $N:ty, $Init:ident, $Inner:ty, $name:expr) => {
        impl<$($g)*> Subj for $N {
            type Direct<'e> = $Init<AnyInit<'e, $Inner>>;
            type Clo<'e> = <$N as VClone<'e>>::Cloner;
            fn name() -> String { format!("{}({})", $name, <$Inner>::name()) }
            fn kinds(out: &mut Vec<Kind>) { <$Inner>::kinds(out) }
            fn toks(out: &mut Vec<bool>) { <$Inner>::toks(out) }
            fn shapes(ls: &[usize]) -> Vec<Vec<usize>> { <$Inner>::shapes(ls) }
            fn make(lens: &[usize], seed: u64) -> Val { <$Inner>::make(lens, seed) }
            fn r_align() -> usize { <$Inner>::r_align() }
            fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { <$Inner>::r_layout(lens, base, out) }
            fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { $Init(any::<$Inner>(v, ch, env)) }
            fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
            fn read(&self, out: &mut Val) { self.inner().read(out) }
            fn parts(&self, out: &mut Vec<(usize, usize)>) { self.inner().parts(out) }
            fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { self.inner_mut().set(leaf, idx, x) }
            fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { self.inner_mut().set_all(base, f) }
        }
    };
}
subj_newtype!([T: Subj + for<'a> VClone<'a>] W<T>, WInit, T, "W");

define_varlen_newtype! {
    #[repr(transparent)]
    /// no generics, private init and views
    pub struct Words(Array<crate::tok::T8, u16>);
    with init: struct WordsInit<_>(_);
    with inner_ref: fn inner(&self) -> &_;
    with inner_mut: fn inner_mut(self: _) -> _;
}
impl<'a> VClone<'a> for Words {
    type Cloner = DynInit<'a, Words>;
    fn vclone(&'a self) -> Self::Cloner {
        DynInit::new(WordsInit(self.inner().vclone()))
    }
}
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct Pair<(A: Clone), (B: Clone = u16)>(pub Tup2<Array<A, u8>, Array<B, u16>>);
    with signature: impl<(A: Clone), (B: Clone)> Pair<(A), (B)> { _ }
    with init: pub struct PairInit<_>(pub _);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}
impl<'a, A: 'a + Clone, B: 'a + Clone> VClone<'a> for Pair<A, B> {
    type Cloner = PairInit<<Tup2<Array<A, u8>, Array<B, u16>> as VClone<'a>>::Cloner>;
    fn vclone(&'a self) -> Self::Cloner {
        PairInit(self.inner().vclone())
    }
}
macro_rules! subj_newtype_dyn {
    ([$($g:tt)*] $N:ty, $Init:ident, $Inner:ty, $name:expr) => {
        impl<$($g)*> Subj for $N {
            type Direct<'e> = DynInit<'e, $N>;
            type Clo<'e> = <$N as VClone<'e>>::Cloner;
            fn name() -> String { format!("{}({})", $name, <$Inner>::name()) }
            fn kinds(out: &mut Vec<Kind>) { <$Inner>::kinds(out) }
            fn toks(out: &mut Vec<bool>) { <$Inner>::toks(out) }
            fn shapes(ls: &[usize]) -> Vec<Vec<usize>> { <$Inner>::shapes(ls) }
            fn make(lens: &[usize], seed: u64) -> Val { <$Inner>::make(lens, seed) }
            fn r_align() -> usize { <$Inner>::r_align() }
            fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { <$Inner>::r_layout(lens, base, out) }
            fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { DynInit::new($Init(any::<$Inner>(v, ch, env))) }
            fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
            fn read(&self, out: &mut Val) { self.inner().read(out) }
            fn parts(&self, out: &mut Vec<(usize, usize)>) { self.inner().parts(out) }
            fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { self.inner_mut().set(leaf, idx, x) }
            fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { self.inner_mut().set_all(base, f) }
        }
    };
}
subj_newtype_dyn!([] Words, WordsInit, Array<crate::tok::T8, u16>, "Words");
subj_newtype_dyn!([A: crate::tok::Pay, B: crate::tok::Pay] Pair<A, B>, PairInit, Tup2<Array<A, u8>, Array<B, u16>>, "Pair");

define_varlen_newtype! {
    #[repr(transparent)]
    /// length type generic, no field visibility
    pub struct Name<(L: varlen::array::ArrayLen = u8)>(Str<L>);
    with signature: impl<(L: varlen::array::ArrayLen)> Name<(L)> { _ }
    with init: pub struct NameInit<_>(pub _);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}
impl<'a, L: varlen::array::ArrayLen> VClone<'a> for Name<L> {
    type Cloner = NameInit<<Str<L> as VClone<'a>>::Cloner>;
    fn vclone(&'a self) -> Self::Cloner {
        NameInit(self.inner().vclone())
    }
}
define_varlen_newtype! {
    #[repr(transparent)]
    /// const generic
    pub struct Table<(const N: usize)>(pub(crate) Tup2<FixedLen<crate::tok::A16>, Array<[u8; N], u8>>);
    with signature: impl<(const N: usize)> Table<(N)> { _ }
    with init: pub(crate) struct TableInit<_>(pub(crate) _);
    with inner_ref: pub(crate) fn view(&self) -> &_;
    with inner_mut: pub(crate) fn view_mut(self: _) -> _;
}
impl<'a> VClone<'a> for Table<3> {
    type Cloner = DynInit<'a, Table<3>>;
    fn vclone(&'a self) -> Self::Cloner {
        DynInit::new(TableInit(self.view().vclone()))
    }
}
macro_rules! subj_newtype_view {
    ($N:ty, $Init:ident, $Inner:ty, $name:expr) => {
        impl Subj for $N {
            type Direct<'e> = DynInit<'e, $N>;
            type Clo<'e> = <$N as VClone<'e>>::Cloner;
            fn name() -> String { format!("{}({})", $name, <$Inner>::name()) }
            fn kinds(out: &mut Vec<Kind>) { <$Inner>::kinds(out) }
            fn toks(out: &mut Vec<bool>) { <$Inner>::toks(out) }
            fn shapes(ls: &[usize]) -> Vec<Vec<usize>> { <$Inner>::shapes(ls) }
            fn make(lens: &[usize], seed: u64) -> Val { <$Inner>::make(lens, seed) }
            fn r_align() -> usize { <$Inner>::r_align() }
            fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { <$Inner>::r_layout(lens, base, out) }
            fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { DynInit::new($Init(any::<$Inner>(v, ch, env))) }
            fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
            fn read(&self, out: &mut Val) { self.view().read(out) }
            fn parts(&self, out: &mut Vec<(usize, usize)>) { self.view().parts(out) }
            fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { self.view_mut().set(leaf, idx, x) }
            fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { self.view_mut().set_all(base, f) }
        }
    };
}
subj_newtype!([L: LenN] Name<L>, NameInit, Str<L>, "Name");
subj_newtype_view!(Table<3>, TableInit, Tup2<FixedLen<crate::tok::A16>, Array<[u8; 3], u8>>, "Table");

/// What it takes to compare a wrapper with what it wraps.
pub trait Wrap: Subj {
    type Inner: Subj + for<'a> VClone<'a>;
    fn wrap<'e>(i: impl varlen::Initializer<Self::Inner> + 'e) -> impl varlen::Initializer<Self> + 'e;
    fn inn(&self) -> &Self::Inner;
    fn inn_mut(self: Pin<&mut Self>) -> Pin<&mut Self::Inner>;
}
impl<T: Subj + for<'a> VClone<'a>> Wrap for W<T> {
    type Inner = T;
    fn wrap<'e>(i: impl varlen::Initializer<T> + 'e) -> impl varlen::Initializer<Self> + 'e { WInit(i) }
    fn inn(&self) -> &T { self.inner() }
    fn inn_mut(self: Pin<&mut Self>) -> Pin<&mut T> { self.inner_mut() }
}
impl Wrap for Words {
    type Inner = Array<crate::tok::T8, u16>;
    fn wrap<'e>(i: impl varlen::Initializer<Self::Inner> + 'e) -> impl varlen::Initializer<Self> + 'e { WordsInit(i) }
    fn inn(&self) -> &Self::Inner { self.inner() }
    fn inn_mut(self: Pin<&mut Self>) -> Pin<&mut Self::Inner> { self.inner_mut() }
}
impl<A: crate::tok::Pay, B: crate::tok::Pay> Wrap for Pair<A, B> {
    type Inner = Tup2<Array<A, u8>, Array<B, u16>>;
    fn wrap<'e>(i: impl varlen::Initializer<Self::Inner> + 'e) -> impl varlen::Initializer<Self> + 'e { PairInit(i) }
    fn inn(&self) -> &Self::Inner { self.inner() }
    fn inn_mut(self: Pin<&mut Self>) -> Pin<&mut Self::Inner> { self.inner_mut() }
}
impl<L: LenN> Wrap for Name<L> {
    type Inner = Str<L>;
    fn wrap<'e>(i: impl varlen::Initializer<Self::Inner> + 'e) -> impl varlen::Initializer<Self> + 'e { NameInit(i) }
    fn inn(&self) -> &Self::Inner { self.inner() }
    fn inn_mut(self: Pin<&mut Self>) -> Pin<&mut Self::Inner> { self.inner_mut() }
}
impl Wrap for Table<3> {
    type Inner = Tup2<FixedLen<crate::tok::A16>, Array<[u8; 3], u8>>;
    fn wrap<'e>(i: impl varlen::Initializer<Self::Inner> + 'e) -> impl varlen::Initializer<Self> + 'e { TableInit(i) }
    fn inn(&self) -> &Self::Inner { self.view() }
    fn inn_mut(self: Pin<&mut Self>) -> Pin<&mut Self::Inner> { self.view_mut() }
}
