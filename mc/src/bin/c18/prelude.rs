#![allow(unused, dead_code, deprecated)]
extern crate varlen; extern crate bumpalo;
use varlen::prelude::*;
use varlen::array::*; use varlen::array_init::*; use varlen::newtype::*; use varlen::{VClone, VCopy, Initializer, FixedLen, Layout as _};
use varlen::seq::{Seq, Iter, IterMut, OwnedElems, CheckedIndexing, UncheckedIndexing, Indexing};
use std::pin::Pin; use std::ptr::NonNull; use std::mem::MaybeUninit; use std::cell::{Cell, RefCell, OnceCell}; use std::rc::Rc; use std::sync::atomic::*;
pub fn t<T: ?Sized>(_: &T) {}
pub fn tm<T: ?Sized>(_: &mut T) {}
pub fn any<T>() -> T { panic!() }
pub fn ini<T: VarLen>(_: &impl Initializer<T>) {}
pub fn sync<T: Sync + ?Sized>() {}
pub fn send<T: Send + ?Sized>() {}
pub type TT = Tup2<FixedLen<u16>, Array<u16, u8>>;
pub fn init_tt() -> tup2::Init<FixedLen<u16>, SizedInit<FillWithDefault, u8>> { tup2::Init(FixedLen(1), SizedInit(2, FillWithDefault)) }
pub type TA = Array<u16, u16>;
pub fn init_ta() -> SizedInit<FillWithDefault, u16> { SizedInit(2, FillWithDefault) }
pub type TS = Str<u16>;
pub fn init_ts() -> impl Initializer<TS> + 'static { Str::try_copy("ab").unwrap() }
pub type TF = FixedLen<u64>;
pub fn init_tf() -> TF { FixedLen(7) }
#[define_varlen]
pub struct MS { #[controls_layout] pub n: u8, pub x: u32, #[varlen_array] pub arr: [u16; *n as usize], #[varlen] pub s: Str<u8> }
pub type TM = MS;
pub fn init_tm() -> ms::Init<FillWithDefault, impl Initializer<Str<u8>> + 'static> { ms::Init { n: 2, x: 3, arr: FillWithDefault, s: Str::try_copy("ab").unwrap() } }
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct NW(Array<u16, u8>);
    with init: pub struct NWInit<_>(pub _);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}
pub type TN = NW;
pub fn init_tn() -> NWInit<SizedInit<FillWithDefault, u8>> { NWInit(SizedInit(2, FillWithDefault)) }
#[define_varlen]
pub struct Plain { pub x: u32, pub y: u64 }
#[define_varlen]
pub struct G<T = usize> { #[controls_layout] n: u8, #[varlen_array] arr: [T; *n as usize], #[varlen] z: Array<T> }
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct GW<(T)>(Array<T>);
    with signature: impl<(T)> GW<(T)> { _ }
    with init: struct GWInit<_>(_);
    with inner_ref: fn gw_inner(&self) -> &_;
    with inner_mut: fn gw_inner_mut(self: _) -> _;
}
