// @generated by tools/gen_structs.py
#![allow(dead_code, unused_variables, unused_mut, non_snake_case, unused_parens, unused_assignments, unreachable_patterns, non_camel_case_types)]
use crate::subj::*;
use crate::tok::*;
use crate::newt::W;
use crate::alloc::host;
use std::pin::Pin;
use varlen::prelude::*;
use varlen::{VClone, define_varlen};
use varlen::array_init::CloneFrom;

#[define_varlen]
#[repr(C)]
pub struct SAa {
    pub na: u8,
}
#[repr(C)] struct MirrorSAa { na: u8 }
pub fn lens_SAa(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SAa {
    type Cloner = s_aa::Init<>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_aa::Init {
        na: self.na.clone(),
    } }
}
impl Subj for SAa {
    type Direct<'e> = s_aa::Init<>;
    type Clo<'e> = <SAa as VClone<'e>>::Cloner;
    fn name() -> String { "SAa".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<u8 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(<u8 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SAa(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <u8 as Pay>::MASK]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSAa>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSAa>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SAa, na), std::mem::size_of::<u8>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_na = <u8 as Pay>::mk(v[at][0]); at += 1;
        s_aa::Init { na: l_na }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.na.val()]); if !std::ptr::eq(r.na, &self.na) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().na is not the header field".into()); }
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.na as *const u8 as usize, std::mem::size_of::<u8>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); *m.na = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.na.val()); *m.na = host(|| <u8 as Pay>::mk(x)); at += 1; }
    }
}
impl Ctl for SAa {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SAa(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_aa::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SAb {
    #[varlen]
    pub long_v_name_a: Str<u8>,
}
struct MirrorSAb {  }
pub fn lens_SAb(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SAb {
    type Cloner = s_ab::Init<<Str<u8> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ab::Init {
        long_v_name_a: r.long_v_name_a.vclone(),
    } }
}
impl Subj for SAb {
    type Direct<'e> = s_ab::Init<AnyInit<'e, Str<u8>>>;
    type Clo<'e> = <SAb as VClone<'e>>::Cloner;
    fn name() -> String { "SAb".into() }
    fn kinds(out: &mut Vec<Kind>) { <Str<u8>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { <Str<u8>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SAb(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <Str<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <Str<u8>>::leaves(); out.extend(<Str<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSAb>(), <Str<u8>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSAb>(); let mut at = 0;
        { let k = <Str<u8>>::leaves(); size = up(size, <Str<u8>>::r_align()); size += <Str<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_v_name_a = { let k = <Str<u8>>::leaves(); let i = any::<Str<u8>>(&v[at..at + k], ch, env); at += k; i };
        s_ab::Init { long_v_name_a: l_long_v_name_a }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.long_v_name_a.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.long_v_name_a.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <Str<u8>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u8>>::set(m.long_v_name_a, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <Str<u8>>::set_all(m.long_v_name_a, at, f); at += <Str<u8>>::leaves();
    }
}
impl Ctl for SAb {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <Str<u8>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<Str<u8>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SAb(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ab::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SAc {
    #[controls_layout]
    pub x: u8,
    #[varlen_array]
    pub y: [u16; *x as usize],
}
struct MirrorSAc { x: u8 }
pub fn lens_SAc(c: &[usize]) -> [usize; 1] { [c[0]] }
impl<'e> VClone<'e> for SAc {
    type Cloner = s_ac::Init<CloneFrom<'e, u16>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ac::Init {
        x: self.x.clone(),
        y: CloneFrom(r.y),
    } }
}
impl Subj for SAc {
    type Direct<'e> = s_ac::Init<ArrInit<'e, u16>>;
    type Clo<'e> = <SAc as VClone<'e>>::Cloner;
    fn name() -> String { "SAc".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Dep(<u16 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(<u16 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SAc(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u16 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSAc>(), std::mem::align_of::<u16>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSAc>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SAc, x), std::mem::size_of::<u8>())); at += 1;
        size = up(size, std::mem::align_of::<u16>()); { let n = lens[at] * std::mem::size_of::<u16>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x: u8 = (v[at][0] as u8); at += 1;
        let l_y = arr_init::<u16>(&v[at], ch, env); at += 1;
        s_ac::Init { x: l_x, y: l_y }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.x as u64]);
        if r.y.len() > 1 << 20 { crate::fail!("length {} of y is absurd", r.y.len()); } out.push(r.y.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.x as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.y.as_ptr() as usize, std::mem::size_of_val(r.y)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <u16 as Pay>::mk(x)); m.y[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        for (i, p) in m.y.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u16 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SAc {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u8"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(al[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SAc(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ac::LayoutControllers { x: (c[0] as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.x) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.x as u64] }
}
#[define_varlen]

pub struct SAd {
    pub na: T8,
    #[varlen]
    pub vb: Array<T8, u16>,
    #[varlen_array]
    pub ac: [T8; 2],
}
struct MirrorSAd { na: T8 }
pub fn lens_SAd(c: &[usize]) -> [usize; 1] { [2] }
impl<'e> VClone<'e> for SAd {
    type Cloner = s_ad::Init<<Array<T8, u16> as VClone<'e>>::Cloner, CloneFrom<'e, T8>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ad::Init {
        na: self.na.clone(),
        vb: r.vb.vclone(),
        ac: CloneFrom(r.ac),
    } }
}
impl Subj for SAd {
    type Direct<'e> = s_ad::Init<AnyInit<'e, Array<T8, u16>>, ArrInit<'e, T8>>;
    type Clo<'e> = <SAd as VClone<'e>>::Cloner;
    fn name() -> String { "SAd".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<T8 as Pay>::MASK)); <Array<T8, u16>>::kinds(out); out.push(Kind::Dep(<T8 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(<T8 as Pay>::TOK); <Array<T8, u16>>::toks(out); out.push(<T8 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SAd(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<T8, u16>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <T8 as Pay>::MASK]); at += 1;
        { let k = <Array<T8, u16>>::leaves(); out.extend(<Array<T8, u16>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T8 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSAd>(), <Array<T8, u16>>::r_align(), std::mem::align_of::<T8>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSAd>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SAd, na), std::mem::size_of::<T8>())); at += 1;
        { let k = <Array<T8, u16>>::leaves(); size = up(size, <Array<T8, u16>>::r_align()); size += <Array<T8, u16>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size = up(size, std::mem::align_of::<T8>()); { let n = lens[at] * std::mem::size_of::<T8>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_na = <T8 as Pay>::mk(v[at][0]); at += 1;
        let l_vb = { let k = <Array<T8, u16>>::leaves(); let i = any::<Array<T8, u16>>(&v[at..at + k], ch, env); at += k; i };
        let l_ac = arr_init::<T8>(&v[at], ch, env); at += 1;
        s_ad::Init { na: l_na, vb: l_vb, ac: l_ac }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.na.val()]); if !std::ptr::eq(r.na, &self.na) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().na is not the header field".into()); }
        r.vb.read(out);
        if r.ac.len() > 1 << 20 { crate::fail!("length {} of ac is absurd", r.ac.len()); } out.push(r.ac.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.na as *const T8 as usize, std::mem::size_of::<T8>()));
        r.vb.parts(out);
        out.push((r.ac.as_ptr() as usize, std::mem::size_of_val(r.ac)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); *m.na = p; return; } at += 1;
        { let k = <Array<T8, u16>>::leaves(); if leaf >= at && leaf < at + k { return <Array<T8, u16>>::set(m.vb, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); m.ac[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.na.val()); *m.na = host(|| <T8 as Pay>::mk(x)); at += 1; }
        <Array<T8, u16>>::set_all(m.vb, at, f); at += <Array<T8, u16>>::leaves();
        for (i, p) in m.ac.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T8 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SAd {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += <Array<T8, u16>>::leaves(); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.extend(<Array<T8, u16>>::shapes(&[l])[0].iter()); q.push(al[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SAd(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ad::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]
#[repr(C)]
pub struct SAe {
    #[controls_layout]
    pub long_c_name_a: u16,
    #[varlen_array]
    pub long_a_name_b: [u8; *long_c_name_a as usize],
    #[varlen]
    pub long_v_name_c: FixedLen<u64>,
    #[varlen_array]
    pub long_a_name_d: [u64; (*long_c_name_a as usize) / 2],
}
#[repr(C)] struct MirrorSAe { long_c_name_a: u16 }
pub fn lens_SAe(c: &[usize]) -> [usize; 2] { [c[0], c[0] / 2] }
impl<'e> VClone<'e> for SAe {
    type Cloner = s_ae::Init<CloneFrom<'e, u8>, <FixedLen<u64> as VClone<'e>>::Cloner, CloneFrom<'e, u64>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ae::Init {
        long_c_name_a: self.long_c_name_a.clone(),
        long_a_name_b: CloneFrom(r.long_a_name_b),
        long_v_name_c: r.long_v_name_c.vclone(),
        long_a_name_d: CloneFrom(r.long_a_name_d),
    } }
}
impl Subj for SAe {
    type Direct<'e> = s_ae::Init<ArrInit<'e, u8>, AnyInit<'e, FixedLen<u64>>, ArrInit<'e, u64>>;
    type Clo<'e> = <SAe as VClone<'e>>::Cloner;
    fn name() -> String { "SAe".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Dep(<u8 as Pay>::MASK)); <FixedLen<u64>>::kinds(out); out.push(Kind::Dep(<u64 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(<u8 as Pay>::TOK); <FixedLen<u64>>::toks(out); out.push(<u64 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(65535)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SAe(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<u64>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u8 as Pay>::MASK).collect()); at += 1;
        { let k = <FixedLen<u64>>::leaves(); out.extend(<FixedLen<u64>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u64 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSAe>(), std::mem::align_of::<u8>(), <FixedLen<u64>>::r_align(), std::mem::align_of::<u64>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSAe>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SAe, long_c_name_a), std::mem::size_of::<u16>())); at += 1;
        size = up(size, std::mem::align_of::<u8>()); { let n = lens[at] * std::mem::size_of::<u8>(); out.push((base + size, n)); size += n; at += 1; }
        { let k = <FixedLen<u64>>::leaves(); size = up(size, <FixedLen<u64>>::r_align()); size += <FixedLen<u64>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size = up(size, std::mem::align_of::<u64>()); { let n = lens[at] * std::mem::size_of::<u64>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_c_name_a: u16 = (v[at][0] as u16); at += 1;
        let l_long_a_name_b = arr_init::<u8>(&v[at], ch, env); at += 1;
        let l_long_v_name_c = { let k = <FixedLen<u64>>::leaves(); let i = any::<FixedLen<u64>>(&v[at..at + k], ch, env); at += k; i };
        let l_long_a_name_d = arr_init::<u64>(&v[at], ch, env); at += 1;
        s_ae::Init { long_c_name_a: l_long_c_name_a, long_a_name_b: l_long_a_name_b, long_v_name_c: l_long_v_name_c, long_a_name_d: l_long_a_name_d }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.long_c_name_a as u64]);
        if r.long_a_name_b.len() > 1 << 20 { crate::fail!("length {} of long_a_name_b is absurd", r.long_a_name_b.len()); } out.push(r.long_a_name_b.iter().map(|p| p.val()).collect());
        r.long_v_name_c.read(out);
        if r.long_a_name_d.len() > 1 << 20 { crate::fail!("length {} of long_a_name_d is absurd", r.long_a_name_d.len()); } out.push(r.long_a_name_d.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.long_c_name_a as *const u16 as usize, std::mem::size_of::<u16>()));
        out.push((r.long_a_name_b.as_ptr() as usize, std::mem::size_of_val(r.long_a_name_b)));
        r.long_v_name_c.parts(out);
        out.push((r.long_a_name_d.as_ptr() as usize, std::mem::size_of_val(r.long_a_name_d)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); m.long_a_name_b[idx] = p; return; } at += 1;
        { let k = <FixedLen<u64>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<u64>>::set(m.long_v_name_c, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <u64 as Pay>::mk(x)); m.long_a_name_d[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        for (i, p) in m.long_a_name_b.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u8 as Pay>::mk(x)); } at += 1;
        <FixedLen<u64>>::set_all(m.long_v_name_c, at, f); at += <FixedLen<u64>>::leaves();
        for (i, p) in m.long_a_name_d.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u64 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SAe {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u16"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; at += <FixedLen<u64>>::leaves(); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(al[0]); q.extend(<FixedLen<u64>>::shapes(&[l])[0].iter()); q.push(al[1]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SAe(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ae::LayoutControllers { long_c_name_a: (c[0] as u16) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.long_c_name_a) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.long_c_name_a as u64] }
}
#[define_varlen]

pub struct SAf {
    #[varlen]
    pub x: Array<u64, u8>,
    pub y: u32,
    #[varlen_array]
    pub z: [T16; 0],
    #[varlen]
    pub w: Tup2<FixedLen<u8>, Str<u8>>,
}
struct MirrorSAf { y: u32 }
pub fn lens_SAf(c: &[usize]) -> [usize; 1] { [0] }
impl<'e> VClone<'e> for SAf {
    type Cloner = s_af::Init<<Array<u64, u8> as VClone<'e>>::Cloner, CloneFrom<'e, T16>, <Tup2<FixedLen<u8>, Str<u8>> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_af::Init {
        x: r.x.vclone(),
        y: self.y.clone(),
        z: CloneFrom(r.z),
        w: r.w.vclone(),
    } }
}
impl Subj for SAf {
    type Direct<'e> = s_af::Init<AnyInit<'e, Array<u64, u8>>, ArrInit<'e, T16>, AnyInit<'e, Tup2<FixedLen<u8>, Str<u8>>>>;
    type Clo<'e> = <SAf as VClone<'e>>::Cloner;
    fn name() -> String { "SAf".into() }
    fn kinds(out: &mut Vec<Kind>) { <Array<u64, u8>>::kinds(out); out.push(Kind::Fixed(<u32 as Pay>::MASK)); out.push(Kind::Dep(<T16 as Pay>::MASK)); <Tup2<FixedLen<u8>, Str<u8>>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { <Array<u64, u8>>::toks(out); out.push(<u32 as Pay>::TOK); out.push(<T16 as Pay>::TOK); <Tup2<FixedLen<u8>, Str<u8>>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SAf(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <Array<u64, u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Tup2<FixedLen<u8>, Str<u8>>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <Array<u64, u8>>::leaves(); out.extend(<Array<u64, u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![cell(seed, at, 0) & <u32 as Pay>::MASK]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T16 as Pay>::MASK).collect()); at += 1;
        { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); out.extend(<Tup2<FixedLen<u8>, Str<u8>>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSAf>(), <Array<u64, u8>>::r_align(), std::mem::align_of::<T16>(), <Tup2<FixedLen<u8>, Str<u8>>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSAf>(); let mut at = 0;
        { let k = <Array<u64, u8>>::leaves(); size = up(size, <Array<u64, u8>>::r_align()); size += <Array<u64, u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SAf, y), std::mem::size_of::<u32>())); at += 1;
        size = up(size, std::mem::align_of::<T16>()); { let n = lens[at] * std::mem::size_of::<T16>(); out.push((base + size, n)); size += n; at += 1; }
        { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); size = up(size, <Tup2<FixedLen<u8>, Str<u8>>>::r_align()); size += <Tup2<FixedLen<u8>, Str<u8>>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x = { let k = <Array<u64, u8>>::leaves(); let i = any::<Array<u64, u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_y = <u32 as Pay>::mk(v[at][0]); at += 1;
        let l_z = arr_init::<T16>(&v[at], ch, env); at += 1;
        let l_w = { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); let i = any::<Tup2<FixedLen<u8>, Str<u8>>>(&v[at..at + k], ch, env); at += k; i };
        s_af::Init { x: l_x, y: l_y, z: l_z, w: l_w }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.x.read(out);
        out.push(vec![r.y.val()]); if !std::ptr::eq(r.y, &self.y) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().y is not the header field".into()); }
        if r.z.len() > 1 << 20 { crate::fail!("length {} of z is absurd", r.z.len()); } out.push(r.z.iter().map(|p| p.val()).collect());
        r.w.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.x.parts(out);
        out.push((r.y as *const u32 as usize, std::mem::size_of::<u32>()));
        out.push((r.z.as_ptr() as usize, std::mem::size_of_val(r.z)));
        r.w.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <Array<u64, u8>>::leaves(); if leaf >= at && leaf < at + k { return <Array<u64, u8>>::set(m.x, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <u32 as Pay>::mk(x)); *m.y = p; return; } at += 1;
        if leaf == at { let p = host(|| <T16 as Pay>::mk(x)); m.z[idx] = p; return; } at += 1;
        { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); if leaf >= at && leaf < at + k { return <Tup2<FixedLen<u8>, Str<u8>>>::set(m.w, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <Array<u64, u8>>::set_all(m.x, at, f); at += <Array<u64, u8>>::leaves();
        { let x = f(at, 0, m.y.val()); *m.y = host(|| <u32 as Pay>::mk(x)); at += 1; }
        for (i, p) in m.z.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T16 as Pay>::mk(x)); } at += 1;
        <Tup2<FixedLen<u8>, Str<u8>>>::set_all(m.w, at, f); at += <Tup2<FixedLen<u8>, Str<u8>>>::leaves();
    }
}
impl Ctl for SAf {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <Array<u64, u8>>::leaves(); at += 1; at += 1; at += <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<Array<u64, u8>>::shapes(&[l])[0].iter()); q.push(1); q.push(al[0]); q.extend(<Tup2<FixedLen<u8>, Str<u8>>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SAf(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_af::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SAg {
    #[controls_layout]
    pub ca: usize,
    #[controls_layout]
    pub cb: bool,
    #[varlen_array]
    pub ac: [A64; *ca as usize],
    #[varlen_array]
    pub ad: [T2; (*ca as usize) / 2],
    #[varlen]
    pub ve: W<Array<u16, u8>>,
    pub nf: T16,
}
struct MirrorSAg { ca: usize, cb: bool, nf: T16 }
pub fn lens_SAg(c: &[usize]) -> [usize; 2] { [c[0], c[0] / 2] }
impl<'e> VClone<'e> for SAg {
    type Cloner = s_ag::Init<CloneFrom<'e, A64>, CloneFrom<'e, T2>, <W<Array<u16, u8>> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ag::Init {
        ca: self.ca.clone(),
        cb: self.cb.clone(),
        ac: CloneFrom(r.ac),
        ad: CloneFrom(r.ad),
        ve: r.ve.vclone(),
        nf: self.nf.clone(),
    } }
}
impl Subj for SAg {
    type Direct<'e> = s_ag::Init<ArrInit<'e, A64>, ArrInit<'e, T2>, AnyInit<'e, W<Array<u16, u8>>>>;
    type Clo<'e> = <SAg as VClone<'e>>::Cloner;
    fn name() -> String { "SAg".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Ctl); out.push(Kind::Dep(<A64 as Pay>::MASK)); out.push(Kind::Dep(<T2 as Pay>::MASK)); <W<Array<u16, u8>>>::kinds(out); out.push(Kind::Fixed(<T16 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(false); out.push(<A64 as Pay>::TOK); out.push(<T2 as Pay>::TOK); <W<Array<u16, u8>>>::toks(out); out.push(<T16 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        { let mut o: Vec<usize> = ls.iter().map(|&l| (l & 1)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SAg(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <W<Array<u16, u8>>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <A64 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T2 as Pay>::MASK).collect()); at += 1;
        { let k = <W<Array<u16, u8>>>::leaves(); out.extend(<W<Array<u16, u8>>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![cell(seed, at, 0) & <T16 as Pay>::MASK]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSAg>(), std::mem::align_of::<A64>(), std::mem::align_of::<T2>(), <W<Array<u16, u8>>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSAg>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SAg, ca), std::mem::size_of::<usize>())); at += 1;
        out.push((base + std::mem::offset_of!(SAg, cb), std::mem::size_of::<bool>())); at += 1;
        size = up(size, std::mem::align_of::<A64>()); { let n = lens[at] * std::mem::size_of::<A64>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<T2>()); { let n = lens[at] * std::mem::size_of::<T2>(); out.push((base + size, n)); size += n; at += 1; }
        { let k = <W<Array<u16, u8>>>::leaves(); size = up(size, <W<Array<u16, u8>>>::r_align()); size += <W<Array<u16, u8>>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SAg, nf), std::mem::size_of::<T16>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_ca: usize = (v[at][0] as usize); at += 1;
        let l_cb: bool = (v[at][0] != 0); at += 1;
        let l_ac = arr_init::<A64>(&v[at], ch, env); at += 1;
        let l_ad = arr_init::<T2>(&v[at], ch, env); at += 1;
        let l_ve = { let k = <W<Array<u16, u8>>>::leaves(); let i = any::<W<Array<u16, u8>>>(&v[at..at + k], ch, env); at += k; i };
        let l_nf = <T16 as Pay>::mk(v[at][0]); at += 1;
        s_ag::Init { ca: l_ca, cb: l_cb, ac: l_ac, ad: l_ad, ve: l_ve, nf: l_nf }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.ca as u64]);
        out.push(vec![(*r.cb) as u64]);
        if r.ac.len() > 1 << 20 { crate::fail!("length {} of ac is absurd", r.ac.len()); } out.push(r.ac.iter().map(|p| p.val()).collect());
        if r.ad.len() > 1 << 20 { crate::fail!("length {} of ad is absurd", r.ad.len()); } out.push(r.ad.iter().map(|p| p.val()).collect());
        r.ve.read(out);
        out.push(vec![r.nf.val()]); if !std::ptr::eq(r.nf, &self.nf) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nf is not the header field".into()); }
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.ca as *const usize as usize, std::mem::size_of::<usize>()));
        out.push((r.cb as *const bool as usize, std::mem::size_of::<bool>()));
        out.push((r.ac.as_ptr() as usize, std::mem::size_of_val(r.ac)));
        out.push((r.ad.as_ptr() as usize, std::mem::size_of_val(r.ad)));
        r.ve.parts(out);
        out.push((r.nf as *const T16 as usize, std::mem::size_of::<T16>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <A64 as Pay>::mk(x)); m.ac[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <T2 as Pay>::mk(x)); m.ad[idx] = p; return; } at += 1;
        { let k = <W<Array<u16, u8>>>::leaves(); if leaf >= at && leaf < at + k { return <W<Array<u16, u8>>>::set(m.ve, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <T16 as Pay>::mk(x)); *m.nf = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        at += 1;
        for (i, p) in m.ac.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <A64 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ad.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T2 as Pay>::mk(x)); } at += 1;
        <W<Array<u16, u8>>>::set_all(m.ve, at, f); at += <W<Array<u16, u8>>>::leaves();
        { let x = f(at, 0, m.nf.val()); *m.nf = host(|| <T16 as Pay>::mk(x)); at += 1; }
    }
}
impl Ctl for SAg {
    const NCTL: usize = 2;
    fn ctl_types() -> Vec<&'static str> { vec!["usize", "bool"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; o.push(at); at += 1; at += 1; at += 1; at += <W<Array<u16, u8>>>::leaves(); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(c[1]); q.push(al[0]); q.push(al[1]); q.extend(<W<Array<u16, u8>>>::shapes(&[l])[0].iter()); q.push(1); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SAg(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ag::LayoutControllers { ca: (c[0] as usize), cb: (c[1] != 0) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.ca) as u64, (*(&self.cb)) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.ca as u64, (*m.cb) as u64] }
}
#[macro_export]
macro_rules! few_structs { ($f:ident, $($a:expr),*) => {
    $f::<$crate::structs_few::SAa>($($a),*);
    $f::<$crate::structs_few::SAb>($($a),*);
    $f::<$crate::structs_few::SAc>($($a),*);
    $f::<$crate::structs_few::SAd>($($a),*);
    $f::<$crate::structs_few::SAe>($($a),*);
    $f::<$crate::structs_few::SAf>($($a),*);
    $f::<$crate::structs_few::SAg>($($a),*);
} }
pub const COUNT: usize = 7;
