// @generated by tools/gen_structs.py
#![allow(dead_code, unused_variables, unused_mut, non_snake_case, unused_parens, unused_assignments, unreachable_patterns, non_camel_case_types)]
use crate::subj::*;
use crate::tok::*;
use crate::newt::W;
use crate::alloc::host;
use std::pin::Pin;
use varlen::prelude::*;
use varlen::{VClone, define_varlen};
use varlen::array_init::CloneFrom;

#[define_varlen]

pub struct SAa {
    pub na: u8,
}
struct MirrorSAa { na: u8 }
pub fn lens_SAa(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SAa {
    type Cloner = s_aa::Init<>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_aa::Init {
        na: self.na.clone(),
    } }
}
impl Subj for SAa {
    type Direct<'e> = s_aa::Init<>;
    type Clo<'e> = <SAa as VClone<'e>>::Cloner;
    fn name() -> String { "SAa".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<u8 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(<u8 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SAa(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <u8 as Pay>::MASK]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSAa>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSAa>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SAa, na), std::mem::size_of::<u8>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_na = <u8 as Pay>::mk(v[at][0]); at += 1;
        s_aa::Init { na: l_na }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.na.val()]); if !std::ptr::eq(r.na, &self.na) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().na is not the header field".into()); }
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.na as *const u8 as usize, std::mem::size_of::<u8>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); *m.na = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.na.val()); *m.na = host(|| <u8 as Pay>::mk(x)); at += 1; }
    }
}
impl Ctl for SAa {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SAa(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_aa::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SAb {
    #[controls_layout]
    pub long_c_name_a: u8,
}
struct MirrorSAb { long_c_name_a: u8 }
pub fn lens_SAb(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SAb {
    type Cloner = s_ab::Init<>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ab::Init {
        long_c_name_a: self.long_c_name_a.clone(),
    } }
}
impl Subj for SAb {
    type Direct<'e> = s_ab::Init<>;
    type Clo<'e> = <SAb as VClone<'e>>::Cloner;
    fn name() -> String { "SAb".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); }
    fn toks(out: &mut Vec<bool>) { out.push(false); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SAb(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSAb>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSAb>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SAb, long_c_name_a), std::mem::size_of::<u8>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_c_name_a: u8 = (v[at][0] as u8); at += 1;
        s_ab::Init { long_c_name_a: l_long_c_name_a }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.long_c_name_a as u64]);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.long_c_name_a as *const u8 as usize, std::mem::size_of::<u8>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
    }
}
impl Ctl for SAb {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u8"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SAb(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ab::LayoutControllers { long_c_name_a: (c[0] as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.long_c_name_a) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.long_c_name_a as u64] }
}
#[define_varlen]

pub struct SAc {
    #[varlen]
    pub x: Str<u8>,
}
struct MirrorSAc {  }
pub fn lens_SAc(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SAc {
    type Cloner = s_ac::Init<<Str<u8> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ac::Init {
        x: r.x.vclone(),
    } }
}
impl Subj for SAc {
    type Direct<'e> = s_ac::Init<AnyInit<'e, Str<u8>>>;
    type Clo<'e> = <SAc as VClone<'e>>::Cloner;
    fn name() -> String { "SAc".into() }
    fn kinds(out: &mut Vec<Kind>) { <Str<u8>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { <Str<u8>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SAc(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <Str<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <Str<u8>>::leaves(); out.extend(<Str<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSAc>(), <Str<u8>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSAc>(); let mut at = 0;
        { let k = <Str<u8>>::leaves(); size = up(size, <Str<u8>>::r_align()); size += <Str<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x = { let k = <Str<u8>>::leaves(); let i = any::<Str<u8>>(&v[at..at + k], ch, env); at += k; i };
        s_ac::Init { x: l_x }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.x.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.x.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <Str<u8>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u8>>::set(m.x, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <Str<u8>>::set_all(m.x, at, f); at += <Str<u8>>::leaves();
    }
}
impl Ctl for SAc {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <Str<u8>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<Str<u8>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SAc(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ac::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SAd {
    #[varlen_array]
    pub aa: [u16; 2],
}
struct MirrorSAd {  }
pub fn lens_SAd(c: &[usize]) -> [usize; 1] { [2] }
impl<'e> VClone<'e> for SAd {
    type Cloner = s_ad::Init<CloneFrom<'e, u16>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ad::Init {
        aa: CloneFrom(r.aa),
    } }
}
impl Subj for SAd {
    type Direct<'e> = s_ad::Init<ArrInit<'e, u16>>;
    type Clo<'e> = <SAd as VClone<'e>>::Cloner;
    fn name() -> String { "SAd".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Dep(<u16 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(<u16 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SAd(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u16 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSAd>(), std::mem::align_of::<u16>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSAd>(); let mut at = 0;
        size = up(size, std::mem::align_of::<u16>()); { let n = lens[at] * std::mem::size_of::<u16>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_aa = arr_init::<u16>(&v[at], ch, env); at += 1;
        s_ad::Init { aa: l_aa }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        if r.aa.len() > 1 << 20 { crate::fail!("length {} of aa is absurd", r.aa.len()); } out.push(r.aa.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.aa.as_ptr() as usize, std::mem::size_of_val(r.aa)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <u16 as Pay>::mk(x)); m.aa[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        for (i, p) in m.aa.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u16 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SAd {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(al[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SAd(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ad::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SAe {
    pub long_n_name_a: T8,
    pub long_n_name_b: u32,
}
struct MirrorSAe { long_n_name_a: T8, long_n_name_b: u32 }
pub fn lens_SAe(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SAe {
    type Cloner = s_ae::Init<>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ae::Init {
        long_n_name_a: self.long_n_name_a.clone(),
        long_n_name_b: self.long_n_name_b.clone(),
    } }
}
impl Subj for SAe {
    type Direct<'e> = s_ae::Init<>;
    type Clo<'e> = <SAe as VClone<'e>>::Cloner;
    fn name() -> String { "SAe".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<T8 as Pay>::MASK)); out.push(Kind::Fixed(<u32 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(<T8 as Pay>::TOK); out.push(<u32 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SAe(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <T8 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <u32 as Pay>::MASK]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSAe>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSAe>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SAe, long_n_name_a), std::mem::size_of::<T8>())); at += 1;
        out.push((base + std::mem::offset_of!(SAe, long_n_name_b), std::mem::size_of::<u32>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_n_name_a = <T8 as Pay>::mk(v[at][0]); at += 1;
        let l_long_n_name_b = <u32 as Pay>::mk(v[at][0]); at += 1;
        s_ae::Init { long_n_name_a: l_long_n_name_a, long_n_name_b: l_long_n_name_b }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.long_n_name_a.val()]); if !std::ptr::eq(r.long_n_name_a, &self.long_n_name_a) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().long_n_name_a is not the header field".into()); }
        out.push(vec![r.long_n_name_b.val()]); if !std::ptr::eq(r.long_n_name_b, &self.long_n_name_b) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().long_n_name_b is not the header field".into()); }
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.long_n_name_a as *const T8 as usize, std::mem::size_of::<T8>()));
        out.push((r.long_n_name_b as *const u32 as usize, std::mem::size_of::<u32>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); *m.long_n_name_a = p; return; } at += 1;
        if leaf == at { let p = host(|| <u32 as Pay>::mk(x)); *m.long_n_name_b = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.long_n_name_a.val()); *m.long_n_name_a = host(|| <T8 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.long_n_name_b.val()); *m.long_n_name_b = host(|| <u32 as Pay>::mk(x)); at += 1; }
    }
}
impl Ctl for SAe {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.push(1); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SAe(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ae::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SAf {
    pub x: T16,
    #[controls_layout]
    pub y: u16,
}
struct MirrorSAf { x: T16, y: u16 }
pub fn lens_SAf(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SAf {
    type Cloner = s_af::Init<>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_af::Init {
        x: self.x.clone(),
        y: self.y.clone(),
    } }
}
impl Subj for SAf {
    type Direct<'e> = s_af::Init<>;
    type Clo<'e> = <SAf as VClone<'e>>::Cloner;
    fn name() -> String { "SAf".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<T16 as Pay>::MASK)); out.push(Kind::Ctl); }
    fn toks(out: &mut Vec<bool>) { out.push(<T16 as Pay>::TOK); out.push(false); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(65535)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SAf(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <T16 as Pay>::MASK]); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSAf>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSAf>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SAf, x), std::mem::size_of::<T16>())); at += 1;
        out.push((base + std::mem::offset_of!(SAf, y), std::mem::size_of::<u16>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x = <T16 as Pay>::mk(v[at][0]); at += 1;
        let l_y: u16 = (v[at][0] as u16); at += 1;
        s_af::Init { x: l_x, y: l_y }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.x.val()]); if !std::ptr::eq(r.x, &self.x) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().x is not the header field".into()); }
        out.push(vec![*r.y as u64]);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.x as *const T16 as usize, std::mem::size_of::<T16>()));
        out.push((r.y as *const u16 as usize, std::mem::size_of::<u16>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <T16 as Pay>::mk(x)); *m.x = p; return; } at += 1;
        if leaf == at { return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.x.val()); *m.x = host(|| <T16 as Pay>::mk(x)); at += 1; }
        at += 1;
    }
}
impl Ctl for SAf {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u16"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; o.push(at); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.push(c[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SAf(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_af::LayoutControllers { y: (c[0] as u16) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.y) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.y as u64] }
}
#[define_varlen]

pub struct SAg {
    pub na: u64,
    #[varlen]
    pub vb: Array<T8, u16>,
}
struct MirrorSAg { na: u64 }
pub fn lens_SAg(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SAg {
    type Cloner = s_ag::Init<<Array<T8, u16> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ag::Init {
        na: self.na.clone(),
        vb: r.vb.vclone(),
    } }
}
impl Subj for SAg {
    type Direct<'e> = s_ag::Init<AnyInit<'e, Array<T8, u16>>>;
    type Clo<'e> = <SAg as VClone<'e>>::Cloner;
    fn name() -> String { "SAg".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<u64 as Pay>::MASK)); <Array<T8, u16>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { out.push(<u64 as Pay>::TOK); <Array<T8, u16>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SAg(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<T8, u16>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <u64 as Pay>::MASK]); at += 1;
        { let k = <Array<T8, u16>>::leaves(); out.extend(<Array<T8, u16>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSAg>(), <Array<T8, u16>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSAg>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SAg, na), std::mem::size_of::<u64>())); at += 1;
        { let k = <Array<T8, u16>>::leaves(); size = up(size, <Array<T8, u16>>::r_align()); size += <Array<T8, u16>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_na = <u64 as Pay>::mk(v[at][0]); at += 1;
        let l_vb = { let k = <Array<T8, u16>>::leaves(); let i = any::<Array<T8, u16>>(&v[at..at + k], ch, env); at += k; i };
        s_ag::Init { na: l_na, vb: l_vb }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.na.val()]); if !std::ptr::eq(r.na, &self.na) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().na is not the header field".into()); }
        r.vb.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.na as *const u64 as usize, std::mem::size_of::<u64>()));
        r.vb.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <u64 as Pay>::mk(x)); *m.na = p; return; } at += 1;
        { let k = <Array<T8, u16>>::leaves(); if leaf >= at && leaf < at + k { return <Array<T8, u16>>::set(m.vb, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.na.val()); *m.na = host(|| <u64 as Pay>::mk(x)); at += 1; }
        <Array<T8, u16>>::set_all(m.vb, at, f); at += <Array<T8, u16>>::leaves();
    }
}
impl Ctl for SAg {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += <Array<T8, u16>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.extend(<Array<T8, u16>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SAg(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ag::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SAh {
    pub long_n_name_a: T2,
    #[varlen_array]
    pub long_a_name_b: [T8; 0],
}
struct MirrorSAh { long_n_name_a: T2 }
pub fn lens_SAh(c: &[usize]) -> [usize; 1] { [0] }
impl<'e> VClone<'e> for SAh {
    type Cloner = s_ah::Init<CloneFrom<'e, T8>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ah::Init {
        long_n_name_a: self.long_n_name_a.clone(),
        long_a_name_b: CloneFrom(r.long_a_name_b),
    } }
}
impl Subj for SAh {
    type Direct<'e> = s_ah::Init<ArrInit<'e, T8>>;
    type Clo<'e> = <SAh as VClone<'e>>::Cloner;
    fn name() -> String { "SAh".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<T2 as Pay>::MASK)); out.push(Kind::Dep(<T8 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(<T2 as Pay>::TOK); out.push(<T8 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SAh(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <T2 as Pay>::MASK]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T8 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSAh>(), std::mem::align_of::<T8>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSAh>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SAh, long_n_name_a), std::mem::size_of::<T2>())); at += 1;
        size = up(size, std::mem::align_of::<T8>()); { let n = lens[at] * std::mem::size_of::<T8>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_n_name_a = <T2 as Pay>::mk(v[at][0]); at += 1;
        let l_long_a_name_b = arr_init::<T8>(&v[at], ch, env); at += 1;
        s_ah::Init { long_n_name_a: l_long_n_name_a, long_a_name_b: l_long_a_name_b }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.long_n_name_a.val()]); if !std::ptr::eq(r.long_n_name_a, &self.long_n_name_a) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().long_n_name_a is not the header field".into()); }
        if r.long_a_name_b.len() > 1 << 20 { crate::fail!("length {} of long_a_name_b is absurd", r.long_a_name_b.len()); } out.push(r.long_a_name_b.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.long_n_name_a as *const T2 as usize, std::mem::size_of::<T2>()));
        out.push((r.long_a_name_b.as_ptr() as usize, std::mem::size_of_val(r.long_a_name_b)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <T2 as Pay>::mk(x)); *m.long_n_name_a = p; return; } at += 1;
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); m.long_a_name_b[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.long_n_name_a.val()); *m.long_n_name_a = host(|| <T2 as Pay>::mk(x)); at += 1; }
        for (i, p) in m.long_a_name_b.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T8 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SAh {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.push(al[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SAh(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ah::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SAi {
    #[controls_layout]
    pub x: usize,
    pub y: A16,
}
struct MirrorSAi { x: usize, y: A16 }
pub fn lens_SAi(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SAi {
    type Cloner = s_ai::Init<>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ai::Init {
        x: self.x.clone(),
        y: self.y.clone(),
    } }
}
impl Subj for SAi {
    type Direct<'e> = s_ai::Init<>;
    type Clo<'e> = <SAi as VClone<'e>>::Cloner;
    fn name() -> String { "SAi".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Fixed(<A16 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(<A16 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SAi(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push(vec![cell(seed, at, 0) & <A16 as Pay>::MASK]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSAi>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSAi>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SAi, x), std::mem::size_of::<usize>())); at += 1;
        out.push((base + std::mem::offset_of!(SAi, y), std::mem::size_of::<A16>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x: usize = (v[at][0] as usize); at += 1;
        let l_y = <A16 as Pay>::mk(v[at][0]); at += 1;
        s_ai::Init { x: l_x, y: l_y }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.x as u64]);
        out.push(vec![r.y.val()]); if !std::ptr::eq(r.y, &self.y) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().y is not the header field".into()); }
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.x as *const usize as usize, std::mem::size_of::<usize>()));
        out.push((r.y as *const A16 as usize, std::mem::size_of::<A16>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <A16 as Pay>::mk(x)); *m.y = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        { let x = f(at, 0, m.y.val()); *m.y = host(|| <A16 as Pay>::mk(x)); at += 1; }
    }
}
impl Ctl for SAi {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["usize"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(1); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SAi(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ai::LayoutControllers { x: (c[0] as usize) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.x) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.x as u64] }
}
#[define_varlen]

pub struct SAj {
    #[controls_layout]
    pub ca: bool,
    #[controls_layout]
    pub cb: (u8, u8),
}
struct MirrorSAj { ca: bool, cb: (u8, u8) }
pub fn lens_SAj(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SAj {
    type Cloner = s_aj::Init<>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_aj::Init {
        ca: self.ca.clone(),
        cb: self.cb.clone(),
    } }
}
impl Subj for SAj {
    type Direct<'e> = s_aj::Init<>;
    type Clo<'e> = <SAj as VClone<'e>>::Cloner;
    fn name() -> String { "SAj".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Ctl); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(false); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| (l & 1)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        { let mut o: Vec<usize> = ls.iter().map(|&l| ((l & 255) | ((l / 2) & 255) << 8)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SAj(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSAj>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSAj>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SAj, ca), std::mem::size_of::<bool>())); at += 1;
        out.push((base + std::mem::offset_of!(SAj, cb), std::mem::size_of::<(u8, u8)>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_ca: bool = (v[at][0] != 0); at += 1;
        let l_cb: (u8, u8) = ((v[at][0] & 255) as u8, (v[at][0] >> 8) as u8); at += 1;
        s_aj::Init { ca: l_ca, cb: l_cb }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![(*r.ca) as u64]);
        out.push(vec![(r.cb.0 as u64 | (r.cb.1 as u64) << 8)]);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.ca as *const bool as usize, std::mem::size_of::<bool>()));
        out.push((r.cb as *const (u8, u8) as usize, std::mem::size_of::<(u8, u8)>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        at += 1;
    }
}
impl Ctl for SAj {
    const NCTL: usize = 2;
    fn ctl_types() -> Vec<&'static str> { vec!["bool", "(u8, u8)"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; o.push(at); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(c[1]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SAj(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_aj::LayoutControllers { ca: (c[0] != 0), cb: ((c[1] & 255) as u8, (c[1] >> 8) as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![(*(&self.ca)) as u64, ((&self.cb).0 as u64 | ((&self.cb).1 as u64) << 8)] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![(*m.ca) as u64, (m.cb.0 as u64 | (m.cb.1 as u64) << 8)] }
}
#[define_varlen]

pub struct SAk {
    #[controls_layout]
    pub long_c_name_a: u32,
    #[varlen]
    pub long_v_name_b: FixedLen<u64>,
}
struct MirrorSAk { long_c_name_a: u32 }
pub fn lens_SAk(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SAk {
    type Cloner = s_ak::Init<<FixedLen<u64> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ak::Init {
        long_c_name_a: self.long_c_name_a.clone(),
        long_v_name_b: r.long_v_name_b.vclone(),
    } }
}
impl Subj for SAk {
    type Direct<'e> = s_ak::Init<AnyInit<'e, FixedLen<u64>>>;
    type Clo<'e> = <SAk as VClone<'e>>::Cloner;
    fn name() -> String { "SAk".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); <FixedLen<u64>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { out.push(false); <FixedLen<u64>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SAk(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<u64>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        { let k = <FixedLen<u64>>::leaves(); out.extend(<FixedLen<u64>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSAk>(), <FixedLen<u64>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSAk>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SAk, long_c_name_a), std::mem::size_of::<u32>())); at += 1;
        { let k = <FixedLen<u64>>::leaves(); size = up(size, <FixedLen<u64>>::r_align()); size += <FixedLen<u64>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_c_name_a: u32 = (v[at][0] as u32); at += 1;
        let l_long_v_name_b = { let k = <FixedLen<u64>>::leaves(); let i = any::<FixedLen<u64>>(&v[at..at + k], ch, env); at += k; i };
        s_ak::Init { long_c_name_a: l_long_c_name_a, long_v_name_b: l_long_v_name_b }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.long_c_name_a as u64]);
        r.long_v_name_b.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.long_c_name_a as *const u32 as usize, std::mem::size_of::<u32>()));
        r.long_v_name_b.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        { let k = <FixedLen<u64>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<u64>>::set(m.long_v_name_b, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        <FixedLen<u64>>::set_all(m.long_v_name_b, at, f); at += <FixedLen<u64>>::leaves();
    }
}
impl Ctl for SAk {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u32"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += <FixedLen<u64>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.extend(<FixedLen<u64>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SAk(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ak::LayoutControllers { long_c_name_a: (c[0] as u32) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.long_c_name_a) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.long_c_name_a as u64] }
}
#[define_varlen]

pub struct SAl {
    #[controls_layout]
    pub x: u8,
    #[varlen_array]
    pub y: [u8; *x as usize],
}
struct MirrorSAl { x: u8 }
pub fn lens_SAl(c: &[usize]) -> [usize; 1] { [c[0]] }
impl<'e> VClone<'e> for SAl {
    type Cloner = s_al::Init<CloneFrom<'e, u8>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_al::Init {
        x: self.x.clone(),
        y: CloneFrom(r.y),
    } }
}
impl Subj for SAl {
    type Direct<'e> = s_al::Init<ArrInit<'e, u8>>;
    type Clo<'e> = <SAl as VClone<'e>>::Cloner;
    fn name() -> String { "SAl".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Dep(<u8 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(<u8 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SAl(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u8 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSAl>(), std::mem::align_of::<u8>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSAl>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SAl, x), std::mem::size_of::<u8>())); at += 1;
        size = up(size, std::mem::align_of::<u8>()); { let n = lens[at] * std::mem::size_of::<u8>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x: u8 = (v[at][0] as u8); at += 1;
        let l_y = arr_init::<u8>(&v[at], ch, env); at += 1;
        s_al::Init { x: l_x, y: l_y }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.x as u64]);
        if r.y.len() > 1 << 20 { crate::fail!("length {} of y is absurd", r.y.len()); } out.push(r.y.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.x as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.y.as_ptr() as usize, std::mem::size_of_val(r.y)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); m.y[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        for (i, p) in m.y.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u8 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SAl {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u8"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(al[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SAl(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_al::LayoutControllers { x: (c[0] as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.x) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.x as u64] }
}
#[define_varlen]

pub struct SAm {
    #[varlen]
    pub va: Array<u64, u8>,
    pub nb: [u8; 3],
}
struct MirrorSAm { nb: [u8; 3] }
pub fn lens_SAm(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SAm {
    type Cloner = s_am::Init<<Array<u64, u8> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_am::Init {
        va: r.va.vclone(),
        nb: self.nb.clone(),
    } }
}
impl Subj for SAm {
    type Direct<'e> = s_am::Init<AnyInit<'e, Array<u64, u8>>>;
    type Clo<'e> = <SAm as VClone<'e>>::Cloner;
    fn name() -> String { "SAm".into() }
    fn kinds(out: &mut Vec<Kind>) { <Array<u64, u8>>::kinds(out); out.push(Kind::Fixed(<[u8; 3] as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { <Array<u64, u8>>::toks(out); out.push(<[u8; 3] as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SAm(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <Array<u64, u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <Array<u64, u8>>::leaves(); out.extend(<Array<u64, u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![cell(seed, at, 0) & <[u8; 3] as Pay>::MASK]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSAm>(), <Array<u64, u8>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSAm>(); let mut at = 0;
        { let k = <Array<u64, u8>>::leaves(); size = up(size, <Array<u64, u8>>::r_align()); size += <Array<u64, u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SAm, nb), std::mem::size_of::<[u8; 3]>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_va = { let k = <Array<u64, u8>>::leaves(); let i = any::<Array<u64, u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_nb = <[u8; 3] as Pay>::mk(v[at][0]); at += 1;
        s_am::Init { va: l_va, nb: l_nb }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.va.read(out);
        out.push(vec![r.nb.val()]); if !std::ptr::eq(r.nb, &self.nb) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nb is not the header field".into()); }
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.va.parts(out);
        out.push((r.nb as *const [u8; 3] as usize, std::mem::size_of::<[u8; 3]>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <Array<u64, u8>>::leaves(); if leaf >= at && leaf < at + k { return <Array<u64, u8>>::set(m.va, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <[u8; 3] as Pay>::mk(x)); *m.nb = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <Array<u64, u8>>::set_all(m.va, at, f); at += <Array<u64, u8>>::leaves();
        { let x = f(at, 0, m.nb.val()); *m.nb = host(|| <[u8; 3] as Pay>::mk(x)); at += 1; }
    }
}
impl Ctl for SAm {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <Array<u64, u8>>::leaves(); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<Array<u64, u8>>::shapes(&[l])[0].iter()); q.push(1); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SAm(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_am::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SAn {
    #[varlen]
    pub long_v_name_a: Tup2<FixedLen<u8>, Str<u8>>,
    #[controls_layout]
    pub long_c_name_b: u16,
}
struct MirrorSAn { long_c_name_b: u16 }
pub fn lens_SAn(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SAn {
    type Cloner = s_an::Init<<Tup2<FixedLen<u8>, Str<u8>> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_an::Init {
        long_v_name_a: r.long_v_name_a.vclone(),
        long_c_name_b: self.long_c_name_b.clone(),
    } }
}
impl Subj for SAn {
    type Direct<'e> = s_an::Init<AnyInit<'e, Tup2<FixedLen<u8>, Str<u8>>>>;
    type Clo<'e> = <SAn as VClone<'e>>::Cloner;
    fn name() -> String { "SAn".into() }
    fn kinds(out: &mut Vec<Kind>) { <Tup2<FixedLen<u8>, Str<u8>>>::kinds(out); out.push(Kind::Ctl); }
    fn toks(out: &mut Vec<bool>) { <Tup2<FixedLen<u8>, Str<u8>>>::toks(out); out.push(false); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(65535)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SAn(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <Tup2<FixedLen<u8>, Str<u8>>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); out.extend(<Tup2<FixedLen<u8>, Str<u8>>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![lens[at] as u64]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSAn>(), <Tup2<FixedLen<u8>, Str<u8>>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSAn>(); let mut at = 0;
        { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); size = up(size, <Tup2<FixedLen<u8>, Str<u8>>>::r_align()); size += <Tup2<FixedLen<u8>, Str<u8>>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SAn, long_c_name_b), std::mem::size_of::<u16>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_v_name_a = { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); let i = any::<Tup2<FixedLen<u8>, Str<u8>>>(&v[at..at + k], ch, env); at += k; i };
        let l_long_c_name_b: u16 = (v[at][0] as u16); at += 1;
        s_an::Init { long_v_name_a: l_long_v_name_a, long_c_name_b: l_long_c_name_b }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.long_v_name_a.read(out);
        out.push(vec![*r.long_c_name_b as u64]);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.long_v_name_a.parts(out);
        out.push((r.long_c_name_b as *const u16 as usize, std::mem::size_of::<u16>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); if leaf >= at && leaf < at + k { return <Tup2<FixedLen<u8>, Str<u8>>>::set(m.long_v_name_a, leaf - at, idx, x); } at += k; }
        if leaf == at { return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <Tup2<FixedLen<u8>, Str<u8>>>::set_all(m.long_v_name_a, at, f); at += <Tup2<FixedLen<u8>, Str<u8>>>::leaves();
        at += 1;
    }
}
impl Ctl for SAn {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u16"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); o.push(at); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<Tup2<FixedLen<u8>, Str<u8>>>::shapes(&[l])[0].iter()); q.push(c[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SAn(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_an::LayoutControllers { long_c_name_b: (c[0] as u16) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.long_c_name_b) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.long_c_name_b as u64] }
}
#[define_varlen]

pub struct SAo {
    #[varlen]
    pub x: W<Array<u16, u8>>,
    #[varlen]
    pub y: SAg,
}
struct MirrorSAo {  }
pub fn lens_SAo(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SAo {
    type Cloner = s_ao::Init<<W<Array<u16, u8>> as VClone<'e>>::Cloner, <SAg as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ao::Init {
        x: r.x.vclone(),
        y: r.y.vclone(),
    } }
}
impl Subj for SAo {
    type Direct<'e> = s_ao::Init<AnyInit<'e, W<Array<u16, u8>>>, AnyInit<'e, SAg>>;
    type Clo<'e> = <SAo as VClone<'e>>::Cloner;
    fn name() -> String { "SAo".into() }
    fn kinds(out: &mut Vec<Kind>) { <W<Array<u16, u8>>>::kinds(out); <SAg>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { <W<Array<u16, u8>>>::toks(out); <SAg>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SAo(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <W<Array<u16, u8>>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <SAg>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <W<Array<u16, u8>>>::leaves(); out.extend(<W<Array<u16, u8>>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <SAg>::leaves(); out.extend(<SAg>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSAo>(), <W<Array<u16, u8>>>::r_align(), <SAg>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSAo>(); let mut at = 0;
        { let k = <W<Array<u16, u8>>>::leaves(); size = up(size, <W<Array<u16, u8>>>::r_align()); size += <W<Array<u16, u8>>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <SAg>::leaves(); size = up(size, <SAg>::r_align()); size += <SAg>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x = { let k = <W<Array<u16, u8>>>::leaves(); let i = any::<W<Array<u16, u8>>>(&v[at..at + k], ch, env); at += k; i };
        let l_y = { let k = <SAg>::leaves(); let i = any::<SAg>(&v[at..at + k], ch, env); at += k; i };
        s_ao::Init { x: l_x, y: l_y }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.x.read(out);
        r.y.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.x.parts(out);
        r.y.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <W<Array<u16, u8>>>::leaves(); if leaf >= at && leaf < at + k { return <W<Array<u16, u8>>>::set(m.x, leaf - at, idx, x); } at += k; }
        { let k = <SAg>::leaves(); if leaf >= at && leaf < at + k { return <SAg>::set(m.y, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <W<Array<u16, u8>>>::set_all(m.x, at, f); at += <W<Array<u16, u8>>>::leaves();
        <SAg>::set_all(m.y, at, f); at += <SAg>::leaves();
    }
}
impl Ctl for SAo {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <W<Array<u16, u8>>>::leaves(); at += <SAg>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<W<Array<u16, u8>>>::shapes(&[l])[0].iter()); q.extend(<SAg>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SAo(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ao::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SAp {
    #[varlen]
    pub va: Array<A64, u8>,
    #[varlen_array]
    pub ab: [u64; 5],
}
struct MirrorSAp {  }
pub fn lens_SAp(c: &[usize]) -> [usize; 1] { [5] }
impl<'e> VClone<'e> for SAp {
    type Cloner = s_ap::Init<<Array<A64, u8> as VClone<'e>>::Cloner, CloneFrom<'e, u64>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ap::Init {
        va: r.va.vclone(),
        ab: CloneFrom(r.ab),
    } }
}
impl Subj for SAp {
    type Direct<'e> = s_ap::Init<AnyInit<'e, Array<A64, u8>>, ArrInit<'e, u64>>;
    type Clo<'e> = <SAp as VClone<'e>>::Cloner;
    fn name() -> String { "SAp".into() }
    fn kinds(out: &mut Vec<Kind>) { <Array<A64, u8>>::kinds(out); out.push(Kind::Dep(<u64 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { <Array<A64, u8>>::toks(out); out.push(<u64 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SAp(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <Array<A64, u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <Array<A64, u8>>::leaves(); out.extend(<Array<A64, u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u64 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSAp>(), <Array<A64, u8>>::r_align(), std::mem::align_of::<u64>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSAp>(); let mut at = 0;
        { let k = <Array<A64, u8>>::leaves(); size = up(size, <Array<A64, u8>>::r_align()); size += <Array<A64, u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size = up(size, std::mem::align_of::<u64>()); { let n = lens[at] * std::mem::size_of::<u64>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_va = { let k = <Array<A64, u8>>::leaves(); let i = any::<Array<A64, u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_ab = arr_init::<u64>(&v[at], ch, env); at += 1;
        s_ap::Init { va: l_va, ab: l_ab }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.va.read(out);
        if r.ab.len() > 1 << 20 { crate::fail!("length {} of ab is absurd", r.ab.len()); } out.push(r.ab.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.va.parts(out);
        out.push((r.ab.as_ptr() as usize, std::mem::size_of_val(r.ab)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <Array<A64, u8>>::leaves(); if leaf >= at && leaf < at + k { return <Array<A64, u8>>::set(m.va, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <u64 as Pay>::mk(x)); m.ab[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <Array<A64, u8>>::set_all(m.va, at, f); at += <Array<A64, u8>>::leaves();
        for (i, p) in m.ab.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u64 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SAp {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <Array<A64, u8>>::leaves(); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<Array<A64, u8>>::shapes(&[l])[0].iter()); q.push(al[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SAp(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ap::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SAq {
    #[varlen_array]
    pub long_a_name_a: [T16; 1 + 2],
    pub long_n_name_b: T12,
}
struct MirrorSAq { long_n_name_b: T12 }
pub fn lens_SAq(c: &[usize]) -> [usize; 1] { [3] }
impl<'e> VClone<'e> for SAq {
    type Cloner = s_aq::Init<CloneFrom<'e, T16>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_aq::Init {
        long_a_name_a: CloneFrom(r.long_a_name_a),
        long_n_name_b: self.long_n_name_b.clone(),
    } }
}
impl Subj for SAq {
    type Direct<'e> = s_aq::Init<ArrInit<'e, T16>>;
    type Clo<'e> = <SAq as VClone<'e>>::Cloner;
    fn name() -> String { "SAq".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Dep(<T16 as Pay>::MASK)); out.push(Kind::Fixed(<T12 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(<T16 as Pay>::TOK); out.push(<T12 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SAq(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T16 as Pay>::MASK).collect()); at += 1;
        out.push(vec![cell(seed, at, 0) & <T12 as Pay>::MASK]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSAq>(), std::mem::align_of::<T16>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSAq>(); let mut at = 0;
        size = up(size, std::mem::align_of::<T16>()); { let n = lens[at] * std::mem::size_of::<T16>(); out.push((base + size, n)); size += n; at += 1; }
        out.push((base + std::mem::offset_of!(SAq, long_n_name_b), std::mem::size_of::<T12>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_a_name_a = arr_init::<T16>(&v[at], ch, env); at += 1;
        let l_long_n_name_b = <T12 as Pay>::mk(v[at][0]); at += 1;
        s_aq::Init { long_a_name_a: l_long_a_name_a, long_n_name_b: l_long_n_name_b }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        if r.long_a_name_a.len() > 1 << 20 { crate::fail!("length {} of long_a_name_a is absurd", r.long_a_name_a.len()); } out.push(r.long_a_name_a.iter().map(|p| p.val()).collect());
        out.push(vec![r.long_n_name_b.val()]); if !std::ptr::eq(r.long_n_name_b, &self.long_n_name_b) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().long_n_name_b is not the header field".into()); }
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.long_a_name_a.as_ptr() as usize, std::mem::size_of_val(r.long_a_name_a)));
        out.push((r.long_n_name_b as *const T12 as usize, std::mem::size_of::<T12>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <T16 as Pay>::mk(x)); m.long_a_name_a[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <T12 as Pay>::mk(x)); *m.long_n_name_b = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        for (i, p) in m.long_a_name_a.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T16 as Pay>::mk(x)); } at += 1;
        { let x = f(at, 0, m.long_n_name_b.val()); *m.long_n_name_b = host(|| <T12 as Pay>::mk(x)); at += 1; }
    }
}
impl Ctl for SAq {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(al[0]); q.push(1); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SAq(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_aq::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SAr {
    #[varlen_array]
    pub x: [A64; *y as usize],
    #[controls_layout]
    pub y: usize,
}
struct MirrorSAr { y: usize }
pub fn lens_SAr(c: &[usize]) -> [usize; 1] { [c[0]] }
impl<'e> VClone<'e> for SAr {
    type Cloner = s_ar::Init<CloneFrom<'e, A64>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ar::Init {
        x: CloneFrom(r.x),
        y: self.y.clone(),
    } }
}
impl Subj for SAr {
    type Direct<'e> = s_ar::Init<ArrInit<'e, A64>>;
    type Clo<'e> = <SAr as VClone<'e>>::Cloner;
    fn name() -> String { "SAr".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Dep(<A64 as Pay>::MASK)); out.push(Kind::Ctl); }
    fn toks(out: &mut Vec<bool>) { out.push(<A64 as Pay>::TOK); out.push(false); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SAr(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <A64 as Pay>::MASK).collect()); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSAr>(), std::mem::align_of::<A64>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSAr>(); let mut at = 0;
        size = up(size, std::mem::align_of::<A64>()); { let n = lens[at] * std::mem::size_of::<A64>(); out.push((base + size, n)); size += n; at += 1; }
        out.push((base + std::mem::offset_of!(SAr, y), std::mem::size_of::<usize>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x = arr_init::<A64>(&v[at], ch, env); at += 1;
        let l_y: usize = (v[at][0] as usize); at += 1;
        s_ar::Init { x: l_x, y: l_y }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        if r.x.len() > 1 << 20 { crate::fail!("length {} of x is absurd", r.x.len()); } out.push(r.x.iter().map(|p| p.val()).collect());
        out.push(vec![*r.y as u64]);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.x.as_ptr() as usize, std::mem::size_of_val(r.x)));
        out.push((r.y as *const usize as usize, std::mem::size_of::<usize>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <A64 as Pay>::mk(x)); m.x[idx] = p; return; } at += 1;
        if leaf == at { return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        for (i, p) in m.x.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <A64 as Pay>::mk(x)); } at += 1;
        at += 1;
    }
}
impl Ctl for SAr {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["usize"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; o.push(at); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(al[0]); q.push(c[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SAr(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ar::LayoutControllers { y: (c[0] as usize) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.y) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.y as u64] }
}
#[define_varlen]

pub struct SAs {
    #[varlen_array]
    pub aa: [T2; 2],
    #[varlen]
    pub vb: FixedLen<T16>,
}
struct MirrorSAs {  }
pub fn lens_SAs(c: &[usize]) -> [usize; 1] { [2] }
impl<'e> VClone<'e> for SAs {
    type Cloner = s_as::Init<CloneFrom<'e, T2>, <FixedLen<T16> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_as::Init {
        aa: CloneFrom(r.aa),
        vb: r.vb.vclone(),
    } }
}
impl Subj for SAs {
    type Direct<'e> = s_as::Init<ArrInit<'e, T2>, AnyInit<'e, FixedLen<T16>>>;
    type Clo<'e> = <SAs as VClone<'e>>::Cloner;
    fn name() -> String { "SAs".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Dep(<T2 as Pay>::MASK)); <FixedLen<T16>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { out.push(<T2 as Pay>::TOK); <FixedLen<T16>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SAs(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<T16>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T2 as Pay>::MASK).collect()); at += 1;
        { let k = <FixedLen<T16>>::leaves(); out.extend(<FixedLen<T16>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSAs>(), std::mem::align_of::<T2>(), <FixedLen<T16>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSAs>(); let mut at = 0;
        size = up(size, std::mem::align_of::<T2>()); { let n = lens[at] * std::mem::size_of::<T2>(); out.push((base + size, n)); size += n; at += 1; }
        { let k = <FixedLen<T16>>::leaves(); size = up(size, <FixedLen<T16>>::r_align()); size += <FixedLen<T16>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_aa = arr_init::<T2>(&v[at], ch, env); at += 1;
        let l_vb = { let k = <FixedLen<T16>>::leaves(); let i = any::<FixedLen<T16>>(&v[at..at + k], ch, env); at += k; i };
        s_as::Init { aa: l_aa, vb: l_vb }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        if r.aa.len() > 1 << 20 { crate::fail!("length {} of aa is absurd", r.aa.len()); } out.push(r.aa.iter().map(|p| p.val()).collect());
        r.vb.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.aa.as_ptr() as usize, std::mem::size_of_val(r.aa)));
        r.vb.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <T2 as Pay>::mk(x)); m.aa[idx] = p; return; } at += 1;
        { let k = <FixedLen<T16>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<T16>>::set(m.vb, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        for (i, p) in m.aa.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T2 as Pay>::mk(x)); } at += 1;
        <FixedLen<T16>>::set_all(m.vb, at, f); at += <FixedLen<T16>>::leaves();
    }
}
impl Ctl for SAs {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += <FixedLen<T16>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(al[0]); q.extend(<FixedLen<T16>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SAs(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_as::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SAt {
    #[varlen_array]
    pub long_a_name_a: [TZ; 0],
    #[varlen_array]
    pub long_a_name_b: [[u8; 3]; 5],
}
struct MirrorSAt {  }
pub fn lens_SAt(c: &[usize]) -> [usize; 2] { [0, 5] }
impl<'e> VClone<'e> for SAt {
    type Cloner = s_at::Init<CloneFrom<'e, TZ>, CloneFrom<'e, [u8; 3]>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_at::Init {
        long_a_name_a: CloneFrom(r.long_a_name_a),
        long_a_name_b: CloneFrom(r.long_a_name_b),
    } }
}
impl Subj for SAt {
    type Direct<'e> = s_at::Init<ArrInit<'e, TZ>, ArrInit<'e, [u8; 3]>>;
    type Clo<'e> = <SAt as VClone<'e>>::Cloner;
    fn name() -> String { "SAt".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Dep(<TZ as Pay>::MASK)); out.push(Kind::Dep(<[u8; 3] as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(<TZ as Pay>::TOK); out.push(<[u8; 3] as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SAt(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <TZ as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <[u8; 3] as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSAt>(), std::mem::align_of::<TZ>(), std::mem::align_of::<[u8; 3]>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSAt>(); let mut at = 0;
        size = up(size, std::mem::align_of::<TZ>()); { let n = lens[at] * std::mem::size_of::<TZ>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<[u8; 3]>()); { let n = lens[at] * std::mem::size_of::<[u8; 3]>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_a_name_a = arr_init::<TZ>(&v[at], ch, env); at += 1;
        let l_long_a_name_b = arr_init::<[u8; 3]>(&v[at], ch, env); at += 1;
        s_at::Init { long_a_name_a: l_long_a_name_a, long_a_name_b: l_long_a_name_b }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        if r.long_a_name_a.len() > 1 << 20 { crate::fail!("length {} of long_a_name_a is absurd", r.long_a_name_a.len()); } out.push(r.long_a_name_a.iter().map(|p| p.val()).collect());
        if r.long_a_name_b.len() > 1 << 20 { crate::fail!("length {} of long_a_name_b is absurd", r.long_a_name_b.len()); } out.push(r.long_a_name_b.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.long_a_name_a.as_ptr() as usize, std::mem::size_of_val(r.long_a_name_a)));
        out.push((r.long_a_name_b.as_ptr() as usize, std::mem::size_of_val(r.long_a_name_b)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <TZ as Pay>::mk(x)); m.long_a_name_a[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <[u8; 3] as Pay>::mk(x)); m.long_a_name_b[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        for (i, p) in m.long_a_name_a.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <TZ as Pay>::mk(x)); } at += 1;
        for (i, p) in m.long_a_name_b.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <[u8; 3] as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SAt {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(al[0]); q.push(al[1]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SAt(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_at::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SAu {
    pub x: u8,
    pub y: T8,
    pub z: u32,
}
struct MirrorSAu { x: u8, y: T8, z: u32 }
pub fn lens_SAu(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SAu {
    type Cloner = s_au::Init<>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_au::Init {
        x: self.x.clone(),
        y: self.y.clone(),
        z: self.z.clone(),
    } }
}
impl Subj for SAu {
    type Direct<'e> = s_au::Init<>;
    type Clo<'e> = <SAu as VClone<'e>>::Cloner;
    fn name() -> String { "SAu".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<u8 as Pay>::MASK)); out.push(Kind::Fixed(<T8 as Pay>::MASK)); out.push(Kind::Fixed(<u32 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(<u8 as Pay>::TOK); out.push(<T8 as Pay>::TOK); out.push(<u32 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SAu(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <u8 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <T8 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <u32 as Pay>::MASK]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSAu>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSAu>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SAu, x), std::mem::size_of::<u8>())); at += 1;
        out.push((base + std::mem::offset_of!(SAu, y), std::mem::size_of::<T8>())); at += 1;
        out.push((base + std::mem::offset_of!(SAu, z), std::mem::size_of::<u32>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x = <u8 as Pay>::mk(v[at][0]); at += 1;
        let l_y = <T8 as Pay>::mk(v[at][0]); at += 1;
        let l_z = <u32 as Pay>::mk(v[at][0]); at += 1;
        s_au::Init { x: l_x, y: l_y, z: l_z }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.x.val()]); if !std::ptr::eq(r.x, &self.x) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().x is not the header field".into()); }
        out.push(vec![r.y.val()]); if !std::ptr::eq(r.y, &self.y) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().y is not the header field".into()); }
        out.push(vec![r.z.val()]); if !std::ptr::eq(r.z, &self.z) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().z is not the header field".into()); }
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.x as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.y as *const T8 as usize, std::mem::size_of::<T8>()));
        out.push((r.z as *const u32 as usize, std::mem::size_of::<u32>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); *m.x = p; return; } at += 1;
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); *m.y = p; return; } at += 1;
        if leaf == at { let p = host(|| <u32 as Pay>::mk(x)); *m.z = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.x.val()); *m.x = host(|| <u8 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.y.val()); *m.y = host(|| <T8 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.z.val()); *m.z = host(|| <u32 as Pay>::mk(x)); at += 1; }
    }
}
impl Ctl for SAu {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.push(1); q.push(1); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SAu(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_au::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SAv {
    pub na: T16,
    pub nb: u64,
    #[controls_layout]
    pub cc: bool,
}
struct MirrorSAv { na: T16, nb: u64, cc: bool }
pub fn lens_SAv(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SAv {
    type Cloner = s_av::Init<>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_av::Init {
        na: self.na.clone(),
        nb: self.nb.clone(),
        cc: self.cc.clone(),
    } }
}
impl Subj for SAv {
    type Direct<'e> = s_av::Init<>;
    type Clo<'e> = <SAv as VClone<'e>>::Cloner;
    fn name() -> String { "SAv".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<T16 as Pay>::MASK)); out.push(Kind::Fixed(<u64 as Pay>::MASK)); out.push(Kind::Ctl); }
    fn toks(out: &mut Vec<bool>) { out.push(<T16 as Pay>::TOK); out.push(<u64 as Pay>::TOK); out.push(false); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| (l & 1)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SAv(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <T16 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <u64 as Pay>::MASK]); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSAv>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSAv>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SAv, na), std::mem::size_of::<T16>())); at += 1;
        out.push((base + std::mem::offset_of!(SAv, nb), std::mem::size_of::<u64>())); at += 1;
        out.push((base + std::mem::offset_of!(SAv, cc), std::mem::size_of::<bool>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_na = <T16 as Pay>::mk(v[at][0]); at += 1;
        let l_nb = <u64 as Pay>::mk(v[at][0]); at += 1;
        let l_cc: bool = (v[at][0] != 0); at += 1;
        s_av::Init { na: l_na, nb: l_nb, cc: l_cc }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.na.val()]); if !std::ptr::eq(r.na, &self.na) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().na is not the header field".into()); }
        out.push(vec![r.nb.val()]); if !std::ptr::eq(r.nb, &self.nb) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nb is not the header field".into()); }
        out.push(vec![(*r.cc) as u64]);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.na as *const T16 as usize, std::mem::size_of::<T16>()));
        out.push((r.nb as *const u64 as usize, std::mem::size_of::<u64>()));
        out.push((r.cc as *const bool as usize, std::mem::size_of::<bool>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <T16 as Pay>::mk(x)); *m.na = p; return; } at += 1;
        if leaf == at { let p = host(|| <u64 as Pay>::mk(x)); *m.nb = p; return; } at += 1;
        if leaf == at { return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.na.val()); *m.na = host(|| <T16 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.nb.val()); *m.nb = host(|| <u64 as Pay>::mk(x)); at += 1; }
        at += 1;
    }
}
impl Ctl for SAv {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["bool"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += 1; o.push(at); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.push(1); q.push(c[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SAv(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_av::LayoutControllers { cc: (c[0] != 0) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![(*(&self.cc)) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![(*m.cc) as u64] }
}
#[define_varlen]

pub struct SAw {
    pub long_n_name_a: T2,
    pub long_n_name_b: A16,
    #[varlen]
    pub long_v_name_c: Str<u16>,
}
struct MirrorSAw { long_n_name_a: T2, long_n_name_b: A16 }
pub fn lens_SAw(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SAw {
    type Cloner = s_aw::Init<<Str<u16> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_aw::Init {
        long_n_name_a: self.long_n_name_a.clone(),
        long_n_name_b: self.long_n_name_b.clone(),
        long_v_name_c: r.long_v_name_c.vclone(),
    } }
}
impl Subj for SAw {
    type Direct<'e> = s_aw::Init<AnyInit<'e, Str<u16>>>;
    type Clo<'e> = <SAw as VClone<'e>>::Cloner;
    fn name() -> String { "SAw".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<T2 as Pay>::MASK)); out.push(Kind::Fixed(<A16 as Pay>::MASK)); <Str<u16>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { out.push(<T2 as Pay>::TOK); out.push(<A16 as Pay>::TOK); <Str<u16>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SAw(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Str<u16>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <T2 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <A16 as Pay>::MASK]); at += 1;
        { let k = <Str<u16>>::leaves(); out.extend(<Str<u16>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSAw>(), <Str<u16>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSAw>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SAw, long_n_name_a), std::mem::size_of::<T2>())); at += 1;
        out.push((base + std::mem::offset_of!(SAw, long_n_name_b), std::mem::size_of::<A16>())); at += 1;
        { let k = <Str<u16>>::leaves(); size = up(size, <Str<u16>>::r_align()); size += <Str<u16>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_n_name_a = <T2 as Pay>::mk(v[at][0]); at += 1;
        let l_long_n_name_b = <A16 as Pay>::mk(v[at][0]); at += 1;
        let l_long_v_name_c = { let k = <Str<u16>>::leaves(); let i = any::<Str<u16>>(&v[at..at + k], ch, env); at += k; i };
        s_aw::Init { long_n_name_a: l_long_n_name_a, long_n_name_b: l_long_n_name_b, long_v_name_c: l_long_v_name_c }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.long_n_name_a.val()]); if !std::ptr::eq(r.long_n_name_a, &self.long_n_name_a) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().long_n_name_a is not the header field".into()); }
        out.push(vec![r.long_n_name_b.val()]); if !std::ptr::eq(r.long_n_name_b, &self.long_n_name_b) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().long_n_name_b is not the header field".into()); }
        r.long_v_name_c.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.long_n_name_a as *const T2 as usize, std::mem::size_of::<T2>()));
        out.push((r.long_n_name_b as *const A16 as usize, std::mem::size_of::<A16>()));
        r.long_v_name_c.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <T2 as Pay>::mk(x)); *m.long_n_name_a = p; return; } at += 1;
        if leaf == at { let p = host(|| <A16 as Pay>::mk(x)); *m.long_n_name_b = p; return; } at += 1;
        { let k = <Str<u16>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u16>>::set(m.long_v_name_c, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.long_n_name_a.val()); *m.long_n_name_a = host(|| <T2 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.long_n_name_b.val()); *m.long_n_name_b = host(|| <A16 as Pay>::mk(x)); at += 1; }
        <Str<u16>>::set_all(m.long_v_name_c, at, f); at += <Str<u16>>::leaves();
    }
}
impl Ctl for SAw {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += 1; at += <Str<u16>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.push(1); q.extend(<Str<u16>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SAw(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_aw::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SAx {
    pub x: [u8; 3],
    pub y: T12,
    #[varlen_array]
    pub z: [T64; 1 + 2],
}
struct MirrorSAx { x: [u8; 3], y: T12 }
pub fn lens_SAx(c: &[usize]) -> [usize; 1] { [3] }
impl<'e> VClone<'e> for SAx {
    type Cloner = s_ax::Init<CloneFrom<'e, T64>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ax::Init {
        x: self.x.clone(),
        y: self.y.clone(),
        z: CloneFrom(r.z),
    } }
}
impl Subj for SAx {
    type Direct<'e> = s_ax::Init<ArrInit<'e, T64>>;
    type Clo<'e> = <SAx as VClone<'e>>::Cloner;
    fn name() -> String { "SAx".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<[u8; 3] as Pay>::MASK)); out.push(Kind::Fixed(<T12 as Pay>::MASK)); out.push(Kind::Dep(<T64 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(<[u8; 3] as Pay>::TOK); out.push(<T12 as Pay>::TOK); out.push(<T64 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SAx(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <[u8; 3] as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <T12 as Pay>::MASK]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T64 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSAx>(), std::mem::align_of::<T64>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSAx>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SAx, x), std::mem::size_of::<[u8; 3]>())); at += 1;
        out.push((base + std::mem::offset_of!(SAx, y), std::mem::size_of::<T12>())); at += 1;
        size = up(size, std::mem::align_of::<T64>()); { let n = lens[at] * std::mem::size_of::<T64>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x = <[u8; 3] as Pay>::mk(v[at][0]); at += 1;
        let l_y = <T12 as Pay>::mk(v[at][0]); at += 1;
        let l_z = arr_init::<T64>(&v[at], ch, env); at += 1;
        s_ax::Init { x: l_x, y: l_y, z: l_z }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.x.val()]); if !std::ptr::eq(r.x, &self.x) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().x is not the header field".into()); }
        out.push(vec![r.y.val()]); if !std::ptr::eq(r.y, &self.y) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().y is not the header field".into()); }
        if r.z.len() > 1 << 20 { crate::fail!("length {} of z is absurd", r.z.len()); } out.push(r.z.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.x as *const [u8; 3] as usize, std::mem::size_of::<[u8; 3]>()));
        out.push((r.y as *const T12 as usize, std::mem::size_of::<T12>()));
        out.push((r.z.as_ptr() as usize, std::mem::size_of_val(r.z)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <[u8; 3] as Pay>::mk(x)); *m.x = p; return; } at += 1;
        if leaf == at { let p = host(|| <T12 as Pay>::mk(x)); *m.y = p; return; } at += 1;
        if leaf == at { let p = host(|| <T64 as Pay>::mk(x)); m.z[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.x.val()); *m.x = host(|| <[u8; 3] as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.y.val()); *m.y = host(|| <T12 as Pay>::mk(x)); at += 1; }
        for (i, p) in m.z.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T64 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SAx {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.push(1); q.push(al[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SAx(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ax::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SAy {
    pub na: u8,
    #[controls_layout]
    pub cb: (u8, u8),
    pub nc: T8,
}
struct MirrorSAy { na: u8, cb: (u8, u8), nc: T8 }
pub fn lens_SAy(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SAy {
    type Cloner = s_ay::Init<>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ay::Init {
        na: self.na.clone(),
        cb: self.cb.clone(),
        nc: self.nc.clone(),
    } }
}
impl Subj for SAy {
    type Direct<'e> = s_ay::Init<>;
    type Clo<'e> = <SAy as VClone<'e>>::Cloner;
    fn name() -> String { "SAy".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<u8 as Pay>::MASK)); out.push(Kind::Ctl); out.push(Kind::Fixed(<T8 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(<u8 as Pay>::TOK); out.push(false); out.push(<T8 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| ((l & 255) | ((l / 2) & 255) << 8)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SAy(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <u8 as Pay>::MASK]); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push(vec![cell(seed, at, 0) & <T8 as Pay>::MASK]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSAy>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSAy>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SAy, na), std::mem::size_of::<u8>())); at += 1;
        out.push((base + std::mem::offset_of!(SAy, cb), std::mem::size_of::<(u8, u8)>())); at += 1;
        out.push((base + std::mem::offset_of!(SAy, nc), std::mem::size_of::<T8>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_na = <u8 as Pay>::mk(v[at][0]); at += 1;
        let l_cb: (u8, u8) = ((v[at][0] & 255) as u8, (v[at][0] >> 8) as u8); at += 1;
        let l_nc = <T8 as Pay>::mk(v[at][0]); at += 1;
        s_ay::Init { na: l_na, cb: l_cb, nc: l_nc }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.na.val()]); if !std::ptr::eq(r.na, &self.na) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().na is not the header field".into()); }
        out.push(vec![(r.cb.0 as u64 | (r.cb.1 as u64) << 8)]);
        out.push(vec![r.nc.val()]); if !std::ptr::eq(r.nc, &self.nc) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nc is not the header field".into()); }
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.na as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.cb as *const (u8, u8) as usize, std::mem::size_of::<(u8, u8)>()));
        out.push((r.nc as *const T8 as usize, std::mem::size_of::<T8>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); *m.na = p; return; } at += 1;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); *m.nc = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.na.val()); *m.na = host(|| <u8 as Pay>::mk(x)); at += 1; }
        at += 1;
        { let x = f(at, 0, m.nc.val()); *m.nc = host(|| <T8 as Pay>::mk(x)); at += 1; }
    }
}
impl Ctl for SAy {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["(u8, u8)"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; o.push(at); at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.push(c[0]); q.push(1); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SAy(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ay::LayoutControllers { cb: ((c[0] & 255) as u8, (c[0] >> 8) as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![((&self.cb).0 as u64 | ((&self.cb).1 as u64) << 8)] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![(m.cb.0 as u64 | (m.cb.1 as u64) << 8)] }
}
#[define_varlen]

pub struct SAz {
    pub long_n_name_a: u32,
    #[controls_layout]
    pub long_c_name_b: u32,
    #[controls_layout]
    pub long_c_name_c: u8,
}
struct MirrorSAz { long_n_name_a: u32, long_c_name_b: u32, long_c_name_c: u8 }
pub fn lens_SAz(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SAz {
    type Cloner = s_az::Init<>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_az::Init {
        long_n_name_a: self.long_n_name_a.clone(),
        long_c_name_b: self.long_c_name_b.clone(),
        long_c_name_c: self.long_c_name_c.clone(),
    } }
}
impl Subj for SAz {
    type Direct<'e> = s_az::Init<>;
    type Clo<'e> = <SAz as VClone<'e>>::Cloner;
    fn name() -> String { "SAz".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<u32 as Pay>::MASK)); out.push(Kind::Ctl); out.push(Kind::Ctl); }
    fn toks(out: &mut Vec<bool>) { out.push(<u32 as Pay>::TOK); out.push(false); out.push(false); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SAz(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <u32 as Pay>::MASK]); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSAz>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSAz>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SAz, long_n_name_a), std::mem::size_of::<u32>())); at += 1;
        out.push((base + std::mem::offset_of!(SAz, long_c_name_b), std::mem::size_of::<u32>())); at += 1;
        out.push((base + std::mem::offset_of!(SAz, long_c_name_c), std::mem::size_of::<u8>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_n_name_a = <u32 as Pay>::mk(v[at][0]); at += 1;
        let l_long_c_name_b: u32 = (v[at][0] as u32); at += 1;
        let l_long_c_name_c: u8 = (v[at][0] as u8); at += 1;
        s_az::Init { long_n_name_a: l_long_n_name_a, long_c_name_b: l_long_c_name_b, long_c_name_c: l_long_c_name_c }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.long_n_name_a.val()]); if !std::ptr::eq(r.long_n_name_a, &self.long_n_name_a) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().long_n_name_a is not the header field".into()); }
        out.push(vec![*r.long_c_name_b as u64]);
        out.push(vec![*r.long_c_name_c as u64]);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.long_n_name_a as *const u32 as usize, std::mem::size_of::<u32>()));
        out.push((r.long_c_name_b as *const u32 as usize, std::mem::size_of::<u32>()));
        out.push((r.long_c_name_c as *const u8 as usize, std::mem::size_of::<u8>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <u32 as Pay>::mk(x)); *m.long_n_name_a = p; return; } at += 1;
        if leaf == at { return; } at += 1;
        if leaf == at { return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.long_n_name_a.val()); *m.long_n_name_a = host(|| <u32 as Pay>::mk(x)); at += 1; }
        at += 1;
        at += 1;
    }
}
impl Ctl for SAz {
    const NCTL: usize = 2;
    fn ctl_types() -> Vec<&'static str> { vec!["u32", "u8"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; o.push(at); at += 1; o.push(at); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.push(c[0]); q.push(c[1]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SAz(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_az::LayoutControllers { long_c_name_b: (c[0] as u32), long_c_name_c: (c[1] as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.long_c_name_b) as u64, *(&self.long_c_name_c) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.long_c_name_b as u64, *m.long_c_name_c as u64] }
}
#[define_varlen]

pub struct SBa {
    pub x: T16,
    #[controls_layout]
    pub y: u16,
    #[varlen]
    pub z: Array<T12, u32>,
}
struct MirrorSBa { x: T16, y: u16 }
pub fn lens_SBa(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SBa {
    type Cloner = s_ba::Init<<Array<T12, u32> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ba::Init {
        x: self.x.clone(),
        y: self.y.clone(),
        z: r.z.vclone(),
    } }
}
impl Subj for SBa {
    type Direct<'e> = s_ba::Init<AnyInit<'e, Array<T12, u32>>>;
    type Clo<'e> = <SBa as VClone<'e>>::Cloner;
    fn name() -> String { "SBa".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<T16 as Pay>::MASK)); out.push(Kind::Ctl); <Array<T12, u32>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { out.push(<T16 as Pay>::TOK); out.push(false); <Array<T12, u32>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(65535)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SBa(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<T12, u32>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <T16 as Pay>::MASK]); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        { let k = <Array<T12, u32>>::leaves(); out.extend(<Array<T12, u32>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSBa>(), <Array<T12, u32>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSBa>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SBa, x), std::mem::size_of::<T16>())); at += 1;
        out.push((base + std::mem::offset_of!(SBa, y), std::mem::size_of::<u16>())); at += 1;
        { let k = <Array<T12, u32>>::leaves(); size = up(size, <Array<T12, u32>>::r_align()); size += <Array<T12, u32>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x = <T16 as Pay>::mk(v[at][0]); at += 1;
        let l_y: u16 = (v[at][0] as u16); at += 1;
        let l_z = { let k = <Array<T12, u32>>::leaves(); let i = any::<Array<T12, u32>>(&v[at..at + k], ch, env); at += k; i };
        s_ba::Init { x: l_x, y: l_y, z: l_z }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.x.val()]); if !std::ptr::eq(r.x, &self.x) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().x is not the header field".into()); }
        out.push(vec![*r.y as u64]);
        r.z.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.x as *const T16 as usize, std::mem::size_of::<T16>()));
        out.push((r.y as *const u16 as usize, std::mem::size_of::<u16>()));
        r.z.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <T16 as Pay>::mk(x)); *m.x = p; return; } at += 1;
        if leaf == at { return; } at += 1;
        { let k = <Array<T12, u32>>::leaves(); if leaf >= at && leaf < at + k { return <Array<T12, u32>>::set(m.z, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.x.val()); *m.x = host(|| <T16 as Pay>::mk(x)); at += 1; }
        at += 1;
        <Array<T12, u32>>::set_all(m.z, at, f); at += <Array<T12, u32>>::leaves();
    }
}
impl Ctl for SBa {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u16"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; o.push(at); at += 1; at += <Array<T12, u32>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.push(c[0]); q.extend(<Array<T12, u32>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SBa(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ba::LayoutControllers { y: (c[0] as u16) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.y) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.y as u64] }
}
#[define_varlen]

pub struct SBb {
    pub na: u64,
    #[controls_layout]
    pub cb: usize,
    #[varlen_array]
    pub ac: [(); (*cb as usize) / 2],
}
struct MirrorSBb { na: u64, cb: usize }
pub fn lens_SBb(c: &[usize]) -> [usize; 1] { [c[0] / 2] }
impl<'e> VClone<'e> for SBb {
    type Cloner = s_bb::Init<CloneFrom<'e, ()>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_bb::Init {
        na: self.na.clone(),
        cb: self.cb.clone(),
        ac: CloneFrom(r.ac),
    } }
}
impl Subj for SBb {
    type Direct<'e> = s_bb::Init<ArrInit<'e, ()>>;
    type Clo<'e> = <SBb as VClone<'e>>::Cloner;
    fn name() -> String { "SBb".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<u64 as Pay>::MASK)); out.push(Kind::Ctl); out.push(Kind::Dep(<() as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(<u64 as Pay>::TOK); out.push(false); out.push(<() as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SBb(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <u64 as Pay>::MASK]); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <() as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSBb>(), std::mem::align_of::<()>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSBb>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SBb, na), std::mem::size_of::<u64>())); at += 1;
        out.push((base + std::mem::offset_of!(SBb, cb), std::mem::size_of::<usize>())); at += 1;
        size = up(size, std::mem::align_of::<()>()); { let n = lens[at] * std::mem::size_of::<()>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_na = <u64 as Pay>::mk(v[at][0]); at += 1;
        let l_cb: usize = (v[at][0] as usize); at += 1;
        let l_ac = arr_init::<()>(&v[at], ch, env); at += 1;
        s_bb::Init { na: l_na, cb: l_cb, ac: l_ac }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.na.val()]); if !std::ptr::eq(r.na, &self.na) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().na is not the header field".into()); }
        out.push(vec![*r.cb as u64]);
        if r.ac.len() > 1 << 20 { crate::fail!("length {} of ac is absurd", r.ac.len()); } out.push(r.ac.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.na as *const u64 as usize, std::mem::size_of::<u64>()));
        out.push((r.cb as *const usize as usize, std::mem::size_of::<usize>()));
        out.push((r.ac.as_ptr() as usize, std::mem::size_of_val(r.ac)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <u64 as Pay>::mk(x)); *m.na = p; return; } at += 1;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <() as Pay>::mk(x)); m.ac[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.na.val()); *m.na = host(|| <u64 as Pay>::mk(x)); at += 1; }
        at += 1;
        for (i, p) in m.ac.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <() as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SBb {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["usize"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; o.push(at); at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.push(c[0]); q.push(al[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SBb(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_bb::LayoutControllers { cb: (c[0] as usize) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.cb) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.cb as u64] }
}
#[define_varlen]

pub struct SBc {
    pub long_n_name_a: T2,
    #[varlen]
    pub long_v_name_b: Str<u8>,
    pub long_n_name_c: A16,
}
struct MirrorSBc { long_n_name_a: T2, long_n_name_c: A16 }
pub fn lens_SBc(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SBc {
    type Cloner = s_bc::Init<<Str<u8> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_bc::Init {
        long_n_name_a: self.long_n_name_a.clone(),
        long_v_name_b: r.long_v_name_b.vclone(),
        long_n_name_c: self.long_n_name_c.clone(),
    } }
}
impl Subj for SBc {
    type Direct<'e> = s_bc::Init<AnyInit<'e, Str<u8>>>;
    type Clo<'e> = <SBc as VClone<'e>>::Cloner;
    fn name() -> String { "SBc".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<T2 as Pay>::MASK)); <Str<u8>>::kinds(out); out.push(Kind::Fixed(<A16 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(<T2 as Pay>::TOK); <Str<u8>>::toks(out); out.push(<A16 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SBc(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Str<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <T2 as Pay>::MASK]); at += 1;
        { let k = <Str<u8>>::leaves(); out.extend(<Str<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![cell(seed, at, 0) & <A16 as Pay>::MASK]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSBc>(), <Str<u8>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSBc>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SBc, long_n_name_a), std::mem::size_of::<T2>())); at += 1;
        { let k = <Str<u8>>::leaves(); size = up(size, <Str<u8>>::r_align()); size += <Str<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SBc, long_n_name_c), std::mem::size_of::<A16>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_n_name_a = <T2 as Pay>::mk(v[at][0]); at += 1;
        let l_long_v_name_b = { let k = <Str<u8>>::leaves(); let i = any::<Str<u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_long_n_name_c = <A16 as Pay>::mk(v[at][0]); at += 1;
        s_bc::Init { long_n_name_a: l_long_n_name_a, long_v_name_b: l_long_v_name_b, long_n_name_c: l_long_n_name_c }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.long_n_name_a.val()]); if !std::ptr::eq(r.long_n_name_a, &self.long_n_name_a) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().long_n_name_a is not the header field".into()); }
        r.long_v_name_b.read(out);
        out.push(vec![r.long_n_name_c.val()]); if !std::ptr::eq(r.long_n_name_c, &self.long_n_name_c) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().long_n_name_c is not the header field".into()); }
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.long_n_name_a as *const T2 as usize, std::mem::size_of::<T2>()));
        r.long_v_name_b.parts(out);
        out.push((r.long_n_name_c as *const A16 as usize, std::mem::size_of::<A16>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <T2 as Pay>::mk(x)); *m.long_n_name_a = p; return; } at += 1;
        { let k = <Str<u8>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u8>>::set(m.long_v_name_b, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <A16 as Pay>::mk(x)); *m.long_n_name_c = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.long_n_name_a.val()); *m.long_n_name_a = host(|| <T2 as Pay>::mk(x)); at += 1; }
        <Str<u8>>::set_all(m.long_v_name_b, at, f); at += <Str<u8>>::leaves();
        { let x = f(at, 0, m.long_n_name_c.val()); *m.long_n_name_c = host(|| <A16 as Pay>::mk(x)); at += 1; }
    }
}
impl Ctl for SBc {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += <Str<u8>>::leaves(); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.extend(<Str<u8>>::shapes(&[l])[0].iter()); q.push(1); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SBc(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_bc::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SBd {
    pub x: [u8; 3],
    #[varlen]
    pub y: Array<T8, u16>,
    #[controls_layout]
    pub z: bool,
}
struct MirrorSBd { x: [u8; 3], z: bool }
pub fn lens_SBd(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SBd {
    type Cloner = s_bd::Init<<Array<T8, u16> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_bd::Init {
        x: self.x.clone(),
        y: r.y.vclone(),
        z: self.z.clone(),
    } }
}
impl Subj for SBd {
    type Direct<'e> = s_bd::Init<AnyInit<'e, Array<T8, u16>>>;
    type Clo<'e> = <SBd as VClone<'e>>::Cloner;
    fn name() -> String { "SBd".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<[u8; 3] as Pay>::MASK)); <Array<T8, u16>>::kinds(out); out.push(Kind::Ctl); }
    fn toks(out: &mut Vec<bool>) { out.push(<[u8; 3] as Pay>::TOK); <Array<T8, u16>>::toks(out); out.push(false); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| (l & 1)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SBd(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<T8, u16>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <[u8; 3] as Pay>::MASK]); at += 1;
        { let k = <Array<T8, u16>>::leaves(); out.extend(<Array<T8, u16>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![lens[at] as u64]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSBd>(), <Array<T8, u16>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSBd>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SBd, x), std::mem::size_of::<[u8; 3]>())); at += 1;
        { let k = <Array<T8, u16>>::leaves(); size = up(size, <Array<T8, u16>>::r_align()); size += <Array<T8, u16>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SBd, z), std::mem::size_of::<bool>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x = <[u8; 3] as Pay>::mk(v[at][0]); at += 1;
        let l_y = { let k = <Array<T8, u16>>::leaves(); let i = any::<Array<T8, u16>>(&v[at..at + k], ch, env); at += k; i };
        let l_z: bool = (v[at][0] != 0); at += 1;
        s_bd::Init { x: l_x, y: l_y, z: l_z }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.x.val()]); if !std::ptr::eq(r.x, &self.x) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().x is not the header field".into()); }
        r.y.read(out);
        out.push(vec![(*r.z) as u64]);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.x as *const [u8; 3] as usize, std::mem::size_of::<[u8; 3]>()));
        r.y.parts(out);
        out.push((r.z as *const bool as usize, std::mem::size_of::<bool>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <[u8; 3] as Pay>::mk(x)); *m.x = p; return; } at += 1;
        { let k = <Array<T8, u16>>::leaves(); if leaf >= at && leaf < at + k { return <Array<T8, u16>>::set(m.y, leaf - at, idx, x); } at += k; }
        if leaf == at { return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.x.val()); *m.x = host(|| <[u8; 3] as Pay>::mk(x)); at += 1; }
        <Array<T8, u16>>::set_all(m.y, at, f); at += <Array<T8, u16>>::leaves();
        at += 1;
    }
}
impl Ctl for SBd {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["bool"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += <Array<T8, u16>>::leaves(); o.push(at); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.extend(<Array<T8, u16>>::shapes(&[l])[0].iter()); q.push(c[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SBd(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_bd::LayoutControllers { z: (c[0] != 0) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![(*(&self.z)) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![(*m.z) as u64] }
}
#[define_varlen]

pub struct SBe {
    pub na: T12,
    #[varlen]
    pub vb: FixedLen<u64>,
    #[varlen]
    pub vc: Array<u64, u8>,
}
struct MirrorSBe { na: T12 }
pub fn lens_SBe(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SBe {
    type Cloner = s_be::Init<<FixedLen<u64> as VClone<'e>>::Cloner, <Array<u64, u8> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_be::Init {
        na: self.na.clone(),
        vb: r.vb.vclone(),
        vc: r.vc.vclone(),
    } }
}
impl Subj for SBe {
    type Direct<'e> = s_be::Init<AnyInit<'e, FixedLen<u64>>, AnyInit<'e, Array<u64, u8>>>;
    type Clo<'e> = <SBe as VClone<'e>>::Cloner;
    fn name() -> String { "SBe".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<T12 as Pay>::MASK)); <FixedLen<u64>>::kinds(out); <Array<u64, u8>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { out.push(<T12 as Pay>::TOK); <FixedLen<u64>>::toks(out); <Array<u64, u8>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SBe(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<u64>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<u64, u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <T12 as Pay>::MASK]); at += 1;
        { let k = <FixedLen<u64>>::leaves(); out.extend(<FixedLen<u64>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <Array<u64, u8>>::leaves(); out.extend(<Array<u64, u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSBe>(), <FixedLen<u64>>::r_align(), <Array<u64, u8>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSBe>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SBe, na), std::mem::size_of::<T12>())); at += 1;
        { let k = <FixedLen<u64>>::leaves(); size = up(size, <FixedLen<u64>>::r_align()); size += <FixedLen<u64>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <Array<u64, u8>>::leaves(); size = up(size, <Array<u64, u8>>::r_align()); size += <Array<u64, u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_na = <T12 as Pay>::mk(v[at][0]); at += 1;
        let l_vb = { let k = <FixedLen<u64>>::leaves(); let i = any::<FixedLen<u64>>(&v[at..at + k], ch, env); at += k; i };
        let l_vc = { let k = <Array<u64, u8>>::leaves(); let i = any::<Array<u64, u8>>(&v[at..at + k], ch, env); at += k; i };
        s_be::Init { na: l_na, vb: l_vb, vc: l_vc }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.na.val()]); if !std::ptr::eq(r.na, &self.na) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().na is not the header field".into()); }
        r.vb.read(out);
        r.vc.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.na as *const T12 as usize, std::mem::size_of::<T12>()));
        r.vb.parts(out);
        r.vc.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <T12 as Pay>::mk(x)); *m.na = p; return; } at += 1;
        { let k = <FixedLen<u64>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<u64>>::set(m.vb, leaf - at, idx, x); } at += k; }
        { let k = <Array<u64, u8>>::leaves(); if leaf >= at && leaf < at + k { return <Array<u64, u8>>::set(m.vc, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.na.val()); *m.na = host(|| <T12 as Pay>::mk(x)); at += 1; }
        <FixedLen<u64>>::set_all(m.vb, at, f); at += <FixedLen<u64>>::leaves();
        <Array<u64, u8>>::set_all(m.vc, at, f); at += <Array<u64, u8>>::leaves();
    }
}
impl Ctl for SBe {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += <FixedLen<u64>>::leaves(); at += <Array<u64, u8>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.extend(<FixedLen<u64>>::shapes(&[l])[0].iter()); q.extend(<Array<u64, u8>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SBe(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_be::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SBf {
    pub long_n_name_a: u8,
    #[varlen]
    pub long_v_name_b: Tup2<FixedLen<u8>, Str<u8>>,
    #[varlen_array]
    pub long_a_name_c: [u16; 2],
}
struct MirrorSBf { long_n_name_a: u8 }
pub fn lens_SBf(c: &[usize]) -> [usize; 1] { [2] }
impl<'e> VClone<'e> for SBf {
    type Cloner = s_bf::Init<<Tup2<FixedLen<u8>, Str<u8>> as VClone<'e>>::Cloner, CloneFrom<'e, u16>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_bf::Init {
        long_n_name_a: self.long_n_name_a.clone(),
        long_v_name_b: r.long_v_name_b.vclone(),
        long_a_name_c: CloneFrom(r.long_a_name_c),
    } }
}
impl Subj for SBf {
    type Direct<'e> = s_bf::Init<AnyInit<'e, Tup2<FixedLen<u8>, Str<u8>>>, ArrInit<'e, u16>>;
    type Clo<'e> = <SBf as VClone<'e>>::Cloner;
    fn name() -> String { "SBf".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<u8 as Pay>::MASK)); <Tup2<FixedLen<u8>, Str<u8>>>::kinds(out); out.push(Kind::Dep(<u16 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(<u8 as Pay>::TOK); <Tup2<FixedLen<u8>, Str<u8>>>::toks(out); out.push(<u16 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SBf(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Tup2<FixedLen<u8>, Str<u8>>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <u8 as Pay>::MASK]); at += 1;
        { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); out.extend(<Tup2<FixedLen<u8>, Str<u8>>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u16 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSBf>(), <Tup2<FixedLen<u8>, Str<u8>>>::r_align(), std::mem::align_of::<u16>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSBf>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SBf, long_n_name_a), std::mem::size_of::<u8>())); at += 1;
        { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); size = up(size, <Tup2<FixedLen<u8>, Str<u8>>>::r_align()); size += <Tup2<FixedLen<u8>, Str<u8>>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size = up(size, std::mem::align_of::<u16>()); { let n = lens[at] * std::mem::size_of::<u16>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_n_name_a = <u8 as Pay>::mk(v[at][0]); at += 1;
        let l_long_v_name_b = { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); let i = any::<Tup2<FixedLen<u8>, Str<u8>>>(&v[at..at + k], ch, env); at += k; i };
        let l_long_a_name_c = arr_init::<u16>(&v[at], ch, env); at += 1;
        s_bf::Init { long_n_name_a: l_long_n_name_a, long_v_name_b: l_long_v_name_b, long_a_name_c: l_long_a_name_c }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.long_n_name_a.val()]); if !std::ptr::eq(r.long_n_name_a, &self.long_n_name_a) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().long_n_name_a is not the header field".into()); }
        r.long_v_name_b.read(out);
        if r.long_a_name_c.len() > 1 << 20 { crate::fail!("length {} of long_a_name_c is absurd", r.long_a_name_c.len()); } out.push(r.long_a_name_c.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.long_n_name_a as *const u8 as usize, std::mem::size_of::<u8>()));
        r.long_v_name_b.parts(out);
        out.push((r.long_a_name_c.as_ptr() as usize, std::mem::size_of_val(r.long_a_name_c)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); *m.long_n_name_a = p; return; } at += 1;
        { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); if leaf >= at && leaf < at + k { return <Tup2<FixedLen<u8>, Str<u8>>>::set(m.long_v_name_b, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <u16 as Pay>::mk(x)); m.long_a_name_c[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.long_n_name_a.val()); *m.long_n_name_a = host(|| <u8 as Pay>::mk(x)); at += 1; }
        <Tup2<FixedLen<u8>, Str<u8>>>::set_all(m.long_v_name_b, at, f); at += <Tup2<FixedLen<u8>, Str<u8>>>::leaves();
        for (i, p) in m.long_a_name_c.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u16 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SBf {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.extend(<Tup2<FixedLen<u8>, Str<u8>>>::shapes(&[l])[0].iter()); q.push(al[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SBf(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_bf::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SBg {
    pub x: T8,
    #[varlen_array]
    pub y: [T8; 0],
    pub z: u32,
}
struct MirrorSBg { x: T8, z: u32 }
pub fn lens_SBg(c: &[usize]) -> [usize; 1] { [0] }
impl<'e> VClone<'e> for SBg {
    type Cloner = s_bg::Init<CloneFrom<'e, T8>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_bg::Init {
        x: self.x.clone(),
        y: CloneFrom(r.y),
        z: self.z.clone(),
    } }
}
impl Subj for SBg {
    type Direct<'e> = s_bg::Init<ArrInit<'e, T8>>;
    type Clo<'e> = <SBg as VClone<'e>>::Cloner;
    fn name() -> String { "SBg".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<T8 as Pay>::MASK)); out.push(Kind::Dep(<T8 as Pay>::MASK)); out.push(Kind::Fixed(<u32 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(<T8 as Pay>::TOK); out.push(<T8 as Pay>::TOK); out.push(<u32 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SBg(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <T8 as Pay>::MASK]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T8 as Pay>::MASK).collect()); at += 1;
        out.push(vec![cell(seed, at, 0) & <u32 as Pay>::MASK]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSBg>(), std::mem::align_of::<T8>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSBg>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SBg, x), std::mem::size_of::<T8>())); at += 1;
        size = up(size, std::mem::align_of::<T8>()); { let n = lens[at] * std::mem::size_of::<T8>(); out.push((base + size, n)); size += n; at += 1; }
        out.push((base + std::mem::offset_of!(SBg, z), std::mem::size_of::<u32>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x = <T8 as Pay>::mk(v[at][0]); at += 1;
        let l_y = arr_init::<T8>(&v[at], ch, env); at += 1;
        let l_z = <u32 as Pay>::mk(v[at][0]); at += 1;
        s_bg::Init { x: l_x, y: l_y, z: l_z }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.x.val()]); if !std::ptr::eq(r.x, &self.x) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().x is not the header field".into()); }
        if r.y.len() > 1 << 20 { crate::fail!("length {} of y is absurd", r.y.len()); } out.push(r.y.iter().map(|p| p.val()).collect());
        out.push(vec![r.z.val()]); if !std::ptr::eq(r.z, &self.z) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().z is not the header field".into()); }
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.x as *const T8 as usize, std::mem::size_of::<T8>()));
        out.push((r.y.as_ptr() as usize, std::mem::size_of_val(r.y)));
        out.push((r.z as *const u32 as usize, std::mem::size_of::<u32>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); *m.x = p; return; } at += 1;
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); m.y[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u32 as Pay>::mk(x)); *m.z = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.x.val()); *m.x = host(|| <T8 as Pay>::mk(x)); at += 1; }
        for (i, p) in m.y.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T8 as Pay>::mk(x)); } at += 1;
        { let x = f(at, 0, m.z.val()); *m.z = host(|| <u32 as Pay>::mk(x)); at += 1; }
    }
}
impl Ctl for SBg {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.push(al[0]); q.push(1); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SBg(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_bg::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SBh {
    pub na: T16,
    #[varlen_array]
    pub ab: [u8; cc.0 as usize + cc.1 as usize],
    #[controls_layout]
    pub cc: (u8, u8),
}
struct MirrorSBh { na: T16, cc: (u8, u8) }
pub fn lens_SBh(c: &[usize]) -> [usize; 1] { [(c[0] & 255) + (c[0] >> 8)] }
impl<'e> VClone<'e> for SBh {
    type Cloner = s_bh::Init<CloneFrom<'e, u8>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_bh::Init {
        na: self.na.clone(),
        ab: CloneFrom(r.ab),
        cc: self.cc.clone(),
    } }
}
impl Subj for SBh {
    type Direct<'e> = s_bh::Init<ArrInit<'e, u8>>;
    type Clo<'e> = <SBh as VClone<'e>>::Cloner;
    fn name() -> String { "SBh".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<T16 as Pay>::MASK)); out.push(Kind::Dep(<u8 as Pay>::MASK)); out.push(Kind::Ctl); }
    fn toks(out: &mut Vec<bool>) { out.push(<T16 as Pay>::TOK); out.push(<u8 as Pay>::TOK); out.push(false); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| ((l & 255) | ((l / 2) & 255) << 8)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SBh(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <T16 as Pay>::MASK]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u8 as Pay>::MASK).collect()); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSBh>(), std::mem::align_of::<u8>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSBh>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SBh, na), std::mem::size_of::<T16>())); at += 1;
        size = up(size, std::mem::align_of::<u8>()); { let n = lens[at] * std::mem::size_of::<u8>(); out.push((base + size, n)); size += n; at += 1; }
        out.push((base + std::mem::offset_of!(SBh, cc), std::mem::size_of::<(u8, u8)>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_na = <T16 as Pay>::mk(v[at][0]); at += 1;
        let l_ab = arr_init::<u8>(&v[at], ch, env); at += 1;
        let l_cc: (u8, u8) = ((v[at][0] & 255) as u8, (v[at][0] >> 8) as u8); at += 1;
        s_bh::Init { na: l_na, ab: l_ab, cc: l_cc }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.na.val()]); if !std::ptr::eq(r.na, &self.na) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().na is not the header field".into()); }
        if r.ab.len() > 1 << 20 { crate::fail!("length {} of ab is absurd", r.ab.len()); } out.push(r.ab.iter().map(|p| p.val()).collect());
        out.push(vec![(r.cc.0 as u64 | (r.cc.1 as u64) << 8)]);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.na as *const T16 as usize, std::mem::size_of::<T16>()));
        out.push((r.ab.as_ptr() as usize, std::mem::size_of_val(r.ab)));
        out.push((r.cc as *const (u8, u8) as usize, std::mem::size_of::<(u8, u8)>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <T16 as Pay>::mk(x)); *m.na = p; return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); m.ab[idx] = p; return; } at += 1;
        if leaf == at { return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.na.val()); *m.na = host(|| <T16 as Pay>::mk(x)); at += 1; }
        for (i, p) in m.ab.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u8 as Pay>::mk(x)); } at += 1;
        at += 1;
    }
}
impl Ctl for SBh {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["(u8, u8)"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += 1; o.push(at); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.push(al[0]); q.push(c[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SBh(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_bh::LayoutControllers { cc: ((c[0] & 255) as u8, (c[0] >> 8) as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![((&self.cc).0 as u64 | ((&self.cc).1 as u64) << 8)] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![(m.cc.0 as u64 | (m.cc.1 as u64) << 8)] }
}
#[define_varlen]

pub struct SBi {
    pub long_n_name_a: u64,
    #[varlen_array]
    pub long_a_name_b: [u64; 5],
    #[varlen]
    pub long_v_name_c: W<Array<u16, u8>>,
}
struct MirrorSBi { long_n_name_a: u64 }
pub fn lens_SBi(c: &[usize]) -> [usize; 1] { [5] }
impl<'e> VClone<'e> for SBi {
    type Cloner = s_bi::Init<CloneFrom<'e, u64>, <W<Array<u16, u8>> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_bi::Init {
        long_n_name_a: self.long_n_name_a.clone(),
        long_a_name_b: CloneFrom(r.long_a_name_b),
        long_v_name_c: r.long_v_name_c.vclone(),
    } }
}
impl Subj for SBi {
    type Direct<'e> = s_bi::Init<ArrInit<'e, u64>, AnyInit<'e, W<Array<u16, u8>>>>;
    type Clo<'e> = <SBi as VClone<'e>>::Cloner;
    fn name() -> String { "SBi".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<u64 as Pay>::MASK)); out.push(Kind::Dep(<u64 as Pay>::MASK)); <W<Array<u16, u8>>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { out.push(<u64 as Pay>::TOK); out.push(<u64 as Pay>::TOK); <W<Array<u16, u8>>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SBi(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <W<Array<u16, u8>>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <u64 as Pay>::MASK]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u64 as Pay>::MASK).collect()); at += 1;
        { let k = <W<Array<u16, u8>>>::leaves(); out.extend(<W<Array<u16, u8>>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSBi>(), std::mem::align_of::<u64>(), <W<Array<u16, u8>>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSBi>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SBi, long_n_name_a), std::mem::size_of::<u64>())); at += 1;
        size = up(size, std::mem::align_of::<u64>()); { let n = lens[at] * std::mem::size_of::<u64>(); out.push((base + size, n)); size += n; at += 1; }
        { let k = <W<Array<u16, u8>>>::leaves(); size = up(size, <W<Array<u16, u8>>>::r_align()); size += <W<Array<u16, u8>>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_n_name_a = <u64 as Pay>::mk(v[at][0]); at += 1;
        let l_long_a_name_b = arr_init::<u64>(&v[at], ch, env); at += 1;
        let l_long_v_name_c = { let k = <W<Array<u16, u8>>>::leaves(); let i = any::<W<Array<u16, u8>>>(&v[at..at + k], ch, env); at += k; i };
        s_bi::Init { long_n_name_a: l_long_n_name_a, long_a_name_b: l_long_a_name_b, long_v_name_c: l_long_v_name_c }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.long_n_name_a.val()]); if !std::ptr::eq(r.long_n_name_a, &self.long_n_name_a) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().long_n_name_a is not the header field".into()); }
        if r.long_a_name_b.len() > 1 << 20 { crate::fail!("length {} of long_a_name_b is absurd", r.long_a_name_b.len()); } out.push(r.long_a_name_b.iter().map(|p| p.val()).collect());
        r.long_v_name_c.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.long_n_name_a as *const u64 as usize, std::mem::size_of::<u64>()));
        out.push((r.long_a_name_b.as_ptr() as usize, std::mem::size_of_val(r.long_a_name_b)));
        r.long_v_name_c.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <u64 as Pay>::mk(x)); *m.long_n_name_a = p; return; } at += 1;
        if leaf == at { let p = host(|| <u64 as Pay>::mk(x)); m.long_a_name_b[idx] = p; return; } at += 1;
        { let k = <W<Array<u16, u8>>>::leaves(); if leaf >= at && leaf < at + k { return <W<Array<u16, u8>>>::set(m.long_v_name_c, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.long_n_name_a.val()); *m.long_n_name_a = host(|| <u64 as Pay>::mk(x)); at += 1; }
        for (i, p) in m.long_a_name_b.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u64 as Pay>::mk(x)); } at += 1;
        <W<Array<u16, u8>>>::set_all(m.long_v_name_c, at, f); at += <W<Array<u16, u8>>>::leaves();
    }
}
impl Ctl for SBi {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += 1; at += <W<Array<u16, u8>>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.push(al[0]); q.extend(<W<Array<u16, u8>>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SBi(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_bi::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SBj {
    pub x: T2,
    #[varlen_array]
    pub y: [T16; 1 + 2],
    #[varlen_array]
    pub z: [A64; 2],
}
struct MirrorSBj { x: T2 }
pub fn lens_SBj(c: &[usize]) -> [usize; 2] { [3, 2] }
impl<'e> VClone<'e> for SBj {
    type Cloner = s_bj::Init<CloneFrom<'e, T16>, CloneFrom<'e, A64>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_bj::Init {
        x: self.x.clone(),
        y: CloneFrom(r.y),
        z: CloneFrom(r.z),
    } }
}
impl Subj for SBj {
    type Direct<'e> = s_bj::Init<ArrInit<'e, T16>, ArrInit<'e, A64>>;
    type Clo<'e> = <SBj as VClone<'e>>::Cloner;
    fn name() -> String { "SBj".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<T2 as Pay>::MASK)); out.push(Kind::Dep(<T16 as Pay>::MASK)); out.push(Kind::Dep(<A64 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(<T2 as Pay>::TOK); out.push(<T16 as Pay>::TOK); out.push(<A64 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SBj(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <T2 as Pay>::MASK]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T16 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <A64 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSBj>(), std::mem::align_of::<T16>(), std::mem::align_of::<A64>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSBj>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SBj, x), std::mem::size_of::<T2>())); at += 1;
        size = up(size, std::mem::align_of::<T16>()); { let n = lens[at] * std::mem::size_of::<T16>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<A64>()); { let n = lens[at] * std::mem::size_of::<A64>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x = <T2 as Pay>::mk(v[at][0]); at += 1;
        let l_y = arr_init::<T16>(&v[at], ch, env); at += 1;
        let l_z = arr_init::<A64>(&v[at], ch, env); at += 1;
        s_bj::Init { x: l_x, y: l_y, z: l_z }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.x.val()]); if !std::ptr::eq(r.x, &self.x) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().x is not the header field".into()); }
        if r.y.len() > 1 << 20 { crate::fail!("length {} of y is absurd", r.y.len()); } out.push(r.y.iter().map(|p| p.val()).collect());
        if r.z.len() > 1 << 20 { crate::fail!("length {} of z is absurd", r.z.len()); } out.push(r.z.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.x as *const T2 as usize, std::mem::size_of::<T2>()));
        out.push((r.y.as_ptr() as usize, std::mem::size_of_val(r.y)));
        out.push((r.z.as_ptr() as usize, std::mem::size_of_val(r.z)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <T2 as Pay>::mk(x)); *m.x = p; return; } at += 1;
        if leaf == at { let p = host(|| <T16 as Pay>::mk(x)); m.y[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <A64 as Pay>::mk(x)); m.z[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.x.val()); *m.x = host(|| <T2 as Pay>::mk(x)); at += 1; }
        for (i, p) in m.y.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T16 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.z.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <A64 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SBj {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.push(al[0]); q.push(al[1]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SBj(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_bj::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SBk {
    #[controls_layout]
    pub ca: u32,
    pub nb: A16,
    pub nc: [u8; 3],
}
struct MirrorSBk { ca: u32, nb: A16, nc: [u8; 3] }
pub fn lens_SBk(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SBk {
    type Cloner = s_bk::Init<>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_bk::Init {
        ca: self.ca.clone(),
        nb: self.nb.clone(),
        nc: self.nc.clone(),
    } }
}
impl Subj for SBk {
    type Direct<'e> = s_bk::Init<>;
    type Clo<'e> = <SBk as VClone<'e>>::Cloner;
    fn name() -> String { "SBk".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Fixed(<A16 as Pay>::MASK)); out.push(Kind::Fixed(<[u8; 3] as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(<A16 as Pay>::TOK); out.push(<[u8; 3] as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SBk(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push(vec![cell(seed, at, 0) & <A16 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <[u8; 3] as Pay>::MASK]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSBk>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSBk>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SBk, ca), std::mem::size_of::<u32>())); at += 1;
        out.push((base + std::mem::offset_of!(SBk, nb), std::mem::size_of::<A16>())); at += 1;
        out.push((base + std::mem::offset_of!(SBk, nc), std::mem::size_of::<[u8; 3]>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_ca: u32 = (v[at][0] as u32); at += 1;
        let l_nb = <A16 as Pay>::mk(v[at][0]); at += 1;
        let l_nc = <[u8; 3] as Pay>::mk(v[at][0]); at += 1;
        s_bk::Init { ca: l_ca, nb: l_nb, nc: l_nc }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.ca as u64]);
        out.push(vec![r.nb.val()]); if !std::ptr::eq(r.nb, &self.nb) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nb is not the header field".into()); }
        out.push(vec![r.nc.val()]); if !std::ptr::eq(r.nc, &self.nc) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nc is not the header field".into()); }
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.ca as *const u32 as usize, std::mem::size_of::<u32>()));
        out.push((r.nb as *const A16 as usize, std::mem::size_of::<A16>()));
        out.push((r.nc as *const [u8; 3] as usize, std::mem::size_of::<[u8; 3]>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <A16 as Pay>::mk(x)); *m.nb = p; return; } at += 1;
        if leaf == at { let p = host(|| <[u8; 3] as Pay>::mk(x)); *m.nc = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        { let x = f(at, 0, m.nb.val()); *m.nb = host(|| <A16 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.nc.val()); *m.nc = host(|| <[u8; 3] as Pay>::mk(x)); at += 1; }
    }
}
impl Ctl for SBk {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u32"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(1); q.push(1); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SBk(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_bk::LayoutControllers { ca: (c[0] as u32) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.ca) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.ca as u64] }
}
#[define_varlen]

pub struct SBl {
    #[controls_layout]
    pub long_c_name_a: u8,
    pub long_n_name_b: T12,
    #[controls_layout]
    pub long_c_name_c: u16,
}
struct MirrorSBl { long_c_name_a: u8, long_n_name_b: T12, long_c_name_c: u16 }
pub fn lens_SBl(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SBl {
    type Cloner = s_bl::Init<>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_bl::Init {
        long_c_name_a: self.long_c_name_a.clone(),
        long_n_name_b: self.long_n_name_b.clone(),
        long_c_name_c: self.long_c_name_c.clone(),
    } }
}
impl Subj for SBl {
    type Direct<'e> = s_bl::Init<>;
    type Clo<'e> = <SBl as VClone<'e>>::Cloner;
    fn name() -> String { "SBl".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Fixed(<T12 as Pay>::MASK)); out.push(Kind::Ctl); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(<T12 as Pay>::TOK); out.push(false); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(65535)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SBl(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push(vec![cell(seed, at, 0) & <T12 as Pay>::MASK]); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSBl>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSBl>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SBl, long_c_name_a), std::mem::size_of::<u8>())); at += 1;
        out.push((base + std::mem::offset_of!(SBl, long_n_name_b), std::mem::size_of::<T12>())); at += 1;
        out.push((base + std::mem::offset_of!(SBl, long_c_name_c), std::mem::size_of::<u16>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_c_name_a: u8 = (v[at][0] as u8); at += 1;
        let l_long_n_name_b = <T12 as Pay>::mk(v[at][0]); at += 1;
        let l_long_c_name_c: u16 = (v[at][0] as u16); at += 1;
        s_bl::Init { long_c_name_a: l_long_c_name_a, long_n_name_b: l_long_n_name_b, long_c_name_c: l_long_c_name_c }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.long_c_name_a as u64]);
        out.push(vec![r.long_n_name_b.val()]); if !std::ptr::eq(r.long_n_name_b, &self.long_n_name_b) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().long_n_name_b is not the header field".into()); }
        out.push(vec![*r.long_c_name_c as u64]);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.long_c_name_a as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.long_n_name_b as *const T12 as usize, std::mem::size_of::<T12>()));
        out.push((r.long_c_name_c as *const u16 as usize, std::mem::size_of::<u16>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <T12 as Pay>::mk(x)); *m.long_n_name_b = p; return; } at += 1;
        if leaf == at { return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        { let x = f(at, 0, m.long_n_name_b.val()); *m.long_n_name_b = host(|| <T12 as Pay>::mk(x)); at += 1; }
        at += 1;
    }
}
impl Ctl for SBl {
    const NCTL: usize = 2;
    fn ctl_types() -> Vec<&'static str> { vec!["u8", "u16"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; o.push(at); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(1); q.push(c[1]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SBl(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_bl::LayoutControllers { long_c_name_a: (c[0] as u8), long_c_name_c: (c[1] as u16) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.long_c_name_a) as u64, *(&self.long_c_name_c) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.long_c_name_a as u64, *m.long_c_name_c as u64] }
}
#[define_varlen]

pub struct SBm {
    #[controls_layout]
    pub x: usize,
    pub y: u8,
    #[varlen]
    pub z: SBb,
}
struct MirrorSBm { x: usize, y: u8 }
pub fn lens_SBm(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SBm {
    type Cloner = s_bm::Init<<SBb as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_bm::Init {
        x: self.x.clone(),
        y: self.y.clone(),
        z: r.z.vclone(),
    } }
}
impl Subj for SBm {
    type Direct<'e> = s_bm::Init<AnyInit<'e, SBb>>;
    type Clo<'e> = <SBm as VClone<'e>>::Cloner;
    fn name() -> String { "SBm".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Fixed(<u8 as Pay>::MASK)); <SBb>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(<u8 as Pay>::TOK); <SBb>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SBm(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <SBb>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push(vec![cell(seed, at, 0) & <u8 as Pay>::MASK]); at += 1;
        { let k = <SBb>::leaves(); out.extend(<SBb>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSBm>(), <SBb>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSBm>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SBm, x), std::mem::size_of::<usize>())); at += 1;
        out.push((base + std::mem::offset_of!(SBm, y), std::mem::size_of::<u8>())); at += 1;
        { let k = <SBb>::leaves(); size = up(size, <SBb>::r_align()); size += <SBb>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x: usize = (v[at][0] as usize); at += 1;
        let l_y = <u8 as Pay>::mk(v[at][0]); at += 1;
        let l_z = { let k = <SBb>::leaves(); let i = any::<SBb>(&v[at..at + k], ch, env); at += k; i };
        s_bm::Init { x: l_x, y: l_y, z: l_z }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.x as u64]);
        out.push(vec![r.y.val()]); if !std::ptr::eq(r.y, &self.y) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().y is not the header field".into()); }
        r.z.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.x as *const usize as usize, std::mem::size_of::<usize>()));
        out.push((r.y as *const u8 as usize, std::mem::size_of::<u8>()));
        r.z.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); *m.y = p; return; } at += 1;
        { let k = <SBb>::leaves(); if leaf >= at && leaf < at + k { return <SBb>::set(m.z, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        { let x = f(at, 0, m.y.val()); *m.y = host(|| <u8 as Pay>::mk(x)); at += 1; }
        <SBb>::set_all(m.z, at, f); at += <SBb>::leaves();
    }
}
impl Ctl for SBm {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["usize"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; at += <SBb>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(1); q.extend(<SBb>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SBm(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_bm::LayoutControllers { x: (c[0] as usize) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.x) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.x as u64] }
}
#[define_varlen]

pub struct SBn {
    #[controls_layout]
    pub ca: bool,
    pub nb: T8,
    #[varlen_array]
    pub ac: [T2; if *ca { 3 } else { 1 }],
}
struct MirrorSBn { ca: bool, nb: T8 }
pub fn lens_SBn(c: &[usize]) -> [usize; 1] { [if c[0] != 0 { 3 } else { 1 }] }
impl<'e> VClone<'e> for SBn {
    type Cloner = s_bn::Init<CloneFrom<'e, T2>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_bn::Init {
        ca: self.ca.clone(),
        nb: self.nb.clone(),
        ac: CloneFrom(r.ac),
    } }
}
impl Subj for SBn {
    type Direct<'e> = s_bn::Init<ArrInit<'e, T2>>;
    type Clo<'e> = <SBn as VClone<'e>>::Cloner;
    fn name() -> String { "SBn".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Fixed(<T8 as Pay>::MASK)); out.push(Kind::Dep(<T2 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(<T8 as Pay>::TOK); out.push(<T2 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| (l & 1)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SBn(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push(vec![cell(seed, at, 0) & <T8 as Pay>::MASK]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T2 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSBn>(), std::mem::align_of::<T2>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSBn>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SBn, ca), std::mem::size_of::<bool>())); at += 1;
        out.push((base + std::mem::offset_of!(SBn, nb), std::mem::size_of::<T8>())); at += 1;
        size = up(size, std::mem::align_of::<T2>()); { let n = lens[at] * std::mem::size_of::<T2>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_ca: bool = (v[at][0] != 0); at += 1;
        let l_nb = <T8 as Pay>::mk(v[at][0]); at += 1;
        let l_ac = arr_init::<T2>(&v[at], ch, env); at += 1;
        s_bn::Init { ca: l_ca, nb: l_nb, ac: l_ac }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![(*r.ca) as u64]);
        out.push(vec![r.nb.val()]); if !std::ptr::eq(r.nb, &self.nb) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nb is not the header field".into()); }
        if r.ac.len() > 1 << 20 { crate::fail!("length {} of ac is absurd", r.ac.len()); } out.push(r.ac.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.ca as *const bool as usize, std::mem::size_of::<bool>()));
        out.push((r.nb as *const T8 as usize, std::mem::size_of::<T8>()));
        out.push((r.ac.as_ptr() as usize, std::mem::size_of_val(r.ac)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); *m.nb = p; return; } at += 1;
        if leaf == at { let p = host(|| <T2 as Pay>::mk(x)); m.ac[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        { let x = f(at, 0, m.nb.val()); *m.nb = host(|| <T8 as Pay>::mk(x)); at += 1; }
        for (i, p) in m.ac.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T2 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SBn {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["bool"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(1); q.push(al[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SBn(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_bn::LayoutControllers { ca: (c[0] != 0) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![(*(&self.ca)) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![(*m.ca) as u64] }
}
#[define_varlen]

pub struct SBo {
    #[controls_layout]
    pub long_c_name_a: (u8, u8),
    #[controls_layout]
    pub long_c_name_b: u32,
    pub long_n_name_c: u32,
}
struct MirrorSBo { long_c_name_a: (u8, u8), long_c_name_b: u32, long_n_name_c: u32 }
pub fn lens_SBo(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SBo {
    type Cloner = s_bo::Init<>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_bo::Init {
        long_c_name_a: self.long_c_name_a.clone(),
        long_c_name_b: self.long_c_name_b.clone(),
        long_n_name_c: self.long_n_name_c.clone(),
    } }
}
impl Subj for SBo {
    type Direct<'e> = s_bo::Init<>;
    type Clo<'e> = <SBo as VClone<'e>>::Cloner;
    fn name() -> String { "SBo".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Ctl); out.push(Kind::Fixed(<u32 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(false); out.push(<u32 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| ((l & 255) | ((l / 2) & 255) << 8)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        { let mut o: Vec<usize> = ls.iter().map(|&l| l).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SBo(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push(vec![cell(seed, at, 0) & <u32 as Pay>::MASK]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSBo>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSBo>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SBo, long_c_name_a), std::mem::size_of::<(u8, u8)>())); at += 1;
        out.push((base + std::mem::offset_of!(SBo, long_c_name_b), std::mem::size_of::<u32>())); at += 1;
        out.push((base + std::mem::offset_of!(SBo, long_n_name_c), std::mem::size_of::<u32>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_c_name_a: (u8, u8) = ((v[at][0] & 255) as u8, (v[at][0] >> 8) as u8); at += 1;
        let l_long_c_name_b: u32 = (v[at][0] as u32); at += 1;
        let l_long_n_name_c = <u32 as Pay>::mk(v[at][0]); at += 1;
        s_bo::Init { long_c_name_a: l_long_c_name_a, long_c_name_b: l_long_c_name_b, long_n_name_c: l_long_n_name_c }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![(r.long_c_name_a.0 as u64 | (r.long_c_name_a.1 as u64) << 8)]);
        out.push(vec![*r.long_c_name_b as u64]);
        out.push(vec![r.long_n_name_c.val()]); if !std::ptr::eq(r.long_n_name_c, &self.long_n_name_c) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().long_n_name_c is not the header field".into()); }
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.long_c_name_a as *const (u8, u8) as usize, std::mem::size_of::<(u8, u8)>()));
        out.push((r.long_c_name_b as *const u32 as usize, std::mem::size_of::<u32>()));
        out.push((r.long_n_name_c as *const u32 as usize, std::mem::size_of::<u32>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <u32 as Pay>::mk(x)); *m.long_n_name_c = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        at += 1;
        { let x = f(at, 0, m.long_n_name_c.val()); *m.long_n_name_c = host(|| <u32 as Pay>::mk(x)); at += 1; }
    }
}
impl Ctl for SBo {
    const NCTL: usize = 2;
    fn ctl_types() -> Vec<&'static str> { vec!["(u8, u8)", "u32"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; o.push(at); at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(c[1]); q.push(1); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SBo(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_bo::LayoutControllers { long_c_name_a: ((c[0] & 255) as u8, (c[0] >> 8) as u8), long_c_name_b: (c[1] as u32) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![((&self.long_c_name_a).0 as u64 | ((&self.long_c_name_a).1 as u64) << 8), *(&self.long_c_name_b) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![(m.long_c_name_a.0 as u64 | (m.long_c_name_a.1 as u64) << 8), *m.long_c_name_b as u64] }
}
#[define_varlen]

pub struct SBp {
    #[controls_layout]
    pub x: u8,
    #[controls_layout]
    pub y: u16,
    #[controls_layout]
    pub z: usize,
}
struct MirrorSBp { x: u8, y: u16, z: usize }
pub fn lens_SBp(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SBp {
    type Cloner = s_bp::Init<>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_bp::Init {
        x: self.x.clone(),
        y: self.y.clone(),
        z: self.z.clone(),
    } }
}
impl Subj for SBp {
    type Direct<'e> = s_bp::Init<>;
    type Clo<'e> = <SBp as VClone<'e>>::Cloner;
    fn name() -> String { "SBp".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Ctl); out.push(Kind::Ctl); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(false); out.push(false); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(65535)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        { let mut o: Vec<usize> = ls.iter().map(|&l| l).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SBp(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[2]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSBp>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSBp>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SBp, x), std::mem::size_of::<u8>())); at += 1;
        out.push((base + std::mem::offset_of!(SBp, y), std::mem::size_of::<u16>())); at += 1;
        out.push((base + std::mem::offset_of!(SBp, z), std::mem::size_of::<usize>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x: u8 = (v[at][0] as u8); at += 1;
        let l_y: u16 = (v[at][0] as u16); at += 1;
        let l_z: usize = (v[at][0] as usize); at += 1;
        s_bp::Init { x: l_x, y: l_y, z: l_z }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.x as u64]);
        out.push(vec![*r.y as u64]);
        out.push(vec![*r.z as u64]);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.x as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.y as *const u16 as usize, std::mem::size_of::<u16>()));
        out.push((r.z as *const usize as usize, std::mem::size_of::<usize>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { return; } at += 1;
        if leaf == at { return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        at += 1;
        at += 1;
    }
}
impl Ctl for SBp {
    const NCTL: usize = 3;
    fn ctl_types() -> Vec<&'static str> { vec!["u8", "u16", "usize"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; o.push(at); at += 1; o.push(at); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(c[1]); q.push(c[2]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SBp(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_bp::LayoutControllers { x: (c[0] as u8), y: (c[1] as u16), z: (c[2] as usize) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.x) as u64, *(&self.y) as u64, *(&self.z) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.x as u64, *m.y as u64, *m.z as u64] }
}
#[define_varlen]

pub struct SBq {
    #[controls_layout]
    pub ca: bool,
    #[controls_layout]
    pub cb: (u8, u8),
    #[varlen]
    pub vc: Array<A64, u8>,
}
struct MirrorSBq { ca: bool, cb: (u8, u8) }
pub fn lens_SBq(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SBq {
    type Cloner = s_bq::Init<<Array<A64, u8> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_bq::Init {
        ca: self.ca.clone(),
        cb: self.cb.clone(),
        vc: r.vc.vclone(),
    } }
}
impl Subj for SBq {
    type Direct<'e> = s_bq::Init<AnyInit<'e, Array<A64, u8>>>;
    type Clo<'e> = <SBq as VClone<'e>>::Cloner;
    fn name() -> String { "SBq".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Ctl); <Array<A64, u8>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(false); <Array<A64, u8>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| (l & 1)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        { let mut o: Vec<usize> = ls.iter().map(|&l| ((l & 255) | ((l / 2) & 255) << 8)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SBq(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<A64, u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        { let k = <Array<A64, u8>>::leaves(); out.extend(<Array<A64, u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSBq>(), <Array<A64, u8>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSBq>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SBq, ca), std::mem::size_of::<bool>())); at += 1;
        out.push((base + std::mem::offset_of!(SBq, cb), std::mem::size_of::<(u8, u8)>())); at += 1;
        { let k = <Array<A64, u8>>::leaves(); size = up(size, <Array<A64, u8>>::r_align()); size += <Array<A64, u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_ca: bool = (v[at][0] != 0); at += 1;
        let l_cb: (u8, u8) = ((v[at][0] & 255) as u8, (v[at][0] >> 8) as u8); at += 1;
        let l_vc = { let k = <Array<A64, u8>>::leaves(); let i = any::<Array<A64, u8>>(&v[at..at + k], ch, env); at += k; i };
        s_bq::Init { ca: l_ca, cb: l_cb, vc: l_vc }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![(*r.ca) as u64]);
        out.push(vec![(r.cb.0 as u64 | (r.cb.1 as u64) << 8)]);
        r.vc.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.ca as *const bool as usize, std::mem::size_of::<bool>()));
        out.push((r.cb as *const (u8, u8) as usize, std::mem::size_of::<(u8, u8)>()));
        r.vc.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { return; } at += 1;
        { let k = <Array<A64, u8>>::leaves(); if leaf >= at && leaf < at + k { return <Array<A64, u8>>::set(m.vc, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        at += 1;
        <Array<A64, u8>>::set_all(m.vc, at, f); at += <Array<A64, u8>>::leaves();
    }
}
impl Ctl for SBq {
    const NCTL: usize = 2;
    fn ctl_types() -> Vec<&'static str> { vec!["bool", "(u8, u8)"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; o.push(at); at += 1; at += <Array<A64, u8>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(c[1]); q.extend(<Array<A64, u8>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SBq(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_bq::LayoutControllers { ca: (c[0] != 0), cb: ((c[1] & 255) as u8, (c[1] >> 8) as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![(*(&self.ca)) as u64, ((&self.cb).0 as u64 | ((&self.cb).1 as u64) << 8)] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![(*m.ca) as u64, (m.cb.0 as u64 | (m.cb.1 as u64) << 8)] }
}
#[define_varlen]

pub struct SBr {
    #[controls_layout]
    pub long_c_name_a: u32,
    #[controls_layout]
    pub long_c_name_b: u8,
    #[varlen_array]
    pub long_a_name_c: [TZ; *long_c_name_a as usize],
}
struct MirrorSBr { long_c_name_a: u32, long_c_name_b: u8 }
pub fn lens_SBr(c: &[usize]) -> [usize; 1] { [c[0]] }
impl<'e> VClone<'e> for SBr {
    type Cloner = s_br::Init<CloneFrom<'e, TZ>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_br::Init {
        long_c_name_a: self.long_c_name_a.clone(),
        long_c_name_b: self.long_c_name_b.clone(),
        long_a_name_c: CloneFrom(r.long_a_name_c),
    } }
}
impl Subj for SBr {
    type Direct<'e> = s_br::Init<ArrInit<'e, TZ>>;
    type Clo<'e> = <SBr as VClone<'e>>::Cloner;
    fn name() -> String { "SBr".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Ctl); out.push(Kind::Dep(<TZ as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(false); out.push(<TZ as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SBr(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <TZ as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSBr>(), std::mem::align_of::<TZ>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSBr>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SBr, long_c_name_a), std::mem::size_of::<u32>())); at += 1;
        out.push((base + std::mem::offset_of!(SBr, long_c_name_b), std::mem::size_of::<u8>())); at += 1;
        size = up(size, std::mem::align_of::<TZ>()); { let n = lens[at] * std::mem::size_of::<TZ>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_c_name_a: u32 = (v[at][0] as u32); at += 1;
        let l_long_c_name_b: u8 = (v[at][0] as u8); at += 1;
        let l_long_a_name_c = arr_init::<TZ>(&v[at], ch, env); at += 1;
        s_br::Init { long_c_name_a: l_long_c_name_a, long_c_name_b: l_long_c_name_b, long_a_name_c: l_long_a_name_c }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.long_c_name_a as u64]);
        out.push(vec![*r.long_c_name_b as u64]);
        if r.long_a_name_c.len() > 1 << 20 { crate::fail!("length {} of long_a_name_c is absurd", r.long_a_name_c.len()); } out.push(r.long_a_name_c.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.long_c_name_a as *const u32 as usize, std::mem::size_of::<u32>()));
        out.push((r.long_c_name_b as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.long_a_name_c.as_ptr() as usize, std::mem::size_of_val(r.long_a_name_c)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <TZ as Pay>::mk(x)); m.long_a_name_c[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        at += 1;
        for (i, p) in m.long_a_name_c.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <TZ as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SBr {
    const NCTL: usize = 2;
    fn ctl_types() -> Vec<&'static str> { vec!["u32", "u8"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; o.push(at); at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(c[1]); q.push(al[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SBr(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_br::LayoutControllers { long_c_name_a: (c[0] as u32), long_c_name_b: (c[1] as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.long_c_name_a) as u64, *(&self.long_c_name_b) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.long_c_name_a as u64, *m.long_c_name_b as u64] }
}
#[define_varlen]

pub struct SBs {
    #[controls_layout]
    pub x: u16,
    #[varlen]
    pub y: FixedLen<T16>,
    pub z: T16,
}
struct MirrorSBs { x: u16, z: T16 }
pub fn lens_SBs(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SBs {
    type Cloner = s_bs::Init<<FixedLen<T16> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_bs::Init {
        x: self.x.clone(),
        y: r.y.vclone(),
        z: self.z.clone(),
    } }
}
impl Subj for SBs {
    type Direct<'e> = s_bs::Init<AnyInit<'e, FixedLen<T16>>>;
    type Clo<'e> = <SBs as VClone<'e>>::Cloner;
    fn name() -> String { "SBs".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); <FixedLen<T16>>::kinds(out); out.push(Kind::Fixed(<T16 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); <FixedLen<T16>>::toks(out); out.push(<T16 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(65535)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SBs(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<T16>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        { let k = <FixedLen<T16>>::leaves(); out.extend(<FixedLen<T16>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![cell(seed, at, 0) & <T16 as Pay>::MASK]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSBs>(), <FixedLen<T16>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSBs>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SBs, x), std::mem::size_of::<u16>())); at += 1;
        { let k = <FixedLen<T16>>::leaves(); size = up(size, <FixedLen<T16>>::r_align()); size += <FixedLen<T16>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SBs, z), std::mem::size_of::<T16>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x: u16 = (v[at][0] as u16); at += 1;
        let l_y = { let k = <FixedLen<T16>>::leaves(); let i = any::<FixedLen<T16>>(&v[at..at + k], ch, env); at += k; i };
        let l_z = <T16 as Pay>::mk(v[at][0]); at += 1;
        s_bs::Init { x: l_x, y: l_y, z: l_z }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.x as u64]);
        r.y.read(out);
        out.push(vec![r.z.val()]); if !std::ptr::eq(r.z, &self.z) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().z is not the header field".into()); }
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.x as *const u16 as usize, std::mem::size_of::<u16>()));
        r.y.parts(out);
        out.push((r.z as *const T16 as usize, std::mem::size_of::<T16>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        { let k = <FixedLen<T16>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<T16>>::set(m.y, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <T16 as Pay>::mk(x)); *m.z = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        <FixedLen<T16>>::set_all(m.y, at, f); at += <FixedLen<T16>>::leaves();
        { let x = f(at, 0, m.z.val()); *m.z = host(|| <T16 as Pay>::mk(x)); at += 1; }
    }
}
impl Ctl for SBs {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u16"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += <FixedLen<T16>>::leaves(); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.extend(<FixedLen<T16>>::shapes(&[l])[0].iter()); q.push(1); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SBs(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_bs::LayoutControllers { x: (c[0] as u16) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.x) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.x as u64] }
}
#[define_varlen]

pub struct SBt {
    #[controls_layout]
    pub ca: usize,
    #[varlen]
    pub vb: Str<u16>,
    #[controls_layout]
    pub cc: bool,
}
struct MirrorSBt { ca: usize, cc: bool }
pub fn lens_SBt(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SBt {
    type Cloner = s_bt::Init<<Str<u16> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_bt::Init {
        ca: self.ca.clone(),
        vb: r.vb.vclone(),
        cc: self.cc.clone(),
    } }
}
impl Subj for SBt {
    type Direct<'e> = s_bt::Init<AnyInit<'e, Str<u16>>>;
    type Clo<'e> = <SBt as VClone<'e>>::Cloner;
    fn name() -> String { "SBt".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); <Str<u16>>::kinds(out); out.push(Kind::Ctl); }
    fn toks(out: &mut Vec<bool>) { out.push(false); <Str<u16>>::toks(out); out.push(false); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        { let mut o: Vec<usize> = ls.iter().map(|&l| (l & 1)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SBt(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Str<u16>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        { let k = <Str<u16>>::leaves(); out.extend(<Str<u16>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![lens[at] as u64]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSBt>(), <Str<u16>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSBt>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SBt, ca), std::mem::size_of::<usize>())); at += 1;
        { let k = <Str<u16>>::leaves(); size = up(size, <Str<u16>>::r_align()); size += <Str<u16>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SBt, cc), std::mem::size_of::<bool>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_ca: usize = (v[at][0] as usize); at += 1;
        let l_vb = { let k = <Str<u16>>::leaves(); let i = any::<Str<u16>>(&v[at..at + k], ch, env); at += k; i };
        let l_cc: bool = (v[at][0] != 0); at += 1;
        s_bt::Init { ca: l_ca, vb: l_vb, cc: l_cc }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.ca as u64]);
        r.vb.read(out);
        out.push(vec![(*r.cc) as u64]);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.ca as *const usize as usize, std::mem::size_of::<usize>()));
        r.vb.parts(out);
        out.push((r.cc as *const bool as usize, std::mem::size_of::<bool>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        { let k = <Str<u16>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u16>>::set(m.vb, leaf - at, idx, x); } at += k; }
        if leaf == at { return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        <Str<u16>>::set_all(m.vb, at, f); at += <Str<u16>>::leaves();
        at += 1;
    }
}
impl Ctl for SBt {
    const NCTL: usize = 2;
    fn ctl_types() -> Vec<&'static str> { vec!["usize", "bool"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += <Str<u16>>::leaves(); o.push(at); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.extend(<Str<u16>>::shapes(&[l])[0].iter()); q.push(c[1]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SBt(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_bt::LayoutControllers { ca: (c[0] as usize), cc: (c[1] != 0) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.ca) as u64, (*(&self.cc)) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.ca as u64, (*m.cc) as u64] }
}
#[define_varlen]

pub struct SBu {
    #[controls_layout]
    pub long_c_name_a: (u8, u8),
    #[varlen]
    pub long_v_name_b: Array<T12, u32>,
    #[varlen]
    pub long_v_name_c: Str<u8>,
}
struct MirrorSBu { long_c_name_a: (u8, u8) }
pub fn lens_SBu(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SBu {
    type Cloner = s_bu::Init<<Array<T12, u32> as VClone<'e>>::Cloner, <Str<u8> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_bu::Init {
        long_c_name_a: self.long_c_name_a.clone(),
        long_v_name_b: r.long_v_name_b.vclone(),
        long_v_name_c: r.long_v_name_c.vclone(),
    } }
}
impl Subj for SBu {
    type Direct<'e> = s_bu::Init<AnyInit<'e, Array<T12, u32>>, AnyInit<'e, Str<u8>>>;
    type Clo<'e> = <SBu as VClone<'e>>::Cloner;
    fn name() -> String { "SBu".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); <Array<T12, u32>>::kinds(out); <Str<u8>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { out.push(false); <Array<T12, u32>>::toks(out); <Str<u8>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| ((l & 255) | ((l / 2) & 255) << 8)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SBu(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<T12, u32>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Str<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        { let k = <Array<T12, u32>>::leaves(); out.extend(<Array<T12, u32>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <Str<u8>>::leaves(); out.extend(<Str<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSBu>(), <Array<T12, u32>>::r_align(), <Str<u8>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSBu>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SBu, long_c_name_a), std::mem::size_of::<(u8, u8)>())); at += 1;
        { let k = <Array<T12, u32>>::leaves(); size = up(size, <Array<T12, u32>>::r_align()); size += <Array<T12, u32>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <Str<u8>>::leaves(); size = up(size, <Str<u8>>::r_align()); size += <Str<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_c_name_a: (u8, u8) = ((v[at][0] & 255) as u8, (v[at][0] >> 8) as u8); at += 1;
        let l_long_v_name_b = { let k = <Array<T12, u32>>::leaves(); let i = any::<Array<T12, u32>>(&v[at..at + k], ch, env); at += k; i };
        let l_long_v_name_c = { let k = <Str<u8>>::leaves(); let i = any::<Str<u8>>(&v[at..at + k], ch, env); at += k; i };
        s_bu::Init { long_c_name_a: l_long_c_name_a, long_v_name_b: l_long_v_name_b, long_v_name_c: l_long_v_name_c }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![(r.long_c_name_a.0 as u64 | (r.long_c_name_a.1 as u64) << 8)]);
        r.long_v_name_b.read(out);
        r.long_v_name_c.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.long_c_name_a as *const (u8, u8) as usize, std::mem::size_of::<(u8, u8)>()));
        r.long_v_name_b.parts(out);
        r.long_v_name_c.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        { let k = <Array<T12, u32>>::leaves(); if leaf >= at && leaf < at + k { return <Array<T12, u32>>::set(m.long_v_name_b, leaf - at, idx, x); } at += k; }
        { let k = <Str<u8>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u8>>::set(m.long_v_name_c, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        <Array<T12, u32>>::set_all(m.long_v_name_b, at, f); at += <Array<T12, u32>>::leaves();
        <Str<u8>>::set_all(m.long_v_name_c, at, f); at += <Str<u8>>::leaves();
    }
}
impl Ctl for SBu {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["(u8, u8)"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += <Array<T12, u32>>::leaves(); at += <Str<u8>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.extend(<Array<T12, u32>>::shapes(&[l])[0].iter()); q.extend(<Str<u8>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SBu(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_bu::LayoutControllers { long_c_name_a: ((c[0] & 255) as u8, (c[0] >> 8) as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![((&self.long_c_name_a).0 as u64 | ((&self.long_c_name_a).1 as u64) << 8)] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![(m.long_c_name_a.0 as u64 | (m.long_c_name_a.1 as u64) << 8)] }
}
#[define_varlen]

pub struct SBv {
    #[controls_layout]
    pub x: u32,
    #[varlen]
    pub y: Array<T8, u16>,
    #[varlen_array]
    pub z: [[u8; 3]; *x as usize],
}
struct MirrorSBv { x: u32 }
pub fn lens_SBv(c: &[usize]) -> [usize; 1] { [c[0]] }
impl<'e> VClone<'e> for SBv {
    type Cloner = s_bv::Init<<Array<T8, u16> as VClone<'e>>::Cloner, CloneFrom<'e, [u8; 3]>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_bv::Init {
        x: self.x.clone(),
        y: r.y.vclone(),
        z: CloneFrom(r.z),
    } }
}
impl Subj for SBv {
    type Direct<'e> = s_bv::Init<AnyInit<'e, Array<T8, u16>>, ArrInit<'e, [u8; 3]>>;
    type Clo<'e> = <SBv as VClone<'e>>::Cloner;
    fn name() -> String { "SBv".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); <Array<T8, u16>>::kinds(out); out.push(Kind::Dep(<[u8; 3] as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); <Array<T8, u16>>::toks(out); out.push(<[u8; 3] as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SBv(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<T8, u16>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        { let k = <Array<T8, u16>>::leaves(); out.extend(<Array<T8, u16>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <[u8; 3] as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSBv>(), <Array<T8, u16>>::r_align(), std::mem::align_of::<[u8; 3]>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSBv>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SBv, x), std::mem::size_of::<u32>())); at += 1;
        { let k = <Array<T8, u16>>::leaves(); size = up(size, <Array<T8, u16>>::r_align()); size += <Array<T8, u16>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size = up(size, std::mem::align_of::<[u8; 3]>()); { let n = lens[at] * std::mem::size_of::<[u8; 3]>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x: u32 = (v[at][0] as u32); at += 1;
        let l_y = { let k = <Array<T8, u16>>::leaves(); let i = any::<Array<T8, u16>>(&v[at..at + k], ch, env); at += k; i };
        let l_z = arr_init::<[u8; 3]>(&v[at], ch, env); at += 1;
        s_bv::Init { x: l_x, y: l_y, z: l_z }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.x as u64]);
        r.y.read(out);
        if r.z.len() > 1 << 20 { crate::fail!("length {} of z is absurd", r.z.len()); } out.push(r.z.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.x as *const u32 as usize, std::mem::size_of::<u32>()));
        r.y.parts(out);
        out.push((r.z.as_ptr() as usize, std::mem::size_of_val(r.z)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        { let k = <Array<T8, u16>>::leaves(); if leaf >= at && leaf < at + k { return <Array<T8, u16>>::set(m.y, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <[u8; 3] as Pay>::mk(x)); m.z[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        <Array<T8, u16>>::set_all(m.y, at, f); at += <Array<T8, u16>>::leaves();
        for (i, p) in m.z.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <[u8; 3] as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SBv {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u32"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += <Array<T8, u16>>::leaves(); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.extend(<Array<T8, u16>>::shapes(&[l])[0].iter()); q.push(al[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SBv(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_bv::LayoutControllers { x: (c[0] as u32) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.x) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.x as u64] }
}
#[define_varlen]

pub struct SBw {
    #[controls_layout]
    pub ca: u8,
    #[varlen_array]
    pub ab: [T64; (*ca as usize) / 2],
    pub nc: u64,
}
struct MirrorSBw { ca: u8, nc: u64 }
pub fn lens_SBw(c: &[usize]) -> [usize; 1] { [c[0] / 2] }
impl<'e> VClone<'e> for SBw {
    type Cloner = s_bw::Init<CloneFrom<'e, T64>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_bw::Init {
        ca: self.ca.clone(),
        ab: CloneFrom(r.ab),
        nc: self.nc.clone(),
    } }
}
impl Subj for SBw {
    type Direct<'e> = s_bw::Init<ArrInit<'e, T64>>;
    type Clo<'e> = <SBw as VClone<'e>>::Cloner;
    fn name() -> String { "SBw".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Dep(<T64 as Pay>::MASK)); out.push(Kind::Fixed(<u64 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(<T64 as Pay>::TOK); out.push(<u64 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SBw(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T64 as Pay>::MASK).collect()); at += 1;
        out.push(vec![cell(seed, at, 0) & <u64 as Pay>::MASK]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSBw>(), std::mem::align_of::<T64>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSBw>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SBw, ca), std::mem::size_of::<u8>())); at += 1;
        size = up(size, std::mem::align_of::<T64>()); { let n = lens[at] * std::mem::size_of::<T64>(); out.push((base + size, n)); size += n; at += 1; }
        out.push((base + std::mem::offset_of!(SBw, nc), std::mem::size_of::<u64>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_ca: u8 = (v[at][0] as u8); at += 1;
        let l_ab = arr_init::<T64>(&v[at], ch, env); at += 1;
        let l_nc = <u64 as Pay>::mk(v[at][0]); at += 1;
        s_bw::Init { ca: l_ca, ab: l_ab, nc: l_nc }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.ca as u64]);
        if r.ab.len() > 1 << 20 { crate::fail!("length {} of ab is absurd", r.ab.len()); } out.push(r.ab.iter().map(|p| p.val()).collect());
        out.push(vec![r.nc.val()]); if !std::ptr::eq(r.nc, &self.nc) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nc is not the header field".into()); }
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.ca as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.ab.as_ptr() as usize, std::mem::size_of_val(r.ab)));
        out.push((r.nc as *const u64 as usize, std::mem::size_of::<u64>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <T64 as Pay>::mk(x)); m.ab[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u64 as Pay>::mk(x)); *m.nc = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        for (i, p) in m.ab.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T64 as Pay>::mk(x)); } at += 1;
        { let x = f(at, 0, m.nc.val()); *m.nc = host(|| <u64 as Pay>::mk(x)); at += 1; }
    }
}
impl Ctl for SBw {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u8"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(al[0]); q.push(1); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SBw(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_bw::LayoutControllers { ca: (c[0] as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.ca) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.ca as u64] }
}
#[define_varlen]

pub struct SBx {
    #[controls_layout]
    pub long_c_name_a: u16,
    #[varlen_array]
    pub long_a_name_b: [(); *long_c_name_a as usize],
    #[controls_layout]
    pub long_c_name_c: usize,
}
struct MirrorSBx { long_c_name_a: u16, long_c_name_c: usize }
pub fn lens_SBx(c: &[usize]) -> [usize; 1] { [c[0]] }
impl<'e> VClone<'e> for SBx {
    type Cloner = s_bx::Init<CloneFrom<'e, ()>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_bx::Init {
        long_c_name_a: self.long_c_name_a.clone(),
        long_a_name_b: CloneFrom(r.long_a_name_b),
        long_c_name_c: self.long_c_name_c.clone(),
    } }
}
impl Subj for SBx {
    type Direct<'e> = s_bx::Init<ArrInit<'e, ()>>;
    type Clo<'e> = <SBx as VClone<'e>>::Cloner;
    fn name() -> String { "SBx".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Dep(<() as Pay>::MASK)); out.push(Kind::Ctl); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(<() as Pay>::TOK); out.push(false); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(65535)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        { let mut o: Vec<usize> = ls.iter().map(|&l| l).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SBx(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <() as Pay>::MASK).collect()); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSBx>(), std::mem::align_of::<()>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSBx>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SBx, long_c_name_a), std::mem::size_of::<u16>())); at += 1;
        size = up(size, std::mem::align_of::<()>()); { let n = lens[at] * std::mem::size_of::<()>(); out.push((base + size, n)); size += n; at += 1; }
        out.push((base + std::mem::offset_of!(SBx, long_c_name_c), std::mem::size_of::<usize>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_c_name_a: u16 = (v[at][0] as u16); at += 1;
        let l_long_a_name_b = arr_init::<()>(&v[at], ch, env); at += 1;
        let l_long_c_name_c: usize = (v[at][0] as usize); at += 1;
        s_bx::Init { long_c_name_a: l_long_c_name_a, long_a_name_b: l_long_a_name_b, long_c_name_c: l_long_c_name_c }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.long_c_name_a as u64]);
        if r.long_a_name_b.len() > 1 << 20 { crate::fail!("length {} of long_a_name_b is absurd", r.long_a_name_b.len()); } out.push(r.long_a_name_b.iter().map(|p| p.val()).collect());
        out.push(vec![*r.long_c_name_c as u64]);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.long_c_name_a as *const u16 as usize, std::mem::size_of::<u16>()));
        out.push((r.long_a_name_b.as_ptr() as usize, std::mem::size_of_val(r.long_a_name_b)));
        out.push((r.long_c_name_c as *const usize as usize, std::mem::size_of::<usize>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <() as Pay>::mk(x)); m.long_a_name_b[idx] = p; return; } at += 1;
        if leaf == at { return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        for (i, p) in m.long_a_name_b.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <() as Pay>::mk(x)); } at += 1;
        at += 1;
    }
}
impl Ctl for SBx {
    const NCTL: usize = 2;
    fn ctl_types() -> Vec<&'static str> { vec!["u16", "usize"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; o.push(at); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(al[0]); q.push(c[1]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SBx(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_bx::LayoutControllers { long_c_name_a: (c[0] as u16), long_c_name_c: (c[1] as usize) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.long_c_name_a) as u64, *(&self.long_c_name_c) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.long_c_name_a as u64, *m.long_c_name_c as u64] }
}
#[define_varlen]

pub struct SBy {
    #[controls_layout]
    pub x: bool,
    #[varlen_array]
    pub y: [u16; if *x { 3 } else { 1 }],
    #[varlen]
    pub z: FixedLen<u64>,
}
struct MirrorSBy { x: bool }
pub fn lens_SBy(c: &[usize]) -> [usize; 1] { [if c[0] != 0 { 3 } else { 1 }] }
impl<'e> VClone<'e> for SBy {
    type Cloner = s_by::Init<CloneFrom<'e, u16>, <FixedLen<u64> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_by::Init {
        x: self.x.clone(),
        y: CloneFrom(r.y),
        z: r.z.vclone(),
    } }
}
impl Subj for SBy {
    type Direct<'e> = s_by::Init<ArrInit<'e, u16>, AnyInit<'e, FixedLen<u64>>>;
    type Clo<'e> = <SBy as VClone<'e>>::Cloner;
    fn name() -> String { "SBy".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Dep(<u16 as Pay>::MASK)); <FixedLen<u64>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(<u16 as Pay>::TOK); <FixedLen<u64>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| (l & 1)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SBy(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<u64>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u16 as Pay>::MASK).collect()); at += 1;
        { let k = <FixedLen<u64>>::leaves(); out.extend(<FixedLen<u64>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSBy>(), std::mem::align_of::<u16>(), <FixedLen<u64>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSBy>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SBy, x), std::mem::size_of::<bool>())); at += 1;
        size = up(size, std::mem::align_of::<u16>()); { let n = lens[at] * std::mem::size_of::<u16>(); out.push((base + size, n)); size += n; at += 1; }
        { let k = <FixedLen<u64>>::leaves(); size = up(size, <FixedLen<u64>>::r_align()); size += <FixedLen<u64>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x: bool = (v[at][0] != 0); at += 1;
        let l_y = arr_init::<u16>(&v[at], ch, env); at += 1;
        let l_z = { let k = <FixedLen<u64>>::leaves(); let i = any::<FixedLen<u64>>(&v[at..at + k], ch, env); at += k; i };
        s_by::Init { x: l_x, y: l_y, z: l_z }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![(*r.x) as u64]);
        if r.y.len() > 1 << 20 { crate::fail!("length {} of y is absurd", r.y.len()); } out.push(r.y.iter().map(|p| p.val()).collect());
        r.z.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.x as *const bool as usize, std::mem::size_of::<bool>()));
        out.push((r.y.as_ptr() as usize, std::mem::size_of_val(r.y)));
        r.z.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <u16 as Pay>::mk(x)); m.y[idx] = p; return; } at += 1;
        { let k = <FixedLen<u64>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<u64>>::set(m.z, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        for (i, p) in m.y.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u16 as Pay>::mk(x)); } at += 1;
        <FixedLen<u64>>::set_all(m.z, at, f); at += <FixedLen<u64>>::leaves();
    }
}
impl Ctl for SBy {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["bool"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; at += <FixedLen<u64>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(al[0]); q.extend(<FixedLen<u64>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SBy(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_by::LayoutControllers { x: (c[0] != 0) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![(*(&self.x)) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![(*m.x) as u64] }
}
#[define_varlen]

pub struct SBz {
    #[controls_layout]
    pub ca: (u8, u8),
    #[varlen_array]
    pub ab: [T8; ca.1 as usize],
    #[varlen_array]
    pub ac: [u8; ca.0 as usize + ca.1 as usize],
}
struct MirrorSBz { ca: (u8, u8) }
pub fn lens_SBz(c: &[usize]) -> [usize; 2] { [c[0] >> 8, (c[0] & 255) + (c[0] >> 8)] }
impl<'e> VClone<'e> for SBz {
    type Cloner = s_bz::Init<CloneFrom<'e, T8>, CloneFrom<'e, u8>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_bz::Init {
        ca: self.ca.clone(),
        ab: CloneFrom(r.ab),
        ac: CloneFrom(r.ac),
    } }
}
impl Subj for SBz {
    type Direct<'e> = s_bz::Init<ArrInit<'e, T8>, ArrInit<'e, u8>>;
    type Clo<'e> = <SBz as VClone<'e>>::Cloner;
    fn name() -> String { "SBz".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Dep(<T8 as Pay>::MASK)); out.push(Kind::Dep(<u8 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(<T8 as Pay>::TOK); out.push(<u8 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| ((l & 255) | ((l / 2) & 255) << 8)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SBz(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T8 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u8 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSBz>(), std::mem::align_of::<T8>(), std::mem::align_of::<u8>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSBz>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SBz, ca), std::mem::size_of::<(u8, u8)>())); at += 1;
        size = up(size, std::mem::align_of::<T8>()); { let n = lens[at] * std::mem::size_of::<T8>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<u8>()); { let n = lens[at] * std::mem::size_of::<u8>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_ca: (u8, u8) = ((v[at][0] & 255) as u8, (v[at][0] >> 8) as u8); at += 1;
        let l_ab = arr_init::<T8>(&v[at], ch, env); at += 1;
        let l_ac = arr_init::<u8>(&v[at], ch, env); at += 1;
        s_bz::Init { ca: l_ca, ab: l_ab, ac: l_ac }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![(r.ca.0 as u64 | (r.ca.1 as u64) << 8)]);
        if r.ab.len() > 1 << 20 { crate::fail!("length {} of ab is absurd", r.ab.len()); } out.push(r.ab.iter().map(|p| p.val()).collect());
        if r.ac.len() > 1 << 20 { crate::fail!("length {} of ac is absurd", r.ac.len()); } out.push(r.ac.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.ca as *const (u8, u8) as usize, std::mem::size_of::<(u8, u8)>()));
        out.push((r.ab.as_ptr() as usize, std::mem::size_of_val(r.ab)));
        out.push((r.ac.as_ptr() as usize, std::mem::size_of_val(r.ac)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); m.ab[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); m.ac[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        for (i, p) in m.ab.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T8 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ac.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u8 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SBz {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["(u8, u8)"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(al[0]); q.push(al[1]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SBz(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_bz::LayoutControllers { ca: ((c[0] & 255) as u8, (c[0] >> 8) as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![((&self.ca).0 as u64 | ((&self.ca).1 as u64) << 8)] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![(m.ca.0 as u64 | (m.ca.1 as u64) << 8)] }
}
#[define_varlen]

pub struct SCa {
    #[varlen]
    pub long_v_name_a: Array<u64, u8>,
    pub long_n_name_b: T2,
    pub long_n_name_c: A16,
}
struct MirrorSCa { long_n_name_b: T2, long_n_name_c: A16 }
pub fn lens_SCa(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SCa {
    type Cloner = s_ca::Init<<Array<u64, u8> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ca::Init {
        long_v_name_a: r.long_v_name_a.vclone(),
        long_n_name_b: self.long_n_name_b.clone(),
        long_n_name_c: self.long_n_name_c.clone(),
    } }
}
impl Subj for SCa {
    type Direct<'e> = s_ca::Init<AnyInit<'e, Array<u64, u8>>>;
    type Clo<'e> = <SCa as VClone<'e>>::Cloner;
    fn name() -> String { "SCa".into() }
    fn kinds(out: &mut Vec<Kind>) { <Array<u64, u8>>::kinds(out); out.push(Kind::Fixed(<T2 as Pay>::MASK)); out.push(Kind::Fixed(<A16 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { <Array<u64, u8>>::toks(out); out.push(<T2 as Pay>::TOK); out.push(<A16 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SCa(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <Array<u64, u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <Array<u64, u8>>::leaves(); out.extend(<Array<u64, u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![cell(seed, at, 0) & <T2 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <A16 as Pay>::MASK]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSCa>(), <Array<u64, u8>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSCa>(); let mut at = 0;
        { let k = <Array<u64, u8>>::leaves(); size = up(size, <Array<u64, u8>>::r_align()); size += <Array<u64, u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SCa, long_n_name_b), std::mem::size_of::<T2>())); at += 1;
        out.push((base + std::mem::offset_of!(SCa, long_n_name_c), std::mem::size_of::<A16>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_v_name_a = { let k = <Array<u64, u8>>::leaves(); let i = any::<Array<u64, u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_long_n_name_b = <T2 as Pay>::mk(v[at][0]); at += 1;
        let l_long_n_name_c = <A16 as Pay>::mk(v[at][0]); at += 1;
        s_ca::Init { long_v_name_a: l_long_v_name_a, long_n_name_b: l_long_n_name_b, long_n_name_c: l_long_n_name_c }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.long_v_name_a.read(out);
        out.push(vec![r.long_n_name_b.val()]); if !std::ptr::eq(r.long_n_name_b, &self.long_n_name_b) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().long_n_name_b is not the header field".into()); }
        out.push(vec![r.long_n_name_c.val()]); if !std::ptr::eq(r.long_n_name_c, &self.long_n_name_c) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().long_n_name_c is not the header field".into()); }
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.long_v_name_a.parts(out);
        out.push((r.long_n_name_b as *const T2 as usize, std::mem::size_of::<T2>()));
        out.push((r.long_n_name_c as *const A16 as usize, std::mem::size_of::<A16>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <Array<u64, u8>>::leaves(); if leaf >= at && leaf < at + k { return <Array<u64, u8>>::set(m.long_v_name_a, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <T2 as Pay>::mk(x)); *m.long_n_name_b = p; return; } at += 1;
        if leaf == at { let p = host(|| <A16 as Pay>::mk(x)); *m.long_n_name_c = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <Array<u64, u8>>::set_all(m.long_v_name_a, at, f); at += <Array<u64, u8>>::leaves();
        { let x = f(at, 0, m.long_n_name_b.val()); *m.long_n_name_b = host(|| <T2 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.long_n_name_c.val()); *m.long_n_name_c = host(|| <A16 as Pay>::mk(x)); at += 1; }
    }
}
impl Ctl for SCa {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <Array<u64, u8>>::leaves(); at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<Array<u64, u8>>::shapes(&[l])[0].iter()); q.push(1); q.push(1); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SCa(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ca::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SCb {
    #[varlen]
    pub x: Tup2<FixedLen<u8>, Str<u8>>,
    pub y: [u8; 3],
    #[controls_layout]
    pub z: u32,
}
struct MirrorSCb { y: [u8; 3], z: u32 }
pub fn lens_SCb(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SCb {
    type Cloner = s_cb::Init<<Tup2<FixedLen<u8>, Str<u8>> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_cb::Init {
        x: r.x.vclone(),
        y: self.y.clone(),
        z: self.z.clone(),
    } }
}
impl Subj for SCb {
    type Direct<'e> = s_cb::Init<AnyInit<'e, Tup2<FixedLen<u8>, Str<u8>>>>;
    type Clo<'e> = <SCb as VClone<'e>>::Cloner;
    fn name() -> String { "SCb".into() }
    fn kinds(out: &mut Vec<Kind>) { <Tup2<FixedLen<u8>, Str<u8>>>::kinds(out); out.push(Kind::Fixed(<[u8; 3] as Pay>::MASK)); out.push(Kind::Ctl); }
    fn toks(out: &mut Vec<bool>) { <Tup2<FixedLen<u8>, Str<u8>>>::toks(out); out.push(<[u8; 3] as Pay>::TOK); out.push(false); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SCb(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <Tup2<FixedLen<u8>, Str<u8>>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); out.extend(<Tup2<FixedLen<u8>, Str<u8>>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![cell(seed, at, 0) & <[u8; 3] as Pay>::MASK]); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSCb>(), <Tup2<FixedLen<u8>, Str<u8>>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSCb>(); let mut at = 0;
        { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); size = up(size, <Tup2<FixedLen<u8>, Str<u8>>>::r_align()); size += <Tup2<FixedLen<u8>, Str<u8>>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SCb, y), std::mem::size_of::<[u8; 3]>())); at += 1;
        out.push((base + std::mem::offset_of!(SCb, z), std::mem::size_of::<u32>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x = { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); let i = any::<Tup2<FixedLen<u8>, Str<u8>>>(&v[at..at + k], ch, env); at += k; i };
        let l_y = <[u8; 3] as Pay>::mk(v[at][0]); at += 1;
        let l_z: u32 = (v[at][0] as u32); at += 1;
        s_cb::Init { x: l_x, y: l_y, z: l_z }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.x.read(out);
        out.push(vec![r.y.val()]); if !std::ptr::eq(r.y, &self.y) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().y is not the header field".into()); }
        out.push(vec![*r.z as u64]);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.x.parts(out);
        out.push((r.y as *const [u8; 3] as usize, std::mem::size_of::<[u8; 3]>()));
        out.push((r.z as *const u32 as usize, std::mem::size_of::<u32>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); if leaf >= at && leaf < at + k { return <Tup2<FixedLen<u8>, Str<u8>>>::set(m.x, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <[u8; 3] as Pay>::mk(x)); *m.y = p; return; } at += 1;
        if leaf == at { return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <Tup2<FixedLen<u8>, Str<u8>>>::set_all(m.x, at, f); at += <Tup2<FixedLen<u8>, Str<u8>>>::leaves();
        { let x = f(at, 0, m.y.val()); *m.y = host(|| <[u8; 3] as Pay>::mk(x)); at += 1; }
        at += 1;
    }
}
impl Ctl for SCb {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u32"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); at += 1; o.push(at); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<Tup2<FixedLen<u8>, Str<u8>>>::shapes(&[l])[0].iter()); q.push(1); q.push(c[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SCb(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_cb::LayoutControllers { z: (c[0] as u32) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.z) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.z as u64] }
}
#[define_varlen]

pub struct SCc {
    #[varlen]
    pub va: W<Array<u16, u8>>,
    pub nb: T12,
    #[varlen]
    pub vc: SCa,
}
struct MirrorSCc { nb: T12 }
pub fn lens_SCc(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SCc {
    type Cloner = s_cc::Init<<W<Array<u16, u8>> as VClone<'e>>::Cloner, <SCa as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_cc::Init {
        va: r.va.vclone(),
        nb: self.nb.clone(),
        vc: r.vc.vclone(),
    } }
}
impl Subj for SCc {
    type Direct<'e> = s_cc::Init<AnyInit<'e, W<Array<u16, u8>>>, AnyInit<'e, SCa>>;
    type Clo<'e> = <SCc as VClone<'e>>::Cloner;
    fn name() -> String { "SCc".into() }
    fn kinds(out: &mut Vec<Kind>) { <W<Array<u16, u8>>>::kinds(out); out.push(Kind::Fixed(<T12 as Pay>::MASK)); <SCa>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { <W<Array<u16, u8>>>::toks(out); out.push(<T12 as Pay>::TOK); <SCa>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SCc(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <W<Array<u16, u8>>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <SCa>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <W<Array<u16, u8>>>::leaves(); out.extend(<W<Array<u16, u8>>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![cell(seed, at, 0) & <T12 as Pay>::MASK]); at += 1;
        { let k = <SCa>::leaves(); out.extend(<SCa>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSCc>(), <W<Array<u16, u8>>>::r_align(), <SCa>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSCc>(); let mut at = 0;
        { let k = <W<Array<u16, u8>>>::leaves(); size = up(size, <W<Array<u16, u8>>>::r_align()); size += <W<Array<u16, u8>>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SCc, nb), std::mem::size_of::<T12>())); at += 1;
        { let k = <SCa>::leaves(); size = up(size, <SCa>::r_align()); size += <SCa>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_va = { let k = <W<Array<u16, u8>>>::leaves(); let i = any::<W<Array<u16, u8>>>(&v[at..at + k], ch, env); at += k; i };
        let l_nb = <T12 as Pay>::mk(v[at][0]); at += 1;
        let l_vc = { let k = <SCa>::leaves(); let i = any::<SCa>(&v[at..at + k], ch, env); at += k; i };
        s_cc::Init { va: l_va, nb: l_nb, vc: l_vc }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.va.read(out);
        out.push(vec![r.nb.val()]); if !std::ptr::eq(r.nb, &self.nb) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nb is not the header field".into()); }
        r.vc.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.va.parts(out);
        out.push((r.nb as *const T12 as usize, std::mem::size_of::<T12>()));
        r.vc.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <W<Array<u16, u8>>>::leaves(); if leaf >= at && leaf < at + k { return <W<Array<u16, u8>>>::set(m.va, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <T12 as Pay>::mk(x)); *m.nb = p; return; } at += 1;
        { let k = <SCa>::leaves(); if leaf >= at && leaf < at + k { return <SCa>::set(m.vc, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <W<Array<u16, u8>>>::set_all(m.va, at, f); at += <W<Array<u16, u8>>>::leaves();
        { let x = f(at, 0, m.nb.val()); *m.nb = host(|| <T12 as Pay>::mk(x)); at += 1; }
        <SCa>::set_all(m.vc, at, f); at += <SCa>::leaves();
    }
}
impl Ctl for SCc {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <W<Array<u16, u8>>>::leaves(); at += 1; at += <SCa>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<W<Array<u16, u8>>>::shapes(&[l])[0].iter()); q.push(1); q.extend(<SCa>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SCc(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_cc::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SCd {
    #[varlen]
    pub long_v_name_a: Array<A64, u8>,
    pub long_n_name_b: u8,
    #[varlen_array]
    pub long_a_name_c: [u64; 0],
}
struct MirrorSCd { long_n_name_b: u8 }
pub fn lens_SCd(c: &[usize]) -> [usize; 1] { [0] }
impl<'e> VClone<'e> for SCd {
    type Cloner = s_cd::Init<<Array<A64, u8> as VClone<'e>>::Cloner, CloneFrom<'e, u64>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_cd::Init {
        long_v_name_a: r.long_v_name_a.vclone(),
        long_n_name_b: self.long_n_name_b.clone(),
        long_a_name_c: CloneFrom(r.long_a_name_c),
    } }
}
impl Subj for SCd {
    type Direct<'e> = s_cd::Init<AnyInit<'e, Array<A64, u8>>, ArrInit<'e, u64>>;
    type Clo<'e> = <SCd as VClone<'e>>::Cloner;
    fn name() -> String { "SCd".into() }
    fn kinds(out: &mut Vec<Kind>) { <Array<A64, u8>>::kinds(out); out.push(Kind::Fixed(<u8 as Pay>::MASK)); out.push(Kind::Dep(<u64 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { <Array<A64, u8>>::toks(out); out.push(<u8 as Pay>::TOK); out.push(<u64 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SCd(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <Array<A64, u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <Array<A64, u8>>::leaves(); out.extend(<Array<A64, u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![cell(seed, at, 0) & <u8 as Pay>::MASK]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u64 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSCd>(), <Array<A64, u8>>::r_align(), std::mem::align_of::<u64>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSCd>(); let mut at = 0;
        { let k = <Array<A64, u8>>::leaves(); size = up(size, <Array<A64, u8>>::r_align()); size += <Array<A64, u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SCd, long_n_name_b), std::mem::size_of::<u8>())); at += 1;
        size = up(size, std::mem::align_of::<u64>()); { let n = lens[at] * std::mem::size_of::<u64>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_v_name_a = { let k = <Array<A64, u8>>::leaves(); let i = any::<Array<A64, u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_long_n_name_b = <u8 as Pay>::mk(v[at][0]); at += 1;
        let l_long_a_name_c = arr_init::<u64>(&v[at], ch, env); at += 1;
        s_cd::Init { long_v_name_a: l_long_v_name_a, long_n_name_b: l_long_n_name_b, long_a_name_c: l_long_a_name_c }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.long_v_name_a.read(out);
        out.push(vec![r.long_n_name_b.val()]); if !std::ptr::eq(r.long_n_name_b, &self.long_n_name_b) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().long_n_name_b is not the header field".into()); }
        if r.long_a_name_c.len() > 1 << 20 { crate::fail!("length {} of long_a_name_c is absurd", r.long_a_name_c.len()); } out.push(r.long_a_name_c.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.long_v_name_a.parts(out);
        out.push((r.long_n_name_b as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.long_a_name_c.as_ptr() as usize, std::mem::size_of_val(r.long_a_name_c)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <Array<A64, u8>>::leaves(); if leaf >= at && leaf < at + k { return <Array<A64, u8>>::set(m.long_v_name_a, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); *m.long_n_name_b = p; return; } at += 1;
        if leaf == at { let p = host(|| <u64 as Pay>::mk(x)); m.long_a_name_c[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <Array<A64, u8>>::set_all(m.long_v_name_a, at, f); at += <Array<A64, u8>>::leaves();
        { let x = f(at, 0, m.long_n_name_b.val()); *m.long_n_name_b = host(|| <u8 as Pay>::mk(x)); at += 1; }
        for (i, p) in m.long_a_name_c.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u64 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SCd {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <Array<A64, u8>>::leaves(); at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<Array<A64, u8>>::shapes(&[l])[0].iter()); q.push(1); q.push(al[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SCd(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_cd::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SCe {
    #[varlen]
    pub x: FixedLen<T16>,
    #[controls_layout]
    pub y: u8,
    pub z: T8,
}
struct MirrorSCe { y: u8, z: T8 }
pub fn lens_SCe(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SCe {
    type Cloner = s_ce::Init<<FixedLen<T16> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ce::Init {
        x: r.x.vclone(),
        y: self.y.clone(),
        z: self.z.clone(),
    } }
}
impl Subj for SCe {
    type Direct<'e> = s_ce::Init<AnyInit<'e, FixedLen<T16>>>;
    type Clo<'e> = <SCe as VClone<'e>>::Cloner;
    fn name() -> String { "SCe".into() }
    fn kinds(out: &mut Vec<Kind>) { <FixedLen<T16>>::kinds(out); out.push(Kind::Ctl); out.push(Kind::Fixed(<T8 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { <FixedLen<T16>>::toks(out); out.push(false); out.push(<T8 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SCe(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <FixedLen<T16>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <FixedLen<T16>>::leaves(); out.extend(<FixedLen<T16>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![lens[at] as u64]); at += 1;
        out.push(vec![cell(seed, at, 0) & <T8 as Pay>::MASK]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSCe>(), <FixedLen<T16>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSCe>(); let mut at = 0;
        { let k = <FixedLen<T16>>::leaves(); size = up(size, <FixedLen<T16>>::r_align()); size += <FixedLen<T16>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SCe, y), std::mem::size_of::<u8>())); at += 1;
        out.push((base + std::mem::offset_of!(SCe, z), std::mem::size_of::<T8>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x = { let k = <FixedLen<T16>>::leaves(); let i = any::<FixedLen<T16>>(&v[at..at + k], ch, env); at += k; i };
        let l_y: u8 = (v[at][0] as u8); at += 1;
        let l_z = <T8 as Pay>::mk(v[at][0]); at += 1;
        s_ce::Init { x: l_x, y: l_y, z: l_z }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.x.read(out);
        out.push(vec![*r.y as u64]);
        out.push(vec![r.z.val()]); if !std::ptr::eq(r.z, &self.z) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().z is not the header field".into()); }
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.x.parts(out);
        out.push((r.y as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.z as *const T8 as usize, std::mem::size_of::<T8>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <FixedLen<T16>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<T16>>::set(m.x, leaf - at, idx, x); } at += k; }
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); *m.z = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <FixedLen<T16>>::set_all(m.x, at, f); at += <FixedLen<T16>>::leaves();
        at += 1;
        { let x = f(at, 0, m.z.val()); *m.z = host(|| <T8 as Pay>::mk(x)); at += 1; }
    }
}
impl Ctl for SCe {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u8"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <FixedLen<T16>>::leaves(); o.push(at); at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<FixedLen<T16>>::shapes(&[l])[0].iter()); q.push(c[0]); q.push(1); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SCe(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ce::LayoutControllers { y: (c[0] as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.y) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.y as u64] }
}
#[define_varlen]

pub struct SCf {
    #[varlen]
    pub va: Str<u16>,
    #[controls_layout]
    pub cb: u16,
    #[controls_layout]
    pub cc: usize,
}
struct MirrorSCf { cb: u16, cc: usize }
pub fn lens_SCf(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SCf {
    type Cloner = s_cf::Init<<Str<u16> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_cf::Init {
        va: r.va.vclone(),
        cb: self.cb.clone(),
        cc: self.cc.clone(),
    } }
}
impl Subj for SCf {
    type Direct<'e> = s_cf::Init<AnyInit<'e, Str<u16>>>;
    type Clo<'e> = <SCf as VClone<'e>>::Cloner;
    fn name() -> String { "SCf".into() }
    fn kinds(out: &mut Vec<Kind>) { <Str<u16>>::kinds(out); out.push(Kind::Ctl); out.push(Kind::Ctl); }
    fn toks(out: &mut Vec<bool>) { <Str<u16>>::toks(out); out.push(false); out.push(false); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(65535)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        { let mut o: Vec<usize> = ls.iter().map(|&l| l).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SCf(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <Str<u16>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <Str<u16>>::leaves(); out.extend(<Str<u16>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![lens[at] as u64]); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSCf>(), <Str<u16>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSCf>(); let mut at = 0;
        { let k = <Str<u16>>::leaves(); size = up(size, <Str<u16>>::r_align()); size += <Str<u16>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SCf, cb), std::mem::size_of::<u16>())); at += 1;
        out.push((base + std::mem::offset_of!(SCf, cc), std::mem::size_of::<usize>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_va = { let k = <Str<u16>>::leaves(); let i = any::<Str<u16>>(&v[at..at + k], ch, env); at += k; i };
        let l_cb: u16 = (v[at][0] as u16); at += 1;
        let l_cc: usize = (v[at][0] as usize); at += 1;
        s_cf::Init { va: l_va, cb: l_cb, cc: l_cc }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.va.read(out);
        out.push(vec![*r.cb as u64]);
        out.push(vec![*r.cc as u64]);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.va.parts(out);
        out.push((r.cb as *const u16 as usize, std::mem::size_of::<u16>()));
        out.push((r.cc as *const usize as usize, std::mem::size_of::<usize>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <Str<u16>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u16>>::set(m.va, leaf - at, idx, x); } at += k; }
        if leaf == at { return; } at += 1;
        if leaf == at { return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <Str<u16>>::set_all(m.va, at, f); at += <Str<u16>>::leaves();
        at += 1;
        at += 1;
    }
}
impl Ctl for SCf {
    const NCTL: usize = 2;
    fn ctl_types() -> Vec<&'static str> { vec!["u16", "usize"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <Str<u16>>::leaves(); o.push(at); at += 1; o.push(at); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<Str<u16>>::shapes(&[l])[0].iter()); q.push(c[0]); q.push(c[1]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SCf(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_cf::LayoutControllers { cb: (c[0] as u16), cc: (c[1] as usize) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.cb) as u64, *(&self.cc) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.cb as u64, *m.cc as u64] }
}
#[define_varlen]

pub struct SCg {
    #[varlen]
    pub long_v_name_a: Array<T12, u32>,
    #[controls_layout]
    pub long_c_name_b: bool,
    #[varlen]
    pub long_v_name_c: Str<u8>,
}
struct MirrorSCg { long_c_name_b: bool }
pub fn lens_SCg(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SCg {
    type Cloner = s_cg::Init<<Array<T12, u32> as VClone<'e>>::Cloner, <Str<u8> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_cg::Init {
        long_v_name_a: r.long_v_name_a.vclone(),
        long_c_name_b: self.long_c_name_b.clone(),
        long_v_name_c: r.long_v_name_c.vclone(),
    } }
}
impl Subj for SCg {
    type Direct<'e> = s_cg::Init<AnyInit<'e, Array<T12, u32>>, AnyInit<'e, Str<u8>>>;
    type Clo<'e> = <SCg as VClone<'e>>::Cloner;
    fn name() -> String { "SCg".into() }
    fn kinds(out: &mut Vec<Kind>) { <Array<T12, u32>>::kinds(out); out.push(Kind::Ctl); <Str<u8>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { <Array<T12, u32>>::toks(out); out.push(false); <Str<u8>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| (l & 1)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SCg(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <Array<T12, u32>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Str<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <Array<T12, u32>>::leaves(); out.extend(<Array<T12, u32>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![lens[at] as u64]); at += 1;
        { let k = <Str<u8>>::leaves(); out.extend(<Str<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSCg>(), <Array<T12, u32>>::r_align(), <Str<u8>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSCg>(); let mut at = 0;
        { let k = <Array<T12, u32>>::leaves(); size = up(size, <Array<T12, u32>>::r_align()); size += <Array<T12, u32>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SCg, long_c_name_b), std::mem::size_of::<bool>())); at += 1;
        { let k = <Str<u8>>::leaves(); size = up(size, <Str<u8>>::r_align()); size += <Str<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_v_name_a = { let k = <Array<T12, u32>>::leaves(); let i = any::<Array<T12, u32>>(&v[at..at + k], ch, env); at += k; i };
        let l_long_c_name_b: bool = (v[at][0] != 0); at += 1;
        let l_long_v_name_c = { let k = <Str<u8>>::leaves(); let i = any::<Str<u8>>(&v[at..at + k], ch, env); at += k; i };
        s_cg::Init { long_v_name_a: l_long_v_name_a, long_c_name_b: l_long_c_name_b, long_v_name_c: l_long_v_name_c }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.long_v_name_a.read(out);
        out.push(vec![(*r.long_c_name_b) as u64]);
        r.long_v_name_c.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.long_v_name_a.parts(out);
        out.push((r.long_c_name_b as *const bool as usize, std::mem::size_of::<bool>()));
        r.long_v_name_c.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <Array<T12, u32>>::leaves(); if leaf >= at && leaf < at + k { return <Array<T12, u32>>::set(m.long_v_name_a, leaf - at, idx, x); } at += k; }
        if leaf == at { return; } at += 1;
        { let k = <Str<u8>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u8>>::set(m.long_v_name_c, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <Array<T12, u32>>::set_all(m.long_v_name_a, at, f); at += <Array<T12, u32>>::leaves();
        at += 1;
        <Str<u8>>::set_all(m.long_v_name_c, at, f); at += <Str<u8>>::leaves();
    }
}
impl Ctl for SCg {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["bool"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <Array<T12, u32>>::leaves(); o.push(at); at += 1; at += <Str<u8>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<Array<T12, u32>>::shapes(&[l])[0].iter()); q.push(c[0]); q.extend(<Str<u8>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SCg(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_cg::LayoutControllers { long_c_name_b: (c[0] != 0) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![(*(&self.long_c_name_b)) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![(*m.long_c_name_b) as u64] }
}
#[define_varlen]

pub struct SCh {
    #[varlen]
    pub x: Array<T8, u16>,
    #[controls_layout]
    pub y: (u8, u8),
    #[varlen_array]
    pub z: [T16; y.1 as usize],
}
struct MirrorSCh { y: (u8, u8) }
pub fn lens_SCh(c: &[usize]) -> [usize; 1] { [c[0] >> 8] }
impl<'e> VClone<'e> for SCh {
    type Cloner = s_ch::Init<<Array<T8, u16> as VClone<'e>>::Cloner, CloneFrom<'e, T16>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ch::Init {
        x: r.x.vclone(),
        y: self.y.clone(),
        z: CloneFrom(r.z),
    } }
}
impl Subj for SCh {
    type Direct<'e> = s_ch::Init<AnyInit<'e, Array<T8, u16>>, ArrInit<'e, T16>>;
    type Clo<'e> = <SCh as VClone<'e>>::Cloner;
    fn name() -> String { "SCh".into() }
    fn kinds(out: &mut Vec<Kind>) { <Array<T8, u16>>::kinds(out); out.push(Kind::Ctl); out.push(Kind::Dep(<T16 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { <Array<T8, u16>>::toks(out); out.push(false); out.push(<T16 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| ((l & 255) | ((l / 2) & 255) << 8)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SCh(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <Array<T8, u16>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <Array<T8, u16>>::leaves(); out.extend(<Array<T8, u16>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T16 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSCh>(), <Array<T8, u16>>::r_align(), std::mem::align_of::<T16>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSCh>(); let mut at = 0;
        { let k = <Array<T8, u16>>::leaves(); size = up(size, <Array<T8, u16>>::r_align()); size += <Array<T8, u16>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SCh, y), std::mem::size_of::<(u8, u8)>())); at += 1;
        size = up(size, std::mem::align_of::<T16>()); { let n = lens[at] * std::mem::size_of::<T16>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x = { let k = <Array<T8, u16>>::leaves(); let i = any::<Array<T8, u16>>(&v[at..at + k], ch, env); at += k; i };
        let l_y: (u8, u8) = ((v[at][0] & 255) as u8, (v[at][0] >> 8) as u8); at += 1;
        let l_z = arr_init::<T16>(&v[at], ch, env); at += 1;
        s_ch::Init { x: l_x, y: l_y, z: l_z }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.x.read(out);
        out.push(vec![(r.y.0 as u64 | (r.y.1 as u64) << 8)]);
        if r.z.len() > 1 << 20 { crate::fail!("length {} of z is absurd", r.z.len()); } out.push(r.z.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.x.parts(out);
        out.push((r.y as *const (u8, u8) as usize, std::mem::size_of::<(u8, u8)>()));
        out.push((r.z.as_ptr() as usize, std::mem::size_of_val(r.z)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <Array<T8, u16>>::leaves(); if leaf >= at && leaf < at + k { return <Array<T8, u16>>::set(m.x, leaf - at, idx, x); } at += k; }
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <T16 as Pay>::mk(x)); m.z[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <Array<T8, u16>>::set_all(m.x, at, f); at += <Array<T8, u16>>::leaves();
        at += 1;
        for (i, p) in m.z.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T16 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SCh {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["(u8, u8)"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <Array<T8, u16>>::leaves(); o.push(at); at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<Array<T8, u16>>::shapes(&[l])[0].iter()); q.push(c[0]); q.push(al[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SCh(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ch::LayoutControllers { y: ((c[0] & 255) as u8, (c[0] >> 8) as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![((&self.y).0 as u64 | ((&self.y).1 as u64) << 8)] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![(m.y.0 as u64 | (m.y.1 as u64) << 8)] }
}
#[define_varlen]

pub struct SCi {
    #[varlen]
    pub va: FixedLen<u64>,
    #[varlen]
    pub vb: Array<u64, u8>,
    pub nc: u32,
}
struct MirrorSCi { nc: u32 }
pub fn lens_SCi(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SCi {
    type Cloner = s_ci::Init<<FixedLen<u64> as VClone<'e>>::Cloner, <Array<u64, u8> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ci::Init {
        va: r.va.vclone(),
        vb: r.vb.vclone(),
        nc: self.nc.clone(),
    } }
}
impl Subj for SCi {
    type Direct<'e> = s_ci::Init<AnyInit<'e, FixedLen<u64>>, AnyInit<'e, Array<u64, u8>>>;
    type Clo<'e> = <SCi as VClone<'e>>::Cloner;
    fn name() -> String { "SCi".into() }
    fn kinds(out: &mut Vec<Kind>) { <FixedLen<u64>>::kinds(out); <Array<u64, u8>>::kinds(out); out.push(Kind::Fixed(<u32 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { <FixedLen<u64>>::toks(out); <Array<u64, u8>>::toks(out); out.push(<u32 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SCi(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <FixedLen<u64>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<u64, u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <FixedLen<u64>>::leaves(); out.extend(<FixedLen<u64>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <Array<u64, u8>>::leaves(); out.extend(<Array<u64, u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![cell(seed, at, 0) & <u32 as Pay>::MASK]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSCi>(), <FixedLen<u64>>::r_align(), <Array<u64, u8>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSCi>(); let mut at = 0;
        { let k = <FixedLen<u64>>::leaves(); size = up(size, <FixedLen<u64>>::r_align()); size += <FixedLen<u64>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <Array<u64, u8>>::leaves(); size = up(size, <Array<u64, u8>>::r_align()); size += <Array<u64, u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SCi, nc), std::mem::size_of::<u32>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_va = { let k = <FixedLen<u64>>::leaves(); let i = any::<FixedLen<u64>>(&v[at..at + k], ch, env); at += k; i };
        let l_vb = { let k = <Array<u64, u8>>::leaves(); let i = any::<Array<u64, u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_nc = <u32 as Pay>::mk(v[at][0]); at += 1;
        s_ci::Init { va: l_va, vb: l_vb, nc: l_nc }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.va.read(out);
        r.vb.read(out);
        out.push(vec![r.nc.val()]); if !std::ptr::eq(r.nc, &self.nc) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nc is not the header field".into()); }
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.va.parts(out);
        r.vb.parts(out);
        out.push((r.nc as *const u32 as usize, std::mem::size_of::<u32>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <FixedLen<u64>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<u64>>::set(m.va, leaf - at, idx, x); } at += k; }
        { let k = <Array<u64, u8>>::leaves(); if leaf >= at && leaf < at + k { return <Array<u64, u8>>::set(m.vb, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <u32 as Pay>::mk(x)); *m.nc = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <FixedLen<u64>>::set_all(m.va, at, f); at += <FixedLen<u64>>::leaves();
        <Array<u64, u8>>::set_all(m.vb, at, f); at += <Array<u64, u8>>::leaves();
        { let x = f(at, 0, m.nc.val()); *m.nc = host(|| <u32 as Pay>::mk(x)); at += 1; }
    }
}
impl Ctl for SCi {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <FixedLen<u64>>::leaves(); at += <Array<u64, u8>>::leaves(); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<FixedLen<u64>>::shapes(&[l])[0].iter()); q.extend(<Array<u64, u8>>::shapes(&[l])[0].iter()); q.push(1); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SCi(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ci::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SCj {
    #[varlen]
    pub long_v_name_a: Tup2<FixedLen<u8>, Str<u8>>,
    #[varlen]
    pub long_v_name_b: W<Array<u16, u8>>,
    #[controls_layout]
    pub long_c_name_c: u32,
}
struct MirrorSCj { long_c_name_c: u32 }
pub fn lens_SCj(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SCj {
    type Cloner = s_cj::Init<<Tup2<FixedLen<u8>, Str<u8>> as VClone<'e>>::Cloner, <W<Array<u16, u8>> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_cj::Init {
        long_v_name_a: r.long_v_name_a.vclone(),
        long_v_name_b: r.long_v_name_b.vclone(),
        long_c_name_c: self.long_c_name_c.clone(),
    } }
}
impl Subj for SCj {
    type Direct<'e> = s_cj::Init<AnyInit<'e, Tup2<FixedLen<u8>, Str<u8>>>, AnyInit<'e, W<Array<u16, u8>>>>;
    type Clo<'e> = <SCj as VClone<'e>>::Cloner;
    fn name() -> String { "SCj".into() }
    fn kinds(out: &mut Vec<Kind>) { <Tup2<FixedLen<u8>, Str<u8>>>::kinds(out); <W<Array<u16, u8>>>::kinds(out); out.push(Kind::Ctl); }
    fn toks(out: &mut Vec<bool>) { <Tup2<FixedLen<u8>, Str<u8>>>::toks(out); <W<Array<u16, u8>>>::toks(out); out.push(false); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SCj(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <Tup2<FixedLen<u8>, Str<u8>>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <W<Array<u16, u8>>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); out.extend(<Tup2<FixedLen<u8>, Str<u8>>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <W<Array<u16, u8>>>::leaves(); out.extend(<W<Array<u16, u8>>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![lens[at] as u64]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSCj>(), <Tup2<FixedLen<u8>, Str<u8>>>::r_align(), <W<Array<u16, u8>>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSCj>(); let mut at = 0;
        { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); size = up(size, <Tup2<FixedLen<u8>, Str<u8>>>::r_align()); size += <Tup2<FixedLen<u8>, Str<u8>>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <W<Array<u16, u8>>>::leaves(); size = up(size, <W<Array<u16, u8>>>::r_align()); size += <W<Array<u16, u8>>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SCj, long_c_name_c), std::mem::size_of::<u32>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_v_name_a = { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); let i = any::<Tup2<FixedLen<u8>, Str<u8>>>(&v[at..at + k], ch, env); at += k; i };
        let l_long_v_name_b = { let k = <W<Array<u16, u8>>>::leaves(); let i = any::<W<Array<u16, u8>>>(&v[at..at + k], ch, env); at += k; i };
        let l_long_c_name_c: u32 = (v[at][0] as u32); at += 1;
        s_cj::Init { long_v_name_a: l_long_v_name_a, long_v_name_b: l_long_v_name_b, long_c_name_c: l_long_c_name_c }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.long_v_name_a.read(out);
        r.long_v_name_b.read(out);
        out.push(vec![*r.long_c_name_c as u64]);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.long_v_name_a.parts(out);
        r.long_v_name_b.parts(out);
        out.push((r.long_c_name_c as *const u32 as usize, std::mem::size_of::<u32>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); if leaf >= at && leaf < at + k { return <Tup2<FixedLen<u8>, Str<u8>>>::set(m.long_v_name_a, leaf - at, idx, x); } at += k; }
        { let k = <W<Array<u16, u8>>>::leaves(); if leaf >= at && leaf < at + k { return <W<Array<u16, u8>>>::set(m.long_v_name_b, leaf - at, idx, x); } at += k; }
        if leaf == at { return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <Tup2<FixedLen<u8>, Str<u8>>>::set_all(m.long_v_name_a, at, f); at += <Tup2<FixedLen<u8>, Str<u8>>>::leaves();
        <W<Array<u16, u8>>>::set_all(m.long_v_name_b, at, f); at += <W<Array<u16, u8>>>::leaves();
        at += 1;
    }
}
impl Ctl for SCj {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u32"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); at += <W<Array<u16, u8>>>::leaves(); o.push(at); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<Tup2<FixedLen<u8>, Str<u8>>>::shapes(&[l])[0].iter()); q.extend(<W<Array<u16, u8>>>::shapes(&[l])[0].iter()); q.push(c[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SCj(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_cj::LayoutControllers { long_c_name_c: (c[0] as u32) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.long_c_name_c) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.long_c_name_c as u64] }
}
#[define_varlen]

pub struct SCk {
    #[varlen]
    pub x: SBt,
    #[varlen]
    pub y: Array<A64, u8>,
    #[varlen]
    pub z: FixedLen<T16>,
}
struct MirrorSCk {  }
pub fn lens_SCk(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SCk {
    type Cloner = s_ck::Init<<SBt as VClone<'e>>::Cloner, <Array<A64, u8> as VClone<'e>>::Cloner, <FixedLen<T16> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ck::Init {
        x: r.x.vclone(),
        y: r.y.vclone(),
        z: r.z.vclone(),
    } }
}
impl Subj for SCk {
    type Direct<'e> = s_ck::Init<AnyInit<'e, SBt>, AnyInit<'e, Array<A64, u8>>, AnyInit<'e, FixedLen<T16>>>;
    type Clo<'e> = <SCk as VClone<'e>>::Cloner;
    fn name() -> String { "SCk".into() }
    fn kinds(out: &mut Vec<Kind>) { <SBt>::kinds(out); <Array<A64, u8>>::kinds(out); <FixedLen<T16>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { <SBt>::toks(out); <Array<A64, u8>>::toks(out); <FixedLen<T16>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SCk(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <SBt>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<A64, u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<T16>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <SBt>::leaves(); out.extend(<SBt>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <Array<A64, u8>>::leaves(); out.extend(<Array<A64, u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <FixedLen<T16>>::leaves(); out.extend(<FixedLen<T16>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSCk>(), <SBt>::r_align(), <Array<A64, u8>>::r_align(), <FixedLen<T16>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSCk>(); let mut at = 0;
        { let k = <SBt>::leaves(); size = up(size, <SBt>::r_align()); size += <SBt>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <Array<A64, u8>>::leaves(); size = up(size, <Array<A64, u8>>::r_align()); size += <Array<A64, u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <FixedLen<T16>>::leaves(); size = up(size, <FixedLen<T16>>::r_align()); size += <FixedLen<T16>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x = { let k = <SBt>::leaves(); let i = any::<SBt>(&v[at..at + k], ch, env); at += k; i };
        let l_y = { let k = <Array<A64, u8>>::leaves(); let i = any::<Array<A64, u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_z = { let k = <FixedLen<T16>>::leaves(); let i = any::<FixedLen<T16>>(&v[at..at + k], ch, env); at += k; i };
        s_ck::Init { x: l_x, y: l_y, z: l_z }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.x.read(out);
        r.y.read(out);
        r.z.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.x.parts(out);
        r.y.parts(out);
        r.z.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <SBt>::leaves(); if leaf >= at && leaf < at + k { return <SBt>::set(m.x, leaf - at, idx, x); } at += k; }
        { let k = <Array<A64, u8>>::leaves(); if leaf >= at && leaf < at + k { return <Array<A64, u8>>::set(m.y, leaf - at, idx, x); } at += k; }
        { let k = <FixedLen<T16>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<T16>>::set(m.z, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <SBt>::set_all(m.x, at, f); at += <SBt>::leaves();
        <Array<A64, u8>>::set_all(m.y, at, f); at += <Array<A64, u8>>::leaves();
        <FixedLen<T16>>::set_all(m.z, at, f); at += <FixedLen<T16>>::leaves();
    }
}
impl Ctl for SCk {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <SBt>::leaves(); at += <Array<A64, u8>>::leaves(); at += <FixedLen<T16>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<SBt>::shapes(&[l])[0].iter()); q.extend(<Array<A64, u8>>::shapes(&[l])[0].iter()); q.extend(<FixedLen<T16>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SCk(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ck::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SCl {
    #[varlen]
    pub va: Str<u16>,
    #[varlen]
    pub vb: Array<T12, u32>,
    #[varlen_array]
    pub ac: [A64; 5],
}
struct MirrorSCl {  }
pub fn lens_SCl(c: &[usize]) -> [usize; 1] { [5] }
impl<'e> VClone<'e> for SCl {
    type Cloner = s_cl::Init<<Str<u16> as VClone<'e>>::Cloner, <Array<T12, u32> as VClone<'e>>::Cloner, CloneFrom<'e, A64>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_cl::Init {
        va: r.va.vclone(),
        vb: r.vb.vclone(),
        ac: CloneFrom(r.ac),
    } }
}
impl Subj for SCl {
    type Direct<'e> = s_cl::Init<AnyInit<'e, Str<u16>>, AnyInit<'e, Array<T12, u32>>, ArrInit<'e, A64>>;
    type Clo<'e> = <SCl as VClone<'e>>::Cloner;
    fn name() -> String { "SCl".into() }
    fn kinds(out: &mut Vec<Kind>) { <Str<u16>>::kinds(out); <Array<T12, u32>>::kinds(out); out.push(Kind::Dep(<A64 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { <Str<u16>>::toks(out); <Array<T12, u32>>::toks(out); out.push(<A64 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SCl(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <Str<u16>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<T12, u32>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <Str<u16>>::leaves(); out.extend(<Str<u16>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <Array<T12, u32>>::leaves(); out.extend(<Array<T12, u32>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <A64 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSCl>(), <Str<u16>>::r_align(), <Array<T12, u32>>::r_align(), std::mem::align_of::<A64>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSCl>(); let mut at = 0;
        { let k = <Str<u16>>::leaves(); size = up(size, <Str<u16>>::r_align()); size += <Str<u16>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <Array<T12, u32>>::leaves(); size = up(size, <Array<T12, u32>>::r_align()); size += <Array<T12, u32>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size = up(size, std::mem::align_of::<A64>()); { let n = lens[at] * std::mem::size_of::<A64>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_va = { let k = <Str<u16>>::leaves(); let i = any::<Str<u16>>(&v[at..at + k], ch, env); at += k; i };
        let l_vb = { let k = <Array<T12, u32>>::leaves(); let i = any::<Array<T12, u32>>(&v[at..at + k], ch, env); at += k; i };
        let l_ac = arr_init::<A64>(&v[at], ch, env); at += 1;
        s_cl::Init { va: l_va, vb: l_vb, ac: l_ac }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.va.read(out);
        r.vb.read(out);
        if r.ac.len() > 1 << 20 { crate::fail!("length {} of ac is absurd", r.ac.len()); } out.push(r.ac.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.va.parts(out);
        r.vb.parts(out);
        out.push((r.ac.as_ptr() as usize, std::mem::size_of_val(r.ac)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <Str<u16>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u16>>::set(m.va, leaf - at, idx, x); } at += k; }
        { let k = <Array<T12, u32>>::leaves(); if leaf >= at && leaf < at + k { return <Array<T12, u32>>::set(m.vb, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <A64 as Pay>::mk(x)); m.ac[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <Str<u16>>::set_all(m.va, at, f); at += <Str<u16>>::leaves();
        <Array<T12, u32>>::set_all(m.vb, at, f); at += <Array<T12, u32>>::leaves();
        for (i, p) in m.ac.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <A64 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SCl {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <Str<u16>>::leaves(); at += <Array<T12, u32>>::leaves(); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<Str<u16>>::shapes(&[l])[0].iter()); q.extend(<Array<T12, u32>>::shapes(&[l])[0].iter()); q.push(al[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SCl(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_cl::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SCm {
    #[varlen]
    pub long_v_name_a: Str<u8>,
    #[varlen_array]
    pub long_a_name_b: [T2; 1 + 2],
    pub long_n_name_c: T16,
}
struct MirrorSCm { long_n_name_c: T16 }
pub fn lens_SCm(c: &[usize]) -> [usize; 1] { [3] }
impl<'e> VClone<'e> for SCm {
    type Cloner = s_cm::Init<<Str<u8> as VClone<'e>>::Cloner, CloneFrom<'e, T2>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_cm::Init {
        long_v_name_a: r.long_v_name_a.vclone(),
        long_a_name_b: CloneFrom(r.long_a_name_b),
        long_n_name_c: self.long_n_name_c.clone(),
    } }
}
impl Subj for SCm {
    type Direct<'e> = s_cm::Init<AnyInit<'e, Str<u8>>, ArrInit<'e, T2>>;
    type Clo<'e> = <SCm as VClone<'e>>::Cloner;
    fn name() -> String { "SCm".into() }
    fn kinds(out: &mut Vec<Kind>) { <Str<u8>>::kinds(out); out.push(Kind::Dep(<T2 as Pay>::MASK)); out.push(Kind::Fixed(<T16 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { <Str<u8>>::toks(out); out.push(<T2 as Pay>::TOK); out.push(<T16 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SCm(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <Str<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <Str<u8>>::leaves(); out.extend(<Str<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T2 as Pay>::MASK).collect()); at += 1;
        out.push(vec![cell(seed, at, 0) & <T16 as Pay>::MASK]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSCm>(), <Str<u8>>::r_align(), std::mem::align_of::<T2>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSCm>(); let mut at = 0;
        { let k = <Str<u8>>::leaves(); size = up(size, <Str<u8>>::r_align()); size += <Str<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size = up(size, std::mem::align_of::<T2>()); { let n = lens[at] * std::mem::size_of::<T2>(); out.push((base + size, n)); size += n; at += 1; }
        out.push((base + std::mem::offset_of!(SCm, long_n_name_c), std::mem::size_of::<T16>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_v_name_a = { let k = <Str<u8>>::leaves(); let i = any::<Str<u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_long_a_name_b = arr_init::<T2>(&v[at], ch, env); at += 1;
        let l_long_n_name_c = <T16 as Pay>::mk(v[at][0]); at += 1;
        s_cm::Init { long_v_name_a: l_long_v_name_a, long_a_name_b: l_long_a_name_b, long_n_name_c: l_long_n_name_c }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.long_v_name_a.read(out);
        if r.long_a_name_b.len() > 1 << 20 { crate::fail!("length {} of long_a_name_b is absurd", r.long_a_name_b.len()); } out.push(r.long_a_name_b.iter().map(|p| p.val()).collect());
        out.push(vec![r.long_n_name_c.val()]); if !std::ptr::eq(r.long_n_name_c, &self.long_n_name_c) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().long_n_name_c is not the header field".into()); }
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.long_v_name_a.parts(out);
        out.push((r.long_a_name_b.as_ptr() as usize, std::mem::size_of_val(r.long_a_name_b)));
        out.push((r.long_n_name_c as *const T16 as usize, std::mem::size_of::<T16>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <Str<u8>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u8>>::set(m.long_v_name_a, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <T2 as Pay>::mk(x)); m.long_a_name_b[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <T16 as Pay>::mk(x)); *m.long_n_name_c = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <Str<u8>>::set_all(m.long_v_name_a, at, f); at += <Str<u8>>::leaves();
        for (i, p) in m.long_a_name_b.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T2 as Pay>::mk(x)); } at += 1;
        { let x = f(at, 0, m.long_n_name_c.val()); *m.long_n_name_c = host(|| <T16 as Pay>::mk(x)); at += 1; }
    }
}
impl Ctl for SCm {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <Str<u8>>::leaves(); at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<Str<u8>>::shapes(&[l])[0].iter()); q.push(al[0]); q.push(1); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SCm(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_cm::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SCn {
    #[varlen]
    pub x: Array<T8, u16>,
    #[varlen_array]
    pub y: [TZ; (*z as usize + 1) & 7],
    #[controls_layout]
    pub z: u8,
}
struct MirrorSCn { z: u8 }
pub fn lens_SCn(c: &[usize]) -> [usize; 1] { [(c[0] + 1) & 7] }
impl<'e> VClone<'e> for SCn {
    type Cloner = s_cn::Init<<Array<T8, u16> as VClone<'e>>::Cloner, CloneFrom<'e, TZ>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_cn::Init {
        x: r.x.vclone(),
        y: CloneFrom(r.y),
        z: self.z.clone(),
    } }
}
impl Subj for SCn {
    type Direct<'e> = s_cn::Init<AnyInit<'e, Array<T8, u16>>, ArrInit<'e, TZ>>;
    type Clo<'e> = <SCn as VClone<'e>>::Cloner;
    fn name() -> String { "SCn".into() }
    fn kinds(out: &mut Vec<Kind>) { <Array<T8, u16>>::kinds(out); out.push(Kind::Dep(<TZ as Pay>::MASK)); out.push(Kind::Ctl); }
    fn toks(out: &mut Vec<bool>) { <Array<T8, u16>>::toks(out); out.push(<TZ as Pay>::TOK); out.push(false); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SCn(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <Array<T8, u16>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <Array<T8, u16>>::leaves(); out.extend(<Array<T8, u16>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <TZ as Pay>::MASK).collect()); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSCn>(), <Array<T8, u16>>::r_align(), std::mem::align_of::<TZ>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSCn>(); let mut at = 0;
        { let k = <Array<T8, u16>>::leaves(); size = up(size, <Array<T8, u16>>::r_align()); size += <Array<T8, u16>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size = up(size, std::mem::align_of::<TZ>()); { let n = lens[at] * std::mem::size_of::<TZ>(); out.push((base + size, n)); size += n; at += 1; }
        out.push((base + std::mem::offset_of!(SCn, z), std::mem::size_of::<u8>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x = { let k = <Array<T8, u16>>::leaves(); let i = any::<Array<T8, u16>>(&v[at..at + k], ch, env); at += k; i };
        let l_y = arr_init::<TZ>(&v[at], ch, env); at += 1;
        let l_z: u8 = (v[at][0] as u8); at += 1;
        s_cn::Init { x: l_x, y: l_y, z: l_z }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.x.read(out);
        if r.y.len() > 1 << 20 { crate::fail!("length {} of y is absurd", r.y.len()); } out.push(r.y.iter().map(|p| p.val()).collect());
        out.push(vec![*r.z as u64]);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.x.parts(out);
        out.push((r.y.as_ptr() as usize, std::mem::size_of_val(r.y)));
        out.push((r.z as *const u8 as usize, std::mem::size_of::<u8>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <Array<T8, u16>>::leaves(); if leaf >= at && leaf < at + k { return <Array<T8, u16>>::set(m.x, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <TZ as Pay>::mk(x)); m.y[idx] = p; return; } at += 1;
        if leaf == at { return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <Array<T8, u16>>::set_all(m.x, at, f); at += <Array<T8, u16>>::leaves();
        for (i, p) in m.y.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <TZ as Pay>::mk(x)); } at += 1;
        at += 1;
    }
}
impl Ctl for SCn {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u8"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <Array<T8, u16>>::leaves(); at += 1; o.push(at); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<Array<T8, u16>>::shapes(&[l])[0].iter()); q.push(al[0]); q.push(c[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SCn(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_cn::LayoutControllers { z: (c[0] as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.z) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.z as u64] }
}
#[define_varlen]

pub struct SCo {
    #[varlen]
    pub va: FixedLen<u64>,
    #[varlen_array]
    pub ab: [[u8; 3]; 2],
    #[varlen]
    pub vc: Array<u64, u8>,
}
struct MirrorSCo {  }
pub fn lens_SCo(c: &[usize]) -> [usize; 1] { [2] }
impl<'e> VClone<'e> for SCo {
    type Cloner = s_co::Init<<FixedLen<u64> as VClone<'e>>::Cloner, CloneFrom<'e, [u8; 3]>, <Array<u64, u8> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_co::Init {
        va: r.va.vclone(),
        ab: CloneFrom(r.ab),
        vc: r.vc.vclone(),
    } }
}
impl Subj for SCo {
    type Direct<'e> = s_co::Init<AnyInit<'e, FixedLen<u64>>, ArrInit<'e, [u8; 3]>, AnyInit<'e, Array<u64, u8>>>;
    type Clo<'e> = <SCo as VClone<'e>>::Cloner;
    fn name() -> String { "SCo".into() }
    fn kinds(out: &mut Vec<Kind>) { <FixedLen<u64>>::kinds(out); out.push(Kind::Dep(<[u8; 3] as Pay>::MASK)); <Array<u64, u8>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { <FixedLen<u64>>::toks(out); out.push(<[u8; 3] as Pay>::TOK); <Array<u64, u8>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SCo(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <FixedLen<u64>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<u64, u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <FixedLen<u64>>::leaves(); out.extend(<FixedLen<u64>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <[u8; 3] as Pay>::MASK).collect()); at += 1;
        { let k = <Array<u64, u8>>::leaves(); out.extend(<Array<u64, u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSCo>(), <FixedLen<u64>>::r_align(), std::mem::align_of::<[u8; 3]>(), <Array<u64, u8>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSCo>(); let mut at = 0;
        { let k = <FixedLen<u64>>::leaves(); size = up(size, <FixedLen<u64>>::r_align()); size += <FixedLen<u64>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size = up(size, std::mem::align_of::<[u8; 3]>()); { let n = lens[at] * std::mem::size_of::<[u8; 3]>(); out.push((base + size, n)); size += n; at += 1; }
        { let k = <Array<u64, u8>>::leaves(); size = up(size, <Array<u64, u8>>::r_align()); size += <Array<u64, u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_va = { let k = <FixedLen<u64>>::leaves(); let i = any::<FixedLen<u64>>(&v[at..at + k], ch, env); at += k; i };
        let l_ab = arr_init::<[u8; 3]>(&v[at], ch, env); at += 1;
        let l_vc = { let k = <Array<u64, u8>>::leaves(); let i = any::<Array<u64, u8>>(&v[at..at + k], ch, env); at += k; i };
        s_co::Init { va: l_va, ab: l_ab, vc: l_vc }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.va.read(out);
        if r.ab.len() > 1 << 20 { crate::fail!("length {} of ab is absurd", r.ab.len()); } out.push(r.ab.iter().map(|p| p.val()).collect());
        r.vc.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.va.parts(out);
        out.push((r.ab.as_ptr() as usize, std::mem::size_of_val(r.ab)));
        r.vc.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <FixedLen<u64>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<u64>>::set(m.va, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <[u8; 3] as Pay>::mk(x)); m.ab[idx] = p; return; } at += 1;
        { let k = <Array<u64, u8>>::leaves(); if leaf >= at && leaf < at + k { return <Array<u64, u8>>::set(m.vc, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <FixedLen<u64>>::set_all(m.va, at, f); at += <FixedLen<u64>>::leaves();
        for (i, p) in m.ab.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <[u8; 3] as Pay>::mk(x)); } at += 1;
        <Array<u64, u8>>::set_all(m.vc, at, f); at += <Array<u64, u8>>::leaves();
    }
}
impl Ctl for SCo {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <FixedLen<u64>>::leaves(); at += 1; at += <Array<u64, u8>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<FixedLen<u64>>::shapes(&[l])[0].iter()); q.push(al[0]); q.extend(<Array<u64, u8>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SCo(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_co::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SCp {
    #[varlen]
    pub long_v_name_a: Tup2<FixedLen<u8>, Str<u8>>,
    #[varlen_array]
    pub long_a_name_b: [T64; 0],
    #[varlen_array]
    pub long_a_name_c: [(); 5],
}
struct MirrorSCp {  }
pub fn lens_SCp(c: &[usize]) -> [usize; 2] { [0, 5] }
impl<'e> VClone<'e> for SCp {
    type Cloner = s_cp::Init<<Tup2<FixedLen<u8>, Str<u8>> as VClone<'e>>::Cloner, CloneFrom<'e, T64>, CloneFrom<'e, ()>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_cp::Init {
        long_v_name_a: r.long_v_name_a.vclone(),
        long_a_name_b: CloneFrom(r.long_a_name_b),
        long_a_name_c: CloneFrom(r.long_a_name_c),
    } }
}
impl Subj for SCp {
    type Direct<'e> = s_cp::Init<AnyInit<'e, Tup2<FixedLen<u8>, Str<u8>>>, ArrInit<'e, T64>, ArrInit<'e, ()>>;
    type Clo<'e> = <SCp as VClone<'e>>::Cloner;
    fn name() -> String { "SCp".into() }
    fn kinds(out: &mut Vec<Kind>) { <Tup2<FixedLen<u8>, Str<u8>>>::kinds(out); out.push(Kind::Dep(<T64 as Pay>::MASK)); out.push(Kind::Dep(<() as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { <Tup2<FixedLen<u8>, Str<u8>>>::toks(out); out.push(<T64 as Pay>::TOK); out.push(<() as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SCp(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <Tup2<FixedLen<u8>, Str<u8>>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); out.extend(<Tup2<FixedLen<u8>, Str<u8>>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T64 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <() as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSCp>(), <Tup2<FixedLen<u8>, Str<u8>>>::r_align(), std::mem::align_of::<T64>(), std::mem::align_of::<()>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSCp>(); let mut at = 0;
        { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); size = up(size, <Tup2<FixedLen<u8>, Str<u8>>>::r_align()); size += <Tup2<FixedLen<u8>, Str<u8>>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size = up(size, std::mem::align_of::<T64>()); { let n = lens[at] * std::mem::size_of::<T64>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<()>()); { let n = lens[at] * std::mem::size_of::<()>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_v_name_a = { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); let i = any::<Tup2<FixedLen<u8>, Str<u8>>>(&v[at..at + k], ch, env); at += k; i };
        let l_long_a_name_b = arr_init::<T64>(&v[at], ch, env); at += 1;
        let l_long_a_name_c = arr_init::<()>(&v[at], ch, env); at += 1;
        s_cp::Init { long_v_name_a: l_long_v_name_a, long_a_name_b: l_long_a_name_b, long_a_name_c: l_long_a_name_c }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.long_v_name_a.read(out);
        if r.long_a_name_b.len() > 1 << 20 { crate::fail!("length {} of long_a_name_b is absurd", r.long_a_name_b.len()); } out.push(r.long_a_name_b.iter().map(|p| p.val()).collect());
        if r.long_a_name_c.len() > 1 << 20 { crate::fail!("length {} of long_a_name_c is absurd", r.long_a_name_c.len()); } out.push(r.long_a_name_c.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.long_v_name_a.parts(out);
        out.push((r.long_a_name_b.as_ptr() as usize, std::mem::size_of_val(r.long_a_name_b)));
        out.push((r.long_a_name_c.as_ptr() as usize, std::mem::size_of_val(r.long_a_name_c)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); if leaf >= at && leaf < at + k { return <Tup2<FixedLen<u8>, Str<u8>>>::set(m.long_v_name_a, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <T64 as Pay>::mk(x)); m.long_a_name_b[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <() as Pay>::mk(x)); m.long_a_name_c[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <Tup2<FixedLen<u8>, Str<u8>>>::set_all(m.long_v_name_a, at, f); at += <Tup2<FixedLen<u8>, Str<u8>>>::leaves();
        for (i, p) in m.long_a_name_b.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T64 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.long_a_name_c.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <() as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SCp {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<Tup2<FixedLen<u8>, Str<u8>>>::shapes(&[l])[0].iter()); q.push(al[0]); q.push(al[1]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SCp(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_cp::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SCq {
    #[varlen_array]
    pub x: [u16; 1 + 2],
    pub y: u64,
    pub z: T2,
}
struct MirrorSCq { y: u64, z: T2 }
pub fn lens_SCq(c: &[usize]) -> [usize; 1] { [3] }
impl<'e> VClone<'e> for SCq {
    type Cloner = s_cq::Init<CloneFrom<'e, u16>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_cq::Init {
        x: CloneFrom(r.x),
        y: self.y.clone(),
        z: self.z.clone(),
    } }
}
impl Subj for SCq {
    type Direct<'e> = s_cq::Init<ArrInit<'e, u16>>;
    type Clo<'e> = <SCq as VClone<'e>>::Cloner;
    fn name() -> String { "SCq".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Dep(<u16 as Pay>::MASK)); out.push(Kind::Fixed(<u64 as Pay>::MASK)); out.push(Kind::Fixed(<T2 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(<u16 as Pay>::TOK); out.push(<u64 as Pay>::TOK); out.push(<T2 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SCq(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u16 as Pay>::MASK).collect()); at += 1;
        out.push(vec![cell(seed, at, 0) & <u64 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <T2 as Pay>::MASK]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSCq>(), std::mem::align_of::<u16>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSCq>(); let mut at = 0;
        size = up(size, std::mem::align_of::<u16>()); { let n = lens[at] * std::mem::size_of::<u16>(); out.push((base + size, n)); size += n; at += 1; }
        out.push((base + std::mem::offset_of!(SCq, y), std::mem::size_of::<u64>())); at += 1;
        out.push((base + std::mem::offset_of!(SCq, z), std::mem::size_of::<T2>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x = arr_init::<u16>(&v[at], ch, env); at += 1;
        let l_y = <u64 as Pay>::mk(v[at][0]); at += 1;
        let l_z = <T2 as Pay>::mk(v[at][0]); at += 1;
        s_cq::Init { x: l_x, y: l_y, z: l_z }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        if r.x.len() > 1 << 20 { crate::fail!("length {} of x is absurd", r.x.len()); } out.push(r.x.iter().map(|p| p.val()).collect());
        out.push(vec![r.y.val()]); if !std::ptr::eq(r.y, &self.y) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().y is not the header field".into()); }
        out.push(vec![r.z.val()]); if !std::ptr::eq(r.z, &self.z) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().z is not the header field".into()); }
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.x.as_ptr() as usize, std::mem::size_of_val(r.x)));
        out.push((r.y as *const u64 as usize, std::mem::size_of::<u64>()));
        out.push((r.z as *const T2 as usize, std::mem::size_of::<T2>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <u16 as Pay>::mk(x)); m.x[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u64 as Pay>::mk(x)); *m.y = p; return; } at += 1;
        if leaf == at { let p = host(|| <T2 as Pay>::mk(x)); *m.z = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        for (i, p) in m.x.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u16 as Pay>::mk(x)); } at += 1;
        { let x = f(at, 0, m.y.val()); *m.y = host(|| <u64 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.z.val()); *m.z = host(|| <T2 as Pay>::mk(x)); at += 1; }
    }
}
impl Ctl for SCq {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(al[0]); q.push(1); q.push(1); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SCq(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_cq::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SCr {
    #[varlen_array]
    pub aa: [T8; *cc as usize],
    pub nb: A16,
    #[controls_layout]
    pub cc: u16,
}
struct MirrorSCr { nb: A16, cc: u16 }
pub fn lens_SCr(c: &[usize]) -> [usize; 1] { [c[0]] }
impl<'e> VClone<'e> for SCr {
    type Cloner = s_cr::Init<CloneFrom<'e, T8>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_cr::Init {
        aa: CloneFrom(r.aa),
        nb: self.nb.clone(),
        cc: self.cc.clone(),
    } }
}
impl Subj for SCr {
    type Direct<'e> = s_cr::Init<ArrInit<'e, T8>>;
    type Clo<'e> = <SCr as VClone<'e>>::Cloner;
    fn name() -> String { "SCr".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Dep(<T8 as Pay>::MASK)); out.push(Kind::Fixed(<A16 as Pay>::MASK)); out.push(Kind::Ctl); }
    fn toks(out: &mut Vec<bool>) { out.push(<T8 as Pay>::TOK); out.push(<A16 as Pay>::TOK); out.push(false); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(65535)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SCr(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T8 as Pay>::MASK).collect()); at += 1;
        out.push(vec![cell(seed, at, 0) & <A16 as Pay>::MASK]); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSCr>(), std::mem::align_of::<T8>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSCr>(); let mut at = 0;
        size = up(size, std::mem::align_of::<T8>()); { let n = lens[at] * std::mem::size_of::<T8>(); out.push((base + size, n)); size += n; at += 1; }
        out.push((base + std::mem::offset_of!(SCr, nb), std::mem::size_of::<A16>())); at += 1;
        out.push((base + std::mem::offset_of!(SCr, cc), std::mem::size_of::<u16>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_aa = arr_init::<T8>(&v[at], ch, env); at += 1;
        let l_nb = <A16 as Pay>::mk(v[at][0]); at += 1;
        let l_cc: u16 = (v[at][0] as u16); at += 1;
        s_cr::Init { aa: l_aa, nb: l_nb, cc: l_cc }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        if r.aa.len() > 1 << 20 { crate::fail!("length {} of aa is absurd", r.aa.len()); } out.push(r.aa.iter().map(|p| p.val()).collect());
        out.push(vec![r.nb.val()]); if !std::ptr::eq(r.nb, &self.nb) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nb is not the header field".into()); }
        out.push(vec![*r.cc as u64]);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.aa.as_ptr() as usize, std::mem::size_of_val(r.aa)));
        out.push((r.nb as *const A16 as usize, std::mem::size_of::<A16>()));
        out.push((r.cc as *const u16 as usize, std::mem::size_of::<u16>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); m.aa[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <A16 as Pay>::mk(x)); *m.nb = p; return; } at += 1;
        if leaf == at { return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        for (i, p) in m.aa.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T8 as Pay>::mk(x)); } at += 1;
        { let x = f(at, 0, m.nb.val()); *m.nb = host(|| <A16 as Pay>::mk(x)); at += 1; }
        at += 1;
    }
}
impl Ctl for SCr {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u16"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += 1; o.push(at); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(al[0]); q.push(1); q.push(c[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SCr(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_cr::LayoutControllers { cc: (c[0] as u16) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.cc) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.cc as u64] }
}
#[define_varlen]

pub struct SCs {
    #[varlen_array]
    pub long_a_name_a: [u8; 2],
    pub long_n_name_b: [u8; 3],
    #[varlen]
    pub long_v_name_c: W<Array<u16, u8>>,
}
struct MirrorSCs { long_n_name_b: [u8; 3] }
pub fn lens_SCs(c: &[usize]) -> [usize; 1] { [2] }
impl<'e> VClone<'e> for SCs {
    type Cloner = s_cs::Init<CloneFrom<'e, u8>, <W<Array<u16, u8>> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_cs::Init {
        long_a_name_a: CloneFrom(r.long_a_name_a),
        long_n_name_b: self.long_n_name_b.clone(),
        long_v_name_c: r.long_v_name_c.vclone(),
    } }
}
impl Subj for SCs {
    type Direct<'e> = s_cs::Init<ArrInit<'e, u8>, AnyInit<'e, W<Array<u16, u8>>>>;
    type Clo<'e> = <SCs as VClone<'e>>::Cloner;
    fn name() -> String { "SCs".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Dep(<u8 as Pay>::MASK)); out.push(Kind::Fixed(<[u8; 3] as Pay>::MASK)); <W<Array<u16, u8>>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { out.push(<u8 as Pay>::TOK); out.push(<[u8; 3] as Pay>::TOK); <W<Array<u16, u8>>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SCs(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <W<Array<u16, u8>>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u8 as Pay>::MASK).collect()); at += 1;
        out.push(vec![cell(seed, at, 0) & <[u8; 3] as Pay>::MASK]); at += 1;
        { let k = <W<Array<u16, u8>>>::leaves(); out.extend(<W<Array<u16, u8>>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSCs>(), std::mem::align_of::<u8>(), <W<Array<u16, u8>>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSCs>(); let mut at = 0;
        size = up(size, std::mem::align_of::<u8>()); { let n = lens[at] * std::mem::size_of::<u8>(); out.push((base + size, n)); size += n; at += 1; }
        out.push((base + std::mem::offset_of!(SCs, long_n_name_b), std::mem::size_of::<[u8; 3]>())); at += 1;
        { let k = <W<Array<u16, u8>>>::leaves(); size = up(size, <W<Array<u16, u8>>>::r_align()); size += <W<Array<u16, u8>>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_a_name_a = arr_init::<u8>(&v[at], ch, env); at += 1;
        let l_long_n_name_b = <[u8; 3] as Pay>::mk(v[at][0]); at += 1;
        let l_long_v_name_c = { let k = <W<Array<u16, u8>>>::leaves(); let i = any::<W<Array<u16, u8>>>(&v[at..at + k], ch, env); at += k; i };
        s_cs::Init { long_a_name_a: l_long_a_name_a, long_n_name_b: l_long_n_name_b, long_v_name_c: l_long_v_name_c }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        if r.long_a_name_a.len() > 1 << 20 { crate::fail!("length {} of long_a_name_a is absurd", r.long_a_name_a.len()); } out.push(r.long_a_name_a.iter().map(|p| p.val()).collect());
        out.push(vec![r.long_n_name_b.val()]); if !std::ptr::eq(r.long_n_name_b, &self.long_n_name_b) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().long_n_name_b is not the header field".into()); }
        r.long_v_name_c.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.long_a_name_a.as_ptr() as usize, std::mem::size_of_val(r.long_a_name_a)));
        out.push((r.long_n_name_b as *const [u8; 3] as usize, std::mem::size_of::<[u8; 3]>()));
        r.long_v_name_c.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); m.long_a_name_a[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <[u8; 3] as Pay>::mk(x)); *m.long_n_name_b = p; return; } at += 1;
        { let k = <W<Array<u16, u8>>>::leaves(); if leaf >= at && leaf < at + k { return <W<Array<u16, u8>>>::set(m.long_v_name_c, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        for (i, p) in m.long_a_name_a.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u8 as Pay>::mk(x)); } at += 1;
        { let x = f(at, 0, m.long_n_name_b.val()); *m.long_n_name_b = host(|| <[u8; 3] as Pay>::mk(x)); at += 1; }
        <W<Array<u16, u8>>>::set_all(m.long_v_name_c, at, f); at += <W<Array<u16, u8>>>::leaves();
    }
}
impl Ctl for SCs {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += 1; at += <W<Array<u16, u8>>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(al[0]); q.push(1); q.extend(<W<Array<u16, u8>>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SCs(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_cs::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SCt {
    #[varlen_array]
    pub x: [u64; 0],
    pub y: T12,
    #[varlen_array]
    pub z: [T16; 5],
}
struct MirrorSCt { y: T12 }
pub fn lens_SCt(c: &[usize]) -> [usize; 2] { [0, 5] }
impl<'e> VClone<'e> for SCt {
    type Cloner = s_ct::Init<CloneFrom<'e, u64>, CloneFrom<'e, T16>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ct::Init {
        x: CloneFrom(r.x),
        y: self.y.clone(),
        z: CloneFrom(r.z),
    } }
}
impl Subj for SCt {
    type Direct<'e> = s_ct::Init<ArrInit<'e, u64>, ArrInit<'e, T16>>;
    type Clo<'e> = <SCt as VClone<'e>>::Cloner;
    fn name() -> String { "SCt".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Dep(<u64 as Pay>::MASK)); out.push(Kind::Fixed(<T12 as Pay>::MASK)); out.push(Kind::Dep(<T16 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(<u64 as Pay>::TOK); out.push(<T12 as Pay>::TOK); out.push(<T16 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SCt(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u64 as Pay>::MASK).collect()); at += 1;
        out.push(vec![cell(seed, at, 0) & <T12 as Pay>::MASK]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T16 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSCt>(), std::mem::align_of::<u64>(), std::mem::align_of::<T16>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSCt>(); let mut at = 0;
        size = up(size, std::mem::align_of::<u64>()); { let n = lens[at] * std::mem::size_of::<u64>(); out.push((base + size, n)); size += n; at += 1; }
        out.push((base + std::mem::offset_of!(SCt, y), std::mem::size_of::<T12>())); at += 1;
        size = up(size, std::mem::align_of::<T16>()); { let n = lens[at] * std::mem::size_of::<T16>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x = arr_init::<u64>(&v[at], ch, env); at += 1;
        let l_y = <T12 as Pay>::mk(v[at][0]); at += 1;
        let l_z = arr_init::<T16>(&v[at], ch, env); at += 1;
        s_ct::Init { x: l_x, y: l_y, z: l_z }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        if r.x.len() > 1 << 20 { crate::fail!("length {} of x is absurd", r.x.len()); } out.push(r.x.iter().map(|p| p.val()).collect());
        out.push(vec![r.y.val()]); if !std::ptr::eq(r.y, &self.y) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().y is not the header field".into()); }
        if r.z.len() > 1 << 20 { crate::fail!("length {} of z is absurd", r.z.len()); } out.push(r.z.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.x.as_ptr() as usize, std::mem::size_of_val(r.x)));
        out.push((r.y as *const T12 as usize, std::mem::size_of::<T12>()));
        out.push((r.z.as_ptr() as usize, std::mem::size_of_val(r.z)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <u64 as Pay>::mk(x)); m.x[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <T12 as Pay>::mk(x)); *m.y = p; return; } at += 1;
        if leaf == at { let p = host(|| <T16 as Pay>::mk(x)); m.z[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        for (i, p) in m.x.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u64 as Pay>::mk(x)); } at += 1;
        { let x = f(at, 0, m.y.val()); *m.y = host(|| <T12 as Pay>::mk(x)); at += 1; }
        for (i, p) in m.z.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T16 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SCt {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(al[0]); q.push(1); q.push(al[1]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SCt(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ct::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SCu {
    #[varlen_array]
    pub aa: [A64; (*cb as usize + 1) & 7],
    #[controls_layout]
    pub cb: usize,
    pub nc: u8,
}
struct MirrorSCu { cb: usize, nc: u8 }
pub fn lens_SCu(c: &[usize]) -> [usize; 1] { [(c[0] + 1) & 7] }
impl<'e> VClone<'e> for SCu {
    type Cloner = s_cu::Init<CloneFrom<'e, A64>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_cu::Init {
        aa: CloneFrom(r.aa),
        cb: self.cb.clone(),
        nc: self.nc.clone(),
    } }
}
impl Subj for SCu {
    type Direct<'e> = s_cu::Init<ArrInit<'e, A64>>;
    type Clo<'e> = <SCu as VClone<'e>>::Cloner;
    fn name() -> String { "SCu".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Dep(<A64 as Pay>::MASK)); out.push(Kind::Ctl); out.push(Kind::Fixed(<u8 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(<A64 as Pay>::TOK); out.push(false); out.push(<u8 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SCu(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <A64 as Pay>::MASK).collect()); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push(vec![cell(seed, at, 0) & <u8 as Pay>::MASK]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSCu>(), std::mem::align_of::<A64>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSCu>(); let mut at = 0;
        size = up(size, std::mem::align_of::<A64>()); { let n = lens[at] * std::mem::size_of::<A64>(); out.push((base + size, n)); size += n; at += 1; }
        out.push((base + std::mem::offset_of!(SCu, cb), std::mem::size_of::<usize>())); at += 1;
        out.push((base + std::mem::offset_of!(SCu, nc), std::mem::size_of::<u8>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_aa = arr_init::<A64>(&v[at], ch, env); at += 1;
        let l_cb: usize = (v[at][0] as usize); at += 1;
        let l_nc = <u8 as Pay>::mk(v[at][0]); at += 1;
        s_cu::Init { aa: l_aa, cb: l_cb, nc: l_nc }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        if r.aa.len() > 1 << 20 { crate::fail!("length {} of aa is absurd", r.aa.len()); } out.push(r.aa.iter().map(|p| p.val()).collect());
        out.push(vec![*r.cb as u64]);
        out.push(vec![r.nc.val()]); if !std::ptr::eq(r.nc, &self.nc) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nc is not the header field".into()); }
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.aa.as_ptr() as usize, std::mem::size_of_val(r.aa)));
        out.push((r.cb as *const usize as usize, std::mem::size_of::<usize>()));
        out.push((r.nc as *const u8 as usize, std::mem::size_of::<u8>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <A64 as Pay>::mk(x)); m.aa[idx] = p; return; } at += 1;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); *m.nc = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        for (i, p) in m.aa.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <A64 as Pay>::mk(x)); } at += 1;
        at += 1;
        { let x = f(at, 0, m.nc.val()); *m.nc = host(|| <u8 as Pay>::mk(x)); at += 1; }
    }
}
impl Ctl for SCu {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["usize"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; o.push(at); at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(al[0]); q.push(c[0]); q.push(1); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SCu(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_cu::LayoutControllers { cb: (c[0] as usize) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.cb) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.cb as u64] }
}
#[define_varlen]

pub struct SCv {
    #[varlen_array]
    pub long_a_name_a: [T2; if *long_c_name_b { 3 } else { 1 }],
    #[controls_layout]
    pub long_c_name_b: bool,
    #[controls_layout]
    pub long_c_name_c: (u8, u8),
}
struct MirrorSCv { long_c_name_b: bool, long_c_name_c: (u8, u8) }
pub fn lens_SCv(c: &[usize]) -> [usize; 1] { [if c[0] != 0 { 3 } else { 1 }] }
impl<'e> VClone<'e> for SCv {
    type Cloner = s_cv::Init<CloneFrom<'e, T2>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_cv::Init {
        long_a_name_a: CloneFrom(r.long_a_name_a),
        long_c_name_b: self.long_c_name_b.clone(),
        long_c_name_c: self.long_c_name_c.clone(),
    } }
}
impl Subj for SCv {
    type Direct<'e> = s_cv::Init<ArrInit<'e, T2>>;
    type Clo<'e> = <SCv as VClone<'e>>::Cloner;
    fn name() -> String { "SCv".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Dep(<T2 as Pay>::MASK)); out.push(Kind::Ctl); out.push(Kind::Ctl); }
    fn toks(out: &mut Vec<bool>) { out.push(<T2 as Pay>::TOK); out.push(false); out.push(false); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| (l & 1)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        { let mut o: Vec<usize> = ls.iter().map(|&l| ((l & 255) | ((l / 2) & 255) << 8)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SCv(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T2 as Pay>::MASK).collect()); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSCv>(), std::mem::align_of::<T2>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSCv>(); let mut at = 0;
        size = up(size, std::mem::align_of::<T2>()); { let n = lens[at] * std::mem::size_of::<T2>(); out.push((base + size, n)); size += n; at += 1; }
        out.push((base + std::mem::offset_of!(SCv, long_c_name_b), std::mem::size_of::<bool>())); at += 1;
        out.push((base + std::mem::offset_of!(SCv, long_c_name_c), std::mem::size_of::<(u8, u8)>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_a_name_a = arr_init::<T2>(&v[at], ch, env); at += 1;
        let l_long_c_name_b: bool = (v[at][0] != 0); at += 1;
        let l_long_c_name_c: (u8, u8) = ((v[at][0] & 255) as u8, (v[at][0] >> 8) as u8); at += 1;
        s_cv::Init { long_a_name_a: l_long_a_name_a, long_c_name_b: l_long_c_name_b, long_c_name_c: l_long_c_name_c }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        if r.long_a_name_a.len() > 1 << 20 { crate::fail!("length {} of long_a_name_a is absurd", r.long_a_name_a.len()); } out.push(r.long_a_name_a.iter().map(|p| p.val()).collect());
        out.push(vec![(*r.long_c_name_b) as u64]);
        out.push(vec![(r.long_c_name_c.0 as u64 | (r.long_c_name_c.1 as u64) << 8)]);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.long_a_name_a.as_ptr() as usize, std::mem::size_of_val(r.long_a_name_a)));
        out.push((r.long_c_name_b as *const bool as usize, std::mem::size_of::<bool>()));
        out.push((r.long_c_name_c as *const (u8, u8) as usize, std::mem::size_of::<(u8, u8)>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <T2 as Pay>::mk(x)); m.long_a_name_a[idx] = p; return; } at += 1;
        if leaf == at { return; } at += 1;
        if leaf == at { return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        for (i, p) in m.long_a_name_a.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T2 as Pay>::mk(x)); } at += 1;
        at += 1;
        at += 1;
    }
}
impl Ctl for SCv {
    const NCTL: usize = 2;
    fn ctl_types() -> Vec<&'static str> { vec!["bool", "(u8, u8)"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; o.push(at); at += 1; o.push(at); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(al[0]); q.push(c[0]); q.push(c[1]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SCv(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_cv::LayoutControllers { long_c_name_b: (c[0] != 0), long_c_name_c: ((c[1] & 255) as u8, (c[1] >> 8) as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![(*(&self.long_c_name_b)) as u64, ((&self.long_c_name_c).0 as u64 | ((&self.long_c_name_c).1 as u64) << 8)] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![(*m.long_c_name_b) as u64, (m.long_c_name_c.0 as u64 | (m.long_c_name_c.1 as u64) << 8)] }
}
#[define_varlen]

pub struct SCw {
    #[varlen_array]
    pub x: [TZ; (*y as usize) / 2],
    #[controls_layout]
    pub y: u32,
    #[varlen]
    pub z: SAx,
}
struct MirrorSCw { y: u32 }
pub fn lens_SCw(c: &[usize]) -> [usize; 1] { [c[0] / 2] }
impl<'e> VClone<'e> for SCw {
    type Cloner = s_cw::Init<CloneFrom<'e, TZ>, <SAx as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_cw::Init {
        x: CloneFrom(r.x),
        y: self.y.clone(),
        z: r.z.vclone(),
    } }
}
impl Subj for SCw {
    type Direct<'e> = s_cw::Init<ArrInit<'e, TZ>, AnyInit<'e, SAx>>;
    type Clo<'e> = <SCw as VClone<'e>>::Cloner;
    fn name() -> String { "SCw".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Dep(<TZ as Pay>::MASK)); out.push(Kind::Ctl); <SAx>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { out.push(<TZ as Pay>::TOK); out.push(false); <SAx>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SCw(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <SAx>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <TZ as Pay>::MASK).collect()); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        { let k = <SAx>::leaves(); out.extend(<SAx>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSCw>(), std::mem::align_of::<TZ>(), <SAx>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSCw>(); let mut at = 0;
        size = up(size, std::mem::align_of::<TZ>()); { let n = lens[at] * std::mem::size_of::<TZ>(); out.push((base + size, n)); size += n; at += 1; }
        out.push((base + std::mem::offset_of!(SCw, y), std::mem::size_of::<u32>())); at += 1;
        { let k = <SAx>::leaves(); size = up(size, <SAx>::r_align()); size += <SAx>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x = arr_init::<TZ>(&v[at], ch, env); at += 1;
        let l_y: u32 = (v[at][0] as u32); at += 1;
        let l_z = { let k = <SAx>::leaves(); let i = any::<SAx>(&v[at..at + k], ch, env); at += k; i };
        s_cw::Init { x: l_x, y: l_y, z: l_z }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        if r.x.len() > 1 << 20 { crate::fail!("length {} of x is absurd", r.x.len()); } out.push(r.x.iter().map(|p| p.val()).collect());
        out.push(vec![*r.y as u64]);
        r.z.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.x.as_ptr() as usize, std::mem::size_of_val(r.x)));
        out.push((r.y as *const u32 as usize, std::mem::size_of::<u32>()));
        r.z.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <TZ as Pay>::mk(x)); m.x[idx] = p; return; } at += 1;
        if leaf == at { return; } at += 1;
        { let k = <SAx>::leaves(); if leaf >= at && leaf < at + k { return <SAx>::set(m.z, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        for (i, p) in m.x.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <TZ as Pay>::mk(x)); } at += 1;
        at += 1;
        <SAx>::set_all(m.z, at, f); at += <SAx>::leaves();
    }
}
impl Ctl for SCw {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u32"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; o.push(at); at += 1; at += <SAx>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(al[0]); q.push(c[0]); q.extend(<SAx>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SCw(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_cw::LayoutControllers { y: (c[0] as u32) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.y) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.y as u64] }
}
#[define_varlen]

pub struct SCx {
    #[varlen_array]
    pub aa: [[u8; 3]; *cb as usize],
    #[controls_layout]
    pub cb: u8,
    #[varlen_array]
    pub ac: [T64; (*cb as usize) / 2],
}
struct MirrorSCx { cb: u8 }
pub fn lens_SCx(c: &[usize]) -> [usize; 2] { [c[0], c[0] / 2] }
impl<'e> VClone<'e> for SCx {
    type Cloner = s_cx::Init<CloneFrom<'e, [u8; 3]>, CloneFrom<'e, T64>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_cx::Init {
        aa: CloneFrom(r.aa),
        cb: self.cb.clone(),
        ac: CloneFrom(r.ac),
    } }
}
impl Subj for SCx {
    type Direct<'e> = s_cx::Init<ArrInit<'e, [u8; 3]>, ArrInit<'e, T64>>;
    type Clo<'e> = <SCx as VClone<'e>>::Cloner;
    fn name() -> String { "SCx".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Dep(<[u8; 3] as Pay>::MASK)); out.push(Kind::Ctl); out.push(Kind::Dep(<T64 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(<[u8; 3] as Pay>::TOK); out.push(false); out.push(<T64 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SCx(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <[u8; 3] as Pay>::MASK).collect()); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T64 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSCx>(), std::mem::align_of::<[u8; 3]>(), std::mem::align_of::<T64>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSCx>(); let mut at = 0;
        size = up(size, std::mem::align_of::<[u8; 3]>()); { let n = lens[at] * std::mem::size_of::<[u8; 3]>(); out.push((base + size, n)); size += n; at += 1; }
        out.push((base + std::mem::offset_of!(SCx, cb), std::mem::size_of::<u8>())); at += 1;
        size = up(size, std::mem::align_of::<T64>()); { let n = lens[at] * std::mem::size_of::<T64>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_aa = arr_init::<[u8; 3]>(&v[at], ch, env); at += 1;
        let l_cb: u8 = (v[at][0] as u8); at += 1;
        let l_ac = arr_init::<T64>(&v[at], ch, env); at += 1;
        s_cx::Init { aa: l_aa, cb: l_cb, ac: l_ac }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        if r.aa.len() > 1 << 20 { crate::fail!("length {} of aa is absurd", r.aa.len()); } out.push(r.aa.iter().map(|p| p.val()).collect());
        out.push(vec![*r.cb as u64]);
        if r.ac.len() > 1 << 20 { crate::fail!("length {} of ac is absurd", r.ac.len()); } out.push(r.ac.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.aa.as_ptr() as usize, std::mem::size_of_val(r.aa)));
        out.push((r.cb as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.ac.as_ptr() as usize, std::mem::size_of_val(r.ac)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <[u8; 3] as Pay>::mk(x)); m.aa[idx] = p; return; } at += 1;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <T64 as Pay>::mk(x)); m.ac[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        for (i, p) in m.aa.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <[u8; 3] as Pay>::mk(x)); } at += 1;
        at += 1;
        for (i, p) in m.ac.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T64 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SCx {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u8"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; o.push(at); at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(al[0]); q.push(c[0]); q.push(al[1]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SCx(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_cx::LayoutControllers { cb: (c[0] as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.cb) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.cb as u64] }
}
#[define_varlen]

pub struct SCy {
    #[varlen_array]
    pub long_a_name_a: [(); 1 + 2],
    #[varlen]
    pub long_v_name_b: Array<A64, u8>,
    pub long_n_name_c: T8,
}
struct MirrorSCy { long_n_name_c: T8 }
pub fn lens_SCy(c: &[usize]) -> [usize; 1] { [3] }
impl<'e> VClone<'e> for SCy {
    type Cloner = s_cy::Init<CloneFrom<'e, ()>, <Array<A64, u8> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_cy::Init {
        long_a_name_a: CloneFrom(r.long_a_name_a),
        long_v_name_b: r.long_v_name_b.vclone(),
        long_n_name_c: self.long_n_name_c.clone(),
    } }
}
impl Subj for SCy {
    type Direct<'e> = s_cy::Init<ArrInit<'e, ()>, AnyInit<'e, Array<A64, u8>>>;
    type Clo<'e> = <SCy as VClone<'e>>::Cloner;
    fn name() -> String { "SCy".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Dep(<() as Pay>::MASK)); <Array<A64, u8>>::kinds(out); out.push(Kind::Fixed(<T8 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(<() as Pay>::TOK); <Array<A64, u8>>::toks(out); out.push(<T8 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SCy(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<A64, u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <() as Pay>::MASK).collect()); at += 1;
        { let k = <Array<A64, u8>>::leaves(); out.extend(<Array<A64, u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![cell(seed, at, 0) & <T8 as Pay>::MASK]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSCy>(), std::mem::align_of::<()>(), <Array<A64, u8>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSCy>(); let mut at = 0;
        size = up(size, std::mem::align_of::<()>()); { let n = lens[at] * std::mem::size_of::<()>(); out.push((base + size, n)); size += n; at += 1; }
        { let k = <Array<A64, u8>>::leaves(); size = up(size, <Array<A64, u8>>::r_align()); size += <Array<A64, u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SCy, long_n_name_c), std::mem::size_of::<T8>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_a_name_a = arr_init::<()>(&v[at], ch, env); at += 1;
        let l_long_v_name_b = { let k = <Array<A64, u8>>::leaves(); let i = any::<Array<A64, u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_long_n_name_c = <T8 as Pay>::mk(v[at][0]); at += 1;
        s_cy::Init { long_a_name_a: l_long_a_name_a, long_v_name_b: l_long_v_name_b, long_n_name_c: l_long_n_name_c }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        if r.long_a_name_a.len() > 1 << 20 { crate::fail!("length {} of long_a_name_a is absurd", r.long_a_name_a.len()); } out.push(r.long_a_name_a.iter().map(|p| p.val()).collect());
        r.long_v_name_b.read(out);
        out.push(vec![r.long_n_name_c.val()]); if !std::ptr::eq(r.long_n_name_c, &self.long_n_name_c) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().long_n_name_c is not the header field".into()); }
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.long_a_name_a.as_ptr() as usize, std::mem::size_of_val(r.long_a_name_a)));
        r.long_v_name_b.parts(out);
        out.push((r.long_n_name_c as *const T8 as usize, std::mem::size_of::<T8>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <() as Pay>::mk(x)); m.long_a_name_a[idx] = p; return; } at += 1;
        { let k = <Array<A64, u8>>::leaves(); if leaf >= at && leaf < at + k { return <Array<A64, u8>>::set(m.long_v_name_b, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); *m.long_n_name_c = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        for (i, p) in m.long_a_name_a.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <() as Pay>::mk(x)); } at += 1;
        <Array<A64, u8>>::set_all(m.long_v_name_b, at, f); at += <Array<A64, u8>>::leaves();
        { let x = f(at, 0, m.long_n_name_c.val()); *m.long_n_name_c = host(|| <T8 as Pay>::mk(x)); at += 1; }
    }
}
impl Ctl for SCy {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += <Array<A64, u8>>::leaves(); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(al[0]); q.extend(<Array<A64, u8>>::shapes(&[l])[0].iter()); q.push(1); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SCy(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_cy::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SCz {
    #[varlen_array]
    pub x: [u16; (*z as usize) / 2],
    #[varlen]
    pub y: FixedLen<T16>,
    #[controls_layout]
    pub z: u16,
}
struct MirrorSCz { z: u16 }
pub fn lens_SCz(c: &[usize]) -> [usize; 1] { [c[0] / 2] }
impl<'e> VClone<'e> for SCz {
    type Cloner = s_cz::Init<CloneFrom<'e, u16>, <FixedLen<T16> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_cz::Init {
        x: CloneFrom(r.x),
        y: r.y.vclone(),
        z: self.z.clone(),
    } }
}
impl Subj for SCz {
    type Direct<'e> = s_cz::Init<ArrInit<'e, u16>, AnyInit<'e, FixedLen<T16>>>;
    type Clo<'e> = <SCz as VClone<'e>>::Cloner;
    fn name() -> String { "SCz".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Dep(<u16 as Pay>::MASK)); <FixedLen<T16>>::kinds(out); out.push(Kind::Ctl); }
    fn toks(out: &mut Vec<bool>) { out.push(<u16 as Pay>::TOK); <FixedLen<T16>>::toks(out); out.push(false); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(65535)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SCz(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<T16>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u16 as Pay>::MASK).collect()); at += 1;
        { let k = <FixedLen<T16>>::leaves(); out.extend(<FixedLen<T16>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![lens[at] as u64]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSCz>(), std::mem::align_of::<u16>(), <FixedLen<T16>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSCz>(); let mut at = 0;
        size = up(size, std::mem::align_of::<u16>()); { let n = lens[at] * std::mem::size_of::<u16>(); out.push((base + size, n)); size += n; at += 1; }
        { let k = <FixedLen<T16>>::leaves(); size = up(size, <FixedLen<T16>>::r_align()); size += <FixedLen<T16>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SCz, z), std::mem::size_of::<u16>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x = arr_init::<u16>(&v[at], ch, env); at += 1;
        let l_y = { let k = <FixedLen<T16>>::leaves(); let i = any::<FixedLen<T16>>(&v[at..at + k], ch, env); at += k; i };
        let l_z: u16 = (v[at][0] as u16); at += 1;
        s_cz::Init { x: l_x, y: l_y, z: l_z }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        if r.x.len() > 1 << 20 { crate::fail!("length {} of x is absurd", r.x.len()); } out.push(r.x.iter().map(|p| p.val()).collect());
        r.y.read(out);
        out.push(vec![*r.z as u64]);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.x.as_ptr() as usize, std::mem::size_of_val(r.x)));
        r.y.parts(out);
        out.push((r.z as *const u16 as usize, std::mem::size_of::<u16>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <u16 as Pay>::mk(x)); m.x[idx] = p; return; } at += 1;
        { let k = <FixedLen<T16>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<T16>>::set(m.y, leaf - at, idx, x); } at += k; }
        if leaf == at { return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        for (i, p) in m.x.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u16 as Pay>::mk(x)); } at += 1;
        <FixedLen<T16>>::set_all(m.y, at, f); at += <FixedLen<T16>>::leaves();
        at += 1;
    }
}
impl Ctl for SCz {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u16"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += <FixedLen<T16>>::leaves(); o.push(at); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(al[0]); q.extend(<FixedLen<T16>>::shapes(&[l])[0].iter()); q.push(c[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SCz(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_cz::LayoutControllers { z: (c[0] as u16) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.z) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.z as u64] }
}
#[define_varlen]

pub struct SDa {
    #[varlen_array]
    pub aa: [T8; 2],
    #[varlen]
    pub vb: Str<u16>,
    #[varlen]
    pub vc: Array<T12, u32>,
}
struct MirrorSDa {  }
pub fn lens_SDa(c: &[usize]) -> [usize; 1] { [2] }
impl<'e> VClone<'e> for SDa {
    type Cloner = s_da::Init<CloneFrom<'e, T8>, <Str<u16> as VClone<'e>>::Cloner, <Array<T12, u32> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_da::Init {
        aa: CloneFrom(r.aa),
        vb: r.vb.vclone(),
        vc: r.vc.vclone(),
    } }
}
impl Subj for SDa {
    type Direct<'e> = s_da::Init<ArrInit<'e, T8>, AnyInit<'e, Str<u16>>, AnyInit<'e, Array<T12, u32>>>;
    type Clo<'e> = <SDa as VClone<'e>>::Cloner;
    fn name() -> String { "SDa".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Dep(<T8 as Pay>::MASK)); <Str<u16>>::kinds(out); <Array<T12, u32>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { out.push(<T8 as Pay>::TOK); <Str<u16>>::toks(out); <Array<T12, u32>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SDa(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Str<u16>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<T12, u32>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T8 as Pay>::MASK).collect()); at += 1;
        { let k = <Str<u16>>::leaves(); out.extend(<Str<u16>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <Array<T12, u32>>::leaves(); out.extend(<Array<T12, u32>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSDa>(), std::mem::align_of::<T8>(), <Str<u16>>::r_align(), <Array<T12, u32>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSDa>(); let mut at = 0;
        size = up(size, std::mem::align_of::<T8>()); { let n = lens[at] * std::mem::size_of::<T8>(); out.push((base + size, n)); size += n; at += 1; }
        { let k = <Str<u16>>::leaves(); size = up(size, <Str<u16>>::r_align()); size += <Str<u16>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <Array<T12, u32>>::leaves(); size = up(size, <Array<T12, u32>>::r_align()); size += <Array<T12, u32>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_aa = arr_init::<T8>(&v[at], ch, env); at += 1;
        let l_vb = { let k = <Str<u16>>::leaves(); let i = any::<Str<u16>>(&v[at..at + k], ch, env); at += k; i };
        let l_vc = { let k = <Array<T12, u32>>::leaves(); let i = any::<Array<T12, u32>>(&v[at..at + k], ch, env); at += k; i };
        s_da::Init { aa: l_aa, vb: l_vb, vc: l_vc }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        if r.aa.len() > 1 << 20 { crate::fail!("length {} of aa is absurd", r.aa.len()); } out.push(r.aa.iter().map(|p| p.val()).collect());
        r.vb.read(out);
        r.vc.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.aa.as_ptr() as usize, std::mem::size_of_val(r.aa)));
        r.vb.parts(out);
        r.vc.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); m.aa[idx] = p; return; } at += 1;
        { let k = <Str<u16>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u16>>::set(m.vb, leaf - at, idx, x); } at += k; }
        { let k = <Array<T12, u32>>::leaves(); if leaf >= at && leaf < at + k { return <Array<T12, u32>>::set(m.vc, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        for (i, p) in m.aa.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T8 as Pay>::mk(x)); } at += 1;
        <Str<u16>>::set_all(m.vb, at, f); at += <Str<u16>>::leaves();
        <Array<T12, u32>>::set_all(m.vc, at, f); at += <Array<T12, u32>>::leaves();
    }
}
impl Ctl for SDa {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += <Str<u16>>::leaves(); at += <Array<T12, u32>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(al[0]); q.extend(<Str<u16>>::shapes(&[l])[0].iter()); q.extend(<Array<T12, u32>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SDa(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_da::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SDb {
    #[varlen_array]
    pub long_a_name_a: [u8; 0],
    #[varlen]
    pub long_v_name_b: Str<u8>,
    #[varlen_array]
    pub long_a_name_c: [u64; 5],
}
struct MirrorSDb {  }
pub fn lens_SDb(c: &[usize]) -> [usize; 2] { [0, 5] }
impl<'e> VClone<'e> for SDb {
    type Cloner = s_db::Init<CloneFrom<'e, u8>, <Str<u8> as VClone<'e>>::Cloner, CloneFrom<'e, u64>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_db::Init {
        long_a_name_a: CloneFrom(r.long_a_name_a),
        long_v_name_b: r.long_v_name_b.vclone(),
        long_a_name_c: CloneFrom(r.long_a_name_c),
    } }
}
impl Subj for SDb {
    type Direct<'e> = s_db::Init<ArrInit<'e, u8>, AnyInit<'e, Str<u8>>, ArrInit<'e, u64>>;
    type Clo<'e> = <SDb as VClone<'e>>::Cloner;
    fn name() -> String { "SDb".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Dep(<u8 as Pay>::MASK)); <Str<u8>>::kinds(out); out.push(Kind::Dep(<u64 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(<u8 as Pay>::TOK); <Str<u8>>::toks(out); out.push(<u64 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SDb(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Str<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u8 as Pay>::MASK).collect()); at += 1;
        { let k = <Str<u8>>::leaves(); out.extend(<Str<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u64 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSDb>(), std::mem::align_of::<u8>(), <Str<u8>>::r_align(), std::mem::align_of::<u64>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSDb>(); let mut at = 0;
        size = up(size, std::mem::align_of::<u8>()); { let n = lens[at] * std::mem::size_of::<u8>(); out.push((base + size, n)); size += n; at += 1; }
        { let k = <Str<u8>>::leaves(); size = up(size, <Str<u8>>::r_align()); size += <Str<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size = up(size, std::mem::align_of::<u64>()); { let n = lens[at] * std::mem::size_of::<u64>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_a_name_a = arr_init::<u8>(&v[at], ch, env); at += 1;
        let l_long_v_name_b = { let k = <Str<u8>>::leaves(); let i = any::<Str<u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_long_a_name_c = arr_init::<u64>(&v[at], ch, env); at += 1;
        s_db::Init { long_a_name_a: l_long_a_name_a, long_v_name_b: l_long_v_name_b, long_a_name_c: l_long_a_name_c }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        if r.long_a_name_a.len() > 1 << 20 { crate::fail!("length {} of long_a_name_a is absurd", r.long_a_name_a.len()); } out.push(r.long_a_name_a.iter().map(|p| p.val()).collect());
        r.long_v_name_b.read(out);
        if r.long_a_name_c.len() > 1 << 20 { crate::fail!("length {} of long_a_name_c is absurd", r.long_a_name_c.len()); } out.push(r.long_a_name_c.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.long_a_name_a.as_ptr() as usize, std::mem::size_of_val(r.long_a_name_a)));
        r.long_v_name_b.parts(out);
        out.push((r.long_a_name_c.as_ptr() as usize, std::mem::size_of_val(r.long_a_name_c)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); m.long_a_name_a[idx] = p; return; } at += 1;
        { let k = <Str<u8>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u8>>::set(m.long_v_name_b, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <u64 as Pay>::mk(x)); m.long_a_name_c[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        for (i, p) in m.long_a_name_a.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u8 as Pay>::mk(x)); } at += 1;
        <Str<u8>>::set_all(m.long_v_name_b, at, f); at += <Str<u8>>::leaves();
        for (i, p) in m.long_a_name_c.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u64 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SDb {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += <Str<u8>>::leaves(); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(al[0]); q.extend(<Str<u8>>::shapes(&[l])[0].iter()); q.push(al[1]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SDb(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_db::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SDc {
    #[varlen_array]
    pub x: [T16; 1 + 2],
    #[varlen_array]
    pub y: [A64; 2],
    pub z: u32,
}
struct MirrorSDc { z: u32 }
pub fn lens_SDc(c: &[usize]) -> [usize; 2] { [3, 2] }
impl<'e> VClone<'e> for SDc {
    type Cloner = s_dc::Init<CloneFrom<'e, T16>, CloneFrom<'e, A64>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_dc::Init {
        x: CloneFrom(r.x),
        y: CloneFrom(r.y),
        z: self.z.clone(),
    } }
}
impl Subj for SDc {
    type Direct<'e> = s_dc::Init<ArrInit<'e, T16>, ArrInit<'e, A64>>;
    type Clo<'e> = <SDc as VClone<'e>>::Cloner;
    fn name() -> String { "SDc".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Dep(<T16 as Pay>::MASK)); out.push(Kind::Dep(<A64 as Pay>::MASK)); out.push(Kind::Fixed(<u32 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(<T16 as Pay>::TOK); out.push(<A64 as Pay>::TOK); out.push(<u32 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SDc(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T16 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <A64 as Pay>::MASK).collect()); at += 1;
        out.push(vec![cell(seed, at, 0) & <u32 as Pay>::MASK]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSDc>(), std::mem::align_of::<T16>(), std::mem::align_of::<A64>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSDc>(); let mut at = 0;
        size = up(size, std::mem::align_of::<T16>()); { let n = lens[at] * std::mem::size_of::<T16>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<A64>()); { let n = lens[at] * std::mem::size_of::<A64>(); out.push((base + size, n)); size += n; at += 1; }
        out.push((base + std::mem::offset_of!(SDc, z), std::mem::size_of::<u32>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x = arr_init::<T16>(&v[at], ch, env); at += 1;
        let l_y = arr_init::<A64>(&v[at], ch, env); at += 1;
        let l_z = <u32 as Pay>::mk(v[at][0]); at += 1;
        s_dc::Init { x: l_x, y: l_y, z: l_z }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        if r.x.len() > 1 << 20 { crate::fail!("length {} of x is absurd", r.x.len()); } out.push(r.x.iter().map(|p| p.val()).collect());
        if r.y.len() > 1 << 20 { crate::fail!("length {} of y is absurd", r.y.len()); } out.push(r.y.iter().map(|p| p.val()).collect());
        out.push(vec![r.z.val()]); if !std::ptr::eq(r.z, &self.z) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().z is not the header field".into()); }
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.x.as_ptr() as usize, std::mem::size_of_val(r.x)));
        out.push((r.y.as_ptr() as usize, std::mem::size_of_val(r.y)));
        out.push((r.z as *const u32 as usize, std::mem::size_of::<u32>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <T16 as Pay>::mk(x)); m.x[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <A64 as Pay>::mk(x)); m.y[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u32 as Pay>::mk(x)); *m.z = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        for (i, p) in m.x.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T16 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.y.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <A64 as Pay>::mk(x)); } at += 1;
        { let x = f(at, 0, m.z.val()); *m.z = host(|| <u32 as Pay>::mk(x)); at += 1; }
    }
}
impl Ctl for SDc {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(al[0]); q.push(al[1]); q.push(1); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SDc(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_dc::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SDd {
    #[varlen_array]
    pub aa: [T2; *cc as usize],
    #[varlen_array]
    pub ab: [TZ; (*cc as usize) / 2],
    #[controls_layout]
    pub cc: usize,
}
struct MirrorSDd { cc: usize }
pub fn lens_SDd(c: &[usize]) -> [usize; 2] { [c[0], c[0] / 2] }
impl<'e> VClone<'e> for SDd {
    type Cloner = s_dd::Init<CloneFrom<'e, T2>, CloneFrom<'e, TZ>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_dd::Init {
        aa: CloneFrom(r.aa),
        ab: CloneFrom(r.ab),
        cc: self.cc.clone(),
    } }
}
impl Subj for SDd {
    type Direct<'e> = s_dd::Init<ArrInit<'e, T2>, ArrInit<'e, TZ>>;
    type Clo<'e> = <SDd as VClone<'e>>::Cloner;
    fn name() -> String { "SDd".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Dep(<T2 as Pay>::MASK)); out.push(Kind::Dep(<TZ as Pay>::MASK)); out.push(Kind::Ctl); }
    fn toks(out: &mut Vec<bool>) { out.push(<T2 as Pay>::TOK); out.push(<TZ as Pay>::TOK); out.push(false); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SDd(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T2 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <TZ as Pay>::MASK).collect()); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSDd>(), std::mem::align_of::<T2>(), std::mem::align_of::<TZ>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSDd>(); let mut at = 0;
        size = up(size, std::mem::align_of::<T2>()); { let n = lens[at] * std::mem::size_of::<T2>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<TZ>()); { let n = lens[at] * std::mem::size_of::<TZ>(); out.push((base + size, n)); size += n; at += 1; }
        out.push((base + std::mem::offset_of!(SDd, cc), std::mem::size_of::<usize>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_aa = arr_init::<T2>(&v[at], ch, env); at += 1;
        let l_ab = arr_init::<TZ>(&v[at], ch, env); at += 1;
        let l_cc: usize = (v[at][0] as usize); at += 1;
        s_dd::Init { aa: l_aa, ab: l_ab, cc: l_cc }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        if r.aa.len() > 1 << 20 { crate::fail!("length {} of aa is absurd", r.aa.len()); } out.push(r.aa.iter().map(|p| p.val()).collect());
        if r.ab.len() > 1 << 20 { crate::fail!("length {} of ab is absurd", r.ab.len()); } out.push(r.ab.iter().map(|p| p.val()).collect());
        out.push(vec![*r.cc as u64]);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.aa.as_ptr() as usize, std::mem::size_of_val(r.aa)));
        out.push((r.ab.as_ptr() as usize, std::mem::size_of_val(r.ab)));
        out.push((r.cc as *const usize as usize, std::mem::size_of::<usize>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <T2 as Pay>::mk(x)); m.aa[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <TZ as Pay>::mk(x)); m.ab[idx] = p; return; } at += 1;
        if leaf == at { return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        for (i, p) in m.aa.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T2 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ab.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <TZ as Pay>::mk(x)); } at += 1;
        at += 1;
    }
}
impl Ctl for SDd {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["usize"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += 1; o.push(at); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(al[0]); q.push(al[1]); q.push(c[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SDd(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_dd::LayoutControllers { cc: (c[0] as usize) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.cc) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.cc as u64] }
}
#[define_varlen]

pub struct SDe {
    #[varlen_array]
    pub long_a_name_a: [[u8; 3]; 0],
    #[varlen_array]
    pub long_a_name_b: [T64; 5],
    #[varlen]
    pub long_v_name_c: Array<T8, u16>,
}
struct MirrorSDe {  }
pub fn lens_SDe(c: &[usize]) -> [usize; 2] { [0, 5] }
impl<'e> VClone<'e> for SDe {
    type Cloner = s_de::Init<CloneFrom<'e, [u8; 3]>, CloneFrom<'e, T64>, <Array<T8, u16> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_de::Init {
        long_a_name_a: CloneFrom(r.long_a_name_a),
        long_a_name_b: CloneFrom(r.long_a_name_b),
        long_v_name_c: r.long_v_name_c.vclone(),
    } }
}
impl Subj for SDe {
    type Direct<'e> = s_de::Init<ArrInit<'e, [u8; 3]>, ArrInit<'e, T64>, AnyInit<'e, Array<T8, u16>>>;
    type Clo<'e> = <SDe as VClone<'e>>::Cloner;
    fn name() -> String { "SDe".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Dep(<[u8; 3] as Pay>::MASK)); out.push(Kind::Dep(<T64 as Pay>::MASK)); <Array<T8, u16>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { out.push(<[u8; 3] as Pay>::TOK); out.push(<T64 as Pay>::TOK); <Array<T8, u16>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SDe(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<T8, u16>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <[u8; 3] as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T64 as Pay>::MASK).collect()); at += 1;
        { let k = <Array<T8, u16>>::leaves(); out.extend(<Array<T8, u16>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSDe>(), std::mem::align_of::<[u8; 3]>(), std::mem::align_of::<T64>(), <Array<T8, u16>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSDe>(); let mut at = 0;
        size = up(size, std::mem::align_of::<[u8; 3]>()); { let n = lens[at] * std::mem::size_of::<[u8; 3]>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<T64>()); { let n = lens[at] * std::mem::size_of::<T64>(); out.push((base + size, n)); size += n; at += 1; }
        { let k = <Array<T8, u16>>::leaves(); size = up(size, <Array<T8, u16>>::r_align()); size += <Array<T8, u16>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_a_name_a = arr_init::<[u8; 3]>(&v[at], ch, env); at += 1;
        let l_long_a_name_b = arr_init::<T64>(&v[at], ch, env); at += 1;
        let l_long_v_name_c = { let k = <Array<T8, u16>>::leaves(); let i = any::<Array<T8, u16>>(&v[at..at + k], ch, env); at += k; i };
        s_de::Init { long_a_name_a: l_long_a_name_a, long_a_name_b: l_long_a_name_b, long_v_name_c: l_long_v_name_c }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        if r.long_a_name_a.len() > 1 << 20 { crate::fail!("length {} of long_a_name_a is absurd", r.long_a_name_a.len()); } out.push(r.long_a_name_a.iter().map(|p| p.val()).collect());
        if r.long_a_name_b.len() > 1 << 20 { crate::fail!("length {} of long_a_name_b is absurd", r.long_a_name_b.len()); } out.push(r.long_a_name_b.iter().map(|p| p.val()).collect());
        r.long_v_name_c.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.long_a_name_a.as_ptr() as usize, std::mem::size_of_val(r.long_a_name_a)));
        out.push((r.long_a_name_b.as_ptr() as usize, std::mem::size_of_val(r.long_a_name_b)));
        r.long_v_name_c.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <[u8; 3] as Pay>::mk(x)); m.long_a_name_a[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <T64 as Pay>::mk(x)); m.long_a_name_b[idx] = p; return; } at += 1;
        { let k = <Array<T8, u16>>::leaves(); if leaf >= at && leaf < at + k { return <Array<T8, u16>>::set(m.long_v_name_c, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        for (i, p) in m.long_a_name_a.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <[u8; 3] as Pay>::mk(x)); } at += 1;
        for (i, p) in m.long_a_name_b.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T64 as Pay>::mk(x)); } at += 1;
        <Array<T8, u16>>::set_all(m.long_v_name_c, at, f); at += <Array<T8, u16>>::leaves();
    }
}
impl Ctl for SDe {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += 1; at += <Array<T8, u16>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(al[0]); q.push(al[1]); q.extend(<Array<T8, u16>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SDe(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_de::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SDf {
    #[varlen_array]
    pub x: [(); 1 + 2],
    #[varlen_array]
    pub y: [u16; 2],
    #[varlen_array]
    pub z: [T8; 0],
}
struct MirrorSDf {  }
pub fn lens_SDf(c: &[usize]) -> [usize; 3] { [3, 2, 0] }
impl<'e> VClone<'e> for SDf {
    type Cloner = s_df::Init<CloneFrom<'e, ()>, CloneFrom<'e, u16>, CloneFrom<'e, T8>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_df::Init {
        x: CloneFrom(r.x),
        y: CloneFrom(r.y),
        z: CloneFrom(r.z),
    } }
}
impl Subj for SDf {
    type Direct<'e> = s_df::Init<ArrInit<'e, ()>, ArrInit<'e, u16>, ArrInit<'e, T8>>;
    type Clo<'e> = <SDf as VClone<'e>>::Cloner;
    fn name() -> String { "SDf".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Dep(<() as Pay>::MASK)); out.push(Kind::Dep(<u16 as Pay>::MASK)); out.push(Kind::Dep(<T8 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(<() as Pay>::TOK); out.push(<u16 as Pay>::TOK); out.push(<T8 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SDf(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[2]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <() as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u16 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T8 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSDf>(), std::mem::align_of::<()>(), std::mem::align_of::<u16>(), std::mem::align_of::<T8>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSDf>(); let mut at = 0;
        size = up(size, std::mem::align_of::<()>()); { let n = lens[at] * std::mem::size_of::<()>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<u16>()); { let n = lens[at] * std::mem::size_of::<u16>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<T8>()); { let n = lens[at] * std::mem::size_of::<T8>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x = arr_init::<()>(&v[at], ch, env); at += 1;
        let l_y = arr_init::<u16>(&v[at], ch, env); at += 1;
        let l_z = arr_init::<T8>(&v[at], ch, env); at += 1;
        s_df::Init { x: l_x, y: l_y, z: l_z }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        if r.x.len() > 1 << 20 { crate::fail!("length {} of x is absurd", r.x.len()); } out.push(r.x.iter().map(|p| p.val()).collect());
        if r.y.len() > 1 << 20 { crate::fail!("length {} of y is absurd", r.y.len()); } out.push(r.y.iter().map(|p| p.val()).collect());
        if r.z.len() > 1 << 20 { crate::fail!("length {} of z is absurd", r.z.len()); } out.push(r.z.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.x.as_ptr() as usize, std::mem::size_of_val(r.x)));
        out.push((r.y.as_ptr() as usize, std::mem::size_of_val(r.y)));
        out.push((r.z.as_ptr() as usize, std::mem::size_of_val(r.z)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <() as Pay>::mk(x)); m.x[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u16 as Pay>::mk(x)); m.y[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); m.z[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        for (i, p) in m.x.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <() as Pay>::mk(x)); } at += 1;
        for (i, p) in m.y.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u16 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.z.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T8 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SDf {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(al[0]); q.push(al[1]); q.push(al[2]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SDf(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_df::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]
#[repr(C)]
pub struct SDg {
    #[controls_layout]
    pub ca: bool,
    #[varlen_array]
    pub ab: [u8; if *ca { 3 } else { 1 }],
    #[varlen_array]
    pub ac: [u64; if *ca { 3 } else { 1 }],
    #[varlen_array]
    pub ad: [T16; if *ca { 3 } else { 1 }],
}
#[repr(C)] struct MirrorSDg { ca: bool }
pub fn lens_SDg(c: &[usize]) -> [usize; 3] { [if c[0] != 0 { 3 } else { 1 }, if c[0] != 0 { 3 } else { 1 }, if c[0] != 0 { 3 } else { 1 }] }
impl<'e> VClone<'e> for SDg {
    type Cloner = s_dg::Init<CloneFrom<'e, u8>, CloneFrom<'e, u64>, CloneFrom<'e, T16>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_dg::Init {
        ca: self.ca.clone(),
        ab: CloneFrom(r.ab),
        ac: CloneFrom(r.ac),
        ad: CloneFrom(r.ad),
    } }
}
impl Subj for SDg {
    type Direct<'e> = s_dg::Init<ArrInit<'e, u8>, ArrInit<'e, u64>, ArrInit<'e, T16>>;
    type Clo<'e> = <SDg as VClone<'e>>::Cloner;
    fn name() -> String { "SDg".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Dep(<u8 as Pay>::MASK)); out.push(Kind::Dep(<u64 as Pay>::MASK)); out.push(Kind::Dep(<T16 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(<u8 as Pay>::TOK); out.push(<u64 as Pay>::TOK); out.push(<T16 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| (l & 1)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SDg(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[2]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u8 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u64 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T16 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSDg>(), std::mem::align_of::<u8>(), std::mem::align_of::<u64>(), std::mem::align_of::<T16>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSDg>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SDg, ca), std::mem::size_of::<bool>())); at += 1;
        size = up(size, std::mem::align_of::<u8>()); { let n = lens[at] * std::mem::size_of::<u8>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<u64>()); { let n = lens[at] * std::mem::size_of::<u64>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<T16>()); { let n = lens[at] * std::mem::size_of::<T16>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_ca: bool = (v[at][0] != 0); at += 1;
        let l_ab = arr_init::<u8>(&v[at], ch, env); at += 1;
        let l_ac = arr_init::<u64>(&v[at], ch, env); at += 1;
        let l_ad = arr_init::<T16>(&v[at], ch, env); at += 1;
        s_dg::Init { ca: l_ca, ab: l_ab, ac: l_ac, ad: l_ad }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![(*r.ca) as u64]);
        if r.ab.len() > 1 << 20 { crate::fail!("length {} of ab is absurd", r.ab.len()); } out.push(r.ab.iter().map(|p| p.val()).collect());
        if r.ac.len() > 1 << 20 { crate::fail!("length {} of ac is absurd", r.ac.len()); } out.push(r.ac.iter().map(|p| p.val()).collect());
        if r.ad.len() > 1 << 20 { crate::fail!("length {} of ad is absurd", r.ad.len()); } out.push(r.ad.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.ca as *const bool as usize, std::mem::size_of::<bool>()));
        out.push((r.ab.as_ptr() as usize, std::mem::size_of_val(r.ab)));
        out.push((r.ac.as_ptr() as usize, std::mem::size_of_val(r.ac)));
        out.push((r.ad.as_ptr() as usize, std::mem::size_of_val(r.ad)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); m.ab[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u64 as Pay>::mk(x)); m.ac[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <T16 as Pay>::mk(x)); m.ad[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        for (i, p) in m.ab.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u8 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ac.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u64 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ad.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T16 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SDg {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["bool"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(al[0]); q.push(al[1]); q.push(al[2]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SDg(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_dg::LayoutControllers { ca: (c[0] != 0) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![(*(&self.ca)) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![(*m.ca) as u64] }
}
#[define_varlen]

pub struct SDh {
    #[controls_layout]
    pub long_c_name_a: (u8, u8),
    #[controls_layout]
    pub long_c_name_b: u32,
    #[varlen_array]
    pub long_a_name_c: [A64; long_c_name_a.0 as usize + long_c_name_a.1 as usize],
    #[varlen_array]
    pub long_a_name_d: [T2; long_c_name_a.1 as usize],
}
struct MirrorSDh { long_c_name_a: (u8, u8), long_c_name_b: u32 }
pub fn lens_SDh(c: &[usize]) -> [usize; 2] { [(c[0] & 255) + (c[0] >> 8), c[0] >> 8] }
impl<'e> VClone<'e> for SDh {
    type Cloner = s_dh::Init<CloneFrom<'e, A64>, CloneFrom<'e, T2>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_dh::Init {
        long_c_name_a: self.long_c_name_a.clone(),
        long_c_name_b: self.long_c_name_b.clone(),
        long_a_name_c: CloneFrom(r.long_a_name_c),
        long_a_name_d: CloneFrom(r.long_a_name_d),
    } }
}
impl Subj for SDh {
    type Direct<'e> = s_dh::Init<ArrInit<'e, A64>, ArrInit<'e, T2>>;
    type Clo<'e> = <SDh as VClone<'e>>::Cloner;
    fn name() -> String { "SDh".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Ctl); out.push(Kind::Dep(<A64 as Pay>::MASK)); out.push(Kind::Dep(<T2 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(false); out.push(<A64 as Pay>::TOK); out.push(<T2 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| ((l & 255) | ((l / 2) & 255) << 8)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        { let mut o: Vec<usize> = ls.iter().map(|&l| l).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SDh(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <A64 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T2 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSDh>(), std::mem::align_of::<A64>(), std::mem::align_of::<T2>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSDh>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SDh, long_c_name_a), std::mem::size_of::<(u8, u8)>())); at += 1;
        out.push((base + std::mem::offset_of!(SDh, long_c_name_b), std::mem::size_of::<u32>())); at += 1;
        size = up(size, std::mem::align_of::<A64>()); { let n = lens[at] * std::mem::size_of::<A64>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<T2>()); { let n = lens[at] * std::mem::size_of::<T2>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_c_name_a: (u8, u8) = ((v[at][0] & 255) as u8, (v[at][0] >> 8) as u8); at += 1;
        let l_long_c_name_b: u32 = (v[at][0] as u32); at += 1;
        let l_long_a_name_c = arr_init::<A64>(&v[at], ch, env); at += 1;
        let l_long_a_name_d = arr_init::<T2>(&v[at], ch, env); at += 1;
        s_dh::Init { long_c_name_a: l_long_c_name_a, long_c_name_b: l_long_c_name_b, long_a_name_c: l_long_a_name_c, long_a_name_d: l_long_a_name_d }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![(r.long_c_name_a.0 as u64 | (r.long_c_name_a.1 as u64) << 8)]);
        out.push(vec![*r.long_c_name_b as u64]);
        if r.long_a_name_c.len() > 1 << 20 { crate::fail!("length {} of long_a_name_c is absurd", r.long_a_name_c.len()); } out.push(r.long_a_name_c.iter().map(|p| p.val()).collect());
        if r.long_a_name_d.len() > 1 << 20 { crate::fail!("length {} of long_a_name_d is absurd", r.long_a_name_d.len()); } out.push(r.long_a_name_d.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.long_c_name_a as *const (u8, u8) as usize, std::mem::size_of::<(u8, u8)>()));
        out.push((r.long_c_name_b as *const u32 as usize, std::mem::size_of::<u32>()));
        out.push((r.long_a_name_c.as_ptr() as usize, std::mem::size_of_val(r.long_a_name_c)));
        out.push((r.long_a_name_d.as_ptr() as usize, std::mem::size_of_val(r.long_a_name_d)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <A64 as Pay>::mk(x)); m.long_a_name_c[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <T2 as Pay>::mk(x)); m.long_a_name_d[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        at += 1;
        for (i, p) in m.long_a_name_c.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <A64 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.long_a_name_d.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T2 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SDh {
    const NCTL: usize = 2;
    fn ctl_types() -> Vec<&'static str> { vec!["(u8, u8)", "u32"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; o.push(at); at += 1; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(c[1]); q.push(al[0]); q.push(al[1]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SDh(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_dh::LayoutControllers { long_c_name_a: ((c[0] & 255) as u8, (c[0] >> 8) as u8), long_c_name_b: (c[1] as u32) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![((&self.long_c_name_a).0 as u64 | ((&self.long_c_name_a).1 as u64) << 8), *(&self.long_c_name_b) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![(m.long_c_name_a.0 as u64 | (m.long_c_name_a.1 as u64) << 8), *m.long_c_name_b as u64] }
}
#[define_varlen]

pub struct SDi {
    pub x: T16,
    #[varlen]
    pub y: FixedLen<u64>,
    pub z: u64,
    #[varlen]
    pub w: Array<u64, u8>,
}
struct MirrorSDi { x: T16, z: u64 }
pub fn lens_SDi(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SDi {
    type Cloner = s_di::Init<<FixedLen<u64> as VClone<'e>>::Cloner, <Array<u64, u8> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_di::Init {
        x: self.x.clone(),
        y: r.y.vclone(),
        z: self.z.clone(),
        w: r.w.vclone(),
    } }
}
impl Subj for SDi {
    type Direct<'e> = s_di::Init<AnyInit<'e, FixedLen<u64>>, AnyInit<'e, Array<u64, u8>>>;
    type Clo<'e> = <SDi as VClone<'e>>::Cloner;
    fn name() -> String { "SDi".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<T16 as Pay>::MASK)); <FixedLen<u64>>::kinds(out); out.push(Kind::Fixed(<u64 as Pay>::MASK)); <Array<u64, u8>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { out.push(<T16 as Pay>::TOK); <FixedLen<u64>>::toks(out); out.push(<u64 as Pay>::TOK); <Array<u64, u8>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SDi(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<u64>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<u64, u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <T16 as Pay>::MASK]); at += 1;
        { let k = <FixedLen<u64>>::leaves(); out.extend(<FixedLen<u64>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![cell(seed, at, 0) & <u64 as Pay>::MASK]); at += 1;
        { let k = <Array<u64, u8>>::leaves(); out.extend(<Array<u64, u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSDi>(), <FixedLen<u64>>::r_align(), <Array<u64, u8>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSDi>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SDi, x), std::mem::size_of::<T16>())); at += 1;
        { let k = <FixedLen<u64>>::leaves(); size = up(size, <FixedLen<u64>>::r_align()); size += <FixedLen<u64>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SDi, z), std::mem::size_of::<u64>())); at += 1;
        { let k = <Array<u64, u8>>::leaves(); size = up(size, <Array<u64, u8>>::r_align()); size += <Array<u64, u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x = <T16 as Pay>::mk(v[at][0]); at += 1;
        let l_y = { let k = <FixedLen<u64>>::leaves(); let i = any::<FixedLen<u64>>(&v[at..at + k], ch, env); at += k; i };
        let l_z = <u64 as Pay>::mk(v[at][0]); at += 1;
        let l_w = { let k = <Array<u64, u8>>::leaves(); let i = any::<Array<u64, u8>>(&v[at..at + k], ch, env); at += k; i };
        s_di::Init { x: l_x, y: l_y, z: l_z, w: l_w }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.x.val()]); if !std::ptr::eq(r.x, &self.x) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().x is not the header field".into()); }
        r.y.read(out);
        out.push(vec![r.z.val()]); if !std::ptr::eq(r.z, &self.z) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().z is not the header field".into()); }
        r.w.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.x as *const T16 as usize, std::mem::size_of::<T16>()));
        r.y.parts(out);
        out.push((r.z as *const u64 as usize, std::mem::size_of::<u64>()));
        r.w.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <T16 as Pay>::mk(x)); *m.x = p; return; } at += 1;
        { let k = <FixedLen<u64>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<u64>>::set(m.y, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <u64 as Pay>::mk(x)); *m.z = p; return; } at += 1;
        { let k = <Array<u64, u8>>::leaves(); if leaf >= at && leaf < at + k { return <Array<u64, u8>>::set(m.w, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.x.val()); *m.x = host(|| <T16 as Pay>::mk(x)); at += 1; }
        <FixedLen<u64>>::set_all(m.y, at, f); at += <FixedLen<u64>>::leaves();
        { let x = f(at, 0, m.z.val()); *m.z = host(|| <u64 as Pay>::mk(x)); at += 1; }
        <Array<u64, u8>>::set_all(m.w, at, f); at += <Array<u64, u8>>::leaves();
    }
}
impl Ctl for SDi {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += <FixedLen<u64>>::leaves(); at += 1; at += <Array<u64, u8>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.extend(<FixedLen<u64>>::shapes(&[l])[0].iter()); q.push(1); q.extend(<Array<u64, u8>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SDi(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_di::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SDj {
    #[varlen]
    pub va: Tup2<FixedLen<u8>, Str<u8>>,
    #[varlen]
    pub vb: W<Array<u16, u8>>,
    #[varlen]
    pub vc: SDg,
    #[varlen]
    pub vd: Array<A64, u8>,
}
struct MirrorSDj {  }
pub fn lens_SDj(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SDj {
    type Cloner = s_dj::Init<<Tup2<FixedLen<u8>, Str<u8>> as VClone<'e>>::Cloner, <W<Array<u16, u8>> as VClone<'e>>::Cloner, <SDg as VClone<'e>>::Cloner, <Array<A64, u8> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_dj::Init {
        va: r.va.vclone(),
        vb: r.vb.vclone(),
        vc: r.vc.vclone(),
        vd: r.vd.vclone(),
    } }
}
impl Subj for SDj {
    type Direct<'e> = s_dj::Init<AnyInit<'e, Tup2<FixedLen<u8>, Str<u8>>>, AnyInit<'e, W<Array<u16, u8>>>, AnyInit<'e, SDg>, AnyInit<'e, Array<A64, u8>>>;
    type Clo<'e> = <SDj as VClone<'e>>::Cloner;
    fn name() -> String { "SDj".into() }
    fn kinds(out: &mut Vec<Kind>) { <Tup2<FixedLen<u8>, Str<u8>>>::kinds(out); <W<Array<u16, u8>>>::kinds(out); <SDg>::kinds(out); <Array<A64, u8>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { <Tup2<FixedLen<u8>, Str<u8>>>::toks(out); <W<Array<u16, u8>>>::toks(out); <SDg>::toks(out); <Array<A64, u8>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SDj(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <Tup2<FixedLen<u8>, Str<u8>>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <W<Array<u16, u8>>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <SDg>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<A64, u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); out.extend(<Tup2<FixedLen<u8>, Str<u8>>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <W<Array<u16, u8>>>::leaves(); out.extend(<W<Array<u16, u8>>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <SDg>::leaves(); out.extend(<SDg>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <Array<A64, u8>>::leaves(); out.extend(<Array<A64, u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSDj>(), <Tup2<FixedLen<u8>, Str<u8>>>::r_align(), <W<Array<u16, u8>>>::r_align(), <SDg>::r_align(), <Array<A64, u8>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSDj>(); let mut at = 0;
        { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); size = up(size, <Tup2<FixedLen<u8>, Str<u8>>>::r_align()); size += <Tup2<FixedLen<u8>, Str<u8>>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <W<Array<u16, u8>>>::leaves(); size = up(size, <W<Array<u16, u8>>>::r_align()); size += <W<Array<u16, u8>>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <SDg>::leaves(); size = up(size, <SDg>::r_align()); size += <SDg>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <Array<A64, u8>>::leaves(); size = up(size, <Array<A64, u8>>::r_align()); size += <Array<A64, u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_va = { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); let i = any::<Tup2<FixedLen<u8>, Str<u8>>>(&v[at..at + k], ch, env); at += k; i };
        let l_vb = { let k = <W<Array<u16, u8>>>::leaves(); let i = any::<W<Array<u16, u8>>>(&v[at..at + k], ch, env); at += k; i };
        let l_vc = { let k = <SDg>::leaves(); let i = any::<SDg>(&v[at..at + k], ch, env); at += k; i };
        let l_vd = { let k = <Array<A64, u8>>::leaves(); let i = any::<Array<A64, u8>>(&v[at..at + k], ch, env); at += k; i };
        s_dj::Init { va: l_va, vb: l_vb, vc: l_vc, vd: l_vd }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.va.read(out);
        r.vb.read(out);
        r.vc.read(out);
        r.vd.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.va.parts(out);
        r.vb.parts(out);
        r.vc.parts(out);
        r.vd.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); if leaf >= at && leaf < at + k { return <Tup2<FixedLen<u8>, Str<u8>>>::set(m.va, leaf - at, idx, x); } at += k; }
        { let k = <W<Array<u16, u8>>>::leaves(); if leaf >= at && leaf < at + k { return <W<Array<u16, u8>>>::set(m.vb, leaf - at, idx, x); } at += k; }
        { let k = <SDg>::leaves(); if leaf >= at && leaf < at + k { return <SDg>::set(m.vc, leaf - at, idx, x); } at += k; }
        { let k = <Array<A64, u8>>::leaves(); if leaf >= at && leaf < at + k { return <Array<A64, u8>>::set(m.vd, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <Tup2<FixedLen<u8>, Str<u8>>>::set_all(m.va, at, f); at += <Tup2<FixedLen<u8>, Str<u8>>>::leaves();
        <W<Array<u16, u8>>>::set_all(m.vb, at, f); at += <W<Array<u16, u8>>>::leaves();
        <SDg>::set_all(m.vc, at, f); at += <SDg>::leaves();
        <Array<A64, u8>>::set_all(m.vd, at, f); at += <Array<A64, u8>>::leaves();
    }
}
impl Ctl for SDj {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); at += <W<Array<u16, u8>>>::leaves(); at += <SDg>::leaves(); at += <Array<A64, u8>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<Tup2<FixedLen<u8>, Str<u8>>>::shapes(&[l])[0].iter()); q.extend(<W<Array<u16, u8>>>::shapes(&[l])[0].iter()); q.extend(<SDg>::shapes(&[l])[0].iter()); q.extend(<Array<A64, u8>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SDj(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_dj::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]
#[repr(C)]
pub struct SDk {
    #[varlen_array]
    pub long_a_name_a: [TZ; 5],
    #[varlen]
    pub long_v_name_b: FixedLen<T16>,
    #[varlen_array]
    pub long_a_name_c: [[u8; 3]; 1 + 2],
    #[varlen]
    pub long_v_name_d: Str<u16>,
}
#[repr(C)] struct MirrorSDk {  }
pub fn lens_SDk(c: &[usize]) -> [usize; 2] { [5, 3] }
impl<'e> VClone<'e> for SDk {
    type Cloner = s_dk::Init<CloneFrom<'e, TZ>, <FixedLen<T16> as VClone<'e>>::Cloner, CloneFrom<'e, [u8; 3]>, <Str<u16> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_dk::Init {
        long_a_name_a: CloneFrom(r.long_a_name_a),
        long_v_name_b: r.long_v_name_b.vclone(),
        long_a_name_c: CloneFrom(r.long_a_name_c),
        long_v_name_d: r.long_v_name_d.vclone(),
    } }
}
impl Subj for SDk {
    type Direct<'e> = s_dk::Init<ArrInit<'e, TZ>, AnyInit<'e, FixedLen<T16>>, ArrInit<'e, [u8; 3]>, AnyInit<'e, Str<u16>>>;
    type Clo<'e> = <SDk as VClone<'e>>::Cloner;
    fn name() -> String { "SDk".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Dep(<TZ as Pay>::MASK)); <FixedLen<T16>>::kinds(out); out.push(Kind::Dep(<[u8; 3] as Pay>::MASK)); <Str<u16>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { out.push(<TZ as Pay>::TOK); <FixedLen<T16>>::toks(out); out.push(<[u8; 3] as Pay>::TOK); <Str<u16>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SDk(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<T16>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Str<u16>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <TZ as Pay>::MASK).collect()); at += 1;
        { let k = <FixedLen<T16>>::leaves(); out.extend(<FixedLen<T16>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <[u8; 3] as Pay>::MASK).collect()); at += 1;
        { let k = <Str<u16>>::leaves(); out.extend(<Str<u16>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSDk>(), std::mem::align_of::<TZ>(), <FixedLen<T16>>::r_align(), std::mem::align_of::<[u8; 3]>(), <Str<u16>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSDk>(); let mut at = 0;
        size = up(size, std::mem::align_of::<TZ>()); { let n = lens[at] * std::mem::size_of::<TZ>(); out.push((base + size, n)); size += n; at += 1; }
        { let k = <FixedLen<T16>>::leaves(); size = up(size, <FixedLen<T16>>::r_align()); size += <FixedLen<T16>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size = up(size, std::mem::align_of::<[u8; 3]>()); { let n = lens[at] * std::mem::size_of::<[u8; 3]>(); out.push((base + size, n)); size += n; at += 1; }
        { let k = <Str<u16>>::leaves(); size = up(size, <Str<u16>>::r_align()); size += <Str<u16>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_a_name_a = arr_init::<TZ>(&v[at], ch, env); at += 1;
        let l_long_v_name_b = { let k = <FixedLen<T16>>::leaves(); let i = any::<FixedLen<T16>>(&v[at..at + k], ch, env); at += k; i };
        let l_long_a_name_c = arr_init::<[u8; 3]>(&v[at], ch, env); at += 1;
        let l_long_v_name_d = { let k = <Str<u16>>::leaves(); let i = any::<Str<u16>>(&v[at..at + k], ch, env); at += k; i };
        s_dk::Init { long_a_name_a: l_long_a_name_a, long_v_name_b: l_long_v_name_b, long_a_name_c: l_long_a_name_c, long_v_name_d: l_long_v_name_d }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        if r.long_a_name_a.len() > 1 << 20 { crate::fail!("length {} of long_a_name_a is absurd", r.long_a_name_a.len()); } out.push(r.long_a_name_a.iter().map(|p| p.val()).collect());
        r.long_v_name_b.read(out);
        if r.long_a_name_c.len() > 1 << 20 { crate::fail!("length {} of long_a_name_c is absurd", r.long_a_name_c.len()); } out.push(r.long_a_name_c.iter().map(|p| p.val()).collect());
        r.long_v_name_d.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.long_a_name_a.as_ptr() as usize, std::mem::size_of_val(r.long_a_name_a)));
        r.long_v_name_b.parts(out);
        out.push((r.long_a_name_c.as_ptr() as usize, std::mem::size_of_val(r.long_a_name_c)));
        r.long_v_name_d.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <TZ as Pay>::mk(x)); m.long_a_name_a[idx] = p; return; } at += 1;
        { let k = <FixedLen<T16>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<T16>>::set(m.long_v_name_b, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <[u8; 3] as Pay>::mk(x)); m.long_a_name_c[idx] = p; return; } at += 1;
        { let k = <Str<u16>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u16>>::set(m.long_v_name_d, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        for (i, p) in m.long_a_name_a.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <TZ as Pay>::mk(x)); } at += 1;
        <FixedLen<T16>>::set_all(m.long_v_name_b, at, f); at += <FixedLen<T16>>::leaves();
        for (i, p) in m.long_a_name_c.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <[u8; 3] as Pay>::mk(x)); } at += 1;
        <Str<u16>>::set_all(m.long_v_name_d, at, f); at += <Str<u16>>::leaves();
    }
}
impl Ctl for SDk {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += <FixedLen<T16>>::leaves(); at += 1; at += <Str<u16>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(al[0]); q.extend(<FixedLen<T16>>::shapes(&[l])[0].iter()); q.push(al[1]); q.extend(<Str<u16>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SDk(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_dk::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SDl {
    #[controls_layout]
    pub x: u8,
    #[varlen_array]
    pub y: [T64; (*x as usize + 1) & 7],
    #[varlen]
    pub z: Array<T12, u32>,
    #[varlen_array]
    pub w: [(); *x as usize],
}
struct MirrorSDl { x: u8 }
pub fn lens_SDl(c: &[usize]) -> [usize; 2] { [(c[0] + 1) & 7, c[0]] }
impl<'e> VClone<'e> for SDl {
    type Cloner = s_dl::Init<CloneFrom<'e, T64>, <Array<T12, u32> as VClone<'e>>::Cloner, CloneFrom<'e, ()>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_dl::Init {
        x: self.x.clone(),
        y: CloneFrom(r.y),
        z: r.z.vclone(),
        w: CloneFrom(r.w),
    } }
}
impl Subj for SDl {
    type Direct<'e> = s_dl::Init<ArrInit<'e, T64>, AnyInit<'e, Array<T12, u32>>, ArrInit<'e, ()>>;
    type Clo<'e> = <SDl as VClone<'e>>::Cloner;
    fn name() -> String { "SDl".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Dep(<T64 as Pay>::MASK)); <Array<T12, u32>>::kinds(out); out.push(Kind::Dep(<() as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(<T64 as Pay>::TOK); <Array<T12, u32>>::toks(out); out.push(<() as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SDl(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<T12, u32>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T64 as Pay>::MASK).collect()); at += 1;
        { let k = <Array<T12, u32>>::leaves(); out.extend(<Array<T12, u32>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <() as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSDl>(), std::mem::align_of::<T64>(), <Array<T12, u32>>::r_align(), std::mem::align_of::<()>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSDl>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SDl, x), std::mem::size_of::<u8>())); at += 1;
        size = up(size, std::mem::align_of::<T64>()); { let n = lens[at] * std::mem::size_of::<T64>(); out.push((base + size, n)); size += n; at += 1; }
        { let k = <Array<T12, u32>>::leaves(); size = up(size, <Array<T12, u32>>::r_align()); size += <Array<T12, u32>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size = up(size, std::mem::align_of::<()>()); { let n = lens[at] * std::mem::size_of::<()>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x: u8 = (v[at][0] as u8); at += 1;
        let l_y = arr_init::<T64>(&v[at], ch, env); at += 1;
        let l_z = { let k = <Array<T12, u32>>::leaves(); let i = any::<Array<T12, u32>>(&v[at..at + k], ch, env); at += k; i };
        let l_w = arr_init::<()>(&v[at], ch, env); at += 1;
        s_dl::Init { x: l_x, y: l_y, z: l_z, w: l_w }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.x as u64]);
        if r.y.len() > 1 << 20 { crate::fail!("length {} of y is absurd", r.y.len()); } out.push(r.y.iter().map(|p| p.val()).collect());
        r.z.read(out);
        if r.w.len() > 1 << 20 { crate::fail!("length {} of w is absurd", r.w.len()); } out.push(r.w.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.x as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.y.as_ptr() as usize, std::mem::size_of_val(r.y)));
        r.z.parts(out);
        out.push((r.w.as_ptr() as usize, std::mem::size_of_val(r.w)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <T64 as Pay>::mk(x)); m.y[idx] = p; return; } at += 1;
        { let k = <Array<T12, u32>>::leaves(); if leaf >= at && leaf < at + k { return <Array<T12, u32>>::set(m.z, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <() as Pay>::mk(x)); m.w[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        for (i, p) in m.y.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T64 as Pay>::mk(x)); } at += 1;
        <Array<T12, u32>>::set_all(m.z, at, f); at += <Array<T12, u32>>::leaves();
        for (i, p) in m.w.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <() as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SDl {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u8"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; at += <Array<T12, u32>>::leaves(); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(al[0]); q.extend(<Array<T12, u32>>::shapes(&[l])[0].iter()); q.push(al[1]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SDl(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_dl::LayoutControllers { x: (c[0] as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.x) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.x as u64] }
}
#[define_varlen]

pub struct SDm {
    pub na: T2,
    #[controls_layout]
    pub cb: u16,
    #[varlen]
    pub vc: Str<u8>,
    #[varlen_array]
    pub ad: [u16; (*cb as usize + 1) & 7],
}
struct MirrorSDm { na: T2, cb: u16 }
pub fn lens_SDm(c: &[usize]) -> [usize; 1] { [(c[0] + 1) & 7] }
impl<'e> VClone<'e> for SDm {
    type Cloner = s_dm::Init<<Str<u8> as VClone<'e>>::Cloner, CloneFrom<'e, u16>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_dm::Init {
        na: self.na.clone(),
        cb: self.cb.clone(),
        vc: r.vc.vclone(),
        ad: CloneFrom(r.ad),
    } }
}
impl Subj for SDm {
    type Direct<'e> = s_dm::Init<AnyInit<'e, Str<u8>>, ArrInit<'e, u16>>;
    type Clo<'e> = <SDm as VClone<'e>>::Cloner;
    fn name() -> String { "SDm".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<T2 as Pay>::MASK)); out.push(Kind::Ctl); <Str<u8>>::kinds(out); out.push(Kind::Dep(<u16 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(<T2 as Pay>::TOK); out.push(false); <Str<u8>>::toks(out); out.push(<u16 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(65535)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SDm(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Str<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <T2 as Pay>::MASK]); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        { let k = <Str<u8>>::leaves(); out.extend(<Str<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u16 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSDm>(), <Str<u8>>::r_align(), std::mem::align_of::<u16>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSDm>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SDm, na), std::mem::size_of::<T2>())); at += 1;
        out.push((base + std::mem::offset_of!(SDm, cb), std::mem::size_of::<u16>())); at += 1;
        { let k = <Str<u8>>::leaves(); size = up(size, <Str<u8>>::r_align()); size += <Str<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size = up(size, std::mem::align_of::<u16>()); { let n = lens[at] * std::mem::size_of::<u16>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_na = <T2 as Pay>::mk(v[at][0]); at += 1;
        let l_cb: u16 = (v[at][0] as u16); at += 1;
        let l_vc = { let k = <Str<u8>>::leaves(); let i = any::<Str<u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_ad = arr_init::<u16>(&v[at], ch, env); at += 1;
        s_dm::Init { na: l_na, cb: l_cb, vc: l_vc, ad: l_ad }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.na.val()]); if !std::ptr::eq(r.na, &self.na) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().na is not the header field".into()); }
        out.push(vec![*r.cb as u64]);
        r.vc.read(out);
        if r.ad.len() > 1 << 20 { crate::fail!("length {} of ad is absurd", r.ad.len()); } out.push(r.ad.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.na as *const T2 as usize, std::mem::size_of::<T2>()));
        out.push((r.cb as *const u16 as usize, std::mem::size_of::<u16>()));
        r.vc.parts(out);
        out.push((r.ad.as_ptr() as usize, std::mem::size_of_val(r.ad)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <T2 as Pay>::mk(x)); *m.na = p; return; } at += 1;
        if leaf == at { return; } at += 1;
        { let k = <Str<u8>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u8>>::set(m.vc, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <u16 as Pay>::mk(x)); m.ad[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.na.val()); *m.na = host(|| <T2 as Pay>::mk(x)); at += 1; }
        at += 1;
        <Str<u8>>::set_all(m.vc, at, f); at += <Str<u8>>::leaves();
        for (i, p) in m.ad.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u16 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SDm {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u16"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; o.push(at); at += 1; at += <Str<u8>>::leaves(); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.push(c[0]); q.extend(<Str<u8>>::shapes(&[l])[0].iter()); q.push(al[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SDm(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_dm::LayoutControllers { cb: (c[0] as u16) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.cb) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.cb as u64] }
}
#[define_varlen]

pub struct SDn {
    #[varlen_array]
    pub long_a_name_a: [T8; (*long_c_name_c as usize + 1) & 7],
    #[varlen]
    pub long_v_name_b: Array<T8, u16>,
    #[controls_layout]
    pub long_c_name_c: usize,
    pub long_n_name_d: A16,
}
struct MirrorSDn { long_c_name_c: usize, long_n_name_d: A16 }
pub fn lens_SDn(c: &[usize]) -> [usize; 1] { [(c[0] + 1) & 7] }
impl<'e> VClone<'e> for SDn {
    type Cloner = s_dn::Init<CloneFrom<'e, T8>, <Array<T8, u16> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_dn::Init {
        long_a_name_a: CloneFrom(r.long_a_name_a),
        long_v_name_b: r.long_v_name_b.vclone(),
        long_c_name_c: self.long_c_name_c.clone(),
        long_n_name_d: self.long_n_name_d.clone(),
    } }
}
impl Subj for SDn {
    type Direct<'e> = s_dn::Init<ArrInit<'e, T8>, AnyInit<'e, Array<T8, u16>>>;
    type Clo<'e> = <SDn as VClone<'e>>::Cloner;
    fn name() -> String { "SDn".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Dep(<T8 as Pay>::MASK)); <Array<T8, u16>>::kinds(out); out.push(Kind::Ctl); out.push(Kind::Fixed(<A16 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(<T8 as Pay>::TOK); <Array<T8, u16>>::toks(out); out.push(false); out.push(<A16 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SDn(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<T8, u16>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T8 as Pay>::MASK).collect()); at += 1;
        { let k = <Array<T8, u16>>::leaves(); out.extend(<Array<T8, u16>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![lens[at] as u64]); at += 1;
        out.push(vec![cell(seed, at, 0) & <A16 as Pay>::MASK]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSDn>(), std::mem::align_of::<T8>(), <Array<T8, u16>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSDn>(); let mut at = 0;
        size = up(size, std::mem::align_of::<T8>()); { let n = lens[at] * std::mem::size_of::<T8>(); out.push((base + size, n)); size += n; at += 1; }
        { let k = <Array<T8, u16>>::leaves(); size = up(size, <Array<T8, u16>>::r_align()); size += <Array<T8, u16>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SDn, long_c_name_c), std::mem::size_of::<usize>())); at += 1;
        out.push((base + std::mem::offset_of!(SDn, long_n_name_d), std::mem::size_of::<A16>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_a_name_a = arr_init::<T8>(&v[at], ch, env); at += 1;
        let l_long_v_name_b = { let k = <Array<T8, u16>>::leaves(); let i = any::<Array<T8, u16>>(&v[at..at + k], ch, env); at += k; i };
        let l_long_c_name_c: usize = (v[at][0] as usize); at += 1;
        let l_long_n_name_d = <A16 as Pay>::mk(v[at][0]); at += 1;
        s_dn::Init { long_a_name_a: l_long_a_name_a, long_v_name_b: l_long_v_name_b, long_c_name_c: l_long_c_name_c, long_n_name_d: l_long_n_name_d }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        if r.long_a_name_a.len() > 1 << 20 { crate::fail!("length {} of long_a_name_a is absurd", r.long_a_name_a.len()); } out.push(r.long_a_name_a.iter().map(|p| p.val()).collect());
        r.long_v_name_b.read(out);
        out.push(vec![*r.long_c_name_c as u64]);
        out.push(vec![r.long_n_name_d.val()]); if !std::ptr::eq(r.long_n_name_d, &self.long_n_name_d) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().long_n_name_d is not the header field".into()); }
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.long_a_name_a.as_ptr() as usize, std::mem::size_of_val(r.long_a_name_a)));
        r.long_v_name_b.parts(out);
        out.push((r.long_c_name_c as *const usize as usize, std::mem::size_of::<usize>()));
        out.push((r.long_n_name_d as *const A16 as usize, std::mem::size_of::<A16>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); m.long_a_name_a[idx] = p; return; } at += 1;
        { let k = <Array<T8, u16>>::leaves(); if leaf >= at && leaf < at + k { return <Array<T8, u16>>::set(m.long_v_name_b, leaf - at, idx, x); } at += k; }
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <A16 as Pay>::mk(x)); *m.long_n_name_d = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        for (i, p) in m.long_a_name_a.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T8 as Pay>::mk(x)); } at += 1;
        <Array<T8, u16>>::set_all(m.long_v_name_b, at, f); at += <Array<T8, u16>>::leaves();
        at += 1;
        { let x = f(at, 0, m.long_n_name_d.val()); *m.long_n_name_d = host(|| <A16 as Pay>::mk(x)); at += 1; }
    }
}
impl Ctl for SDn {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["usize"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += <Array<T8, u16>>::leaves(); o.push(at); at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(al[0]); q.extend(<Array<T8, u16>>::shapes(&[l])[0].iter()); q.push(c[0]); q.push(1); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SDn(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_dn::LayoutControllers { long_c_name_c: (c[0] as usize) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.long_c_name_c) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.long_c_name_c as u64] }
}
#[define_varlen]
#[repr(C)]
pub struct SDo {
    #[controls_layout]
    pub x: bool,
    pub y: [u8; 3],
    #[varlen_array]
    pub z: [u8; if *x { 3 } else { 1 }],
    #[varlen]
    pub w: FixedLen<u64>,
}
#[repr(C)] struct MirrorSDo { x: bool, y: [u8; 3] }
pub fn lens_SDo(c: &[usize]) -> [usize; 1] { [if c[0] != 0 { 3 } else { 1 }] }
impl<'e> VClone<'e> for SDo {
    type Cloner = s_do::Init<CloneFrom<'e, u8>, <FixedLen<u64> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_do::Init {
        x: self.x.clone(),
        y: self.y.clone(),
        z: CloneFrom(r.z),
        w: r.w.vclone(),
    } }
}
impl Subj for SDo {
    type Direct<'e> = s_do::Init<ArrInit<'e, u8>, AnyInit<'e, FixedLen<u64>>>;
    type Clo<'e> = <SDo as VClone<'e>>::Cloner;
    fn name() -> String { "SDo".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Fixed(<[u8; 3] as Pay>::MASK)); out.push(Kind::Dep(<u8 as Pay>::MASK)); <FixedLen<u64>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(<[u8; 3] as Pay>::TOK); out.push(<u8 as Pay>::TOK); <FixedLen<u64>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| (l & 1)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SDo(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<u64>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push(vec![cell(seed, at, 0) & <[u8; 3] as Pay>::MASK]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u8 as Pay>::MASK).collect()); at += 1;
        { let k = <FixedLen<u64>>::leaves(); out.extend(<FixedLen<u64>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSDo>(), std::mem::align_of::<u8>(), <FixedLen<u64>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSDo>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SDo, x), std::mem::size_of::<bool>())); at += 1;
        out.push((base + std::mem::offset_of!(SDo, y), std::mem::size_of::<[u8; 3]>())); at += 1;
        size = up(size, std::mem::align_of::<u8>()); { let n = lens[at] * std::mem::size_of::<u8>(); out.push((base + size, n)); size += n; at += 1; }
        { let k = <FixedLen<u64>>::leaves(); size = up(size, <FixedLen<u64>>::r_align()); size += <FixedLen<u64>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x: bool = (v[at][0] != 0); at += 1;
        let l_y = <[u8; 3] as Pay>::mk(v[at][0]); at += 1;
        let l_z = arr_init::<u8>(&v[at], ch, env); at += 1;
        let l_w = { let k = <FixedLen<u64>>::leaves(); let i = any::<FixedLen<u64>>(&v[at..at + k], ch, env); at += k; i };
        s_do::Init { x: l_x, y: l_y, z: l_z, w: l_w }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![(*r.x) as u64]);
        out.push(vec![r.y.val()]); if !std::ptr::eq(r.y, &self.y) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().y is not the header field".into()); }
        if r.z.len() > 1 << 20 { crate::fail!("length {} of z is absurd", r.z.len()); } out.push(r.z.iter().map(|p| p.val()).collect());
        r.w.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.x as *const bool as usize, std::mem::size_of::<bool>()));
        out.push((r.y as *const [u8; 3] as usize, std::mem::size_of::<[u8; 3]>()));
        out.push((r.z.as_ptr() as usize, std::mem::size_of_val(r.z)));
        r.w.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <[u8; 3] as Pay>::mk(x)); *m.y = p; return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); m.z[idx] = p; return; } at += 1;
        { let k = <FixedLen<u64>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<u64>>::set(m.w, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        { let x = f(at, 0, m.y.val()); *m.y = host(|| <[u8; 3] as Pay>::mk(x)); at += 1; }
        for (i, p) in m.z.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u8 as Pay>::mk(x)); } at += 1;
        <FixedLen<u64>>::set_all(m.w, at, f); at += <FixedLen<u64>>::leaves();
    }
}
impl Ctl for SDo {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["bool"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; at += 1; at += <FixedLen<u64>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(1); q.push(al[0]); q.extend(<FixedLen<u64>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SDo(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_do::LayoutControllers { x: (c[0] != 0) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![(*(&self.x)) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![(*m.x) as u64] }
}
#[define_varlen]

pub struct SDp {
    #[varlen]
    pub va: Array<u64, u8>,
    #[controls_layout]
    pub cb: (u8, u8),
    pub nc: T12,
    #[varlen_array]
    pub ad: [u64; cb.0 as usize + cb.1 as usize],
}
struct MirrorSDp { cb: (u8, u8), nc: T12 }
pub fn lens_SDp(c: &[usize]) -> [usize; 1] { [(c[0] & 255) + (c[0] >> 8)] }
impl<'e> VClone<'e> for SDp {
    type Cloner = s_dp::Init<<Array<u64, u8> as VClone<'e>>::Cloner, CloneFrom<'e, u64>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_dp::Init {
        va: r.va.vclone(),
        cb: self.cb.clone(),
        nc: self.nc.clone(),
        ad: CloneFrom(r.ad),
    } }
}
impl Subj for SDp {
    type Direct<'e> = s_dp::Init<AnyInit<'e, Array<u64, u8>>, ArrInit<'e, u64>>;
    type Clo<'e> = <SDp as VClone<'e>>::Cloner;
    fn name() -> String { "SDp".into() }
    fn kinds(out: &mut Vec<Kind>) { <Array<u64, u8>>::kinds(out); out.push(Kind::Ctl); out.push(Kind::Fixed(<T12 as Pay>::MASK)); out.push(Kind::Dep(<u64 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { <Array<u64, u8>>::toks(out); out.push(false); out.push(<T12 as Pay>::TOK); out.push(<u64 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| ((l & 255) | ((l / 2) & 255) << 8)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SDp(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <Array<u64, u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <Array<u64, u8>>::leaves(); out.extend(<Array<u64, u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![lens[at] as u64]); at += 1;
        out.push(vec![cell(seed, at, 0) & <T12 as Pay>::MASK]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u64 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSDp>(), <Array<u64, u8>>::r_align(), std::mem::align_of::<u64>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSDp>(); let mut at = 0;
        { let k = <Array<u64, u8>>::leaves(); size = up(size, <Array<u64, u8>>::r_align()); size += <Array<u64, u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SDp, cb), std::mem::size_of::<(u8, u8)>())); at += 1;
        out.push((base + std::mem::offset_of!(SDp, nc), std::mem::size_of::<T12>())); at += 1;
        size = up(size, std::mem::align_of::<u64>()); { let n = lens[at] * std::mem::size_of::<u64>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_va = { let k = <Array<u64, u8>>::leaves(); let i = any::<Array<u64, u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_cb: (u8, u8) = ((v[at][0] & 255) as u8, (v[at][0] >> 8) as u8); at += 1;
        let l_nc = <T12 as Pay>::mk(v[at][0]); at += 1;
        let l_ad = arr_init::<u64>(&v[at], ch, env); at += 1;
        s_dp::Init { va: l_va, cb: l_cb, nc: l_nc, ad: l_ad }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.va.read(out);
        out.push(vec![(r.cb.0 as u64 | (r.cb.1 as u64) << 8)]);
        out.push(vec![r.nc.val()]); if !std::ptr::eq(r.nc, &self.nc) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nc is not the header field".into()); }
        if r.ad.len() > 1 << 20 { crate::fail!("length {} of ad is absurd", r.ad.len()); } out.push(r.ad.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.va.parts(out);
        out.push((r.cb as *const (u8, u8) as usize, std::mem::size_of::<(u8, u8)>()));
        out.push((r.nc as *const T12 as usize, std::mem::size_of::<T12>()));
        out.push((r.ad.as_ptr() as usize, std::mem::size_of_val(r.ad)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <Array<u64, u8>>::leaves(); if leaf >= at && leaf < at + k { return <Array<u64, u8>>::set(m.va, leaf - at, idx, x); } at += k; }
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <T12 as Pay>::mk(x)); *m.nc = p; return; } at += 1;
        if leaf == at { let p = host(|| <u64 as Pay>::mk(x)); m.ad[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <Array<u64, u8>>::set_all(m.va, at, f); at += <Array<u64, u8>>::leaves();
        at += 1;
        { let x = f(at, 0, m.nc.val()); *m.nc = host(|| <T12 as Pay>::mk(x)); at += 1; }
        for (i, p) in m.ad.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u64 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SDp {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["(u8, u8)"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <Array<u64, u8>>::leaves(); o.push(at); at += 1; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<Array<u64, u8>>::shapes(&[l])[0].iter()); q.push(c[0]); q.push(1); q.push(al[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SDp(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_dp::LayoutControllers { cb: ((c[0] & 255) as u8, (c[0] >> 8) as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![((&self.cb).0 as u64 | ((&self.cb).1 as u64) << 8)] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![(m.cb.0 as u64 | (m.cb.1 as u64) << 8)] }
}
#[define_varlen]

pub struct SDq {
    #[controls_layout]
    pub long_c_name_a: u32,
    #[controls_layout]
    pub long_c_name_b: u8,
    #[varlen_array]
    pub long_a_name_c: [T16; (*long_c_name_a as usize) / 2],
    #[varlen_array]
    pub long_a_name_d: [A64; (*long_c_name_a as usize + 1) & 7],
    #[varlen]
    pub long_v_name_e: Tup2<FixedLen<u8>, Str<u8>>,
    pub long_n_name_f: u8,
}
struct MirrorSDq { long_c_name_a: u32, long_c_name_b: u8, long_n_name_f: u8 }
pub fn lens_SDq(c: &[usize]) -> [usize; 2] { [c[0] / 2, (c[0] + 1) & 7] }
impl<'e> VClone<'e> for SDq {
    type Cloner = s_dq::Init<CloneFrom<'e, T16>, CloneFrom<'e, A64>, <Tup2<FixedLen<u8>, Str<u8>> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_dq::Init {
        long_c_name_a: self.long_c_name_a.clone(),
        long_c_name_b: self.long_c_name_b.clone(),
        long_a_name_c: CloneFrom(r.long_a_name_c),
        long_a_name_d: CloneFrom(r.long_a_name_d),
        long_v_name_e: r.long_v_name_e.vclone(),
        long_n_name_f: self.long_n_name_f.clone(),
    } }
}
impl Subj for SDq {
    type Direct<'e> = s_dq::Init<ArrInit<'e, T16>, ArrInit<'e, A64>, AnyInit<'e, Tup2<FixedLen<u8>, Str<u8>>>>;
    type Clo<'e> = <SDq as VClone<'e>>::Cloner;
    fn name() -> String { "SDq".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Ctl); out.push(Kind::Dep(<T16 as Pay>::MASK)); out.push(Kind::Dep(<A64 as Pay>::MASK)); <Tup2<FixedLen<u8>, Str<u8>>>::kinds(out); out.push(Kind::Fixed(<u8 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(false); out.push(<T16 as Pay>::TOK); out.push(<A64 as Pay>::TOK); <Tup2<FixedLen<u8>, Str<u8>>>::toks(out); out.push(<u8 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SDq(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Tup2<FixedLen<u8>, Str<u8>>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T16 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <A64 as Pay>::MASK).collect()); at += 1;
        { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); out.extend(<Tup2<FixedLen<u8>, Str<u8>>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![cell(seed, at, 0) & <u8 as Pay>::MASK]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSDq>(), std::mem::align_of::<T16>(), std::mem::align_of::<A64>(), <Tup2<FixedLen<u8>, Str<u8>>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSDq>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SDq, long_c_name_a), std::mem::size_of::<u32>())); at += 1;
        out.push((base + std::mem::offset_of!(SDq, long_c_name_b), std::mem::size_of::<u8>())); at += 1;
        size = up(size, std::mem::align_of::<T16>()); { let n = lens[at] * std::mem::size_of::<T16>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<A64>()); { let n = lens[at] * std::mem::size_of::<A64>(); out.push((base + size, n)); size += n; at += 1; }
        { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); size = up(size, <Tup2<FixedLen<u8>, Str<u8>>>::r_align()); size += <Tup2<FixedLen<u8>, Str<u8>>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SDq, long_n_name_f), std::mem::size_of::<u8>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_c_name_a: u32 = (v[at][0] as u32); at += 1;
        let l_long_c_name_b: u8 = (v[at][0] as u8); at += 1;
        let l_long_a_name_c = arr_init::<T16>(&v[at], ch, env); at += 1;
        let l_long_a_name_d = arr_init::<A64>(&v[at], ch, env); at += 1;
        let l_long_v_name_e = { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); let i = any::<Tup2<FixedLen<u8>, Str<u8>>>(&v[at..at + k], ch, env); at += k; i };
        let l_long_n_name_f = <u8 as Pay>::mk(v[at][0]); at += 1;
        s_dq::Init { long_c_name_a: l_long_c_name_a, long_c_name_b: l_long_c_name_b, long_a_name_c: l_long_a_name_c, long_a_name_d: l_long_a_name_d, long_v_name_e: l_long_v_name_e, long_n_name_f: l_long_n_name_f }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.long_c_name_a as u64]);
        out.push(vec![*r.long_c_name_b as u64]);
        if r.long_a_name_c.len() > 1 << 20 { crate::fail!("length {} of long_a_name_c is absurd", r.long_a_name_c.len()); } out.push(r.long_a_name_c.iter().map(|p| p.val()).collect());
        if r.long_a_name_d.len() > 1 << 20 { crate::fail!("length {} of long_a_name_d is absurd", r.long_a_name_d.len()); } out.push(r.long_a_name_d.iter().map(|p| p.val()).collect());
        r.long_v_name_e.read(out);
        out.push(vec![r.long_n_name_f.val()]); if !std::ptr::eq(r.long_n_name_f, &self.long_n_name_f) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().long_n_name_f is not the header field".into()); }
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.long_c_name_a as *const u32 as usize, std::mem::size_of::<u32>()));
        out.push((r.long_c_name_b as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.long_a_name_c.as_ptr() as usize, std::mem::size_of_val(r.long_a_name_c)));
        out.push((r.long_a_name_d.as_ptr() as usize, std::mem::size_of_val(r.long_a_name_d)));
        r.long_v_name_e.parts(out);
        out.push((r.long_n_name_f as *const u8 as usize, std::mem::size_of::<u8>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <T16 as Pay>::mk(x)); m.long_a_name_c[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <A64 as Pay>::mk(x)); m.long_a_name_d[idx] = p; return; } at += 1;
        { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); if leaf >= at && leaf < at + k { return <Tup2<FixedLen<u8>, Str<u8>>>::set(m.long_v_name_e, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); *m.long_n_name_f = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        at += 1;
        for (i, p) in m.long_a_name_c.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T16 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.long_a_name_d.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <A64 as Pay>::mk(x)); } at += 1;
        <Tup2<FixedLen<u8>, Str<u8>>>::set_all(m.long_v_name_e, at, f); at += <Tup2<FixedLen<u8>, Str<u8>>>::leaves();
        { let x = f(at, 0, m.long_n_name_f.val()); *m.long_n_name_f = host(|| <u8 as Pay>::mk(x)); at += 1; }
    }
}
impl Ctl for SDq {
    const NCTL: usize = 2;
    fn ctl_types() -> Vec<&'static str> { vec!["u32", "u8"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; o.push(at); at += 1; at += 1; at += 1; at += <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(c[1]); q.push(al[0]); q.push(al[1]); q.extend(<Tup2<FixedLen<u8>, Str<u8>>>::shapes(&[l])[0].iter()); q.push(1); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SDq(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_dq::LayoutControllers { long_c_name_a: (c[0] as u32), long_c_name_b: (c[1] as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.long_c_name_a) as u64, *(&self.long_c_name_b) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.long_c_name_a as u64, *m.long_c_name_b as u64] }
}
#[define_varlen]

pub struct SDr {
    #[varlen_array]
    pub x: [T2; (*z as usize) / 2],
    #[varlen_array]
    pub y: [TZ; (*z as usize + 1) & 7],
    #[controls_layout]
    pub z: u16,
    #[controls_layout]
    pub w: usize,
    #[varlen]
    pub v: W<Array<u16, u8>>,
    #[varlen]
    pub u: SDg,
}
struct MirrorSDr { z: u16, w: usize }
pub fn lens_SDr(c: &[usize]) -> [usize; 2] { [c[0] / 2, (c[0] + 1) & 7] }
impl<'e> VClone<'e> for SDr {
    type Cloner = s_dr::Init<CloneFrom<'e, T2>, CloneFrom<'e, TZ>, <W<Array<u16, u8>> as VClone<'e>>::Cloner, <SDg as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_dr::Init {
        x: CloneFrom(r.x),
        y: CloneFrom(r.y),
        z: self.z.clone(),
        w: self.w.clone(),
        v: r.v.vclone(),
        u: r.u.vclone(),
    } }
}
impl Subj for SDr {
    type Direct<'e> = s_dr::Init<ArrInit<'e, T2>, ArrInit<'e, TZ>, AnyInit<'e, W<Array<u16, u8>>>, AnyInit<'e, SDg>>;
    type Clo<'e> = <SDr as VClone<'e>>::Cloner;
    fn name() -> String { "SDr".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Dep(<T2 as Pay>::MASK)); out.push(Kind::Dep(<TZ as Pay>::MASK)); out.push(Kind::Ctl); out.push(Kind::Ctl); <W<Array<u16, u8>>>::kinds(out); <SDg>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { out.push(<T2 as Pay>::TOK); out.push(<TZ as Pay>::TOK); out.push(false); out.push(false); <W<Array<u16, u8>>>::toks(out); <SDg>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(65535)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        { let mut o: Vec<usize> = ls.iter().map(|&l| l).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SDr(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <W<Array<u16, u8>>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <SDg>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T2 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <TZ as Pay>::MASK).collect()); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        { let k = <W<Array<u16, u8>>>::leaves(); out.extend(<W<Array<u16, u8>>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <SDg>::leaves(); out.extend(<SDg>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSDr>(), std::mem::align_of::<T2>(), std::mem::align_of::<TZ>(), <W<Array<u16, u8>>>::r_align(), <SDg>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSDr>(); let mut at = 0;
        size = up(size, std::mem::align_of::<T2>()); { let n = lens[at] * std::mem::size_of::<T2>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<TZ>()); { let n = lens[at] * std::mem::size_of::<TZ>(); out.push((base + size, n)); size += n; at += 1; }
        out.push((base + std::mem::offset_of!(SDr, z), std::mem::size_of::<u16>())); at += 1;
        out.push((base + std::mem::offset_of!(SDr, w), std::mem::size_of::<usize>())); at += 1;
        { let k = <W<Array<u16, u8>>>::leaves(); size = up(size, <W<Array<u16, u8>>>::r_align()); size += <W<Array<u16, u8>>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <SDg>::leaves(); size = up(size, <SDg>::r_align()); size += <SDg>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x = arr_init::<T2>(&v[at], ch, env); at += 1;
        let l_y = arr_init::<TZ>(&v[at], ch, env); at += 1;
        let l_z: u16 = (v[at][0] as u16); at += 1;
        let l_w: usize = (v[at][0] as usize); at += 1;
        let l_v = { let k = <W<Array<u16, u8>>>::leaves(); let i = any::<W<Array<u16, u8>>>(&v[at..at + k], ch, env); at += k; i };
        let l_u = { let k = <SDg>::leaves(); let i = any::<SDg>(&v[at..at + k], ch, env); at += k; i };
        s_dr::Init { x: l_x, y: l_y, z: l_z, w: l_w, v: l_v, u: l_u }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        if r.x.len() > 1 << 20 { crate::fail!("length {} of x is absurd", r.x.len()); } out.push(r.x.iter().map(|p| p.val()).collect());
        if r.y.len() > 1 << 20 { crate::fail!("length {} of y is absurd", r.y.len()); } out.push(r.y.iter().map(|p| p.val()).collect());
        out.push(vec![*r.z as u64]);
        out.push(vec![*r.w as u64]);
        r.v.read(out);
        r.u.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.x.as_ptr() as usize, std::mem::size_of_val(r.x)));
        out.push((r.y.as_ptr() as usize, std::mem::size_of_val(r.y)));
        out.push((r.z as *const u16 as usize, std::mem::size_of::<u16>()));
        out.push((r.w as *const usize as usize, std::mem::size_of::<usize>()));
        r.v.parts(out);
        r.u.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <T2 as Pay>::mk(x)); m.x[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <TZ as Pay>::mk(x)); m.y[idx] = p; return; } at += 1;
        if leaf == at { return; } at += 1;
        if leaf == at { return; } at += 1;
        { let k = <W<Array<u16, u8>>>::leaves(); if leaf >= at && leaf < at + k { return <W<Array<u16, u8>>>::set(m.v, leaf - at, idx, x); } at += k; }
        { let k = <SDg>::leaves(); if leaf >= at && leaf < at + k { return <SDg>::set(m.u, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        for (i, p) in m.x.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T2 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.y.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <TZ as Pay>::mk(x)); } at += 1;
        at += 1;
        at += 1;
        <W<Array<u16, u8>>>::set_all(m.v, at, f); at += <W<Array<u16, u8>>>::leaves();
        <SDg>::set_all(m.u, at, f); at += <SDg>::leaves();
    }
}
impl Ctl for SDr {
    const NCTL: usize = 2;
    fn ctl_types() -> Vec<&'static str> { vec!["u16", "usize"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += 1; o.push(at); at += 1; o.push(at); at += 1; at += <W<Array<u16, u8>>>::leaves(); at += <SDg>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(al[0]); q.push(al[1]); q.push(c[0]); q.push(c[1]); q.extend(<W<Array<u16, u8>>>::shapes(&[l])[0].iter()); q.extend(<SDg>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SDr(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_dr::LayoutControllers { z: (c[0] as u16), w: (c[1] as usize) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.z) as u64, *(&self.w) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.z as u64, *m.w as u64] }
}
#[define_varlen]
#[repr(C)]
pub struct SDs {
    pub na: T8,
    pub nb: u32,
    pub nc: T16,
    pub nd: u64,
}
#[repr(C)] struct MirrorSDs { na: T8, nb: u32, nc: T16, nd: u64 }
pub fn lens_SDs(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SDs {
    type Cloner = s_ds::Init<>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ds::Init {
        na: self.na.clone(),
        nb: self.nb.clone(),
        nc: self.nc.clone(),
        nd: self.nd.clone(),
    } }
}
impl Subj for SDs {
    type Direct<'e> = s_ds::Init<>;
    type Clo<'e> = <SDs as VClone<'e>>::Cloner;
    fn name() -> String { "SDs".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<T8 as Pay>::MASK)); out.push(Kind::Fixed(<u32 as Pay>::MASK)); out.push(Kind::Fixed(<T16 as Pay>::MASK)); out.push(Kind::Fixed(<u64 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(<T8 as Pay>::TOK); out.push(<u32 as Pay>::TOK); out.push(<T16 as Pay>::TOK); out.push(<u64 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SDs(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <T8 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <u32 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <T16 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <u64 as Pay>::MASK]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSDs>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSDs>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SDs, na), std::mem::size_of::<T8>())); at += 1;
        out.push((base + std::mem::offset_of!(SDs, nb), std::mem::size_of::<u32>())); at += 1;
        out.push((base + std::mem::offset_of!(SDs, nc), std::mem::size_of::<T16>())); at += 1;
        out.push((base + std::mem::offset_of!(SDs, nd), std::mem::size_of::<u64>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_na = <T8 as Pay>::mk(v[at][0]); at += 1;
        let l_nb = <u32 as Pay>::mk(v[at][0]); at += 1;
        let l_nc = <T16 as Pay>::mk(v[at][0]); at += 1;
        let l_nd = <u64 as Pay>::mk(v[at][0]); at += 1;
        s_ds::Init { na: l_na, nb: l_nb, nc: l_nc, nd: l_nd }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.na.val()]); if !std::ptr::eq(r.na, &self.na) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().na is not the header field".into()); }
        out.push(vec![r.nb.val()]); if !std::ptr::eq(r.nb, &self.nb) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nb is not the header field".into()); }
        out.push(vec![r.nc.val()]); if !std::ptr::eq(r.nc, &self.nc) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nc is not the header field".into()); }
        out.push(vec![r.nd.val()]); if !std::ptr::eq(r.nd, &self.nd) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nd is not the header field".into()); }
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.na as *const T8 as usize, std::mem::size_of::<T8>()));
        out.push((r.nb as *const u32 as usize, std::mem::size_of::<u32>()));
        out.push((r.nc as *const T16 as usize, std::mem::size_of::<T16>()));
        out.push((r.nd as *const u64 as usize, std::mem::size_of::<u64>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); *m.na = p; return; } at += 1;
        if leaf == at { let p = host(|| <u32 as Pay>::mk(x)); *m.nb = p; return; } at += 1;
        if leaf == at { let p = host(|| <T16 as Pay>::mk(x)); *m.nc = p; return; } at += 1;
        if leaf == at { let p = host(|| <u64 as Pay>::mk(x)); *m.nd = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.na.val()); *m.na = host(|| <T8 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.nb.val()); *m.nb = host(|| <u32 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.nc.val()); *m.nc = host(|| <T16 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.nd.val()); *m.nd = host(|| <u64 as Pay>::mk(x)); at += 1; }
    }
}
impl Ctl for SDs {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += 1; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.push(1); q.push(1); q.push(1); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SDs(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ds::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SDt {
    #[controls_layout]
    pub long_c_name_a: bool,
    #[varlen]
    pub long_v_name_b: Array<A64, u8>,
    #[controls_layout]
    pub long_c_name_c: (u8, u8),
    #[varlen]
    pub long_v_name_d: FixedLen<T16>,
    #[varlen_array]
    pub long_a_name_e: [[u8; 3]; long_c_name_c.0 as usize + long_c_name_c.1 as usize],
}
struct MirrorSDt { long_c_name_a: bool, long_c_name_c: (u8, u8) }
pub fn lens_SDt(c: &[usize]) -> [usize; 1] { [(c[1] & 255) + (c[1] >> 8)] }
impl<'e> VClone<'e> for SDt {
    type Cloner = s_dt::Init<<Array<A64, u8> as VClone<'e>>::Cloner, <FixedLen<T16> as VClone<'e>>::Cloner, CloneFrom<'e, [u8; 3]>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_dt::Init {
        long_c_name_a: self.long_c_name_a.clone(),
        long_v_name_b: r.long_v_name_b.vclone(),
        long_c_name_c: self.long_c_name_c.clone(),
        long_v_name_d: r.long_v_name_d.vclone(),
        long_a_name_e: CloneFrom(r.long_a_name_e),
    } }
}
impl Subj for SDt {
    type Direct<'e> = s_dt::Init<AnyInit<'e, Array<A64, u8>>, AnyInit<'e, FixedLen<T16>>, ArrInit<'e, [u8; 3]>>;
    type Clo<'e> = <SDt as VClone<'e>>::Cloner;
    fn name() -> String { "SDt".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); <Array<A64, u8>>::kinds(out); out.push(Kind::Ctl); <FixedLen<T16>>::kinds(out); out.push(Kind::Dep(<[u8; 3] as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); <Array<A64, u8>>::toks(out); out.push(false); <FixedLen<T16>>::toks(out); out.push(<[u8; 3] as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| (l & 1)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        { let mut o: Vec<usize> = ls.iter().map(|&l| ((l & 255) | ((l / 2) & 255) << 8)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SDt(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<A64, u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<T16>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        { let k = <Array<A64, u8>>::leaves(); out.extend(<Array<A64, u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![lens[at] as u64]); at += 1;
        { let k = <FixedLen<T16>>::leaves(); out.extend(<FixedLen<T16>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <[u8; 3] as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSDt>(), <Array<A64, u8>>::r_align(), <FixedLen<T16>>::r_align(), std::mem::align_of::<[u8; 3]>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSDt>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SDt, long_c_name_a), std::mem::size_of::<bool>())); at += 1;
        { let k = <Array<A64, u8>>::leaves(); size = up(size, <Array<A64, u8>>::r_align()); size += <Array<A64, u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SDt, long_c_name_c), std::mem::size_of::<(u8, u8)>())); at += 1;
        { let k = <FixedLen<T16>>::leaves(); size = up(size, <FixedLen<T16>>::r_align()); size += <FixedLen<T16>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size = up(size, std::mem::align_of::<[u8; 3]>()); { let n = lens[at] * std::mem::size_of::<[u8; 3]>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_c_name_a: bool = (v[at][0] != 0); at += 1;
        let l_long_v_name_b = { let k = <Array<A64, u8>>::leaves(); let i = any::<Array<A64, u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_long_c_name_c: (u8, u8) = ((v[at][0] & 255) as u8, (v[at][0] >> 8) as u8); at += 1;
        let l_long_v_name_d = { let k = <FixedLen<T16>>::leaves(); let i = any::<FixedLen<T16>>(&v[at..at + k], ch, env); at += k; i };
        let l_long_a_name_e = arr_init::<[u8; 3]>(&v[at], ch, env); at += 1;
        s_dt::Init { long_c_name_a: l_long_c_name_a, long_v_name_b: l_long_v_name_b, long_c_name_c: l_long_c_name_c, long_v_name_d: l_long_v_name_d, long_a_name_e: l_long_a_name_e }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![(*r.long_c_name_a) as u64]);
        r.long_v_name_b.read(out);
        out.push(vec![(r.long_c_name_c.0 as u64 | (r.long_c_name_c.1 as u64) << 8)]);
        r.long_v_name_d.read(out);
        if r.long_a_name_e.len() > 1 << 20 { crate::fail!("length {} of long_a_name_e is absurd", r.long_a_name_e.len()); } out.push(r.long_a_name_e.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.long_c_name_a as *const bool as usize, std::mem::size_of::<bool>()));
        r.long_v_name_b.parts(out);
        out.push((r.long_c_name_c as *const (u8, u8) as usize, std::mem::size_of::<(u8, u8)>()));
        r.long_v_name_d.parts(out);
        out.push((r.long_a_name_e.as_ptr() as usize, std::mem::size_of_val(r.long_a_name_e)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        { let k = <Array<A64, u8>>::leaves(); if leaf >= at && leaf < at + k { return <Array<A64, u8>>::set(m.long_v_name_b, leaf - at, idx, x); } at += k; }
        if leaf == at { return; } at += 1;
        { let k = <FixedLen<T16>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<T16>>::set(m.long_v_name_d, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <[u8; 3] as Pay>::mk(x)); m.long_a_name_e[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        <Array<A64, u8>>::set_all(m.long_v_name_b, at, f); at += <Array<A64, u8>>::leaves();
        at += 1;
        <FixedLen<T16>>::set_all(m.long_v_name_d, at, f); at += <FixedLen<T16>>::leaves();
        for (i, p) in m.long_a_name_e.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <[u8; 3] as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SDt {
    const NCTL: usize = 2;
    fn ctl_types() -> Vec<&'static str> { vec!["bool", "(u8, u8)"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += <Array<A64, u8>>::leaves(); o.push(at); at += 1; at += <FixedLen<T16>>::leaves(); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.extend(<Array<A64, u8>>::shapes(&[l])[0].iter()); q.push(c[1]); q.extend(<FixedLen<T16>>::shapes(&[l])[0].iter()); q.push(al[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SDt(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_dt::LayoutControllers { long_c_name_a: (c[0] != 0), long_c_name_c: ((c[1] & 255) as u8, (c[1] >> 8) as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![(*(&self.long_c_name_a)) as u64, ((&self.long_c_name_c).0 as u64 | ((&self.long_c_name_c).1 as u64) << 8)] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![(*m.long_c_name_a) as u64, (m.long_c_name_c.0 as u64 | (m.long_c_name_c.1 as u64) << 8)] }
}
#[define_varlen]

pub struct SDu {
    #[varlen_array]
    pub x: [T64; (*v as usize + 1) & 7],
    pub y: T2,
    #[varlen_array]
    pub z: [(); *v as usize],
    pub w: A16,
    #[controls_layout]
    pub v: u32,
}
struct MirrorSDu { y: T2, w: A16, v: u32 }
pub fn lens_SDu(c: &[usize]) -> [usize; 2] { [(c[0] + 1) & 7, c[0]] }
impl<'e> VClone<'e> for SDu {
    type Cloner = s_du::Init<CloneFrom<'e, T64>, CloneFrom<'e, ()>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_du::Init {
        x: CloneFrom(r.x),
        y: self.y.clone(),
        z: CloneFrom(r.z),
        w: self.w.clone(),
        v: self.v.clone(),
    } }
}
impl Subj for SDu {
    type Direct<'e> = s_du::Init<ArrInit<'e, T64>, ArrInit<'e, ()>>;
    type Clo<'e> = <SDu as VClone<'e>>::Cloner;
    fn name() -> String { "SDu".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Dep(<T64 as Pay>::MASK)); out.push(Kind::Fixed(<T2 as Pay>::MASK)); out.push(Kind::Dep(<() as Pay>::MASK)); out.push(Kind::Fixed(<A16 as Pay>::MASK)); out.push(Kind::Ctl); }
    fn toks(out: &mut Vec<bool>) { out.push(<T64 as Pay>::TOK); out.push(<T2 as Pay>::TOK); out.push(<() as Pay>::TOK); out.push(<A16 as Pay>::TOK); out.push(false); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SDu(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T64 as Pay>::MASK).collect()); at += 1;
        out.push(vec![cell(seed, at, 0) & <T2 as Pay>::MASK]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <() as Pay>::MASK).collect()); at += 1;
        out.push(vec![cell(seed, at, 0) & <A16 as Pay>::MASK]); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSDu>(), std::mem::align_of::<T64>(), std::mem::align_of::<()>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSDu>(); let mut at = 0;
        size = up(size, std::mem::align_of::<T64>()); { let n = lens[at] * std::mem::size_of::<T64>(); out.push((base + size, n)); size += n; at += 1; }
        out.push((base + std::mem::offset_of!(SDu, y), std::mem::size_of::<T2>())); at += 1;
        size = up(size, std::mem::align_of::<()>()); { let n = lens[at] * std::mem::size_of::<()>(); out.push((base + size, n)); size += n; at += 1; }
        out.push((base + std::mem::offset_of!(SDu, w), std::mem::size_of::<A16>())); at += 1;
        out.push((base + std::mem::offset_of!(SDu, v), std::mem::size_of::<u32>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x = arr_init::<T64>(&v[at], ch, env); at += 1;
        let l_y = <T2 as Pay>::mk(v[at][0]); at += 1;
        let l_z = arr_init::<()>(&v[at], ch, env); at += 1;
        let l_w = <A16 as Pay>::mk(v[at][0]); at += 1;
        let l_v: u32 = (v[at][0] as u32); at += 1;
        s_du::Init { x: l_x, y: l_y, z: l_z, w: l_w, v: l_v }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        if r.x.len() > 1 << 20 { crate::fail!("length {} of x is absurd", r.x.len()); } out.push(r.x.iter().map(|p| p.val()).collect());
        out.push(vec![r.y.val()]); if !std::ptr::eq(r.y, &self.y) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().y is not the header field".into()); }
        if r.z.len() > 1 << 20 { crate::fail!("length {} of z is absurd", r.z.len()); } out.push(r.z.iter().map(|p| p.val()).collect());
        out.push(vec![r.w.val()]); if !std::ptr::eq(r.w, &self.w) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().w is not the header field".into()); }
        out.push(vec![*r.v as u64]);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.x.as_ptr() as usize, std::mem::size_of_val(r.x)));
        out.push((r.y as *const T2 as usize, std::mem::size_of::<T2>()));
        out.push((r.z.as_ptr() as usize, std::mem::size_of_val(r.z)));
        out.push((r.w as *const A16 as usize, std::mem::size_of::<A16>()));
        out.push((r.v as *const u32 as usize, std::mem::size_of::<u32>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <T64 as Pay>::mk(x)); m.x[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <T2 as Pay>::mk(x)); *m.y = p; return; } at += 1;
        if leaf == at { let p = host(|| <() as Pay>::mk(x)); m.z[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <A16 as Pay>::mk(x)); *m.w = p; return; } at += 1;
        if leaf == at { return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        for (i, p) in m.x.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T64 as Pay>::mk(x)); } at += 1;
        { let x = f(at, 0, m.y.val()); *m.y = host(|| <T2 as Pay>::mk(x)); at += 1; }
        for (i, p) in m.z.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <() as Pay>::mk(x)); } at += 1;
        { let x = f(at, 0, m.w.val()); *m.w = host(|| <A16 as Pay>::mk(x)); at += 1; }
        at += 1;
    }
}
impl Ctl for SDu {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u32"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += 1; at += 1; at += 1; o.push(at); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(al[0]); q.push(1); q.push(al[1]); q.push(1); q.push(c[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SDu(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_du::LayoutControllers { v: (c[0] as u32) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.v) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.v as u64] }
}
#[define_varlen]

pub struct SDv {
    #[controls_layout]
    pub ca: u8,
    #[varlen_array]
    pub ab: [u16; (*ca as usize) / 2],
    #[varlen_array]
    pub ac: [T8; (*ca as usize + 1) & 7],
    #[varlen_array]
    pub ad: [u8; *ca as usize],
    #[varlen_array]
    pub ae: [u64; (*ca as usize) / 2],
    #[varlen_array]
    pub af: [T16; (*ca as usize + 1) & 7],
}
struct MirrorSDv { ca: u8 }
pub fn lens_SDv(c: &[usize]) -> [usize; 5] { [c[0] / 2, (c[0] + 1) & 7, c[0], c[0] / 2, (c[0] + 1) & 7] }
impl<'e> VClone<'e> for SDv {
    type Cloner = s_dv::Init<CloneFrom<'e, u16>, CloneFrom<'e, T8>, CloneFrom<'e, u8>, CloneFrom<'e, u64>, CloneFrom<'e, T16>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_dv::Init {
        ca: self.ca.clone(),
        ab: CloneFrom(r.ab),
        ac: CloneFrom(r.ac),
        ad: CloneFrom(r.ad),
        ae: CloneFrom(r.ae),
        af: CloneFrom(r.af),
    } }
}
impl Subj for SDv {
    type Direct<'e> = s_dv::Init<ArrInit<'e, u16>, ArrInit<'e, T8>, ArrInit<'e, u8>, ArrInit<'e, u64>, ArrInit<'e, T16>>;
    type Clo<'e> = <SDv as VClone<'e>>::Cloner;
    fn name() -> String { "SDv".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Dep(<u16 as Pay>::MASK)); out.push(Kind::Dep(<T8 as Pay>::MASK)); out.push(Kind::Dep(<u8 as Pay>::MASK)); out.push(Kind::Dep(<u64 as Pay>::MASK)); out.push(Kind::Dep(<T16 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(<u16 as Pay>::TOK); out.push(<T8 as Pay>::TOK); out.push(<u8 as Pay>::TOK); out.push(<u64 as Pay>::TOK); out.push(<T16 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SDv(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[2]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[3]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[4]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u16 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T8 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u8 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u64 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T16 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSDv>(), std::mem::align_of::<u16>(), std::mem::align_of::<T8>(), std::mem::align_of::<u8>(), std::mem::align_of::<u64>(), std::mem::align_of::<T16>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSDv>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SDv, ca), std::mem::size_of::<u8>())); at += 1;
        size = up(size, std::mem::align_of::<u16>()); { let n = lens[at] * std::mem::size_of::<u16>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<T8>()); { let n = lens[at] * std::mem::size_of::<T8>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<u8>()); { let n = lens[at] * std::mem::size_of::<u8>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<u64>()); { let n = lens[at] * std::mem::size_of::<u64>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<T16>()); { let n = lens[at] * std::mem::size_of::<T16>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_ca: u8 = (v[at][0] as u8); at += 1;
        let l_ab = arr_init::<u16>(&v[at], ch, env); at += 1;
        let l_ac = arr_init::<T8>(&v[at], ch, env); at += 1;
        let l_ad = arr_init::<u8>(&v[at], ch, env); at += 1;
        let l_ae = arr_init::<u64>(&v[at], ch, env); at += 1;
        let l_af = arr_init::<T16>(&v[at], ch, env); at += 1;
        s_dv::Init { ca: l_ca, ab: l_ab, ac: l_ac, ad: l_ad, ae: l_ae, af: l_af }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.ca as u64]);
        if r.ab.len() > 1 << 20 { crate::fail!("length {} of ab is absurd", r.ab.len()); } out.push(r.ab.iter().map(|p| p.val()).collect());
        if r.ac.len() > 1 << 20 { crate::fail!("length {} of ac is absurd", r.ac.len()); } out.push(r.ac.iter().map(|p| p.val()).collect());
        if r.ad.len() > 1 << 20 { crate::fail!("length {} of ad is absurd", r.ad.len()); } out.push(r.ad.iter().map(|p| p.val()).collect());
        if r.ae.len() > 1 << 20 { crate::fail!("length {} of ae is absurd", r.ae.len()); } out.push(r.ae.iter().map(|p| p.val()).collect());
        if r.af.len() > 1 << 20 { crate::fail!("length {} of af is absurd", r.af.len()); } out.push(r.af.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.ca as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.ab.as_ptr() as usize, std::mem::size_of_val(r.ab)));
        out.push((r.ac.as_ptr() as usize, std::mem::size_of_val(r.ac)));
        out.push((r.ad.as_ptr() as usize, std::mem::size_of_val(r.ad)));
        out.push((r.ae.as_ptr() as usize, std::mem::size_of_val(r.ae)));
        out.push((r.af.as_ptr() as usize, std::mem::size_of_val(r.af)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <u16 as Pay>::mk(x)); m.ab[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); m.ac[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); m.ad[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u64 as Pay>::mk(x)); m.ae[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <T16 as Pay>::mk(x)); m.af[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        for (i, p) in m.ab.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u16 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ac.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T8 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ad.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u8 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ae.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u64 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.af.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T16 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SDv {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u8"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; at += 1; at += 1; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(al[0]); q.push(al[1]); q.push(al[2]); q.push(al[3]); q.push(al[4]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SDv(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_dv::LayoutControllers { ca: (c[0] as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.ca) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.ca as u64] }
}
#[define_varlen]
#[repr(C)]
pub struct SDw {
    #[varlen]
    pub long_v_name_a: Str<u16>,
    #[varlen]
    pub long_v_name_b: Array<T12, u32>,
    #[varlen]
    pub long_v_name_c: Str<u8>,
    #[varlen]
    pub long_v_name_d: Array<T8, u16>,
    #[varlen]
    pub long_v_name_e: FixedLen<u64>,
    #[varlen]
    pub long_v_name_f: Array<u64, u8>,
}
#[repr(C)] struct MirrorSDw {  }
pub fn lens_SDw(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SDw {
    type Cloner = s_dw::Init<<Str<u16> as VClone<'e>>::Cloner, <Array<T12, u32> as VClone<'e>>::Cloner, <Str<u8> as VClone<'e>>::Cloner, <Array<T8, u16> as VClone<'e>>::Cloner, <FixedLen<u64> as VClone<'e>>::Cloner, <Array<u64, u8> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_dw::Init {
        long_v_name_a: r.long_v_name_a.vclone(),
        long_v_name_b: r.long_v_name_b.vclone(),
        long_v_name_c: r.long_v_name_c.vclone(),
        long_v_name_d: r.long_v_name_d.vclone(),
        long_v_name_e: r.long_v_name_e.vclone(),
        long_v_name_f: r.long_v_name_f.vclone(),
    } }
}
impl Subj for SDw {
    type Direct<'e> = s_dw::Init<AnyInit<'e, Str<u16>>, AnyInit<'e, Array<T12, u32>>, AnyInit<'e, Str<u8>>, AnyInit<'e, Array<T8, u16>>, AnyInit<'e, FixedLen<u64>>, AnyInit<'e, Array<u64, u8>>>;
    type Clo<'e> = <SDw as VClone<'e>>::Cloner;
    fn name() -> String { "SDw".into() }
    fn kinds(out: &mut Vec<Kind>) { <Str<u16>>::kinds(out); <Array<T12, u32>>::kinds(out); <Str<u8>>::kinds(out); <Array<T8, u16>>::kinds(out); <FixedLen<u64>>::kinds(out); <Array<u64, u8>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { <Str<u16>>::toks(out); <Array<T12, u32>>::toks(out); <Str<u8>>::toks(out); <Array<T8, u16>>::toks(out); <FixedLen<u64>>::toks(out); <Array<u64, u8>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SDw(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <Str<u16>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<T12, u32>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Str<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<T8, u16>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<u64>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<u64, u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <Str<u16>>::leaves(); out.extend(<Str<u16>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <Array<T12, u32>>::leaves(); out.extend(<Array<T12, u32>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <Str<u8>>::leaves(); out.extend(<Str<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <Array<T8, u16>>::leaves(); out.extend(<Array<T8, u16>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <FixedLen<u64>>::leaves(); out.extend(<FixedLen<u64>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <Array<u64, u8>>::leaves(); out.extend(<Array<u64, u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSDw>(), <Str<u16>>::r_align(), <Array<T12, u32>>::r_align(), <Str<u8>>::r_align(), <Array<T8, u16>>::r_align(), <FixedLen<u64>>::r_align(), <Array<u64, u8>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSDw>(); let mut at = 0;
        { let k = <Str<u16>>::leaves(); size = up(size, <Str<u16>>::r_align()); size += <Str<u16>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <Array<T12, u32>>::leaves(); size = up(size, <Array<T12, u32>>::r_align()); size += <Array<T12, u32>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <Str<u8>>::leaves(); size = up(size, <Str<u8>>::r_align()); size += <Str<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <Array<T8, u16>>::leaves(); size = up(size, <Array<T8, u16>>::r_align()); size += <Array<T8, u16>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <FixedLen<u64>>::leaves(); size = up(size, <FixedLen<u64>>::r_align()); size += <FixedLen<u64>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <Array<u64, u8>>::leaves(); size = up(size, <Array<u64, u8>>::r_align()); size += <Array<u64, u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_v_name_a = { let k = <Str<u16>>::leaves(); let i = any::<Str<u16>>(&v[at..at + k], ch, env); at += k; i };
        let l_long_v_name_b = { let k = <Array<T12, u32>>::leaves(); let i = any::<Array<T12, u32>>(&v[at..at + k], ch, env); at += k; i };
        let l_long_v_name_c = { let k = <Str<u8>>::leaves(); let i = any::<Str<u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_long_v_name_d = { let k = <Array<T8, u16>>::leaves(); let i = any::<Array<T8, u16>>(&v[at..at + k], ch, env); at += k; i };
        let l_long_v_name_e = { let k = <FixedLen<u64>>::leaves(); let i = any::<FixedLen<u64>>(&v[at..at + k], ch, env); at += k; i };
        let l_long_v_name_f = { let k = <Array<u64, u8>>::leaves(); let i = any::<Array<u64, u8>>(&v[at..at + k], ch, env); at += k; i };
        s_dw::Init { long_v_name_a: l_long_v_name_a, long_v_name_b: l_long_v_name_b, long_v_name_c: l_long_v_name_c, long_v_name_d: l_long_v_name_d, long_v_name_e: l_long_v_name_e, long_v_name_f: l_long_v_name_f }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.long_v_name_a.read(out);
        r.long_v_name_b.read(out);
        r.long_v_name_c.read(out);
        r.long_v_name_d.read(out);
        r.long_v_name_e.read(out);
        r.long_v_name_f.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.long_v_name_a.parts(out);
        r.long_v_name_b.parts(out);
        r.long_v_name_c.parts(out);
        r.long_v_name_d.parts(out);
        r.long_v_name_e.parts(out);
        r.long_v_name_f.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <Str<u16>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u16>>::set(m.long_v_name_a, leaf - at, idx, x); } at += k; }
        { let k = <Array<T12, u32>>::leaves(); if leaf >= at && leaf < at + k { return <Array<T12, u32>>::set(m.long_v_name_b, leaf - at, idx, x); } at += k; }
        { let k = <Str<u8>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u8>>::set(m.long_v_name_c, leaf - at, idx, x); } at += k; }
        { let k = <Array<T8, u16>>::leaves(); if leaf >= at && leaf < at + k { return <Array<T8, u16>>::set(m.long_v_name_d, leaf - at, idx, x); } at += k; }
        { let k = <FixedLen<u64>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<u64>>::set(m.long_v_name_e, leaf - at, idx, x); } at += k; }
        { let k = <Array<u64, u8>>::leaves(); if leaf >= at && leaf < at + k { return <Array<u64, u8>>::set(m.long_v_name_f, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <Str<u16>>::set_all(m.long_v_name_a, at, f); at += <Str<u16>>::leaves();
        <Array<T12, u32>>::set_all(m.long_v_name_b, at, f); at += <Array<T12, u32>>::leaves();
        <Str<u8>>::set_all(m.long_v_name_c, at, f); at += <Str<u8>>::leaves();
        <Array<T8, u16>>::set_all(m.long_v_name_d, at, f); at += <Array<T8, u16>>::leaves();
        <FixedLen<u64>>::set_all(m.long_v_name_e, at, f); at += <FixedLen<u64>>::leaves();
        <Array<u64, u8>>::set_all(m.long_v_name_f, at, f); at += <Array<u64, u8>>::leaves();
    }
}
impl Ctl for SDw {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <Str<u16>>::leaves(); at += <Array<T12, u32>>::leaves(); at += <Str<u8>>::leaves(); at += <Array<T8, u16>>::leaves(); at += <FixedLen<u64>>::leaves(); at += <Array<u64, u8>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<Str<u16>>::shapes(&[l])[0].iter()); q.extend(<Array<T12, u32>>::shapes(&[l])[0].iter()); q.extend(<Str<u8>>::shapes(&[l])[0].iter()); q.extend(<Array<T8, u16>>::shapes(&[l])[0].iter()); q.extend(<FixedLen<u64>>::shapes(&[l])[0].iter()); q.extend(<Array<u64, u8>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SDw(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_dw::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SDx {
    #[controls_layout]
    pub x: u16,
    #[controls_layout]
    pub y: usize,
    #[controls_layout]
    pub z: bool,
    #[varlen_array]
    pub w: [A64; *x as usize],
    #[varlen_array]
    pub v: [T2; (*x as usize) / 2],
    #[varlen_array]
    pub u: [TZ; (*x as usize + 1) & 7],
}
struct MirrorSDx { x: u16, y: usize, z: bool }
pub fn lens_SDx(c: &[usize]) -> [usize; 3] { [c[0], c[0] / 2, (c[0] + 1) & 7] }
impl<'e> VClone<'e> for SDx {
    type Cloner = s_dx::Init<CloneFrom<'e, A64>, CloneFrom<'e, T2>, CloneFrom<'e, TZ>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_dx::Init {
        x: self.x.clone(),
        y: self.y.clone(),
        z: self.z.clone(),
        w: CloneFrom(r.w),
        v: CloneFrom(r.v),
        u: CloneFrom(r.u),
    } }
}
impl Subj for SDx {
    type Direct<'e> = s_dx::Init<ArrInit<'e, A64>, ArrInit<'e, T2>, ArrInit<'e, TZ>>;
    type Clo<'e> = <SDx as VClone<'e>>::Cloner;
    fn name() -> String { "SDx".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Ctl); out.push(Kind::Ctl); out.push(Kind::Dep(<A64 as Pay>::MASK)); out.push(Kind::Dep(<T2 as Pay>::MASK)); out.push(Kind::Dep(<TZ as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(false); out.push(false); out.push(<A64 as Pay>::TOK); out.push(<T2 as Pay>::TOK); out.push(<TZ as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(65535)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        { let mut o: Vec<usize> = ls.iter().map(|&l| l).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        { let mut o: Vec<usize> = ls.iter().map(|&l| (l & 1)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SDx(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[2]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[2]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <A64 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T2 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <TZ as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSDx>(), std::mem::align_of::<A64>(), std::mem::align_of::<T2>(), std::mem::align_of::<TZ>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSDx>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SDx, x), std::mem::size_of::<u16>())); at += 1;
        out.push((base + std::mem::offset_of!(SDx, y), std::mem::size_of::<usize>())); at += 1;
        out.push((base + std::mem::offset_of!(SDx, z), std::mem::size_of::<bool>())); at += 1;
        size = up(size, std::mem::align_of::<A64>()); { let n = lens[at] * std::mem::size_of::<A64>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<T2>()); { let n = lens[at] * std::mem::size_of::<T2>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<TZ>()); { let n = lens[at] * std::mem::size_of::<TZ>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x: u16 = (v[at][0] as u16); at += 1;
        let l_y: usize = (v[at][0] as usize); at += 1;
        let l_z: bool = (v[at][0] != 0); at += 1;
        let l_w = arr_init::<A64>(&v[at], ch, env); at += 1;
        let l_v = arr_init::<T2>(&v[at], ch, env); at += 1;
        let l_u = arr_init::<TZ>(&v[at], ch, env); at += 1;
        s_dx::Init { x: l_x, y: l_y, z: l_z, w: l_w, v: l_v, u: l_u }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.x as u64]);
        out.push(vec![*r.y as u64]);
        out.push(vec![(*r.z) as u64]);
        if r.w.len() > 1 << 20 { crate::fail!("length {} of w is absurd", r.w.len()); } out.push(r.w.iter().map(|p| p.val()).collect());
        if r.v.len() > 1 << 20 { crate::fail!("length {} of v is absurd", r.v.len()); } out.push(r.v.iter().map(|p| p.val()).collect());
        if r.u.len() > 1 << 20 { crate::fail!("length {} of u is absurd", r.u.len()); } out.push(r.u.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.x as *const u16 as usize, std::mem::size_of::<u16>()));
        out.push((r.y as *const usize as usize, std::mem::size_of::<usize>()));
        out.push((r.z as *const bool as usize, std::mem::size_of::<bool>()));
        out.push((r.w.as_ptr() as usize, std::mem::size_of_val(r.w)));
        out.push((r.v.as_ptr() as usize, std::mem::size_of_val(r.v)));
        out.push((r.u.as_ptr() as usize, std::mem::size_of_val(r.u)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { return; } at += 1;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <A64 as Pay>::mk(x)); m.w[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <T2 as Pay>::mk(x)); m.v[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <TZ as Pay>::mk(x)); m.u[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        at += 1;
        at += 1;
        for (i, p) in m.w.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <A64 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.v.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T2 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.u.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <TZ as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SDx {
    const NCTL: usize = 3;
    fn ctl_types() -> Vec<&'static str> { vec!["u16", "usize", "bool"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; o.push(at); at += 1; o.push(at); at += 1; at += 1; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(c[1]); q.push(c[2]); q.push(al[0]); q.push(al[1]); q.push(al[2]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SDx(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_dx::LayoutControllers { x: (c[0] as u16), y: (c[1] as usize), z: (c[2] != 0) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.x) as u64, *(&self.y) as u64, (*(&self.z)) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.x as u64, *m.y as u64, (*m.z) as u64] }
}
#[define_varlen]

pub struct SDy {
    pub na: [u8; 3],
    #[varlen_array]
    pub ab: [[u8; 3]; *cg as usize],
    #[controls_layout]
    pub cc: (u8, u8),
    #[varlen]
    pub vd: Tup2<FixedLen<u8>, Str<u8>>,
    pub ne: T12,
    #[varlen_array]
    pub af: [T64; (*cg as usize) / 2],
    #[controls_layout]
    pub cg: u32,
    #[varlen]
    pub vh: W<Array<u16, u8>>,
}
struct MirrorSDy { na: [u8; 3], cc: (u8, u8), ne: T12, cg: u32 }
pub fn lens_SDy(c: &[usize]) -> [usize; 2] { [c[1], c[1] / 2] }
impl<'e> VClone<'e> for SDy {
    type Cloner = s_dy::Init<CloneFrom<'e, [u8; 3]>, <Tup2<FixedLen<u8>, Str<u8>> as VClone<'e>>::Cloner, CloneFrom<'e, T64>, <W<Array<u16, u8>> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_dy::Init {
        na: self.na.clone(),
        ab: CloneFrom(r.ab),
        cc: self.cc.clone(),
        vd: r.vd.vclone(),
        ne: self.ne.clone(),
        af: CloneFrom(r.af),
        cg: self.cg.clone(),
        vh: r.vh.vclone(),
    } }
}
impl Subj for SDy {
    type Direct<'e> = s_dy::Init<ArrInit<'e, [u8; 3]>, AnyInit<'e, Tup2<FixedLen<u8>, Str<u8>>>, ArrInit<'e, T64>, AnyInit<'e, W<Array<u16, u8>>>>;
    type Clo<'e> = <SDy as VClone<'e>>::Cloner;
    fn name() -> String { "SDy".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<[u8; 3] as Pay>::MASK)); out.push(Kind::Dep(<[u8; 3] as Pay>::MASK)); out.push(Kind::Ctl); <Tup2<FixedLen<u8>, Str<u8>>>::kinds(out); out.push(Kind::Fixed(<T12 as Pay>::MASK)); out.push(Kind::Dep(<T64 as Pay>::MASK)); out.push(Kind::Ctl); <W<Array<u16, u8>>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { out.push(<[u8; 3] as Pay>::TOK); out.push(<[u8; 3] as Pay>::TOK); out.push(false); <Tup2<FixedLen<u8>, Str<u8>>>::toks(out); out.push(<T12 as Pay>::TOK); out.push(<T64 as Pay>::TOK); out.push(false); <W<Array<u16, u8>>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| ((l & 255) | ((l / 2) & 255) << 8)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        { let mut o: Vec<usize> = ls.iter().map(|&l| l).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SDy(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Tup2<FixedLen<u8>, Str<u8>>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <W<Array<u16, u8>>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <[u8; 3] as Pay>::MASK]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <[u8; 3] as Pay>::MASK).collect()); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); out.extend(<Tup2<FixedLen<u8>, Str<u8>>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![cell(seed, at, 0) & <T12 as Pay>::MASK]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T64 as Pay>::MASK).collect()); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        { let k = <W<Array<u16, u8>>>::leaves(); out.extend(<W<Array<u16, u8>>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSDy>(), std::mem::align_of::<[u8; 3]>(), <Tup2<FixedLen<u8>, Str<u8>>>::r_align(), std::mem::align_of::<T64>(), <W<Array<u16, u8>>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSDy>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SDy, na), std::mem::size_of::<[u8; 3]>())); at += 1;
        size = up(size, std::mem::align_of::<[u8; 3]>()); { let n = lens[at] * std::mem::size_of::<[u8; 3]>(); out.push((base + size, n)); size += n; at += 1; }
        out.push((base + std::mem::offset_of!(SDy, cc), std::mem::size_of::<(u8, u8)>())); at += 1;
        { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); size = up(size, <Tup2<FixedLen<u8>, Str<u8>>>::r_align()); size += <Tup2<FixedLen<u8>, Str<u8>>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SDy, ne), std::mem::size_of::<T12>())); at += 1;
        size = up(size, std::mem::align_of::<T64>()); { let n = lens[at] * std::mem::size_of::<T64>(); out.push((base + size, n)); size += n; at += 1; }
        out.push((base + std::mem::offset_of!(SDy, cg), std::mem::size_of::<u32>())); at += 1;
        { let k = <W<Array<u16, u8>>>::leaves(); size = up(size, <W<Array<u16, u8>>>::r_align()); size += <W<Array<u16, u8>>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_na = <[u8; 3] as Pay>::mk(v[at][0]); at += 1;
        let l_ab = arr_init::<[u8; 3]>(&v[at], ch, env); at += 1;
        let l_cc: (u8, u8) = ((v[at][0] & 255) as u8, (v[at][0] >> 8) as u8); at += 1;
        let l_vd = { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); let i = any::<Tup2<FixedLen<u8>, Str<u8>>>(&v[at..at + k], ch, env); at += k; i };
        let l_ne = <T12 as Pay>::mk(v[at][0]); at += 1;
        let l_af = arr_init::<T64>(&v[at], ch, env); at += 1;
        let l_cg: u32 = (v[at][0] as u32); at += 1;
        let l_vh = { let k = <W<Array<u16, u8>>>::leaves(); let i = any::<W<Array<u16, u8>>>(&v[at..at + k], ch, env); at += k; i };
        s_dy::Init { na: l_na, ab: l_ab, cc: l_cc, vd: l_vd, ne: l_ne, af: l_af, cg: l_cg, vh: l_vh }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.na.val()]); if !std::ptr::eq(r.na, &self.na) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().na is not the header field".into()); }
        if r.ab.len() > 1 << 20 { crate::fail!("length {} of ab is absurd", r.ab.len()); } out.push(r.ab.iter().map(|p| p.val()).collect());
        out.push(vec![(r.cc.0 as u64 | (r.cc.1 as u64) << 8)]);
        r.vd.read(out);
        out.push(vec![r.ne.val()]); if !std::ptr::eq(r.ne, &self.ne) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().ne is not the header field".into()); }
        if r.af.len() > 1 << 20 { crate::fail!("length {} of af is absurd", r.af.len()); } out.push(r.af.iter().map(|p| p.val()).collect());
        out.push(vec![*r.cg as u64]);
        r.vh.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.na as *const [u8; 3] as usize, std::mem::size_of::<[u8; 3]>()));
        out.push((r.ab.as_ptr() as usize, std::mem::size_of_val(r.ab)));
        out.push((r.cc as *const (u8, u8) as usize, std::mem::size_of::<(u8, u8)>()));
        r.vd.parts(out);
        out.push((r.ne as *const T12 as usize, std::mem::size_of::<T12>()));
        out.push((r.af.as_ptr() as usize, std::mem::size_of_val(r.af)));
        out.push((r.cg as *const u32 as usize, std::mem::size_of::<u32>()));
        r.vh.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <[u8; 3] as Pay>::mk(x)); *m.na = p; return; } at += 1;
        if leaf == at { let p = host(|| <[u8; 3] as Pay>::mk(x)); m.ab[idx] = p; return; } at += 1;
        if leaf == at { return; } at += 1;
        { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); if leaf >= at && leaf < at + k { return <Tup2<FixedLen<u8>, Str<u8>>>::set(m.vd, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <T12 as Pay>::mk(x)); *m.ne = p; return; } at += 1;
        if leaf == at { let p = host(|| <T64 as Pay>::mk(x)); m.af[idx] = p; return; } at += 1;
        if leaf == at { return; } at += 1;
        { let k = <W<Array<u16, u8>>>::leaves(); if leaf >= at && leaf < at + k { return <W<Array<u16, u8>>>::set(m.vh, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.na.val()); *m.na = host(|| <[u8; 3] as Pay>::mk(x)); at += 1; }
        for (i, p) in m.ab.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <[u8; 3] as Pay>::mk(x)); } at += 1;
        at += 1;
        <Tup2<FixedLen<u8>, Str<u8>>>::set_all(m.vd, at, f); at += <Tup2<FixedLen<u8>, Str<u8>>>::leaves();
        { let x = f(at, 0, m.ne.val()); *m.ne = host(|| <T12 as Pay>::mk(x)); at += 1; }
        for (i, p) in m.af.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T64 as Pay>::mk(x)); } at += 1;
        at += 1;
        <W<Array<u16, u8>>>::set_all(m.vh, at, f); at += <W<Array<u16, u8>>>::leaves();
    }
}
impl Ctl for SDy {
    const NCTL: usize = 2;
    fn ctl_types() -> Vec<&'static str> { vec!["(u8, u8)", "u32"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += 1; o.push(at); at += 1; at += <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); at += 1; at += 1; o.push(at); at += 1; at += <W<Array<u16, u8>>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.push(al[0]); q.push(c[0]); q.extend(<Tup2<FixedLen<u8>, Str<u8>>>::shapes(&[l])[0].iter()); q.push(1); q.push(al[1]); q.push(c[1]); q.extend(<W<Array<u16, u8>>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SDy(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_dy::LayoutControllers { cc: ((c[0] & 255) as u8, (c[0] >> 8) as u8), cg: (c[1] as u32) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![((&self.cc).0 as u64 | ((&self.cc).1 as u64) << 8), *(&self.cg) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![(m.cc.0 as u64 | (m.cc.1 as u64) << 8), *m.cg as u64] }
}
#[define_varlen]

pub struct SDz {
    #[varlen]
    pub long_v_name_a: SDp,
    #[varlen_array]
    pub long_a_name_b: [(); *long_c_name_f as usize],
    #[varlen]
    pub long_v_name_c: Array<A64, u8>,
    #[varlen_array]
    pub long_a_name_d: [u16; (*long_c_name_f as usize) / 2],
    #[varlen]
    pub long_v_name_e: FixedLen<T16>,
    #[controls_layout]
    pub long_c_name_f: u8,
}
struct MirrorSDz { long_c_name_f: u8 }
pub fn lens_SDz(c: &[usize]) -> [usize; 2] { [c[0], c[0] / 2] }
impl<'e> VClone<'e> for SDz {
    type Cloner = s_dz::Init<<SDp as VClone<'e>>::Cloner, CloneFrom<'e, ()>, <Array<A64, u8> as VClone<'e>>::Cloner, CloneFrom<'e, u16>, <FixedLen<T16> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_dz::Init {
        long_v_name_a: r.long_v_name_a.vclone(),
        long_a_name_b: CloneFrom(r.long_a_name_b),
        long_v_name_c: r.long_v_name_c.vclone(),
        long_a_name_d: CloneFrom(r.long_a_name_d),
        long_v_name_e: r.long_v_name_e.vclone(),
        long_c_name_f: self.long_c_name_f.clone(),
    } }
}
impl Subj for SDz {
    type Direct<'e> = s_dz::Init<AnyInit<'e, SDp>, ArrInit<'e, ()>, AnyInit<'e, Array<A64, u8>>, ArrInit<'e, u16>, AnyInit<'e, FixedLen<T16>>>;
    type Clo<'e> = <SDz as VClone<'e>>::Cloner;
    fn name() -> String { "SDz".into() }
    fn kinds(out: &mut Vec<Kind>) { <SDp>::kinds(out); out.push(Kind::Dep(<() as Pay>::MASK)); <Array<A64, u8>>::kinds(out); out.push(Kind::Dep(<u16 as Pay>::MASK)); <FixedLen<T16>>::kinds(out); out.push(Kind::Ctl); }
    fn toks(out: &mut Vec<bool>) { <SDp>::toks(out); out.push(<() as Pay>::TOK); <Array<A64, u8>>::toks(out); out.push(<u16 as Pay>::TOK); <FixedLen<T16>>::toks(out); out.push(false); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SDz(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <SDp>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<A64, u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<T16>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <SDp>::leaves(); out.extend(<SDp>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <() as Pay>::MASK).collect()); at += 1;
        { let k = <Array<A64, u8>>::leaves(); out.extend(<Array<A64, u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u16 as Pay>::MASK).collect()); at += 1;
        { let k = <FixedLen<T16>>::leaves(); out.extend(<FixedLen<T16>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![lens[at] as u64]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSDz>(), <SDp>::r_align(), std::mem::align_of::<()>(), <Array<A64, u8>>::r_align(), std::mem::align_of::<u16>(), <FixedLen<T16>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSDz>(); let mut at = 0;
        { let k = <SDp>::leaves(); size = up(size, <SDp>::r_align()); size += <SDp>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size = up(size, std::mem::align_of::<()>()); { let n = lens[at] * std::mem::size_of::<()>(); out.push((base + size, n)); size += n; at += 1; }
        { let k = <Array<A64, u8>>::leaves(); size = up(size, <Array<A64, u8>>::r_align()); size += <Array<A64, u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size = up(size, std::mem::align_of::<u16>()); { let n = lens[at] * std::mem::size_of::<u16>(); out.push((base + size, n)); size += n; at += 1; }
        { let k = <FixedLen<T16>>::leaves(); size = up(size, <FixedLen<T16>>::r_align()); size += <FixedLen<T16>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SDz, long_c_name_f), std::mem::size_of::<u8>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_v_name_a = { let k = <SDp>::leaves(); let i = any::<SDp>(&v[at..at + k], ch, env); at += k; i };
        let l_long_a_name_b = arr_init::<()>(&v[at], ch, env); at += 1;
        let l_long_v_name_c = { let k = <Array<A64, u8>>::leaves(); let i = any::<Array<A64, u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_long_a_name_d = arr_init::<u16>(&v[at], ch, env); at += 1;
        let l_long_v_name_e = { let k = <FixedLen<T16>>::leaves(); let i = any::<FixedLen<T16>>(&v[at..at + k], ch, env); at += k; i };
        let l_long_c_name_f: u8 = (v[at][0] as u8); at += 1;
        s_dz::Init { long_v_name_a: l_long_v_name_a, long_a_name_b: l_long_a_name_b, long_v_name_c: l_long_v_name_c, long_a_name_d: l_long_a_name_d, long_v_name_e: l_long_v_name_e, long_c_name_f: l_long_c_name_f }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.long_v_name_a.read(out);
        if r.long_a_name_b.len() > 1 << 20 { crate::fail!("length {} of long_a_name_b is absurd", r.long_a_name_b.len()); } out.push(r.long_a_name_b.iter().map(|p| p.val()).collect());
        r.long_v_name_c.read(out);
        if r.long_a_name_d.len() > 1 << 20 { crate::fail!("length {} of long_a_name_d is absurd", r.long_a_name_d.len()); } out.push(r.long_a_name_d.iter().map(|p| p.val()).collect());
        r.long_v_name_e.read(out);
        out.push(vec![*r.long_c_name_f as u64]);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.long_v_name_a.parts(out);
        out.push((r.long_a_name_b.as_ptr() as usize, std::mem::size_of_val(r.long_a_name_b)));
        r.long_v_name_c.parts(out);
        out.push((r.long_a_name_d.as_ptr() as usize, std::mem::size_of_val(r.long_a_name_d)));
        r.long_v_name_e.parts(out);
        out.push((r.long_c_name_f as *const u8 as usize, std::mem::size_of::<u8>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <SDp>::leaves(); if leaf >= at && leaf < at + k { return <SDp>::set(m.long_v_name_a, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <() as Pay>::mk(x)); m.long_a_name_b[idx] = p; return; } at += 1;
        { let k = <Array<A64, u8>>::leaves(); if leaf >= at && leaf < at + k { return <Array<A64, u8>>::set(m.long_v_name_c, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <u16 as Pay>::mk(x)); m.long_a_name_d[idx] = p; return; } at += 1;
        { let k = <FixedLen<T16>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<T16>>::set(m.long_v_name_e, leaf - at, idx, x); } at += k; }
        if leaf == at { return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <SDp>::set_all(m.long_v_name_a, at, f); at += <SDp>::leaves();
        for (i, p) in m.long_a_name_b.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <() as Pay>::mk(x)); } at += 1;
        <Array<A64, u8>>::set_all(m.long_v_name_c, at, f); at += <Array<A64, u8>>::leaves();
        for (i, p) in m.long_a_name_d.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u16 as Pay>::mk(x)); } at += 1;
        <FixedLen<T16>>::set_all(m.long_v_name_e, at, f); at += <FixedLen<T16>>::leaves();
        at += 1;
    }
}
impl Ctl for SDz {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u8"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <SDp>::leaves(); at += 1; at += <Array<A64, u8>>::leaves(); at += 1; at += <FixedLen<T16>>::leaves(); o.push(at); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<SDp>::shapes(&[l])[0].iter()); q.push(al[0]); q.extend(<Array<A64, u8>>::shapes(&[l])[0].iter()); q.push(al[1]); q.extend(<FixedLen<T16>>::shapes(&[l])[0].iter()); q.push(c[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SDz(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_dz::LayoutControllers { long_c_name_f: (c[0] as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.long_c_name_f) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.long_c_name_f as u64] }
}
#[define_varlen]

pub struct SEa {
    #[controls_layout]
    pub ca: u8,
    #[varlen_array]
    pub ab: [u8; *ca as usize],
    #[varlen_array]
    pub ac: [u16; *ca as usize],
    #[varlen_array]
    pub ad: [u32; *ca as usize],
    #[varlen_array]
    pub ae: [u64; *ca as usize],
}
struct MirrorSEa { ca: u8 }
pub fn lens_SEa(c: &[usize]) -> [usize; 4] { [c[0], c[0], c[0], c[0]] }
impl<'e> VClone<'e> for SEa {
    type Cloner = s_ea::Init<CloneFrom<'e, u8>, CloneFrom<'e, u16>, CloneFrom<'e, u32>, CloneFrom<'e, u64>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ea::Init {
        ca: self.ca.clone(),
        ab: CloneFrom(r.ab),
        ac: CloneFrom(r.ac),
        ad: CloneFrom(r.ad),
        ae: CloneFrom(r.ae),
    } }
}
impl Subj for SEa {
    type Direct<'e> = s_ea::Init<ArrInit<'e, u8>, ArrInit<'e, u16>, ArrInit<'e, u32>, ArrInit<'e, u64>>;
    type Clo<'e> = <SEa as VClone<'e>>::Cloner;
    fn name() -> String { "SEa".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Dep(<u8 as Pay>::MASK)); out.push(Kind::Dep(<u16 as Pay>::MASK)); out.push(Kind::Dep(<u32 as Pay>::MASK)); out.push(Kind::Dep(<u64 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(<u8 as Pay>::TOK); out.push(<u16 as Pay>::TOK); out.push(<u32 as Pay>::TOK); out.push(<u64 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SEa(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[2]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[3]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u8 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u16 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u32 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u64 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSEa>(), std::mem::align_of::<u8>(), std::mem::align_of::<u16>(), std::mem::align_of::<u32>(), std::mem::align_of::<u64>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSEa>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SEa, ca), std::mem::size_of::<u8>())); at += 1;
        size = up(size, std::mem::align_of::<u8>()); { let n = lens[at] * std::mem::size_of::<u8>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<u16>()); { let n = lens[at] * std::mem::size_of::<u16>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<u32>()); { let n = lens[at] * std::mem::size_of::<u32>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<u64>()); { let n = lens[at] * std::mem::size_of::<u64>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_ca: u8 = (v[at][0] as u8); at += 1;
        let l_ab = arr_init::<u8>(&v[at], ch, env); at += 1;
        let l_ac = arr_init::<u16>(&v[at], ch, env); at += 1;
        let l_ad = arr_init::<u32>(&v[at], ch, env); at += 1;
        let l_ae = arr_init::<u64>(&v[at], ch, env); at += 1;
        s_ea::Init { ca: l_ca, ab: l_ab, ac: l_ac, ad: l_ad, ae: l_ae }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.ca as u64]);
        if r.ab.len() > 1 << 20 { crate::fail!("length {} of ab is absurd", r.ab.len()); } out.push(r.ab.iter().map(|p| p.val()).collect());
        if r.ac.len() > 1 << 20 { crate::fail!("length {} of ac is absurd", r.ac.len()); } out.push(r.ac.iter().map(|p| p.val()).collect());
        if r.ad.len() > 1 << 20 { crate::fail!("length {} of ad is absurd", r.ad.len()); } out.push(r.ad.iter().map(|p| p.val()).collect());
        if r.ae.len() > 1 << 20 { crate::fail!("length {} of ae is absurd", r.ae.len()); } out.push(r.ae.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.ca as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.ab.as_ptr() as usize, std::mem::size_of_val(r.ab)));
        out.push((r.ac.as_ptr() as usize, std::mem::size_of_val(r.ac)));
        out.push((r.ad.as_ptr() as usize, std::mem::size_of_val(r.ad)));
        out.push((r.ae.as_ptr() as usize, std::mem::size_of_val(r.ae)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); m.ab[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u16 as Pay>::mk(x)); m.ac[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u32 as Pay>::mk(x)); m.ad[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u64 as Pay>::mk(x)); m.ae[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        for (i, p) in m.ab.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u8 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ac.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u16 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ad.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u32 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ae.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u64 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SEa {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u8"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; at += 1; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(al[0]); q.push(al[1]); q.push(al[2]); q.push(al[3]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SEa(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ea::LayoutControllers { ca: (c[0] as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.ca) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.ca as u64] }
}
#[define_varlen]

pub struct SEb {
    #[controls_layout]
    pub ca: u8,
    #[varlen_array]
    pub ab: [u64; *ca as usize],
    #[varlen_array]
    pub ac: [u32; *ca as usize],
    #[varlen_array]
    pub ad: [u16; *ca as usize],
    #[varlen_array]
    pub ae: [u8; *ca as usize],
}
struct MirrorSEb { ca: u8 }
pub fn lens_SEb(c: &[usize]) -> [usize; 4] { [c[0], c[0], c[0], c[0]] }
impl<'e> VClone<'e> for SEb {
    type Cloner = s_eb::Init<CloneFrom<'e, u64>, CloneFrom<'e, u32>, CloneFrom<'e, u16>, CloneFrom<'e, u8>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_eb::Init {
        ca: self.ca.clone(),
        ab: CloneFrom(r.ab),
        ac: CloneFrom(r.ac),
        ad: CloneFrom(r.ad),
        ae: CloneFrom(r.ae),
    } }
}
impl Subj for SEb {
    type Direct<'e> = s_eb::Init<ArrInit<'e, u64>, ArrInit<'e, u32>, ArrInit<'e, u16>, ArrInit<'e, u8>>;
    type Clo<'e> = <SEb as VClone<'e>>::Cloner;
    fn name() -> String { "SEb".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Dep(<u64 as Pay>::MASK)); out.push(Kind::Dep(<u32 as Pay>::MASK)); out.push(Kind::Dep(<u16 as Pay>::MASK)); out.push(Kind::Dep(<u8 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(<u64 as Pay>::TOK); out.push(<u32 as Pay>::TOK); out.push(<u16 as Pay>::TOK); out.push(<u8 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SEb(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[2]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[3]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u64 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u32 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u16 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u8 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSEb>(), std::mem::align_of::<u64>(), std::mem::align_of::<u32>(), std::mem::align_of::<u16>(), std::mem::align_of::<u8>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSEb>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SEb, ca), std::mem::size_of::<u8>())); at += 1;
        size = up(size, std::mem::align_of::<u64>()); { let n = lens[at] * std::mem::size_of::<u64>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<u32>()); { let n = lens[at] * std::mem::size_of::<u32>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<u16>()); { let n = lens[at] * std::mem::size_of::<u16>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<u8>()); { let n = lens[at] * std::mem::size_of::<u8>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_ca: u8 = (v[at][0] as u8); at += 1;
        let l_ab = arr_init::<u64>(&v[at], ch, env); at += 1;
        let l_ac = arr_init::<u32>(&v[at], ch, env); at += 1;
        let l_ad = arr_init::<u16>(&v[at], ch, env); at += 1;
        let l_ae = arr_init::<u8>(&v[at], ch, env); at += 1;
        s_eb::Init { ca: l_ca, ab: l_ab, ac: l_ac, ad: l_ad, ae: l_ae }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.ca as u64]);
        if r.ab.len() > 1 << 20 { crate::fail!("length {} of ab is absurd", r.ab.len()); } out.push(r.ab.iter().map(|p| p.val()).collect());
        if r.ac.len() > 1 << 20 { crate::fail!("length {} of ac is absurd", r.ac.len()); } out.push(r.ac.iter().map(|p| p.val()).collect());
        if r.ad.len() > 1 << 20 { crate::fail!("length {} of ad is absurd", r.ad.len()); } out.push(r.ad.iter().map(|p| p.val()).collect());
        if r.ae.len() > 1 << 20 { crate::fail!("length {} of ae is absurd", r.ae.len()); } out.push(r.ae.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.ca as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.ab.as_ptr() as usize, std::mem::size_of_val(r.ab)));
        out.push((r.ac.as_ptr() as usize, std::mem::size_of_val(r.ac)));
        out.push((r.ad.as_ptr() as usize, std::mem::size_of_val(r.ad)));
        out.push((r.ae.as_ptr() as usize, std::mem::size_of_val(r.ae)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <u64 as Pay>::mk(x)); m.ab[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u32 as Pay>::mk(x)); m.ac[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u16 as Pay>::mk(x)); m.ad[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); m.ae[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        for (i, p) in m.ab.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u64 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ac.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u32 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ad.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u16 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ae.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u8 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SEb {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u8"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; at += 1; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(al[0]); q.push(al[1]); q.push(al[2]); q.push(al[3]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SEb(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_eb::LayoutControllers { ca: (c[0] as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.ca) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.ca as u64] }
}
#[define_varlen]

pub struct SEc {
    #[controls_layout]
    pub ca: u8,
    #[varlen_array]
    pub ab: [u8; *ca as usize],
    #[varlen_array]
    pub ac: [A64; (*ca as usize) / 2],
    #[varlen_array]
    pub ad: [u8; *ca as usize + 1],
    #[varlen_array]
    pub ae: [A16; *ca as usize],
}
struct MirrorSEc { ca: u8 }
pub fn lens_SEc(c: &[usize]) -> [usize; 4] { [c[0], c[0] / 2, c[0] + 1, c[0]] }
impl<'e> VClone<'e> for SEc {
    type Cloner = s_ec::Init<CloneFrom<'e, u8>, CloneFrom<'e, A64>, CloneFrom<'e, u8>, CloneFrom<'e, A16>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ec::Init {
        ca: self.ca.clone(),
        ab: CloneFrom(r.ab),
        ac: CloneFrom(r.ac),
        ad: CloneFrom(r.ad),
        ae: CloneFrom(r.ae),
    } }
}
impl Subj for SEc {
    type Direct<'e> = s_ec::Init<ArrInit<'e, u8>, ArrInit<'e, A64>, ArrInit<'e, u8>, ArrInit<'e, A16>>;
    type Clo<'e> = <SEc as VClone<'e>>::Cloner;
    fn name() -> String { "SEc".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Dep(<u8 as Pay>::MASK)); out.push(Kind::Dep(<A64 as Pay>::MASK)); out.push(Kind::Dep(<u8 as Pay>::MASK)); out.push(Kind::Dep(<A16 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(<u8 as Pay>::TOK); out.push(<A64 as Pay>::TOK); out.push(<u8 as Pay>::TOK); out.push(<A16 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SEc(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[2]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[3]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u8 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <A64 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u8 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <A16 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSEc>(), std::mem::align_of::<u8>(), std::mem::align_of::<A64>(), std::mem::align_of::<u8>(), std::mem::align_of::<A16>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSEc>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SEc, ca), std::mem::size_of::<u8>())); at += 1;
        size = up(size, std::mem::align_of::<u8>()); { let n = lens[at] * std::mem::size_of::<u8>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<A64>()); { let n = lens[at] * std::mem::size_of::<A64>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<u8>()); { let n = lens[at] * std::mem::size_of::<u8>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<A16>()); { let n = lens[at] * std::mem::size_of::<A16>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_ca: u8 = (v[at][0] as u8); at += 1;
        let l_ab = arr_init::<u8>(&v[at], ch, env); at += 1;
        let l_ac = arr_init::<A64>(&v[at], ch, env); at += 1;
        let l_ad = arr_init::<u8>(&v[at], ch, env); at += 1;
        let l_ae = arr_init::<A16>(&v[at], ch, env); at += 1;
        s_ec::Init { ca: l_ca, ab: l_ab, ac: l_ac, ad: l_ad, ae: l_ae }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.ca as u64]);
        if r.ab.len() > 1 << 20 { crate::fail!("length {} of ab is absurd", r.ab.len()); } out.push(r.ab.iter().map(|p| p.val()).collect());
        if r.ac.len() > 1 << 20 { crate::fail!("length {} of ac is absurd", r.ac.len()); } out.push(r.ac.iter().map(|p| p.val()).collect());
        if r.ad.len() > 1 << 20 { crate::fail!("length {} of ad is absurd", r.ad.len()); } out.push(r.ad.iter().map(|p| p.val()).collect());
        if r.ae.len() > 1 << 20 { crate::fail!("length {} of ae is absurd", r.ae.len()); } out.push(r.ae.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.ca as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.ab.as_ptr() as usize, std::mem::size_of_val(r.ab)));
        out.push((r.ac.as_ptr() as usize, std::mem::size_of_val(r.ac)));
        out.push((r.ad.as_ptr() as usize, std::mem::size_of_val(r.ad)));
        out.push((r.ae.as_ptr() as usize, std::mem::size_of_val(r.ae)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); m.ab[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <A64 as Pay>::mk(x)); m.ac[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); m.ad[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <A16 as Pay>::mk(x)); m.ae[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        for (i, p) in m.ab.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u8 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ac.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <A64 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ad.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u8 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ae.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <A16 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SEc {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u8"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; at += 1; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(al[0]); q.push(al[1]); q.push(al[2]); q.push(al[3]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SEc(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ec::LayoutControllers { ca: (c[0] as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.ca) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.ca as u64] }
}
#[define_varlen]

pub struct SEd {
    #[varlen]
    pub va: FixedLen<u8>,
    #[varlen]
    pub vb: FixedLen<u16>,
    #[varlen]
    pub vc: FixedLen<u32>,
    #[varlen]
    pub vd: FixedLen<u64>,
}
struct MirrorSEd {  }
pub fn lens_SEd(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SEd {
    type Cloner = s_ed::Init<<FixedLen<u8> as VClone<'e>>::Cloner, <FixedLen<u16> as VClone<'e>>::Cloner, <FixedLen<u32> as VClone<'e>>::Cloner, <FixedLen<u64> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ed::Init {
        va: r.va.vclone(),
        vb: r.vb.vclone(),
        vc: r.vc.vclone(),
        vd: r.vd.vclone(),
    } }
}
impl Subj for SEd {
    type Direct<'e> = s_ed::Init<AnyInit<'e, FixedLen<u8>>, AnyInit<'e, FixedLen<u16>>, AnyInit<'e, FixedLen<u32>>, AnyInit<'e, FixedLen<u64>>>;
    type Clo<'e> = <SEd as VClone<'e>>::Cloner;
    fn name() -> String { "SEd".into() }
    fn kinds(out: &mut Vec<Kind>) { <FixedLen<u8>>::kinds(out); <FixedLen<u16>>::kinds(out); <FixedLen<u32>>::kinds(out); <FixedLen<u64>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { <FixedLen<u8>>::toks(out); <FixedLen<u16>>::toks(out); <FixedLen<u32>>::toks(out); <FixedLen<u64>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SEd(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <FixedLen<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<u16>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<u32>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<u64>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <FixedLen<u8>>::leaves(); out.extend(<FixedLen<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <FixedLen<u16>>::leaves(); out.extend(<FixedLen<u16>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <FixedLen<u32>>::leaves(); out.extend(<FixedLen<u32>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <FixedLen<u64>>::leaves(); out.extend(<FixedLen<u64>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSEd>(), <FixedLen<u8>>::r_align(), <FixedLen<u16>>::r_align(), <FixedLen<u32>>::r_align(), <FixedLen<u64>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSEd>(); let mut at = 0;
        { let k = <FixedLen<u8>>::leaves(); size = up(size, <FixedLen<u8>>::r_align()); size += <FixedLen<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <FixedLen<u16>>::leaves(); size = up(size, <FixedLen<u16>>::r_align()); size += <FixedLen<u16>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <FixedLen<u32>>::leaves(); size = up(size, <FixedLen<u32>>::r_align()); size += <FixedLen<u32>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <FixedLen<u64>>::leaves(); size = up(size, <FixedLen<u64>>::r_align()); size += <FixedLen<u64>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_va = { let k = <FixedLen<u8>>::leaves(); let i = any::<FixedLen<u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_vb = { let k = <FixedLen<u16>>::leaves(); let i = any::<FixedLen<u16>>(&v[at..at + k], ch, env); at += k; i };
        let l_vc = { let k = <FixedLen<u32>>::leaves(); let i = any::<FixedLen<u32>>(&v[at..at + k], ch, env); at += k; i };
        let l_vd = { let k = <FixedLen<u64>>::leaves(); let i = any::<FixedLen<u64>>(&v[at..at + k], ch, env); at += k; i };
        s_ed::Init { va: l_va, vb: l_vb, vc: l_vc, vd: l_vd }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.va.read(out);
        r.vb.read(out);
        r.vc.read(out);
        r.vd.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.va.parts(out);
        r.vb.parts(out);
        r.vc.parts(out);
        r.vd.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <FixedLen<u8>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<u8>>::set(m.va, leaf - at, idx, x); } at += k; }
        { let k = <FixedLen<u16>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<u16>>::set(m.vb, leaf - at, idx, x); } at += k; }
        { let k = <FixedLen<u32>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<u32>>::set(m.vc, leaf - at, idx, x); } at += k; }
        { let k = <FixedLen<u64>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<u64>>::set(m.vd, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <FixedLen<u8>>::set_all(m.va, at, f); at += <FixedLen<u8>>::leaves();
        <FixedLen<u16>>::set_all(m.vb, at, f); at += <FixedLen<u16>>::leaves();
        <FixedLen<u32>>::set_all(m.vc, at, f); at += <FixedLen<u32>>::leaves();
        <FixedLen<u64>>::set_all(m.vd, at, f); at += <FixedLen<u64>>::leaves();
    }
}
impl Ctl for SEd {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <FixedLen<u8>>::leaves(); at += <FixedLen<u16>>::leaves(); at += <FixedLen<u32>>::leaves(); at += <FixedLen<u64>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<FixedLen<u8>>::shapes(&[l])[0].iter()); q.extend(<FixedLen<u16>>::shapes(&[l])[0].iter()); q.extend(<FixedLen<u32>>::shapes(&[l])[0].iter()); q.extend(<FixedLen<u64>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SEd(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ed::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SEe {
    #[varlen]
    pub va: Array<u8, u8>,
    #[varlen]
    pub vb: Array<T8, u8>,
    #[varlen]
    pub vc: Array<u8, u8>,
    #[varlen]
    pub vd: Array<T16, u8>,
}
struct MirrorSEe {  }
pub fn lens_SEe(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SEe {
    type Cloner = s_ee::Init<<Array<u8, u8> as VClone<'e>>::Cloner, <Array<T8, u8> as VClone<'e>>::Cloner, <Array<u8, u8> as VClone<'e>>::Cloner, <Array<T16, u8> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ee::Init {
        va: r.va.vclone(),
        vb: r.vb.vclone(),
        vc: r.vc.vclone(),
        vd: r.vd.vclone(),
    } }
}
impl Subj for SEe {
    type Direct<'e> = s_ee::Init<AnyInit<'e, Array<u8, u8>>, AnyInit<'e, Array<T8, u8>>, AnyInit<'e, Array<u8, u8>>, AnyInit<'e, Array<T16, u8>>>;
    type Clo<'e> = <SEe as VClone<'e>>::Cloner;
    fn name() -> String { "SEe".into() }
    fn kinds(out: &mut Vec<Kind>) { <Array<u8, u8>>::kinds(out); <Array<T8, u8>>::kinds(out); <Array<u8, u8>>::kinds(out); <Array<T16, u8>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { <Array<u8, u8>>::toks(out); <Array<T8, u8>>::toks(out); <Array<u8, u8>>::toks(out); <Array<T16, u8>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SEe(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <Array<u8, u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<T8, u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<u8, u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<T16, u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <Array<u8, u8>>::leaves(); out.extend(<Array<u8, u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <Array<T8, u8>>::leaves(); out.extend(<Array<T8, u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <Array<u8, u8>>::leaves(); out.extend(<Array<u8, u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <Array<T16, u8>>::leaves(); out.extend(<Array<T16, u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSEe>(), <Array<u8, u8>>::r_align(), <Array<T8, u8>>::r_align(), <Array<u8, u8>>::r_align(), <Array<T16, u8>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSEe>(); let mut at = 0;
        { let k = <Array<u8, u8>>::leaves(); size = up(size, <Array<u8, u8>>::r_align()); size += <Array<u8, u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <Array<T8, u8>>::leaves(); size = up(size, <Array<T8, u8>>::r_align()); size += <Array<T8, u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <Array<u8, u8>>::leaves(); size = up(size, <Array<u8, u8>>::r_align()); size += <Array<u8, u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <Array<T16, u8>>::leaves(); size = up(size, <Array<T16, u8>>::r_align()); size += <Array<T16, u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_va = { let k = <Array<u8, u8>>::leaves(); let i = any::<Array<u8, u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_vb = { let k = <Array<T8, u8>>::leaves(); let i = any::<Array<T8, u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_vc = { let k = <Array<u8, u8>>::leaves(); let i = any::<Array<u8, u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_vd = { let k = <Array<T16, u8>>::leaves(); let i = any::<Array<T16, u8>>(&v[at..at + k], ch, env); at += k; i };
        s_ee::Init { va: l_va, vb: l_vb, vc: l_vc, vd: l_vd }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.va.read(out);
        r.vb.read(out);
        r.vc.read(out);
        r.vd.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.va.parts(out);
        r.vb.parts(out);
        r.vc.parts(out);
        r.vd.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <Array<u8, u8>>::leaves(); if leaf >= at && leaf < at + k { return <Array<u8, u8>>::set(m.va, leaf - at, idx, x); } at += k; }
        { let k = <Array<T8, u8>>::leaves(); if leaf >= at && leaf < at + k { return <Array<T8, u8>>::set(m.vb, leaf - at, idx, x); } at += k; }
        { let k = <Array<u8, u8>>::leaves(); if leaf >= at && leaf < at + k { return <Array<u8, u8>>::set(m.vc, leaf - at, idx, x); } at += k; }
        { let k = <Array<T16, u8>>::leaves(); if leaf >= at && leaf < at + k { return <Array<T16, u8>>::set(m.vd, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <Array<u8, u8>>::set_all(m.va, at, f); at += <Array<u8, u8>>::leaves();
        <Array<T8, u8>>::set_all(m.vb, at, f); at += <Array<T8, u8>>::leaves();
        <Array<u8, u8>>::set_all(m.vc, at, f); at += <Array<u8, u8>>::leaves();
        <Array<T16, u8>>::set_all(m.vd, at, f); at += <Array<T16, u8>>::leaves();
    }
}
impl Ctl for SEe {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <Array<u8, u8>>::leaves(); at += <Array<T8, u8>>::leaves(); at += <Array<u8, u8>>::leaves(); at += <Array<T16, u8>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<Array<u8, u8>>::shapes(&[l])[0].iter()); q.extend(<Array<T8, u8>>::shapes(&[l])[0].iter()); q.extend(<Array<u8, u8>>::shapes(&[l])[0].iter()); q.extend(<Array<T16, u8>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SEe(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ee::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SEf {
    #[controls_layout]
    pub ca: u8,
    #[varlen_array]
    pub ab: [T8; *ca as usize],
    #[varlen_array]
    pub ac: [u8; *ca as usize],
    #[varlen_array]
    pub ad: [u32; *ca as usize],
    #[varlen_array]
    pub ae: [u64; *ca as usize],
}
struct MirrorSEf { ca: u8 }
pub fn lens_SEf(c: &[usize]) -> [usize; 4] { [c[0], c[0], c[0], c[0]] }
impl<'e> VClone<'e> for SEf {
    type Cloner = s_ef::Init<CloneFrom<'e, T8>, CloneFrom<'e, u8>, CloneFrom<'e, u32>, CloneFrom<'e, u64>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ef::Init {
        ca: self.ca.clone(),
        ab: CloneFrom(r.ab),
        ac: CloneFrom(r.ac),
        ad: CloneFrom(r.ad),
        ae: CloneFrom(r.ae),
    } }
}
impl Subj for SEf {
    type Direct<'e> = s_ef::Init<ArrInit<'e, T8>, ArrInit<'e, u8>, ArrInit<'e, u32>, ArrInit<'e, u64>>;
    type Clo<'e> = <SEf as VClone<'e>>::Cloner;
    fn name() -> String { "SEf".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Dep(<T8 as Pay>::MASK)); out.push(Kind::Dep(<u8 as Pay>::MASK)); out.push(Kind::Dep(<u32 as Pay>::MASK)); out.push(Kind::Dep(<u64 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(<T8 as Pay>::TOK); out.push(<u8 as Pay>::TOK); out.push(<u32 as Pay>::TOK); out.push(<u64 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SEf(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[2]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[3]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T8 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u8 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u32 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u64 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSEf>(), std::mem::align_of::<T8>(), std::mem::align_of::<u8>(), std::mem::align_of::<u32>(), std::mem::align_of::<u64>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSEf>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SEf, ca), std::mem::size_of::<u8>())); at += 1;
        size = up(size, std::mem::align_of::<T8>()); { let n = lens[at] * std::mem::size_of::<T8>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<u8>()); { let n = lens[at] * std::mem::size_of::<u8>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<u32>()); { let n = lens[at] * std::mem::size_of::<u32>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<u64>()); { let n = lens[at] * std::mem::size_of::<u64>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_ca: u8 = (v[at][0] as u8); at += 1;
        let l_ab = arr_init::<T8>(&v[at], ch, env); at += 1;
        let l_ac = arr_init::<u8>(&v[at], ch, env); at += 1;
        let l_ad = arr_init::<u32>(&v[at], ch, env); at += 1;
        let l_ae = arr_init::<u64>(&v[at], ch, env); at += 1;
        s_ef::Init { ca: l_ca, ab: l_ab, ac: l_ac, ad: l_ad, ae: l_ae }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.ca as u64]);
        if r.ab.len() > 1 << 20 { crate::fail!("length {} of ab is absurd", r.ab.len()); } out.push(r.ab.iter().map(|p| p.val()).collect());
        if r.ac.len() > 1 << 20 { crate::fail!("length {} of ac is absurd", r.ac.len()); } out.push(r.ac.iter().map(|p| p.val()).collect());
        if r.ad.len() > 1 << 20 { crate::fail!("length {} of ad is absurd", r.ad.len()); } out.push(r.ad.iter().map(|p| p.val()).collect());
        if r.ae.len() > 1 << 20 { crate::fail!("length {} of ae is absurd", r.ae.len()); } out.push(r.ae.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.ca as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.ab.as_ptr() as usize, std::mem::size_of_val(r.ab)));
        out.push((r.ac.as_ptr() as usize, std::mem::size_of_val(r.ac)));
        out.push((r.ad.as_ptr() as usize, std::mem::size_of_val(r.ad)));
        out.push((r.ae.as_ptr() as usize, std::mem::size_of_val(r.ae)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); m.ab[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); m.ac[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u32 as Pay>::mk(x)); m.ad[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u64 as Pay>::mk(x)); m.ae[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        for (i, p) in m.ab.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T8 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ac.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u8 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ad.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u32 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ae.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u64 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SEf {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u8"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; at += 1; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(al[0]); q.push(al[1]); q.push(al[2]); q.push(al[3]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SEf(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ef::LayoutControllers { ca: (c[0] as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.ca) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.ca as u64] }
}
#[define_varlen]

pub struct SEg {
    #[controls_layout]
    pub ca: u8,
    #[varlen_array]
    pub ab: [u16; *ca as usize],
    #[varlen_array]
    pub ac: [T8; *ca as usize],
    #[varlen_array]
    pub ad: [u32; *ca as usize],
    #[varlen_array]
    pub ae: [u64; *ca as usize],
}
struct MirrorSEg { ca: u8 }
pub fn lens_SEg(c: &[usize]) -> [usize; 4] { [c[0], c[0], c[0], c[0]] }
impl<'e> VClone<'e> for SEg {
    type Cloner = s_eg::Init<CloneFrom<'e, u16>, CloneFrom<'e, T8>, CloneFrom<'e, u32>, CloneFrom<'e, u64>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_eg::Init {
        ca: self.ca.clone(),
        ab: CloneFrom(r.ab),
        ac: CloneFrom(r.ac),
        ad: CloneFrom(r.ad),
        ae: CloneFrom(r.ae),
    } }
}
impl Subj for SEg {
    type Direct<'e> = s_eg::Init<ArrInit<'e, u16>, ArrInit<'e, T8>, ArrInit<'e, u32>, ArrInit<'e, u64>>;
    type Clo<'e> = <SEg as VClone<'e>>::Cloner;
    fn name() -> String { "SEg".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Dep(<u16 as Pay>::MASK)); out.push(Kind::Dep(<T8 as Pay>::MASK)); out.push(Kind::Dep(<u32 as Pay>::MASK)); out.push(Kind::Dep(<u64 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(<u16 as Pay>::TOK); out.push(<T8 as Pay>::TOK); out.push(<u32 as Pay>::TOK); out.push(<u64 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SEg(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[2]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[3]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u16 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T8 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u32 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u64 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSEg>(), std::mem::align_of::<u16>(), std::mem::align_of::<T8>(), std::mem::align_of::<u32>(), std::mem::align_of::<u64>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSEg>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SEg, ca), std::mem::size_of::<u8>())); at += 1;
        size = up(size, std::mem::align_of::<u16>()); { let n = lens[at] * std::mem::size_of::<u16>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<T8>()); { let n = lens[at] * std::mem::size_of::<T8>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<u32>()); { let n = lens[at] * std::mem::size_of::<u32>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<u64>()); { let n = lens[at] * std::mem::size_of::<u64>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_ca: u8 = (v[at][0] as u8); at += 1;
        let l_ab = arr_init::<u16>(&v[at], ch, env); at += 1;
        let l_ac = arr_init::<T8>(&v[at], ch, env); at += 1;
        let l_ad = arr_init::<u32>(&v[at], ch, env); at += 1;
        let l_ae = arr_init::<u64>(&v[at], ch, env); at += 1;
        s_eg::Init { ca: l_ca, ab: l_ab, ac: l_ac, ad: l_ad, ae: l_ae }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.ca as u64]);
        if r.ab.len() > 1 << 20 { crate::fail!("length {} of ab is absurd", r.ab.len()); } out.push(r.ab.iter().map(|p| p.val()).collect());
        if r.ac.len() > 1 << 20 { crate::fail!("length {} of ac is absurd", r.ac.len()); } out.push(r.ac.iter().map(|p| p.val()).collect());
        if r.ad.len() > 1 << 20 { crate::fail!("length {} of ad is absurd", r.ad.len()); } out.push(r.ad.iter().map(|p| p.val()).collect());
        if r.ae.len() > 1 << 20 { crate::fail!("length {} of ae is absurd", r.ae.len()); } out.push(r.ae.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.ca as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.ab.as_ptr() as usize, std::mem::size_of_val(r.ab)));
        out.push((r.ac.as_ptr() as usize, std::mem::size_of_val(r.ac)));
        out.push((r.ad.as_ptr() as usize, std::mem::size_of_val(r.ad)));
        out.push((r.ae.as_ptr() as usize, std::mem::size_of_val(r.ae)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <u16 as Pay>::mk(x)); m.ab[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); m.ac[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u32 as Pay>::mk(x)); m.ad[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u64 as Pay>::mk(x)); m.ae[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        for (i, p) in m.ab.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u16 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ac.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T8 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ad.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u32 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ae.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u64 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SEg {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u8"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; at += 1; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(al[0]); q.push(al[1]); q.push(al[2]); q.push(al[3]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SEg(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_eg::LayoutControllers { ca: (c[0] as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.ca) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.ca as u64] }
}
#[define_varlen]

pub struct SEh {
    #[controls_layout]
    pub ca: u8,
    #[varlen_array]
    pub ab: [u16; *ca as usize],
    #[varlen_array]
    pub ac: [u8; *ca as usize],
    #[varlen_array]
    pub ad: [T8; *ca as usize],
    #[varlen_array]
    pub ae: [u64; *ca as usize],
}
struct MirrorSEh { ca: u8 }
pub fn lens_SEh(c: &[usize]) -> [usize; 4] { [c[0], c[0], c[0], c[0]] }
impl<'e> VClone<'e> for SEh {
    type Cloner = s_eh::Init<CloneFrom<'e, u16>, CloneFrom<'e, u8>, CloneFrom<'e, T8>, CloneFrom<'e, u64>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_eh::Init {
        ca: self.ca.clone(),
        ab: CloneFrom(r.ab),
        ac: CloneFrom(r.ac),
        ad: CloneFrom(r.ad),
        ae: CloneFrom(r.ae),
    } }
}
impl Subj for SEh {
    type Direct<'e> = s_eh::Init<ArrInit<'e, u16>, ArrInit<'e, u8>, ArrInit<'e, T8>, ArrInit<'e, u64>>;
    type Clo<'e> = <SEh as VClone<'e>>::Cloner;
    fn name() -> String { "SEh".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Dep(<u16 as Pay>::MASK)); out.push(Kind::Dep(<u8 as Pay>::MASK)); out.push(Kind::Dep(<T8 as Pay>::MASK)); out.push(Kind::Dep(<u64 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(<u16 as Pay>::TOK); out.push(<u8 as Pay>::TOK); out.push(<T8 as Pay>::TOK); out.push(<u64 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SEh(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[2]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[3]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u16 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u8 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T8 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u64 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSEh>(), std::mem::align_of::<u16>(), std::mem::align_of::<u8>(), std::mem::align_of::<T8>(), std::mem::align_of::<u64>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSEh>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SEh, ca), std::mem::size_of::<u8>())); at += 1;
        size = up(size, std::mem::align_of::<u16>()); { let n = lens[at] * std::mem::size_of::<u16>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<u8>()); { let n = lens[at] * std::mem::size_of::<u8>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<T8>()); { let n = lens[at] * std::mem::size_of::<T8>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<u64>()); { let n = lens[at] * std::mem::size_of::<u64>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_ca: u8 = (v[at][0] as u8); at += 1;
        let l_ab = arr_init::<u16>(&v[at], ch, env); at += 1;
        let l_ac = arr_init::<u8>(&v[at], ch, env); at += 1;
        let l_ad = arr_init::<T8>(&v[at], ch, env); at += 1;
        let l_ae = arr_init::<u64>(&v[at], ch, env); at += 1;
        s_eh::Init { ca: l_ca, ab: l_ab, ac: l_ac, ad: l_ad, ae: l_ae }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.ca as u64]);
        if r.ab.len() > 1 << 20 { crate::fail!("length {} of ab is absurd", r.ab.len()); } out.push(r.ab.iter().map(|p| p.val()).collect());
        if r.ac.len() > 1 << 20 { crate::fail!("length {} of ac is absurd", r.ac.len()); } out.push(r.ac.iter().map(|p| p.val()).collect());
        if r.ad.len() > 1 << 20 { crate::fail!("length {} of ad is absurd", r.ad.len()); } out.push(r.ad.iter().map(|p| p.val()).collect());
        if r.ae.len() > 1 << 20 { crate::fail!("length {} of ae is absurd", r.ae.len()); } out.push(r.ae.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.ca as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.ab.as_ptr() as usize, std::mem::size_of_val(r.ab)));
        out.push((r.ac.as_ptr() as usize, std::mem::size_of_val(r.ac)));
        out.push((r.ad.as_ptr() as usize, std::mem::size_of_val(r.ad)));
        out.push((r.ae.as_ptr() as usize, std::mem::size_of_val(r.ae)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <u16 as Pay>::mk(x)); m.ab[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); m.ac[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); m.ad[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u64 as Pay>::mk(x)); m.ae[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        for (i, p) in m.ab.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u16 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ac.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u8 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ad.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T8 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ae.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u64 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SEh {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u8"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; at += 1; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(al[0]); q.push(al[1]); q.push(al[2]); q.push(al[3]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SEh(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_eh::LayoutControllers { ca: (c[0] as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.ca) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.ca as u64] }
}
#[define_varlen]

pub struct SEi {
    #[controls_layout]
    pub ca: u8,
    #[varlen_array]
    pub ab: [u16; *ca as usize],
    #[varlen_array]
    pub ac: [u8; *ca as usize],
    #[varlen_array]
    pub ad: [u32; *ca as usize],
    #[varlen_array]
    pub ae: [T8; *ca as usize],
}
struct MirrorSEi { ca: u8 }
pub fn lens_SEi(c: &[usize]) -> [usize; 4] { [c[0], c[0], c[0], c[0]] }
impl<'e> VClone<'e> for SEi {
    type Cloner = s_ei::Init<CloneFrom<'e, u16>, CloneFrom<'e, u8>, CloneFrom<'e, u32>, CloneFrom<'e, T8>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ei::Init {
        ca: self.ca.clone(),
        ab: CloneFrom(r.ab),
        ac: CloneFrom(r.ac),
        ad: CloneFrom(r.ad),
        ae: CloneFrom(r.ae),
    } }
}
impl Subj for SEi {
    type Direct<'e> = s_ei::Init<ArrInit<'e, u16>, ArrInit<'e, u8>, ArrInit<'e, u32>, ArrInit<'e, T8>>;
    type Clo<'e> = <SEi as VClone<'e>>::Cloner;
    fn name() -> String { "SEi".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Dep(<u16 as Pay>::MASK)); out.push(Kind::Dep(<u8 as Pay>::MASK)); out.push(Kind::Dep(<u32 as Pay>::MASK)); out.push(Kind::Dep(<T8 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(<u16 as Pay>::TOK); out.push(<u8 as Pay>::TOK); out.push(<u32 as Pay>::TOK); out.push(<T8 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SEi(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[2]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[3]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u16 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u8 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u32 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T8 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSEi>(), std::mem::align_of::<u16>(), std::mem::align_of::<u8>(), std::mem::align_of::<u32>(), std::mem::align_of::<T8>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSEi>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SEi, ca), std::mem::size_of::<u8>())); at += 1;
        size = up(size, std::mem::align_of::<u16>()); { let n = lens[at] * std::mem::size_of::<u16>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<u8>()); { let n = lens[at] * std::mem::size_of::<u8>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<u32>()); { let n = lens[at] * std::mem::size_of::<u32>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<T8>()); { let n = lens[at] * std::mem::size_of::<T8>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_ca: u8 = (v[at][0] as u8); at += 1;
        let l_ab = arr_init::<u16>(&v[at], ch, env); at += 1;
        let l_ac = arr_init::<u8>(&v[at], ch, env); at += 1;
        let l_ad = arr_init::<u32>(&v[at], ch, env); at += 1;
        let l_ae = arr_init::<T8>(&v[at], ch, env); at += 1;
        s_ei::Init { ca: l_ca, ab: l_ab, ac: l_ac, ad: l_ad, ae: l_ae }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.ca as u64]);
        if r.ab.len() > 1 << 20 { crate::fail!("length {} of ab is absurd", r.ab.len()); } out.push(r.ab.iter().map(|p| p.val()).collect());
        if r.ac.len() > 1 << 20 { crate::fail!("length {} of ac is absurd", r.ac.len()); } out.push(r.ac.iter().map(|p| p.val()).collect());
        if r.ad.len() > 1 << 20 { crate::fail!("length {} of ad is absurd", r.ad.len()); } out.push(r.ad.iter().map(|p| p.val()).collect());
        if r.ae.len() > 1 << 20 { crate::fail!("length {} of ae is absurd", r.ae.len()); } out.push(r.ae.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.ca as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.ab.as_ptr() as usize, std::mem::size_of_val(r.ab)));
        out.push((r.ac.as_ptr() as usize, std::mem::size_of_val(r.ac)));
        out.push((r.ad.as_ptr() as usize, std::mem::size_of_val(r.ad)));
        out.push((r.ae.as_ptr() as usize, std::mem::size_of_val(r.ae)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <u16 as Pay>::mk(x)); m.ab[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); m.ac[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u32 as Pay>::mk(x)); m.ad[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); m.ae[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        for (i, p) in m.ab.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u16 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ac.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u8 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ad.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u32 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ae.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T8 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SEi {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u8"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; at += 1; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(al[0]); q.push(al[1]); q.push(al[2]); q.push(al[3]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SEi(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ei::LayoutControllers { ca: (c[0] as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.ca) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.ca as u64] }
}
#[define_varlen]

pub struct SEj {
    #[varlen]
    pub long_v_name_a: Array<T12, u8>,
    #[varlen]
    pub long_v_name_b: Str<u8>,
    #[varlen]
    pub long_v_name_c: Str<u8>,
}
struct MirrorSEj {  }
pub fn lens_SEj(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SEj {
    type Cloner = s_ej::Init<<Array<T12, u8> as VClone<'e>>::Cloner, <Str<u8> as VClone<'e>>::Cloner, <Str<u8> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ej::Init {
        long_v_name_a: r.long_v_name_a.vclone(),
        long_v_name_b: r.long_v_name_b.vclone(),
        long_v_name_c: r.long_v_name_c.vclone(),
    } }
}
impl Subj for SEj {
    type Direct<'e> = s_ej::Init<AnyInit<'e, Array<T12, u8>>, AnyInit<'e, Str<u8>>, AnyInit<'e, Str<u8>>>;
    type Clo<'e> = <SEj as VClone<'e>>::Cloner;
    fn name() -> String { "SEj".into() }
    fn kinds(out: &mut Vec<Kind>) { <Array<T12, u8>>::kinds(out); <Str<u8>>::kinds(out); <Str<u8>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { <Array<T12, u8>>::toks(out); <Str<u8>>::toks(out); <Str<u8>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SEj(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <Array<T12, u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Str<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Str<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <Array<T12, u8>>::leaves(); out.extend(<Array<T12, u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <Str<u8>>::leaves(); out.extend(<Str<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <Str<u8>>::leaves(); out.extend(<Str<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSEj>(), <Array<T12, u8>>::r_align(), <Str<u8>>::r_align(), <Str<u8>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSEj>(); let mut at = 0;
        { let k = <Array<T12, u8>>::leaves(); size = up(size, <Array<T12, u8>>::r_align()); size += <Array<T12, u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <Str<u8>>::leaves(); size = up(size, <Str<u8>>::r_align()); size += <Str<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <Str<u8>>::leaves(); size = up(size, <Str<u8>>::r_align()); size += <Str<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_v_name_a = { let k = <Array<T12, u8>>::leaves(); let i = any::<Array<T12, u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_long_v_name_b = { let k = <Str<u8>>::leaves(); let i = any::<Str<u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_long_v_name_c = { let k = <Str<u8>>::leaves(); let i = any::<Str<u8>>(&v[at..at + k], ch, env); at += k; i };
        s_ej::Init { long_v_name_a: l_long_v_name_a, long_v_name_b: l_long_v_name_b, long_v_name_c: l_long_v_name_c }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.long_v_name_a.read(out);
        r.long_v_name_b.read(out);
        r.long_v_name_c.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.long_v_name_a.parts(out);
        r.long_v_name_b.parts(out);
        r.long_v_name_c.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <Array<T12, u8>>::leaves(); if leaf >= at && leaf < at + k { return <Array<T12, u8>>::set(m.long_v_name_a, leaf - at, idx, x); } at += k; }
        { let k = <Str<u8>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u8>>::set(m.long_v_name_b, leaf - at, idx, x); } at += k; }
        { let k = <Str<u8>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u8>>::set(m.long_v_name_c, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <Array<T12, u8>>::set_all(m.long_v_name_a, at, f); at += <Array<T12, u8>>::leaves();
        <Str<u8>>::set_all(m.long_v_name_b, at, f); at += <Str<u8>>::leaves();
        <Str<u8>>::set_all(m.long_v_name_c, at, f); at += <Str<u8>>::leaves();
    }
}
impl Ctl for SEj {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <Array<T12, u8>>::leaves(); at += <Str<u8>>::leaves(); at += <Str<u8>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<Array<T12, u8>>::shapes(&[l])[0].iter()); q.extend(<Str<u8>>::shapes(&[l])[0].iter()); q.extend(<Str<u8>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SEj(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ej::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SEk {
    #[varlen]
    pub long_v_name_a: Str<u8>,
    #[varlen]
    pub long_v_name_b: Array<T12, u8>,
    #[varlen]
    pub long_v_name_c: Str<u8>,
}
struct MirrorSEk {  }
pub fn lens_SEk(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SEk {
    type Cloner = s_ek::Init<<Str<u8> as VClone<'e>>::Cloner, <Array<T12, u8> as VClone<'e>>::Cloner, <Str<u8> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ek::Init {
        long_v_name_a: r.long_v_name_a.vclone(),
        long_v_name_b: r.long_v_name_b.vclone(),
        long_v_name_c: r.long_v_name_c.vclone(),
    } }
}
impl Subj for SEk {
    type Direct<'e> = s_ek::Init<AnyInit<'e, Str<u8>>, AnyInit<'e, Array<T12, u8>>, AnyInit<'e, Str<u8>>>;
    type Clo<'e> = <SEk as VClone<'e>>::Cloner;
    fn name() -> String { "SEk".into() }
    fn kinds(out: &mut Vec<Kind>) { <Str<u8>>::kinds(out); <Array<T12, u8>>::kinds(out); <Str<u8>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { <Str<u8>>::toks(out); <Array<T12, u8>>::toks(out); <Str<u8>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SEk(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <Str<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<T12, u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Str<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <Str<u8>>::leaves(); out.extend(<Str<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <Array<T12, u8>>::leaves(); out.extend(<Array<T12, u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <Str<u8>>::leaves(); out.extend(<Str<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSEk>(), <Str<u8>>::r_align(), <Array<T12, u8>>::r_align(), <Str<u8>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSEk>(); let mut at = 0;
        { let k = <Str<u8>>::leaves(); size = up(size, <Str<u8>>::r_align()); size += <Str<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <Array<T12, u8>>::leaves(); size = up(size, <Array<T12, u8>>::r_align()); size += <Array<T12, u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <Str<u8>>::leaves(); size = up(size, <Str<u8>>::r_align()); size += <Str<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_v_name_a = { let k = <Str<u8>>::leaves(); let i = any::<Str<u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_long_v_name_b = { let k = <Array<T12, u8>>::leaves(); let i = any::<Array<T12, u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_long_v_name_c = { let k = <Str<u8>>::leaves(); let i = any::<Str<u8>>(&v[at..at + k], ch, env); at += k; i };
        s_ek::Init { long_v_name_a: l_long_v_name_a, long_v_name_b: l_long_v_name_b, long_v_name_c: l_long_v_name_c }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.long_v_name_a.read(out);
        r.long_v_name_b.read(out);
        r.long_v_name_c.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.long_v_name_a.parts(out);
        r.long_v_name_b.parts(out);
        r.long_v_name_c.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <Str<u8>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u8>>::set(m.long_v_name_a, leaf - at, idx, x); } at += k; }
        { let k = <Array<T12, u8>>::leaves(); if leaf >= at && leaf < at + k { return <Array<T12, u8>>::set(m.long_v_name_b, leaf - at, idx, x); } at += k; }
        { let k = <Str<u8>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u8>>::set(m.long_v_name_c, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <Str<u8>>::set_all(m.long_v_name_a, at, f); at += <Str<u8>>::leaves();
        <Array<T12, u8>>::set_all(m.long_v_name_b, at, f); at += <Array<T12, u8>>::leaves();
        <Str<u8>>::set_all(m.long_v_name_c, at, f); at += <Str<u8>>::leaves();
    }
}
impl Ctl for SEk {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <Str<u8>>::leaves(); at += <Array<T12, u8>>::leaves(); at += <Str<u8>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<Str<u8>>::shapes(&[l])[0].iter()); q.extend(<Array<T12, u8>>::shapes(&[l])[0].iter()); q.extend(<Str<u8>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SEk(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ek::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SEl {
    #[varlen]
    pub long_v_name_a: Str<u8>,
    #[varlen]
    pub long_v_name_b: Str<u8>,
    #[varlen]
    pub long_v_name_c: Array<T12, u8>,
}
struct MirrorSEl {  }
pub fn lens_SEl(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SEl {
    type Cloner = s_el::Init<<Str<u8> as VClone<'e>>::Cloner, <Str<u8> as VClone<'e>>::Cloner, <Array<T12, u8> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_el::Init {
        long_v_name_a: r.long_v_name_a.vclone(),
        long_v_name_b: r.long_v_name_b.vclone(),
        long_v_name_c: r.long_v_name_c.vclone(),
    } }
}
impl Subj for SEl {
    type Direct<'e> = s_el::Init<AnyInit<'e, Str<u8>>, AnyInit<'e, Str<u8>>, AnyInit<'e, Array<T12, u8>>>;
    type Clo<'e> = <SEl as VClone<'e>>::Cloner;
    fn name() -> String { "SEl".into() }
    fn kinds(out: &mut Vec<Kind>) { <Str<u8>>::kinds(out); <Str<u8>>::kinds(out); <Array<T12, u8>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { <Str<u8>>::toks(out); <Str<u8>>::toks(out); <Array<T12, u8>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SEl(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <Str<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Str<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<T12, u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <Str<u8>>::leaves(); out.extend(<Str<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <Str<u8>>::leaves(); out.extend(<Str<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <Array<T12, u8>>::leaves(); out.extend(<Array<T12, u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSEl>(), <Str<u8>>::r_align(), <Str<u8>>::r_align(), <Array<T12, u8>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSEl>(); let mut at = 0;
        { let k = <Str<u8>>::leaves(); size = up(size, <Str<u8>>::r_align()); size += <Str<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <Str<u8>>::leaves(); size = up(size, <Str<u8>>::r_align()); size += <Str<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <Array<T12, u8>>::leaves(); size = up(size, <Array<T12, u8>>::r_align()); size += <Array<T12, u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_v_name_a = { let k = <Str<u8>>::leaves(); let i = any::<Str<u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_long_v_name_b = { let k = <Str<u8>>::leaves(); let i = any::<Str<u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_long_v_name_c = { let k = <Array<T12, u8>>::leaves(); let i = any::<Array<T12, u8>>(&v[at..at + k], ch, env); at += k; i };
        s_el::Init { long_v_name_a: l_long_v_name_a, long_v_name_b: l_long_v_name_b, long_v_name_c: l_long_v_name_c }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.long_v_name_a.read(out);
        r.long_v_name_b.read(out);
        r.long_v_name_c.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.long_v_name_a.parts(out);
        r.long_v_name_b.parts(out);
        r.long_v_name_c.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <Str<u8>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u8>>::set(m.long_v_name_a, leaf - at, idx, x); } at += k; }
        { let k = <Str<u8>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u8>>::set(m.long_v_name_b, leaf - at, idx, x); } at += k; }
        { let k = <Array<T12, u8>>::leaves(); if leaf >= at && leaf < at + k { return <Array<T12, u8>>::set(m.long_v_name_c, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <Str<u8>>::set_all(m.long_v_name_a, at, f); at += <Str<u8>>::leaves();
        <Str<u8>>::set_all(m.long_v_name_b, at, f); at += <Str<u8>>::leaves();
        <Array<T12, u8>>::set_all(m.long_v_name_c, at, f); at += <Array<T12, u8>>::leaves();
    }
}
impl Ctl for SEl {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <Str<u8>>::leaves(); at += <Str<u8>>::leaves(); at += <Array<T12, u8>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<Str<u8>>::shapes(&[l])[0].iter()); q.extend(<Str<u8>>::shapes(&[l])[0].iter()); q.extend(<Array<T12, u8>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SEl(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_el::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SEm {
    pub na: T8,
    #[controls_layout]
    pub cb: u8,
    #[varlen_array]
    pub ac: [u8; *cb as usize],
    #[varlen]
    pub vd: Str<u8>,
}
struct MirrorSEm { na: T8, cb: u8 }
pub fn lens_SEm(c: &[usize]) -> [usize; 1] { [c[0]] }
impl<'e> VClone<'e> for SEm {
    type Cloner = s_em::Init<CloneFrom<'e, u8>, <Str<u8> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_em::Init {
        na: self.na.clone(),
        cb: self.cb.clone(),
        ac: CloneFrom(r.ac),
        vd: r.vd.vclone(),
    } }
}
impl Subj for SEm {
    type Direct<'e> = s_em::Init<ArrInit<'e, u8>, AnyInit<'e, Str<u8>>>;
    type Clo<'e> = <SEm as VClone<'e>>::Cloner;
    fn name() -> String { "SEm".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<T8 as Pay>::MASK)); out.push(Kind::Ctl); out.push(Kind::Dep(<u8 as Pay>::MASK)); <Str<u8>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { out.push(<T8 as Pay>::TOK); out.push(false); out.push(<u8 as Pay>::TOK); <Str<u8>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SEm(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Str<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <T8 as Pay>::MASK]); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u8 as Pay>::MASK).collect()); at += 1;
        { let k = <Str<u8>>::leaves(); out.extend(<Str<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSEm>(), std::mem::align_of::<u8>(), <Str<u8>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSEm>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SEm, na), std::mem::size_of::<T8>())); at += 1;
        out.push((base + std::mem::offset_of!(SEm, cb), std::mem::size_of::<u8>())); at += 1;
        size = up(size, std::mem::align_of::<u8>()); { let n = lens[at] * std::mem::size_of::<u8>(); out.push((base + size, n)); size += n; at += 1; }
        { let k = <Str<u8>>::leaves(); size = up(size, <Str<u8>>::r_align()); size += <Str<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_na = <T8 as Pay>::mk(v[at][0]); at += 1;
        let l_cb: u8 = (v[at][0] as u8); at += 1;
        let l_ac = arr_init::<u8>(&v[at], ch, env); at += 1;
        let l_vd = { let k = <Str<u8>>::leaves(); let i = any::<Str<u8>>(&v[at..at + k], ch, env); at += k; i };
        s_em::Init { na: l_na, cb: l_cb, ac: l_ac, vd: l_vd }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.na.val()]); if !std::ptr::eq(r.na, &self.na) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().na is not the header field".into()); }
        out.push(vec![*r.cb as u64]);
        if r.ac.len() > 1 << 20 { crate::fail!("length {} of ac is absurd", r.ac.len()); } out.push(r.ac.iter().map(|p| p.val()).collect());
        r.vd.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.na as *const T8 as usize, std::mem::size_of::<T8>()));
        out.push((r.cb as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.ac.as_ptr() as usize, std::mem::size_of_val(r.ac)));
        r.vd.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); *m.na = p; return; } at += 1;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); m.ac[idx] = p; return; } at += 1;
        { let k = <Str<u8>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u8>>::set(m.vd, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.na.val()); *m.na = host(|| <T8 as Pay>::mk(x)); at += 1; }
        at += 1;
        for (i, p) in m.ac.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u8 as Pay>::mk(x)); } at += 1;
        <Str<u8>>::set_all(m.vd, at, f); at += <Str<u8>>::leaves();
    }
}
impl Ctl for SEm {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u8"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; o.push(at); at += 1; at += 1; at += <Str<u8>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.push(c[0]); q.push(al[0]); q.extend(<Str<u8>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SEm(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_em::LayoutControllers { cb: (c[0] as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.cb) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.cb as u64] }
}
#[define_varlen]

pub struct SEn {
    pub na: TZ,
    #[varlen]
    pub vb: Str<u8>,
    pub nc: u32,
}
struct MirrorSEn { na: TZ, nc: u32 }
pub fn lens_SEn(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SEn {
    type Cloner = s_en::Init<<Str<u8> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_en::Init {
        na: self.na.clone(),
        vb: r.vb.vclone(),
        nc: self.nc.clone(),
    } }
}
impl Subj for SEn {
    type Direct<'e> = s_en::Init<AnyInit<'e, Str<u8>>>;
    type Clo<'e> = <SEn as VClone<'e>>::Cloner;
    fn name() -> String { "SEn".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<TZ as Pay>::MASK)); <Str<u8>>::kinds(out); out.push(Kind::Fixed(<u32 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(<TZ as Pay>::TOK); <Str<u8>>::toks(out); out.push(<u32 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SEn(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Str<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <TZ as Pay>::MASK]); at += 1;
        { let k = <Str<u8>>::leaves(); out.extend(<Str<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![cell(seed, at, 0) & <u32 as Pay>::MASK]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSEn>(), <Str<u8>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSEn>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SEn, na), std::mem::size_of::<TZ>())); at += 1;
        { let k = <Str<u8>>::leaves(); size = up(size, <Str<u8>>::r_align()); size += <Str<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SEn, nc), std::mem::size_of::<u32>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_na = <TZ as Pay>::mk(v[at][0]); at += 1;
        let l_vb = { let k = <Str<u8>>::leaves(); let i = any::<Str<u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_nc = <u32 as Pay>::mk(v[at][0]); at += 1;
        s_en::Init { na: l_na, vb: l_vb, nc: l_nc }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.na.val()]); if !std::ptr::eq(r.na, &self.na) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().na is not the header field".into()); }
        r.vb.read(out);
        out.push(vec![r.nc.val()]); if !std::ptr::eq(r.nc, &self.nc) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nc is not the header field".into()); }
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.na as *const TZ as usize, std::mem::size_of::<TZ>()));
        r.vb.parts(out);
        out.push((r.nc as *const u32 as usize, std::mem::size_of::<u32>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <TZ as Pay>::mk(x)); *m.na = p; return; } at += 1;
        { let k = <Str<u8>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u8>>::set(m.vb, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <u32 as Pay>::mk(x)); *m.nc = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.na.val()); *m.na = host(|| <TZ as Pay>::mk(x)); at += 1; }
        <Str<u8>>::set_all(m.vb, at, f); at += <Str<u8>>::leaves();
        { let x = f(at, 0, m.nc.val()); *m.nc = host(|| <u32 as Pay>::mk(x)); at += 1; }
    }
}
impl Ctl for SEn {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += <Str<u8>>::leaves(); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.extend(<Str<u8>>::shapes(&[l])[0].iter()); q.push(1); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SEn(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_en::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SEo {
    pub na: u8,
    #[varlen]
    pub vb: Str<u8>,
    pub nc: TZ16,
}
struct MirrorSEo { na: u8, nc: TZ16 }
pub fn lens_SEo(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SEo {
    type Cloner = s_eo::Init<<Str<u8> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_eo::Init {
        na: self.na.clone(),
        vb: r.vb.vclone(),
        nc: self.nc.clone(),
    } }
}
impl Subj for SEo {
    type Direct<'e> = s_eo::Init<AnyInit<'e, Str<u8>>>;
    type Clo<'e> = <SEo as VClone<'e>>::Cloner;
    fn name() -> String { "SEo".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<u8 as Pay>::MASK)); <Str<u8>>::kinds(out); out.push(Kind::Fixed(<TZ16 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(<u8 as Pay>::TOK); <Str<u8>>::toks(out); out.push(<TZ16 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SEo(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Str<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <u8 as Pay>::MASK]); at += 1;
        { let k = <Str<u8>>::leaves(); out.extend(<Str<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![cell(seed, at, 0) & <TZ16 as Pay>::MASK]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSEo>(), <Str<u8>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSEo>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SEo, na), std::mem::size_of::<u8>())); at += 1;
        { let k = <Str<u8>>::leaves(); size = up(size, <Str<u8>>::r_align()); size += <Str<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SEo, nc), std::mem::size_of::<TZ16>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_na = <u8 as Pay>::mk(v[at][0]); at += 1;
        let l_vb = { let k = <Str<u8>>::leaves(); let i = any::<Str<u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_nc = <TZ16 as Pay>::mk(v[at][0]); at += 1;
        s_eo::Init { na: l_na, vb: l_vb, nc: l_nc }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.na.val()]); if !std::ptr::eq(r.na, &self.na) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().na is not the header field".into()); }
        r.vb.read(out);
        out.push(vec![r.nc.val()]); if !std::ptr::eq(r.nc, &self.nc) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nc is not the header field".into()); }
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.na as *const u8 as usize, std::mem::size_of::<u8>()));
        r.vb.parts(out);
        out.push((r.nc as *const TZ16 as usize, std::mem::size_of::<TZ16>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); *m.na = p; return; } at += 1;
        { let k = <Str<u8>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u8>>::set(m.vb, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <TZ16 as Pay>::mk(x)); *m.nc = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.na.val()); *m.na = host(|| <u8 as Pay>::mk(x)); at += 1; }
        <Str<u8>>::set_all(m.vb, at, f); at += <Str<u8>>::leaves();
        { let x = f(at, 0, m.nc.val()); *m.nc = host(|| <TZ16 as Pay>::mk(x)); at += 1; }
    }
}
impl Ctl for SEo {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += <Str<u8>>::leaves(); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.extend(<Str<u8>>::shapes(&[l])[0].iter()); q.push(1); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SEo(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_eo::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SEp {
    #[controls_layout]
    pub ca: u8,
    pub nb: TZ,
    #[varlen_array]
    pub ac: [u16; *ca as usize],
}
struct MirrorSEp { ca: u8, nb: TZ }
pub fn lens_SEp(c: &[usize]) -> [usize; 1] { [c[0]] }
impl<'e> VClone<'e> for SEp {
    type Cloner = s_ep::Init<CloneFrom<'e, u16>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ep::Init {
        ca: self.ca.clone(),
        nb: self.nb.clone(),
        ac: CloneFrom(r.ac),
    } }
}
impl Subj for SEp {
    type Direct<'e> = s_ep::Init<ArrInit<'e, u16>>;
    type Clo<'e> = <SEp as VClone<'e>>::Cloner;
    fn name() -> String { "SEp".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Fixed(<TZ as Pay>::MASK)); out.push(Kind::Dep(<u16 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(<TZ as Pay>::TOK); out.push(<u16 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SEp(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push(vec![cell(seed, at, 0) & <TZ as Pay>::MASK]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u16 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSEp>(), std::mem::align_of::<u16>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSEp>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SEp, ca), std::mem::size_of::<u8>())); at += 1;
        out.push((base + std::mem::offset_of!(SEp, nb), std::mem::size_of::<TZ>())); at += 1;
        size = up(size, std::mem::align_of::<u16>()); { let n = lens[at] * std::mem::size_of::<u16>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_ca: u8 = (v[at][0] as u8); at += 1;
        let l_nb = <TZ as Pay>::mk(v[at][0]); at += 1;
        let l_ac = arr_init::<u16>(&v[at], ch, env); at += 1;
        s_ep::Init { ca: l_ca, nb: l_nb, ac: l_ac }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.ca as u64]);
        out.push(vec![r.nb.val()]); if !std::ptr::eq(r.nb, &self.nb) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nb is not the header field".into()); }
        if r.ac.len() > 1 << 20 { crate::fail!("length {} of ac is absurd", r.ac.len()); } out.push(r.ac.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.ca as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.nb as *const TZ as usize, std::mem::size_of::<TZ>()));
        out.push((r.ac.as_ptr() as usize, std::mem::size_of_val(r.ac)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <TZ as Pay>::mk(x)); *m.nb = p; return; } at += 1;
        if leaf == at { let p = host(|| <u16 as Pay>::mk(x)); m.ac[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        { let x = f(at, 0, m.nb.val()); *m.nb = host(|| <TZ as Pay>::mk(x)); at += 1; }
        for (i, p) in m.ac.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u16 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SEp {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u8"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(1); q.push(al[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SEp(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ep::LayoutControllers { ca: (c[0] as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.ca) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.ca as u64] }
}
#[define_varlen]

pub struct SEq {
    #[controls_layout]
    pub ca: u8,
    #[varlen_array]
    pub ab: [u16; *ca as usize],
    pub nc: u8,
    #[varlen_array]
    pub ad: [TZ; *ca as usize],
}
struct MirrorSEq { ca: u8, nc: u8 }
pub fn lens_SEq(c: &[usize]) -> [usize; 2] { [c[0], c[0]] }
impl<'e> VClone<'e> for SEq {
    type Cloner = s_eq::Init<CloneFrom<'e, u16>, CloneFrom<'e, TZ>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_eq::Init {
        ca: self.ca.clone(),
        ab: CloneFrom(r.ab),
        nc: self.nc.clone(),
        ad: CloneFrom(r.ad),
    } }
}
impl Subj for SEq {
    type Direct<'e> = s_eq::Init<ArrInit<'e, u16>, ArrInit<'e, TZ>>;
    type Clo<'e> = <SEq as VClone<'e>>::Cloner;
    fn name() -> String { "SEq".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Dep(<u16 as Pay>::MASK)); out.push(Kind::Fixed(<u8 as Pay>::MASK)); out.push(Kind::Dep(<TZ as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(<u16 as Pay>::TOK); out.push(<u8 as Pay>::TOK); out.push(<TZ as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SEq(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u16 as Pay>::MASK).collect()); at += 1;
        out.push(vec![cell(seed, at, 0) & <u8 as Pay>::MASK]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <TZ as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSEq>(), std::mem::align_of::<u16>(), std::mem::align_of::<TZ>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSEq>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SEq, ca), std::mem::size_of::<u8>())); at += 1;
        size = up(size, std::mem::align_of::<u16>()); { let n = lens[at] * std::mem::size_of::<u16>(); out.push((base + size, n)); size += n; at += 1; }
        out.push((base + std::mem::offset_of!(SEq, nc), std::mem::size_of::<u8>())); at += 1;
        size = up(size, std::mem::align_of::<TZ>()); { let n = lens[at] * std::mem::size_of::<TZ>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_ca: u8 = (v[at][0] as u8); at += 1;
        let l_ab = arr_init::<u16>(&v[at], ch, env); at += 1;
        let l_nc = <u8 as Pay>::mk(v[at][0]); at += 1;
        let l_ad = arr_init::<TZ>(&v[at], ch, env); at += 1;
        s_eq::Init { ca: l_ca, ab: l_ab, nc: l_nc, ad: l_ad }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.ca as u64]);
        if r.ab.len() > 1 << 20 { crate::fail!("length {} of ab is absurd", r.ab.len()); } out.push(r.ab.iter().map(|p| p.val()).collect());
        out.push(vec![r.nc.val()]); if !std::ptr::eq(r.nc, &self.nc) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nc is not the header field".into()); }
        if r.ad.len() > 1 << 20 { crate::fail!("length {} of ad is absurd", r.ad.len()); } out.push(r.ad.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.ca as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.ab.as_ptr() as usize, std::mem::size_of_val(r.ab)));
        out.push((r.nc as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.ad.as_ptr() as usize, std::mem::size_of_val(r.ad)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <u16 as Pay>::mk(x)); m.ab[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); *m.nc = p; return; } at += 1;
        if leaf == at { let p = host(|| <TZ as Pay>::mk(x)); m.ad[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        for (i, p) in m.ab.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u16 as Pay>::mk(x)); } at += 1;
        { let x = f(at, 0, m.nc.val()); *m.nc = host(|| <u8 as Pay>::mk(x)); at += 1; }
        for (i, p) in m.ad.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <TZ as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SEq {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u8"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(al[0]); q.push(1); q.push(al[1]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SEq(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_eq::LayoutControllers { ca: (c[0] as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.ca) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.ca as u64] }
}
#[define_varlen]

pub struct SEr {
    #[controls_layout]
    pub ca: u8,
    #[varlen_array]
    pub ab: [TZ; *ca as usize],
    #[varlen_array]
    pub ac: [u16; *ca as usize],
    #[varlen]
    pub vd: Str<u8>,
}
struct MirrorSEr { ca: u8 }
pub fn lens_SEr(c: &[usize]) -> [usize; 2] { [c[0], c[0]] }
impl<'e> VClone<'e> for SEr {
    type Cloner = s_er::Init<CloneFrom<'e, TZ>, CloneFrom<'e, u16>, <Str<u8> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_er::Init {
        ca: self.ca.clone(),
        ab: CloneFrom(r.ab),
        ac: CloneFrom(r.ac),
        vd: r.vd.vclone(),
    } }
}
impl Subj for SEr {
    type Direct<'e> = s_er::Init<ArrInit<'e, TZ>, ArrInit<'e, u16>, AnyInit<'e, Str<u8>>>;
    type Clo<'e> = <SEr as VClone<'e>>::Cloner;
    fn name() -> String { "SEr".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Dep(<TZ as Pay>::MASK)); out.push(Kind::Dep(<u16 as Pay>::MASK)); <Str<u8>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(<TZ as Pay>::TOK); out.push(<u16 as Pay>::TOK); <Str<u8>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SEr(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Str<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <TZ as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u16 as Pay>::MASK).collect()); at += 1;
        { let k = <Str<u8>>::leaves(); out.extend(<Str<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSEr>(), std::mem::align_of::<TZ>(), std::mem::align_of::<u16>(), <Str<u8>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSEr>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SEr, ca), std::mem::size_of::<u8>())); at += 1;
        size = up(size, std::mem::align_of::<TZ>()); { let n = lens[at] * std::mem::size_of::<TZ>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<u16>()); { let n = lens[at] * std::mem::size_of::<u16>(); out.push((base + size, n)); size += n; at += 1; }
        { let k = <Str<u8>>::leaves(); size = up(size, <Str<u8>>::r_align()); size += <Str<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_ca: u8 = (v[at][0] as u8); at += 1;
        let l_ab = arr_init::<TZ>(&v[at], ch, env); at += 1;
        let l_ac = arr_init::<u16>(&v[at], ch, env); at += 1;
        let l_vd = { let k = <Str<u8>>::leaves(); let i = any::<Str<u8>>(&v[at..at + k], ch, env); at += k; i };
        s_er::Init { ca: l_ca, ab: l_ab, ac: l_ac, vd: l_vd }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.ca as u64]);
        if r.ab.len() > 1 << 20 { crate::fail!("length {} of ab is absurd", r.ab.len()); } out.push(r.ab.iter().map(|p| p.val()).collect());
        if r.ac.len() > 1 << 20 { crate::fail!("length {} of ac is absurd", r.ac.len()); } out.push(r.ac.iter().map(|p| p.val()).collect());
        r.vd.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.ca as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.ab.as_ptr() as usize, std::mem::size_of_val(r.ab)));
        out.push((r.ac.as_ptr() as usize, std::mem::size_of_val(r.ac)));
        r.vd.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <TZ as Pay>::mk(x)); m.ab[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u16 as Pay>::mk(x)); m.ac[idx] = p; return; } at += 1;
        { let k = <Str<u8>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u8>>::set(m.vd, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        for (i, p) in m.ab.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <TZ as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ac.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u16 as Pay>::mk(x)); } at += 1;
        <Str<u8>>::set_all(m.vd, at, f); at += <Str<u8>>::leaves();
    }
}
impl Ctl for SEr {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u8"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; at += 1; at += <Str<u8>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(al[0]); q.push(al[1]); q.extend(<Str<u8>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SEr(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_er::LayoutControllers { ca: (c[0] as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.ca) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.ca as u64] }
}
#[define_varlen]

pub struct SEs {
    #[varlen]
    pub va: FixedLen<TZ>,
    #[varlen]
    pub vb: Str<u8>,
    pub nc: u8,
}
struct MirrorSEs { nc: u8 }
pub fn lens_SEs(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SEs {
    type Cloner = s_es::Init<<FixedLen<TZ> as VClone<'e>>::Cloner, <Str<u8> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_es::Init {
        va: r.va.vclone(),
        vb: r.vb.vclone(),
        nc: self.nc.clone(),
    } }
}
impl Subj for SEs {
    type Direct<'e> = s_es::Init<AnyInit<'e, FixedLen<TZ>>, AnyInit<'e, Str<u8>>>;
    type Clo<'e> = <SEs as VClone<'e>>::Cloner;
    fn name() -> String { "SEs".into() }
    fn kinds(out: &mut Vec<Kind>) { <FixedLen<TZ>>::kinds(out); <Str<u8>>::kinds(out); out.push(Kind::Fixed(<u8 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { <FixedLen<TZ>>::toks(out); <Str<u8>>::toks(out); out.push(<u8 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SEs(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <FixedLen<TZ>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Str<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <FixedLen<TZ>>::leaves(); out.extend(<FixedLen<TZ>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <Str<u8>>::leaves(); out.extend(<Str<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![cell(seed, at, 0) & <u8 as Pay>::MASK]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSEs>(), <FixedLen<TZ>>::r_align(), <Str<u8>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSEs>(); let mut at = 0;
        { let k = <FixedLen<TZ>>::leaves(); size = up(size, <FixedLen<TZ>>::r_align()); size += <FixedLen<TZ>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <Str<u8>>::leaves(); size = up(size, <Str<u8>>::r_align()); size += <Str<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SEs, nc), std::mem::size_of::<u8>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_va = { let k = <FixedLen<TZ>>::leaves(); let i = any::<FixedLen<TZ>>(&v[at..at + k], ch, env); at += k; i };
        let l_vb = { let k = <Str<u8>>::leaves(); let i = any::<Str<u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_nc = <u8 as Pay>::mk(v[at][0]); at += 1;
        s_es::Init { va: l_va, vb: l_vb, nc: l_nc }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.va.read(out);
        r.vb.read(out);
        out.push(vec![r.nc.val()]); if !std::ptr::eq(r.nc, &self.nc) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nc is not the header field".into()); }
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.va.parts(out);
        r.vb.parts(out);
        out.push((r.nc as *const u8 as usize, std::mem::size_of::<u8>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <FixedLen<TZ>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<TZ>>::set(m.va, leaf - at, idx, x); } at += k; }
        { let k = <Str<u8>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u8>>::set(m.vb, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); *m.nc = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <FixedLen<TZ>>::set_all(m.va, at, f); at += <FixedLen<TZ>>::leaves();
        <Str<u8>>::set_all(m.vb, at, f); at += <Str<u8>>::leaves();
        { let x = f(at, 0, m.nc.val()); *m.nc = host(|| <u8 as Pay>::mk(x)); at += 1; }
    }
}
impl Ctl for SEs {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <FixedLen<TZ>>::leaves(); at += <Str<u8>>::leaves(); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<FixedLen<TZ>>::shapes(&[l])[0].iter()); q.extend(<Str<u8>>::shapes(&[l])[0].iter()); q.push(1); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SEs(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_es::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SEt {
    pub na: u8,
    #[varlen]
    pub vb: Str<u8>,
    #[varlen]
    pub vc: FixedLen<TZ16>,
}
struct MirrorSEt { na: u8 }
pub fn lens_SEt(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SEt {
    type Cloner = s_et::Init<<Str<u8> as VClone<'e>>::Cloner, <FixedLen<TZ16> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_et::Init {
        na: self.na.clone(),
        vb: r.vb.vclone(),
        vc: r.vc.vclone(),
    } }
}
impl Subj for SEt {
    type Direct<'e> = s_et::Init<AnyInit<'e, Str<u8>>, AnyInit<'e, FixedLen<TZ16>>>;
    type Clo<'e> = <SEt as VClone<'e>>::Cloner;
    fn name() -> String { "SEt".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<u8 as Pay>::MASK)); <Str<u8>>::kinds(out); <FixedLen<TZ16>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { out.push(<u8 as Pay>::TOK); <Str<u8>>::toks(out); <FixedLen<TZ16>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SEt(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Str<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<TZ16>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <u8 as Pay>::MASK]); at += 1;
        { let k = <Str<u8>>::leaves(); out.extend(<Str<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <FixedLen<TZ16>>::leaves(); out.extend(<FixedLen<TZ16>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSEt>(), <Str<u8>>::r_align(), <FixedLen<TZ16>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSEt>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SEt, na), std::mem::size_of::<u8>())); at += 1;
        { let k = <Str<u8>>::leaves(); size = up(size, <Str<u8>>::r_align()); size += <Str<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <FixedLen<TZ16>>::leaves(); size = up(size, <FixedLen<TZ16>>::r_align()); size += <FixedLen<TZ16>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_na = <u8 as Pay>::mk(v[at][0]); at += 1;
        let l_vb = { let k = <Str<u8>>::leaves(); let i = any::<Str<u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_vc = { let k = <FixedLen<TZ16>>::leaves(); let i = any::<FixedLen<TZ16>>(&v[at..at + k], ch, env); at += k; i };
        s_et::Init { na: l_na, vb: l_vb, vc: l_vc }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.na.val()]); if !std::ptr::eq(r.na, &self.na) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().na is not the header field".into()); }
        r.vb.read(out);
        r.vc.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.na as *const u8 as usize, std::mem::size_of::<u8>()));
        r.vb.parts(out);
        r.vc.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); *m.na = p; return; } at += 1;
        { let k = <Str<u8>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u8>>::set(m.vb, leaf - at, idx, x); } at += k; }
        { let k = <FixedLen<TZ16>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<TZ16>>::set(m.vc, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.na.val()); *m.na = host(|| <u8 as Pay>::mk(x)); at += 1; }
        <Str<u8>>::set_all(m.vb, at, f); at += <Str<u8>>::leaves();
        <FixedLen<TZ16>>::set_all(m.vc, at, f); at += <FixedLen<TZ16>>::leaves();
    }
}
impl Ctl for SEt {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += <Str<u8>>::leaves(); at += <FixedLen<TZ16>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.extend(<Str<u8>>::shapes(&[l])[0].iter()); q.extend(<FixedLen<TZ16>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SEt(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_et::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SEu {
    #[varlen]
    pub va: Str<u8>,
    #[varlen]
    pub vb: Array<TZ, u8>,
    #[varlen]
    pub vc: FixedLen<u16>,
}
struct MirrorSEu {  }
pub fn lens_SEu(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SEu {
    type Cloner = s_eu::Init<<Str<u8> as VClone<'e>>::Cloner, <Array<TZ, u8> as VClone<'e>>::Cloner, <FixedLen<u16> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_eu::Init {
        va: r.va.vclone(),
        vb: r.vb.vclone(),
        vc: r.vc.vclone(),
    } }
}
impl Subj for SEu {
    type Direct<'e> = s_eu::Init<AnyInit<'e, Str<u8>>, AnyInit<'e, Array<TZ, u8>>, AnyInit<'e, FixedLen<u16>>>;
    type Clo<'e> = <SEu as VClone<'e>>::Cloner;
    fn name() -> String { "SEu".into() }
    fn kinds(out: &mut Vec<Kind>) { <Str<u8>>::kinds(out); <Array<TZ, u8>>::kinds(out); <FixedLen<u16>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { <Str<u8>>::toks(out); <Array<TZ, u8>>::toks(out); <FixedLen<u16>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SEu(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <Str<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<TZ, u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<u16>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <Str<u8>>::leaves(); out.extend(<Str<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <Array<TZ, u8>>::leaves(); out.extend(<Array<TZ, u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <FixedLen<u16>>::leaves(); out.extend(<FixedLen<u16>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSEu>(), <Str<u8>>::r_align(), <Array<TZ, u8>>::r_align(), <FixedLen<u16>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSEu>(); let mut at = 0;
        { let k = <Str<u8>>::leaves(); size = up(size, <Str<u8>>::r_align()); size += <Str<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <Array<TZ, u8>>::leaves(); size = up(size, <Array<TZ, u8>>::r_align()); size += <Array<TZ, u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <FixedLen<u16>>::leaves(); size = up(size, <FixedLen<u16>>::r_align()); size += <FixedLen<u16>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_va = { let k = <Str<u8>>::leaves(); let i = any::<Str<u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_vb = { let k = <Array<TZ, u8>>::leaves(); let i = any::<Array<TZ, u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_vc = { let k = <FixedLen<u16>>::leaves(); let i = any::<FixedLen<u16>>(&v[at..at + k], ch, env); at += k; i };
        s_eu::Init { va: l_va, vb: l_vb, vc: l_vc }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.va.read(out);
        r.vb.read(out);
        r.vc.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.va.parts(out);
        r.vb.parts(out);
        r.vc.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <Str<u8>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u8>>::set(m.va, leaf - at, idx, x); } at += k; }
        { let k = <Array<TZ, u8>>::leaves(); if leaf >= at && leaf < at + k { return <Array<TZ, u8>>::set(m.vb, leaf - at, idx, x); } at += k; }
        { let k = <FixedLen<u16>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<u16>>::set(m.vc, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <Str<u8>>::set_all(m.va, at, f); at += <Str<u8>>::leaves();
        <Array<TZ, u8>>::set_all(m.vb, at, f); at += <Array<TZ, u8>>::leaves();
        <FixedLen<u16>>::set_all(m.vc, at, f); at += <FixedLen<u16>>::leaves();
    }
}
impl Ctl for SEu {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <Str<u8>>::leaves(); at += <Array<TZ, u8>>::leaves(); at += <FixedLen<u16>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<Str<u8>>::shapes(&[l])[0].iter()); q.extend(<Array<TZ, u8>>::shapes(&[l])[0].iter()); q.extend(<FixedLen<u16>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SEu(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_eu::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SEv {
    #[varlen]
    pub va: Tup2<FixedLen<u8>, FixedLen<TZ>>,
    pub nb: u16,
    #[varlen]
    pub vc: W<Str<u8>>,
}
struct MirrorSEv { nb: u16 }
pub fn lens_SEv(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SEv {
    type Cloner = s_ev::Init<<Tup2<FixedLen<u8>, FixedLen<TZ>> as VClone<'e>>::Cloner, <W<Str<u8>> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ev::Init {
        va: r.va.vclone(),
        nb: self.nb.clone(),
        vc: r.vc.vclone(),
    } }
}
impl Subj for SEv {
    type Direct<'e> = s_ev::Init<AnyInit<'e, Tup2<FixedLen<u8>, FixedLen<TZ>>>, AnyInit<'e, W<Str<u8>>>>;
    type Clo<'e> = <SEv as VClone<'e>>::Cloner;
    fn name() -> String { "SEv".into() }
    fn kinds(out: &mut Vec<Kind>) { <Tup2<FixedLen<u8>, FixedLen<TZ>>>::kinds(out); out.push(Kind::Fixed(<u16 as Pay>::MASK)); <W<Str<u8>>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { <Tup2<FixedLen<u8>, FixedLen<TZ>>>::toks(out); out.push(<u16 as Pay>::TOK); <W<Str<u8>>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SEv(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <Tup2<FixedLen<u8>, FixedLen<TZ>>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <W<Str<u8>>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <Tup2<FixedLen<u8>, FixedLen<TZ>>>::leaves(); out.extend(<Tup2<FixedLen<u8>, FixedLen<TZ>>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![cell(seed, at, 0) & <u16 as Pay>::MASK]); at += 1;
        { let k = <W<Str<u8>>>::leaves(); out.extend(<W<Str<u8>>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSEv>(), <Tup2<FixedLen<u8>, FixedLen<TZ>>>::r_align(), <W<Str<u8>>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSEv>(); let mut at = 0;
        { let k = <Tup2<FixedLen<u8>, FixedLen<TZ>>>::leaves(); size = up(size, <Tup2<FixedLen<u8>, FixedLen<TZ>>>::r_align()); size += <Tup2<FixedLen<u8>, FixedLen<TZ>>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SEv, nb), std::mem::size_of::<u16>())); at += 1;
        { let k = <W<Str<u8>>>::leaves(); size = up(size, <W<Str<u8>>>::r_align()); size += <W<Str<u8>>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_va = { let k = <Tup2<FixedLen<u8>, FixedLen<TZ>>>::leaves(); let i = any::<Tup2<FixedLen<u8>, FixedLen<TZ>>>(&v[at..at + k], ch, env); at += k; i };
        let l_nb = <u16 as Pay>::mk(v[at][0]); at += 1;
        let l_vc = { let k = <W<Str<u8>>>::leaves(); let i = any::<W<Str<u8>>>(&v[at..at + k], ch, env); at += k; i };
        s_ev::Init { va: l_va, nb: l_nb, vc: l_vc }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.va.read(out);
        out.push(vec![r.nb.val()]); if !std::ptr::eq(r.nb, &self.nb) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nb is not the header field".into()); }
        r.vc.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.va.parts(out);
        out.push((r.nb as *const u16 as usize, std::mem::size_of::<u16>()));
        r.vc.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <Tup2<FixedLen<u8>, FixedLen<TZ>>>::leaves(); if leaf >= at && leaf < at + k { return <Tup2<FixedLen<u8>, FixedLen<TZ>>>::set(m.va, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <u16 as Pay>::mk(x)); *m.nb = p; return; } at += 1;
        { let k = <W<Str<u8>>>::leaves(); if leaf >= at && leaf < at + k { return <W<Str<u8>>>::set(m.vc, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <Tup2<FixedLen<u8>, FixedLen<TZ>>>::set_all(m.va, at, f); at += <Tup2<FixedLen<u8>, FixedLen<TZ>>>::leaves();
        { let x = f(at, 0, m.nb.val()); *m.nb = host(|| <u16 as Pay>::mk(x)); at += 1; }
        <W<Str<u8>>>::set_all(m.vc, at, f); at += <W<Str<u8>>>::leaves();
    }
}
impl Ctl for SEv {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <Tup2<FixedLen<u8>, FixedLen<TZ>>>::leaves(); at += 1; at += <W<Str<u8>>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<Tup2<FixedLen<u8>, FixedLen<TZ>>>::shapes(&[l])[0].iter()); q.push(1); q.extend(<W<Str<u8>>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SEv(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ev::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SEw {
    pub na: u8,
    pub nb: T2,
    pub nc: u64,
    #[varlen]
    pub vd: Str<u8>,
}
struct MirrorSEw { na: u8, nb: T2, nc: u64 }
pub fn lens_SEw(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SEw {
    type Cloner = s_ew::Init<<Str<u8> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ew::Init {
        na: self.na.clone(),
        nb: self.nb.clone(),
        nc: self.nc.clone(),
        vd: r.vd.vclone(),
    } }
}
impl Subj for SEw {
    type Direct<'e> = s_ew::Init<AnyInit<'e, Str<u8>>>;
    type Clo<'e> = <SEw as VClone<'e>>::Cloner;
    fn name() -> String { "SEw".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<u8 as Pay>::MASK)); out.push(Kind::Fixed(<T2 as Pay>::MASK)); out.push(Kind::Fixed(<u64 as Pay>::MASK)); <Str<u8>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { out.push(<u8 as Pay>::TOK); out.push(<T2 as Pay>::TOK); out.push(<u64 as Pay>::TOK); <Str<u8>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SEw(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Str<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <u8 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <T2 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <u64 as Pay>::MASK]); at += 1;
        { let k = <Str<u8>>::leaves(); out.extend(<Str<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSEw>(), <Str<u8>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSEw>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SEw, na), std::mem::size_of::<u8>())); at += 1;
        out.push((base + std::mem::offset_of!(SEw, nb), std::mem::size_of::<T2>())); at += 1;
        out.push((base + std::mem::offset_of!(SEw, nc), std::mem::size_of::<u64>())); at += 1;
        { let k = <Str<u8>>::leaves(); size = up(size, <Str<u8>>::r_align()); size += <Str<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_na = <u8 as Pay>::mk(v[at][0]); at += 1;
        let l_nb = <T2 as Pay>::mk(v[at][0]); at += 1;
        let l_nc = <u64 as Pay>::mk(v[at][0]); at += 1;
        let l_vd = { let k = <Str<u8>>::leaves(); let i = any::<Str<u8>>(&v[at..at + k], ch, env); at += k; i };
        s_ew::Init { na: l_na, nb: l_nb, nc: l_nc, vd: l_vd }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.na.val()]); if !std::ptr::eq(r.na, &self.na) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().na is not the header field".into()); }
        out.push(vec![r.nb.val()]); if !std::ptr::eq(r.nb, &self.nb) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nb is not the header field".into()); }
        out.push(vec![r.nc.val()]); if !std::ptr::eq(r.nc, &self.nc) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nc is not the header field".into()); }
        r.vd.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.na as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.nb as *const T2 as usize, std::mem::size_of::<T2>()));
        out.push((r.nc as *const u64 as usize, std::mem::size_of::<u64>()));
        r.vd.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); *m.na = p; return; } at += 1;
        if leaf == at { let p = host(|| <T2 as Pay>::mk(x)); *m.nb = p; return; } at += 1;
        if leaf == at { let p = host(|| <u64 as Pay>::mk(x)); *m.nc = p; return; } at += 1;
        { let k = <Str<u8>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u8>>::set(m.vd, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.na.val()); *m.na = host(|| <u8 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.nb.val()); *m.nb = host(|| <T2 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.nc.val()); *m.nc = host(|| <u64 as Pay>::mk(x)); at += 1; }
        <Str<u8>>::set_all(m.vd, at, f); at += <Str<u8>>::leaves();
    }
}
impl Ctl for SEw {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += 1; at += 1; at += <Str<u8>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.push(1); q.push(1); q.extend(<Str<u8>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SEw(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ew::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SEx {
    #[controls_layout]
    pub ca: CT,
    #[varlen_array]
    pub ab: [u16; ca.n as usize],
}
struct MirrorSEx { ca: CT }
pub fn lens_SEx(c: &[usize]) -> [usize; 1] { [c[0]] }
impl<'e> VClone<'e> for SEx {
    type Cloner = s_ex::Init<CloneFrom<'e, u16>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ex::Init {
        ca: self.ca.clone(),
        ab: CloneFrom(r.ab),
    } }
}
impl Subj for SEx {
    type Direct<'e> = s_ex::Init<ArrInit<'e, u16>>;
    type Clo<'e> = <SEx as VClone<'e>>::Cloner;
    fn name() -> String { "SEx".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Dep(<u16 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(true); out.push(<u16 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(65535)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SEx(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u16 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSEx>(), std::mem::align_of::<u16>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSEx>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SEx, ca), std::mem::size_of::<CT>())); at += 1;
        size = up(size, std::mem::align_of::<u16>()); { let n = lens[at] * std::mem::size_of::<u16>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_ca: CT = CT::mk(v[at][0]); at += 1;
        let l_ab = arr_init::<u16>(&v[at], ch, env); at += 1;
        s_ex::Init { ca: l_ca, ab: l_ab }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.ca.val()]);
        if r.ab.len() > 1 << 20 { crate::fail!("length {} of ab is absurd", r.ab.len()); } out.push(r.ab.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.ca as *const CT as usize, std::mem::size_of::<CT>()));
        out.push((r.ab.as_ptr() as usize, std::mem::size_of_val(r.ab)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <u16 as Pay>::mk(x)); m.ab[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        for (i, p) in m.ab.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u16 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SEx {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["CT"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(al[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SEx(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ex::LayoutControllers { ca: CT::mk(c[0]) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![(&self.ca).val()] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![m.ca.val()] }
}
#[define_varlen]

pub struct SEy {
    #[controls_layout]
    pub long_c_name_a: CT,
    #[varlen_array]
    pub long_a_name_b: [T8; long_c_name_a.n as usize],
}
struct MirrorSEy { long_c_name_a: CT }
pub fn lens_SEy(c: &[usize]) -> [usize; 1] { [c[0]] }
impl<'e> VClone<'e> for SEy {
    type Cloner = s_ey::Init<CloneFrom<'e, T8>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ey::Init {
        long_c_name_a: self.long_c_name_a.clone(),
        long_a_name_b: CloneFrom(r.long_a_name_b),
    } }
}
impl Subj for SEy {
    type Direct<'e> = s_ey::Init<ArrInit<'e, T8>>;
    type Clo<'e> = <SEy as VClone<'e>>::Cloner;
    fn name() -> String { "SEy".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Dep(<T8 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(true); out.push(<T8 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(65535)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SEy(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T8 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSEy>(), std::mem::align_of::<T8>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSEy>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SEy, long_c_name_a), std::mem::size_of::<CT>())); at += 1;
        size = up(size, std::mem::align_of::<T8>()); { let n = lens[at] * std::mem::size_of::<T8>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_c_name_a: CT = CT::mk(v[at][0]); at += 1;
        let l_long_a_name_b = arr_init::<T8>(&v[at], ch, env); at += 1;
        s_ey::Init { long_c_name_a: l_long_c_name_a, long_a_name_b: l_long_a_name_b }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.long_c_name_a.val()]);
        if r.long_a_name_b.len() > 1 << 20 { crate::fail!("length {} of long_a_name_b is absurd", r.long_a_name_b.len()); } out.push(r.long_a_name_b.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.long_c_name_a as *const CT as usize, std::mem::size_of::<CT>()));
        out.push((r.long_a_name_b.as_ptr() as usize, std::mem::size_of_val(r.long_a_name_b)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); m.long_a_name_b[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        for (i, p) in m.long_a_name_b.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T8 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SEy {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["CT"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(al[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SEy(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ey::LayoutControllers { long_c_name_a: CT::mk(c[0]) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![(&self.long_c_name_a).val()] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![m.long_c_name_a.val()] }
}
#[define_varlen]

pub struct SEz {
    #[controls_layout]
    pub ca: CT,
    #[varlen_array]
    pub ab: [u8; (ca.n as usize) / 2],
    #[varlen]
    pub vc: Str<u8>,
}
struct MirrorSEz { ca: CT }
pub fn lens_SEz(c: &[usize]) -> [usize; 1] { [c[0] / 2] }
impl<'e> VClone<'e> for SEz {
    type Cloner = s_ez::Init<CloneFrom<'e, u8>, <Str<u8> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ez::Init {
        ca: self.ca.clone(),
        ab: CloneFrom(r.ab),
        vc: r.vc.vclone(),
    } }
}
impl Subj for SEz {
    type Direct<'e> = s_ez::Init<ArrInit<'e, u8>, AnyInit<'e, Str<u8>>>;
    type Clo<'e> = <SEz as VClone<'e>>::Cloner;
    fn name() -> String { "SEz".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Dep(<u8 as Pay>::MASK)); <Str<u8>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { out.push(true); out.push(<u8 as Pay>::TOK); <Str<u8>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(65535)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SEz(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Str<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u8 as Pay>::MASK).collect()); at += 1;
        { let k = <Str<u8>>::leaves(); out.extend(<Str<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSEz>(), std::mem::align_of::<u8>(), <Str<u8>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSEz>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SEz, ca), std::mem::size_of::<CT>())); at += 1;
        size = up(size, std::mem::align_of::<u8>()); { let n = lens[at] * std::mem::size_of::<u8>(); out.push((base + size, n)); size += n; at += 1; }
        { let k = <Str<u8>>::leaves(); size = up(size, <Str<u8>>::r_align()); size += <Str<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_ca: CT = CT::mk(v[at][0]); at += 1;
        let l_ab = arr_init::<u8>(&v[at], ch, env); at += 1;
        let l_vc = { let k = <Str<u8>>::leaves(); let i = any::<Str<u8>>(&v[at..at + k], ch, env); at += k; i };
        s_ez::Init { ca: l_ca, ab: l_ab, vc: l_vc }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.ca.val()]);
        if r.ab.len() > 1 << 20 { crate::fail!("length {} of ab is absurd", r.ab.len()); } out.push(r.ab.iter().map(|p| p.val()).collect());
        r.vc.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.ca as *const CT as usize, std::mem::size_of::<CT>()));
        out.push((r.ab.as_ptr() as usize, std::mem::size_of_val(r.ab)));
        r.vc.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); m.ab[idx] = p; return; } at += 1;
        { let k = <Str<u8>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u8>>::set(m.vc, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        for (i, p) in m.ab.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u8 as Pay>::mk(x)); } at += 1;
        <Str<u8>>::set_all(m.vc, at, f); at += <Str<u8>>::leaves();
    }
}
impl Ctl for SEz {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["CT"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; at += <Str<u8>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(al[0]); q.extend(<Str<u8>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SEz(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ez::LayoutControllers { ca: CT::mk(c[0]) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![(&self.ca).val()] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![m.ca.val()] }
}
#[define_varlen]

pub struct SFa {
    pub na: T2,
    #[controls_layout]
    pub cb: CT,
    #[varlen]
    pub vc: Array<T12, u32>,
    #[varlen_array]
    pub ad: [T16; cb.n as usize],
}
struct MirrorSFa { na: T2, cb: CT }
pub fn lens_SFa(c: &[usize]) -> [usize; 1] { [c[0]] }
impl<'e> VClone<'e> for SFa {
    type Cloner = s_fa::Init<<Array<T12, u32> as VClone<'e>>::Cloner, CloneFrom<'e, T16>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_fa::Init {
        na: self.na.clone(),
        cb: self.cb.clone(),
        vc: r.vc.vclone(),
        ad: CloneFrom(r.ad),
    } }
}
impl Subj for SFa {
    type Direct<'e> = s_fa::Init<AnyInit<'e, Array<T12, u32>>, ArrInit<'e, T16>>;
    type Clo<'e> = <SFa as VClone<'e>>::Cloner;
    fn name() -> String { "SFa".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<T2 as Pay>::MASK)); out.push(Kind::Ctl); <Array<T12, u32>>::kinds(out); out.push(Kind::Dep(<T16 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(<T2 as Pay>::TOK); out.push(true); <Array<T12, u32>>::toks(out); out.push(<T16 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(65535)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SFa(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<T12, u32>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <T2 as Pay>::MASK]); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        { let k = <Array<T12, u32>>::leaves(); out.extend(<Array<T12, u32>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T16 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSFa>(), <Array<T12, u32>>::r_align(), std::mem::align_of::<T16>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSFa>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SFa, na), std::mem::size_of::<T2>())); at += 1;
        out.push((base + std::mem::offset_of!(SFa, cb), std::mem::size_of::<CT>())); at += 1;
        { let k = <Array<T12, u32>>::leaves(); size = up(size, <Array<T12, u32>>::r_align()); size += <Array<T12, u32>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size = up(size, std::mem::align_of::<T16>()); { let n = lens[at] * std::mem::size_of::<T16>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_na = <T2 as Pay>::mk(v[at][0]); at += 1;
        let l_cb: CT = CT::mk(v[at][0]); at += 1;
        let l_vc = { let k = <Array<T12, u32>>::leaves(); let i = any::<Array<T12, u32>>(&v[at..at + k], ch, env); at += k; i };
        let l_ad = arr_init::<T16>(&v[at], ch, env); at += 1;
        s_fa::Init { na: l_na, cb: l_cb, vc: l_vc, ad: l_ad }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.na.val()]); if !std::ptr::eq(r.na, &self.na) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().na is not the header field".into()); }
        out.push(vec![r.cb.val()]);
        r.vc.read(out);
        if r.ad.len() > 1 << 20 { crate::fail!("length {} of ad is absurd", r.ad.len()); } out.push(r.ad.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.na as *const T2 as usize, std::mem::size_of::<T2>()));
        out.push((r.cb as *const CT as usize, std::mem::size_of::<CT>()));
        r.vc.parts(out);
        out.push((r.ad.as_ptr() as usize, std::mem::size_of_val(r.ad)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <T2 as Pay>::mk(x)); *m.na = p; return; } at += 1;
        if leaf == at { return; } at += 1;
        { let k = <Array<T12, u32>>::leaves(); if leaf >= at && leaf < at + k { return <Array<T12, u32>>::set(m.vc, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <T16 as Pay>::mk(x)); m.ad[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.na.val()); *m.na = host(|| <T2 as Pay>::mk(x)); at += 1; }
        at += 1;
        <Array<T12, u32>>::set_all(m.vc, at, f); at += <Array<T12, u32>>::leaves();
        for (i, p) in m.ad.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T16 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SFa {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["CT"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; o.push(at); at += 1; at += <Array<T12, u32>>::leaves(); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.push(c[0]); q.extend(<Array<T12, u32>>::shapes(&[l])[0].iter()); q.push(al[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SFa(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_fa::LayoutControllers { cb: CT::mk(c[0]) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![(&self.cb).val()] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![m.cb.val()] }
}
#[define_varlen]

pub struct SFb {
    #[controls_layout]
    pub ca: u8,
    #[controls_layout]
    pub cb: CT,
    #[varlen_array]
    pub ac: [u64; *ca as usize],
    #[varlen_array]
    pub ad: [u8; cb.n as usize],
}
struct MirrorSFb { ca: u8, cb: CT }
pub fn lens_SFb(c: &[usize]) -> [usize; 2] { [c[0], c[1]] }
impl<'e> VClone<'e> for SFb {
    type Cloner = s_fb::Init<CloneFrom<'e, u64>, CloneFrom<'e, u8>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_fb::Init {
        ca: self.ca.clone(),
        cb: self.cb.clone(),
        ac: CloneFrom(r.ac),
        ad: CloneFrom(r.ad),
    } }
}
impl Subj for SFb {
    type Direct<'e> = s_fb::Init<ArrInit<'e, u64>, ArrInit<'e, u8>>;
    type Clo<'e> = <SFb as VClone<'e>>::Cloner;
    fn name() -> String { "SFb".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Ctl); out.push(Kind::Dep(<u64 as Pay>::MASK)); out.push(Kind::Dep(<u8 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(true); out.push(<u64 as Pay>::TOK); out.push(<u8 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(65535)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SFb(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u64 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u8 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSFb>(), std::mem::align_of::<u64>(), std::mem::align_of::<u8>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSFb>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SFb, ca), std::mem::size_of::<u8>())); at += 1;
        out.push((base + std::mem::offset_of!(SFb, cb), std::mem::size_of::<CT>())); at += 1;
        size = up(size, std::mem::align_of::<u64>()); { let n = lens[at] * std::mem::size_of::<u64>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<u8>()); { let n = lens[at] * std::mem::size_of::<u8>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_ca: u8 = (v[at][0] as u8); at += 1;
        let l_cb: CT = CT::mk(v[at][0]); at += 1;
        let l_ac = arr_init::<u64>(&v[at], ch, env); at += 1;
        let l_ad = arr_init::<u8>(&v[at], ch, env); at += 1;
        s_fb::Init { ca: l_ca, cb: l_cb, ac: l_ac, ad: l_ad }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.ca as u64]);
        out.push(vec![r.cb.val()]);
        if r.ac.len() > 1 << 20 { crate::fail!("length {} of ac is absurd", r.ac.len()); } out.push(r.ac.iter().map(|p| p.val()).collect());
        if r.ad.len() > 1 << 20 { crate::fail!("length {} of ad is absurd", r.ad.len()); } out.push(r.ad.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.ca as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.cb as *const CT as usize, std::mem::size_of::<CT>()));
        out.push((r.ac.as_ptr() as usize, std::mem::size_of_val(r.ac)));
        out.push((r.ad.as_ptr() as usize, std::mem::size_of_val(r.ad)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <u64 as Pay>::mk(x)); m.ac[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); m.ad[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        at += 1;
        for (i, p) in m.ac.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u64 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ad.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u8 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SFb {
    const NCTL: usize = 2;
    fn ctl_types() -> Vec<&'static str> { vec!["u8", "CT"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; o.push(at); at += 1; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(c[1]); q.push(al[0]); q.push(al[1]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SFb(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_fb::LayoutControllers { ca: (c[0] as u8), cb: CT::mk(c[1]) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.ca) as u64, (&self.cb).val()] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.ca as u64, m.cb.val()] }
}
#[define_varlen]

pub struct SFc {
    #[controls_layout]
    pub ca: CT,
    #[varlen_array]
    pub ab: [u8; ca.n as usize],
    #[controls_layout]
    pub cc: CT,
    #[varlen_array]
    pub ad: [T8; ca.n.wrapping_add(cc.n) as usize],
}
struct MirrorSFc { ca: CT, cc: CT }
pub fn lens_SFc(c: &[usize]) -> [usize; 2] { [c[0], (c[0] + c[1]) & 65535] }
impl<'e> VClone<'e> for SFc {
    type Cloner = s_fc::Init<CloneFrom<'e, u8>, CloneFrom<'e, T8>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_fc::Init {
        ca: self.ca.clone(),
        ab: CloneFrom(r.ab),
        cc: self.cc.clone(),
        ad: CloneFrom(r.ad),
    } }
}
impl Subj for SFc {
    type Direct<'e> = s_fc::Init<ArrInit<'e, u8>, ArrInit<'e, T8>>;
    type Clo<'e> = <SFc as VClone<'e>>::Cloner;
    fn name() -> String { "SFc".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Dep(<u8 as Pay>::MASK)); out.push(Kind::Ctl); out.push(Kind::Dep(<T8 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(true); out.push(<u8 as Pay>::TOK); out.push(true); out.push(<T8 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(65535)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(65535)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SFc(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u8 as Pay>::MASK).collect()); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T8 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSFc>(), std::mem::align_of::<u8>(), std::mem::align_of::<T8>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSFc>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SFc, ca), std::mem::size_of::<CT>())); at += 1;
        size = up(size, std::mem::align_of::<u8>()); { let n = lens[at] * std::mem::size_of::<u8>(); out.push((base + size, n)); size += n; at += 1; }
        out.push((base + std::mem::offset_of!(SFc, cc), std::mem::size_of::<CT>())); at += 1;
        size = up(size, std::mem::align_of::<T8>()); { let n = lens[at] * std::mem::size_of::<T8>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_ca: CT = CT::mk(v[at][0]); at += 1;
        let l_ab = arr_init::<u8>(&v[at], ch, env); at += 1;
        let l_cc: CT = CT::mk(v[at][0]); at += 1;
        let l_ad = arr_init::<T8>(&v[at], ch, env); at += 1;
        s_fc::Init { ca: l_ca, ab: l_ab, cc: l_cc, ad: l_ad }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.ca.val()]);
        if r.ab.len() > 1 << 20 { crate::fail!("length {} of ab is absurd", r.ab.len()); } out.push(r.ab.iter().map(|p| p.val()).collect());
        out.push(vec![r.cc.val()]);
        if r.ad.len() > 1 << 20 { crate::fail!("length {} of ad is absurd", r.ad.len()); } out.push(r.ad.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.ca as *const CT as usize, std::mem::size_of::<CT>()));
        out.push((r.ab.as_ptr() as usize, std::mem::size_of_val(r.ab)));
        out.push((r.cc as *const CT as usize, std::mem::size_of::<CT>()));
        out.push((r.ad.as_ptr() as usize, std::mem::size_of_val(r.ad)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); m.ab[idx] = p; return; } at += 1;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); m.ad[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        for (i, p) in m.ab.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u8 as Pay>::mk(x)); } at += 1;
        at += 1;
        for (i, p) in m.ad.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T8 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SFc {
    const NCTL: usize = 2;
    fn ctl_types() -> Vec<&'static str> { vec!["CT", "CT"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; o.push(at); at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(al[0]); q.push(c[1]); q.push(al[1]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SFc(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_fc::LayoutControllers { ca: CT::mk(c[0]), cc: CT::mk(c[1]) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![(&self.ca).val(), (&self.cc).val()] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![m.ca.val(), m.cc.val()] }
}
#[define_varlen]

pub struct SFd {
    #[controls_layout]
    pub ca: CT,
}
struct MirrorSFd { ca: CT }
pub fn lens_SFd(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SFd {
    type Cloner = s_fd::Init<>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_fd::Init {
        ca: self.ca.clone(),
    } }
}
impl Subj for SFd {
    type Direct<'e> = s_fd::Init<>;
    type Clo<'e> = <SFd as VClone<'e>>::Cloner;
    fn name() -> String { "SFd".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); }
    fn toks(out: &mut Vec<bool>) { out.push(true); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(65535)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SFd(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSFd>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSFd>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SFd, ca), std::mem::size_of::<CT>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_ca: CT = CT::mk(v[at][0]); at += 1;
        s_fd::Init { ca: l_ca }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.ca.val()]);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.ca as *const CT as usize, std::mem::size_of::<CT>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
    }
}
impl Ctl for SFd {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["CT"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SFd(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_fd::LayoutControllers { ca: CT::mk(c[0]) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![(&self.ca).val()] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![m.ca.val()] }
}
#[define_varlen]

pub struct SFe {
    #[controls_layout]
    pub ca: CT,
    #[varlen]
    pub vb: FixedLen<u8>,
}
struct MirrorSFe { ca: CT }
pub fn lens_SFe(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SFe {
    type Cloner = s_fe::Init<<FixedLen<u8> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_fe::Init {
        ca: self.ca.clone(),
        vb: r.vb.vclone(),
    } }
}
impl Subj for SFe {
    type Direct<'e> = s_fe::Init<AnyInit<'e, FixedLen<u8>>>;
    type Clo<'e> = <SFe as VClone<'e>>::Cloner;
    fn name() -> String { "SFe".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); <FixedLen<u8>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { out.push(true); <FixedLen<u8>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(65535)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SFe(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        { let k = <FixedLen<u8>>::leaves(); out.extend(<FixedLen<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSFe>(), <FixedLen<u8>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSFe>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SFe, ca), std::mem::size_of::<CT>())); at += 1;
        { let k = <FixedLen<u8>>::leaves(); size = up(size, <FixedLen<u8>>::r_align()); size += <FixedLen<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_ca: CT = CT::mk(v[at][0]); at += 1;
        let l_vb = { let k = <FixedLen<u8>>::leaves(); let i = any::<FixedLen<u8>>(&v[at..at + k], ch, env); at += k; i };
        s_fe::Init { ca: l_ca, vb: l_vb }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.ca.val()]);
        r.vb.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.ca as *const CT as usize, std::mem::size_of::<CT>()));
        r.vb.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        { let k = <FixedLen<u8>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<u8>>::set(m.vb, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        <FixedLen<u8>>::set_all(m.vb, at, f); at += <FixedLen<u8>>::leaves();
    }
}
impl Ctl for SFe {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["CT"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += <FixedLen<u8>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.extend(<FixedLen<u8>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SFe(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_fe::LayoutControllers { ca: CT::mk(c[0]) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![(&self.ca).val()] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![m.ca.val()] }
}
#[define_varlen]

pub struct SFf {
    #[controls_layout]
    pub ca: u8,
    #[varlen_array]
    pub ab: [[u64; 0]; *ca as usize],
    pub nc: u8,
    #[varlen_array]
    pub ad: [u8; *ca as usize],
    #[varlen]
    pub ve: Str<u8>,
}
struct MirrorSFf { ca: u8, nc: u8 }
pub fn lens_SFf(c: &[usize]) -> [usize; 2] { [c[0], c[0]] }
impl<'e> VClone<'e> for SFf {
    type Cloner = s_ff::Init<CloneFrom<'e, [u64; 0]>, CloneFrom<'e, u8>, <Str<u8> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_ff::Init {
        ca: self.ca.clone(),
        ab: CloneFrom(r.ab),
        nc: self.nc.clone(),
        ad: CloneFrom(r.ad),
        ve: r.ve.vclone(),
    } }
}
impl Subj for SFf {
    type Direct<'e> = s_ff::Init<ArrInit<'e, [u64; 0]>, ArrInit<'e, u8>, AnyInit<'e, Str<u8>>>;
    type Clo<'e> = <SFf as VClone<'e>>::Cloner;
    fn name() -> String { "SFf".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Dep(<[u64; 0] as Pay>::MASK)); out.push(Kind::Fixed(<u8 as Pay>::MASK)); out.push(Kind::Dep(<u8 as Pay>::MASK)); <Str<u8>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(<[u64; 0] as Pay>::TOK); out.push(<u8 as Pay>::TOK); out.push(<u8 as Pay>::TOK); <Str<u8>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SFf(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Str<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <[u64; 0] as Pay>::MASK).collect()); at += 1;
        out.push(vec![cell(seed, at, 0) & <u8 as Pay>::MASK]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u8 as Pay>::MASK).collect()); at += 1;
        { let k = <Str<u8>>::leaves(); out.extend(<Str<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSFf>(), std::mem::align_of::<[u64; 0]>(), std::mem::align_of::<u8>(), <Str<u8>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSFf>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SFf, ca), std::mem::size_of::<u8>())); at += 1;
        size = up(size, std::mem::align_of::<[u64; 0]>()); { let n = lens[at] * std::mem::size_of::<[u64; 0]>(); out.push((base + size, n)); size += n; at += 1; }
        out.push((base + std::mem::offset_of!(SFf, nc), std::mem::size_of::<u8>())); at += 1;
        size = up(size, std::mem::align_of::<u8>()); { let n = lens[at] * std::mem::size_of::<u8>(); out.push((base + size, n)); size += n; at += 1; }
        { let k = <Str<u8>>::leaves(); size = up(size, <Str<u8>>::r_align()); size += <Str<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_ca: u8 = (v[at][0] as u8); at += 1;
        let l_ab = arr_init::<[u64; 0]>(&v[at], ch, env); at += 1;
        let l_nc = <u8 as Pay>::mk(v[at][0]); at += 1;
        let l_ad = arr_init::<u8>(&v[at], ch, env); at += 1;
        let l_ve = { let k = <Str<u8>>::leaves(); let i = any::<Str<u8>>(&v[at..at + k], ch, env); at += k; i };
        s_ff::Init { ca: l_ca, ab: l_ab, nc: l_nc, ad: l_ad, ve: l_ve }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.ca as u64]);
        if r.ab.len() > 1 << 20 { crate::fail!("length {} of ab is absurd", r.ab.len()); } out.push(r.ab.iter().map(|p| p.val()).collect());
        out.push(vec![r.nc.val()]); if !std::ptr::eq(r.nc, &self.nc) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nc is not the header field".into()); }
        if r.ad.len() > 1 << 20 { crate::fail!("length {} of ad is absurd", r.ad.len()); } out.push(r.ad.iter().map(|p| p.val()).collect());
        r.ve.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.ca as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.ab.as_ptr() as usize, std::mem::size_of_val(r.ab)));
        out.push((r.nc as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.ad.as_ptr() as usize, std::mem::size_of_val(r.ad)));
        r.ve.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <[u64; 0] as Pay>::mk(x)); m.ab[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); *m.nc = p; return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); m.ad[idx] = p; return; } at += 1;
        { let k = <Str<u8>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u8>>::set(m.ve, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        for (i, p) in m.ab.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <[u64; 0] as Pay>::mk(x)); } at += 1;
        { let x = f(at, 0, m.nc.val()); *m.nc = host(|| <u8 as Pay>::mk(x)); at += 1; }
        for (i, p) in m.ad.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u8 as Pay>::mk(x)); } at += 1;
        <Str<u8>>::set_all(m.ve, at, f); at += <Str<u8>>::leaves();
    }
}
impl Ctl for SFf {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u8"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; at += 1; at += 1; at += <Str<u8>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(al[0]); q.push(1); q.push(al[1]); q.extend(<Str<u8>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SFf(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_ff::LayoutControllers { ca: (c[0] as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.ca) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.ca as u64] }
}
#[define_varlen]

pub struct SFg {
    #[controls_layout]
    pub ca: u8,
    #[varlen_array]
    pub ab: [u8; *ca as usize],
    #[varlen_array]
    pub ac: [[u64; 0]; *ca as usize],
    #[varlen_array]
    pub ad: [u8; *ca as usize],
}
struct MirrorSFg { ca: u8 }
pub fn lens_SFg(c: &[usize]) -> [usize; 3] { [c[0], c[0], c[0]] }
impl<'e> VClone<'e> for SFg {
    type Cloner = s_fg::Init<CloneFrom<'e, u8>, CloneFrom<'e, [u64; 0]>, CloneFrom<'e, u8>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_fg::Init {
        ca: self.ca.clone(),
        ab: CloneFrom(r.ab),
        ac: CloneFrom(r.ac),
        ad: CloneFrom(r.ad),
    } }
}
impl Subj for SFg {
    type Direct<'e> = s_fg::Init<ArrInit<'e, u8>, ArrInit<'e, [u64; 0]>, ArrInit<'e, u8>>;
    type Clo<'e> = <SFg as VClone<'e>>::Cloner;
    fn name() -> String { "SFg".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Dep(<u8 as Pay>::MASK)); out.push(Kind::Dep(<[u64; 0] as Pay>::MASK)); out.push(Kind::Dep(<u8 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(<u8 as Pay>::TOK); out.push(<[u64; 0] as Pay>::TOK); out.push(<u8 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SFg(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[2]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u8 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <[u64; 0] as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u8 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSFg>(), std::mem::align_of::<u8>(), std::mem::align_of::<[u64; 0]>(), std::mem::align_of::<u8>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSFg>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SFg, ca), std::mem::size_of::<u8>())); at += 1;
        size = up(size, std::mem::align_of::<u8>()); { let n = lens[at] * std::mem::size_of::<u8>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<[u64; 0]>()); { let n = lens[at] * std::mem::size_of::<[u64; 0]>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<u8>()); { let n = lens[at] * std::mem::size_of::<u8>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_ca: u8 = (v[at][0] as u8); at += 1;
        let l_ab = arr_init::<u8>(&v[at], ch, env); at += 1;
        let l_ac = arr_init::<[u64; 0]>(&v[at], ch, env); at += 1;
        let l_ad = arr_init::<u8>(&v[at], ch, env); at += 1;
        s_fg::Init { ca: l_ca, ab: l_ab, ac: l_ac, ad: l_ad }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.ca as u64]);
        if r.ab.len() > 1 << 20 { crate::fail!("length {} of ab is absurd", r.ab.len()); } out.push(r.ab.iter().map(|p| p.val()).collect());
        if r.ac.len() > 1 << 20 { crate::fail!("length {} of ac is absurd", r.ac.len()); } out.push(r.ac.iter().map(|p| p.val()).collect());
        if r.ad.len() > 1 << 20 { crate::fail!("length {} of ad is absurd", r.ad.len()); } out.push(r.ad.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.ca as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.ab.as_ptr() as usize, std::mem::size_of_val(r.ab)));
        out.push((r.ac.as_ptr() as usize, std::mem::size_of_val(r.ac)));
        out.push((r.ad.as_ptr() as usize, std::mem::size_of_val(r.ad)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); m.ab[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <[u64; 0] as Pay>::mk(x)); m.ac[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); m.ad[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        for (i, p) in m.ab.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u8 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ac.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <[u64; 0] as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ad.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u8 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SFg {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u8"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(al[0]); q.push(al[1]); q.push(al[2]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SFg(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_fg::LayoutControllers { ca: (c[0] as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.ca) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.ca as u64] }
}
#[define_varlen]

pub struct SFh {
    #[controls_layout]
    pub ca: u8,
    #[varlen_array]
    pub ab: [u8; *ca as usize],
    #[varlen_array]
    pub ac: [TZ16; *ca as usize],
    #[varlen_array]
    pub ad: [u8; *ca as usize],
}
struct MirrorSFh { ca: u8 }
pub fn lens_SFh(c: &[usize]) -> [usize; 3] { [c[0], c[0], c[0]] }
impl<'e> VClone<'e> for SFh {
    type Cloner = s_fh::Init<CloneFrom<'e, u8>, CloneFrom<'e, TZ16>, CloneFrom<'e, u8>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_fh::Init {
        ca: self.ca.clone(),
        ab: CloneFrom(r.ab),
        ac: CloneFrom(r.ac),
        ad: CloneFrom(r.ad),
    } }
}
impl Subj for SFh {
    type Direct<'e> = s_fh::Init<ArrInit<'e, u8>, ArrInit<'e, TZ16>, ArrInit<'e, u8>>;
    type Clo<'e> = <SFh as VClone<'e>>::Cloner;
    fn name() -> String { "SFh".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Dep(<u8 as Pay>::MASK)); out.push(Kind::Dep(<TZ16 as Pay>::MASK)); out.push(Kind::Dep(<u8 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(<u8 as Pay>::TOK); out.push(<TZ16 as Pay>::TOK); out.push(<u8 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SFh(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[2]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u8 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <TZ16 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u8 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSFh>(), std::mem::align_of::<u8>(), std::mem::align_of::<TZ16>(), std::mem::align_of::<u8>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSFh>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SFh, ca), std::mem::size_of::<u8>())); at += 1;
        size = up(size, std::mem::align_of::<u8>()); { let n = lens[at] * std::mem::size_of::<u8>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<TZ16>()); { let n = lens[at] * std::mem::size_of::<TZ16>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<u8>()); { let n = lens[at] * std::mem::size_of::<u8>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_ca: u8 = (v[at][0] as u8); at += 1;
        let l_ab = arr_init::<u8>(&v[at], ch, env); at += 1;
        let l_ac = arr_init::<TZ16>(&v[at], ch, env); at += 1;
        let l_ad = arr_init::<u8>(&v[at], ch, env); at += 1;
        s_fh::Init { ca: l_ca, ab: l_ab, ac: l_ac, ad: l_ad }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.ca as u64]);
        if r.ab.len() > 1 << 20 { crate::fail!("length {} of ab is absurd", r.ab.len()); } out.push(r.ab.iter().map(|p| p.val()).collect());
        if r.ac.len() > 1 << 20 { crate::fail!("length {} of ac is absurd", r.ac.len()); } out.push(r.ac.iter().map(|p| p.val()).collect());
        if r.ad.len() > 1 << 20 { crate::fail!("length {} of ad is absurd", r.ad.len()); } out.push(r.ad.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.ca as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.ab.as_ptr() as usize, std::mem::size_of_val(r.ab)));
        out.push((r.ac.as_ptr() as usize, std::mem::size_of_val(r.ac)));
        out.push((r.ad.as_ptr() as usize, std::mem::size_of_val(r.ad)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); m.ab[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <TZ16 as Pay>::mk(x)); m.ac[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); m.ad[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        for (i, p) in m.ab.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u8 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ac.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <TZ16 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ad.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u8 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SFh {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u8"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(al[0]); q.push(al[1]); q.push(al[2]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SFh(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_fh::LayoutControllers { ca: (c[0] as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.ca) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.ca as u64] }
}
#[define_varlen]

pub struct SFi {
    #[varlen]
    pub va: Str<u8>,
    #[varlen]
    pub vb: Array<[u64; 0], u8>,
    #[varlen]
    pub vc: Array<u8, u8>,
}
struct MirrorSFi {  }
pub fn lens_SFi(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SFi {
    type Cloner = s_fi::Init<<Str<u8> as VClone<'e>>::Cloner, <Array<[u64; 0], u8> as VClone<'e>>::Cloner, <Array<u8, u8> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_fi::Init {
        va: r.va.vclone(),
        vb: r.vb.vclone(),
        vc: r.vc.vclone(),
    } }
}
impl Subj for SFi {
    type Direct<'e> = s_fi::Init<AnyInit<'e, Str<u8>>, AnyInit<'e, Array<[u64; 0], u8>>, AnyInit<'e, Array<u8, u8>>>;
    type Clo<'e> = <SFi as VClone<'e>>::Cloner;
    fn name() -> String { "SFi".into() }
    fn kinds(out: &mut Vec<Kind>) { <Str<u8>>::kinds(out); <Array<[u64; 0], u8>>::kinds(out); <Array<u8, u8>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { <Str<u8>>::toks(out); <Array<[u64; 0], u8>>::toks(out); <Array<u8, u8>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SFi(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <Str<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<[u64; 0], u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<u8, u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <Str<u8>>::leaves(); out.extend(<Str<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <Array<[u64; 0], u8>>::leaves(); out.extend(<Array<[u64; 0], u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <Array<u8, u8>>::leaves(); out.extend(<Array<u8, u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSFi>(), <Str<u8>>::r_align(), <Array<[u64; 0], u8>>::r_align(), <Array<u8, u8>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSFi>(); let mut at = 0;
        { let k = <Str<u8>>::leaves(); size = up(size, <Str<u8>>::r_align()); size += <Str<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <Array<[u64; 0], u8>>::leaves(); size = up(size, <Array<[u64; 0], u8>>::r_align()); size += <Array<[u64; 0], u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <Array<u8, u8>>::leaves(); size = up(size, <Array<u8, u8>>::r_align()); size += <Array<u8, u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_va = { let k = <Str<u8>>::leaves(); let i = any::<Str<u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_vb = { let k = <Array<[u64; 0], u8>>::leaves(); let i = any::<Array<[u64; 0], u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_vc = { let k = <Array<u8, u8>>::leaves(); let i = any::<Array<u8, u8>>(&v[at..at + k], ch, env); at += k; i };
        s_fi::Init { va: l_va, vb: l_vb, vc: l_vc }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.va.read(out);
        r.vb.read(out);
        r.vc.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.va.parts(out);
        r.vb.parts(out);
        r.vc.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <Str<u8>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u8>>::set(m.va, leaf - at, idx, x); } at += k; }
        { let k = <Array<[u64; 0], u8>>::leaves(); if leaf >= at && leaf < at + k { return <Array<[u64; 0], u8>>::set(m.vb, leaf - at, idx, x); } at += k; }
        { let k = <Array<u8, u8>>::leaves(); if leaf >= at && leaf < at + k { return <Array<u8, u8>>::set(m.vc, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <Str<u8>>::set_all(m.va, at, f); at += <Str<u8>>::leaves();
        <Array<[u64; 0], u8>>::set_all(m.vb, at, f); at += <Array<[u64; 0], u8>>::leaves();
        <Array<u8, u8>>::set_all(m.vc, at, f); at += <Array<u8, u8>>::leaves();
    }
}
impl Ctl for SFi {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <Str<u8>>::leaves(); at += <Array<[u64; 0], u8>>::leaves(); at += <Array<u8, u8>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<Str<u8>>::shapes(&[l])[0].iter()); q.extend(<Array<[u64; 0], u8>>::shapes(&[l])[0].iter()); q.extend(<Array<u8, u8>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SFi(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_fi::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SFj {
    #[varlen]
    pub va: Array<u8, u8>,
    #[varlen]
    pub vb: FixedLen<[u64; 0]>,
    #[varlen]
    pub vc: FixedLen<u8>,
    pub nd: u8,
}
struct MirrorSFj { nd: u8 }
pub fn lens_SFj(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SFj {
    type Cloner = s_fj::Init<<Array<u8, u8> as VClone<'e>>::Cloner, <FixedLen<[u64; 0]> as VClone<'e>>::Cloner, <FixedLen<u8> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_fj::Init {
        va: r.va.vclone(),
        vb: r.vb.vclone(),
        vc: r.vc.vclone(),
        nd: self.nd.clone(),
    } }
}
impl Subj for SFj {
    type Direct<'e> = s_fj::Init<AnyInit<'e, Array<u8, u8>>, AnyInit<'e, FixedLen<[u64; 0]>>, AnyInit<'e, FixedLen<u8>>>;
    type Clo<'e> = <SFj as VClone<'e>>::Cloner;
    fn name() -> String { "SFj".into() }
    fn kinds(out: &mut Vec<Kind>) { <Array<u8, u8>>::kinds(out); <FixedLen<[u64; 0]>>::kinds(out); <FixedLen<u8>>::kinds(out); out.push(Kind::Fixed(<u8 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { <Array<u8, u8>>::toks(out); <FixedLen<[u64; 0]>>::toks(out); <FixedLen<u8>>::toks(out); out.push(<u8 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SFj(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <Array<u8, u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<[u64; 0]>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <Array<u8, u8>>::leaves(); out.extend(<Array<u8, u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <FixedLen<[u64; 0]>>::leaves(); out.extend(<FixedLen<[u64; 0]>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <FixedLen<u8>>::leaves(); out.extend(<FixedLen<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![cell(seed, at, 0) & <u8 as Pay>::MASK]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSFj>(), <Array<u8, u8>>::r_align(), <FixedLen<[u64; 0]>>::r_align(), <FixedLen<u8>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSFj>(); let mut at = 0;
        { let k = <Array<u8, u8>>::leaves(); size = up(size, <Array<u8, u8>>::r_align()); size += <Array<u8, u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <FixedLen<[u64; 0]>>::leaves(); size = up(size, <FixedLen<[u64; 0]>>::r_align()); size += <FixedLen<[u64; 0]>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <FixedLen<u8>>::leaves(); size = up(size, <FixedLen<u8>>::r_align()); size += <FixedLen<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SFj, nd), std::mem::size_of::<u8>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_va = { let k = <Array<u8, u8>>::leaves(); let i = any::<Array<u8, u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_vb = { let k = <FixedLen<[u64; 0]>>::leaves(); let i = any::<FixedLen<[u64; 0]>>(&v[at..at + k], ch, env); at += k; i };
        let l_vc = { let k = <FixedLen<u8>>::leaves(); let i = any::<FixedLen<u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_nd = <u8 as Pay>::mk(v[at][0]); at += 1;
        s_fj::Init { va: l_va, vb: l_vb, vc: l_vc, nd: l_nd }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.va.read(out);
        r.vb.read(out);
        r.vc.read(out);
        out.push(vec![r.nd.val()]); if !std::ptr::eq(r.nd, &self.nd) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nd is not the header field".into()); }
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.va.parts(out);
        r.vb.parts(out);
        r.vc.parts(out);
        out.push((r.nd as *const u8 as usize, std::mem::size_of::<u8>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <Array<u8, u8>>::leaves(); if leaf >= at && leaf < at + k { return <Array<u8, u8>>::set(m.va, leaf - at, idx, x); } at += k; }
        { let k = <FixedLen<[u64; 0]>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<[u64; 0]>>::set(m.vb, leaf - at, idx, x); } at += k; }
        { let k = <FixedLen<u8>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<u8>>::set(m.vc, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); *m.nd = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <Array<u8, u8>>::set_all(m.va, at, f); at += <Array<u8, u8>>::leaves();
        <FixedLen<[u64; 0]>>::set_all(m.vb, at, f); at += <FixedLen<[u64; 0]>>::leaves();
        <FixedLen<u8>>::set_all(m.vc, at, f); at += <FixedLen<u8>>::leaves();
        { let x = f(at, 0, m.nd.val()); *m.nd = host(|| <u8 as Pay>::mk(x)); at += 1; }
    }
}
impl Ctl for SFj {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <Array<u8, u8>>::leaves(); at += <FixedLen<[u64; 0]>>::leaves(); at += <FixedLen<u8>>::leaves(); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<Array<u8, u8>>::shapes(&[l])[0].iter()); q.extend(<FixedLen<[u64; 0]>>::shapes(&[l])[0].iter()); q.extend(<FixedLen<u8>>::shapes(&[l])[0].iter()); q.push(1); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SFj(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_fj::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SFk {
    #[controls_layout]
    pub ca: u8,
    #[varlen_array]
    pub ab: [u8; *ca as usize],
    #[varlen_array]
    pub ac: [A256; *ca as usize],
}
struct MirrorSFk { ca: u8 }
pub fn lens_SFk(c: &[usize]) -> [usize; 2] { [c[0], c[0]] }
impl<'e> VClone<'e> for SFk {
    type Cloner = s_fk::Init<CloneFrom<'e, u8>, CloneFrom<'e, A256>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_fk::Init {
        ca: self.ca.clone(),
        ab: CloneFrom(r.ab),
        ac: CloneFrom(r.ac),
    } }
}
impl Subj for SFk {
    type Direct<'e> = s_fk::Init<ArrInit<'e, u8>, ArrInit<'e, A256>>;
    type Clo<'e> = <SFk as VClone<'e>>::Cloner;
    fn name() -> String { "SFk".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Dep(<u8 as Pay>::MASK)); out.push(Kind::Dep(<A256 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(<u8 as Pay>::TOK); out.push(<A256 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SFk(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u8 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <A256 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSFk>(), std::mem::align_of::<u8>(), std::mem::align_of::<A256>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSFk>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SFk, ca), std::mem::size_of::<u8>())); at += 1;
        size = up(size, std::mem::align_of::<u8>()); { let n = lens[at] * std::mem::size_of::<u8>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<A256>()); { let n = lens[at] * std::mem::size_of::<A256>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_ca: u8 = (v[at][0] as u8); at += 1;
        let l_ab = arr_init::<u8>(&v[at], ch, env); at += 1;
        let l_ac = arr_init::<A256>(&v[at], ch, env); at += 1;
        s_fk::Init { ca: l_ca, ab: l_ab, ac: l_ac }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.ca as u64]);
        if r.ab.len() > 1 << 20 { crate::fail!("length {} of ab is absurd", r.ab.len()); } out.push(r.ab.iter().map(|p| p.val()).collect());
        if r.ac.len() > 1 << 20 { crate::fail!("length {} of ac is absurd", r.ac.len()); } out.push(r.ac.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.ca as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.ab.as_ptr() as usize, std::mem::size_of_val(r.ab)));
        out.push((r.ac.as_ptr() as usize, std::mem::size_of_val(r.ac)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); m.ab[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <A256 as Pay>::mk(x)); m.ac[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        for (i, p) in m.ab.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u8 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ac.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <A256 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SFk {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u8"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(al[0]); q.push(al[1]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SFk(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_fk::LayoutControllers { ca: (c[0] as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.ca) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.ca as u64] }
}
#[define_varlen]

pub struct SFl {
    #[varlen]
    pub va: FixedLen<u8>,
    #[varlen]
    pub vb: FixedLen<A4096>,
    #[varlen]
    pub vc: Str<u8>,
}
struct MirrorSFl {  }
pub fn lens_SFl(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SFl {
    type Cloner = s_fl::Init<<FixedLen<u8> as VClone<'e>>::Cloner, <FixedLen<A4096> as VClone<'e>>::Cloner, <Str<u8> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_fl::Init {
        va: r.va.vclone(),
        vb: r.vb.vclone(),
        vc: r.vc.vclone(),
    } }
}
impl Subj for SFl {
    type Direct<'e> = s_fl::Init<AnyInit<'e, FixedLen<u8>>, AnyInit<'e, FixedLen<A4096>>, AnyInit<'e, Str<u8>>>;
    type Clo<'e> = <SFl as VClone<'e>>::Cloner;
    fn name() -> String { "SFl".into() }
    fn kinds(out: &mut Vec<Kind>) { <FixedLen<u8>>::kinds(out); <FixedLen<A4096>>::kinds(out); <Str<u8>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { <FixedLen<u8>>::toks(out); <FixedLen<A4096>>::toks(out); <Str<u8>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SFl(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <FixedLen<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<A4096>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Str<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <FixedLen<u8>>::leaves(); out.extend(<FixedLen<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <FixedLen<A4096>>::leaves(); out.extend(<FixedLen<A4096>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <Str<u8>>::leaves(); out.extend(<Str<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSFl>(), <FixedLen<u8>>::r_align(), <FixedLen<A4096>>::r_align(), <Str<u8>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSFl>(); let mut at = 0;
        { let k = <FixedLen<u8>>::leaves(); size = up(size, <FixedLen<u8>>::r_align()); size += <FixedLen<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <FixedLen<A4096>>::leaves(); size = up(size, <FixedLen<A4096>>::r_align()); size += <FixedLen<A4096>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <Str<u8>>::leaves(); size = up(size, <Str<u8>>::r_align()); size += <Str<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_va = { let k = <FixedLen<u8>>::leaves(); let i = any::<FixedLen<u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_vb = { let k = <FixedLen<A4096>>::leaves(); let i = any::<FixedLen<A4096>>(&v[at..at + k], ch, env); at += k; i };
        let l_vc = { let k = <Str<u8>>::leaves(); let i = any::<Str<u8>>(&v[at..at + k], ch, env); at += k; i };
        s_fl::Init { va: l_va, vb: l_vb, vc: l_vc }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.va.read(out);
        r.vb.read(out);
        r.vc.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.va.parts(out);
        r.vb.parts(out);
        r.vc.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <FixedLen<u8>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<u8>>::set(m.va, leaf - at, idx, x); } at += k; }
        { let k = <FixedLen<A4096>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<A4096>>::set(m.vb, leaf - at, idx, x); } at += k; }
        { let k = <Str<u8>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u8>>::set(m.vc, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <FixedLen<u8>>::set_all(m.va, at, f); at += <FixedLen<u8>>::leaves();
        <FixedLen<A4096>>::set_all(m.vb, at, f); at += <FixedLen<A4096>>::leaves();
        <Str<u8>>::set_all(m.vc, at, f); at += <Str<u8>>::leaves();
    }
}
impl Ctl for SFl {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <FixedLen<u8>>::leaves(); at += <FixedLen<A4096>>::leaves(); at += <Str<u8>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<FixedLen<u8>>::shapes(&[l])[0].iter()); q.extend(<FixedLen<A4096>>::shapes(&[l])[0].iter()); q.extend(<Str<u8>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SFl(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_fl::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SFm {
    #[controls_layout]
    pub ca: u8,
    #[varlen_array]
    pub ab: [A256; (*ca as usize) / 2],
    #[varlen_array]
    pub ac: [u8; *ca as usize],
}
struct MirrorSFm { ca: u8 }
pub fn lens_SFm(c: &[usize]) -> [usize; 2] { [c[0] / 2, c[0]] }
impl<'e> VClone<'e> for SFm {
    type Cloner = s_fm::Init<CloneFrom<'e, A256>, CloneFrom<'e, u8>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_fm::Init {
        ca: self.ca.clone(),
        ab: CloneFrom(r.ab),
        ac: CloneFrom(r.ac),
    } }
}
impl Subj for SFm {
    type Direct<'e> = s_fm::Init<ArrInit<'e, A256>, ArrInit<'e, u8>>;
    type Clo<'e> = <SFm as VClone<'e>>::Cloner;
    fn name() -> String { "SFm".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Dep(<A256 as Pay>::MASK)); out.push(Kind::Dep(<u8 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(<A256 as Pay>::TOK); out.push(<u8 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SFm(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <A256 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u8 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSFm>(), std::mem::align_of::<A256>(), std::mem::align_of::<u8>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSFm>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SFm, ca), std::mem::size_of::<u8>())); at += 1;
        size = up(size, std::mem::align_of::<A256>()); { let n = lens[at] * std::mem::size_of::<A256>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<u8>()); { let n = lens[at] * std::mem::size_of::<u8>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_ca: u8 = (v[at][0] as u8); at += 1;
        let l_ab = arr_init::<A256>(&v[at], ch, env); at += 1;
        let l_ac = arr_init::<u8>(&v[at], ch, env); at += 1;
        s_fm::Init { ca: l_ca, ab: l_ab, ac: l_ac }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.ca as u64]);
        if r.ab.len() > 1 << 20 { crate::fail!("length {} of ab is absurd", r.ab.len()); } out.push(r.ab.iter().map(|p| p.val()).collect());
        if r.ac.len() > 1 << 20 { crate::fail!("length {} of ac is absurd", r.ac.len()); } out.push(r.ac.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.ca as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.ab.as_ptr() as usize, std::mem::size_of_val(r.ab)));
        out.push((r.ac.as_ptr() as usize, std::mem::size_of_val(r.ac)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <A256 as Pay>::mk(x)); m.ab[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); m.ac[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        for (i, p) in m.ab.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <A256 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ac.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u8 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SFm {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u8"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(al[0]); q.push(al[1]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SFm(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_fm::LayoutControllers { ca: (c[0] as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.ca) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.ca as u64] }
}
#[define_varlen]

pub struct SFn {
    #[controls_layout]
    pub ca: u8,
    #[varlen_array]
    pub ab: [u8; *ca as usize],
    #[varlen_array]
    pub ac: [T8; *ca as usize],
    #[varlen_array]
    pub ad: [u16; *ca as usize],
    #[varlen_array]
    pub ae: [T2; *ca as usize],
    #[varlen_array]
    pub af: [u64; *ca as usize],
    #[varlen_array]
    pub ag: [u8; *ca as usize],
    #[varlen_array]
    pub ah: [T16; *ca as usize],
    #[varlen_array]
    pub ai: [A16; *ca as usize],
    #[varlen_array]
    pub aj: [T12; *ca as usize],
    #[varlen_array]
    pub ak: [u8; *ca as usize],
    #[varlen_array]
    pub al: [T8; *ca as usize],
}
struct MirrorSFn { ca: u8 }
pub fn lens_SFn(c: &[usize]) -> [usize; 11] { [c[0], c[0], c[0], c[0], c[0], c[0], c[0], c[0], c[0], c[0], c[0]] }
impl<'e> VClone<'e> for SFn {
    type Cloner = s_fn::Init<CloneFrom<'e, u8>, CloneFrom<'e, T8>, CloneFrom<'e, u16>, CloneFrom<'e, T2>, CloneFrom<'e, u64>, CloneFrom<'e, u8>, CloneFrom<'e, T16>, CloneFrom<'e, A16>, CloneFrom<'e, T12>, CloneFrom<'e, u8>, CloneFrom<'e, T8>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_fn::Init {
        ca: self.ca.clone(),
        ab: CloneFrom(r.ab),
        ac: CloneFrom(r.ac),
        ad: CloneFrom(r.ad),
        ae: CloneFrom(r.ae),
        af: CloneFrom(r.af),
        ag: CloneFrom(r.ag),
        ah: CloneFrom(r.ah),
        ai: CloneFrom(r.ai),
        aj: CloneFrom(r.aj),
        ak: CloneFrom(r.ak),
        al: CloneFrom(r.al),
    } }
}
impl Subj for SFn {
    type Direct<'e> = s_fn::Init<ArrInit<'e, u8>, ArrInit<'e, T8>, ArrInit<'e, u16>, ArrInit<'e, T2>, ArrInit<'e, u64>, ArrInit<'e, u8>, ArrInit<'e, T16>, ArrInit<'e, A16>, ArrInit<'e, T12>, ArrInit<'e, u8>, ArrInit<'e, T8>>;
    type Clo<'e> = <SFn as VClone<'e>>::Cloner;
    fn name() -> String { "SFn".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Dep(<u8 as Pay>::MASK)); out.push(Kind::Dep(<T8 as Pay>::MASK)); out.push(Kind::Dep(<u16 as Pay>::MASK)); out.push(Kind::Dep(<T2 as Pay>::MASK)); out.push(Kind::Dep(<u64 as Pay>::MASK)); out.push(Kind::Dep(<u8 as Pay>::MASK)); out.push(Kind::Dep(<T16 as Pay>::MASK)); out.push(Kind::Dep(<A16 as Pay>::MASK)); out.push(Kind::Dep(<T12 as Pay>::MASK)); out.push(Kind::Dep(<u8 as Pay>::MASK)); out.push(Kind::Dep(<T8 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(<u8 as Pay>::TOK); out.push(<T8 as Pay>::TOK); out.push(<u16 as Pay>::TOK); out.push(<T2 as Pay>::TOK); out.push(<u64 as Pay>::TOK); out.push(<u8 as Pay>::TOK); out.push(<T16 as Pay>::TOK); out.push(<A16 as Pay>::TOK); out.push(<T12 as Pay>::TOK); out.push(<u8 as Pay>::TOK); out.push(<T8 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SFn(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[2]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[3]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[4]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[5]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[6]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[7]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[8]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[9]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[10]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u8 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T8 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u16 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T2 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u64 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u8 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T16 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <A16 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T12 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u8 as Pay>::MASK).collect()); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T8 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSFn>(), std::mem::align_of::<u8>(), std::mem::align_of::<T8>(), std::mem::align_of::<u16>(), std::mem::align_of::<T2>(), std::mem::align_of::<u64>(), std::mem::align_of::<u8>(), std::mem::align_of::<T16>(), std::mem::align_of::<A16>(), std::mem::align_of::<T12>(), std::mem::align_of::<u8>(), std::mem::align_of::<T8>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSFn>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SFn, ca), std::mem::size_of::<u8>())); at += 1;
        size = up(size, std::mem::align_of::<u8>()); { let n = lens[at] * std::mem::size_of::<u8>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<T8>()); { let n = lens[at] * std::mem::size_of::<T8>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<u16>()); { let n = lens[at] * std::mem::size_of::<u16>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<T2>()); { let n = lens[at] * std::mem::size_of::<T2>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<u64>()); { let n = lens[at] * std::mem::size_of::<u64>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<u8>()); { let n = lens[at] * std::mem::size_of::<u8>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<T16>()); { let n = lens[at] * std::mem::size_of::<T16>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<A16>()); { let n = lens[at] * std::mem::size_of::<A16>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<T12>()); { let n = lens[at] * std::mem::size_of::<T12>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<u8>()); { let n = lens[at] * std::mem::size_of::<u8>(); out.push((base + size, n)); size += n; at += 1; }
        size = up(size, std::mem::align_of::<T8>()); { let n = lens[at] * std::mem::size_of::<T8>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_ca: u8 = (v[at][0] as u8); at += 1;
        let l_ab = arr_init::<u8>(&v[at], ch, env); at += 1;
        let l_ac = arr_init::<T8>(&v[at], ch, env); at += 1;
        let l_ad = arr_init::<u16>(&v[at], ch, env); at += 1;
        let l_ae = arr_init::<T2>(&v[at], ch, env); at += 1;
        let l_af = arr_init::<u64>(&v[at], ch, env); at += 1;
        let l_ag = arr_init::<u8>(&v[at], ch, env); at += 1;
        let l_ah = arr_init::<T16>(&v[at], ch, env); at += 1;
        let l_ai = arr_init::<A16>(&v[at], ch, env); at += 1;
        let l_aj = arr_init::<T12>(&v[at], ch, env); at += 1;
        let l_ak = arr_init::<u8>(&v[at], ch, env); at += 1;
        let l_al = arr_init::<T8>(&v[at], ch, env); at += 1;
        s_fn::Init { ca: l_ca, ab: l_ab, ac: l_ac, ad: l_ad, ae: l_ae, af: l_af, ag: l_ag, ah: l_ah, ai: l_ai, aj: l_aj, ak: l_ak, al: l_al }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.ca as u64]);
        if r.ab.len() > 1 << 20 { crate::fail!("length {} of ab is absurd", r.ab.len()); } out.push(r.ab.iter().map(|p| p.val()).collect());
        if r.ac.len() > 1 << 20 { crate::fail!("length {} of ac is absurd", r.ac.len()); } out.push(r.ac.iter().map(|p| p.val()).collect());
        if r.ad.len() > 1 << 20 { crate::fail!("length {} of ad is absurd", r.ad.len()); } out.push(r.ad.iter().map(|p| p.val()).collect());
        if r.ae.len() > 1 << 20 { crate::fail!("length {} of ae is absurd", r.ae.len()); } out.push(r.ae.iter().map(|p| p.val()).collect());
        if r.af.len() > 1 << 20 { crate::fail!("length {} of af is absurd", r.af.len()); } out.push(r.af.iter().map(|p| p.val()).collect());
        if r.ag.len() > 1 << 20 { crate::fail!("length {} of ag is absurd", r.ag.len()); } out.push(r.ag.iter().map(|p| p.val()).collect());
        if r.ah.len() > 1 << 20 { crate::fail!("length {} of ah is absurd", r.ah.len()); } out.push(r.ah.iter().map(|p| p.val()).collect());
        if r.ai.len() > 1 << 20 { crate::fail!("length {} of ai is absurd", r.ai.len()); } out.push(r.ai.iter().map(|p| p.val()).collect());
        if r.aj.len() > 1 << 20 { crate::fail!("length {} of aj is absurd", r.aj.len()); } out.push(r.aj.iter().map(|p| p.val()).collect());
        if r.ak.len() > 1 << 20 { crate::fail!("length {} of ak is absurd", r.ak.len()); } out.push(r.ak.iter().map(|p| p.val()).collect());
        if r.al.len() > 1 << 20 { crate::fail!("length {} of al is absurd", r.al.len()); } out.push(r.al.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.ca as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.ab.as_ptr() as usize, std::mem::size_of_val(r.ab)));
        out.push((r.ac.as_ptr() as usize, std::mem::size_of_val(r.ac)));
        out.push((r.ad.as_ptr() as usize, std::mem::size_of_val(r.ad)));
        out.push((r.ae.as_ptr() as usize, std::mem::size_of_val(r.ae)));
        out.push((r.af.as_ptr() as usize, std::mem::size_of_val(r.af)));
        out.push((r.ag.as_ptr() as usize, std::mem::size_of_val(r.ag)));
        out.push((r.ah.as_ptr() as usize, std::mem::size_of_val(r.ah)));
        out.push((r.ai.as_ptr() as usize, std::mem::size_of_val(r.ai)));
        out.push((r.aj.as_ptr() as usize, std::mem::size_of_val(r.aj)));
        out.push((r.ak.as_ptr() as usize, std::mem::size_of_val(r.ak)));
        out.push((r.al.as_ptr() as usize, std::mem::size_of_val(r.al)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); m.ab[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); m.ac[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u16 as Pay>::mk(x)); m.ad[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <T2 as Pay>::mk(x)); m.ae[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u64 as Pay>::mk(x)); m.af[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); m.ag[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <T16 as Pay>::mk(x)); m.ah[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <A16 as Pay>::mk(x)); m.ai[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <T12 as Pay>::mk(x)); m.aj[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); m.ak[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); m.al[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        for (i, p) in m.ab.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u8 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ac.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T8 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ad.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u16 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ae.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T2 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.af.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u64 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ag.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u8 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ah.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T16 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ai.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <A16 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.aj.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T12 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.ak.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u8 as Pay>::mk(x)); } at += 1;
        for (i, p) in m.al.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T8 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SFn {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u8"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; at += 1; at += 1; at += 1; at += 1; at += 1; at += 1; at += 1; at += 1; at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(al[0]); q.push(al[1]); q.push(al[2]); q.push(al[3]); q.push(al[4]); q.push(al[5]); q.push(al[6]); q.push(al[7]); q.push(al[8]); q.push(al[9]); q.push(al[10]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SFn(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_fn::LayoutControllers { ca: (c[0] as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.ca) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.ca as u64] }
}
#[define_varlen]

pub struct SFo {
    #[varlen]
    pub va: Str<u8>,
    #[varlen]
    pub vb: FixedLen<u8>,
    #[varlen]
    pub vc: FixedLen<T8>,
    #[varlen]
    pub vd: FixedLen<u64>,
    #[varlen]
    pub ve: FixedLen<u8>,
    #[varlen]
    pub vf: FixedLen<T2>,
    #[varlen]
    pub vg: FixedLen<u16>,
    #[varlen]
    pub vh: FixedLen<u8>,
    #[varlen]
    pub vi: Array<T8, u8>,
    #[varlen]
    pub vj: FixedLen<T16>,
    #[varlen]
    pub vk: Str<u8>,
    #[varlen]
    pub vl: FixedLen<T12>,
}
struct MirrorSFo {  }
pub fn lens_SFo(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SFo {
    type Cloner = s_fo::Init<<Str<u8> as VClone<'e>>::Cloner, <FixedLen<u8> as VClone<'e>>::Cloner, <FixedLen<T8> as VClone<'e>>::Cloner, <FixedLen<u64> as VClone<'e>>::Cloner, <FixedLen<u8> as VClone<'e>>::Cloner, <FixedLen<T2> as VClone<'e>>::Cloner, <FixedLen<u16> as VClone<'e>>::Cloner, <FixedLen<u8> as VClone<'e>>::Cloner, <Array<T8, u8> as VClone<'e>>::Cloner, <FixedLen<T16> as VClone<'e>>::Cloner, <Str<u8> as VClone<'e>>::Cloner, <FixedLen<T12> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_fo::Init {
        va: r.va.vclone(),
        vb: r.vb.vclone(),
        vc: r.vc.vclone(),
        vd: r.vd.vclone(),
        ve: r.ve.vclone(),
        vf: r.vf.vclone(),
        vg: r.vg.vclone(),
        vh: r.vh.vclone(),
        vi: r.vi.vclone(),
        vj: r.vj.vclone(),
        vk: r.vk.vclone(),
        vl: r.vl.vclone(),
    } }
}
impl Subj for SFo {
    type Direct<'e> = s_fo::Init<AnyInit<'e, Str<u8>>, AnyInit<'e, FixedLen<u8>>, AnyInit<'e, FixedLen<T8>>, AnyInit<'e, FixedLen<u64>>, AnyInit<'e, FixedLen<u8>>, AnyInit<'e, FixedLen<T2>>, AnyInit<'e, FixedLen<u16>>, AnyInit<'e, FixedLen<u8>>, AnyInit<'e, Array<T8, u8>>, AnyInit<'e, FixedLen<T16>>, AnyInit<'e, Str<u8>>, AnyInit<'e, FixedLen<T12>>>;
    type Clo<'e> = <SFo as VClone<'e>>::Cloner;
    fn name() -> String { "SFo".into() }
    fn kinds(out: &mut Vec<Kind>) { <Str<u8>>::kinds(out); <FixedLen<u8>>::kinds(out); <FixedLen<T8>>::kinds(out); <FixedLen<u64>>::kinds(out); <FixedLen<u8>>::kinds(out); <FixedLen<T2>>::kinds(out); <FixedLen<u16>>::kinds(out); <FixedLen<u8>>::kinds(out); <Array<T8, u8>>::kinds(out); <FixedLen<T16>>::kinds(out); <Str<u8>>::kinds(out); <FixedLen<T12>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { <Str<u8>>::toks(out); <FixedLen<u8>>::toks(out); <FixedLen<T8>>::toks(out); <FixedLen<u64>>::toks(out); <FixedLen<u8>>::toks(out); <FixedLen<T2>>::toks(out); <FixedLen<u16>>::toks(out); <FixedLen<u8>>::toks(out); <Array<T8, u8>>::toks(out); <FixedLen<T16>>::toks(out); <Str<u8>>::toks(out); <FixedLen<T12>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SFo(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <Str<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<T8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<u64>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<T2>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<u16>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<T8, u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<T16>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Str<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<T12>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <Str<u8>>::leaves(); out.extend(<Str<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <FixedLen<u8>>::leaves(); out.extend(<FixedLen<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <FixedLen<T8>>::leaves(); out.extend(<FixedLen<T8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <FixedLen<u64>>::leaves(); out.extend(<FixedLen<u64>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <FixedLen<u8>>::leaves(); out.extend(<FixedLen<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <FixedLen<T2>>::leaves(); out.extend(<FixedLen<T2>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <FixedLen<u16>>::leaves(); out.extend(<FixedLen<u16>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <FixedLen<u8>>::leaves(); out.extend(<FixedLen<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <Array<T8, u8>>::leaves(); out.extend(<Array<T8, u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <FixedLen<T16>>::leaves(); out.extend(<FixedLen<T16>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <Str<u8>>::leaves(); out.extend(<Str<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <FixedLen<T12>>::leaves(); out.extend(<FixedLen<T12>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSFo>(), <Str<u8>>::r_align(), <FixedLen<u8>>::r_align(), <FixedLen<T8>>::r_align(), <FixedLen<u64>>::r_align(), <FixedLen<u8>>::r_align(), <FixedLen<T2>>::r_align(), <FixedLen<u16>>::r_align(), <FixedLen<u8>>::r_align(), <Array<T8, u8>>::r_align(), <FixedLen<T16>>::r_align(), <Str<u8>>::r_align(), <FixedLen<T12>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSFo>(); let mut at = 0;
        { let k = <Str<u8>>::leaves(); size = up(size, <Str<u8>>::r_align()); size += <Str<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <FixedLen<u8>>::leaves(); size = up(size, <FixedLen<u8>>::r_align()); size += <FixedLen<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <FixedLen<T8>>::leaves(); size = up(size, <FixedLen<T8>>::r_align()); size += <FixedLen<T8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <FixedLen<u64>>::leaves(); size = up(size, <FixedLen<u64>>::r_align()); size += <FixedLen<u64>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <FixedLen<u8>>::leaves(); size = up(size, <FixedLen<u8>>::r_align()); size += <FixedLen<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <FixedLen<T2>>::leaves(); size = up(size, <FixedLen<T2>>::r_align()); size += <FixedLen<T2>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <FixedLen<u16>>::leaves(); size = up(size, <FixedLen<u16>>::r_align()); size += <FixedLen<u16>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <FixedLen<u8>>::leaves(); size = up(size, <FixedLen<u8>>::r_align()); size += <FixedLen<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <Array<T8, u8>>::leaves(); size = up(size, <Array<T8, u8>>::r_align()); size += <Array<T8, u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <FixedLen<T16>>::leaves(); size = up(size, <FixedLen<T16>>::r_align()); size += <FixedLen<T16>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <Str<u8>>::leaves(); size = up(size, <Str<u8>>::r_align()); size += <Str<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <FixedLen<T12>>::leaves(); size = up(size, <FixedLen<T12>>::r_align()); size += <FixedLen<T12>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_va = { let k = <Str<u8>>::leaves(); let i = any::<Str<u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_vb = { let k = <FixedLen<u8>>::leaves(); let i = any::<FixedLen<u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_vc = { let k = <FixedLen<T8>>::leaves(); let i = any::<FixedLen<T8>>(&v[at..at + k], ch, env); at += k; i };
        let l_vd = { let k = <FixedLen<u64>>::leaves(); let i = any::<FixedLen<u64>>(&v[at..at + k], ch, env); at += k; i };
        let l_ve = { let k = <FixedLen<u8>>::leaves(); let i = any::<FixedLen<u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_vf = { let k = <FixedLen<T2>>::leaves(); let i = any::<FixedLen<T2>>(&v[at..at + k], ch, env); at += k; i };
        let l_vg = { let k = <FixedLen<u16>>::leaves(); let i = any::<FixedLen<u16>>(&v[at..at + k], ch, env); at += k; i };
        let l_vh = { let k = <FixedLen<u8>>::leaves(); let i = any::<FixedLen<u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_vi = { let k = <Array<T8, u8>>::leaves(); let i = any::<Array<T8, u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_vj = { let k = <FixedLen<T16>>::leaves(); let i = any::<FixedLen<T16>>(&v[at..at + k], ch, env); at += k; i };
        let l_vk = { let k = <Str<u8>>::leaves(); let i = any::<Str<u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_vl = { let k = <FixedLen<T12>>::leaves(); let i = any::<FixedLen<T12>>(&v[at..at + k], ch, env); at += k; i };
        s_fo::Init { va: l_va, vb: l_vb, vc: l_vc, vd: l_vd, ve: l_ve, vf: l_vf, vg: l_vg, vh: l_vh, vi: l_vi, vj: l_vj, vk: l_vk, vl: l_vl }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.va.read(out);
        r.vb.read(out);
        r.vc.read(out);
        r.vd.read(out);
        r.ve.read(out);
        r.vf.read(out);
        r.vg.read(out);
        r.vh.read(out);
        r.vi.read(out);
        r.vj.read(out);
        r.vk.read(out);
        r.vl.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.va.parts(out);
        r.vb.parts(out);
        r.vc.parts(out);
        r.vd.parts(out);
        r.ve.parts(out);
        r.vf.parts(out);
        r.vg.parts(out);
        r.vh.parts(out);
        r.vi.parts(out);
        r.vj.parts(out);
        r.vk.parts(out);
        r.vl.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <Str<u8>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u8>>::set(m.va, leaf - at, idx, x); } at += k; }
        { let k = <FixedLen<u8>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<u8>>::set(m.vb, leaf - at, idx, x); } at += k; }
        { let k = <FixedLen<T8>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<T8>>::set(m.vc, leaf - at, idx, x); } at += k; }
        { let k = <FixedLen<u64>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<u64>>::set(m.vd, leaf - at, idx, x); } at += k; }
        { let k = <FixedLen<u8>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<u8>>::set(m.ve, leaf - at, idx, x); } at += k; }
        { let k = <FixedLen<T2>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<T2>>::set(m.vf, leaf - at, idx, x); } at += k; }
        { let k = <FixedLen<u16>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<u16>>::set(m.vg, leaf - at, idx, x); } at += k; }
        { let k = <FixedLen<u8>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<u8>>::set(m.vh, leaf - at, idx, x); } at += k; }
        { let k = <Array<T8, u8>>::leaves(); if leaf >= at && leaf < at + k { return <Array<T8, u8>>::set(m.vi, leaf - at, idx, x); } at += k; }
        { let k = <FixedLen<T16>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<T16>>::set(m.vj, leaf - at, idx, x); } at += k; }
        { let k = <Str<u8>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u8>>::set(m.vk, leaf - at, idx, x); } at += k; }
        { let k = <FixedLen<T12>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<T12>>::set(m.vl, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <Str<u8>>::set_all(m.va, at, f); at += <Str<u8>>::leaves();
        <FixedLen<u8>>::set_all(m.vb, at, f); at += <FixedLen<u8>>::leaves();
        <FixedLen<T8>>::set_all(m.vc, at, f); at += <FixedLen<T8>>::leaves();
        <FixedLen<u64>>::set_all(m.vd, at, f); at += <FixedLen<u64>>::leaves();
        <FixedLen<u8>>::set_all(m.ve, at, f); at += <FixedLen<u8>>::leaves();
        <FixedLen<T2>>::set_all(m.vf, at, f); at += <FixedLen<T2>>::leaves();
        <FixedLen<u16>>::set_all(m.vg, at, f); at += <FixedLen<u16>>::leaves();
        <FixedLen<u8>>::set_all(m.vh, at, f); at += <FixedLen<u8>>::leaves();
        <Array<T8, u8>>::set_all(m.vi, at, f); at += <Array<T8, u8>>::leaves();
        <FixedLen<T16>>::set_all(m.vj, at, f); at += <FixedLen<T16>>::leaves();
        <Str<u8>>::set_all(m.vk, at, f); at += <Str<u8>>::leaves();
        <FixedLen<T12>>::set_all(m.vl, at, f); at += <FixedLen<T12>>::leaves();
    }
}
impl Ctl for SFo {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <Str<u8>>::leaves(); at += <FixedLen<u8>>::leaves(); at += <FixedLen<T8>>::leaves(); at += <FixedLen<u64>>::leaves(); at += <FixedLen<u8>>::leaves(); at += <FixedLen<T2>>::leaves(); at += <FixedLen<u16>>::leaves(); at += <FixedLen<u8>>::leaves(); at += <Array<T8, u8>>::leaves(); at += <FixedLen<T16>>::leaves(); at += <Str<u8>>::leaves(); at += <FixedLen<T12>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<Str<u8>>::shapes(&[l])[0].iter()); q.extend(<FixedLen<u8>>::shapes(&[l])[0].iter()); q.extend(<FixedLen<T8>>::shapes(&[l])[0].iter()); q.extend(<FixedLen<u64>>::shapes(&[l])[0].iter()); q.extend(<FixedLen<u8>>::shapes(&[l])[0].iter()); q.extend(<FixedLen<T2>>::shapes(&[l])[0].iter()); q.extend(<FixedLen<u16>>::shapes(&[l])[0].iter()); q.extend(<FixedLen<u8>>::shapes(&[l])[0].iter()); q.extend(<Array<T8, u8>>::shapes(&[l])[0].iter()); q.extend(<FixedLen<T16>>::shapes(&[l])[0].iter()); q.extend(<Str<u8>>::shapes(&[l])[0].iter()); q.extend(<FixedLen<T12>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SFo(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_fo::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SFp {
    pub na: u8,
    pub nb: u8,
    pub nc: T8,
    pub nd: u32,
    pub ne: T16,
    pub nf: u64,
    pub ng: T2,
    pub nh: T2,
    pub ni: T8,
    pub nj: u64,
    pub nk: A16,
    pub nl: T16,
    #[varlen]
    pub vm: Array<T8, u8>,
}
struct MirrorSFp { na: u8, nb: u8, nc: T8, nd: u32, ne: T16, nf: u64, ng: T2, nh: T2, ni: T8, nj: u64, nk: A16, nl: T16 }
pub fn lens_SFp(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SFp {
    type Cloner = s_fp::Init<<Array<T8, u8> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_fp::Init {
        na: self.na.clone(),
        nb: self.nb.clone(),
        nc: self.nc.clone(),
        nd: self.nd.clone(),
        ne: self.ne.clone(),
        nf: self.nf.clone(),
        ng: self.ng.clone(),
        nh: self.nh.clone(),
        ni: self.ni.clone(),
        nj: self.nj.clone(),
        nk: self.nk.clone(),
        nl: self.nl.clone(),
        vm: r.vm.vclone(),
    } }
}
impl Subj for SFp {
    type Direct<'e> = s_fp::Init<AnyInit<'e, Array<T8, u8>>>;
    type Clo<'e> = <SFp as VClone<'e>>::Cloner;
    fn name() -> String { "SFp".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<u8 as Pay>::MASK)); out.push(Kind::Fixed(<u8 as Pay>::MASK)); out.push(Kind::Fixed(<T8 as Pay>::MASK)); out.push(Kind::Fixed(<u32 as Pay>::MASK)); out.push(Kind::Fixed(<T16 as Pay>::MASK)); out.push(Kind::Fixed(<u64 as Pay>::MASK)); out.push(Kind::Fixed(<T2 as Pay>::MASK)); out.push(Kind::Fixed(<T2 as Pay>::MASK)); out.push(Kind::Fixed(<T8 as Pay>::MASK)); out.push(Kind::Fixed(<u64 as Pay>::MASK)); out.push(Kind::Fixed(<A16 as Pay>::MASK)); out.push(Kind::Fixed(<T16 as Pay>::MASK)); <Array<T8, u8>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { out.push(<u8 as Pay>::TOK); out.push(<u8 as Pay>::TOK); out.push(<T8 as Pay>::TOK); out.push(<u32 as Pay>::TOK); out.push(<T16 as Pay>::TOK); out.push(<u64 as Pay>::TOK); out.push(<T2 as Pay>::TOK); out.push(<T2 as Pay>::TOK); out.push(<T8 as Pay>::TOK); out.push(<u64 as Pay>::TOK); out.push(<A16 as Pay>::TOK); out.push(<T16 as Pay>::TOK); <Array<T8, u8>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SFp(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<T8, u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <u8 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <u8 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <T8 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <u32 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <T16 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <u64 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <T2 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <T2 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <T8 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <u64 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <A16 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <T16 as Pay>::MASK]); at += 1;
        { let k = <Array<T8, u8>>::leaves(); out.extend(<Array<T8, u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSFp>(), <Array<T8, u8>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSFp>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SFp, na), std::mem::size_of::<u8>())); at += 1;
        out.push((base + std::mem::offset_of!(SFp, nb), std::mem::size_of::<u8>())); at += 1;
        out.push((base + std::mem::offset_of!(SFp, nc), std::mem::size_of::<T8>())); at += 1;
        out.push((base + std::mem::offset_of!(SFp, nd), std::mem::size_of::<u32>())); at += 1;
        out.push((base + std::mem::offset_of!(SFp, ne), std::mem::size_of::<T16>())); at += 1;
        out.push((base + std::mem::offset_of!(SFp, nf), std::mem::size_of::<u64>())); at += 1;
        out.push((base + std::mem::offset_of!(SFp, ng), std::mem::size_of::<T2>())); at += 1;
        out.push((base + std::mem::offset_of!(SFp, nh), std::mem::size_of::<T2>())); at += 1;
        out.push((base + std::mem::offset_of!(SFp, ni), std::mem::size_of::<T8>())); at += 1;
        out.push((base + std::mem::offset_of!(SFp, nj), std::mem::size_of::<u64>())); at += 1;
        out.push((base + std::mem::offset_of!(SFp, nk), std::mem::size_of::<A16>())); at += 1;
        out.push((base + std::mem::offset_of!(SFp, nl), std::mem::size_of::<T16>())); at += 1;
        { let k = <Array<T8, u8>>::leaves(); size = up(size, <Array<T8, u8>>::r_align()); size += <Array<T8, u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_na = <u8 as Pay>::mk(v[at][0]); at += 1;
        let l_nb = <u8 as Pay>::mk(v[at][0]); at += 1;
        let l_nc = <T8 as Pay>::mk(v[at][0]); at += 1;
        let l_nd = <u32 as Pay>::mk(v[at][0]); at += 1;
        let l_ne = <T16 as Pay>::mk(v[at][0]); at += 1;
        let l_nf = <u64 as Pay>::mk(v[at][0]); at += 1;
        let l_ng = <T2 as Pay>::mk(v[at][0]); at += 1;
        let l_nh = <T2 as Pay>::mk(v[at][0]); at += 1;
        let l_ni = <T8 as Pay>::mk(v[at][0]); at += 1;
        let l_nj = <u64 as Pay>::mk(v[at][0]); at += 1;
        let l_nk = <A16 as Pay>::mk(v[at][0]); at += 1;
        let l_nl = <T16 as Pay>::mk(v[at][0]); at += 1;
        let l_vm = { let k = <Array<T8, u8>>::leaves(); let i = any::<Array<T8, u8>>(&v[at..at + k], ch, env); at += k; i };
        s_fp::Init { na: l_na, nb: l_nb, nc: l_nc, nd: l_nd, ne: l_ne, nf: l_nf, ng: l_ng, nh: l_nh, ni: l_ni, nj: l_nj, nk: l_nk, nl: l_nl, vm: l_vm }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.na.val()]); if !std::ptr::eq(r.na, &self.na) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().na is not the header field".into()); }
        out.push(vec![r.nb.val()]); if !std::ptr::eq(r.nb, &self.nb) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nb is not the header field".into()); }
        out.push(vec![r.nc.val()]); if !std::ptr::eq(r.nc, &self.nc) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nc is not the header field".into()); }
        out.push(vec![r.nd.val()]); if !std::ptr::eq(r.nd, &self.nd) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nd is not the header field".into()); }
        out.push(vec![r.ne.val()]); if !std::ptr::eq(r.ne, &self.ne) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().ne is not the header field".into()); }
        out.push(vec![r.nf.val()]); if !std::ptr::eq(r.nf, &self.nf) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nf is not the header field".into()); }
        out.push(vec![r.ng.val()]); if !std::ptr::eq(r.ng, &self.ng) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().ng is not the header field".into()); }
        out.push(vec![r.nh.val()]); if !std::ptr::eq(r.nh, &self.nh) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nh is not the header field".into()); }
        out.push(vec![r.ni.val()]); if !std::ptr::eq(r.ni, &self.ni) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().ni is not the header field".into()); }
        out.push(vec![r.nj.val()]); if !std::ptr::eq(r.nj, &self.nj) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nj is not the header field".into()); }
        out.push(vec![r.nk.val()]); if !std::ptr::eq(r.nk, &self.nk) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nk is not the header field".into()); }
        out.push(vec![r.nl.val()]); if !std::ptr::eq(r.nl, &self.nl) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nl is not the header field".into()); }
        r.vm.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.na as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.nb as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.nc as *const T8 as usize, std::mem::size_of::<T8>()));
        out.push((r.nd as *const u32 as usize, std::mem::size_of::<u32>()));
        out.push((r.ne as *const T16 as usize, std::mem::size_of::<T16>()));
        out.push((r.nf as *const u64 as usize, std::mem::size_of::<u64>()));
        out.push((r.ng as *const T2 as usize, std::mem::size_of::<T2>()));
        out.push((r.nh as *const T2 as usize, std::mem::size_of::<T2>()));
        out.push((r.ni as *const T8 as usize, std::mem::size_of::<T8>()));
        out.push((r.nj as *const u64 as usize, std::mem::size_of::<u64>()));
        out.push((r.nk as *const A16 as usize, std::mem::size_of::<A16>()));
        out.push((r.nl as *const T16 as usize, std::mem::size_of::<T16>()));
        r.vm.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); *m.na = p; return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); *m.nb = p; return; } at += 1;
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); *m.nc = p; return; } at += 1;
        if leaf == at { let p = host(|| <u32 as Pay>::mk(x)); *m.nd = p; return; } at += 1;
        if leaf == at { let p = host(|| <T16 as Pay>::mk(x)); *m.ne = p; return; } at += 1;
        if leaf == at { let p = host(|| <u64 as Pay>::mk(x)); *m.nf = p; return; } at += 1;
        if leaf == at { let p = host(|| <T2 as Pay>::mk(x)); *m.ng = p; return; } at += 1;
        if leaf == at { let p = host(|| <T2 as Pay>::mk(x)); *m.nh = p; return; } at += 1;
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); *m.ni = p; return; } at += 1;
        if leaf == at { let p = host(|| <u64 as Pay>::mk(x)); *m.nj = p; return; } at += 1;
        if leaf == at { let p = host(|| <A16 as Pay>::mk(x)); *m.nk = p; return; } at += 1;
        if leaf == at { let p = host(|| <T16 as Pay>::mk(x)); *m.nl = p; return; } at += 1;
        { let k = <Array<T8, u8>>::leaves(); if leaf >= at && leaf < at + k { return <Array<T8, u8>>::set(m.vm, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.na.val()); *m.na = host(|| <u8 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.nb.val()); *m.nb = host(|| <u8 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.nc.val()); *m.nc = host(|| <T8 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.nd.val()); *m.nd = host(|| <u32 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.ne.val()); *m.ne = host(|| <T16 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.nf.val()); *m.nf = host(|| <u64 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.ng.val()); *m.ng = host(|| <T2 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.nh.val()); *m.nh = host(|| <T2 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.ni.val()); *m.ni = host(|| <T8 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.nj.val()); *m.nj = host(|| <u64 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.nk.val()); *m.nk = host(|| <A16 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.nl.val()); *m.nl = host(|| <T16 as Pay>::mk(x)); at += 1; }
        <Array<T8, u8>>::set_all(m.vm, at, f); at += <Array<T8, u8>>::leaves();
    }
}
impl Ctl for SFp {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += 1; at += 1; at += 1; at += 1; at += 1; at += 1; at += 1; at += 1; at += 1; at += 1; at += 1; at += <Array<T8, u8>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.push(1); q.push(1); q.push(1); q.push(1); q.push(1); q.push(1); q.push(1); q.push(1); q.push(1); q.push(1); q.push(1); q.extend(<Array<T8, u8>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SFp(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_fp::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct SFq {
    pub na: [u8; 3],
    #[controls_layout]
    pub cb: u8,
    #[varlen_array]
    pub ac: [T8; *cb as usize],
    #[varlen]
    pub vd: Str<u8>,
    pub ne: T12,
    #[controls_layout]
    pub cf: u16,
    #[varlen_array]
    pub ag: [u16; *cf as usize],
    #[varlen]
    pub vh: FixedLen<u64>,
    pub ni: T8,
    #[controls_layout]
    pub cj: bool,
    #[varlen_array]
    pub ak: [T16; if *cj { *cb as usize } else { *cf as usize }],
    #[varlen]
    pub vl: FixedLen<T12>,
    pub nm: T2,
}
struct MirrorSFq { na: [u8; 3], cb: u8, ne: T12, cf: u16, ni: T8, cj: bool, nm: T2 }
pub fn lens_SFq(c: &[usize]) -> [usize; 3] { [c[0], c[1], if c[2] != 0 { c[0] } else { c[1] }] }
impl<'e> VClone<'e> for SFq {
    type Cloner = s_fq::Init<CloneFrom<'e, T8>, <Str<u8> as VClone<'e>>::Cloner, CloneFrom<'e, u16>, <FixedLen<u64> as VClone<'e>>::Cloner, CloneFrom<'e, T16>, <FixedLen<T12> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_fq::Init {
        na: self.na.clone(),
        cb: self.cb.clone(),
        ac: CloneFrom(r.ac),
        vd: r.vd.vclone(),
        ne: self.ne.clone(),
        cf: self.cf.clone(),
        ag: CloneFrom(r.ag),
        vh: r.vh.vclone(),
        ni: self.ni.clone(),
        cj: self.cj.clone(),
        ak: CloneFrom(r.ak),
        vl: r.vl.vclone(),
        nm: self.nm.clone(),
    } }
}
impl Subj for SFq {
    type Direct<'e> = s_fq::Init<ArrInit<'e, T8>, AnyInit<'e, Str<u8>>, ArrInit<'e, u16>, AnyInit<'e, FixedLen<u64>>, ArrInit<'e, T16>, AnyInit<'e, FixedLen<T12>>>;
    type Clo<'e> = <SFq as VClone<'e>>::Cloner;
    fn name() -> String { "SFq".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<[u8; 3] as Pay>::MASK)); out.push(Kind::Ctl); out.push(Kind::Dep(<T8 as Pay>::MASK)); <Str<u8>>::kinds(out); out.push(Kind::Fixed(<T12 as Pay>::MASK)); out.push(Kind::Ctl); out.push(Kind::Dep(<u16 as Pay>::MASK)); <FixedLen<u64>>::kinds(out); out.push(Kind::Fixed(<T8 as Pay>::MASK)); out.push(Kind::Ctl); out.push(Kind::Dep(<T16 as Pay>::MASK)); <FixedLen<T12>>::kinds(out); out.push(Kind::Fixed(<T2 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(<[u8; 3] as Pay>::TOK); out.push(false); out.push(<T8 as Pay>::TOK); <Str<u8>>::toks(out); out.push(<T12 as Pay>::TOK); out.push(false); out.push(<u16 as Pay>::TOK); <FixedLen<u64>>::toks(out); out.push(<T8 as Pay>::TOK); out.push(false); out.push(<T16 as Pay>::TOK); <FixedLen<T12>>::toks(out); out.push(<T2 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(65535)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        { let mut o: Vec<usize> = ls.iter().map(|&l| (l & 1)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SFq(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Str<u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<u64>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[2]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[2]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<T12>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <[u8; 3] as Pay>::MASK]); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T8 as Pay>::MASK).collect()); at += 1;
        { let k = <Str<u8>>::leaves(); out.extend(<Str<u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![cell(seed, at, 0) & <T12 as Pay>::MASK]); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u16 as Pay>::MASK).collect()); at += 1;
        { let k = <FixedLen<u64>>::leaves(); out.extend(<FixedLen<u64>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![cell(seed, at, 0) & <T8 as Pay>::MASK]); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T16 as Pay>::MASK).collect()); at += 1;
        { let k = <FixedLen<T12>>::leaves(); out.extend(<FixedLen<T12>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![cell(seed, at, 0) & <T2 as Pay>::MASK]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSFq>(), std::mem::align_of::<T8>(), <Str<u8>>::r_align(), std::mem::align_of::<u16>(), <FixedLen<u64>>::r_align(), std::mem::align_of::<T16>(), <FixedLen<T12>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSFq>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SFq, na), std::mem::size_of::<[u8; 3]>())); at += 1;
        out.push((base + std::mem::offset_of!(SFq, cb), std::mem::size_of::<u8>())); at += 1;
        size = up(size, std::mem::align_of::<T8>()); { let n = lens[at] * std::mem::size_of::<T8>(); out.push((base + size, n)); size += n; at += 1; }
        { let k = <Str<u8>>::leaves(); size = up(size, <Str<u8>>::r_align()); size += <Str<u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SFq, ne), std::mem::size_of::<T12>())); at += 1;
        out.push((base + std::mem::offset_of!(SFq, cf), std::mem::size_of::<u16>())); at += 1;
        size = up(size, std::mem::align_of::<u16>()); { let n = lens[at] * std::mem::size_of::<u16>(); out.push((base + size, n)); size += n; at += 1; }
        { let k = <FixedLen<u64>>::leaves(); size = up(size, <FixedLen<u64>>::r_align()); size += <FixedLen<u64>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SFq, ni), std::mem::size_of::<T8>())); at += 1;
        out.push((base + std::mem::offset_of!(SFq, cj), std::mem::size_of::<bool>())); at += 1;
        size = up(size, std::mem::align_of::<T16>()); { let n = lens[at] * std::mem::size_of::<T16>(); out.push((base + size, n)); size += n; at += 1; }
        { let k = <FixedLen<T12>>::leaves(); size = up(size, <FixedLen<T12>>::r_align()); size += <FixedLen<T12>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SFq, nm), std::mem::size_of::<T2>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_na = <[u8; 3] as Pay>::mk(v[at][0]); at += 1;
        let l_cb: u8 = (v[at][0] as u8); at += 1;
        let l_ac = arr_init::<T8>(&v[at], ch, env); at += 1;
        let l_vd = { let k = <Str<u8>>::leaves(); let i = any::<Str<u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_ne = <T12 as Pay>::mk(v[at][0]); at += 1;
        let l_cf: u16 = (v[at][0] as u16); at += 1;
        let l_ag = arr_init::<u16>(&v[at], ch, env); at += 1;
        let l_vh = { let k = <FixedLen<u64>>::leaves(); let i = any::<FixedLen<u64>>(&v[at..at + k], ch, env); at += k; i };
        let l_ni = <T8 as Pay>::mk(v[at][0]); at += 1;
        let l_cj: bool = (v[at][0] != 0); at += 1;
        let l_ak = arr_init::<T16>(&v[at], ch, env); at += 1;
        let l_vl = { let k = <FixedLen<T12>>::leaves(); let i = any::<FixedLen<T12>>(&v[at..at + k], ch, env); at += k; i };
        let l_nm = <T2 as Pay>::mk(v[at][0]); at += 1;
        s_fq::Init { na: l_na, cb: l_cb, ac: l_ac, vd: l_vd, ne: l_ne, cf: l_cf, ag: l_ag, vh: l_vh, ni: l_ni, cj: l_cj, ak: l_ak, vl: l_vl, nm: l_nm }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.na.val()]); if !std::ptr::eq(r.na, &self.na) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().na is not the header field".into()); }
        out.push(vec![*r.cb as u64]);
        if r.ac.len() > 1 << 20 { crate::fail!("length {} of ac is absurd", r.ac.len()); } out.push(r.ac.iter().map(|p| p.val()).collect());
        r.vd.read(out);
        out.push(vec![r.ne.val()]); if !std::ptr::eq(r.ne, &self.ne) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().ne is not the header field".into()); }
        out.push(vec![*r.cf as u64]);
        if r.ag.len() > 1 << 20 { crate::fail!("length {} of ag is absurd", r.ag.len()); } out.push(r.ag.iter().map(|p| p.val()).collect());
        r.vh.read(out);
        out.push(vec![r.ni.val()]); if !std::ptr::eq(r.ni, &self.ni) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().ni is not the header field".into()); }
        out.push(vec![(*r.cj) as u64]);
        if r.ak.len() > 1 << 20 { crate::fail!("length {} of ak is absurd", r.ak.len()); } out.push(r.ak.iter().map(|p| p.val()).collect());
        r.vl.read(out);
        out.push(vec![r.nm.val()]); if !std::ptr::eq(r.nm, &self.nm) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nm is not the header field".into()); }
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.na as *const [u8; 3] as usize, std::mem::size_of::<[u8; 3]>()));
        out.push((r.cb as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.ac.as_ptr() as usize, std::mem::size_of_val(r.ac)));
        r.vd.parts(out);
        out.push((r.ne as *const T12 as usize, std::mem::size_of::<T12>()));
        out.push((r.cf as *const u16 as usize, std::mem::size_of::<u16>()));
        out.push((r.ag.as_ptr() as usize, std::mem::size_of_val(r.ag)));
        r.vh.parts(out);
        out.push((r.ni as *const T8 as usize, std::mem::size_of::<T8>()));
        out.push((r.cj as *const bool as usize, std::mem::size_of::<bool>()));
        out.push((r.ak.as_ptr() as usize, std::mem::size_of_val(r.ak)));
        r.vl.parts(out);
        out.push((r.nm as *const T2 as usize, std::mem::size_of::<T2>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <[u8; 3] as Pay>::mk(x)); *m.na = p; return; } at += 1;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); m.ac[idx] = p; return; } at += 1;
        { let k = <Str<u8>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u8>>::set(m.vd, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <T12 as Pay>::mk(x)); *m.ne = p; return; } at += 1;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <u16 as Pay>::mk(x)); m.ag[idx] = p; return; } at += 1;
        { let k = <FixedLen<u64>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<u64>>::set(m.vh, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); *m.ni = p; return; } at += 1;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <T16 as Pay>::mk(x)); m.ak[idx] = p; return; } at += 1;
        { let k = <FixedLen<T12>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<T12>>::set(m.vl, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <T2 as Pay>::mk(x)); *m.nm = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.na.val()); *m.na = host(|| <[u8; 3] as Pay>::mk(x)); at += 1; }
        at += 1;
        for (i, p) in m.ac.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T8 as Pay>::mk(x)); } at += 1;
        <Str<u8>>::set_all(m.vd, at, f); at += <Str<u8>>::leaves();
        { let x = f(at, 0, m.ne.val()); *m.ne = host(|| <T12 as Pay>::mk(x)); at += 1; }
        at += 1;
        for (i, p) in m.ag.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u16 as Pay>::mk(x)); } at += 1;
        <FixedLen<u64>>::set_all(m.vh, at, f); at += <FixedLen<u64>>::leaves();
        { let x = f(at, 0, m.ni.val()); *m.ni = host(|| <T8 as Pay>::mk(x)); at += 1; }
        at += 1;
        for (i, p) in m.ak.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T16 as Pay>::mk(x)); } at += 1;
        <FixedLen<T12>>::set_all(m.vl, at, f); at += <FixedLen<T12>>::leaves();
        { let x = f(at, 0, m.nm.val()); *m.nm = host(|| <T2 as Pay>::mk(x)); at += 1; }
    }
}
impl Ctl for SFq {
    const NCTL: usize = 3;
    fn ctl_types() -> Vec<&'static str> { vec!["u8", "u16", "bool"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; o.push(at); at += 1; at += 1; at += <Str<u8>>::leaves(); at += 1; o.push(at); at += 1; at += 1; at += <FixedLen<u64>>::leaves(); at += 1; o.push(at); at += 1; at += 1; at += <FixedLen<T12>>::leaves(); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.push(c[0]); q.push(al[0]); q.extend(<Str<u8>>::shapes(&[l])[0].iter()); q.push(1); q.push(c[1]); q.push(al[1]); q.extend(<FixedLen<u64>>::shapes(&[l])[0].iter()); q.push(1); q.push(c[2]); q.push(al[2]); q.extend(<FixedLen<T12>>::shapes(&[l])[0].iter()); q.push(1); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SFq(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_fq::LayoutControllers { cb: (c[0] as u8), cf: (c[1] as u16), cj: (c[2] != 0) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.cb) as u64, *(&self.cf) as u64, (*(&self.cj)) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.cb as u64, *m.cf as u64, (*m.cj) as u64] }
}
#[define_varlen]

pub struct SFr {
    #[controls_layout]
    pub ca: u8,
    #[varlen_array]
    pub ab: [u8; *ca as usize],
    pub nc: u8,
    pub nd: T8,
    pub ne: u32,
    pub nf: T16,
    pub ng: u64,
    pub nh: T2,
    pub ni: A16,
    #[varlen]
    pub vj: FixedLen<T8>,
    #[controls_layout]
    pub ck: u8,
    #[varlen_array]
    pub al: [T12; *ck as usize],
    #[controls_layout]
    pub cm: bool,
    #[varlen_array]
    pub an: [T8; if *cm { *ck as usize } else { *ca as usize }],
}
struct MirrorSFr { ca: u8, nc: u8, nd: T8, ne: u32, nf: T16, ng: u64, nh: T2, ni: A16, ck: u8, cm: bool }
pub fn lens_SFr(c: &[usize]) -> [usize; 3] { [c[0], c[1], if c[2] != 0 { c[1] } else { c[0] }] }
impl<'e> VClone<'e> for SFr {
    type Cloner = s_fr::Init<CloneFrom<'e, u8>, <FixedLen<T8> as VClone<'e>>::Cloner, CloneFrom<'e, T12>, CloneFrom<'e, T8>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_fr::Init {
        ca: self.ca.clone(),
        ab: CloneFrom(r.ab),
        nc: self.nc.clone(),
        nd: self.nd.clone(),
        ne: self.ne.clone(),
        nf: self.nf.clone(),
        ng: self.ng.clone(),
        nh: self.nh.clone(),
        ni: self.ni.clone(),
        vj: r.vj.vclone(),
        ck: self.ck.clone(),
        al: CloneFrom(r.al),
        cm: self.cm.clone(),
        an: CloneFrom(r.an),
    } }
}
impl Subj for SFr {
    type Direct<'e> = s_fr::Init<ArrInit<'e, u8>, AnyInit<'e, FixedLen<T8>>, ArrInit<'e, T12>, ArrInit<'e, T8>>;
    type Clo<'e> = <SFr as VClone<'e>>::Cloner;
    fn name() -> String { "SFr".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Dep(<u8 as Pay>::MASK)); out.push(Kind::Fixed(<u8 as Pay>::MASK)); out.push(Kind::Fixed(<T8 as Pay>::MASK)); out.push(Kind::Fixed(<u32 as Pay>::MASK)); out.push(Kind::Fixed(<T16 as Pay>::MASK)); out.push(Kind::Fixed(<u64 as Pay>::MASK)); out.push(Kind::Fixed(<T2 as Pay>::MASK)); out.push(Kind::Fixed(<A16 as Pay>::MASK)); <FixedLen<T8>>::kinds(out); out.push(Kind::Ctl); out.push(Kind::Dep(<T12 as Pay>::MASK)); out.push(Kind::Ctl); out.push(Kind::Dep(<T8 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(<u8 as Pay>::TOK); out.push(<u8 as Pay>::TOK); out.push(<T8 as Pay>::TOK); out.push(<u32 as Pay>::TOK); out.push(<T16 as Pay>::TOK); out.push(<u64 as Pay>::TOK); out.push(<T2 as Pay>::TOK); out.push(<A16 as Pay>::TOK); <FixedLen<T8>>::toks(out); out.push(false); out.push(<T12 as Pay>::TOK); out.push(false); out.push(<T8 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        { let mut o: Vec<usize> = ls.iter().map(|&l| (l & 1)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SFr(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<T8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[2]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[2]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u8 as Pay>::MASK).collect()); at += 1;
        out.push(vec![cell(seed, at, 0) & <u8 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <T8 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <u32 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <T16 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <u64 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <T2 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <A16 as Pay>::MASK]); at += 1;
        { let k = <FixedLen<T8>>::leaves(); out.extend(<FixedLen<T8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T12 as Pay>::MASK).collect()); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T8 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSFr>(), std::mem::align_of::<u8>(), <FixedLen<T8>>::r_align(), std::mem::align_of::<T12>(), std::mem::align_of::<T8>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSFr>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SFr, ca), std::mem::size_of::<u8>())); at += 1;
        size = up(size, std::mem::align_of::<u8>()); { let n = lens[at] * std::mem::size_of::<u8>(); out.push((base + size, n)); size += n; at += 1; }
        out.push((base + std::mem::offset_of!(SFr, nc), std::mem::size_of::<u8>())); at += 1;
        out.push((base + std::mem::offset_of!(SFr, nd), std::mem::size_of::<T8>())); at += 1;
        out.push((base + std::mem::offset_of!(SFr, ne), std::mem::size_of::<u32>())); at += 1;
        out.push((base + std::mem::offset_of!(SFr, nf), std::mem::size_of::<T16>())); at += 1;
        out.push((base + std::mem::offset_of!(SFr, ng), std::mem::size_of::<u64>())); at += 1;
        out.push((base + std::mem::offset_of!(SFr, nh), std::mem::size_of::<T2>())); at += 1;
        out.push((base + std::mem::offset_of!(SFr, ni), std::mem::size_of::<A16>())); at += 1;
        { let k = <FixedLen<T8>>::leaves(); size = up(size, <FixedLen<T8>>::r_align()); size += <FixedLen<T8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SFr, ck), std::mem::size_of::<u8>())); at += 1;
        size = up(size, std::mem::align_of::<T12>()); { let n = lens[at] * std::mem::size_of::<T12>(); out.push((base + size, n)); size += n; at += 1; }
        out.push((base + std::mem::offset_of!(SFr, cm), std::mem::size_of::<bool>())); at += 1;
        size = up(size, std::mem::align_of::<T8>()); { let n = lens[at] * std::mem::size_of::<T8>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_ca: u8 = (v[at][0] as u8); at += 1;
        let l_ab = arr_init::<u8>(&v[at], ch, env); at += 1;
        let l_nc = <u8 as Pay>::mk(v[at][0]); at += 1;
        let l_nd = <T8 as Pay>::mk(v[at][0]); at += 1;
        let l_ne = <u32 as Pay>::mk(v[at][0]); at += 1;
        let l_nf = <T16 as Pay>::mk(v[at][0]); at += 1;
        let l_ng = <u64 as Pay>::mk(v[at][0]); at += 1;
        let l_nh = <T2 as Pay>::mk(v[at][0]); at += 1;
        let l_ni = <A16 as Pay>::mk(v[at][0]); at += 1;
        let l_vj = { let k = <FixedLen<T8>>::leaves(); let i = any::<FixedLen<T8>>(&v[at..at + k], ch, env); at += k; i };
        let l_ck: u8 = (v[at][0] as u8); at += 1;
        let l_al = arr_init::<T12>(&v[at], ch, env); at += 1;
        let l_cm: bool = (v[at][0] != 0); at += 1;
        let l_an = arr_init::<T8>(&v[at], ch, env); at += 1;
        s_fr::Init { ca: l_ca, ab: l_ab, nc: l_nc, nd: l_nd, ne: l_ne, nf: l_nf, ng: l_ng, nh: l_nh, ni: l_ni, vj: l_vj, ck: l_ck, al: l_al, cm: l_cm, an: l_an }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.ca as u64]);
        if r.ab.len() > 1 << 20 { crate::fail!("length {} of ab is absurd", r.ab.len()); } out.push(r.ab.iter().map(|p| p.val()).collect());
        out.push(vec![r.nc.val()]); if !std::ptr::eq(r.nc, &self.nc) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nc is not the header field".into()); }
        out.push(vec![r.nd.val()]); if !std::ptr::eq(r.nd, &self.nd) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nd is not the header field".into()); }
        out.push(vec![r.ne.val()]); if !std::ptr::eq(r.ne, &self.ne) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().ne is not the header field".into()); }
        out.push(vec![r.nf.val()]); if !std::ptr::eq(r.nf, &self.nf) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nf is not the header field".into()); }
        out.push(vec![r.ng.val()]); if !std::ptr::eq(r.ng, &self.ng) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().ng is not the header field".into()); }
        out.push(vec![r.nh.val()]); if !std::ptr::eq(r.nh, &self.nh) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nh is not the header field".into()); }
        out.push(vec![r.ni.val()]); if !std::ptr::eq(r.ni, &self.ni) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().ni is not the header field".into()); }
        r.vj.read(out);
        out.push(vec![*r.ck as u64]);
        if r.al.len() > 1 << 20 { crate::fail!("length {} of al is absurd", r.al.len()); } out.push(r.al.iter().map(|p| p.val()).collect());
        out.push(vec![(*r.cm) as u64]);
        if r.an.len() > 1 << 20 { crate::fail!("length {} of an is absurd", r.an.len()); } out.push(r.an.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.ca as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.ab.as_ptr() as usize, std::mem::size_of_val(r.ab)));
        out.push((r.nc as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.nd as *const T8 as usize, std::mem::size_of::<T8>()));
        out.push((r.ne as *const u32 as usize, std::mem::size_of::<u32>()));
        out.push((r.nf as *const T16 as usize, std::mem::size_of::<T16>()));
        out.push((r.ng as *const u64 as usize, std::mem::size_of::<u64>()));
        out.push((r.nh as *const T2 as usize, std::mem::size_of::<T2>()));
        out.push((r.ni as *const A16 as usize, std::mem::size_of::<A16>()));
        r.vj.parts(out);
        out.push((r.ck as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.al.as_ptr() as usize, std::mem::size_of_val(r.al)));
        out.push((r.cm as *const bool as usize, std::mem::size_of::<bool>()));
        out.push((r.an.as_ptr() as usize, std::mem::size_of_val(r.an)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); m.ab[idx] = p; return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); *m.nc = p; return; } at += 1;
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); *m.nd = p; return; } at += 1;
        if leaf == at { let p = host(|| <u32 as Pay>::mk(x)); *m.ne = p; return; } at += 1;
        if leaf == at { let p = host(|| <T16 as Pay>::mk(x)); *m.nf = p; return; } at += 1;
        if leaf == at { let p = host(|| <u64 as Pay>::mk(x)); *m.ng = p; return; } at += 1;
        if leaf == at { let p = host(|| <T2 as Pay>::mk(x)); *m.nh = p; return; } at += 1;
        if leaf == at { let p = host(|| <A16 as Pay>::mk(x)); *m.ni = p; return; } at += 1;
        { let k = <FixedLen<T8>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<T8>>::set(m.vj, leaf - at, idx, x); } at += k; }
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <T12 as Pay>::mk(x)); m.al[idx] = p; return; } at += 1;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); m.an[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        for (i, p) in m.ab.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u8 as Pay>::mk(x)); } at += 1;
        { let x = f(at, 0, m.nc.val()); *m.nc = host(|| <u8 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.nd.val()); *m.nd = host(|| <T8 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.ne.val()); *m.ne = host(|| <u32 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.nf.val()); *m.nf = host(|| <T16 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.ng.val()); *m.ng = host(|| <u64 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.nh.val()); *m.nh = host(|| <T2 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.ni.val()); *m.ni = host(|| <A16 as Pay>::mk(x)); at += 1; }
        <FixedLen<T8>>::set_all(m.vj, at, f); at += <FixedLen<T8>>::leaves();
        at += 1;
        for (i, p) in m.al.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T12 as Pay>::mk(x)); } at += 1;
        at += 1;
        for (i, p) in m.an.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T8 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SFr {
    const NCTL: usize = 3;
    fn ctl_types() -> Vec<&'static str> { vec!["u8", "u8", "bool"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; at += 1; at += 1; at += 1; at += 1; at += 1; at += 1; at += 1; at += <FixedLen<T8>>::leaves(); o.push(at); at += 1; at += 1; o.push(at); at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(al[0]); q.push(1); q.push(1); q.push(1); q.push(1); q.push(1); q.push(1); q.push(1); q.extend(<FixedLen<T8>>::shapes(&[l])[0].iter()); q.push(c[1]); q.push(al[1]); q.push(c[2]); q.push(al[2]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SFr(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_fr::LayoutControllers { ca: (c[0] as u8), ck: (c[1] as u8), cm: (c[2] != 0) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.ca) as u64, *(&self.ck) as u64, (*(&self.cm)) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.ca as u64, *m.ck as u64, (*m.cm) as u64] }
}
#[define_varlen]

pub struct SFs {
    pub na: [u8; 3],
    pub nb: T12,
    pub nc: u8,
    pub nd: T8,
    pub ne: u32,
    pub nf: T16,
    pub ng: u64,
    pub nh: T2,
    #[controls_layout]
    pub ci: u8,
    #[varlen_array]
    pub aj: [T8; *ci as usize],
}
struct MirrorSFs { na: [u8; 3], nb: T12, nc: u8, nd: T8, ne: u32, nf: T16, ng: u64, nh: T2, ci: u8 }
pub fn lens_SFs(c: &[usize]) -> [usize; 1] { [c[0]] }
impl<'e> VClone<'e> for SFs {
    type Cloner = s_fs::Init<CloneFrom<'e, T8>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); s_fs::Init {
        na: self.na.clone(),
        nb: self.nb.clone(),
        nc: self.nc.clone(),
        nd: self.nd.clone(),
        ne: self.ne.clone(),
        nf: self.nf.clone(),
        ng: self.ng.clone(),
        nh: self.nh.clone(),
        ci: self.ci.clone(),
        aj: CloneFrom(r.aj),
    } }
}
impl Subj for SFs {
    type Direct<'e> = s_fs::Init<ArrInit<'e, T8>>;
    type Clo<'e> = <SFs as VClone<'e>>::Cloner;
    fn name() -> String { "SFs".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<[u8; 3] as Pay>::MASK)); out.push(Kind::Fixed(<T12 as Pay>::MASK)); out.push(Kind::Fixed(<u8 as Pay>::MASK)); out.push(Kind::Fixed(<T8 as Pay>::MASK)); out.push(Kind::Fixed(<u32 as Pay>::MASK)); out.push(Kind::Fixed(<T16 as Pay>::MASK)); out.push(Kind::Fixed(<u64 as Pay>::MASK)); out.push(Kind::Fixed(<T2 as Pay>::MASK)); out.push(Kind::Ctl); out.push(Kind::Dep(<T8 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(<[u8; 3] as Pay>::TOK); out.push(<T12 as Pay>::TOK); out.push(<u8 as Pay>::TOK); out.push(<T8 as Pay>::TOK); out.push(<u32 as Pay>::TOK); out.push(<T16 as Pay>::TOK); out.push(<u64 as Pay>::TOK); out.push(<T2 as Pay>::TOK); out.push(false); out.push(<T8 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SFs(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <[u8; 3] as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <T12 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <u8 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <T8 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <u32 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <T16 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <u64 as Pay>::MASK]); at += 1;
        out.push(vec![cell(seed, at, 0) & <T2 as Pay>::MASK]); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T8 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSFs>(), std::mem::align_of::<T8>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSFs>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SFs, na), std::mem::size_of::<[u8; 3]>())); at += 1;
        out.push((base + std::mem::offset_of!(SFs, nb), std::mem::size_of::<T12>())); at += 1;
        out.push((base + std::mem::offset_of!(SFs, nc), std::mem::size_of::<u8>())); at += 1;
        out.push((base + std::mem::offset_of!(SFs, nd), std::mem::size_of::<T8>())); at += 1;
        out.push((base + std::mem::offset_of!(SFs, ne), std::mem::size_of::<u32>())); at += 1;
        out.push((base + std::mem::offset_of!(SFs, nf), std::mem::size_of::<T16>())); at += 1;
        out.push((base + std::mem::offset_of!(SFs, ng), std::mem::size_of::<u64>())); at += 1;
        out.push((base + std::mem::offset_of!(SFs, nh), std::mem::size_of::<T2>())); at += 1;
        out.push((base + std::mem::offset_of!(SFs, ci), std::mem::size_of::<u8>())); at += 1;
        size = up(size, std::mem::align_of::<T8>()); { let n = lens[at] * std::mem::size_of::<T8>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_na = <[u8; 3] as Pay>::mk(v[at][0]); at += 1;
        let l_nb = <T12 as Pay>::mk(v[at][0]); at += 1;
        let l_nc = <u8 as Pay>::mk(v[at][0]); at += 1;
        let l_nd = <T8 as Pay>::mk(v[at][0]); at += 1;
        let l_ne = <u32 as Pay>::mk(v[at][0]); at += 1;
        let l_nf = <T16 as Pay>::mk(v[at][0]); at += 1;
        let l_ng = <u64 as Pay>::mk(v[at][0]); at += 1;
        let l_nh = <T2 as Pay>::mk(v[at][0]); at += 1;
        let l_ci: u8 = (v[at][0] as u8); at += 1;
        let l_aj = arr_init::<T8>(&v[at], ch, env); at += 1;
        s_fs::Init { na: l_na, nb: l_nb, nc: l_nc, nd: l_nd, ne: l_ne, nf: l_nf, ng: l_ng, nh: l_nh, ci: l_ci, aj: l_aj }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.na.val()]); if !std::ptr::eq(r.na, &self.na) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().na is not the header field".into()); }
        out.push(vec![r.nb.val()]); if !std::ptr::eq(r.nb, &self.nb) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nb is not the header field".into()); }
        out.push(vec![r.nc.val()]); if !std::ptr::eq(r.nc, &self.nc) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nc is not the header field".into()); }
        out.push(vec![r.nd.val()]); if !std::ptr::eq(r.nd, &self.nd) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nd is not the header field".into()); }
        out.push(vec![r.ne.val()]); if !std::ptr::eq(r.ne, &self.ne) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().ne is not the header field".into()); }
        out.push(vec![r.nf.val()]); if !std::ptr::eq(r.nf, &self.nf) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nf is not the header field".into()); }
        out.push(vec![r.ng.val()]); if !std::ptr::eq(r.ng, &self.ng) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().ng is not the header field".into()); }
        out.push(vec![r.nh.val()]); if !std::ptr::eq(r.nh, &self.nh) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nh is not the header field".into()); }
        out.push(vec![*r.ci as u64]);
        if r.aj.len() > 1 << 20 { crate::fail!("length {} of aj is absurd", r.aj.len()); } out.push(r.aj.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.na as *const [u8; 3] as usize, std::mem::size_of::<[u8; 3]>()));
        out.push((r.nb as *const T12 as usize, std::mem::size_of::<T12>()));
        out.push((r.nc as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.nd as *const T8 as usize, std::mem::size_of::<T8>()));
        out.push((r.ne as *const u32 as usize, std::mem::size_of::<u32>()));
        out.push((r.nf as *const T16 as usize, std::mem::size_of::<T16>()));
        out.push((r.ng as *const u64 as usize, std::mem::size_of::<u64>()));
        out.push((r.nh as *const T2 as usize, std::mem::size_of::<T2>()));
        out.push((r.ci as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.aj.as_ptr() as usize, std::mem::size_of_val(r.aj)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <[u8; 3] as Pay>::mk(x)); *m.na = p; return; } at += 1;
        if leaf == at { let p = host(|| <T12 as Pay>::mk(x)); *m.nb = p; return; } at += 1;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); *m.nc = p; return; } at += 1;
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); *m.nd = p; return; } at += 1;
        if leaf == at { let p = host(|| <u32 as Pay>::mk(x)); *m.ne = p; return; } at += 1;
        if leaf == at { let p = host(|| <T16 as Pay>::mk(x)); *m.nf = p; return; } at += 1;
        if leaf == at { let p = host(|| <u64 as Pay>::mk(x)); *m.ng = p; return; } at += 1;
        if leaf == at { let p = host(|| <T2 as Pay>::mk(x)); *m.nh = p; return; } at += 1;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); m.aj[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.na.val()); *m.na = host(|| <[u8; 3] as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.nb.val()); *m.nb = host(|| <T12 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.nc.val()); *m.nc = host(|| <u8 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.nd.val()); *m.nd = host(|| <T8 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.ne.val()); *m.ne = host(|| <u32 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.nf.val()); *m.nf = host(|| <T16 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.ng.val()); *m.ng = host(|| <u64 as Pay>::mk(x)); at += 1; }
        { let x = f(at, 0, m.nh.val()); *m.nh = host(|| <T2 as Pay>::mk(x)); at += 1; }
        at += 1;
        for (i, p) in m.aj.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T8 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SFs {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u8"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += 1; at += 1; at += 1; at += 1; at += 1; at += 1; at += 1; o.push(at); at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.push(1); q.push(1); q.push(1); q.push(1); q.push(1); q.push(1); q.push(1); q.push(c[0]); q.push(al[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SFs(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(s_fs::LayoutControllers { ci: (c[0] as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.ci) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.ci as u64] }
}
#[define_varlen]

pub struct GenSFt<P: Clone = u8>  {
    #[varlen]
    pub x: Array<P, u16>,
}
pub type SFt = GenSFt<T8>;
struct MirrorSFt {  }
pub fn lens_SFt(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SFt {
    type Cloner = gen_s_ft::Init<<Array<T8, u16> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); gen_s_ft::Init {
        x: r.x.vclone(),
    } }
}
impl Subj for SFt {
    type Direct<'e> = gen_s_ft::Init<AnyInit<'e, Array<T8, u16>>>;
    type Clo<'e> = <SFt as VClone<'e>>::Cloner;
    fn name() -> String { "SFt".into() }
    fn kinds(out: &mut Vec<Kind>) { <Array<T8, u16>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { <Array<T8, u16>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SFt(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <Array<T8, u16>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <Array<T8, u16>>::leaves(); out.extend(<Array<T8, u16>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSFt>(), <Array<T8, u16>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSFt>(); let mut at = 0;
        { let k = <Array<T8, u16>>::leaves(); size = up(size, <Array<T8, u16>>::r_align()); size += <Array<T8, u16>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x = { let k = <Array<T8, u16>>::leaves(); let i = any::<Array<T8, u16>>(&v[at..at + k], ch, env); at += k; i };
        gen_s_ft::Init { x: l_x }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.x.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.x.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <Array<T8, u16>>::leaves(); if leaf >= at && leaf < at + k { return <Array<T8, u16>>::set(m.x, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <Array<T8, u16>>::set_all(m.x, at, f); at += <Array<T8, u16>>::leaves();
    }
}
impl Ctl for SFt {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <Array<T8, u16>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<Array<T8, u16>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SFt(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(gen_s_ft::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct GenSFu<P: Clone = u8>  {
    #[controls_layout]
    pub ca: u8,
    #[varlen_array]
    pub ab: [P; (*ca as usize + 1) & 7],
}
pub type SFu = GenSFu<T16>;
struct MirrorSFu { ca: u8 }
pub fn lens_SFu(c: &[usize]) -> [usize; 1] { [(c[0] + 1) & 7] }
impl<'e> VClone<'e> for SFu {
    type Cloner = gen_s_fu::Init<CloneFrom<'e, T16>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); gen_s_fu::Init {
        ca: self.ca.clone(),
        ab: CloneFrom(r.ab),
    } }
}
impl Subj for SFu {
    type Direct<'e> = gen_s_fu::Init<ArrInit<'e, T16>>;
    type Clo<'e> = <SFu as VClone<'e>>::Cloner;
    fn name() -> String { "SFu".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Dep(<T16 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(<T16 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SFu(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T16 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSFu>(), std::mem::align_of::<T16>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSFu>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SFu, ca), std::mem::size_of::<u8>())); at += 1;
        size = up(size, std::mem::align_of::<T16>()); { let n = lens[at] * std::mem::size_of::<T16>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_ca: u8 = (v[at][0] as u8); at += 1;
        let l_ab = arr_init::<T16>(&v[at], ch, env); at += 1;
        gen_s_fu::Init { ca: l_ca, ab: l_ab }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.ca as u64]);
        if r.ab.len() > 1 << 20 { crate::fail!("length {} of ab is absurd", r.ab.len()); } out.push(r.ab.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.ca as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.ab.as_ptr() as usize, std::mem::size_of_val(r.ab)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <T16 as Pay>::mk(x)); m.ab[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        for (i, p) in m.ab.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T16 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SFu {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u8"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(al[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SFu(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(gen_s_fu::LayoutControllers { ca: (c[0] as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.ca) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.ca as u64] }
}
#[define_varlen]

pub struct GenSFv<P: Clone + Default = u8>  {
    #[controls_layout]
    pub long_c_name_a: u16,
    #[varlen_array]
    pub long_a_name_b: [P; *long_c_name_a as usize],
}
pub type SFv = GenSFv<A64>;
struct MirrorSFv { long_c_name_a: u16 }
pub fn lens_SFv(c: &[usize]) -> [usize; 1] { [c[0]] }
impl<'e> VClone<'e> for SFv {
    type Cloner = gen_s_fv::Init<CloneFrom<'e, A64>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); gen_s_fv::Init {
        long_c_name_a: self.long_c_name_a.clone(),
        long_a_name_b: CloneFrom(r.long_a_name_b),
    } }
}
impl Subj for SFv {
    type Direct<'e> = gen_s_fv::Init<ArrInit<'e, A64>>;
    type Clo<'e> = <SFv as VClone<'e>>::Cloner;
    fn name() -> String { "SFv".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); out.push(Kind::Dep(<A64 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); out.push(<A64 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(65535)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SFv(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <A64 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSFv>(), std::mem::align_of::<A64>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSFv>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SFv, long_c_name_a), std::mem::size_of::<u16>())); at += 1;
        size = up(size, std::mem::align_of::<A64>()); { let n = lens[at] * std::mem::size_of::<A64>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_c_name_a: u16 = (v[at][0] as u16); at += 1;
        let l_long_a_name_b = arr_init::<A64>(&v[at], ch, env); at += 1;
        gen_s_fv::Init { long_c_name_a: l_long_c_name_a, long_a_name_b: l_long_a_name_b }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.long_c_name_a as u64]);
        if r.long_a_name_b.len() > 1 << 20 { crate::fail!("length {} of long_a_name_b is absurd", r.long_a_name_b.len()); } out.push(r.long_a_name_b.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.long_c_name_a as *const u16 as usize, std::mem::size_of::<u16>()));
        out.push((r.long_a_name_b.as_ptr() as usize, std::mem::size_of_val(r.long_a_name_b)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <A64 as Pay>::mk(x)); m.long_a_name_b[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        for (i, p) in m.long_a_name_b.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <A64 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SFv {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u16"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.push(al[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SFv(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(gen_s_fv::LayoutControllers { long_c_name_a: (c[0] as u16) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.long_c_name_a) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.long_c_name_a as u64] }
}
#[define_varlen]

pub struct GenSFw<Q: VarLen = FixedLen<u8>>  {
    pub x: A16,
    #[varlen]
    pub y: Q,
}
pub type SFw = GenSFw<Str<u16>>;
struct MirrorSFw { x: A16 }
pub fn lens_SFw(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SFw {
    type Cloner = gen_s_fw::Init<<Str<u16> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); gen_s_fw::Init {
        x: self.x.clone(),
        y: r.y.vclone(),
    } }
}
impl Subj for SFw {
    type Direct<'e> = gen_s_fw::Init<AnyInit<'e, Str<u16>>>;
    type Clo<'e> = <SFw as VClone<'e>>::Cloner;
    fn name() -> String { "SFw".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<A16 as Pay>::MASK)); <Str<u16>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { out.push(<A16 as Pay>::TOK); <Str<u16>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SFw(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Str<u16>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <A16 as Pay>::MASK]); at += 1;
        { let k = <Str<u16>>::leaves(); out.extend(<Str<u16>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSFw>(), <Str<u16>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSFw>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SFw, x), std::mem::size_of::<A16>())); at += 1;
        { let k = <Str<u16>>::leaves(); size = up(size, <Str<u16>>::r_align()); size += <Str<u16>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x = <A16 as Pay>::mk(v[at][0]); at += 1;
        let l_y = { let k = <Str<u16>>::leaves(); let i = any::<Str<u16>>(&v[at..at + k], ch, env); at += k; i };
        gen_s_fw::Init { x: l_x, y: l_y }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.x.val()]); if !std::ptr::eq(r.x, &self.x) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().x is not the header field".into()); }
        r.y.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.x as *const A16 as usize, std::mem::size_of::<A16>()));
        r.y.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <A16 as Pay>::mk(x)); *m.x = p; return; } at += 1;
        { let k = <Str<u16>>::leaves(); if leaf >= at && leaf < at + k { return <Str<u16>>::set(m.y, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.x.val()); *m.x = host(|| <A16 as Pay>::mk(x)); at += 1; }
        <Str<u16>>::set_all(m.y, at, f); at += <Str<u16>>::leaves();
    }
}
impl Ctl for SFw {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += <Str<u16>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.extend(<Str<u16>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SFw(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(gen_s_fw::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct GenSFx<Q: VarLen = FixedLen<u8>>  {
    #[varlen]
    pub va: Array<u8, u8>,
    pub nb: [u8; 3],
    #[varlen]
    pub vc: Q,
}
pub type SFx = GenSFx<FixedLen<T16>>;
struct MirrorSFx { nb: [u8; 3] }
pub fn lens_SFx(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SFx {
    type Cloner = gen_s_fx::Init<<Array<u8, u8> as VClone<'e>>::Cloner, <FixedLen<T16> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); gen_s_fx::Init {
        va: r.va.vclone(),
        nb: self.nb.clone(),
        vc: r.vc.vclone(),
    } }
}
impl Subj for SFx {
    type Direct<'e> = gen_s_fx::Init<AnyInit<'e, Array<u8, u8>>, AnyInit<'e, FixedLen<T16>>>;
    type Clo<'e> = <SFx as VClone<'e>>::Cloner;
    fn name() -> String { "SFx".into() }
    fn kinds(out: &mut Vec<Kind>) { <Array<u8, u8>>::kinds(out); out.push(Kind::Fixed(<[u8; 3] as Pay>::MASK)); <FixedLen<T16>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { <Array<u8, u8>>::toks(out); out.push(<[u8; 3] as Pay>::TOK); <FixedLen<T16>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SFx(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = <Array<u8, u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <FixedLen<T16>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        { let k = <Array<u8, u8>>::leaves(); out.extend(<Array<u8, u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![cell(seed, at, 0) & <[u8; 3] as Pay>::MASK]); at += 1;
        { let k = <FixedLen<T16>>::leaves(); out.extend(<FixedLen<T16>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSFx>(), <Array<u8, u8>>::r_align(), <FixedLen<T16>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSFx>(); let mut at = 0;
        { let k = <Array<u8, u8>>::leaves(); size = up(size, <Array<u8, u8>>::r_align()); size += <Array<u8, u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SFx, nb), std::mem::size_of::<[u8; 3]>())); at += 1;
        { let k = <FixedLen<T16>>::leaves(); size = up(size, <FixedLen<T16>>::r_align()); size += <FixedLen<T16>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_va = { let k = <Array<u8, u8>>::leaves(); let i = any::<Array<u8, u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_nb = <[u8; 3] as Pay>::mk(v[at][0]); at += 1;
        let l_vc = { let k = <FixedLen<T16>>::leaves(); let i = any::<FixedLen<T16>>(&v[at..at + k], ch, env); at += k; i };
        gen_s_fx::Init { va: l_va, nb: l_nb, vc: l_vc }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        r.va.read(out);
        out.push(vec![r.nb.val()]); if !std::ptr::eq(r.nb, &self.nb) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().nb is not the header field".into()); }
        r.vc.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        r.va.parts(out);
        out.push((r.nb as *const [u8; 3] as usize, std::mem::size_of::<[u8; 3]>()));
        r.vc.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        { let k = <Array<u8, u8>>::leaves(); if leaf >= at && leaf < at + k { return <Array<u8, u8>>::set(m.va, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <[u8; 3] as Pay>::mk(x)); *m.nb = p; return; } at += 1;
        { let k = <FixedLen<T16>>::leaves(); if leaf >= at && leaf < at + k { return <FixedLen<T16>>::set(m.vc, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        <Array<u8, u8>>::set_all(m.va, at, f); at += <Array<u8, u8>>::leaves();
        { let x = f(at, 0, m.nb.val()); *m.nb = host(|| <[u8; 3] as Pay>::mk(x)); at += 1; }
        <FixedLen<T16>>::set_all(m.vc, at, f); at += <FixedLen<T16>>::leaves();
    }
}
impl Ctl for SFx {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += <Array<u8, u8>>::leaves(); at += 1; at += <FixedLen<T16>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.extend(<Array<u8, u8>>::shapes(&[l])[0].iter()); q.push(1); q.extend(<FixedLen<T16>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SFx(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(gen_s_fx::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct GenSFy<P: Clone = u8, Q: Clone = u8>  {
    pub long_n_name_a: T12,
    #[controls_layout]
    pub long_c_name_b: u8,
    #[varlen_array]
    pub long_a_name_c: [P; *long_c_name_b as usize],
    #[varlen]
    pub long_v_name_d: Array<Q, u32>,
    #[varlen_array]
    pub long_a_name_e: [u16; (*long_c_name_b as usize) / 2],
}
pub type SFy = GenSFy<T8, T12>;
struct MirrorSFy { long_n_name_a: T12, long_c_name_b: u8 }
pub fn lens_SFy(c: &[usize]) -> [usize; 2] { [c[0], c[0] / 2] }
impl<'e> VClone<'e> for SFy {
    type Cloner = gen_s_fy::Init<CloneFrom<'e, T8>, <Array<T12, u32> as VClone<'e>>::Cloner, CloneFrom<'e, u16>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); gen_s_fy::Init {
        long_n_name_a: self.long_n_name_a.clone(),
        long_c_name_b: self.long_c_name_b.clone(),
        long_a_name_c: CloneFrom(r.long_a_name_c),
        long_v_name_d: r.long_v_name_d.vclone(),
        long_a_name_e: CloneFrom(r.long_a_name_e),
    } }
}
impl Subj for SFy {
    type Direct<'e> = gen_s_fy::Init<ArrInit<'e, T8>, AnyInit<'e, Array<T12, u32>>, ArrInit<'e, u16>>;
    type Clo<'e> = <SFy as VClone<'e>>::Cloner;
    fn name() -> String { "SFy".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<T12 as Pay>::MASK)); out.push(Kind::Ctl); out.push(Kind::Dep(<T8 as Pay>::MASK)); <Array<T12, u32>>::kinds(out); out.push(Kind::Dep(<u16 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(<T12 as Pay>::TOK); out.push(false); out.push(<T8 as Pay>::TOK); <Array<T12, u32>>::toks(out); out.push(<u16 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SFy(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<T12, u32>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[1]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <T12 as Pay>::MASK]); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <T8 as Pay>::MASK).collect()); at += 1;
        { let k = <Array<T12, u32>>::leaves(); out.extend(<Array<T12, u32>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u16 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSFy>(), std::mem::align_of::<T8>(), <Array<T12, u32>>::r_align(), std::mem::align_of::<u16>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSFy>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SFy, long_n_name_a), std::mem::size_of::<T12>())); at += 1;
        out.push((base + std::mem::offset_of!(SFy, long_c_name_b), std::mem::size_of::<u8>())); at += 1;
        size = up(size, std::mem::align_of::<T8>()); { let n = lens[at] * std::mem::size_of::<T8>(); out.push((base + size, n)); size += n; at += 1; }
        { let k = <Array<T12, u32>>::leaves(); size = up(size, <Array<T12, u32>>::r_align()); size += <Array<T12, u32>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size = up(size, std::mem::align_of::<u16>()); { let n = lens[at] * std::mem::size_of::<u16>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_n_name_a = <T12 as Pay>::mk(v[at][0]); at += 1;
        let l_long_c_name_b: u8 = (v[at][0] as u8); at += 1;
        let l_long_a_name_c = arr_init::<T8>(&v[at], ch, env); at += 1;
        let l_long_v_name_d = { let k = <Array<T12, u32>>::leaves(); let i = any::<Array<T12, u32>>(&v[at..at + k], ch, env); at += k; i };
        let l_long_a_name_e = arr_init::<u16>(&v[at], ch, env); at += 1;
        gen_s_fy::Init { long_n_name_a: l_long_n_name_a, long_c_name_b: l_long_c_name_b, long_a_name_c: l_long_a_name_c, long_v_name_d: l_long_v_name_d, long_a_name_e: l_long_a_name_e }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.long_n_name_a.val()]); if !std::ptr::eq(r.long_n_name_a, &self.long_n_name_a) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().long_n_name_a is not the header field".into()); }
        out.push(vec![*r.long_c_name_b as u64]);
        if r.long_a_name_c.len() > 1 << 20 { crate::fail!("length {} of long_a_name_c is absurd", r.long_a_name_c.len()); } out.push(r.long_a_name_c.iter().map(|p| p.val()).collect());
        r.long_v_name_d.read(out);
        if r.long_a_name_e.len() > 1 << 20 { crate::fail!("length {} of long_a_name_e is absurd", r.long_a_name_e.len()); } out.push(r.long_a_name_e.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.long_n_name_a as *const T12 as usize, std::mem::size_of::<T12>()));
        out.push((r.long_c_name_b as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.long_a_name_c.as_ptr() as usize, std::mem::size_of_val(r.long_a_name_c)));
        r.long_v_name_d.parts(out);
        out.push((r.long_a_name_e.as_ptr() as usize, std::mem::size_of_val(r.long_a_name_e)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <T12 as Pay>::mk(x)); *m.long_n_name_a = p; return; } at += 1;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); m.long_a_name_c[idx] = p; return; } at += 1;
        { let k = <Array<T12, u32>>::leaves(); if leaf >= at && leaf < at + k { return <Array<T12, u32>>::set(m.long_v_name_d, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <u16 as Pay>::mk(x)); m.long_a_name_e[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.long_n_name_a.val()); *m.long_n_name_a = host(|| <T12 as Pay>::mk(x)); at += 1; }
        at += 1;
        for (i, p) in m.long_a_name_c.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <T8 as Pay>::mk(x)); } at += 1;
        <Array<T12, u32>>::set_all(m.long_v_name_d, at, f); at += <Array<T12, u32>>::leaves();
        for (i, p) in m.long_a_name_e.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u16 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SFy {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u8"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; o.push(at); at += 1; at += 1; at += <Array<T12, u32>>::leaves(); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.push(c[0]); q.push(al[0]); q.extend(<Array<T12, u32>>::shapes(&[l])[0].iter()); q.push(al[1]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SFy(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(gen_s_fy::LayoutControllers { long_c_name_b: (c[0] as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.long_c_name_b) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.long_c_name_b as u64] }
}
#[define_varlen]

pub struct GenSFz<const K: usize = 1>  {
    pub x: u8,
    #[controls_layout]
    pub y: u8,
    #[varlen_array]
    pub z: [[u8; K]; (*y as usize + 1) & 7],
}
pub type SFz = GenSFz<3>;
struct MirrorSFz { x: u8, y: u8 }
pub fn lens_SFz(c: &[usize]) -> [usize; 1] { [(c[0] + 1) & 7] }
impl<'e> VClone<'e> for SFz {
    type Cloner = gen_s_fz::Init<CloneFrom<'e, [u8; 3]>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); gen_s_fz::Init {
        x: self.x.clone(),
        y: self.y.clone(),
        z: CloneFrom(r.z),
    } }
}
impl Subj for SFz {
    type Direct<'e> = gen_s_fz::Init<ArrInit<'e, [u8; 3]>>;
    type Clo<'e> = <SFz as VClone<'e>>::Cloner;
    fn name() -> String { "SFz".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<u8 as Pay>::MASK)); out.push(Kind::Ctl); out.push(Kind::Dep(<[u8; 3] as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(<u8 as Pay>::TOK); out.push(false); out.push(<[u8; 3] as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SFz(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <u8 as Pay>::MASK]); at += 1;
        out.push(vec![lens[at] as u64]); at += 1;
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <[u8; 3] as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSFz>(), std::mem::align_of::<[u8; 3]>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSFz>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SFz, x), std::mem::size_of::<u8>())); at += 1;
        out.push((base + std::mem::offset_of!(SFz, y), std::mem::size_of::<u8>())); at += 1;
        size = up(size, std::mem::align_of::<[u8; 3]>()); { let n = lens[at] * std::mem::size_of::<[u8; 3]>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x = <u8 as Pay>::mk(v[at][0]); at += 1;
        let l_y: u8 = (v[at][0] as u8); at += 1;
        let l_z = arr_init::<[u8; 3]>(&v[at], ch, env); at += 1;
        gen_s_fz::Init { x: l_x, y: l_y, z: l_z }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.x.val()]); if !std::ptr::eq(r.x, &self.x) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().x is not the header field".into()); }
        out.push(vec![*r.y as u64]);
        if r.z.len() > 1 << 20 { crate::fail!("length {} of z is absurd", r.z.len()); } out.push(r.z.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.x as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.y as *const u8 as usize, std::mem::size_of::<u8>()));
        out.push((r.z.as_ptr() as usize, std::mem::size_of_val(r.z)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <u8 as Pay>::mk(x)); *m.x = p; return; } at += 1;
        if leaf == at { return; } at += 1;
        if leaf == at { let p = host(|| <[u8; 3] as Pay>::mk(x)); m.z[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.x.val()); *m.x = host(|| <u8 as Pay>::mk(x)); at += 1; }
        at += 1;
        for (i, p) in m.z.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <[u8; 3] as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SFz {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u8"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; o.push(at); at += 1; at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.push(c[0]); q.push(al[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SFz(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(gen_s_fz::LayoutControllers { y: (c[0] as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.y) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.y as u64] }
}
#[define_varlen]

pub struct GenSGa<Q: VarLen = FixedLen<u8>, R: VarLen = FixedLen<u8>, P: Clone = u8>  {
    #[controls_layout]
    pub ca: u8,
    #[varlen]
    pub vb: Tup2<Q, R>,
    #[varlen_array]
    pub ac: [P; *ca as usize],
}
pub type SGa = GenSGa<FixedLen<u8>, Str<u8>, u64>;
struct MirrorSGa { ca: u8 }
pub fn lens_SGa(c: &[usize]) -> [usize; 1] { [c[0]] }
impl<'e> VClone<'e> for SGa {
    type Cloner = gen_s_ga::Init<<Tup2<FixedLen<u8>, Str<u8>> as VClone<'e>>::Cloner, CloneFrom<'e, u64>>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); gen_s_ga::Init {
        ca: self.ca.clone(),
        vb: r.vb.vclone(),
        ac: CloneFrom(r.ac),
    } }
}
impl Subj for SGa {
    type Direct<'e> = gen_s_ga::Init<AnyInit<'e, Tup2<FixedLen<u8>, Str<u8>>>, ArrInit<'e, u64>>;
    type Clo<'e> = <SGa as VClone<'e>>::Cloner;
    fn name() -> String { "SGa".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Ctl); <Tup2<FixedLen<u8>, Str<u8>>>::kinds(out); out.push(Kind::Dep(<u64 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(false); <Tup2<FixedLen<u8>, Str<u8>>>::toks(out); out.push(<u64 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        { let mut o: Vec<usize> = ls.iter().map(|&l| l.min(255)).collect(); o.sort(); o.dedup(); cs = cs.into_iter().flat_map(|p| o.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q }).collect::<Vec<_>>()).collect(); }
        let mut out = vec![];
        for c in cs {
            let al = lens_SGa(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![c[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Tup2<FixedLen<u8>, Str<u8>>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![al[0]]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![lens[at] as u64]); at += 1;
        { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); out.extend(<Tup2<FixedLen<u8>, Str<u8>>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push((0..lens[at]).map(|j| cell(seed, at, j) & <u64 as Pay>::MASK).collect()); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSGa>(), <Tup2<FixedLen<u8>, Str<u8>>>::r_align(), std::mem::align_of::<u64>()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSGa>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SGa, ca), std::mem::size_of::<u8>())); at += 1;
        { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); size = up(size, <Tup2<FixedLen<u8>, Str<u8>>>::r_align()); size += <Tup2<FixedLen<u8>, Str<u8>>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size = up(size, std::mem::align_of::<u64>()); { let n = lens[at] * std::mem::size_of::<u64>(); out.push((base + size, n)); size += n; at += 1; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_ca: u8 = (v[at][0] as u8); at += 1;
        let l_vb = { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); let i = any::<Tup2<FixedLen<u8>, Str<u8>>>(&v[at..at + k], ch, env); at += k; i };
        let l_ac = arr_init::<u64>(&v[at], ch, env); at += 1;
        gen_s_ga::Init { ca: l_ca, vb: l_vb, ac: l_ac }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![*r.ca as u64]);
        r.vb.read(out);
        if r.ac.len() > 1 << 20 { crate::fail!("length {} of ac is absurd", r.ac.len()); } out.push(r.ac.iter().map(|p| p.val()).collect());
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.ca as *const u8 as usize, std::mem::size_of::<u8>()));
        r.vb.parts(out);
        out.push((r.ac.as_ptr() as usize, std::mem::size_of_val(r.ac)));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { return; } at += 1;
        { let k = <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); if leaf >= at && leaf < at + k { return <Tup2<FixedLen<u8>, Str<u8>>>::set(m.vb, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <u64 as Pay>::mk(x)); m.ac[idx] = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        at += 1;
        <Tup2<FixedLen<u8>, Str<u8>>>::set_all(m.vb, at, f); at += <Tup2<FixedLen<u8>, Str<u8>>>::leaves();
        for (i, p) in m.ac.iter_mut().enumerate() { let x = f(at, i, p.val()); *p = host(|| <u64 as Pay>::mk(x)); } at += 1;
    }
}
impl Ctl for SGa {
    const NCTL: usize = 1;
    fn ctl_types() -> Vec<&'static str> { vec!["u8"] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; o.push(at); at += 1; at += <Tup2<FixedLen<u8>, Str<u8>>>::leaves(); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(c[0]); q.extend(<Tup2<FixedLen<u8>, Str<u8>>>::shapes(&[l])[0].iter()); q.push(al[0]); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SGa(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(gen_s_ga::LayoutControllers { ca: (c[0] as u8) }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![*(&self.ca) as u64] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![*m.ca as u64] }
}
#[define_varlen]

pub struct GenSGb<P = u8> where P: Clone {
    pub long_n_name_a: T8,
    #[varlen]
    pub long_v_name_b: Array<P, u8>,
}
pub type SGb = GenSGb<T2>;
struct MirrorSGb { long_n_name_a: T8 }
pub fn lens_SGb(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SGb {
    type Cloner = gen_s_gb::Init<<Array<T2, u8> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); gen_s_gb::Init {
        long_n_name_a: self.long_n_name_a.clone(),
        long_v_name_b: r.long_v_name_b.vclone(),
    } }
}
impl Subj for SGb {
    type Direct<'e> = gen_s_gb::Init<AnyInit<'e, Array<T2, u8>>>;
    type Clo<'e> = <SGb as VClone<'e>>::Cloner;
    fn name() -> String { "SGb".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<T8 as Pay>::MASK)); <Array<T2, u8>>::kinds(out); }
    fn toks(out: &mut Vec<bool>) { out.push(<T8 as Pay>::TOK); <Array<T2, u8>>::toks(out); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SGb(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<T2, u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <T8 as Pay>::MASK]); at += 1;
        { let k = <Array<T2, u8>>::leaves(); out.extend(<Array<T2, u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSGb>(), <Array<T2, u8>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSGb>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SGb, long_n_name_a), std::mem::size_of::<T8>())); at += 1;
        { let k = <Array<T2, u8>>::leaves(); size = up(size, <Array<T2, u8>>::r_align()); size += <Array<T2, u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_long_n_name_a = <T8 as Pay>::mk(v[at][0]); at += 1;
        let l_long_v_name_b = { let k = <Array<T2, u8>>::leaves(); let i = any::<Array<T2, u8>>(&v[at..at + k], ch, env); at += k; i };
        gen_s_gb::Init { long_n_name_a: l_long_n_name_a, long_v_name_b: l_long_v_name_b }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.long_n_name_a.val()]); if !std::ptr::eq(r.long_n_name_a, &self.long_n_name_a) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().long_n_name_a is not the header field".into()); }
        r.long_v_name_b.read(out);
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.long_n_name_a as *const T8 as usize, std::mem::size_of::<T8>()));
        r.long_v_name_b.parts(out);
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <T8 as Pay>::mk(x)); *m.long_n_name_a = p; return; } at += 1;
        { let k = <Array<T2, u8>>::leaves(); if leaf >= at && leaf < at + k { return <Array<T2, u8>>::set(m.long_v_name_b, leaf - at, idx, x); } at += k; }
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.long_n_name_a.val()); *m.long_n_name_a = host(|| <T8 as Pay>::mk(x)); at += 1; }
        <Array<T2, u8>>::set_all(m.long_v_name_b, at, f); at += <Array<T2, u8>>::leaves();
    }
}
impl Ctl for SGb {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += <Array<T2, u8>>::leaves(); o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.extend(<Array<T2, u8>>::shapes(&[l])[0].iter()); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SGb(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(gen_s_gb::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[define_varlen]

pub struct GenSGc<Q: VarLen = Str, P: Copy = u8>  {
    pub x: u32,
    #[varlen]
    pub y: W<Q>,
    #[varlen]
    pub z: Array<P, u8>,
    pub w: T16,
}
pub type SGc = GenSGc<Array<u16, u8>, u64>;
struct MirrorSGc { x: u32, w: T16 }
pub fn lens_SGc(c: &[usize]) -> [usize; 0] { [] }
impl<'e> VClone<'e> for SGc {
    type Cloner = gen_s_gc::Init<<W<Array<u16, u8>> as VClone<'e>>::Cloner, <Array<u64, u8> as VClone<'e>>::Cloner>;
    fn vclone(&'e self) -> Self::Cloner { let r = self.refs(); gen_s_gc::Init {
        x: self.x.clone(),
        y: r.y.vclone(),
        z: r.z.vclone(),
        w: self.w.clone(),
    } }
}
impl Subj for SGc {
    type Direct<'e> = gen_s_gc::Init<AnyInit<'e, W<Array<u16, u8>>>, AnyInit<'e, Array<u64, u8>>>;
    type Clo<'e> = <SGc as VClone<'e>>::Cloner;
    fn name() -> String { "SGc".into() }
    fn kinds(out: &mut Vec<Kind>) { out.push(Kind::Fixed(<u32 as Pay>::MASK)); <W<Array<u16, u8>>>::kinds(out); <Array<u64, u8>>::kinds(out); out.push(Kind::Fixed(<T16 as Pay>::MASK)); }
    fn toks(out: &mut Vec<bool>) { out.push(<u32 as Pay>::TOK); <W<Array<u16, u8>>>::toks(out); <Array<u64, u8>>::toks(out); out.push(<T16 as Pay>::TOK); }
    fn shapes(ls: &[usize]) -> Vec<Vec<usize>> {
        let mut cs: Vec<Vec<usize>> = vec![vec![]];
        let mut out = vec![];
        for c in cs {
            let al = lens_SGc(&c);
            let mut acc: Vec<Vec<usize>> = vec![vec![]];
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <W<Array<u16, u8>>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = <Array<u64, u8>>::shapes(ls); acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            { let o: Vec<Vec<usize>> = vec![vec![1usize]]; acc = acc.into_iter().flat_map(|p| o.iter().map(move |x| { let mut q = p.clone(); q.extend_from_slice(x); q }).collect::<Vec<_>>()).collect(); }
            out.extend(acc);
        }
        out
    }
    fn make(lens: &[usize], seed: u64) -> Val { let mut out: Val = vec![]; let mut at = 0;
        out.push(vec![cell(seed, at, 0) & <u32 as Pay>::MASK]); at += 1;
        { let k = <W<Array<u16, u8>>>::leaves(); out.extend(<W<Array<u16, u8>>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        { let k = <Array<u64, u8>>::leaves(); out.extend(<Array<u64, u8>>::make(&lens[at..at + k], seed.wrapping_mul(31).wrapping_add(at as u64 + 1))); at += k; }
        out.push(vec![cell(seed, at, 0) & <T16 as Pay>::MASK]); at += 1;
        out
    }
    fn r_align() -> usize { [std::mem::align_of::<MirrorSGc>(), <W<Array<u16, u8>>>::r_align(), <Array<u64, u8>>::r_align()].into_iter().max().unwrap() }
    fn r_layout(lens: &[usize], base: usize, out: &mut Vec<(usize, usize)>) -> usize { let mut size = std::mem::size_of::<MirrorSGc>(); let mut at = 0;
        out.push((base + std::mem::offset_of!(SGc, x), std::mem::size_of::<u32>())); at += 1;
        { let k = <W<Array<u16, u8>>>::leaves(); size = up(size, <W<Array<u16, u8>>>::r_align()); size += <W<Array<u16, u8>>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        { let k = <Array<u64, u8>>::leaves(); size = up(size, <Array<u64, u8>>::r_align()); size += <Array<u64, u8>>::r_layout(&lens[at..at + k], base + size, out); at += k; }
        out.push((base + std::mem::offset_of!(SGc, w), std::mem::size_of::<T16>())); at += 1;
        size
    }
    fn direct<'e>(v: &[Vec<u64>], ch: Ch, env: &'e Env) -> Self::Direct<'e> { let mut at = 0;
        let l_x = <u32 as Pay>::mk(v[at][0]); at += 1;
        let l_y = { let k = <W<Array<u16, u8>>>::leaves(); let i = any::<W<Array<u16, u8>>>(&v[at..at + k], ch, env); at += k; i };
        let l_z = { let k = <Array<u64, u8>>::leaves(); let i = any::<Array<u64, u8>>(&v[at..at + k], ch, env); at += k; i };
        let l_w = <T16 as Pay>::mk(v[at][0]); at += 1;
        gen_s_gc::Init { x: l_x, y: l_y, z: l_z, w: l_w }
    }
    fn clo<'e>(&'e self) -> Option<Self::Clo<'e>> { Some(self.vclone()) }
    fn read(&self, out: &mut Val) { let r = self.refs();
        out.push(vec![r.x.val()]); if !std::ptr::eq(r.x, &self.x) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().x is not the header field".into()); }
        r.y.read(out);
        r.z.read(out);
        out.push(vec![r.w.val()]); if !std::ptr::eq(r.w, &self.w) { crate::explore::record_c(crate::explore::CONTENT | crate::explore::LAYOUT, || "refs().w is not the header field".into()); }
    }
    fn parts(&self, out: &mut Vec<(usize, usize)>) { let r = self.refs();
        out.push((r.x as *const u32 as usize, std::mem::size_of::<u32>()));
        r.y.parts(out);
        r.z.parts(out);
        out.push((r.w as *const T16 as usize, std::mem::size_of::<T16>()));
    }
    fn set(self: Pin<&mut Self>, leaf: usize, idx: usize, x: u64) { let m = self.muts(); let mut at = 0;
        if leaf == at { let p = host(|| <u32 as Pay>::mk(x)); *m.x = p; return; } at += 1;
        { let k = <W<Array<u16, u8>>>::leaves(); if leaf >= at && leaf < at + k { return <W<Array<u16, u8>>>::set(m.y, leaf - at, idx, x); } at += k; }
        { let k = <Array<u64, u8>>::leaves(); if leaf >= at && leaf < at + k { return <Array<u64, u8>>::set(m.z, leaf - at, idx, x); } at += k; }
        if leaf == at { let p = host(|| <T16 as Pay>::mk(x)); *m.w = p; return; } at += 1;
    }
    fn set_all(self: Pin<&mut Self>, base: usize, f: &mut dyn FnMut(usize, usize, u64) -> u64) { let m = self.muts(); let mut at = base;
        { let x = f(at, 0, m.x.val()); *m.x = host(|| <u32 as Pay>::mk(x)); at += 1; }
        <W<Array<u16, u8>>>::set_all(m.y, at, f); at += <W<Array<u16, u8>>>::leaves();
        <Array<u64, u8>>::set_all(m.z, at, f); at += <Array<u64, u8>>::leaves();
        { let x = f(at, 0, m.w.val()); *m.w = host(|| <T16 as Pay>::mk(x)); at += 1; }
    }
}
impl Ctl for SGc {
    const NCTL: usize = 0;
    fn ctl_types() -> Vec<&'static str> { vec![] }
    fn ctl_leaves() -> Vec<usize> { let mut o = vec![]; let mut at = 0; at += 1; at += <W<Array<u16, u8>>>::leaves(); at += <Array<u64, u8>>::leaves(); at += 1; o }
    fn with_ctl(c: &[usize], l: usize) -> Vec<usize> { let al = Self::arr_lens(c); let mut q = vec![]; q.push(1); q.extend(<W<Array<u16, u8>>>::shapes(&[l])[0].iter()); q.extend(<Array<u64, u8>>::shapes(&[l])[0].iter()); q.push(1); q }
    fn arr_lens(c: &[usize]) -> Vec<usize> { lens_SGc(c).to_vec() }
    fn try_set(self: Pin<&mut Self>, c: &[u64]) -> bool { self.try_set_layout_controllers(gen_s_gc::LayoutControllers {  }).is_ok() }
    fn ctl_direct(&self) -> Vec<u64> { vec![] }
    fn ctl_muts(self: Pin<&mut Self>) -> Vec<u64> { let m = self.muts(); vec![] }
}
#[macro_export]
macro_rules! for_structs { ($f:ident, $($a:expr),*) => {
    $f::<$crate::structs_gen::SAa>($($a),*);
    $f::<$crate::structs_gen::SAb>($($a),*);
    $f::<$crate::structs_gen::SAc>($($a),*);
    $f::<$crate::structs_gen::SAd>($($a),*);
    $f::<$crate::structs_gen::SAe>($($a),*);
    $f::<$crate::structs_gen::SAf>($($a),*);
    $f::<$crate::structs_gen::SAg>($($a),*);
    $f::<$crate::structs_gen::SAh>($($a),*);
    $f::<$crate::structs_gen::SAi>($($a),*);
    $f::<$crate::structs_gen::SAj>($($a),*);
    $f::<$crate::structs_gen::SAk>($($a),*);
    $f::<$crate::structs_gen::SAl>($($a),*);
    $f::<$crate::structs_gen::SAm>($($a),*);
    $f::<$crate::structs_gen::SAn>($($a),*);
    $f::<$crate::structs_gen::SAo>($($a),*);
    $f::<$crate::structs_gen::SAp>($($a),*);
    $f::<$crate::structs_gen::SAq>($($a),*);
    $f::<$crate::structs_gen::SAr>($($a),*);
    $f::<$crate::structs_gen::SAs>($($a),*);
    $f::<$crate::structs_gen::SAt>($($a),*);
    $f::<$crate::structs_gen::SAu>($($a),*);
    $f::<$crate::structs_gen::SAv>($($a),*);
    $f::<$crate::structs_gen::SAw>($($a),*);
    $f::<$crate::structs_gen::SAx>($($a),*);
    $f::<$crate::structs_gen::SAy>($($a),*);
    $f::<$crate::structs_gen::SAz>($($a),*);
    $f::<$crate::structs_gen::SBa>($($a),*);
    $f::<$crate::structs_gen::SBb>($($a),*);
    $f::<$crate::structs_gen::SBc>($($a),*);
    $f::<$crate::structs_gen::SBd>($($a),*);
    $f::<$crate::structs_gen::SBe>($($a),*);
    $f::<$crate::structs_gen::SBf>($($a),*);
    $f::<$crate::structs_gen::SBg>($($a),*);
    $f::<$crate::structs_gen::SBh>($($a),*);
    $f::<$crate::structs_gen::SBi>($($a),*);
    $f::<$crate::structs_gen::SBj>($($a),*);
    $f::<$crate::structs_gen::SBk>($($a),*);
    $f::<$crate::structs_gen::SBl>($($a),*);
    $f::<$crate::structs_gen::SBm>($($a),*);
    $f::<$crate::structs_gen::SBn>($($a),*);
    $f::<$crate::structs_gen::SBo>($($a),*);
    $f::<$crate::structs_gen::SBp>($($a),*);
    $f::<$crate::structs_gen::SBq>($($a),*);
    $f::<$crate::structs_gen::SBr>($($a),*);
    $f::<$crate::structs_gen::SBs>($($a),*);
    $f::<$crate::structs_gen::SBt>($($a),*);
    $f::<$crate::structs_gen::SBu>($($a),*);
    $f::<$crate::structs_gen::SBv>($($a),*);
    $f::<$crate::structs_gen::SBw>($($a),*);
    $f::<$crate::structs_gen::SBx>($($a),*);
    $f::<$crate::structs_gen::SBy>($($a),*);
    $f::<$crate::structs_gen::SBz>($($a),*);
    $f::<$crate::structs_gen::SCa>($($a),*);
    $f::<$crate::structs_gen::SCb>($($a),*);
    $f::<$crate::structs_gen::SCc>($($a),*);
    $f::<$crate::structs_gen::SCd>($($a),*);
    $f::<$crate::structs_gen::SCe>($($a),*);
    $f::<$crate::structs_gen::SCf>($($a),*);
    $f::<$crate::structs_gen::SCg>($($a),*);
    $f::<$crate::structs_gen::SCh>($($a),*);
    $f::<$crate::structs_gen::SCi>($($a),*);
    $f::<$crate::structs_gen::SCj>($($a),*);
    $f::<$crate::structs_gen::SCk>($($a),*);
    $f::<$crate::structs_gen::SCl>($($a),*);
    $f::<$crate::structs_gen::SCm>($($a),*);
    $f::<$crate::structs_gen::SCn>($($a),*);
    $f::<$crate::structs_gen::SCo>($($a),*);
    $f::<$crate::structs_gen::SCp>($($a),*);
    $f::<$crate::structs_gen::SCq>($($a),*);
    $f::<$crate::structs_gen::SCr>($($a),*);
    $f::<$crate::structs_gen::SCs>($($a),*);
    $f::<$crate::structs_gen::SCt>($($a),*);
    $f::<$crate::structs_gen::SCu>($($a),*);
    $f::<$crate::structs_gen::SCv>($($a),*);
    $f::<$crate::structs_gen::SCw>($($a),*);
    $f::<$crate::structs_gen::SCx>($($a),*);
    $f::<$crate::structs_gen::SCy>($($a),*);
    $f::<$crate::structs_gen::SCz>($($a),*);
    $f::<$crate::structs_gen::SDa>($($a),*);
    $f::<$crate::structs_gen::SDb>($($a),*);
    $f::<$crate::structs_gen::SDc>($($a),*);
    $f::<$crate::structs_gen::SDd>($($a),*);
    $f::<$crate::structs_gen::SDe>($($a),*);
    $f::<$crate::structs_gen::SDf>($($a),*);
    $f::<$crate::structs_gen::SDg>($($a),*);
    $f::<$crate::structs_gen::SDh>($($a),*);
    $f::<$crate::structs_gen::SDi>($($a),*);
    $f::<$crate::structs_gen::SDj>($($a),*);
    $f::<$crate::structs_gen::SDk>($($a),*);
    $f::<$crate::structs_gen::SDl>($($a),*);
    $f::<$crate::structs_gen::SDm>($($a),*);
    $f::<$crate::structs_gen::SDn>($($a),*);
    $f::<$crate::structs_gen::SDo>($($a),*);
    $f::<$crate::structs_gen::SDp>($($a),*);
    $f::<$crate::structs_gen::SDq>($($a),*);
    $f::<$crate::structs_gen::SDr>($($a),*);
    $f::<$crate::structs_gen::SDs>($($a),*);
    $f::<$crate::structs_gen::SDt>($($a),*);
    $f::<$crate::structs_gen::SDu>($($a),*);
    $f::<$crate::structs_gen::SDv>($($a),*);
    $f::<$crate::structs_gen::SDw>($($a),*);
    $f::<$crate::structs_gen::SDx>($($a),*);
    $f::<$crate::structs_gen::SDy>($($a),*);
    $f::<$crate::structs_gen::SDz>($($a),*);
    $f::<$crate::structs_gen::SEa>($($a),*);
    $f::<$crate::structs_gen::SEb>($($a),*);
    $f::<$crate::structs_gen::SEc>($($a),*);
    $f::<$crate::structs_gen::SEd>($($a),*);
    $f::<$crate::structs_gen::SEe>($($a),*);
    $f::<$crate::structs_gen::SEf>($($a),*);
    $f::<$crate::structs_gen::SEg>($($a),*);
    $f::<$crate::structs_gen::SEh>($($a),*);
    $f::<$crate::structs_gen::SEi>($($a),*);
    $f::<$crate::structs_gen::SEj>($($a),*);
    $f::<$crate::structs_gen::SEk>($($a),*);
    $f::<$crate::structs_gen::SEl>($($a),*);
    $f::<$crate::structs_gen::SEm>($($a),*);
    $f::<$crate::structs_gen::SEn>($($a),*);
    $f::<$crate::structs_gen::SEo>($($a),*);
    $f::<$crate::structs_gen::SEp>($($a),*);
    $f::<$crate::structs_gen::SEq>($($a),*);
    $f::<$crate::structs_gen::SEr>($($a),*);
    $f::<$crate::structs_gen::SEs>($($a),*);
    $f::<$crate::structs_gen::SEt>($($a),*);
    $f::<$crate::structs_gen::SEu>($($a),*);
    $f::<$crate::structs_gen::SEv>($($a),*);
    $f::<$crate::structs_gen::SEw>($($a),*);
    $f::<$crate::structs_gen::SEx>($($a),*);
    $f::<$crate::structs_gen::SEy>($($a),*);
    $f::<$crate::structs_gen::SEz>($($a),*);
    $f::<$crate::structs_gen::SFa>($($a),*);
    $f::<$crate::structs_gen::SFb>($($a),*);
    $f::<$crate::structs_gen::SFc>($($a),*);
    $f::<$crate::structs_gen::SFd>($($a),*);
    $f::<$crate::structs_gen::SFe>($($a),*);
    $f::<$crate::structs_gen::SFf>($($a),*);
    $f::<$crate::structs_gen::SFg>($($a),*);
    $f::<$crate::structs_gen::SFh>($($a),*);
    $f::<$crate::structs_gen::SFi>($($a),*);
    $f::<$crate::structs_gen::SFj>($($a),*);
    $f::<$crate::structs_gen::SFk>($($a),*);
    $f::<$crate::structs_gen::SFl>($($a),*);
    $f::<$crate::structs_gen::SFm>($($a),*);
    $f::<$crate::structs_gen::SFn>($($a),*);
    $f::<$crate::structs_gen::SFo>($($a),*);
    $f::<$crate::structs_gen::SFp>($($a),*);
    $f::<$crate::structs_gen::SFq>($($a),*);
    $f::<$crate::structs_gen::SFr>($($a),*);
    $f::<$crate::structs_gen::SFs>($($a),*);
    $f::<$crate::structs_gen::SFt>($($a),*);
    $f::<$crate::structs_gen::SFu>($($a),*);
    $f::<$crate::structs_gen::SFv>($($a),*);
    $f::<$crate::structs_gen::SFw>($($a),*);
    $f::<$crate::structs_gen::SFx>($($a),*);
    $f::<$crate::structs_gen::SFy>($($a),*);
    $f::<$crate::structs_gen::SFz>($($a),*);
    $f::<$crate::structs_gen::SGa>($($a),*);
    $f::<$crate::structs_gen::SGb>($($a),*);
    $f::<$crate::structs_gen::SGc>($($a),*);
} }
pub const COUNT: usize = 159;
