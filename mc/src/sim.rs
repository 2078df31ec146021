//! A sequence in lockstep with a list model.
use crate::alloc::{host, lib, requests};
use crate::explore::*;
use crate::subj::*;
use crate::tok;
use crate::{gcheck, gcheck_eq};
use varlen::seq::{CheckedIndexing, Indexing, Seq, UncheckedIndexing};
use varlen::{Initializer, Owned, VarLen};

pub trait Ix: Indexing + Sized + 'static {
    const CHECKED: bool;
    fn valid<T: VarLen>(s: &Seq<T, Self>, off: usize) -> Option<bool>;
    fn get<T: VarLen>(s: &Seq<T, Self>, off: usize) -> &T;
    fn get_mut<T: VarLen>(s: &mut Seq<T, Self>, off: usize) -> std::pin::Pin<&mut T>;
}
impl Ix for UncheckedIndexing {
    const CHECKED: bool = false;
    fn valid<T: VarLen>(_: &Seq<T, Self>, _: usize) -> Option<bool> {
        None
    }
    fn get<T: VarLen>(s: &Seq<T, Self>, off: usize) -> &T {
        unsafe { s.from_offset_unchecked(off) }
    }
    fn get_mut<T: VarLen>(s: &mut Seq<T, Self>, off: usize) -> std::pin::Pin<&mut T> {
        unsafe { s.from_offset_unchecked_mut(off) }
    }
}
impl Ix for CheckedIndexing {
    const CHECKED: bool = true;
    fn valid<T: VarLen>(s: &Seq<T, Self>, off: usize) -> Option<bool> {
        Some(s.is_offset_valid(off))
    }
    fn get<T: VarLen>(s: &Seq<T, Self>, off: usize) -> &T {
        s.from_offset(off)
    }
    fn get_mut<T: VarLen>(s: &mut Seq<T, Self>, off: usize) -> std::pin::Pin<&mut T> {
        s.from_offset_mut(off)
    }
}

pub fn seq_name<T: Subj, I: Ix>() -> String {
    format!("Seq<{}>{}", T::name(), if I::CHECKED { "/checked" } else { "" })
}

/// n shapes of T ordered by size, spanning small to large.
pub fn pick_shapes<T: Subj>(n: usize) -> Vec<Vec<usize>> {
    host(|| {
        let mut c: Vec<Vec<usize>> = vec![];
        for l in [0usize, 1, 3, 7, 12, 21, 45] {
            let s = T::shapes(&[l]);
            if let Some(x) = s.first() {
                c.push(x.clone());
            }
        }
        let m = T::shapes(&[0, 5]);
        c.extend(m.iter().take(3).cloned());
        c.extend(m.iter().rev().take(3).cloned());
        c.sort_by_key(|l| (T::r_layout(l, 0, &mut vec![]), l.clone()));
        c.dedup();
        if c.len() <= n {
            return c;
        }
        (0..n).map(|i| c[i * (c.len() - 1) / (n - 1).max(1)].clone()).collect()
    })
}

pub struct Sim<T: Subj, I: Ix> {
    pub seq: Option<Seq<T, I>>,
    pub model: Vec<Val>,
    pub offs: Vec<usize>,
    pub occ: usize,
    /// tokens deliberately leaked so far
    pub leaked: i64,
    pub gen: u64,
    /// total bytes requested / number of requests, by pushes
    pub grow_reqs: usize,
    pub grow_bytes: usize,
}

thread_local! {
    /// live values that belong to something outside the world being checked
    pub static OTHER: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}
pub fn expect_live(env: &Env, held: i64, what: &str) {
    gcheck_eq!(TOK | TOKLEAK, tok::live(), env.tok.get() + held + OTHER.with(|o| o.get()), "live values with destructors after {}", what);
}

impl<T: Subj, I: Ix> Sim<T, I> {
    pub fn new() -> Self {
        Sim { seq: Some(lib(|| Seq::new())), model: vec![], offs: vec![], occ: 0, leaked: 0, gen: 0, grow_reqs: 0, grow_bytes: 0 }
    }
    pub fn s(&mut self) -> &mut Seq<T, I> {
        self.seq.as_mut().unwrap()
    }
    pub fn tokens(&self) -> i64 {
        host(|| self.model.iter().map(|v| tokens::<T>(v)).sum::<i64>() + self.leaked)
    }
    pub fn span(v: &Val) -> usize {
        host(|| (r_size::<T>(&lens_of::<T>(v)) + T::r_align() - 1) / T::r_align())
    }
    pub fn val(&self, lens: &[usize]) -> Val {
        host(|| T::make(lens, (self.model.len() as u64) * 77 + self.gen * 1009 + 5))
    }
    /// account for `v` having been appended
    pub fn appended(&mut self, v: Val) {
        host(|| {
            self.offs.push(self.occ);
            self.occ += Self::span(&v);
            self.model.push(v);
        })
    }
    pub fn push(&mut self, v: Val, init: impl Initializer<T>) {
        op();
        log(|| format!("push {}", show(&v)));
        let off = self.s().offset();
        gcheck_eq!(OFFSET, off, self.occ, "offset announced before push");
        let cap = self.s().capacity_in_offsets();
        let (r0, b0) = (requests(), crate::alloc::bytes());
        lib(|| self.s().push(init));
        let n = requests() - r0;
        gcheck!(GROWTH, !(self.occ + Self::span(&v) <= cap && n > 0), "push requested storage although there was room (occupied {}, needed {}, capacity {})", self.occ, Self::span(&v), cap);
        self.grow_reqs += n;
        self.grow_bytes += crate::alloc::bytes() - b0;
        self.appended(v);
    }
    pub fn clear_model(&mut self) {
        self.model.clear();
        self.offs.clear();
        self.occ = 0;
        self.gen += 1;
    }
    /// Take everything out; consume `k` elements, then drop (or forget) the iterator.
    pub fn take(&mut self, k: usize, forget: bool, mut each: impl FnMut(usize, Owned<'_, T>, &Val)) {
        op();
        log(|| format!("take_elems: consume {} then {}", k, if forget { "forget" } else { "drop" }));
        let model = std::mem::take(&mut self.model);
        {
            let mut it = lib(|| self.seq.as_mut().unwrap().take_elems());
            for i in 0..k.min(model.len()) {
                gcheck_eq!(ITER | CONTENT, it.len(), model.len() - i, "items left in owning iterator");
                match lib(|| it.next()) {
                    None => {
                        gcheck!(ITER | CONTENT, false, "owning iterator ended after {} of {} elements", i, model.len());
                        break;
                    }
                    Some(o) => {
                        let got = read::<T>(&o);
                        gcheck_eq!(CONTENT, got, model[i], "element {} taken out", i);
                        each(i, o, &model[i]);
                    }
                }
            }
            if k >= model.len() {
                gcheck!(ITER | CONTENT, lib(|| it.next()).is_none(), "owning iterator yields too many elements");
            }
            if forget {
                let left: i64 = host(|| model.iter().skip(k).map(|v| tokens::<T>(v)).sum());
                self.leaked += left;
                if left > 0 {
                    allow_live_tokens();
                }
                std::mem::forget(it);
            } else {
                lib(|| drop(it));
            }
        }
        host(|| drop(model));
        self.clear_model();
    }
    pub fn drop_seq(&mut self) {
        op();
        log(|| "drop sequence".into());
        let s = self.seq.take();
        lib(|| drop(s));
        host(|| self.clear_model());
    }
    pub fn observe(&mut self, rem: usize) {
        stop_if_violated();
        let n = self.model.len();
        let s = self.seq.as_ref().unwrap();
        gcheck_eq!(CONTENT, s.len(), n, "len()");
        gcheck_eq!(OFFSET, s.offset(), self.occ, "offset()");
        let cap = s.capacity_in_offsets();
        gcheck!(OFFSET | GROWTH, cap >= self.occ, "capacity {} below occupied {}", cap, self.occ);
        let mut base = 0usize;
        let mut i = 0;
        for e in s.iter() {
            if i >= n {
                gcheck!(CONTENT, false, "iter() yields more than {} elements", n);
                break;
            }
            let got = read(e);
            gcheck_eq!(CONTENT, got, self.model[i], "element {} of {}", i, n);
            let a = e as *const T as usize;
            if i == 0 {
                base = a;
            }
            if on(OFFSET) {
                gcheck_eq!(OFFSET, a.wrapping_sub(base), self.offs[i] * T::r_align(), "byte distance of element {} from the first", i);
                gcheck!(OFFSET, a % T::r_align() == 0, "element {} at {:#x} is not aligned to {}", i, a, T::r_align());
                if Self::span(&self.model[i]) > 0 {
                    let o = catch(|| s.offset_of(e));
                    gcheck_eq!(OFFSET, o, Some(self.offs[i]), "offset_of element {}", i);
                    let p = unsafe { s.from_offset_unchecked(self.offs[i]) } as *const T as usize;
                    gcheck_eq!(OFFSET, p, a, "from_offset_unchecked({})", self.offs[i]);
                }
            }
            i += 1;
        }
        gcheck_eq!(CONTENT, i, n, "number of elements yielded by iter()");
        if on(CONTENT) {
            let model = &self.model;
            let mut j = 0;
            for e in self.seq.as_mut().unwrap().iter_mut() {
                if j >= n {
                    gcheck!(CONTENT, false, "iter_mut() yields more than {} elements", n);
                    break;
                }
                let got = read(&*e);
                gcheck_eq!(CONTENT, got, model[j], "element {} of {} by iter_mut", j, n);
                j += 1;
            }
            gcheck_eq!(CONTENT, j, n, "number of elements yielded by iter_mut()");
        }
        if on(VALID) && I::CHECKED {
            self.observe_valid();
        }
        crate::alloc::ST.with(|s| if on(MEM) { s.check_live() });
        stop_if_violated();
        let mut h = H::new(n as u64);
        for v in &self.model {
            for l in v {
                h.u(l.len() as u64);
                for c in l {
                    h.u(*c);
                }
            }
        }
        h.u(cap as u64);
        h.u(self.occ as u64);
        h.u(self.gen);
        state(h.get(), rem * 0);
    }
    pub fn observe_valid(&mut self) {
        let s = self.seq.as_ref().unwrap();
        let cap = s.capacity_in_offsets();
        // elements without storage have no offset
        let none = vec![];
        let offs = if self.occ == 0 { &none } else { &self.offs };
        let mut k = 0;
        let hi = cap + 130;
        for o in 0..hi {
            let want = k < offs.len() && offs[k] == o;
            let got = I::valid(s, o).unwrap();
            if got != want {
                gcheck!(VALID, false, "is_offset_valid({}) is {} with starts {:?}, occupied {}, capacity {}", o, got, self.offs, self.occ, cap);
            }
            while k < offs.len() && offs[k] <= o {
                k += 1;
            }
        }
        for o in [usize::MAX, usize::MAX / 2 + 1, usize::MAX / 8, (usize::MAX / T::r_align()).saturating_add(1), 1 << 32, usize::MAX - 7] {
            gcheck!(VALID, !I::valid(s, o).unwrap(), "is_offset_valid({:#x}) is true", o);
        }
    }
    /// Every offset looked up, valid or not, shared and mutable.
    pub fn lookup_all(&mut self) {
        self.lookup(true)
    }
    /// Without `full`, only around the starts, the end and the extremes (a refused lookup unwinds, which is slow).
    pub fn lookup(&mut self, full: bool) {
        if !I::CHECKED {
            return;
        }
        op();
        let cap = self.s().capacity_in_offsets();
        let starts = host(|| if self.occ == 0 { vec![] } else { self.offs.clone() });
        let extra = [usize::MAX, (usize::MAX / T::r_align()).saturating_add(1)];
        let occ = self.occ;
        for o in (0..cap + 20).chain(extra) {
            if !full && o > 0 && o < usize::MAX / 128 && starts.binary_search(&o).is_err() {
                let near = starts.last().map_or(false, |&l| o == l + 1) || o == occ || o + 1 == cap || o == cap || o == cap + 1;
                if !near {
                    continue;
                }
            }
            let want = starts.iter().position(|&x| x == o);
            let s = self.seq.as_mut().unwrap();
            let got = catch(|| host(|| read::<T>(I::get(s, o))));
            let gotm = catch(|| host(|| read::<T>(&*I::get_mut(s, o))));
            match want {
                Some(i) => {
                    gcheck_eq!(VALID, got.as_ref(), Some(&self.model[i]), "from_offset({}) of element {}", o, i);
                    gcheck_eq!(VALID, gotm.as_ref(), Some(&self.model[i]), "from_offset_mut({}) of element {}", o, i);
                }
                None => {
                    gcheck!(VALID, got.is_none(), "from_offset({}) succeeded with starts {:?}", o, starts);
                    gcheck!(VALID, gotm.is_none(), "from_offset_mut({}) succeeded with starts {:?}", o, starts);
                }
            }
        }
        host(|| drop(starts));
    }
}

pub fn show(v: &Val) -> String {
    v.iter().map(|l| if l.len() <= 4 { format!("{:x?}", l) } else { format!("<{} cells>", l.len()) }).collect::<Vec<_>>().join("")
}
