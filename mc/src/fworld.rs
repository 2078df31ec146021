//! Two sequences, a box and an arena object whose operations may be hit by a fault: an allocation that
//! fails, or user code that panics. The model says what each must look like afterwards.
use crate::alloc::{host, lib};
use crate::explore::*;
use crate::sim::*;
use crate::subj::*;
use crate::tok;
use crate::world::Hinted;
use crate::{gcheck, gcheck_eq};
use std::mem::ManuallyDrop;
use varlen::{Owned, Seq, VBox};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum F {
    Push(usize, usize),
    PushDeep(usize),
    PushB(usize),
    Extend(usize, usize),
    Collect,
    CollectNew(usize),
    ExtendFromA,
    BoxNew(usize, usize),
    BoxNewDeep(usize),
    BoxClone,
    BoxDrop,
    BoxToA,
    BoxToArena,
    OwnNew(usize, usize),
    OwnDrop,
    OwnToA,
    OwnToBox,
    TakeMove(usize),
    TakeToBox,
    TakeDrop(usize),
    DropA,
    CloneToB,
    CloneToBox,
    Abandon(usize, usize),
    AbandonDeep(usize),
    /// drop the sequence and start with a new one
    Fresh,
    Look,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Alloc,
    Callback(u32),
}

fn alloc_fault(_: std::alloc::Layout) -> bool {
    if std::thread::panicking() {
        return false;
    }
    let f = choose_dev(2) == 1;
    if f {
        log(|| "<allocation fails>".into());
    }
    f
}
/// Run library code that may be hit. None: it panicked (legitimately: something was injected).
pub fn risky<R>(m: Mode, f: impl FnOnce() -> R) -> Option<R> {
    let d0 = dev_used();
    match m {
        Mode::Alloc => crate::alloc::ST.with(|s| s.fault.set(Some(alloc_fault))),
        Mode::Callback(k) => {
            tok::arm(k);
        }
    }
    let r = catch(|| lib(f));
    crate::alloc::ST.with(|s| s.fault.set(None));
    tok::arm(0);
    stop_if_violated();
    if r.is_none() && dev_used() == d0 {
        crate::fail!("panic although nothing was injected: {}", last_panic());
    }
    if r.is_some() && dev_used() != d0 {
        if let Mode::Callback(_) = m {
            gcheck!(CONTENT | TOK, false, "a panic of user code was swallowed");
        }
    }
    r
}

pub struct FWorld<'e, T: Subj, I: Ix> {
    pub env: &'e Env,
    pub m: Mode,
    pub a: Sim<T, I>,
    pub b: Sim<T, I>,
    pub bx: Option<(VBox<T>, Val)>,
    pub ow: Option<(Owned<'e, T>, Val)>,
    pub shapes: Vec<Vec<usize>>,
    n: u64,
}
impl<'e, T: Subj, I: Ix> FWorld<'e, T, I> {
    pub fn new(env: &'e Env, m: Mode, shapes: &[Vec<usize>]) -> Self {
        FWorld { env, m, a: Sim::new(), b: Sim::new(), bx: None, ow: None, shapes: host(|| shapes.to_vec()), n: 0 }
    }
    pub fn fresh(&mut self, sh: usize) -> Val {
        self.n += 1;
        let n = self.n;
        host(|| T::make(&self.shapes[sh.min(self.shapes.len() - 1)], n * 131 + 17))
    }
    pub fn enabled(&self, o: F) -> bool {
        use F::*;
        match o {
            Push(s, _) | PushDeep(s) | PushB(s) | Abandon(s, _) | AbandonDeep(s) => s < self.shapes.len(),
            BoxNew(s, _) | BoxNewDeep(s) => self.bx.is_none() && s < self.shapes.len(),
            OwnNew(s, _) => self.ow.is_none() && s < self.shapes.len(),
            BoxClone | BoxDrop | BoxToA => self.bx.is_some(),
            BoxToArena => self.bx.is_some() && self.ow.is_none(),
            OwnDrop | OwnToA => self.ow.is_some(),
            OwnToBox => self.ow.is_some() && self.bx.is_none(),
            TakeMove(k) => k <= self.a.model.len() && !self.a.model.is_empty(),
            TakeDrop(k) => k <= self.a.model.len(),
            TakeToBox | CloneToBox => !self.a.model.is_empty() && self.bx.is_none(),
            CloneToB => !self.a.model.is_empty(),
            _ => true,
        }
    }
    pub fn step(&mut self, ops: &[F]) -> F {
        let en: Vec<F> = host(|| ops.iter().copied().filter(|&o| self.enabled(o)).collect());
        if en.is_empty() {
            return ops[0];
        }
        let o = en[choose(en.len())];
        host(|| drop(en));
        self.apply(o);
        o
    }
    pub fn push_to(&mut self, to_b: bool, v: Val, init: impl varlen::Initializer<T>) {
        let m = self.m;
        let s = if to_b { &mut self.b } else { &mut self.a };
        gcheck_eq!(OFFSET, s.s().offset(), s.occ, "offset announced before push");
        let r = risky(m, || s.seq.as_mut().unwrap().push(init));
        match r {
            Some(()) => s.appended(v),
            None => host(|| drop(v)),
        }
    }
    fn deep(&mut self, v: &Val) -> Option<AnyInit<'e, T>> {
        let env = self.env;
        Some(any::<T>(v, &mut |n| choose(n), env))
    }
    pub fn apply(&mut self, o: F) {
        use F::*;
        op();
        log(|| format!("{:?}", o));
        let env = self.env;
        let m = self.m;
        match o {
            Push(s, r) => {
                let v = self.fresh(s);
                let i = any_route::<T>(r, &v, &mut crate::world::zero, env);
                self.push_to(false, v, i);
            }
            PushDeep(s) => {
                let v = self.fresh(s);
                if let Some(i) = self.deep(&v) {
                    self.push_to(false, v, i);
                }
            }
            PushB(s) => {
                let v = self.fresh(s);
                let i = any_route::<T>(0, &v, &mut crate::world::zero, env);
                self.push_to(true, v, i);
            }
            Extend(n, hint) => {
                let mut vs = vec![];
                let mut is = vec![];
                for i in 0..n {
                    let v = self.fresh(i);
                    let init = any_route::<T>(i % ROUTES, &v, &mut crate::world::zero, env);
                    host(|| {
                        vs.push(v);
                        is.push(init);
                    });
                }
                let cnt = std::cell::Cell::new(0usize);
                let it = Hinted { it: is.into_iter().inspect(|_| cnt.set(cnt.get() + 1)), hint };
                let old = self.a.model.len();
                let r = risky(m, || self.a.seq.as_mut().unwrap().extend(it));
                let k = match r {
                    Some(()) => n,
                    None => self.partial(false, old, cnt.get()),
                };
                for v in vs.into_iter().take(k) {
                    self.a.appended(v);
                }
            }
            CollectNew(n) => {
                let mut vs = vec![];
                let mut is = vec![];
                for i in 0..n {
                    let v = self.fresh(i);
                    let init = any_route::<T>(i % ROUTES, &v, &mut crate::world::zero, env);
                    host(|| {
                        vs.push(v);
                        is.push(init);
                    });
                }
                self.drop_b();
                let it = Hinted { it: is.into_iter(), hint: 1 };
                match risky(m, || it.collect::<Seq<T, I>>()) {
                    Some(s) => {
                        self.b.seq = Some(s);
                        for v in vs {
                            self.b.appended(v);
                        }
                    }
                    None => {
                        self.b.seq = Some(lib(|| Seq::new()));
                        host(|| drop(vs));
                    }
                }
            }
            Collect => {
                self.drop_b();
                let model = std::mem::take(&mut self.a.model);
                let r = risky(m, || self.a.seq.as_mut().unwrap().take_elems().collect::<Seq<T, I>>());
                match r {
                    Some(s) => {
                        self.b.seq = Some(s);
                        for v in model {
                            self.b.appended(v);
                        }
                    }
                    None => {
                        self.b.seq = Some(lib(|| Seq::new()));
                        host(|| drop(model));
                    }
                }
                self.a.clear_model();
            }
            ExtendFromA => {
                let model = std::mem::take(&mut self.a.model);
                let cnt = std::cell::Cell::new(0usize);
                let old = self.b.model.len();
                let n = model.len();
                let r = {
                    let (a, b) = (&mut self.a, &mut self.b);
                    let cnt = &cnt;
                    risky(m, move || b.seq.as_mut().unwrap().extend(a.seq.as_mut().unwrap().take_elems().inspect(|_| cnt.set(cnt.get() + 1))))
                };
                let k = if r.is_some() { n } else { self.partial(true, old, cnt.get()) };
                for v in model.into_iter().take(k) {
                    self.b.appended(v);
                }
                self.a.clear_model();
            }
            BoxNew(s, r) => {
                let v = self.fresh(s);
                let i = any_route::<T>(r, &v, &mut crate::world::zero, env);
                self.bx = risky(m, || VBox::new(i)).map(|b| (b, v));
            }
            BoxNewDeep(s) => {
                let v = self.fresh(s);
                if let Some(i) = self.deep(&v) {
                    self.bx = risky(m, || VBox::new(i)).map(|b| (b, v));
                }
            }
            BoxClone => {
                let (b, v) = self.bx.take().unwrap();
                let c = match b.clo() {
                    Some(c) => risky(m, || VBox::new(c)),
                    None => None,
                };
                match c {
                    Some(c) => {
                        risky(m, || drop(b));
                        self.bx = Some((c, v));
                    }
                    None => self.bx = Some((b, v)),
                }
            }
            BoxDrop => {
                let (b, v) = self.bx.take().unwrap();
                risky(m, || drop(b));
                host(|| drop(v));
            }
            BoxToA => {
                let (b, v) = self.bx.take().unwrap();
                self.push_to(false, v, b);
            }
            BoxToArena => {
                let (b, v) = self.bx.take().unwrap();
                self.ow = risky(m, || Owned::new_in(b, &env.bump)).map(|o| (o, v));
            }
            OwnNew(s, r) => {
                let v = self.fresh(s);
                let i = any_route::<T>(r, &v, &mut crate::world::zero, env);
                self.ow = risky(m, || Owned::new_in(i, &env.bump)).map(|o| (o, v));
            }
            OwnDrop => {
                let (b, v) = self.ow.take().unwrap();
                risky(m, || drop(b));
                host(|| drop(v));
            }
            OwnToA => {
                let (b, v) = self.ow.take().unwrap();
                self.push_to(false, v, b);
            }
            OwnToBox => {
                let (b, v) = self.ow.take().unwrap();
                self.bx = risky(m, || VBox::new(b)).map(|b| (b, v));
            }
            TakeMove(k) | TakeDrop(k) => {
                let model = std::mem::take(&mut self.a.model);
                let to_b = matches!(o, TakeMove(_));
                let moved = std::cell::RefCell::new(vec![]);
                {
                    let (a, b) = (&mut self.a, &mut self.b);
                    let (model, moved) = (&model, &moved);
                    risky(m, move || {
                        let mut it = a.seq.as_mut().unwrap().take_elems();
                        for i in 0..k {
                            match it.next() {
                                None => crate::fail!("owning iterator ended after {} of {} elements", i, model.len()),
                                Some(o) => {
                                    let got = read::<T>(&o);
                                    gcheck_eq!(CONTENT, got, model[i], "element {} taken out", i);
                                    if to_b {
                                        b.seq.as_mut().unwrap().push(o);
                                        host(|| moved.borrow_mut().push(model[i].clone()));
                                    } else {
                                        drop(o);
                                    }
                                }
                            }
                        }
                        drop(it);
                    });
                }
                for v in moved.into_inner() {
                    self.b.appended(v);
                }
                host(|| drop(model));
                self.a.clear_model();
            }
            TakeToBox => {
                let model = std::mem::take(&mut self.a.model);
                let slot = std::cell::RefCell::new(None);
                {
                    let a = &mut self.a;
                    let slot = &slot;
                    risky(m, move || {
                        let mut it = a.seq.as_mut().unwrap().take_elems();
                        if let Some(o) = it.next() {
                            *slot.borrow_mut() = Some(VBox::new(o));
                        }
                        drop(it);
                    });
                }
                self.bx = slot.into_inner().map(|b| (b, host(|| model[0].clone())));
                host(|| drop(model));
                self.a.clear_model();
            }
            DropA | Fresh => {
                let s = self.a.seq.take();
                risky(m, || drop(s));
                self.a.clear_model();
                self.a.seq = Some(lib(|| Seq::new()));
            }
            CloneToB | CloneToBox => {
                let n = self.a.model.len();
                let v = host(|| self.a.model[n - 1].clone());
                let r = {
                    let a = self.a.seq.as_ref().unwrap();
                    let e = a.iter().last().unwrap();
                    match e.clo() {
                        None => return,
                        Some(c) => {
                            if o == CloneToB {
                                let b = &mut self.b;
                                risky(m, || b.seq.as_mut().unwrap().push(c))
                            } else {
                                match risky(m, || VBox::new(c)) {
                                    Some(b) => {
                                        self.bx = Some((b, host(|| v.clone())));
                                        Some(())
                                    }
                                    None => None,
                                }
                            }
                        }
                    }
                };
                if o == CloneToB && r.is_some() {
                    self.b.appended(v);
                }
            }
            Abandon(s, r) => {
                let v = self.fresh(s);
                let i = any_route::<T>(r, &v, &mut crate::world::zero, env);
                risky(m, || drop(i));
                host(|| drop(v));
            }
            AbandonDeep(s) => {
                let v = self.fresh(s);
                if let Some(i) = self.deep(&v) {
                    risky(m, || drop(i));
                }
                host(|| drop(v));
            }
            Look => {
                self.a.lookup(false);
                self.b.lookup(false);
            }
        }
    }
    fn drop_b(&mut self) {
        let s = self.b.seq.take();
        let m = self.m;
        risky(m, || drop(s));
        self.b.clear_model();
    }
    /// number of elements a failed extend added, given how many items its source had yielded
    fn partial(&self, b: bool, old: usize, yielded: usize) -> usize {
        let s = if b { &self.b } else { &self.a };
        let k = s.seq.as_ref().unwrap().len().wrapping_sub(old);
        gcheck!(CONTENT, k == yielded || k + 1 == yielded, "after a failed extend that had been given {} items, the sequence has {} elements, before it {}", yielded, old.wrapping_add(k), old);
        k
    }
    pub fn held(&self) -> i64 {
        let mut n = self.a.tokens() + self.b.tokens();
        if let Some((_, v)) = &self.bx {
            n += tokens::<T>(v);
        }
        if let Some((_, v)) = &self.ow {
            n += tokens::<T>(v);
        }
        n
    }
    pub fn observe(&mut self) {
        self.a.observe(0);
        self.b.observe(0);
        if let Some((b, v)) = &self.bx {
            let got = read::<T>(b);
            gcheck_eq!(CONTENT, got, *v, "content of the box");
        }
        if let Some((b, v)) = &self.ow {
            let got = read::<T>(b);
            gcheck_eq!(CONTENT, got, *v, "content of the arena object");
        }
        if on(MEM) {
            self.env.check_guards();
        }
        if on(TOK) {
            let (live, held) = (tok::live(), self.held() + self.env.tok.get());
            if live < held {
                crate::fail!("{} values with destructors are alive but {} are held", live, held);
            }
            if self.m == Mode::Alloc || dev_used() == 0 {
                crate::check_eq!(live, held, "live values with destructors");
            }
        }
        stop_if_violated();
    }
    pub fn finish(mut self) {
        let m = self.m;
        let bx = self.bx.take();
        risky(m, || drop(bx.map(|b| b.0)));
        let ow = self.ow.take();
        risky(m, || drop(ow.map(|b| b.0)));
        let a = self.a.seq.take();
        risky(m, || drop(a));
        self.a.clear_model();
        let b = self.b.seq.take();
        risky(m, || drop(b));
        self.b.clear_model();
        if m != Mode::Alloc && dev_used() > 0 {
            allow_live_tokens();
            allow_leaks();
        }
        stop_if_violated();
    }
}

pub fn fhistory<T: Subj, I: Ix>(m: Mode, ops: &[F], depth: usize, shapes: &[Vec<usize>]) {
    let env = ManuallyDrop::new(Env::new());
    let mut w: ManuallyDrop<FWorld<T, I>> = ManuallyDrop::new(FWorld::new(&env, m, shapes));
    for _ in 0..depth {
        w.step(ops);
        w.observe();
    }
    ManuallyDrop::into_inner(w).finish();
    drop(ManuallyDrop::into_inner(env));
}
pub fn fsection<T: Subj, I: Ix>(m: Mode, dev: usize, tag: &str, ops: Vec<F>, depth: usize, nshapes: usize) -> Section {
    let shapes = pick_shapes::<T>(nshapes);
    Section {
        name: format!("{} {} depth {} faults {}", tag, seq_name::<T, I>(), depth, dev),
        dev,
        body: Box::new(move || fhistory::<T, I>(m, &ops, depth, &shapes)),
    }
}
