//! A small world of owners of one object type: two sequences, a box, an arena object.
use crate::alloc::{host, lib};
use crate::explore::*;
use crate::sim::*;
use crate::subj::*;
use crate::{gcheck, gcheck_eq};
use varlen::{Initializer, Owned, Seq, VBox};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    /// push a new object of shape .0 handed over by route .1 into A
    Push(usize, usize),
    /// as Push, every nested part's route chosen freely
    PushDeep(usize),
    /// the same into B
    PushB(usize),
    BoxNew(usize, usize),
    BoxToA,
    BoxToB,
    BoxToArena,
    BoxClone,
    BoxRaw,
    BoxDrop,
    BoxRebox,
    OwnNew(usize, usize),
    OwnToA,
    OwnToBox,
    OwnRaw,
    OwnDrop,
    OwnLeak,
    OwnMove,
    /// take from A, push the first k into B, drop the rest
    TakeMove(usize),
    TakeToBox,
    TakeToArena,
    TakeDrop(usize),
    TakeForget(usize),
    /// A.extend of n objects through an iterator with one of the size hints
    Extend(usize, usize),
    /// B = A.take_elems().collect()
    Collect,
    /// the same through an iterator with one of the size hints
    CollectHint(usize),
    /// B.extend(A.take_elems())
    ExtendFromA,
    WriteFirst,
    WriteLast,
    SetAll,
    BoxSet,
    OwnSet,
    CloneToB,
    CloneToBox,
    Swap,
    DropA,
    LookupAll,
    /// push through an initializer that panics half-way
    BadPush(usize),
    /// push whose initializer has no layout, or one too large for any allocation
    OverPush(bool),
    BadBox(usize),
    BadArena(usize),
    /// build an initializer and never use it
    Abandon(usize, usize),
    AbandonDeep(usize),
    /// into_raw without from_raw (the harness frees it at the very end)
    BoxLeak,
    BoxNewDeep(usize),
}

/// Initializer whose n-th nested use panics: takes a valid layout, then panics inside `initialize`.
pub struct PanicInit<'e, T: Subj>(pub AnyInit<'e, T>, pub bool);
unsafe impl<'e, T: Subj> Initializer<T> for PanicInit<'e, T> {
    fn calculate_layout_cautious(&self) -> Option<T::Layout> {
        self.0.calculate_layout_cautious()
    }
    unsafe fn initialize(self, _dst: std::ptr::NonNull<T>, _layout: T::Layout) {
        host(|| std::panic::panic_any(crate::tok::Injected))
    }
}

/// No layout at all, or an impossible one; must never be run.
pub struct NoInit<'e, T: Subj>(pub Option<AnyInit<'e, T>>);
unsafe impl<'e, T: Subj> Initializer<T> for NoInit<'e, T> {
    fn calculate_layout_cautious(&self) -> Option<T::Layout> {
        if let Some(i) = &self.0 {
            let _ = i.calculate_layout_cautious();
            host(|| std::panic::panic_any(crate::tok::Injected))
        }
        None
    }
    unsafe fn initialize(self, _dst: std::ptr::NonNull<T>, _layout: T::Layout) {
        crate::fail!("initialize() called although the initializer has no layout");
    }
}

pub const HINTS: usize = 8;
/// An iterator of known length that says as little or as much about it as it is allowed to.
pub struct Hinted<It> {
    pub it: It,
    pub hint: usize,
}
impl<It: Iterator> Iterator for Hinted<It> {
    type Item = It::Item;
    fn next(&mut self) -> Option<It::Item> {
        crate::tok::fault_point(crate::tok::F_ITER);
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (lo, hi) = self.it.size_hint();
        match self.hint {
            0 => (0, None),
            1 => (0, Some(usize::MAX)),
            2 => (0, hi),
            3 => (lo, hi),
            4 => (lo.min(1), None),
            5 => (lo, None),
            6 => (lo, Some(usize::MAX)),
            _ => (lo / 2, hi.map(|h| h + 1)),
        }
    }
}

pub struct World<'e, T: Subj, I: Ix> {
    pub env: &'e Env,
    pub a: Sim<T, I>,
    pub b: Sim<T, I>,
    pub bx: Option<(VBox<T>, Val)>,
    pub ow: Option<(Owned<'e, T>, Val)>,
    pub shapes: Vec<Vec<usize>>,
    /// parts of objects are always handed over directly
    pub flat: bool,
    pub leaked: i64,
    /// objects leaked in the arena: must stay intact
    pub leaked_objs: Vec<(&'e T, Val)>,
    n: u64,
}

pub fn zero(_: usize) -> usize {
    0
}

impl<'e, T: Subj, I: Ix> World<'e, T, I> {
    pub fn new(env: &'e Env, shapes: &[Vec<usize>]) -> Self {
        World { env, a: Sim::new(), b: Sim::new(), bx: None, ow: None, shapes: host(|| shapes.to_vec()), flat: false, leaked: 0, leaked_objs: vec![], n: 0 }
    }
    fn fresh(&mut self, sh: usize) -> Val {
        self.n += 1;
        let n = self.n;
        host(|| T::make(&self.shapes[sh.min(self.shapes.len() - 1)], n * 131 + 17))
    }
    pub fn enabled(&self, op: Op) -> bool {
        use Op::*;
        match op {
            Push(s, _) | PushDeep(s) | PushB(s) | BadPush(s) | BadBox(s) | BadArena(s) | Abandon(s, _) | AbandonDeep(s) => s < self.shapes.len(),
            BoxNew(s, _) | BoxNewDeep(s) => self.bx.is_none() && s < self.shapes.len(),
            OwnNew(s, _) => self.ow.is_none() && s < self.shapes.len(),
            BoxToA | BoxToB | BoxLeak | BoxClone | BoxRaw | BoxDrop | BoxSet | BoxRebox => self.bx.is_some(),
            BoxToArena => self.bx.is_some() && self.ow.is_none(),
            OwnToA | OwnRaw | OwnDrop | OwnLeak | OwnSet | OwnMove => self.ow.is_some(),
            OwnToBox => self.ow.is_some() && self.bx.is_none(),
            TakeMove(k) => k <= self.a.model.len() && !self.a.model.is_empty(),
            TakeDrop(k) | TakeForget(k) => k <= self.a.model.len(),
            TakeToBox => !self.a.model.is_empty() && self.bx.is_none(),
            TakeToArena => !self.a.model.is_empty() && self.ow.is_none(),
            CloneToBox => !self.a.model.is_empty() && self.bx.is_none(),
            WriteFirst | WriteLast | CloneToB | SetAll => !self.a.model.is_empty(),
            Extend(..) | Collect | CollectHint(_) | ExtendFromA | Swap | DropA | OverPush(_) => true,
            LookupAll => I::CHECKED,
        }
    }
    pub fn step(&mut self, ops: &[Op]) -> Op {
        let en: Vec<Op> = host(|| ops.iter().copied().filter(|&o| self.enabled(o)).collect());
        if en.is_empty() {
            return ops[0];
        }
        let o = en[choose(en.len())];
        host(|| drop(en));
        self.apply(o);
        o
    }
    fn push_route(&mut self, sh: usize, r: usize, deep: bool, to_b: bool) {
        let v = self.fresh(sh);
        let (env, flat) = (self.env, self.flat);
        let init = if deep { any::<T>(&v, &mut |n| choose(n), env) } else { any_route::<T>(r, &v, &mut |n| (r * 7 + 3) % n * (r != 0 && !flat) as usize, env) };
        if to_b { self.b.push(v, init) } else { self.a.push(v, init) }
    }
    pub fn apply(&mut self, o: Op) {
        use Op::*;
        log(|| format!("{:?}", o));
        if !matches!(o, Push(..) | PushB(..) | PushDeep(..) | TakeDrop(..) | TakeForget(..) | LookupAll) {
            op();
        }
        let env = self.env;
        match o {
            Push(s, r) => self.push_route(s, r, false, false),
            PushDeep(s) => self.push_route(s, 0, true, false),
            PushB(s) => self.push_route(s, 0, false, true),
            BoxNew(s, r) => {
                let v = self.fresh(s);
                let i = any_route::<T>(r, &v, &mut zero, env);
                let b = lib(|| VBox::new(i));
                self.bx = Some((b, v));
            }
            BoxNewDeep(s) => {
                let v = self.fresh(s);
                let i = any::<T>(&v, &mut |n| choose(n), env);
                let b = lib(|| VBox::new(i));
                self.bx = Some((b, v));
            }
            AbandonDeep(s) => {
                let v = self.fresh(s);
                let i = any::<T>(&v, &mut |n| choose(n), env);
                lib(|| drop(i));
                host(|| drop(v));
            }
            BoxLeak => {
                let (b, v) = self.bx.take().unwrap();
                let r = env.keep(b);
                self.leaked += tokens::<T>(&v);
                host(|| self.leaked_objs.push((r, v)));
            }
            BoxToA => {
                let (b, v) = self.bx.take().unwrap();
                self.a.push(v, b);
            }
            BoxToB => {
                let (b, v) = self.bx.take().unwrap();
                self.b.push(v, b);
            }
            BoxToArena => {
                let (b, v) = self.bx.take().unwrap();
                env.guard();
                self.ow = Some((lib(|| Owned::new_in(b, &env.bump)), v));
                env.guard();
            }
            BoxClone => {
                // replace the box by its clone (if the type can be cloned), destroying the original
                let (b, v) = self.bx.take().unwrap();
                let c = match b.clo() {
                    Some(c) => Some(lib(|| VBox::new(c))),
                    None => None,
                };
                match c {
                    Some(c) => {
                        lib(|| drop(b));
                        self.bx = Some((c, v));
                    }
                    None => self.bx = Some((b, v)),
                }
            }
            BoxRaw => {
                let (b, v) = self.bx.take().unwrap();
                let p = unsafe { b.into_raw() };
                self.bx = Some((unsafe { VBox::from_raw(p) }, v));
            }
            BoxDrop => {
                let (b, v) = self.bx.take().unwrap();
                lib(|| drop(b));
                host(|| drop(v));
            }
            BoxRebox => {
                let (b, v) = self.bx.take().unwrap();
                self.bx = Some((lib(|| VBox::new(b)), v));
            }
            OwnNew(s, r) => {
                let v = self.fresh(s);
                let i = any_route::<T>(r, &v, &mut zero, env);
                env.guard();
                self.ow = Some((lib(|| Owned::new_in(i, &env.bump)), v));
                env.guard();
            }
            OwnToA => {
                let (b, v) = self.ow.take().unwrap();
                self.a.push(v, b);
            }
            OwnToBox => {
                let (b, v) = self.ow.take().unwrap();
                self.bx = Some((lib(|| VBox::new(b)), v));
            }
            OwnRaw => {
                let (b, v) = self.ow.take().unwrap();
                let p = unsafe { b.into_raw() };
                self.ow = Some((unsafe { Owned::from_raw(p) }, v));
            }
            OwnDrop => {
                let (b, v) = self.ow.take().unwrap();
                lib(|| drop(b));
                host(|| drop(v));
            }
            OwnLeak => {
                let (b, v) = self.ow.take().unwrap();
                let r = lib(|| b.leak());
                let r: &'e T = unsafe { &*(std::pin::Pin::into_inner_unchecked(r) as *const T) };
                self.leaked += tokens::<T>(&v);
                if tokens::<T>(&v) > 0 {
                    allow_live_tokens();
                }
                host(|| self.leaked_objs.push((r, v)));
            }
            OwnMove => {
                let (b, v) = self.ow.take().unwrap();
                env.guard();
                self.ow = Some((lib(|| Owned::new_in(b, &env.bump)), v));
                env.guard();
            }
            TakeMove(k) => {
                let b = &mut self.b;
                let mut moved = vec![];
                self.a.take(k, false, |_, o, v| {
                    let v = host(|| v.clone());
                    if host(|| { moved.push(v.clone()); true }) {
                        b.push(v, o);
                    }
                });
                host(|| drop(moved));
            }
            TakeToBox => {
                let bx = &mut self.bx;
                self.a.take(1, false, |_, o, v| {
                    *bx = Some((lib(|| VBox::new(o)), host(|| v.clone())));
                });
            }
            TakeToArena => {
                let ow = &mut self.ow;
                self.a.take(1, false, |_, o, v| {
                    env.guard();
                    *ow = Some((lib(|| Owned::new_in(o, &env.bump)), host(|| v.clone())));
                    env.guard();
                });
            }
            TakeDrop(k) => self.a.take(k, false, |_, o, _| lib(|| drop(o))),
            TakeForget(k) => {
                let before = self.a.leaked;
                self.a.take(k, true, |_, o, _| lib(|| drop(o)));
                self.leaked += self.a.leaked - before;
                self.a.leaked = before;
            }
            Extend(n, hint) => {
                let mut vs = vec![];
                let mut is = vec![];
                for i in 0..n {
                    let v = self.fresh(i);
                    let init = any_route::<T>(i % ROUTES, &v, &mut zero, env);
                    host(|| {
                        vs.push(v);
                        is.push(init);
                    });
                }
                let it = Hinted { it: is.into_iter(), hint };
                lib(|| self.a.s().extend(it));
                for v in vs {
                    self.a.appended(v);
                }
            }
            Collect | CollectHint(_) => {
                self.b.drop_seq();
                let model = std::mem::take(&mut self.a.model);
                let s: Seq<T, I> = match o {
                    CollectHint(hint) => lib(|| Hinted { it: self.a.s().take_elems(), hint }.collect()),
                    _ => lib(|| self.a.s().take_elems().collect()),
                };
                self.b.seq = Some(s);
                self.b.occ = 0;
                for v in model {
                    self.b.appended(v);
                }
                self.a.clear_model();
            }
            ExtendFromA => {
                let model = std::mem::take(&mut self.a.model);
                let (a, b) = (&mut self.a, &mut self.b);
                lib(|| b.s().extend(a.s().take_elems()));
                for v in model {
                    self.b.appended(v);
                }
                self.a.clear_model();
            }
            WriteFirst | WriteLast => {
                let n = self.a.model.len();
                let i = if o == WriteFirst { 0 } else { n - 1 };
                self.write(i);
            }
            SetAll => {
                self.n += 1;
                let k = self.n;
                let mut f = |l: usize, i: usize, x: u64| x ^ cell(k, l, i);
                for (i, e) in self.a.seq.as_mut().unwrap().iter_mut().enumerate() {
                    e.set_all(0, &mut f);
                    if i < self.a.model.len() {
                        host(|| model_set_all::<T>(&mut self.a.model[i], &mut f));
                    }
                }
            }
            BoxSet => {
                self.n += 1;
                let k = self.n;
                let (b, v) = self.bx.as_mut().unwrap();
                let mut f = |l: usize, i: usize, x: u64| x ^ cell(k, l, i);
                b.as_mut().set_all(0, &mut f);
                host(|| model_set_all::<T>(v, &mut f));
            }
            OwnSet => {
                self.n += 1;
                let k = self.n;
                let (b, v) = self.ow.as_mut().unwrap();
                let mut f = |l: usize, i: usize, x: u64| x ^ cell(k, l, i);
                b.as_mut().set_all(0, &mut f);
                host(|| model_set_all::<T>(v, &mut f));
            }
            CloneToB => {
                let n = self.a.model.len();
                let v = host(|| self.a.model[n - 1].clone());
                let off = self.a.offs[n - 1];
                let a = self.a.seq.as_ref().unwrap();
                let e = if Sim::<T, I>::span(&v) == 0 { a.iter().last().unwrap() } else { I::get(a, off) };
                if let Some(c) = e.clo() {
                    self.b.push(v, c);
                }
            }
            CloneToBox => {
                let v = host(|| self.a.model[0].clone());
                let a = self.a.seq.as_ref().unwrap();
                let e = a.iter().next().unwrap();
                if let Some(c) = e.clo() {
                    self.bx = Some((lib(|| VBox::new(c)), v));
                }
            }
            Swap => std::mem::swap(&mut self.a, &mut self.b),
            DropA => {
                self.a.drop_seq();
                self.a.seq = Some(lib(|| Seq::new()));
            }
            LookupAll => self.a.lookup_all(),
            BadPush(s) => {
                let v = self.fresh(s);
                let i = PanicInit(any_route::<T>(0, &v, &mut zero, env), true);
                let r = catch(|| lib(|| self.a.s().push(i)));
                gcheck!(CONTENT, r.is_none(), "panic of an initializer was swallowed");
                host(|| drop(v));
            }
            OverPush(b) => {
                let v = self.fresh(0);
                let i = NoInit(if b { Some(any_route::<T>(0, &v, &mut zero, env)) } else { None });
                let r = catch(|| lib(|| self.a.s().push(i)));
                gcheck!(CONTENT | VALID | OFFSET, r.is_none(), "push of an object without a layout succeeded");
                host(|| drop(v));
            }
            BadBox(s) => {
                let v = self.fresh(s);
                let i = PanicInit(any_route::<T>(0, &v, &mut zero, env), true);
                allow_leaks();
                let r = catch(|| lib(|| VBox::new(i)));
                gcheck!(CONTENT, r.is_none(), "panic of an initializer was swallowed");
                host(|| drop(v));
            }
            BadArena(s) => {
                let v = self.fresh(s);
                let i = PanicInit(any_route::<T>(0, &v, &mut zero, env), true);
                let r = catch(|| lib(|| Owned::new_in(i, &env.bump)));
                gcheck!(CONTENT, r.is_none(), "panic of an initializer was swallowed");
                std::mem::forget(r);
                host(|| drop(v));
            }
            Abandon(s, r) => {
                let v = self.fresh(s);
                let i = any_route::<T>(r, &v, &mut zero, env);
                lib(|| drop(i));
                host(|| drop(v));
            }
        }
    }
    pub fn write(&mut self, i: usize) {
        self.n += 1;
        let x = cell(self.n, 1, 2);
        let lens = host(|| lens_of::<T>(&self.a.model[i]));
        // the last cell of the last non-empty leaf and the first cell of the first one
        let leaf = if self.n % 2 == 0 { lens.iter().position(|&n| n > 0) } else { lens.iter().rposition(|&n| n > 0) };
        if let Some(l) = leaf {
            let idx = if self.n % 2 == 0 { 0 } else { lens[l] - 1 };
            let off = self.a.offs[i];
            let span = Sim::<T, I>::span(&self.a.model[i]);
            let s = self.a.seq.as_mut().unwrap();
            if span == 0 {
                if let Some(e) = s.iter_mut().nth(i) {
                    e.set(l, idx, x);
                }
            } else {
                I::get_mut(s, off).set(l, idx, x);
            }
            host(|| model_set::<T>(&mut self.a.model[i], l, idx, x));
        }
        host(|| drop(lens));
    }
    pub fn observe(&mut self, rem: usize) {
        self.a.observe(rem);
        self.b.observe(rem);
        if let Some((b, v)) = &self.bx {
            let got = read::<T>(b);
            gcheck_eq!(CONTENT, got, *v, "content of the box");
            if on(MEM) {
                let size = r_size::<T>(&lens_of::<T>(v));
                let p = &**b as *const T as usize;
                if size > 0 {
                    let blk = crate::alloc::ST.with(|s| s.block_at(p));
                    gcheck_eq!(MEM, blk, Some((size, T::r_align())), "allocation (size, align) behind a box of a {}-byte object", size);
                }
                gcheck!(MEM, p % T::r_align() == 0, "box at {:#x} is not aligned to {}", p, T::r_align());
            }
        }
        if let Some((b, v)) = &self.ow {
            let got = read::<T>(b);
            gcheck_eq!(CONTENT, got, *v, "content of the arena object");
            let p = &**b as *const T as usize;
            gcheck!(MEM, p % T::r_align() == 0, "arena object at {:#x} is not aligned to {}", p, T::r_align());
        }
        for (o, v) in &self.leaked_objs {
            let got = read::<T>(*o);
            gcheck_eq!(CONTENT | TOK, got, *v, "content of a leaked arena object");
        }
        if on(MEM) {
            self.env.check_guards();
        }
        if on(TOK | TOKLEAK) {
            let held = self.held();
            expect_live(self.env, held, "this operation");
        }
        stop_if_violated();
    }
    pub fn held(&self) -> i64 {
        let mut n = self.a.tokens() + self.b.tokens() + self.leaked;
        if let Some((_, v)) = &self.bx {
            n += tokens::<T>(v);
        }
        if let Some((_, v)) = &self.ow {
            n += tokens::<T>(v);
        }
        n
    }
    pub fn finish(mut self) {
        let bx = self.bx.take();
        lib(|| drop(bx.map(|b| b.0)));
        let ow = self.ow.take();
        lib(|| drop(ow.map(|b| b.0)));
        self.a.drop_seq();
        self.b.drop_seq();
        if on(TOK | TOKLEAK) {
            expect_live(self.env, self.leaked, "everything was dropped");
        }
        for (o, v) in &self.leaked_objs {
            let got = read::<T>(*o);
            gcheck_eq!(CONTENT | TOK, got, *v, "content of a leaked arena object");
        }
        stop_if_violated();
    }
}

/// One execution: a history of `depth` operations from `ops`, everything observed after each.
pub fn history<T: Subj, I: Ix>(ops: &[Op], depth: usize, shapes: &[Vec<usize>]) {
    let env = Env::new();
    {
        let mut w: World<T, I> = World::new(&env, shapes);
        w.observe(depth);
        for i in 0..depth {
            w.step(ops);
            w.observe(depth - 1 - i);
        }
        w.finish();
    }
    drop(env);
}

/// As `history`; at the end every offset is looked up.
pub fn history_lookup<T: Subj, I: Ix>(ops: &[Op], depth: usize, shapes: &[Vec<usize>]) {
    let env = Env::new();
    {
        let mut w: World<T, I> = World::new(&env, shapes);
        for i in 0..depth {
            w.step(ops);
            w.observe(depth - 1 - i);
        }
        w.a.lookup(false);
        w.b.lookup(false);
        w.observe(0);
        w.finish();
    }
    drop(env);
}
/// deeper when the type has a single shape
pub fn depth_for<T: Subj>(depth: usize, nshapes: usize) -> usize {
    if pick_shapes::<T>(nshapes).len() == 1 { depth + 2 } else { depth }
}
pub fn hist_section<T: Subj, I: Ix>(tag: &str, ops: Vec<Op>, depth: usize, nshapes: usize) -> Section {
    let shapes = pick_shapes::<T>(nshapes);
    let depth = depth_for::<T>(depth, nshapes);
    Section {
        name: format!("{} {} depth {}", tag, seq_name::<T, I>(), depth),
        dev: 0,
        body: Box::new(move || history::<T, I>(&ops, depth, &shapes)),
    }
}
